"""P08: key names of every patterned map."""

from rv import gen, lib, words
from rv.embed import good_embed
from rv.spec import CATALOG, KEY_OK, interpret
from rv.util import PATTERNED, ROOT, T, accept, build, dump_is, matches, refuse

RULE = ("a case is one named map type with one to thirty keys, all legal or with illegal keys at random places, by parsing, construction, "
        "item assignment or inside a document; distinct (type, key list) counted")

ALPHA = "aZ09_-" * 3 + " .\n/:$é٠'\"\\{}#~,@%&*()+=[]|!?<>;\t\x00\u200bﬀ日~^`\u212a\u017f\u0130\u0131\uff21\uff11\uff3f\u2010\u2011\u00b9\u2160"


def good_key(r):
    w = words.name(r)
    if w:
        return w
    x = r.random()
    if x < 0.4:
        return r.choice(gen.HOSTILE_KEYS)
    if x < 0.5:
        return r.choice(["_", "-", "--", "__", "a" * 300, "0" * 40, "A", "z", "9", "-a", "a-", "_0_", "x-a", "__proto__", "CON", "Z", "Az09_-"])
    return "".join(r.choice("abcxyzABCXYZ0189_-") for _ in range(r.choice([r.randrange(1, 12)] * 4 + [32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1024, 5000])))


def bad_key(r):
    x = r.random()
    if x < 0.5:
        return r.choice(gen.BAD_KEYS)
    while True:
        w = words.word(r)
        if w is not None:
            k = w
        elif x < 0.85:
            k = good_key(r)
            i = r.choice([0, len(k), r.randrange(len(k) + 1)])
            k = k[:i] + r.choice(ALPHA) + k[i:]
        else:
            k = "".join(r.choice(ALPHA) for _ in range(r.randrange(0, 8)))
        if not KEY_OK.match(k):
            return k


def maps(case):
    name = PATTERNED[case.i % len(PATTERNED)]
    r, c = case.rng, CATALOG[name]
    cls = lib.cls(name)
    g = gen.Gen(r, p=0.2, depth=2)
    n = r.choice([1, 1, 2, 3, 5, 8, 10, 11, 16, 17, 30, 32, 33, 50, 65, 101])
    keys = list(dict.fromkeys(good_key(r) for _ in range(n)))
    r.shuffle(keys)
    item = lambda: g.gen(c["item"])  # noqa: E731
    good = {k: item() for k in keys}
    v = interpret(T(name), good)
    if v.status != "ok":
        case.see("generator:" + v.status)
        return

    def setitems(d):
        m = cls({})
        for k, x in d.items():
            m[k] = gen.jx(x)
        return m

    pool = {}

    def live(d):
        """The entries as built models."""
        pool.update({k: build(r, c["item"], x) for k, x in good.items() if k not in pool})
        return {k: pool[k] if k in pool else r.choice(list(pool.values())) for k in d}

    def setlive(d):
        m, xs = cls({}), live(d)
        for k, x in xs.items():
            m[k] = x
        return m

    host = good_embed(r, name, good) if r.random() < 0.5 else None
    ways = {"parse": lambda d: cls.model_validate(gen.jx(d)), "construct": lambda d: cls(gen.jx(d)), "setitem": setitems,
            "root": lambda d: assign_root(cls, d),
            "live-parse": lambda d: cls.model_validate(live(d)), "live-construct": lambda d: cls(live(d)), "live-setitem": setlive, "live-root": lambda d: assign_root(cls, live(d))}
    if host:
        ways["document"] = lambda d: lib.AsyncAPI3.model_validate(gen.set_at(gen.jx(host[0]), host[1], gen.jx(d)))
    for how, fn in ways.items():
        m = accept(case, lambda: fn(good), f"{name} keys {keys!r:.200} by {how}", good)
        if how != "document":
            matches(case, T(name), v.canon, m, f"{name} by {how}", good)
            dump_is(case, v.canon, m, f"{name} by {how}", good)
            case.check(list(lib.dump(m)) == keys and list(m) == keys, "order-differs", lambda: f"{name}: {list(m)} != {keys}", good)
        else:
            d = gen.set_at(gen.jx(host[0]), host[1], gen.jx(good))
            cv = interpret(T(ROOT), d)
            if cv.status == "ok":
                out = dump_is(case, cv.canon, m, f"document with {name}", d)
                case.check(list(gen.get_at(out, host[1])) == keys, "order-differs", f"document with {name}", d)
        case.state("kept", name, how)
    case.distinct(name, keys)
    for _ in range(4):
        ks = list(keys)
        bk = bad_key(r)
        ks.insert(r.choice([0, len(ks), r.randrange(len(ks) + 1)]), bk)
        if r.random() < 0.2:
            ks.insert(r.randrange(len(ks)), bad_key(r))
        bad = {k: (good[k] if k in good else gen.jx(r.choice(list(good.values())))) for k in ks}
        for how, fn in ways.items():
            refuse(case, lambda: fn(bad), f"{name} with key {bk!r} among {len(ks)} by {how}", "illegal key", bad)
            case.state("refused", name, how)
        case.distinct(name, ks)
    case.sample([name, keys, bk])


def assign_root(cls, d):
    m = cls({})
    m.root = {k: gen.jx(x) if isinstance(x, dict) else x for k, x in d.items()}
    return m


def chars(case):
    """Every ASCII and many non-ASCII characters as single-character keys and at both ends."""
    name = PATTERNED[case.i % len(PATTERNED)]
    cls = lib.cls(name)
    ch = list(range(0, 256)) if case.i < len(PATTERNED) else [case.rng.randrange(256, 0x110000) for _ in range(120)]
    ref = {"$ref": "#/x"}
    for o in ch:
        if 0xD800 <= o < 0xE000:
            continue
        c = chr(o)
        for k in (c, "a" + c, c + "a", "a" + c + "b"):
            ok = bool(KEY_OK.match(k))
            st, m = lib.attempt(cls.model_validate, {k: ref})
            case.check(st == ("ok" if ok else "invalid"), "key-decision", lambda: f"{name}: key {k!r} {st}", k)
            case.see("keys_probed")


def many(case):
    """A malformed key among hundreds of good ones; hundreds of good ones alone."""
    r = case.rng
    name = PATTERNED[case.i % len(PATTERNED)]
    cls = lib.cls(name)
    n = r.choice([127, 128, 129, 200, 256, 257, 400, 513, 1025, *gen.new_sizes(r, 3000)])
    good = {f"{r.choice('kK_-')}{i}": {"$ref": "#/x"} for i in range(n)}
    keys = list(good)
    ways = {"parse": lambda d: cls.model_validate(d), "construct": lambda d: cls(d), "root": lambda d: assign_root(cls, d)}
    for how, fn in ways.items():
        m = accept(case, lambda: fn(gen.jx(good)), f"{name} with {n} keys by {how}", n)
        case.check(m is None or list(m) == keys, "order-differs", lambda: f"{name} with {n} keys by {how}", n)
        for at in (0, n // 2, n, r.randrange(n)):
            bk = bad_key(r)
            bad = dict([*list(good.items())[:at], (bk, {"$ref": "#/x"}), *list(good.items())[at:]])
            refuse(case, lambda: fn(bad), f"{name} with key {bk!r} as number {at} of {n} by {how}", "illegal key", [n, at, bk])
            case.see("many_refused")
    case.distinct(name, n)


FACTOR = 3
STAGES = {"maps": (maps, len(PATTERNED) * 40, len(PATTERNED) * 800), "chars": (chars, len(PATTERNED) * 2, len(PATTERNED) * 40),
          "many": (many, len(PATTERNED), len(PATTERNED) * 40)}
FLOORS = {"state:kept": 90, "state:refused": 90, "keys_probed": 15000, "many_refused": 500}
