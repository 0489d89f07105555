"""P09: scalar formats over the whole string."""

from rv import gen, lib
from rv.embed import good_embed
from rv.spec import BAD_URLS, CATALOG, EMAIL_OK, URLS, interpret
from rv.util import FIELDS, ROOT, T, accept, dump_is, fix_min, matches, refuse

RULE = ("a case is one formatted field (version, e-mail, URL, correlation location) and one string derived from the grammar by edits, "
        "decided by an independent oracle; distinct (field, string) counted")

SITES = [(n, f) for n, f in FIELDS if f["type"][0] in ("email", "url") or (n == "AsyncAPI3" and f["json"] == "asyncapi") or (n == "CorrelationID" and f["json"] == "location")]
WS = ["", " ", "\n", "\t", "\r\n", "\u00a0", "\x00", "\u200b", "\n\n", "\x0b", "\u2028"]


def edit(r, s, alpha):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        op = r.random()
        i = r.randrange(len(s) + 1)
        if op < 0.45:
            s = s[:i] + r.choice(alpha) + s[i:]
        elif op < 0.75 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i + 1:]
        elif s:
            i = min(i, len(s) - 1)
            s = s[:i] + r.choice(alpha) + s[i + 1:]
    return s


def version(r):
    x = r.random()
    base = f"{r.choice(['3', '3', '3', '3', '2', '4', '30', '13', '33', '0', '', '-3'])}.{r.choice(['0', '1', '10', '00', '', '999'])}.{r.choice(['0', '1', '12', '007', ''])}"
    if x < 0.06:
        return f"3.{'1' * r.choice([1, 5, 40])}.{'2' * r.choice([1, 5, 9, 20, 300])}" + r.choice(["", "-" + r.choice(["a", "a.b", "0", "-_"]) * r.choice([9, 17, 33, 65, 300])])
    if x < 0.5:
        base += r.choice(["", "", "-rc1", "-alpha.1", "-", "-a_b-c", "+build", "-a b", ".1", "-é", "-1.2.3", "--", "-.", "-\n", "rc1", "-a/b", "-next\n"])
    if r.random() < 0.35:
        base = r.choice(WS) + base + r.choice(WS)
    if r.random() < 0.3:
        base = edit(r, base, "0123456789.-_aZ+ \n٣３v")
    return base


def email(r):
    x = r.random()
    if x < 0.25:
        s = r.choice([b for b in gen.BAD_EMAILS if isinstance(b, str)])
    else:
        loc = "".join(r.choice("abZ09._%+-") for _ in range(r.choice([0, 1, 3, 8, 64])))
        dom = ".".join("".join(r.choice("abZ09-") for _ in range(r.choice([0, 1, 3, 20]))) for _ in range(r.choice([1, 1, 2, 3])))
        tld = "".join(r.choice("abcXYZ") for _ in range(r.choice([0, 1, 2, 2, 3, 10])))
        s = f"{loc}@{dom}.{tld}"
    if r.random() < 0.2:
        s = r.choice(WS) + s + r.choice(WS)
    if r.random() < 0.35:
        s = edit(r, s, "abZ09._%+-@@.. \n\té!#'\"<>,;")
    return s


def location(r):
    s = r.choice(["$message.header#/a", "$message.payload#/b/c", "$message.", "$message", "message.header", "$Message.header", "$message-x", "$request.header#/a", "", "$", "$message.\n", "$message.é"])
    if r.random() < 0.1:
        s = r.choice(["$message.header#/", "$message.payload#/a/", "$message."]) + r.choice([r.choice(gen.TEXTS), "a/" * r.choice([20, 100, 3000])])
    if r.random() < 0.3:
        s = r.choice(WS) + s + r.choice(WS)
    if r.random() < 0.3:
        s = edit(r, s, "$mesag.x \n")
    return s


def url(r):
    x = r.random()
    if x < 0.35:
        return gen.made_url(r)
    if x < 0.6:
        return r.choice(sorted(URLS))
    return r.choice([*BAD_URLS, 5, None, True, [], {}, ["https://example.com/"], {"url": "https://example.com/"}])


def decide(case, name, f, s):
    t = f["type"]
    o = fix_min(case, name, f["json"], s)
    o[f["json"]] = s
    v = interpret(T(name), o)
    case.see("verdict:" + v.status)
    if v.status == "gray":
        return None
    how = case.rng.choice(["parse", "construct", "assign"])
    cls = lib.cls(name)

    def run():
        if how == "parse":
            return cls.model_validate(o)
        if how == "construct":
            return cls(**o)
        good = {"asyncapi": "3.0.0", "location": "$message.a#/b"}.get(f["json"])
        g = {**o, f["json"]: good if good and t[0] == "str" else gen.Gen(case.rng).gen(t)}
        m = cls.model_validate(g)
        setattr(m, f["py"], s)
        return m

    if s is None and f.get("null"):
        return None
    what = f"{name}.{f['json']} = {s!r:.120} by {how}"
    if v.status == "ok":
        m = accept(case, run, what, o)
        matches(case, T(name), v.canon, m, what, o)
        dump_is(case, v.canon, m, what, o)
        case.state("kept", name, f["json"], how)
    else:
        refuse(case, run, what, v.why, o)
        case.state("refused", name, f["json"], how)
    case.distinct(name, f["json"], s, how)
    return o, v


def fields(case):
    name, f = SITES[case.i % len(SITES)]
    k = f["type"][0]
    for _ in range(12):
        r = case.rng
        s = url(r) if k == "url" else email(r) if k == "email" else version(r) if f["json"] == "asyncapi" else location(r)
        res = decide(case, name, f, s)
    if res and name != ROOT:
        o, v = res
        ok = fix_min(case, name, f["json"], s if v.status == "ok" else gen.Gen(case.rng).gen(f["type"]))
        if interpret(T(name), ok).status != "ok":
            return
        e = good_embed(case.rng, name, ok)
        if e:
            d = gen.set_at(e[0], e[1], o)
            dv = interpret(T(ROOT), d)
            if dv.status == "ok":
                m = accept(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name}.{f['json']}={s!r:.80}", d)
                dump_is(case, dv.canon, m, "document", d)
            elif dv.status == "bad":
                refuse(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name}.{f['json']}={s!r:.80}", dv.why, d)
            case.see("embedded")
    case.sample([name, f["json"], s])


def grammar(case):
    """Dense probing of the version, e-mail and location grammars (cheap, many strings)."""
    r = case.rng
    which = case.i % 3
    for _ in range(150):
        if which == 0:
            s = version(r)
            o, name = {"asyncapi": s, "info": {"title": "t", "version": "v"}}, ROOT
        elif which == 1:
            s = email(r)
            o, name = {"email": s}, "Contact"
            assert (interpret(T(name), o).status == "ok") == bool(EMAIL_OK.match(s) and ".." not in s)
        else:
            s = location(r)
            o, name = {"location": s}, "CorrelationID"
        v = interpret(T(name), o)
        if v.status == "gray":
            case.see("gray")
            continue
        st, m = lib.attempt(lib.cls(name).model_validate, o)
        case.see(f"grammar:{which}:{st}")
        case.check(st == ("ok" if v.status == "ok" else "invalid"), "format-decision", lambda: f"{name} {s!r}: {st}, oracle {v.status} {v.why}", o)
        case.distinct(name, s)


STAGES = {"fields": (fields, len(SITES) * 60, len(SITES) * 1200), "grammar": (grammar, 240, 6000)}
FLOORS = {"state:kept": 30, "state:refused": 30, "grammar:0:ok": 300, "grammar:0:invalid": 1500, "grammar:1:ok": 400, "grammar:1:invalid": 1500,
          "grammar:2:ok": 800, "grammar:2:invalid": 800, "embedded": 200}
