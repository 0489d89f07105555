"""P07: specification extensions kept verbatim, other unknown members refused."""

import re

from rv import gen, lib, words
from rv.spec import CATALOG, EXT_GRAY, EXT_OK, deep_eq, interpret
from rv.util import NAMES, ROOT, T, accept, dump_is, in_doc, matches, rand_instance, refuse

RULE = ("a case is one object type, one member name at or near the extension pattern and one JSON value, through parsing, construction "
        "or assignment; distinct (type, name, value, way) counted")

NEAR = ["x", "x-", "-x-a", "X-a", "X-A", "x_a", "xa", "x- a", "x-a ", " x-a", "x-a\n", "\nx-a", "x-a\nx-b", "x-a/b", "x-a:b", "x-a$", "x-a,b", "x-a+b", "x-a@b",
        "x-a\t", "x-a\x00", "x-a\u200b", "x-\u2028", "x-*", "x-[", "x-a'b", "x-a\"", "x-a\\b", "x-a#", "x-a%20", "x-a~", "x-(a)", "y-a", "ext-a", "a-x-a", "x.a", "x--\r",
        "", "-", "extension", "vendor-a", "x-a b", "x–a", "х-a", "x-a!", "x-=", "x-{a}", "x-a;b", "x-&", "x-?", "x-^", "x-|", "x-`", "x-<>", "xx-a", "_x-a", "$x-a", "x-\u212a", "x-\u017f", "x-a\u0131", "x-\u0130", "\uff58-a", "x\u2010a", "x\uff0da", "x-\uff41", "x-\u0661", "x-\u00b2", "x-a\uff0e", "x-\uff3f", "\u00d7-a"]


def name_of(case, good):
    r = case.rng
    if good:
        if r.random() < 0.2:
            return gen.Gen(r).ext_name()
        if r.random() < 0.3:
            base = "x-" + "".join(chr(r.choice([*range(48, 58), *range(65, 91), *range(97, 123), 45, 46, 95])) for _ in range(r.choice([1, 1, 2, 5, 30, 60, 63, 64, 65, 100, 130, 255, 256, 300, 1025, 5000])))
            return base
        return r.choice([*gen.EXT_NAMES, *gen.POPULAR_EXT, "x-title", "x-$ref"[:3] + "ref", "x-root", "x-model_fields", "x-description", "x-00", "x-...", "x-___", "x----", "x-x-", "x-A", "x-Z9"])
    if r.random() < 0.3:
        s = "x-" + "".join(r.choice("abZ09._-") for _ in range(r.choice([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 20, 40, 61, 62, 63, 64, 65, 100, 126, 127, 128, 200, 254, 256, 300, 1025, 5000])))
        i = r.choice([r.randrange(len(s) + 1), r.randrange(len(s) + 1), len(s)])
        return s[:i] + r.choice(list(" \n\t\r/:$,+@#%&*()[]{}!?;'\"\\|^~=<>\x00\x7f\u2028\u00a0\u3000")) + s[i:]
    w = words.word(r)
    if w and w.isascii() and not re.match(r"x-[A-Za-z0-9._-]+\Z", w) and not w.startswith(("_", "model_")) and not hasattr(lib.AsyncAPI3, w) and not hasattr(lib.Reference, w):
        return w
    return r.choice(NEAR) if r.random() < 0.6 else r.choice(gen.STRAY)


VALUES = [None, True, False, 0, 1, -1.5, "", "text", [], {}, [None, {"a": []}], {"$ref": "#/x"}, {"x-a": {"": None}}, 2**80, {"type": "object", "description": None}]


def case_one(case):
    name = NAMES[case.i % len(NAMES)]
    c = CATALOG[name]
    if c["kind"] == "patterned":
        return
    x, _ = rand_instance(case, name)
    if x is None:
        return
    r = case.rng
    x = {k: v for k, v in x.items() if not k.startswith("x-")} if c["kind"] == "ext" else x
    for good in (True, True, False, False, False):
        names = {name_of(case, good)}
        while good and r.random() < 0.3:
            names.add(name_of(case, True))
        vals = {n: (gen.jx(r.choice(VALUES)) if r.random() < 0.7 else gen.Gen(r).any()) for n in names}
        if not good and r.random() < 0.4:
            vals = {"x-ok": 1, **vals} if r.random() < 0.5 else {**vals, "x-ok": 1}
        if any(n in c["by_json"] or n in c["py_only"] for n in vals):
            continue
        y = {**x, **vals}
        v = interpret(T(name), y)
        if v.status == "gray" or (v.status == "ok" and x.get("$ref")):
            case.see("gray")
            continue
        ways = {"parse": lambda: lib.cls(name).model_validate(gen.jx(y))}
        if "self" not in y:
            ways["construct"] = lambda: lib.cls(name)(**gen.jx(y))
        base = lib.cls(name).model_validate(gen.jx(x))
        before = lib.dump(base)

        def assign():
            m = lib.cls(name).model_validate(gen.jx(x))
            for n, val in vals.items():
                setattr(m, n, gen.jx(val))
            return m

        if c["kind"] != "free" and not any(n.startswith("_") or n == "" for n in vals):
            ways["assign"] = assign
        for how, fn in ways.items():
            what = f"{name} with {list(vals)!r:.120} by {how}"
            if v.status == "ok":
                m = accept(case, fn, what, y)
                dump_is(case, v.canon, m, what, y)
                matches(case, T(name), v.canon, m, what, y)
                if c["kind"] == "ext":
                    case.check(all(deep_eq(getattr(m, n), val) for n, val in vals.items()), "extension-attribute", lambda: what, y)
                case.state("kept", name, how)
            else:
                refuse(case, fn, what, v.why, y)
                case.state("refused", name, how)
            case.distinct(name, vals, how)
        case.check(deep_eq(lib.dump(base), before), "state-changed", "instance changed", y)
        if name != ROOT and r.random() < 0.2:
            e = in_doc(case, name, y if v.status == "ok" else x)
            if e:
                d = gen.set_at(e[0], e[1], y)
                dv = interpret(T(ROOT), d)
                if dv.status == "ok":
                    m = accept(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {list(vals)!r:.80} at {e[1]}", d)
                    dump_is(case, dv.canon, m, f"document with {name} {list(vals)!r:.80} at {e[1]}", d)
                elif dv.status == "bad":
                    refuse(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {list(vals)!r:.80} at {e[1]}", dv.why, d)
                case.see("embedded")
    case.sample([name, list(vals)])


def shapes(case):
    """Every small JSON value, as an extension of every object that may have some."""
    exts = [n for n in NAMES if CATALOG[n]["kind"] == "ext"]
    name = exts[case.i % len(exts)]
    r = case.rng
    x, _ = rand_instance(case, name, "min")
    if x is None:
        return
    vals = small_values()
    r.shuffle(vals)
    for i in range(0, len(vals), 24):
        y = {**{k: v for k, v in x.items() if not k.startswith("x-")}, **{f"x-{r.choice(['a', 'v', 'note'])}{j}": gen.jx(v) for j, v in enumerate(vals[i:i + 24])}}
        v = interpret(T(name), y)
        if v.status != "ok":
            continue
        how = r.choice(["parse", "construct"])
        m = accept(case, (lambda: lib.cls(name).model_validate(gen.jx(y))) if how == "parse" or "self" in y else (lambda: lib.cls(name)(**gen.jx(y))), f"{name} with small extensions by {how}", y)
        dump_is(case, v.canon, m, f"{name} with small extensions by {how}", y)
        case.see("shapes")
        case.distinct(name, sorted(map(repr, vals[i:i + 24])))


def small_values():
    atoms = [None, True, False, 0, 1, -1, 0.5, "", "a", "x-a", "$ref", "null", "#/x", "https://example.com/"]
    some = [None, True, 0, "", "a", [], {}, [None], {"a": None}, {"$ref": "a"}, [[]], [{}]]
    keys = ["a", "", "$ref", "x-a", "description", "name", "type", "root"]
    return [*atoms, [], {}, *([a] for a in atoms), *([a, b] for a in (None, 1, "a") for b in (None, 1, "a")), *({k: a} for k in keys for a in some), *([s] for s in some),
            *({"$ref": a, k: b} for a in (None, "#/x", 1) for k in ("a", "x-a", "summary") for b in (None, "t"))]


STAGES = {"shapes": (shapes, 100, 2000), "names": (case_one, len(NAMES) * 24, len(NAMES) * 500)}
FLOORS = {"shapes": 1500, "state:kept": 75, "state:refused": 300, "accepted": 3000, "refused": 8000, "embedded": 1500}
