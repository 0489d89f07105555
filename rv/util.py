"""Shared pieces of the property monitors."""

import json
import zlib

from rv import gen, lib, words
from rv.embed import good_embed
from rv.spec import CATALOG, deep_eq, first_diff, interpret, walk_live

NAMES = sorted(CATALOG)
ROOT = "AsyncAPI3"
FIELDS = [(n, f) for n in NAMES if CATALOG[n]["kind"] != "patterned" for f in CATALOG[n]["fields"]]
SCALE = [("field", n, f) for n, f in FIELDS if f["type"][0] in ("list", "map", "str", "any", "union") or f["type"][0] == "obj" and CATALOG[f["type"][1]]["kind"] == "patterned"]
PATTERNED = [n for n in NAMES if CATALOG[n]["kind"] == "patterned"]
T = lambda n: ["obj", n]  # noqa: E731


def rand_doc(case, **kw):
    """A conforming document with its canonical form (generator output the oracle confirms)."""
    r = case.rng
    for _ in range(6):
        d = gen.document(r, p=r.choice([0.12, 0.25, 0.4, 0.6]), depth=r.choice([4, 5, 6, 7]), **kw)
        v = interpret(T(ROOT), d)
        if v.status == "ok":
            return d, v.canon
        case.see("generator:" + v.status)
    return None, None


def rand_instance(case, name, mode=None, **kw):
    r = case.rng
    for _ in range(8):
        x = gen.instance(r, name, mode or r.choice(["min", "max", "random", "random"]), **kw)
        v = interpret(T(name), x)
        if v.status == "ok":
            return x, v.canon
        case.see("generator:" + v.status)
    return None, None


def cover(case, t, v):
    """Record which fields (and which falsy fields) of which objects the case exercised."""
    for path, tt, x in gen.typed_sites(t, v):
        if tt[0] == "obj" and isinstance(x, dict):
            c = CATALOG[tt[1]]
            case.state("objects", tt[1])
            if c["kind"] != "patterned":
                for f in c["fields"]:
                    if f["json"] in x:
                        case.state("fields", tt[1], f["json"])
                        if not x[f["json"]]:
                            case.state("falsy_fields", tt[1], f["json"])


def accept(case, fn, what, data=None):
    st, m = lib.attempt(fn)
    case.see("accepted" if st == "ok" else st)
    case.check(st == "ok", "rejects-conforming", lambda: f"{what}: {st} {m}"[:1200], data)
    return m


def refuse(case, fn, what, why, data=None, mech="accepts-nonconforming"):
    st, m = lib.attempt(fn)
    case.see("refused" if st == "invalid" else st)
    case.check(st != "crash", "wrong-exception", lambda: f"{what} ({why}): {type(m).__name__}: {m}"[:1200], data)
    case.check(st == "invalid", mech, lambda: f"{what} accepted although: {why}", data)
    return m


def matches(case, t, canon, live, what, data=None):
    d = walk_live(t, canon, live)
    case.check(d is None, "attributes-differ", lambda: f"{what}: {d}", data)


def dump_is(case, canon, m, what, data=None):
    out = lib.dump(m)
    d = first_diff(canon, out)
    case.check(d is None and deep_eq(canon, out), "dump-differs", lambda: f"{what}: {d}", data)
    return out


def map_order(t, canon, out, path="$"):
    """First map whose serialised key order differs."""
    k = t[0]
    if k == "list" and isinstance(canon, list):
        for i, (a, b) in enumerate(zip(canon, out)):
            d = map_order(t[1], a, b, f"{path}[{i}]")
            if d:
                return d
    elif k == "map" and isinstance(canon, dict):
        if list(canon) != list(out):
            return path
        for x in canon:
            d = map_order(t[1], canon[x], out[x], f"{path}.{x}")
            if d:
                return d
    elif k == "union" and isinstance(canon, dict) and set(canon) != {"$ref"}:
        objs = [a for a in t[1:] if a[0] == "obj"]
        if objs and not any(a[0] == "map" for a in t[1:]):
            a = objs[0]
            if len(objs) > 1:
                a = T("MultiFormatSchema") if "schema" in canon else T("Schema")
            return map_order(a, canon, out, path)
    elif k == "obj":
        c = CATALOG[t[1]]
        if c["kind"] == "patterned":
            if list(canon) != list(out):
                return path
            for x in canon:
                d = map_order(c["item"], canon[x], out[x], f"{path}.{x}")
                if d:
                    return d
        else:
            for f in c["fields"]:
                if canon.get(f["json"]) is not None:
                    d = map_order(f["type"], canon[f["json"]], out[f["json"]], f"{path}.{f['json']}")
                    if d:
                        return d
    return None


def falsy_values(t):
    """Small and boundary values of a type (verdict left to the oracle)."""
    k = t[0]
    if k == "any":
        return [0, 0.0, "", False, [], {}, True, "x", -1, [[]], [None], {"a": None}, {"": 0}, 2**70, {"$ref": "#/a"}]
    if k == "str":
        mx = t[1] if len(t) > 1 else None
        return ["", " ", "0", "false", "None", "\n", "\x00", "日本", "a" * (mx or 5000), "x"] + (["a" * (mx + 1), "é" * mx, "é" * (mx + 1)] if mx is not None else [])
    if k == "bool":
        return [True, False]
    if k == "int":
        lo, hi = (t[1], t[2]) if len(t) > 1 else (None, None)
        out = [0, 1, -1, 2**31, 2**63, 10**25]
        if lo is not None:
            out += [lo, lo + 1, lo - 1]
        if hi is not None:
            out += [hi, hi - 1, hi + 1]
        return out
    if k == "lit":
        return list(t[1:])
    if k == "list":
        return [[]]
    if k == "map":
        return [{}]
    return []


JUNK = [None, True, False, 0, 1, -1, 1.5, "", "junk", [], {}, [1], ["x"], [None], {"a": 1}, {"": None}, {"$ref": 5}, {"$ref": None},
        {"$ref": "#/x", "y": 1}, {"$ref": ["a"]}, {"x-a": 1}, 10**30, [[]], [{}], {"a": {}}, {"$ref": "#/x"}, "3.0.0", "send", *words.NEW[:8], *words.NUMS[:4]]


def key_of(x):
    return json.dumps(x, sort_keys=True, default=repr)[:400]


def in_doc(case, name, value, **kw):
    if name == ROOT:
        return value, [], []
    r = good_embed(case.rng, name, value, **kw)
    if r is None:
        case.see("generator:no-embed")
    return r


def fix_min(case, name, field, x, company=None):
    """`name` with field=x among minimal or random company, cross-field rules repaired around it."""
    r = case.rng
    only = () if company == "min" or (company is None and r.random() < 0.5) else None
    for _ in range(10):
        g = gen.Gen(r, p=0.5, depth=2)
        o = g.obj(name, only=()) if only == () else g.obj(name)
        o[field] = x
        fx = gen.FIXUPS.get(name)
        if fx and interpret(T(name), o).status != "ok":
            fx(g, o)
        if o.get(field, o) is x or o.get(field, o) == x:
            return o
    o[field] = x
    return o


def pick_alt(alts, v):
    """Which alternative of a union a conforming JSON value belongs to."""
    objs = [a for a in alts if a[0] == "obj"]
    if isinstance(v, dict):
        if ["ref"] in alts and set(v) == {"$ref"}:
            return ["ref"]
        if any(a[0] == "map" for a in alts):
            return ["any"] if objs else next(a for a in alts if a[0] == "map")
        if len(objs) == 2:
            return T("MultiFormatSchema") if "schema" in v else T("Schema")
        return objs[0] if objs else ["any"]
    if isinstance(v, list):
        return next((a for a in alts if a[0] == "list"), ["any"])
    return ["any"]


def build(rng, t, v, raw=0.0, alias=0.5, top=True):
    """The same value assembled from library objects (each through its own constructor)."""
    k = t[0]
    if not top and raw and rng.random() < raw:
        return gen.jx(v)
    if k == "ref":
        x = rng.random()
        if x < 0.4:
            return lib.Reference(ref=v["$ref"])
        return lib.Reference(**{"$ref": v["$ref"]}) if x < 0.7 else lib.Reference.model_validate(gen.jx(v))
    if k == "list":
        return [build(rng, t[1], x, raw, alias, False) for x in v]
    if k == "map":
        return {key: build(rng, t[1], x, raw, alias, False) for key, x in v.items()}
    if k == "union":
        return build(rng, pick_alt(t[1:], v), v, 0, alias, False)
    if k == "obj":
        c = CATALOG[t[1]]
        if c["kind"] == "patterned":
            return lib.cls(t[1])({key: build(rng, c["item"], x, raw, alias, False) for key, x in v.items()})
        kw = {}
        for key, x in v.items():
            f = c["by_json"].get(key)
            if f is None:
                kw[key] = gen.jx(x)
            else:
                kw[f["json"] if rng.random() < alias else f["py"]] = None if x is None else build(rng, f["type"], x, raw, alias, False)
        return lib.cls(t[1])(**kw)
    return gen.jx(v)


def field_subset(name, doc):
    return {f["json"] for f in CATALOG[name]["fields"] if f["json"] in doc}


def live_sections(r, d):
    """A document's fields, each as a live object."""
    by = CATALOG[ROOT]["by_json"]
    return {k: build(r, by[k]["type"], gen.jx(x)) if k in by else gen.jx(x) for k, x in d.items()}


def text_home(t):
    """How to put a text into a value of this type, or None."""
    k = t[0]
    if k == "str":
        return lambda s: s
    if k == "any":
        return lambda s: s if zlib.crc32(s.encode()) % 3 else {s: [s]}
    if k == "list":
        inner = text_home(t[1])
        return inner and (lambda s: [inner(s)])
    if k == "map":
        inner = text_home(t[1])
        return inner and (lambda s: {s: inner(s)})
    if k == "union":
        return next((h for h in map(text_home, t[1:]) if h), None)
    return None


# Free members: extensions, and keywords of schemas.
FREE_MEMBERS = [(n, {"json": m, "py": m, "type": ["any"]}) for n in NAMES if CATALOG[n]["kind"] in ("ext", "free")
                for m in (["x-t"] if CATALOG[n]["kind"] == "ext" else ["x-t", "title", "properties"])]
TEXT_FIELDS = [(n, f) for n, f in FIELDS if text_home(f["type"])] + FREE_MEMBERS
CHUNKS = 6


def texts(case, use):
    """Every notable text in every field that holds text; `use(name, value, canon, what)` judges."""
    name, f = TEXT_FIELDS[case.i % len(TEXT_FIELDS)]
    home = text_home(f["type"])
    base = None
    for j, s in enumerate(gen.TEXTS):
        if j % CHUNKS != case.i // len(TEXT_FIELDS) % CHUNKS:
            continue
        x = home(s)
        if base is None or case.rng.random() < 0.1:
            base = fix_min(case, name, f["json"], x, "min" if case.rng.random() < 0.7 else None)
        y = {**base, f["json"]: x}
        v = interpret(T(name), y)
        if v.status != "ok":
            y = fix_min(case, name, f["json"], x)
            v = interpret(T(name), y)
        if v.status != "ok":
            case.see("text:" + v.status)
            continue
        use(name, y, v.canon, f"{name}.{f['json']}={s!r:.60}")
        case.see("text:ok")
        case.state("text_fields", name, f["json"])


SCALED = [("map", n, None) for n in PATTERNED] + SCALE + [("field", n, f) for n, f in FREE_MEMBERS]


def scale(case, use):
    """Large values in every field that can hold one."""
    kind, name, f = SCALED[case.i % len(SCALED)]
    if kind == "map":
        vals = gen.big_values(case.rng, T(name))
    else:
        vals = gen.big_values(case.rng, f["type"])
    for x in vals:
        y = x if kind == "map" else fix_min(case, name, f["json"], x, "min")
        v = interpret(T(name), y)
        if v.status != "ok":
            case.see("scale:" + v.status)
            continue
        use(name, y, v.canon, f"{name}{'.' + f['json'] if f else ''} with a large value")
        case.see("scale:ok")
        case.state("scaled", name, f["json"] if f else "")
