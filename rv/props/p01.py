"""P01: conforming documents and objects are accepted and readable (reference-model monitor)."""

from rv import gen, lib
from rv import words as W
from rv.gen import jx
from rv.spec import deep_eq, first_diff, interpret
from rv.util import FIELDS, NAMES, ROOT, T, accept, cover, falsy_values, fix_min, in_doc, matches, rand_doc, rand_instance, scale, texts, SCALED, TEXT_FIELDS

RULE = ("cases are conforming documents/objects drawn from the frozen catalog by a hostile generator; a case is non-trivial when the "
        "oracle calls it conforming and its value is new; each is parsed by the real code and every attribute compared with the oracle")


def docs(case):
    d, canon = rand_doc(case)
    if d is None:
        return
    cover(case, T(ROOT), d)
    m = accept(case, lambda: lib.AsyncAPI3.model_validate(d), "document", d)
    matches(case, T(ROOT), canon, m, "document", d)
    case.distinct(d)
    case.sample(d)


def instances(case):
    name = NAMES[case.i % len(NAMES)]
    x, canon = rand_instance(case, name, ["min", "max", "random"][case.i // len(NAMES) % 3])
    if x is None:
        return
    cover(case, T(name), x)
    m = accept(case, lambda: lib.cls(name).model_validate(x), name, x)
    matches(case, T(name), canon, m, name, x)
    case.distinct(name, x)
    r = in_doc(case, name, x)
    if r and name != ROOT:
        d, path, _ = r
        m = accept(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} at {path}", d)
        matches(case, T(ROOT), interpret(T(ROOT), d).canon, m, f"document with {name} at {path}", d)
        case.see("embedded")


def uniform(case):
    """Objects in which nearly all texts are the same, and parts repeat."""
    name = NAMES[case.i % len(NAMES)]
    r = case.rng
    for _ in range(8):
        g = gen.Gen(r, p=r.choice([0.3, 0.5, 0.8]), depth=r.choice([2, 3])).uniform()
        x = jx(g.obj(name))
        v = interpret(T(name), x)
        if v.status != "ok":
            case.see("oracle:" + v.status)
            continue
        m = accept(case, lambda: lib.cls(name).model_validate(x), f"uniform {name}", x)
        matches(case, T(name), v.canon, m, f"uniform {name}", x)
        case.see("uniform")
        case.distinct(name, x)


def fields(case):
    """Every field: each small, falsy and boundary value, alone and among random company."""
    name, f = FIELDS[case.i % len(FIELDS)]
    g = gen.Gen(case.rng, p=0.5, depth=3)
    vals = falsy_values(f["type"]) + [g.gen(f["type"]) for _ in range(4)]
    if f["type"][0] == "list":
        one = g.gen(f["type"][1])
        vals += [[one], [g.gen(f["type"][1]) for _ in range(case.rng.choice([2, 3, 30]))]]
    for x in vals:
        base = fix_min(case, name, f["json"], x)
        v = interpret(T(name), base)
        if v.status != "ok":
            case.see("oracle:" + v.status)
            continue
        m = accept(case, lambda: lib.cls(name).model_validate(base), f"{name}.{f['json']}={x!r:.80}", base)
        matches(case, T(name), v.canon, m, f"{name}.{f['json']}={x!r:.80}", base)
        case.state("fields_probed", name, f["json"])
        case.distinct(name, base)


def reads(case):
    def use(name, y, canon, what):
        m = accept(case, lambda: lib.cls(name).model_validate(y), what, y)
        matches(case, T(name), canon, m, what, y)
        case.distinct(name, y)
    return use


def words(case):
    texts(case, reads(case))


def large(case):
    scale(case, reads(case))


def huge(case):
    """Documents with one very large part."""
    r = case.rng
    n = W.huge(r)
    how = r.choice(["list", "nested", "map", "text", "strings", "channels", "tags", "pairs", "payload"])
    ext = {"list": [0] * n, "nested": [[0] * 100] * (n // 100) + [0] * (n % 100), "map": {f"k{i}": None for i in range(n)}, "text": "a" * n, "strings": ["a"] * n, "pairs": [{"a": i} for i in range(n // 2)]}
    d = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}}
    if how in ext:
        at = r.choice([d, d["info"]])
        if how == "text" and r.random() < 0.5:
            d["info"]["description"] = ext[how]
        else:
            at["x-a"] = ext[how]
    elif how == "channels":
        d["channels"] = {f"c{i}": {} for i in range(min(n, 70_000))}
    elif how == "tags":
        d["info"]["tags"] = [{"name": f"t{i}"} for i in range(min(n, 70_000))]
    else:
        d["components"] = {"messages": {"m": {"payload": {"schemaFormat": "a/b", "schema": ["a"] * n}}}}
    st, m = lib.attempt(lib.AsyncAPI3.model_validate, jx(d))
    case.check(st == "ok", "rejects-conforming", lambda: f"document with {how} of size {n}: {st} {m!s:.200}", None)
    out = lib.dump(m)
    if how == "channels":
        out["channels"] = {k: {} if v == {"address": None} else v for k, v in out["channels"].items()}
    case.check(deep_eq(out, d), "value-differs", lambda: f"document with {how} of size {n} reads otherwise: {first_diff(d, out)}", None)
    case.see("huge")
    case.state("huge", how)


STAGES = {"uniform": (uniform, len(NAMES) * 6, len(NAMES) * 200), "huge": (huge, 6, 200), "words": (words, len(TEXT_FIELDS), len(TEXT_FIELDS) * 24), "large": (large, len(SCALED) // 2, len(SCALED) * 10), "docs": (docs, 2200, 60000), "instances": (instances, 1776, 60000), "fields": (fields, len(FIELDS) * 4, len(FIELDS) * 80)}
FLOORS = {"uniform": 3000, "huge": 20, "text:ok": 10000, "scale:ok": 1500, "state:text_fields": 100, "state:scaled": 150, "state:objects": 148, "state:fields": 455, "state:fields_probed": 455, "accepted": 3000}
