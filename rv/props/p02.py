"""P02: structural faults anywhere are rejected with the validation error."""

import json

from rv import gen, lib
from rv.spec import CATALOG, interpret
from rv.util import FIELDS, JUNK, NAMES, PATTERNED, ROOT, T, cover, falsy_values, fix_min, in_doc, rand_doc, rand_instance, refuse

RULE = ("a case is a conforming document or object with one or two injected faults that the oracle (frozen catalog) calls structurally "
        "invalid; distinct faulty inputs are counted; the real parser must raise ValidationError for each")

UNKNOWN = ["unknown", "X-a", "x_a", "x-", "x-a b", "y-x-a", "xa", "", "description2", "$ref2", "bindingversion", "x-a\n", "x-a/b", "x-a:b",
           "model_config", "__dict__", "root", "x-é é", "-x-a", " x-a", "Title", "$id", "extra", "self", "x"]


def docs(case):
    d, _ = rand_doc(case)
    if d is None:
        return
    how = []
    for _ in range(case.rng.choice([1, 1, 1, 2])):
        d, h = gen.mutate(case.rng, T(ROOT), d)
        how.append(h)
    v = interpret(T(ROOT), d)
    case.see("verdict:" + v.status)
    if v.status != "bad":
        return
    refuse(case, lambda: lib.AsyncAPI3.model_validate(d), "document", v.why, d)
    case.state("mutations", how)
    case.distinct(d)
    case.sample(v.why)


def instances(case):
    name = NAMES[case.i % len(NAMES)]
    x, _ = rand_instance(case, name)
    if x is None:
        return
    keep = gen.jx(x)
    for _ in range(6):
        y, how = gen.mutate(case.rng, T(name), gen.jx(keep))
        v = interpret(T(name), y)
        if v.status != "bad":
            continue
        refuse(case, lambda: lib.cls(name).model_validate(y), name, v.why, y)
        case.state("mutations", how)
        case.state("objects", name)
        case.distinct(name, y)
    # the same fault deep inside a document
    y, how = gen.mutate(case.rng, T(name), gen.jx(keep))
    if name != ROOT and interpret(T(name), y).status == "bad":
        r = in_doc(case, name, keep)
        if r:
            d, path, _ = r
            d = gen.set_at(d, path, y)
            v = interpret(T(ROOT), d)
            if v.status == "bad":
                refuse(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} at {path}", v.why, d)
                case.see("embedded")
                case.state("embedded_objects", name)


def fields(case):
    """Every field against every junk value, every boundary neighbour, and absence when required."""
    name, f = FIELDS[case.i % len(FIELDS)]
    g = gen.Gen(case.rng, p=0.5, depth=2)
    good = g.gen(f["type"])
    text = json.dumps(good)
    # the value in other clothes: as JSON text, wrapped, as pairs
    dressed = [text, text + " ", "{}", "[]", "null", '{"a": 1}', "a,b", [good], [[good]], {"value": good}, {"default": good}, [text], list(good.items()) if isinstance(good, dict) else [["a", good]],
               list(good.values()) if isinstance(good, dict) else {"0": good}, [{"key": k, "value": v} for k, v in good.items()] if isinstance(good, dict) else {"items": good}]
    vals = list(JUNK) + falsy_values(f["type"]) + gen.bad_scalars(case.rng, f["type"], good) + dressed
    if f["type"][0] in ("list", "map"):
        inner = f["type"][1]
        for j in JUNK:
            ok = [g.gen(inner) for _ in range(case.rng.choice([0, 1, 2]))]
            if ok and case.rng.random() < 0.04:
                ok = [gen.jx(ok[k % len(ok)]) for k in range(case.rng.choice([20, 70, 130, 300]))]
            if f["type"][0] == "list":
                ok.insert(case.rng.randrange(len(ok) + 1), j)
                vals.append(ok)
            else:
                vals.append({**{f"k{i}": x for i, x in enumerate(ok)}, "bad": j})
    base = fix_min(case, name, f["json"], good, "min" if case.rng.random() < 0.5 else "any")
    if interpret(T(name), base).status != "ok":
        case.see("generator:not-ok")
        return
    host = None
    if case.rng.random() < 0.5:
        host = in_doc(case, name, base)
    for x in vals:
        y = {**base, f["json"]: gen.jx(x)}
        v = interpret(T(name), y)
        case.see("verdict:" + v.status)
        if v.status != "bad":
            continue
        refuse(case, lambda: lib.cls(name).model_validate(y), f"{name}.{f['json']}={x!r:.80}", v.why, y)
        case.distinct(name, y)
        case.state("fields_refused", name, f["json"])
    if f.get("req"):
        gone = {k: x for k, x in base.items() if k != f["json"]}
        j = f["json"]
        # nothing else fills in for it: not an extension of its name, nor another spelling
        for k in [None, f"x-{j}", "x-" + j.lower(), f"x-default-{j}", f"x-{f['py']}", "x-name", "x-id", f["py"], j.upper(), f"${j}", f"_{j}", j + "s", f"@{j}", "x-" + j.upper()]:
            if k == j:
                continue
            y = gone if k is None else {**gone, k: gen.jx(good)} if case.rng.random() < 0.5 else {k: gen.jx(good), **gone}
            if interpret(T(name), y).status == "bad":
                refuse(case, lambda: lib.cls(name).model_validate(y), f"{name} without {j}" + (f" but with {k}" if k else ""), "required", y)
                case.state("required_dropped", name, j)
    if host and name != ROOT:
        d, path, _ = host
        for x in case.rng.sample(vals, 4):
            y = {**base, f["json"]: gen.jx(x)}
            if interpret(T(name), y).status == "bad":
                d2 = gen.set_at(gen.jx(d), path, y)
                v = interpret(T(ROOT), d2)
                if v.status == "bad":
                    refuse(case, lambda: lib.AsyncAPI3.model_validate(d2), f"document with {name}.{f['json']}={x!r:.60} at {path}", v.why, d2)
                    case.see("embedded")


def unknown(case):
    """Every object type against unknown member names."""
    name = NAMES[case.i % len(NAMES)]
    if name in PATTERNED or CATALOG[name]["kind"] == "free":
        return
    x, _ = rand_instance(case, name)
    if x is None:
        return
    for u in [*UNKNOWN, *gen.STRAY]:
        y = {**x, u: case.rng.choice([None, 1, "v", {}])}
        v = interpret(T(name), y)
        if v.status != "bad":
            continue
        refuse(case, lambda: lib.cls(name).model_validate(y), f"{name} with {u!r}", v.why, y)
        case.distinct(name, y)
        case.state("unknown_refused", name, u)


STAGES = {"docs": (docs, 2500, 80000), "instances": (instances, 2960, 80000), "fields": (fields, len(FIELDS) * 2, len(FIELDS) * 40),
          "unknown": (unknown, len(NAMES) * 3, len(NAMES) * 60)}
FLOORS = {"refused": 12000, "state:objects": 140, "state:fields_refused": 390, "state:required_dropped": 40, "embedded": 500}
