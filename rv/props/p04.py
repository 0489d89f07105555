"""P04: canonical serialisation however the object was built."""

import json

from rv import gen, lib
from rv.spec import CATALOG, deep_eq, first_diff, interpret
from rv.util import NAMES, PATTERNED, ROOT, T, accept, build, cover, dump_is, rand_doc, rand_instance

RULE = ("a case builds one conforming value by parsing, by keyword construction and by a random sequence of assignments; every dump is "
        "compared with the oracle's canonical form (names, absences, defaults, nulls); distinct built values counted")


def same(case, canon, m, what, data):
    dump_is(case, canon, m, what, data)
    text = json.loads(lib.dumps(m))
    case.check(deep_eq(canon, text), "json-dump-differs", lambda: f"{what}: {first_diff(canon, text)}", data)


def part_of(full, part, path="$"):
    """First place where `part` says something `full` does not."""
    if isinstance(full, dict) and isinstance(part, dict):
        for k, v in part.items():
            if k not in full:
                return f"{path}: member {k!r}"
            d = part_of(full[k], v, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(full, list) and isinstance(part, (list, tuple)):
        if len(full) != len(part):
            return f"{path}: {len(part)} items for {len(full)}"
        return next((d for i, v in enumerate(part) for d in [part_of(full[i], v, f"{path}[{i}]")] if d), None)
    return None if deep_eq(full, part) else f"{path}: {part!r:.60} for {full!r:.60}"


OPTIONS = [{"exclude_unset": True}, {"exclude_none": True}, {"exclude_defaults": True}, {"exclude_unset": True, "exclude_none": True}, {"round_trip": True},
           {"by_alias": True}, {"by_alias": None}, {"warnings": False}, {"serialize_as_any": True}, {"exclude_unset": True, "by_alias": True}]


def options(case):
    """Every way of asking for a dump keeps the specification's names and invents nothing."""
    name = NAMES[case.i % len(NAMES)]
    x, canon = rand_instance(case, name)
    if x is None:
        return
    m = accept(case, lambda: lib.cls(name).model_validate(x), name, x)
    if case.rng.random() < 0.5:
        m = accept(case, lambda: build(case.rng, T(name), x), f"assembled {name}", x)
    for o in OPTIONS:
        a = m.model_dump(mode="json", **o)
        b = json.loads(m.model_dump_json(**o))
        c = plain(m.model_dump(**o))
        for how, out in (("JSON-mode dump", a), ("JSON text", b), ("Python-mode dump", c)):
            d = part_of(canon, out)
            case.check(d is None, "dump-option-differs", lambda: f"{name} {how} with {o}: {d}", [x, o])
            if not {"exclude_unset", "exclude_none", "exclude_defaults"} & set(o):
                case.check(deep_eq(canon, out), "dump-option-differs", lambda: f"{name} {how} with {o}: {first_diff(canon, out)}", [x, o])
        case.see("options")
    case.state("option_objects", name)
    case.distinct("options", name, x)


def plain(x):
    """model_dump() output with URL objects as strings."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if x is None or isinstance(x, (bool, int, float)) else str(x)


def docs(case):
    d, canon = rand_doc(case, nulls=True)
    if d is None:
        return
    cover(case, T(ROOT), d)
    m = accept(case, lambda: lib.AsyncAPI3.model_validate(d), "document", d)
    same(case, canon, m, "parsed document", d)
    m = accept(case, lambda: build(case.rng, T(ROOT), d), "assembled document", d)
    if case.rng.random() < 0.3:
        proc = case.rng.choice([[lib.Noop], [], None])
        m.extra_validators = proc
        m.extra_converters = proc
    same(case, canon, m, "assembled document", d)
    # fixed point
    m2 = accept(case, lambda: lib.AsyncAPI3.model_validate_json(lib.dumps(m)), "own dump", d)
    case.check(lib.dumps(m2) == lib.dumps(m), "not-fixed-point", lambda: f"dump changes when parsed and dumped again: {first_diff(lib.dump(m), lib.dump(m2))}", d)
    case.distinct(d)
    case.sample(canon)


def nulls(case):
    """Explicit null for optional members reads as absent."""
    name = NAMES[case.i % len(NAMES)]
    if name in PATTERNED:
        return
    x, _ = rand_instance(case, name)
    if x is None:
        return
    for f in CATALOG[name]["fields"]:
        if not f.get("null") or f["type"][0] == "any" or "default" in f:
            continue
        if f["json"] in x and case.rng.random() < 0.6:
            continue
        y = {**x, f["json"]: None}
        v = interpret(T(name), y)
        if v.status != "ok":
            continue
        m = accept(case, lambda: lib.cls(name).model_validate(y), f"{name} with null {f['json']}", y)
        same(case, v.canon, m, f"{name} with null {f['json']}", y)
        m = accept(case, lambda: build(case.rng, T(name), y), f"{name}(..., {f['py']}=None)", y)
        same(case, v.canon, m, f"{name}(..., {f['py']}=None)", y)
        case.state("null_fields", name, f["json"])
        case.distinct(name, y)


def assigned(case):
    """Fields assigned one by one (including None) on a live object."""
    name = NAMES[case.i % len(NAMES)]
    if name in PATTERNED or not CATALOG[name]["fields"]:
        return
    r = case.rng
    x, canon = rand_instance(case, name, "min")
    goal, _ = rand_instance(case, name, r.choice(["max", "random"]))
    if x is None or goal is None:
        return
    m = accept(case, lambda: lib.cls(name).model_validate(x), name, x)
    cur = gen.jx(x)
    steps = []
    for _ in range(r.choice([4, 8, 16])):
        f = r.choice(CATALOG[name]["fields"])
        j = f["json"]
        if f.get("null") and "default" not in f and r.random() < 0.3:
            val, nxt = None, {k: v for k, v in cur.items() if k != j}
        elif j in goal:
            val = gen.jx(goal[j])
            nxt = {**cur, j: val}
        else:
            continue
        v = interpret(T(name), nxt)
        if v.status != "ok":
            continue
        live = val
        if val is not None and r.random() < 0.5:
            live = build(r, f["type"], val)
        st, e = lib.attempt(setattr, m, f["py"], live)
        steps.append(f["py"])
        case.check(st == "ok", "rejects-conforming-assignment", lambda: f"{name}.{f['py']} = {val!r:.80}: {e}"[:900], [cur, j, val])
        cur = nxt
        same(case, v.canon, m, f"{name} after assigning {steps}", [x, goal, steps])
        case.state("assigned", name, j, val is None)
        case.see("assignments")
    cover(case, T(name), cur)
    case.distinct(name, cur, steps)


STAGES = {"options": (options, len(NAMES) * 2, len(NAMES) * 120), "docs": (docs, 900, 40000), "nulls": (nulls, len(NAMES) * 6, len(NAMES) * 120), "assigned": (assigned, len(NAMES) * 30, len(NAMES) * 300)}
FLOORS = {"options": 5000, "state:option_objects": 140, "state:objects": 115, "state:null_fields": 220, "state:assigned": 500, "assignments": 5000}
