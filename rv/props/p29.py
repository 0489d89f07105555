"""P29: the generated JSON Schema agrees with the parser."""

import json

from pydantic import TypeAdapter
from pydantic.json_schema import models_json_schema

from rv import gen, lib
from rv.embed import good_embed
from rv.gen import Gen, jx
from rv.jschema import Broken, Validator, structural, subschemas
from rv.spec import CATALOG, deep_eq, first_diff, interpret
from rv.util import FIELDS, NAMES, ROOT, T, build, cover, falsy_values, fix_min, rand_doc, rand_instance

RULE = ("a case is one model's generated schema (both modes) inspected as a whole, or one conforming value, its dump, or one structurally faulty value judged by that schema with an independent JSON Schema validator; distinct values counted")
_cache = {}


def schema(name, mode="validation"):
    if (name, mode) not in _cache:
        s = lib.cls(name).model_json_schema(mode=mode)
        _cache[name, mode] = Validator(s)
    return _cache[name, mode]


def judge(case, name, mode, v):
    try:
        return schema(name, mode).why(v)
    except Broken as e:
        case.fail("schema-broken", f"{name} ({mode}): {e}")


def accepts(case, name, v, c, what):
    for mode in ("validation", "serialization"):
        e = judge(case, name, mode, v) if mode == "validation" else None
        case.check(e is None, "schema-rejects-conforming", lambda: f"{what} {name} ({mode}): {e}", v)
    m = lib.cls(name).model_validate(jx(v))
    out = lib.dump(m)
    py = json.loads(lib.dumps(m))
    for mode in ("validation", "serialization"):
        for how, o in (("model_dump", out), ("model_dump_json", py)):
            e = judge(case, name, mode, o)
            case.check(e is None, "schema-rejects-dump", lambda: f"{what} {name} {how} ({mode}): {e}", v)
    case.see("accepts")


def rejects(case, name, v, what):
    """A structurally faulty value must be refused by the schema; returns whether it was faulty."""
    why = structural(T(name), v)
    if why is None:
        return False
    for mode in ("validation", "serialization"):
        e = judge(case, name, mode, v)
        case.check(e is not None, "schema-accepts-faulty", lambda: f"{what} {name} ({mode}) accepts although {why}", v)
    case.see("rejects")
    return True


def whole(case):
    """The schema as an object: self-contained, spec names, required, defaults, no processors, stable."""
    name = NAMES[case.i % len(NAMES)]
    c, cls = CATALOG[name], lib.cls(name)
    for mode in ("validation", "serialization"):
        s = cls.model_json_schema(mode=mode)
        case.check(deep_eq(s, json.loads(json.dumps(s))), "schema-not-json", name)
        case.check(s == cls.model_json_schema(mode=mode), "schema-unstable", f"{name}: two generations differ")
        text = json.dumps(s)
        for bad in ("extra_converters", "extra_validators", "extraConverters", "extraValidators"):
            case.check(f'"{bad}"' not in text, "processors-in-schema", f"{name} ({mode}) mentions {bad}")
        v = Validator(s)
        for path, sub in subschemas(s):
            if isinstance(sub, dict) and "$ref" in sub:
                try:
                    v.target(sub["$ref"])
                except Broken as e:
                    case.fail("schema-not-self-contained", f"{name} ({mode}) {path}: {e}")
                case.check(sub["$ref"].startswith("#/$defs/"), "schema-not-self-contained", f"{name} {path}: {sub['$ref']}")
        top = v.target(s["$ref"]) if "$ref" in s else s
        node(case, name, top, mode)
        for dn, ds in s.get("$defs", {}).items():  # every named model inside, too
            owner = next((n for n in NAMES if CATALOG[n]["class"] == dn), None)
            if owner is not None and sum(CATALOG[n]["class"] == dn for n in NAMES) == 1:
                node(case, owner, ds, mode)
                case.see("nested-node")
        # the same schema by other generators
        t = TypeAdapter(cls).json_schema(mode=mode)
        case.check(deep_eq(t, s), "schema-differs", lambda: f"{name} ({mode}): TypeAdapter: {first_diff(s, t)}")
        custom = cls.model_json_schema(mode=mode, ref_template="#/components/schemas/{model}")
        cv = Validator({**custom, "components": {"schemas": custom.get("$defs", {})}})
        for path, sub in subschemas(custom):
            if isinstance(sub, dict) and "$ref" in sub:
                case.check(sub["$ref"].startswith("#/components/schemas/"), "schema-not-self-contained", f"{name} {path}: {sub['$ref']}")
                try:
                    cv.target(sub["$ref"])
                except Broken as e:
                    case.fail("schema-not-self-contained", f"{name} ({mode}) {path}: {e}")
        s.clear()
        case.check(cls.model_json_schema(mode=mode), "schema-unstable", f"{name}: emptying a generated schema empties later ones")
    case.state("models", name)
    case.distinct("whole", name)


def node(case, name, top, mode):
    c = CATALOG[name]
    case.check(top.get("type") == "object", "schema-shape", f"{name} ({mode}): type {top.get('type')}")
    if c["kind"] == "patterned":
        case.check("properties" not in top and "required" not in top, "schema-shape", f"{name} ({mode}): map with named properties")
        return
    props, want = list(top.get("properties", {})), [f["json"] for f in c["fields"]]
    case.check(set(props) == set(want), "schema-names", lambda: f"{name} ({mode}): extra {set(props) - set(want)} missing {set(want) - set(props)}")
    req = {f["json"] for f in c["fields"] if f.get("req")}
    case.check(set(top.get("required", [])) == req, "schema-required", lambda: f"{name} ({mode}): required {top.get('required')} expected {sorted(req)}")
    for f in c["fields"]:
        s = top["properties"][f["json"]]
        if f.get("req"):
            case.check("default" not in s, "schema-default", f"{name}.{f['json']}: required with default {s.get('default')!r}")
        elif "default" in s:
            case.check(deep_eq(s["default"], f.get("default")), "schema-default", lambda: f"{name}.{f['json']}: default {s['default']!r}, parser fills in {f.get('default')!r}")
    case.see("node")


def fields(case):
    """Every field of every model: boundary values accepted, structural faults rejected."""
    r = case.rng
    name, f = FIELDS[case.i % len(FIELDS)]
    for x in [Gen(r, p=0.5, depth=2).gen(f["type"]) for _ in range(3)] + falsy_values(f["type"])[:6]:
        o = fix_min(case, name, f["json"], jx(x))
        v = interpret(T(name), o)
        if v.status == "ok":
            accepts(case, name, o, v.canon, f"{f['json']}:")
            case.state("fields", name, f["json"])
            case.distinct(name, o)
    base, _ = rand_instance(case, name, r.choice(["min", "random"]))
    if base is None:
        return
    for x in [*r.sample(gen.JUNK, 8), True, 0, 1.5, "junk", [], {}, [{}], {"a": {}}, [None]]:
        o = jx(base)
        o[f["json"]] = jx(x)
        if rejects(case, name, o, f"{f['json']} = {x!r:.60}:"):
            case.state("faulty-fields", name, f["json"])
    if f.get("req"):
        o = jx(base)
        o.pop(f["json"], None)
        case.check(rejects(case, name, o, f"without {f['json']}:"), "harness", f"{name} without {f['json']}")
        case.see("missing-required")
    if CATALOG[name]["kind"] == "closed":
        o = jx(base)
        o[r.choice(["unknown", "x-a", "X", "", "bindingversion", "$ref", f["json"] + "s", f["json"].upper() + "_", "x-" + f["json"]])] = r.choice([None, 1, {}])
        rejects(case, name, o, "unknown field:")
        case.see("unknown-field")


def mutated(case):
    """Values of any model, mutated at random positions, alone and inside whole documents."""
    r = case.rng
    name = NAMES[case.i % len(NAMES)]
    x, c = rand_instance(case, name, r.choice(["max", "random", "random"]))
    if x is None:
        return
    accepts(case, name, x, c, "random")
    for _ in range(4):
        y = jx(x)
        y, how = gen.mutate(r, T(name), y)
        if not isinstance(y, dict):
            case.check(judge(case, name, "validation", y) is not None, "schema-accepts-faulty", f"{name} accepts {y!r:.80}", y)
            continue
        if rejects(case, name, y, how):
            case.state("mutations", how)
            case.distinct(name, y)
        else:
            v = interpret(T(name), y)
            if v.status == "ok":
                accepts(case, name, y, v.canon, how)
    e = good_embed(r, name, x) if name != ROOT else None
    if e is not None:
        doc, path = e[0], e[1]
        accepts(case, ROOT, doc, None, "embedded " + name)
        case.state("embedded", name)
        case.distinct("doc", doc)
        _ = path


def documents(case):
    r = case.rng
    d, c = rand_doc(case)
    if d is None:
        return
    cover(case, T(ROOT), d)
    accepts(case, ROOT, d, c, "document")
    m = build(r, T(ROOT), jx(c))
    e = judge(case, ROOT, "serialization", lib.dump(m))
    case.check(e is None, "schema-rejects-dump", lambda: f"built document: {e}", d)
    for _ in range(5):
        y, how = gen.mutate(r, T(ROOT), jx(d))
        if rejects(case, ROOT, y, how):
            case.see("document-rejects")
    case.distinct("doc", d)
    case.sample(sorted(d))


def quiet_generation(case):
    """Generating schemas disturbs neither models nor later parsing; subclasses agree."""
    r = case.rng
    d, c = rand_doc(case)
    if d is None:
        return
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = lib.dump(m)
    for n in r.sample(NAMES, 3):
        lib.cls(n).model_json_schema(mode=r.choice(["validation", "serialization"]))
    m.model_json_schema()
    sub = type("Sub", (lib.AsyncAPI3,), {})
    s = sub.model_json_schema()
    case.check("extra_validators" not in json.dumps(s) and Validator(s).why(jx(d)) is None, "schema-differs", "subclass schema")
    case.check(lib.dump(m) == before and lib.AsyncAPI3.model_validate(jx(d)) == m, "generation-disturbs", "a model or its parsing changed", d)
    names = r.sample([n for n in NAMES], 6)
    classes = [lib.cls(n) for n in names]
    if len({k.__name__ for k in classes}) == 6:
        mp, full = models_json_schema([(k, "validation") for k in classes])
        for n, k in zip(names, classes):
            x, _c = rand_instance(case, n)
            if x is None:
                continue
            e = Validator({**full, **mp[k, "validation"]}).why(x)
            case.check(e is None, "schema-rejects-conforming", lambda: f"{n} in a joint schema: {e}", x)
    case.see("quiet")


FACTOR = 3
STAGES = {"whole": (whole, len(NAMES), len(NAMES) * 4), "fields": (fields, len(FIELDS), len(FIELDS) * 60), "mutated": (mutated, 444, 40000), "documents": (documents, 120, 12000), "quiet": (quiet_generation, 20, 800)}
FLOORS = {"state:models": 148, "state:fields": 440, "accepts": 3000, "rejects": 5000, "node": 296, "missing-required": 35, "unknown-field": 180, "state:faulty-fields": 420, "document-rejects": 150, "quiet": 15, "state:mutations": 10}
