"""P12: bindings of the 19 protocols: members, bounds, enumerations, pairings, defaults."""

import itertools

from rv import gen, lib
from rv.embed import good_embed
from rv.hist import History, random_value
from rv.spec import CATALOG, interpret, is_int
from rv.util import NAMES, ROOT, T, accept, dump_is, falsy_values, fix_min, matches, rand_instance, refuse

RULE = ("a case is one binding object type with one member at a boundary, falsy, junk or enumeration-neighbour value, or one presence "
        "combination of its members, by parsing and construction and inside a document; distinct objects counted")

BIND = [n for n in NAMES if CATALOG[n]["module"].startswith("asyncapi3.models.bindings.")]
FIELDS = [(n, f) for n in BIND for f in CATALOG[n].get("fields", [])]
EMPTY = [n for n in BIND if not CATALOG[n].get("fields")]
HOSTS = ["ServerBindingsObject", "ChannelBindingsObject", "OperationBindingsObject", "MessageBindingsObject"]


def decide(case, name, o, what=""):
    v = interpret(T(name), o)
    case.see("verdict:" + v.status)
    if v.status == "gray":
        return v
    c, by = lib.cls(name), CATALOG[name]["by_json"]
    ways = {"parse": lambda: c.model_validate(gen.jx(o)), "construct": lambda: c(**{(by[k]["py"] if k in by else k): x for k, x in gen.jx(o).items()})}
    for how, fn in ways.items():
        if v.status == "ok":
            m = accept(case, fn, f"{name} {what}{o!r:.240} by {how}", o)
            matches(case, T(name), v.canon, m, f"{name} {what} by {how}", o)
            dump_is(case, v.canon, m, f"{name} {what} by {how}", o)
        else:
            refuse(case, fn, f"{name} {what}{o!r:.240} by {how}", v.why, o)
    case.distinct(name, o)
    return v


def nested(case, name, good, o):
    e = good_embed(case.rng, name, good)
    if not e:
        return
    d = gen.set_at(e[0], e[1], o)
    v = interpret(T(ROOT), d)
    if v.status == "ok":
        m = accept(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {o!r:.200} at {e[1]}", d)
        matches(case, T(ROOT), v.canon, m, "document", d)
    elif v.status == "bad":
        refuse(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {o!r:.200} at {e[1]}", v.why, d)
    case.see("nested:" + v.status)


def leaves(t):
    """Scalar leaf types reachable through containers of one field."""
    if t[0] in ("list", "map"):
        return leaves(t[1])
    if t[0] == "union":
        return [y for a in t[1:] for y in leaves(a)]
    return [t]


def fields(case):
    name, f = FIELDS[case.i % len(FIELDS)]
    r = case.rng
    g = gen.Gen(r, p=0.4, depth=2)
    vals = falsy_values(f["type"])
    if f["type"][0] == "union":
        vals += [x for t in leaves(f["type"]) for x in falsy_values(t)]
    if f["type"][0] == "list":
        vals += [[x] for t in leaves(f["type"]) for x in falsy_values(t)]
    good = g.gen(f["type"])
    vals += [good, g.gen(f["type"]), None, 1.5, "x", [], {}, True] + [gen.jx(b) for t in leaves(f["type"]) for b in gen.bad_scalars(r, t, good)]
    base = fix_min(case, name, f["json"], good)
    if interpret(T(name), base).status != "ok":
        case.see("generator:not-ok")
        return
    seen = []
    for x in vals:
        if x is None and f.get("null") and "default" in f:
            continue
        o = {**base, f["json"]: gen.jx(x)}
        v = decide(case, name, o, f"{f['json']}={x!r:.60} ")
        if v.status != "gray":
            case.state(f"decided", name, f["json"], v.status)
            seen.append(o)
    o = {k: x for k, x in base.items() if k != f["json"]}
    decide(case, name, o, f"without {f['json']} ")
    for k in (f["json"].upper(), f["json"] + "s", f["py"] + "_", "x-" + f["json"]):
        if k not in CATALOG[name]["by_json"] and k not in CATALOG[name]["py_only"]:
            decide(case, name, {**base, k: gen.jx(good)}, f"with {k} ")
    if seen:
        nested(case, name, base, r.choice(seen))
        nested(case, name, base, r.choice(seen))
    case.sample([name, f["json"], len(seen)])


def objects(case):
    """Random objects, random presence subsets and mutations of every binding object."""
    name = BIND[case.i % len(BIND)]
    r = case.rng
    x, _ = rand_instance(case, name, r.choice(["max", "random", "min"]))
    if x is None:
        return
    decide(case, name, x)
    keys = list(x)
    subsets = [c for n in (1, 2, len(keys) - 1) for c in itertools.combinations(keys, max(n, 0))]
    for c in r.sample(subsets, min(len(subsets), 8)):
        decide(case, name, {k: x[k] for k in c})
    for _ in range(4):
        y, how = gen.mutate(r, T(name), gen.jx(x))
        decide(case, name, y, how + " ")
    case.state("objects", name)


PAIRED = {
    "AMQPChannelBindings": {"is": ["queue", "routingKey"], "queue": [None, {}, {"name": "q"}], "exchange": [None, {}, {"name": "e", "type": "topic"}]},
    "IBMMQChannelBindings": {"destinationType": ["topic", "queue"], "queue": [None, {"objectName": "q"}], "topic": [None, {}, {"string": "s"}], "maxMsgLength": [None, 0]},
    "IBMMQMessageBindings": {"type": ["string", "jms", "binary"], "headers": [None, "", "Content-Type"], "description": [None, ""], "expiry": [None, 0]},
    "KafkaServerBindings": {"schemaRegistryUrl": [None, "", "https://my-schema-registry.com"], "schemaRegistryVendor": [None, "", "confluent"]},
    "SolaceDestination": {"destinationType": ["queue", "topic"], "deliveryMode": ["direct", "persistent"], "queue": [None, {}, {"name": "q"}], "topic": [None, {}, {"topicSubscriptions": []}]},
}


def pairings(case):
    """All presence combinations of paired members (absent, null, falsy, set), exhaustive."""
    name = sorted(PAIRED)[case.i % len(PAIRED)]
    table = PAIRED[name]
    gone = object()
    cols = [[gone, *vals] for vals in table.values()]
    for row in itertools.product(*cols):
        o = {k: gen.jx(x) for k, x in zip(table, row) if x is not gone}
        if case.i >= len(PAIRED):
            items = list(o.items())
            case.rng.shuffle(items)
            o = dict(items)
        v = decide(case, name, o)
        case.state("pairings", name, [k for k, x in zip(table, row) if x is not gone], v.why)
        if case.rng.random() < 0.05:
            good, _ = rand_instance(case, name)
            if good:
                nested(case, name, good, o)


def empty(case):
    """Protocols without a definition accept only an empty object."""
    name = EMPTY[case.i % len(EMPTY)]
    decide(case, name, {})
    for o in ({"bindingVersion": "0.1.0"}, {"x-a": 1}, {"type": "x"}, {"": None}, {"$ref": "#/a"}, [], None, "x", 0, {"binding_version": "latest"}, {"headers": {}}):
        v = interpret(T(name), o)
        if v.status == "bad":
            refuse(case, lambda: lib.cls(name).model_validate(o), f"{name} {o!r}", v.why, o)
    case.state("empty", name)


def hosts(case):
    """The four binding containers: every protocol member holds its own binding object."""
    name = HOSTS[case.i % 4]
    r = case.rng
    g = gen.Gen(r, p=0.3, depth=2)
    fs = CATALOG[name]["fields"]
    o = {}
    for f in fs:
        if r.random() < 0.5:
            o[f["json"]] = g.gen(f["type"])
    if interpret(T(name), o).status != "ok":
        return
    decide(case, name, o)
    for f in r.sample(fs, 6):
        other = r.choice(NAMES)
        if CATALOG[other]["kind"] == "patterned":
            continue
        y = {**o, f["json"]: g.obj(other)}
        decide(case, name, y, f"{other} as {f['json']} ")
        case.state("protocols", name, f["json"])
    for k in ("unknown", "HTTP", "kafka2", "x-proto", "googlePubSub", "jms2", "rabbitmq"):
        decide(case, name, {**o, k: {}}, f"with {k} ")


def orders(case):
    r = case.rng
    name = r.choice(sorted(PAIRED)) if case.i % 2 else BIND[case.i // 2 % len(BIND)]
    if not CATALOG[name].get("fields"):
        return
    start, _ = rand_instance(case, name)
    goal, _ = rand_instance(case, name, "max")
    if start is None or goal is None:
        return
    h = History(case, name, start)
    for _ in range(14):
        f = r.choice(CATALOG[name]["fields"])
        val = random_value(case, f, goal)
        if name in PAIRED and f["json"] in PAIRED[name] and r.random() < 0.6:
            val = gen.jx(r.choice(PAIRED[name][f["json"]]))
        st = h.step(f, val)
        if st:
            case.see("order:" + st)
    case.distinct(name, h.log)


UNIFORM = BIND


def uniform(case):
    """Objects in which nearly all texts are the same."""
    name = UNIFORM[case.i % len(UNIFORM)]
    r = case.rng
    for _ in range(12):
        o = gen.Gen(r, p=r.choice([0.3, 0.5, 0.8]), depth=2).uniform().obj(name)
        if r.random() < 0.3 and o:
            o.pop(r.choice(sorted(o)))
        decide(case, name, gen.jx(o))
        case.see("uniform")


STAGES = {"uniform": (uniform, len(BIND) * 3, 6000), "fields": (fields, len(FIELDS) * 6, len(FIELDS) * 150), "objects": (objects, len(BIND) * 8, len(BIND) * 200), "pairings": (pairings, 10, 60),
          "empty": (empty, len(EMPTY), len(EMPTY)), "hosts": (hosts, 120, 4000), "orders": (orders, 300, 10000)}
FLOORS = {"uniform": 1500, "state:decided": 400, "state:objects": len(BIND) - 2, "state:pairings": 100, "state:empty": len(EMPTY), "state:protocols": 70,
          "order:ok": 900, "order:bad": 700, "nested:ok": 500, "nested:bad": 500}
assert is_int(1)
