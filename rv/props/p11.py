"""P11: channel, message example, operation, parameter and server rules."""

from rv import gen, lib
from rv.embed import good_embed
from rv.hist import History, random_value
from rv.spec import CATALOG, interpret
from rv.util import ROOT, T, accept, dump_is, matches, rand_instance, refuse

RULE = ("a case is one combination of present/absent/null/falsy members of a channel, message example, operation, parameter or server (by "
        "parsing, construction, inside a document) or one order of assignments; distinct combinations counted")

ABSENT = object()
PARAMS = [ABSENT, None, {}, {"a": {}}, {"a": {"$ref": "#/components/parameters/a"}}, {"a": {"enum": [], "default": "", "examples": [""], "location": "$message.payload#/a"}},
          {"a b": {}}, [], {"a": None}, {"a": {"schema": {}}}, {"x": {"enum": ["1", "1"], "description": ""}, "y": {"x-a": None}}]
ADDR = [ABSENT, None, "", "a", "{", "}", "{}", "}{", "{a", "a}", "{a}", "x/{a}/y", "{a}{b}", "{ }", "{a\nb}", "{\n}", "a/{}/b", "{}{a}", "{{a}}", "{é}", "{{}", "{a}}", "$message", 5, [], "{{", "}}", "}{a}{", "{}}", " {a} "]
EXH = [ABSENT, None, {}, {"a": 1}, {"a": None}, [], "x", {"": {}}]
EXP = [ABSENT, None, 0, 0.0, False, "", [], {}, "x", {"a": []}, [None], True, -1]
OTHER = [ABSENT, None, "", "d"]


def make(members):
    return {k: gen.jx(x) for k, x in members if x is not ABSENT}


def decide(case, name, o, host=None):
    v = interpret(T(name), o)
    case.see(f"{name}:{v.status}")
    if v.status == "gray":
        return v
    c = lib.cls(name)
    by = CATALOG[name]["by_json"]
    ways = {"parse": lambda: c.model_validate(gen.jx(o)),
            "construct": lambda: c(**{(by[k]["py"] if k in by else k): x for k, x in gen.jx(o).items()})}
    for how, fn in ways.items():
        if v.status == "ok":
            m = accept(case, fn, f"{name} {o!r:.300} by {how}", o)
            matches(case, T(name), v.canon, m, f"{name} by {how}", o)
            dump_is(case, v.canon, m, f"{name} by {how}", o)
        else:
            refuse(case, fn, f"{name} {o!r:.300} by {how}", v.why, o)
    if host:
        d = gen.set_at(gen.jx(host[0]), host[1], gen.jx(o))
        dv = interpret(T(ROOT), d)
        if dv.status == "ok":
            m = accept(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {o!r:.300}", d)
            matches(case, T(ROOT), dv.canon, m, "document", d)
        elif dv.status == "bad":
            refuse(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {o!r:.300}", dv.why, d)
        case.see("nested:" + dv.status)
    case.state("combos", name, sorted(o), v.why or "ok")
    case.distinct(name, o)
    return v


def host_of(case, name):
    x, _ = rand_instance(case, name)
    return x and good_embed(case.rng, name, x)


def channels(case):
    """Every address against every parameters value (exhaustive over the tables), with random other members."""
    a = ADDR[case.i % len(ADDR)]
    host = host_of(case, "Channel") if case.rng.random() < 0.4 else None
    for p in PARAMS:
        o = make([("parameters", p), ("address", a)] if case.rng.random() < 0.5 else [("address", a), ("parameters", p)])
        if case.rng.random() < 0.5:
            g, _ = rand_instance(case, "Channel")
            for k, x in (g or {}).items():
                if k not in ("address", "parameters") and case.rng.random() < 0.5:
                    o[k] = x
        decide(case, "Channel", o, host)
    case.sample(o)


def addresses(case):
    """Random addresses near the expression grammar."""
    r = case.rng
    for _ in range(30):
        a = "".join(r.choice("{}ab/ \né") for _ in range(r.choice([1, 2, 3, 4, 8])))
        decide(case, "Channel", {"address": a, "parameters": r.choice([{}, {"a": {}}])})
    for _ in range(10):
        names = r.sample(["a", "b", "id", "user-id", "x_y", "A", "0", "userId"], r.choice([1, 1, 2, 3]))
        decide(case, "Channel", {"address": gen.address_of(r, names), "parameters": {n: r.choice([{}, {"$ref": "#/components/parameters/a"}, {"enum": ["a"]}, {"default": "x"}]) for n in names}})


def examples(case):
    hs, ps = EXH[case.i % len(EXH)], EXP[case.i // len(EXH) % len(EXP)]
    host = host_of(case, "MessageExample") if case.rng.random() < 0.5 else None
    for n in OTHER:
        o = make([("headers", hs), ("payload", ps), ("name", n), ("summary", case.rng.choice(OTHER))])
        if case.rng.random() < 0.3:
            o["x-a"] = case.rng.choice([None, 1])
        decide(case, "MessageExample", o, host)


ACTION = [ABSENT, None, "send", "receive", "Send", "", "publish", "subscribe", "send ", "sendreceive", 5, ["send"], "RECEIVE", "reply"]
CHAN = [ABSENT, None, {"$ref": "#/channels/a"}, {"$ref": ""}, {"$ref": "https://example.com/a"}, {}, {"address": "a"}, "#/channels/a", {"$ref": 5}, {"$ref": "#/channels/a", "address": None}, []]


def operations(case):
    a = ACTION[case.i % len(ACTION)]
    host = host_of(case, "Operation") if case.rng.random() < 0.5 else None
    for ch in CHAN:
        o = make([("action", a), ("channel", ch)])
        g, _ = rand_instance(case, "Operation")
        for k, x in (g or {}).items():
            if k not in ("action", "channel") and case.rng.random() < 0.4:
                o[k] = x
        decide(case, "Operation", o, host)


def plain(case):
    """Parameters, server variables, servers: kept as given, required members enforced."""
    r = case.rng
    name = ["Parameter", "ServerVariable", "Server", "OperationReply", "OperationReplyAddress", "Info", "License", "Operation"][case.i % 8]
    host = host_of(case, name) if r.random() < 0.5 else None
    for _ in range(5):
        x, _ = rand_instance(case, name)
        if x is None:
            continue
        decide(case, name, x, host)
        for f in CATALOG[name]["fields"]:
            if r.random() < 0.4:
                y = {**x, f["json"]: random_value(case, f, x, junk=0.5)}
                decide(case, name, y, host if r.random() < 0.2 else None)
            if f["json"] in x and r.random() < 0.3:
                decide(case, name, {k: z for k, z in x.items() if k != f["json"]})


def orders(case):
    r = case.rng
    name = ["Channel", "MessageExample", "Operation", "Parameter", "Channel"][case.i % 5]
    start, _ = rand_instance(case, name)
    if start is None:
        return
    h = History(case, name, start)
    by = CATALOG[name]["by_json"]
    for _ in range(25):
        if name == "Channel" and r.random() < 0.7:
            j = r.choice(["address", "parameters"])
            val = r.choice(ADDR if j == "address" else PARAMS)
        elif name == "MessageExample":
            j = r.choice(["headers", "payload", "payload", "headers", "name"])
            val = r.choice({"headers": EXH, "payload": EXP, "name": OTHER}[j])
        elif name == "Operation" and r.random() < 0.5:
            j = r.choice(["action", "channel"])
            val = r.choice(ACTION if j == "action" else CHAN)
        else:
            j = r.choice(sorted(by))
            val = random_value(case, by[j], start)
        val = None if val is ABSENT else gen.jx(val)
        if name == "MessageExample" and j == "payload" and val is None:
            # removing the payload: decided by the headers
            want = h.cur.get("headers") is not None
            st, e = lib.attempt(setattr, h.m, "payload", None)
            case.check((st == "ok") == want and st != "crash", "assignment-decision", lambda: f"payload=None with {h.cur!r:.200}: {st} {e}"[:500], h.log)
            if st == "ok":
                h.cur.pop("payload", None)
            case.see("order:payload-none:" + st)
            case.check(interpret(T(name), lib.dump(h.m)).status == "ok", "state-after-assignment", lambda: f"{lib.dump(h.m)!r:.200}", h.log)
            continue
        st = h.step(by[j], val)
        if st:
            case.see("order:" + st)
    case.distinct(name, h.log)


UNIFORM = ["Channel", "Parameter", "MessageExample", "Operation", "Server", "ServerVariable"]


def uniform(case):
    """Objects in which nearly all texts are the same."""
    name = UNIFORM[case.i % len(UNIFORM)]
    r = case.rng
    for _ in range(12):
        o = gen.Gen(r, p=r.choice([0.3, 0.5, 0.8]), depth=2).uniform().obj(name)
        if r.random() < 0.3 and o:
            o.pop(r.choice(sorted(o)))
        decide(case, name, gen.jx(o))
        case.see("uniform")


STAGES = {"uniform": (uniform, 150, 6000), "channels": (channels, len(ADDR) * 8, len(ADDR) * 200), "addresses": (addresses, 60, 3000), "examples": (examples, len(EXH) * len(EXP) * 3, len(EXH) * len(EXP) * 40),
          "operations": (operations, len(ACTION) * 6, len(ACTION) * 150), "plain": (plain, 160, 5000), "orders": (orders, 200, 8000)}
FLOORS = {"uniform": 1500, "Channel:ok": 1000, "Channel:bad": 1000, "MessageExample:ok": 500, "MessageExample:bad": 300, "Operation:ok": 60, "Operation:bad": 600,
          "Parameter:ok": 80, "order:ok": 700, "order:bad": 700, "nested:ok": 500, "nested:bad": 700}
