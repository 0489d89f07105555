"""P10: security scheme and OAuth flow rules over member combinations and assignment orders."""

import itertools

from rv import gen, lib
from rv.embed import good_embed
from rv.hist import History
from rv.spec import CATALOG, interpret
from rv.util import ROOT, T, accept, dump_is, matches, refuse

RULE = ("a case is one combination of present/absent/null/invalid members of a security scheme or OAuth flows object (by parsing and "
        "construction) or one order of assignments; distinct combinations counted; the oracle is an independent table of the rules")

TYPES = CATALOG["SecurityScheme"]["by_json"]["type"]["type"][1:]
ABSENT = object()
URLS = [ABSENT, None, "https://example.com/docs", "urn:a:b", "not a url", ""]
FLOW = lambda **k: {"availableScopes": {"a": "b"}, **k}  # noqa: E731
A, TK = "https://example.com/docs", "https://example.com/"
FLOWS = [ABSENT, None, {}, {"implicit": FLOW(authorizationUrl=A)}, {"implicit": FLOW()}, {"password": FLOW(tokenUrl=TK)}, {"password": FLOW(authorizationUrl=A)},
         {"clientCredentials": FLOW(tokenUrl=TK)}, {"authorizationCode": FLOW(authorizationUrl=A, tokenUrl=TK)}, {"authorizationCode": FLOW(tokenUrl=TK)}, [], "x"]
POOL = {
    "in": [ABSENT, None, "user", "password", "query", "header", "cookie", "body", "", "User"],
    "name": [ABSENT, None, "", "n", 5],
    "scheme": [ABSENT, None, "", "bearer", "basic", "Bearer", "BEARER", " bearer", "bearer ", 5],
    "bearerFormat": [ABSENT, None, "", "JWT", []],
    "flows": FLOWS,
    "openIdConnectUrl": URLS,
    "scopes": [ABSENT, None, [], ["a"], ["a", "b", "a"], "a", [1]],
    "description": [ABSENT, None, "", "d"],
    "x-a": [ABSENT, None, 0],
}


def decide(case, name, o, how=("parse", "construct")):
    v = interpret(T(name), o)
    if v.status == "gray":
        case.see("gray")
        return v
    for h in how:
        c = lib.cls(name)
        if h == "parse":
            fn = lambda: c.model_validate(gen.jx(o))  # noqa: E731
        elif h == "construct":
            by = CATALOG[name]["by_json"]
            kw = {(by[k]["py"] if k in by else k): x for k, x in gen.jx(o).items()}
            fn = lambda: c(**kw)  # noqa: E731
        if v.status == "ok":
            m = accept(case, fn, f"{name} {o!r:.300} by {h}", o)
            matches(case, T(name), v.canon, m, name, o)
            dump_is(case, v.canon, m, name, o)
        else:
            refuse(case, fn, f"{name} {o!r:.300} by {h}", v.why, o)
        case.state("rules", v.why or "ok", name, h)
        case.see(f"{v.status}:{o.get('type', name)!s:.20}")
    case.distinct(name, o)
    return v


def make(members):
    return {k: gen.jx(x) for k, x in members if x is not ABSENT}


def schemes(case):
    """Random combinations, most members mostly plausible for the type."""
    r = case.rng
    for _ in range(60):
        t = TYPES[case.i % len(TYPES)] if r.random() < 0.95 else r.choice(["apikey", "HTTP", "", None, "x509", 5, "oauth"])
        k = r.choice([0, 1, 2, 2, 3, 4, 8])
        names = r.sample(sorted(POOL), k)
        members = [("type", t)] + [(n, r.choice(POOL[n])) for n in names]
        # supply the type's own requirements most of the time
        o = make(members)
        if r.random() < 0.7:
            g = gen.Gen(r)
            need = {"apiKey": {"in": r.choice(["user", "password"])}, "httpApiKey": {"in": r.choice(["query", "header", "cookie"]), "name": "n"},
                    "http": {"scheme": r.choice(["basic", "bearer"])}, "oauth2": {"flows": {}}, "openIdConnect": {"openIdConnectUrl": g.url("any")}}.get(t, {})
            for n, x in need.items():
                if r.random() < 0.85:
                    o.setdefault(n, x)
        if r.random() < 0.4:
            o[r.choice([*gen.POPULAR_EXT, *gen.EXT_NAMES])] = r.choice([None, True, "custom", "oauth2", t, 0, {}, []])
        items = list(o.items())
        r.shuffle(items)
        decide(case, "SecurityScheme", dict(items))
    case.sample(o)


def pairs(case):
    """All pairs of members (every value of each) for one type: exhaustive over the value table."""
    combos = list(itertools.combinations(sorted(POOL), 2))
    t = TYPES[case.i % len(TYPES)]
    a, b = combos[(case.i // len(TYPES)) % len(combos)]
    base = {"apiKey": {"in": "user"}, "httpApiKey": {"in": "query", "name": "n"}, "http": {"scheme": "bearer"}, "oauth2": {"flows": {}},
            "openIdConnect": {"openIdConnectUrl": "https://example.com/docs"}}.get(t, {})
    for x in POOL[a]:
        for y in POOL[b]:
            o = make([("type", t), *[(k, v) for k, v in base.items() if k not in (a, b)], (a, x), (b, y)])
            decide(case, "SecurityScheme", o, ("parse",))
    case.state("pairs", t, a, b)


FM = {"authorizationUrl": URLS[:5], "tokenUrl": URLS[:5], "refreshUrl": URLS[:4], "availableScopes": [ABSENT, {}, {"a": "b"}, {"": ""}, None, {"a": 1}, [], ["a"], ["a", "b"], [["a", "b"]], [{"a": "b"}], "", "a", "a b", "a,b", 5, True, {"a": None}, {"a": ["b"]}, {"a": {"b": "c"}}, {"a": True}]}
KINDS = ["implicit", "password", "clientCredentials", "authorizationCode"]


def flows(case):
    r = case.rng
    for _ in range(40):
        o = {}
        for k in KINDS:
            x = r.random()
            if x < 0.45:
                continue
            if x < 0.5:
                o[k] = None
            else:
                fl = make([(n, r.choice(vals[:3] if r.random() < 0.8 else vals)) for n, vals in FM.items()])
                if r.random() < 0.8:
                    fl["availableScopes"] = r.choice([{}, {"a": "b"}])
                o[k] = fl
        if r.random() < 0.3:
            o["x-a"] = 1
        decide(case, "OAuthFlows", o)
        if r.random() < 0.4:
            decide(case, "SecurityScheme", {"type": "oauth2", "flows": o})


def flow_table(case):
    """Each flow kind with every combination of its URLs (exhaustive)."""
    k = KINDS[case.i % 4]
    for a, t, rf in itertools.product(FM["authorizationUrl"], FM["tokenUrl"], FM["refreshUrl"]):
        fl = make([("authorizationUrl", a), ("tokenUrl", t), ("refreshUrl", rf), ("availableScopes", {})])
        decide(case, "OAuthFlows", {k: fl})


def orders(case):
    """Every order of assignment is judged by the resulting combination."""
    r = case.rng
    name = "SecurityScheme" if case.i % 3 else "OAuthFlows"
    start = gen.instance(r, name, r.choice(["min", "random"]))
    if interpret(T(name), start).status != "ok":
        return
    h = History(case, name, start)
    by = CATALOG[name]["by_json"]
    for _ in range(25):
        j = r.choice(sorted(by))
        if name == "SecurityScheme":
            val = r.choice(TYPES) if j == "type" else r.choice(POOL[j])
        else:
            val = r.choice([None, *[make([(n, r.choice(v[:3])) for n, v in FM.items()]) for _ in range(3)]])
        if val is ABSENT:
            val = None
        st = h.step(by[j], gen.jx(val))
        if st:
            case.see("order:" + st)
    case.distinct(name, h.log)


def nested(case):
    """The same decisions inside a document."""
    r = case.rng
    name = ["SecurityScheme", "OAuthFlows"][case.i % 2]
    good = gen.instance(r, name, "random")
    if interpret(T(name), good).status != "ok":
        return
    e = good_embed(r, name, good)
    if not e:
        return
    for _ in range(6):
        if name == "SecurityScheme":
            o = make([("type", r.choice(TYPES))] + [(n, r.choice(POOL[n])) for n in r.sample(sorted(POOL), r.choice([1, 2, 3]))])
        else:
            o = {k: make([(n, r.choice(v[:3])) for n, v in FM.items()]) for k in r.sample(KINDS, 2)}
        d = gen.set_at(gen.jx(e[0]), e[1], o)
        v = interpret(T(ROOT), d)
        if v.status == "ok":
            accept(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {o!r:.300} at {e[1]}", d)
        elif v.status == "bad":
            refuse(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {name} {o!r:.300} at {e[1]}", v.why, d)
        case.see("nested:" + v.status)


UNIFORM = ["SecurityScheme", "OAuthFlows", "OAuthFlow"]


def uniform(case):
    """Objects in which nearly all texts are the same."""
    name = UNIFORM[case.i % len(UNIFORM)]
    r = case.rng
    for _ in range(12):
        o = gen.Gen(r, p=r.choice([0.3, 0.5, 0.8]), depth=2).uniform().obj(name)
        if r.random() < 0.3 and o:
            o.pop(r.choice(sorted(o)))
        decide(case, name, gen.jx(o))
        case.see("uniform")


STAGES = {"uniform": (uniform, 150, 6000), "schemes": (schemes, 390, 12000), "pairs": (pairs, 13 * 36, 13 * 36), "flows": (flows, 100, 4000), "flow_table": (flow_table, 4, 4),
          "orders": (orders, 240, 8000), "nested": (nested, 200, 6000)}
FLOORS = {"uniform": 1500, "state:pairs": 460, "order:ok": 800, "order:bad": 800, "nested:ok": 100, "nested:bad": 300, **{f"ok:{t}": 400 for t in TYPES}, **{f"bad:{t}": 400 for t in TYPES}}
