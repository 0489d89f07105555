"""P27: the builder yields a complete empty document honouring its arguments."""

from pydantic import HttpUrl

from rv import gen, lib
from rv.gen import Gen, jx
from rv.props.p16 import disjoint, vandalise
from rv.props.p24 import Trace, tracing
from rv.refs import EXTERNAL, broken_doc, canon, consistent_doc, judge
from rv.refs import minimal
from rv.spec import CATALOG, URLS, BAD_URLS, deep_eq, first_diff, interpret, walk_live
from rv.util import JUNK, ROOT, T, build, rand_instance

RULE = ("a case is one builder call with random arguments (metadata, sections, extensions, processors, falsy values, faults), judged against the documented document, "
        "followed by random growth of the built document by map items and assignments")
SECTIONS = ["schemas", "servers", "channels", "operations", "messages", "securitySchemes", "serverVariables", "parameters", "correlationIds", "replies", "replyAddresses", "externalDocs", "tags",
            "operationTraits", "messageTraits", "serverBindings", "channelBindings", "operationBindings", "messageBindings"]
ARGS = [("title", "title"), ("version", "version"), ("description", "description"), ("terms_of_service", "termsOfService"), ("contact", "contact"), ("license", "license"), ("tags", "tags"), ("external_docs", "externalDocs")]
INFO = CATALOG["Info"]["by_json"]
ROOTF = CATALOG[ROOT]["by_json"]


def empty():
    return {"asyncapi": "3.0.0", "info": {"title": "Sample APP", "version": "0.0.1"}, "servers": {}, "channels": {}, "operations": {}, "components": {s: {} for s in SECTIONS}}


def expected(info, over):
    d = empty()
    for py, j in ARGS:
        if py in info:
            if info[py] is None:
                d["info"].pop(j, None) if j not in ("title", "version") else d["info"].__setitem__(j, None)
            else:
                d["info"][j] = info[py]
    for k, v in over.items():
        if v is None and k in ROOTF and ROOTF[k].get("null"):
            d.pop(k, None)
        else:
            d[k] = v
    return d


def metadata(case, faults):
    r = case.rng
    g = Gen(r, p=0.4, depth=3, ref=lambda s: r.choice(EXTERNAL[:4]))
    out = {}
    for py, j in ARGS:
        if r.random() < 0.5:
            continue
        if py == "terms_of_service":
            out[py] = r.choice([u for u in URLS if URLS[u][1] == "http"])
        elif py in ("title", "version", "description"):
            out[py] = r.choice([g.string(), "", "0", g.string()])
        elif py == "tags":
            out[py] = [] if r.random() < 0.2 else [r.choice([{"$ref": r.choice(EXTERNAL[:4])}, g.obj("Tag")]) for _ in range(r.choice([1, 2, 5]))]
        else:
            out[py] = g.gen(INFO[j]["type"])
        if r.random() < 0.08 and py not in ("title", "version"):
            out[py] = None
        if faults and r.random() < 0.3:
            out[py] = r.choice([*JUNK, "no url", {"name": 5}, [5], r.choice(list(BAD_URLS))])
    return out


def live_args(r, info):
    """The metadata as a caller would hand it over: model objects for objects."""
    kw = {}
    for py, j in ARGS:
        if py in info:
            v = info[py]
            if v is not None and py not in ("title", "version", "description", "terms_of_service") and interpret(INFO[j]["type"], v).status == "ok":
                v = build(r, INFO[j]["type"], jx(v)) if py != "tags" else [build(r, ["union", ["obj", "Tag"], ["ref"]], x, top=False) for x in jx(v)]
            elif py == "terms_of_service" and isinstance(v, str) and v in URLS and r.random() < 0.4:
                v = HttpUrl(v)
            kw[py] = jx(v) if isinstance(v, (dict, list)) and not any(hasattr(x, "model_dump") for x in v) else v
    return kw


def overrides(case, faults):
    r = case.rng
    out = {}
    for k in ("asyncapi", "id", "info", "servers", "channels", "operations", "components", "defaultContentType"):
        if r.random() < 0.75:
            continue
        g = Gen(r, p=0.3, depth=3, ref=lambda s: r.choice(EXTERNAL[:4]))
        out[k] = g.gen(ROOTF[k]["type"])
        if k == "asyncapi":
            out[k] = g.version()
        if k not in ("asyncapi", "info") and r.random() < 0.2:
            out[k] = None
        if faults and r.random() < 0.2:
            out[k] = r.choice(JUNK)
    for _ in range(r.choice([0, 0, 1, 3])):
        out[Gen(r).ext_name()] = r.choice([None, 0, "", [], {"a": None}, "v"])
    if faults and r.random() < 0.1:
        out[r.choice(["unknown", "x", "x-", "X-a", "xa", "x-a b", "infos", "server"])] = 1
    return out


def call(case, info, over, extra=None, cls=None):
    r = case.rng
    kw = live_args(r, info)
    args = []
    if r.random() < 0.3:  # a positional prefix
        for py, _j in ARGS:
            if py not in kw:
                break
            args.append(kw.pop(py))
    okw = {}
    for k, v in over.items():
        f = ROOTF.get(k)
        if f is not None and v is not None and r.random() < 0.5 and interpret(f["type"], v).status == "ok":
            v = build(r, f["type"], jx(v))
        okw[f["py"] if f is not None and r.random() < 0.5 else k] = v if hasattr(v, "model_dump") else jx(v)
    return lib.attempt(lambda: (cls or lib.AsyncAPI3).as_builder(*args, **kw, **okw, **(extra or {})))


def builds(case):
    r = case.rng
    faults = case.i % 3 == 2
    info, over = metadata(case, faults), overrides(case, faults)
    d = expected(info, over)
    if "title" in info and info["title"] is None or "version" in info and info["version"] is None:
        return
    v = interpret(T(ROOT), d)
    vi = interpret(T("Info"), expected(info, {})["info"])  # built first, even when info is overridden
    if v.status == "gray" or vi.status == "gray":
        case.see("generator:gray")
        return
    want = "ok" if v.status == "ok" and vi.status == "ok" else "invalid"
    refs = judge(v.canon) if v.status == "ok" else ("ok", [], [])
    if want == "ok" and refs[0] == "open":
        return
    if want == "ok" and refs[0] == "bad":
        want = "invalid"
    if vi.status != "ok" and "info" in over and v.status == "ok":
        return  # broken metadata that is overridden anyway: left open
    what = f"as_builder({sorted(info)}, {sorted(over)})"
    st, m = call(case, info, over)
    case.check(st != "crash", "wrong-exception", lambda: f"{what}: {m!r:.300}", [info, over])
    case.check(st == want, "builder-decision", lambda: f"{what}: {st} {m!s:.400}; expected {want} {v.why} {vi.why} {refs[1][:2]}", [info, over])
    case.see("build:" + want)
    if st == "ok":
        complete(case, m, v.canon, what)
        case.check(m.extra_validators == [lib.UnifiedReferencesValidator], "validator-missing", lambda: f"{what}: extra_validators = {m.extra_validators}", [info, over])
        case.check(not m.extra_converters, "unexpected-converters", lambda: f"{what}: {m.extra_converters}")
        for k in info:
            case.state("arguments", k, not info[k])
        for k in over:
            case.state("overrides", k if not k.startswith("x-") else "x-")
    case.distinct(info, over)
    case.sample([sorted(info), sorted(over)])


def complete(case, m, c, what):
    out = lib.dump(m)
    case.check(deep_eq(out, c), "builder-content", lambda: f"{what}: {first_diff(c, out)}", c)
    dd = walk_live(T(ROOT), c, m)
    case.check(dd is None, "builder-content", lambda: f"{what}: {dd}", c)
    fresh = lib.AsyncAPI3.model_validate({**jx(c), "extra_validators": m.extra_validators, "extra_converters": m.extra_converters})
    case.check(fresh == m, "builder-content", f"{what}: unequal to the parsed document", c)


def plain(case):
    """No arguments at all: the documented empty document, with every section usable."""
    r = case.rng
    m = lib.AsyncAPI3.as_builder()
    complete(case, m, empty(), "as_builder()")
    sub = type("Sub", (lib.AsyncAPI3,), {})
    case.check(type(sub.as_builder()) is sub, "builder-class", "as_builder() of a subclass builds another class")
    for s in r.sample(SECTIONS, 19):
        x = {"operations": {"action": "send", "channel": {"$ref": "#/components/channels/c"}}, "replies": {"address": {"location": "$message.header#/a"}}}.get(s) or Gen(r, p=0.2, depth=1, ref=lambda site: "https://example.com/x").obj(_kind(s))
        if interpret(T(_kind(s)), x).status != "ok" or '"ref"' in str(x) or "$ref" in str(x) and s not in ("operations",):
            x = minimal(r, _kind(s), p=0)
        live = getattr(m.components, CATALOG["Components"]["by_json"][s]["py"])
        case.check(live is not None and len(live) == 0, "section-missing", f"components.{s}")
        live["k-1"] = x
    m.components.channels["c"] = {}
    m.info = {"title": "a", "version": "1"}
    case.check(set(lib.dump(m)["components"]) == set(SECTIONS) and all(lib.dump(m)["components"][s] for s in SECTIONS), "section-missing", "items added to the sections are missing")
    other = lib.dump(lib.AsyncAPI3.as_builder())
    case.check(deep_eq(other, empty()), "shared-state", lambda: f"a later builder starts with {first_diff(empty(), other)}")
    case.see("plain")


def _kind(s):
    from rv.refs import SECTION_KIND

    return SECTION_KIND["components/" + s][0]


def guards(case):
    """Later broken assignments are rejected, later consistent ones accepted."""
    r = case.rng
    d = consistent_doc(case)
    if d is None:
        return
    m = lib.AsyncAPI3.as_builder(title="t")
    cur = expected({"title": "t"}, {})
    order = ["components", "servers", "channels", "operations", "info"]
    for k in [*order, *r.sample(order, 3)]:
        b = broken_doc(case, d) if r.random() < 0.5 else None
        src = b[0] if b else d
        if k not in src:
            continue
        nxt = {**cur, k: src[k]}
        c = canon(nxt)
        if c is None:
            continue
        st, why, _ = judge(c)
        if st == "open":
            continue
        before = lib.dump(m)
        got, e = lib.attempt(setattr, m, k, jx(src[k]))
        case.check((got == "ok") == (st == "ok") and got != "crash", "builder-guard", lambda: f"builder document.{k} = ...: {got} {e!s:.300}; oracle {st} {why[:2]}", nxt)
        if got == "ok":
            cur = nxt
        else:
            case.check(deep_eq(lib.dump(m), before), "rejected-but-changed", k, nxt)
        case.see("guard:" + got)
    case.check(deep_eq(lib.dump(m), canon(cur)), "builder-content", lambda: f"after assignments: {first_diff(canon(cur), lib.dump(m))}", cur)
    case.distinct("guards", d)


def processors(case):
    """Processor arguments replace the default lists."""
    r = case.rng
    tr = Trace()
    c, v = tracing(tr, "c"), tracing(tr, "v")
    k = r.choice(["none", "empty", "own", "both", "tags", "mixed", "mixed", "mixed"])
    if k == "mixed":
        return mixed(case, tr, c, v)
    extra = {"none": {"extra_validators": None}, "empty": {"extra_validators": []}, "own": {"extra_validators": [v]}, "both": {"extra_converters": [c], "extra_validators": [lib.UnifiedReferencesValidator, v]},
             "tags": {"extra_validators": [lib.TagsRefValidator], "extra_converters": None}}[k]
    broken = {"o": {"action": "send", "channel": {"$ref": "#/channels/none"}}}
    st, m = lib.attempt(lambda: lib.AsyncAPI3.as_builder(operations=broken, **extra))
    want = "invalid" if k == "both" else "ok"
    case.check(st == want, "processors-argument", lambda: f"{k}: {st} {m!s:.300}")
    got = [e[0] for e in tr.events]
    case.check(got == {"own": ["v"], "both": ["c"]}.get(k, []), "processors-argument", lambda: f"{k}: ran {got}")
    if st == "ok":
        tr.events.clear()
        m.operations = None
        case.check([e[0] for e in tr.events] == (["v"] if k == "own" else []), "processors-argument", f"{k}: on assignment ran {[e[0] for e in tr.events]}")
    case.see("processors")
    case.state("processors", k)


def mixed(case, tr, c, v):
    """Every combination of the two lists, with and without other keywords."""
    r = case.rng
    U = lib.UnifiedReferencesValidator
    given = {}
    if r.random() < 0.75:
        given["extra_converters"] = r.choice([None, [], [c], [c, c], [lib.Noop, c]])
    if r.random() < 0.75:
        given["extra_validators"] = r.choice([None, [], [v], [v, v], [U], [v, U], [U, v], [lib.Noop]])
    bad = r.random() < 0.5
    ops = {"operations": {"o": {"action": "send", "channel": {"$ref": "#/channels/none" if bad else "#/channels/c"}}}, "channels": {"c": {}}}
    others = {k: x for k, x in {"id": "urn:a", "default_content_type": "a/b", "x-a": 1}.items() if r.random() < 0.3}
    kw = list({**given, **ops, **others}.items())
    r.shuffle(kw)
    vs = given["extra_validators"] if "extra_validators" in given else [U]
    refused = bad and U in (vs or [])
    want = ["c"] * (given.get("extra_converters") or []).count(c) + ["v"] * ((vs or [])[:(vs or []).index(U)] if refused else vs or []).count(v)
    what = f"{[(k, [p.__name__ for p in x] if isinstance(x, list) else x) for k, x in given.items()]} with {'broken' if bad else 'good'} operations"
    st, m = lib.attempt(lambda: lib.AsyncAPI3.as_builder(**dict(kw)))
    case.check(st == ("invalid" if refused else "ok"), "processors-argument", lambda: f"{what}: {st} {m!s:.300}")
    got = [e[0] for e in tr.events]
    case.check(got == want, "processors-argument", lambda: f"{what}: ran {got}, expected {want}")
    if st == "ok":
        case.check((m.extra_converters or []) == (given.get("extra_converters") or []), "processors-argument", lambda: f"{what}: converters {m.extra_converters}")
        case.check((m.extra_validators or []) == (vs or []), "processors-argument", lambda: f"{what}: validators {m.extra_validators}")
        s2, e = lib.attempt(setattr, m, "operations", {"o": {"action": "send", "channel": {"$ref": "#/channels/none"}}})
        case.check(s2 == ("invalid" if U in (vs or []) else "ok"), "processors-argument", lambda: f"{what}: later broken assignment {s2}")
    case.see("mixed")


def separate(case):
    """Builds share nothing: neither with each other nor with defaults."""
    r = case.rng
    info, over = metadata(case, False), overrides(case, False)
    if any(info.get(k, "") is None for k in ("title", "version")):
        return
    sa, a = call(case, info, over)
    sb, b = call(case, info, over)
    if sa != "ok" or sb != "ok":
        case.check(sa == sb, "builder-decision", f"same call: {sa} then {sb}", [info, over])
        return
    case.check(a == b, "builds-differ", "the same call gave unequal documents", [info, over])
    disjoint(case, a, b, "two builds", [info, over])
    before = lib.dump(b)
    first = lib.dump(lib.AsyncAPI3.as_builder())
    vandalise(r, a)
    case.check(deep_eq(lib.dump(b), before), "shared-state", lambda: f"editing one build changed another: {first_diff(before, lib.dump(b))}", [info, over])
    case.check(b.extra_validators == [lib.UnifiedReferencesValidator], "shared-state", "editing one build changed another's validators", [info, over])
    third = lib.AsyncAPI3.as_builder()
    case.check(deep_eq(lib.dump(third), first) and third.extra_validators == [lib.UnifiedReferencesValidator], "shared-state", "editing a build changed later builds", [info, over])
    st, m = call(case, info, over)
    case.check(st == "ok" and m == b, "shared-state", "editing a build changed a later build with the same arguments", [info, over])
    case.see("separate")


STAGES = {"builds": (builds, 1500, 60000), "plain": (plain, 20, 500), "guards": (guards, 120, 5000), "processors": (processors, 80, 3000), "separate": (separate, 150, 8000)}
FLOORS = {"build:ok": 400, "build:invalid": 150, "state:arguments": 11, "state:overrides": 9, "plain": 20, "guard:ok": 150, "guard:invalid": 60, "state:processors": 5, "mixed": 30, "separate": 60}
_ = (gen, rand_instance)
