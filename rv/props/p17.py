"""P17: reference factories point where their name says."""

import inspect

from rv import gen, lib
from rv.embed import REF_SITES
from rv.refs import canon, judge, minimal, section
from rv.spec import CATALOG
from rv.util import ROOT

RULE = ("a case calls every factory with one key, checks the string and type, resolves it in a document that stores a distinguishable object "
        "under that key in every section, and validates it in a position for that kind; keys counted")

FACTORIES = {
    "to_root_server_name": ("servers", "Server"), "to_root_channel_name": ("channels", "Channel"), "to_root_operation_name": ("operations", "Operation"),
    "to_component_schema_name": ("components/schemas", "Schema"), "to_component_server_name": ("components/servers", "Server"),
    "to_component_channel_name": ("components/channels", "Channel"), "to_component_operation_name": ("components/operations", "Operation"),
    "to_component_message_name": ("components/messages", "Message"), "to_component_security_scheme_name": ("components/securitySchemes", "SecurityScheme"),
    "to_component_server_variable_name": ("components/serverVariables", "ServerVariable"), "to_component_parameter_name": ("components/parameters", "Parameter"),
    "to_component_correlation_id_name": ("components/correlationIds", "CorrelationID"), "to_component_reply_name": ("components/replies", "OperationReply"),
    "to_component_reply_address_name": ("components/replyAddresses", "OperationReplyAddress"),
    "to_component_external_doc_name": ("components/externalDocs", "ExternalDocumentation"), "to_component_tag_name": ("components/tags", "Tag"),
    "to_component_operation_trait_name": ("components/operationTraits", "OperationTrait"), "to_component_message_trait_name": ("components/messageTraits", "MessageTrait"),
    "to_component_server_binding_name": ("components/serverBindings", "ServerBindingsObject"),
    "to_component_channel_binding_name": ("components/channelBindings", "ChannelBindingsObject"),
    "to_component_operation_binding_name": ("components/operationBindings", "OperationBindingsObject"),
    "to_component_message_binding_name": ("components/messageBindings", "MessageBindingsObject"),
}
EXTRA_KEYS = ["", " ", "a/b", "~0", "~1", "a~b", "%20", "é", "日本", "#", "#/x", "{", "}", "{x}", "{0}", "%s", "a\n", "\\", "'", '"', "..", "a b", "\x00", "$", "A" * 500]


def strings(case):
    r = case.rng
    keys = [r.choice(gen.HOSTILE_KEYS), r.choice(EXTRA_KEYS), r.choice(gen.STRINGS), gen.Gen(r).string(), "k" + str(r.randrange(10**9))]
    sec = r.choice(sorted({p for s, _ in FACTORIES.values() for p in s.split("/")}))
    keys += [sec, r.choice([sec + "s", sec[:-1], sec + "-1", "x" + sec, sec.upper(), sec + "/" + keys[0], "#/" + sec, "#/" + sec + "/" + keys[0], "#/components/" + sec + "/x", "components/" + sec])]
    keys += [keys[0] + "x", keys[0].swapcase(), "/" + keys[0], keys[0] + "/", keys[0] + " "]
    keys = list(dict.fromkeys(keys))
    made = {}
    for name, (sec, _kind) in FACTORIES.items():
        fn = getattr(lib.Reference, name)
        for k in keys:
            ref = fn(k) if r.random() < 0.5 else fn(**{next(iter(inspect.signature(fn).parameters)): k})
            want = f"#/{sec}/{k}"
            case.check(type(ref) is lib.Reference, "factory-type", lambda: f"{name}({k!r}) is a {type(ref)}", k)
            case.check(ref.ref == want, "factory-pointer", lambda: f"{name}({k!r}) -> {ref.ref!r}, expected {want!r}", k)
            case.check(lib.dump(ref) == {"$ref": want}, "factory-dump", lambda: f"{name}({k!r}) -> {lib.dump(ref)}", k)
            case.check(made.setdefault(ref.ref, (name, k)) == (name, k), "factory-collision", lambda: f"{name}({k!r}) and {made[ref.ref]} give {ref.ref!r}", k)
            case.check(fn(k) == ref and fn(k) is not ref, "factory-instability", lambda: f"{name}({k!r})", k)
            case.see("pointers")
            case.state("factory", name)
    for k in keys:
        case.distinct(k)
    case.sample(keys)


class Sub(lib.Reference):
    pass


def subclass(case):
    for name, (sec, _kind) in FACTORIES.items():
        ref = getattr(Sub, name)("k")
        case.check(isinstance(ref, lib.Reference) and ref.ref == f"#/{sec}/k", "factory-pointer", lambda: f"{name} on a subclass: {ref!r}", None)


def resolved(case):
    """The pointer leads to exactly the object stored under the key, with decoys in every other section."""
    r = case.rng
    d = {"info": {"title": "t", "version": "1"}}
    key = gen.Gen(r).key()
    other = key + "_"
    for name, (sec, kind) in FACTORIES.items():
        for k in (other, key) if r.random() < 0.5 else (key, other):
            x = {"action": "send", "channel": {"$ref": f"#/channels/{key}"}} if kind == "Operation" else {} if kind == "OperationReply" else minimal(r, kind, 0.03)
            if x is None:
                return
            section(d, sec)[k] = x
    if canon(d) is None or judge(canon(d))[0] != "ok":
        case.see("generator:bad")
        return
    m = lib.AsyncAPI3.model_validate(gen.jx(d))
    for name, (sec, kind) in FACTORIES.items():
        ref = getattr(lib.Reference, name)(key)
        st, res = lib.attempt(lib.resolve_reference, ref.ref, m)
        case.check(st == "ok" and res is not None, "factory-unresolved", lambda: f"{name}({key!r}): {st} {res!r:.200}", d)
        live = m
        for s in sec.split("/"):
            live = getattr(live, next(f["py"] for f in CATALOG[ROOT if live is m else "Components"]["fields"] if f["json"] == s))
        case.check(res.resolved_object is live[key], "factory-wrong-object", lambda: f"{name}({key!r}) resolves to {res!r:.200}", d)
        case.check(res.resolved_type is type(live[key]) is lib.cls(kind), "factory-wrong-kind", lambda: f"{name}({key!r}): {res.resolved_type}", d)
        case.state("resolved", name)
    case.distinct("resolved", key)
    case.see("documents")


BY_KIND = {}
for _n, (_s, _k) in FACTORIES.items():
    BY_KIND.setdefault(_k, []).append(_n)


def positioned(case):
    """Factory references pass validation in positions of their kind and only there."""
    from rv.refs import site_doc

    site = REF_SITES[case.i % len(REF_SITES)]
    r = case.rng
    got = site_doc(case, site)
    if got is None:
        return
    d, path = got
    names = site[3]
    kind = r.choice(names)
    fac = r.choice(BY_KIND["Schema" if kind == "MultiFormatSchema" else kind])
    sec, k0 = FACTORIES[fac]
    key = gen.Gen(r).key()
    x = {"action": "send", "channel": gen.jx(lib.dump(lib.Reference.to_root_channel_name("fac-ch")))} if k0 == "Operation" else {} if k0 == "OperationReply" else minimal(r, k0)
    if x is None:
        return
    if k0 == "Operation":
        section(d, "channels")["fac-ch"] = {}
    if path[: len(sec.split("/")) + 1] == (*sec.split("/"), key):
        return
    section(d, sec)[key] = x
    ref = getattr(lib.Reference, fac)(key)
    node = gen.get_at(d, path)
    node["$ref"] = ref.ref
    c = canon(d)
    if c is None or judge(c)[0] != "ok":
        case.see("generator:bad")
        return
    v = {**gen.jx(d), "extra_validators": [lib.UnifiedReferencesValidator]}
    st, m = lib.attempt(lib.AsyncAPI3.model_validate, v)
    case.check(st == "ok", "factory-reference-rejected", lambda: f"{fac}({key!r}) at {'/'.join(map(str, path))}: {m!s:.400}", d)
    wrong = r.choice([f for f in FACTORIES if FACTORIES[f][1] not in names])
    d2 = gen.jx(d)
    k2 = FACTORIES[wrong][1]
    y = {"action": "send", "channel": {"$ref": "#/channels/fac-ch"}} if k2 == "Operation" else {} if k2 == "OperationReply" else minimal(r, k2)
    if y is not None:
        section(d2, "channels").setdefault("fac-ch", {})
        section(d2, FACTORIES[wrong][0])["wrong-kind"] = y
        gen.get_at(d2, path)["$ref"] = getattr(lib.Reference, wrong)("wrong-kind").ref
        c2 = canon(d2)
        if c2 is not None and judge(c2)[0] == "bad":
            st, m = lib.attempt(lib.AsyncAPI3.model_validate, {**d2, "extra_validators": [lib.UnifiedReferencesValidator]})
            case.check(st == "invalid", "factory-reference-of-wrong-kind-accepted", lambda: f"{wrong} at {'/'.join(map(str, path))}: {st}", d2)
            case.see("wrong-kind")
    case.state("positions", site[0], site[1], fac)
    case.state("positioned_factory", fac)
    case.distinct("positioned", site[0], site[1], fac, key)


def complete(case):
    """Every factory the class offers is one the monitor knows."""
    have = {n for n in dir(lib.Reference) if n.startswith("to_") and n.endswith("_name")}
    case.check(have >= set(FACTORIES), "factory-missing", lambda: f"missing {set(FACTORIES) - have}", None)
    unknown = have - set(FACTORIES)
    if unknown:
        case.see("unknown-factories")


STAGES = {"strings": (strings, 300, 20000), "subclass": (subclass, 1, 1), "resolved": (resolved, 80, 4000), "positioned": (positioned, len(REF_SITES) * 4, len(REF_SITES) * 150),
          "complete": (complete, 1, 1)}
FLOORS = {"pointers": 30000, "state:factory": 22, "state:resolved": 22, "state:positioned_factory": 20, "state:positions": 80, "wrong-kind": 120, "documents": 40}
