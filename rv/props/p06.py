"""P06: exact recognition of reference objects at every position that may hold one."""

import json

from rv import gen, lib
from rv.embed import REF_SITES, good_embed, put
from rv.spec import CATALOG, deep_eq, interpret, walk_live
from rv.util import ROOT, T, accept, dump_is, fix_min, matches, refuse

RULE = ("a case is one reference position of the catalog (76) in one host object or document with one hostile reference string, or an "
        "object that is not a reference; distinct (position, host, string) counted")

STRS = gen.TEXTS + ["#", "#/", "#//", "#/components/schemas/a", "#/components/schemas/a/properties/b", "#/components/tags/%7Ea~1b", "http://x/y#/z",
                      "https://example.com", "HTTPS://EXAMPLE.COM", "./a.yaml#/b", "../a.json", "file:///etc/x", "//h/p", "?", "#a", "a#b#c", "#/channels/x/messages/y",
                      "#/components/schemas/root", "components/schemas/a", "#components/tags/a", "#components/schemas/a", "#channels/c", "#servers/a", "/components/tags/a", "#/definitions/a", "#/$defs/a", "#/components/schemas/../tags/a", "#/components//tags/a", "##/components/tags/a", "#\\components\\tags\\a", "#.components.tags.a", "a.yaml", "components/tags/a", "#!/components/tags/a", "https:/x", " #/components/schemas/a ", "#/components/schemas/a/", "#/Components/Schemas/A", "urn:x:y", "x" * 9000]


def site(case):
    owner, field, wrap, names = REF_SITES[case.i % len(REF_SITES)]
    bare = field in ("channel", "messages", "servers") and CATALOG[owner]["kind"] != "patterned"
    return owner, field, wrap, names, bare


def at(live, owner, path):
    """Follow a JSON path through public attributes of live objects."""
    cur, o = live, owner
    for step in path:
        if isinstance(cur, (list, dict)):
            cur = cur[step]
        elif hasattr(type(cur), "__getitem__"):
            cur = cur[step]
        else:
            name = lib.name_of(type(cur))
            cur = getattr(cur, CATALOG[name]["by_json"][step]["py"])
    return cur


def refs(case):
    owner, field, wrap, names, bare = site(case)
    s = case.rng.choice(STRS)
    if case.rng.random() < 0.4:
        s = case.rng.choice(["#/components/schemas/", "#/channels/", "https://example.com/a.json#/", "./"]) + case.rng.choice(gen.TEXTS)
    g = gen.Gen(case.rng, p=0.2, depth=2, free_refs=False)
    r = put(case.rng, owner, field, wrap, {"$ref": s}, g)
    if r is None or interpret(T(owner), r[0]).status != "ok":
        case.see("generator:none")
        return
    o, path = r
    docs = [(owner, o, path)]
    e = good_embed(case.rng, owner, o) if owner != ROOT else None
    if e:
        docs.append((ROOT, e[0], e[1] + path))
    for name, d, p in docs:
        canon = interpret(T(name), d).canon
        m = accept(case, lambda: lib.cls(name).model_validate(d), f"{name} with reference {s!r:.60} at {p}", d)
        live = at(m, name, p)
        case.check(type(live) is lib.Reference, "not-a-reference", lambda: f"{name} at {p}: read as {type(live).__name__}", d)
        case.check(live.ref == s, "reference-string-changed", lambda: f"{name} at {p}: {live.ref!r:.80} != {s!r:.80}", d)
        out = dump_is(case, canon, m, f"{name} with reference at {p}", d)
        case.check(gen.get_at(out, p) == {"$ref": s}, "reference-dump-changed", lambda: f"{gen.get_at(out, p)!r:.200}", d)
        case.check(deep_eq(gen.get_at(json.loads(lib.dumps(m)), p), {"$ref": s}), "reference-dump-changed", "JSON text dump", d)
        m2 = accept(case, lambda: lib.cls(name).model_validate_json(json.dumps(d)), f"{name} JSON", d)
        case.check(m2 == m, "entry-points-not-equal", "JSON and dict differ", d)
        case.distinct(name, p, s)
    case.state("ref_sites", owner, field, wrap)
    case.sample([owner, field, s])


SIBLINGS = ["description", "x-a", "summary", "name", "title", "type", "$id", "", "host", "url", "ref", "$Ref", "schema", "location", "action", "$comment", "$schema", "$anchor", "$defs", "$id", "$dynamicRef", "$recursiveRef", "id", "comment", "x-", "x-comment", "x-summary", "deprecated", "readOnly", "default", "examples", "_", "//", "key",
            "externalDocs", "tags", "bindings", "messages", "payload", "headers"]


def others(case):
    owner, field, wrap, names, bare = site(case)
    g = gen.Gen(case.rng, p=0.4, depth=2, free_refs=False)
    free = any(CATALOG[n]["kind"] == "free" for n in names)
    # inline objects are never references
    if not bare:
        name = case.rng.choice(names)
        x = g.obj(name)
        if interpret(T(name), x).status == "ok":
            r = put(case.rng, owner, field, wrap, x, gen.Gen(case.rng, p=0.2, depth=2))
            v = r and interpret(T(owner), r[0])
            if r and v.status == "ok":
                o, path = r
                m = accept(case, lambda: lib.cls(owner).model_validate(o), f"{owner} with inline {name} at {path}", o)
                live = at(m, owner, path)
                case.check(type(live) is not lib.Reference, "inline-read-as-reference", lambda: f"{owner} at {path}", o)
                matches(case, T(owner), v.canon, m, owner, o)
                case.state("inline_sites", owner, field, wrap)
                case.distinct(owner, path, x)
    # siblings next to $ref, non-string $ref, inline where only a reference is allowed
    bads = [{"$ref": case.rng.choice(STRS), case.rng.choice(SIBLINGS): case.rng.choice(["v", None, 1, {}])} for _ in range(5)]
    bads += [{"$ref": x} for x in (None, 5, True, [], {}, ["#/a"], 1.5)] + [{"$Ref": "#/a"}, {" $ref": "#/a"}, {"$ref ": "#/a"}, {"REF": "#/a"}]
    if bare:
        nm = names[0]
        bads += [g.obj(nm), {}, "#/channels/x", None, [{"$ref": "#/a"}]]
    else:
        full = g.obj(case.rng.choice(names))
        if interpret(T(names[0]), full).status == "ok":
            bads.append({**full, "$ref": "#/components/schemas/a"})
        bads += ["#/components/schemas/a", [{"$ref": "#/a"}]]
    base = None
    for _ in range(10):
        r = put(case.rng, owner, field, wrap, {"$ref": "#/a"}, gen.Gen(case.rng, p=0.2, depth=2))
        if r and interpret(T(owner), r[0]).status == "ok":
            base = r
            break
    if base is None:
        return
    o, path = base
    e = good_embed(case.rng, owner, o) if owner != ROOT else None
    for b in bads:
        y = gen.set_at(gen.jx(o), path, gen.jx(b))
        v = interpret(T(owner), y)
        if v.status != "bad":
            case.see("verdict:" + v.status)
            continue
        refuse(case, lambda: lib.cls(owner).model_validate(y), f"{owner} with {b!r:.80} at {path}", v.why, y)
        case.state("refused_sites", owner, field, wrap)
        case.distinct(owner, path, b)
        if e and case.rng.random() < 0.3:
            d = gen.set_at(gen.jx(e[0]), e[1] + path, gen.jx(b))
            v = interpret(T(ROOT), d)
            if v.status == "bad":
                refuse(case, lambda: lib.AsyncAPI3.model_validate(d), f"document with {b!r:.80} at {e[1] + path}", v.why, d)


STAGES = {"refs": (refs, len(REF_SITES) * 26, len(REF_SITES) * 500), "others": (others, len(REF_SITES) * 12, len(REF_SITES) * 250)}
FLOORS = {"state:ref_sites": 74, "state:inline_sites": 60, "state:refused_sites": 70, "refused": 6000, "accepted": 4000}
