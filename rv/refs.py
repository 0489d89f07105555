"""References at the level of JSON documents: sites, targets, a resolver, and generators of
documents whose references are all good, or exactly one of which is bad.

Nothing here asks the library; `resolve` is the oracle for what a pointer means.
"""

import re

from rv import gen, lib, words
from rv.embed import BARE, DIST, ways
from rv.gen import Gen, get_at, jx, set_at
from rv.spec import CATALOG, interpret
from rv.util import ROOT, T, pick_alt, rand_doc

SECTION = {
    "Server": ["servers", "components/servers"], "Channel": ["channels", "components/channels"],
    "Operation": ["operations", "components/operations"], "Message": ["components/messages"],
    "Schema": ["components/schemas"], "MultiFormatSchema": ["components/schemas"], "Parameter": ["components/parameters"],
    "SecurityScheme": ["components/securitySchemes"], "ServerVariable": ["components/serverVariables"],
    "CorrelationID": ["components/correlationIds"], "OperationReply": ["components/replies"],
    "OperationReplyAddress": ["components/replyAddresses"], "ExternalDocumentation": ["components/externalDocs"],
    "Tag": ["components/tags"], "OperationTrait": ["components/operationTraits"], "MessageTrait": ["components/messageTraits"],
    "ServerBindingsObject": ["components/serverBindings"], "ChannelBindingsObject": ["components/channelBindings"],
    "OperationBindingsObject": ["components/operationBindings"], "MessageBindingsObject": ["components/messageBindings"],
}
SECTION_KIND = {}
for _k, _ss in SECTION.items():
    for _s in _ss:
        SECTION_KIND.setdefault(_s, []).append(_k)
EXTERNAL = ["https://example.com/a.yaml#/components/tags/x", "http://example.com/", "https://e.org/x#/b", "http://localhost:1/a.json", "https://", "http://x y",
            "https://example.com/a.yaml#", "http://a/#/components/schemas/a", "https://üñí.example/z"]
UNSUPPORTED = ["", "#", "#/", "foo", "./x.yaml#/b", "../a.json", "/components/tags/x", "components/tags/x", "ftp://h/x#/a", "file:///tmp/x", "urn:a:b",
               " #/components/tags/x", "httpx://h", "x.yaml", "##", "{}", "$ref"]


def positions(t, v, path=(), field=None):
    """(path, kind, detail) of every object and reference of a conforming document.

    kind 'ref': detail = expected object names; kind 'obj': detail = object name.
    """
    k = t[0]
    if k == "ref":
        yield path, "ref", BARE[field]
    elif k == "list" and isinstance(v, list):
        for i, x in enumerate(v):
            yield from positions(t[1], x, path + (i,), field)
    elif k == "map" and isinstance(v, dict):
        for key, x in v.items():
            yield from positions(t[1], x, path + (key,), field)
    elif k == "union":
        a = pick_alt(t[1:], v)
        if a == ["ref"]:
            yield path, "ref", tuple(x[1] for x in t[1:] if x[0] == "obj")
        else:
            if a == ["any"] and isinstance(v, dict) and any(x == T("Schema") for x in t[1:]):
                return  # kafka key: class left open
            yield from positions(a, v, path, field)
    elif k == "obj" and isinstance(v, dict):
        yield path, "obj", t[1]
        c = CATALOG[t[1]]
        if c["kind"] == "patterned":
            for key, x in v.items():
                yield from positions(c["item"], x, path + (key,), None)
        else:
            for f in c["fields"]:
                if v.get(f["json"]) is not None:
                    yield from positions(f["type"], v[f["json"]], path + (f["json"],), f["json"])


def ref_sites(doc):
    return [(p, names) for p, k, names in positions(T(ROOT), doc) if k == "ref"]


def addressable(path):
    return all(isinstance(s, str) and s and "/" not in s and "~" not in s for s in path) and bool(path)


def pointer(path):
    return "#/" + "/".join(path)


def table(doc):
    """Every addressable place of a document: path -> ('obj', name) | ('ref', expected names)."""
    return {p: (k, d) for p, k, d in positions(T(ROOT), doc) if addressable(p)}


class Found:
    """Outcome of following a reference: status ok|bad|external|open, target path, object name, hops."""

    __slots__ = ("hops", "kind", "path", "status", "url", "why")

    def __init__(self, status, path=None, kind=None, why="", hops=0, url=None):
        self.status, self.path, self.kind, self.why, self.hops, self.url = status, path, kind, why, hops, url

    def __repr__(self):
        return f"<{self.status} {self.path} {self.kind} {self.why}>"


def locate(doc, path):
    """What sits at a path: ('obj'|'ref'|'scalar'|'list'|'map'|'open'|'missing', detail)."""
    t, v = T(ROOT), doc
    field = None
    for n, s in enumerate(path):
        k = t[0]
        if k == "union":
            t = pick_alt(t[1:], v)
            if t == ["any"] and isinstance(v, dict) and any(True for _ in v):
                return "open", "inside free data"
            k = t[0]
        if k == "ref":
            return "open", "through a reference"
        if k == "obj":
            c = CATALOG[t[1]]
            if c["kind"] == "patterned":
                if s not in v:
                    return "missing", s
                t, v, field = c["item"], v[s], None
                continue
            f = c["by_json"].get(s)
            if f is None:
                return ("open" if c["kind"] != "closed" and s in v or s in c["py_only"] else "missing"), s
            if v.get(s) is None:
                return ("open" if "default" in f else "missing"), s
            t, v, field = f["type"], v[s], s
            continue
        if k == "map":
            if s not in v:
                return "missing", s
            t, v = t[1], v[s]
            continue
        if k == "list":
            return "open", "into a list"
        if k == "any":
            return "open", "inside free data"
        return "missing", s
    k = t[0]
    if k == "union":
        t2 = pick_alt(t[1:], v)
        if t2 == ["ref"]:
            return "ref", tuple(a[1] for a in t[1:] if a[0] == "obj")
        if t2 == ["any"] and isinstance(v, dict):
            return "open", "kafka key"
        t = t2
        k = t[0]
    if k == "ref":
        return "ref", BARE[field]
    if k == "obj":
        return "obj", t[1]
    return {"list": "list", "map": "map", "any": "open"}.get(k, "scalar"), None


def split(ref):
    """Path of a canonical pointer, or a reason why it is not one."""
    if not ref.startswith("#"):
        return None, "unsupported form"
    if not ref.startswith("#/"):
        return None, "open" if len(ref) > 1 else "empty pointer"
    body = ref[2:]
    if not body.strip("/"):
        return None, "empty pointer"
    parts = body.split("/")
    if any(not s or "~" in s for s in parts):
        return None, "open"
    return tuple(parts), None


def resolve(doc, ref):
    """Follow a reference string in a document."""
    seen = []
    hops = 0
    while True:
        if ref in seen:
            return Found("bad", why=f"circular via {ref[:60]}", hops=hops)
        seen.append(ref)
        if ref.startswith(("http://", "https://")):
            return Found("external", url=ref, hops=hops)
        path, why = split(ref)
        if path is None:
            return Found("open" if why == "open" else "bad", why=why, hops=hops)
        kind, det = locate(doc, path)
        if kind == "open":
            return Found("open", why=str(det), hops=hops)
        if kind == "missing":
            return Found("bad", why=f"nothing at {ref[:80]}", hops=hops)
        if kind == "ref":
            ref = get_at(doc, path)["$ref"]
            hops += 1
            continue
        return Found("ok", path, det if kind == "obj" else kind, hops=hops)


def site_verdict(doc, ref, names):
    f = resolve(doc, ref)
    if f.status == "ok" and f.kind not in names:
        return Found("bad", f.path, f.kind, f"is a {f.kind}, expected {'/'.join(names)}", f.hops)
    return f


def judge(doc):
    """('ok'|'bad'|'open', reasons, external urls) over all reference sites of a canonical document."""
    why, urls, opened = [], [], False
    for p, names in ref_sites(doc):
        f = site_verdict(doc, get_at(doc, p)["$ref"], names)
        if f.status == "bad":
            why.append((p, f.why))
        elif f.status == "external":
            urls.append(f.url)
        elif f.status == "open":
            opened = True
    return ("bad" if why else "open" if opened else "ok"), why, urls


def canon(doc):
    v = interpret(T(ROOT), doc)
    return v.canon if v.status == "ok" else None


# ------------------------------------------------------------------ making things
def section(doc, name):
    x = doc
    for s in name.split("/"):
        x = x.setdefault(s, {})
    return x


def minimal(rng, name, p=0.15):
    for _ in range(20):
        x = Gen(rng, p=p, depth=2, free_refs=False).obj(name)
        if name == "Schema" and not x:
            x = {"type": "string"}
        if interpret(T(name), x).status == "ok":
            return x
    return None


def add_target(rng, doc, names, g, avoid=()):
    """Put a fresh object of one of the kinds into its section; returns its path."""
    name = rng.choice(list(names))
    if name == "Operation":
        x = {"action": rng.choice(["send", "receive"]), "channel": {"$ref": ""}}
    elif name == "OperationReply":
        x = {}
    else:
        x = minimal(rng, name)
    if x is None:
        return None
    sec = rng.choice(SECTION[name])
    m = section(doc, sec)
    for _ in range(30):
        key = g.key()
        if key not in m:
            m[key] = x
            return (*sec.split("/"), key)
    return None


def connect(rng, doc, g, ext=0.0, reuse=0.5, chain=0.2, keep=()):
    """Point every reference of the document somewhere right; None when it cannot be done."""
    done = {}
    todo = [s for s in ref_sites(doc) if s[0] not in keep]
    rng.shuffle(todo)
    pending = {p for p, _ in todo}
    while todo:
        p, names = todo.pop()
        if p not in pending:
            continue
        pending.discard(p)
        node = get_at(doc, p)
        if ext and rng.random() < ext:
            node["$ref"] = rng.choice(EXTERNAL)
            done[p] = names
            continue
        opts = []
        x = rng.random()
        if x < chain:
            for q, qn in done.items():
                if addressable(q) and q != p and set(qn) & set(names):
                    f = resolve(doc, pointer(q))
                    if f.status == "ok" and f.kind in names:
                        opts.append(q)
        if not opts and x < chain + reuse:
            opts = [q for q, (k, d) in table(doc).items() if k == "obj" and d in names]
        if opts:
            node["$ref"] = pointer(rng.choice(opts))
        else:
            q = add_target(rng, doc, names, g)
            if q is None:
                return None
            node["$ref"] = pointer(q)
            new = [s for s in ref_sites(get_at_doc(doc, q)) if False]
            del new
            for r, rn in ref_sites(doc):
                if r[: len(q)] == q and r not in done and r not in pending:
                    pending.add(r)
                    todo.append((r, rn))
        done[p] = names
    return doc


def get_at_doc(doc, path):
    return {"info": {"title": "", "version": ""}} if path else doc


def consistent_doc(case, ext=0.0, p=None, depth=None, key_pool=None, chain=0.25, reuse=0.5, sections=None):
    """A conforming document in which every reference leads to the right kind of object."""
    r = case.rng
    for _ in range(8):
        g = Gen(r, key_pool=key_pool)
        d = gen.document(r, p=p or r.choice([0.12, 0.2, 0.3]), depth=depth or r.choice([3, 4, 5, 6]), key_pool=key_pool, ref=lambda site: "", sections=sections)
        d = connect(r, d, g, ext=ext, chain=chain, reuse=reuse)
        if d is None:
            case.see("generator:unconnected")
            continue
        c = canon(d)
        if c is None:
            case.see("generator:nonconforming")
            continue
        st, why, _ = judge(c)
        if st != "ok":
            case.see("generator:" + st)
            continue
        return d
    return None


def site_doc(case, site, p=0.1, extra=2, key_pool=None, way=None):
    """A consistent document containing a reference at one given site type; (doc, path of the reference)."""
    from rv.embed import good_embed, put

    owner, field, wrap, names = site
    r = case.rng
    for _ in range(12):
        mark = {"$ref": ""}
        g = Gen(r, p=p, depth=2, ref=lambda s: "", key_pool=key_pool, free_refs=r.random() < 0.2)
        res = put(r, owner, field, wrap, mark, g, siblings=False)
        if res is None:
            continue
        o, tail = res
        if interpret(T(owner), o).status != "ok":
            continue
        e = good_embed(r, owner, o, p=p, ref=lambda s: "", extra=extra, key_pool=key_pool, way=way)
        if e is None:
            continue
        doc, head, _ch = e
        path = tuple(head) + tuple(tail)
        doc = connect(r, doc, g, reuse=0.5, chain=0.25)
        if doc is None:
            continue
        c = canon(doc)
        if c is None or judge(c)[0] != "ok":
            continue
        return doc, path
    return None


def every_kind(rng, doc, g):
    """Put one object of every component type into the document: object name -> path of one."""
    out = {}
    keep = {p for p, _n in ref_sites(doc)}
    for name in SECTION:
        q = add_target(rng, doc, [name], g)
        if q is None:
            return None
        if name == "Operation":
            ch = add_target(rng, doc, ["Channel"], g)
            get_at(doc, q)["channel"]["$ref"] = pointer(ch)
        out[name] = q
    for name in ("Channel", "Server", "Operation"):  # at home in two places
        sec = rng.choice(SECTION[name])
        k = f"second-{name}"
        section(doc, sec)[k] = jx(get_at(doc, out[name]))
        out[name + "2"] = (*sec.split("/"), k)
    keep |= {(*out[n], "channel") for n in ("Operation", "Operation2")}
    return out if connect(rng, doc, g, keep=keep, chain=0) else None


def near_miss(rng, doc, ref):
    path, _ = split(ref)
    if not path:
        return ref + "x"
    p = list(path)
    i = rng.randrange(len(p))
    x = rng.randrange(10)
    w = words.word(rng) if rng.random() < 0.7 else None
    n = words.size(rng, 5000, 0.05)
    if w:
        p[i] = rng.choice([p[i] + w, w + p[i], w])
    elif n:
        p[i] += "x" * n
    elif rng.random() < 0.06:
        p[i] = rng.choice(["", p[i]]) + gen.formatted(rng).replace("/", "").replace("~", "") or "%"
    elif x == 0:
        p[i] = rng.choice([p[i].swapcase(), p[i].lower(), p[i].upper(), p[i].capitalize(), p[i].title(), re.sub("([A-Z])", r"_\1", p[i]), re.sub("([A-Z])", r"-\1", p[i]).lower(), p[i].replace("-", "_"), p[i].replace("_", "-")])
    elif x == 8:
        p[i] += rng.choice(["?", "?x=1", "#", "#x", ";a=1", "@1", "!", "[0]", "*", "&", "=", ",", "|a", "\\", "\n", "\t", "%20", "$", ":1", "()", "+", "^1", "~", "{}", "<>", "\u200b", "\u00a0"])
    elif x == 9:
        p[i] = rng.choice(["?", "#", ";", "@", "!", "[", "*", "&", "=", ",", "./", "\\", "\n", "\t", "%20", "$", ":", "(", "+", "~", "{", "<", "\u200b", " "]) + p[i]
    elif x == 1:
        p[i] += rng.choice(["x", "_", "-", "0", " ", ".", "x" * rng.choice([40, 100, 200, 300, 600, 1100, 5000])])
    elif x == 2:
        p[i] = p[i][:-1] or "q"
    elif x == 3:
        p = p[:-1] or ["q"]
    elif x == 4:
        p.append(rng.choice(["x", "0", "root", "keys", "items", "title", "$ref", "ref", "model_fields", "__class__"]))
    elif x == 5:
        p = ["components", *p] if p[0] != "components" else p[1:]
    elif x == 6:
        p[-1] = rng.choice(["__dict__", "model_extra", "root", "values", "nope"])
    else:
        p[0] = rng.choice(["Components", "component", "definitions", "x-a", "paths", "extra_validators", "model_config"])
    return pointer(p)


def spoil(rng, doc, path, names, how=None):
    """Make the reference at `path` bad; (new document, description) or None.  `doc` is not modified."""
    d = jx(doc)
    node = get_at(d, path)
    how = how or rng.choice(["dangling", "near", "kind", "kind", "shared", "cycle", "chain", "unsupported", "container"])
    tab = table(d)
    if how == "dangling":
        secs = [s for n in names for s in SECTION[n]]
        node["$ref"] = rng.choice(["#/" + rng.choice(secs) + "/" + rng.choice(["missing", "nope-1", "0", "root", "get", "info"]), "#/nowhere", "#/components/nope/x", "#/info/x/y"])
    elif how == "near":
        good = [pointer(q) for q, (k, n) in tab.items() if k == "obj" and n in names] or [node["$ref"]]
        node["$ref"] = near_miss(rng, d, rng.choice([*good, node["$ref"]]))
    elif how == "kind":
        opts = [q for q, (k, n) in tab.items() if k == "obj" and n not in names]
        node["$ref"] = pointer(rng.choice(opts))
    elif how == "container":
        opts = [q for q, (k, n) in tab.items() if k == "obj" and CATALOG[n]["kind"] == "patterned"]
        node["$ref"] = rng.choice([*[pointer(o) for o in opts], "#/info", "#/info/title", "#/info/version", "#/asyncapi", "#/components"])
    elif how == "shared":  # a string that is right somewhere else
        opts = []
        for q, qn in ref_sites(d):
            f = site_verdict(d, get_at(d, q)["$ref"], qn)
            if q != path and f.status == "ok" and f.kind not in names:
                opts.append(get_at(d, q)["$ref"])
        if not opts:
            return None
        node["$ref"] = rng.choice(opts)
    elif how == "unsupported":
        node["$ref"] = rng.choice(UNSUPPORTED)
    elif how in ("cycle", "chain"):
        name = rng.choice(list(names))
        sec = rng.choice(SECTION[name])
        n = rng.choice([1, 1, 2, 2, 3, 5, 12, *(gen.new_sizes(rng, 300) if rng.random() < 0.3 else [])])
        m = section(d, sec)
        keys = []
        for j in range(n):
            key = f"loop{j}-{rng.randrange(10**6)}"
            m[key] = {"$ref": ""}
            keys.append(key)
        for a, b in zip(keys, keys[1:]):
            m[a]["$ref"] = f"#/{sec}/{b}"
        node = get_at(d, path)
        node["$ref"] = f"#/{sec}/{keys[0]}"
        if how == "cycle":
            back = rng.choice(keys)
            m[keys[-1]]["$ref"] = f"#/{sec}/{back}"
            if addressable(path) and rng.random() < 0.3:
                m[keys[-1]]["$ref"] = pointer(path)
        else:
            opts = [q for q, (k, x) in tab.items() if k == "obj" and x not in names]
            m[keys[-1]]["$ref"] = rng.choice([rng.choice(UNSUPPORTED), f"#/{sec}/absent", pointer(rng.choice(opts))])
        if rng.random() < 0.5:  # document order must not matter
            items = list(m.items())
            rng.shuffle(items)
            m.clear()
            m.update(items)
    c = canon(d)
    if c is None:
        return None
    st, why, _ = judge(c)
    if st != "bad":
        return None
    return d, how, why


def broken_doc(case, doc, how=None):
    """`doc` with one reference spoilt: (document, how) or None."""
    r = case.rng
    for _ in range(6):
        ss = ref_sites(doc)
        if not ss:
            return None
        p, names = r.choice(ss)
        x = spoil(r, doc, p, names, how)
        if x:
            return x[0], x[1]
    return None


def class_of(owner_path_names):
    return "/".join(owner_path_names)


__all__ = ["EXTERNAL", "SECTION", "UNSUPPORTED", "addressable", "broken_doc", "canon", "consistent_doc", "connect", "judge", "locate",
           "pointer", "positions", "rand_doc", "ref_sites", "resolve", "set_at", "site_doc", "site_verdict", "split", "spoil", "table"]


def live_at(root, path):
    """The live object the document holds at a path of specification names."""
    m = root
    for s in path:
        if isinstance(m, (dict, list)):
            m = m[s]
            continue
        nm = type(m)
        c = CATALOG.get(lib.name_of(nm))
        if c is None:
            raise KeyError(f"no model for {nm} on the way to {path}")
        m = m[s] if c["kind"] == "patterned" else getattr(m, c["by_json"][s]["py"])
    return m


# ------------------------------------------------------------------ targets anywhere in the document
# every (object name, way up) that a pointer can address: nothing on the way is a list
PLACES = [(n, w) for n in CATALOG if n in DIST and n != ROOT for w in ways(n) if not any("list" in e[2] for e in w)]


def decorate(r, d, path, x, step):
    """Members named like attributes of model objects, where the specification allows any name."""
    where = locate(d, tuple(path)) if all(isinstance(s, str) for s in path) else (None, None)
    if where[0] != "obj":
        return
    c = CATALOG[where[1]]
    if c["kind"] == "free":
        for k in r.sample(gen.ATTRIBUTE_LIKE, 2):
            if k not in c["by_json"] and k not in c["py_only"] and k not in x:
                x[k] = r.choice([{"a": 1}, {}, [1], None, "root", {step or "a": {"decoy": True}}, {f["json"]: {"decoy": True} for f in c["fields"]}])
    elif c["kind"] == "patterned" and x:
        k = r.choice(["root", "keys", "items", "model_fields", "copy", "get"])
        if k not in x:
            x[k] = jx(r.choice(list(x.values())))


def merged(a, b):
    """The members of two documents; where both have a plain value, the first wins."""
    if isinstance(a, dict) and isinstance(b, dict) and "$ref" not in a and "$ref" not in b:
        out = {k: merged(v, b[k]) if k in b else v for k, v in a.items()}
        out.update({k: v for k, v in b.items() if k not in a})
        return out
    return a


def swell(r, d, n):
    """Give a consistent document n more entries of some kinds and n distinct references to them, before or after the others; paths of those."""
    added = []
    kinds = [k for k in SECTION if k not in ("Operation",)]
    for kind in {r.choice(kinds), r.choice(kinds), "Tag" if r.random() < 0.7 else r.choice(kinds)}:
        sec = next(s for s in reversed(SECTION[kind]) if s.startswith("components"))
        m = section(d, sec)
        x = minimal(r, kind, p=0.03)
        if x is None or not isinstance(x, dict) or ref_below(x):
            x = {"Server": {"host": "h", "protocol": "p"}, "ServerVariable": {}}.get(kind)
        if x is None:
            continue
        keys = [f"big{r.randrange(10**6)}_{i}" for i in range(n)]
        for k in keys:
            m[k] = jx(x)
        refs = [f"#/{sec}/{k}" for k in keys]
        r.shuffle(refs)
        if kind == "Tag" and r.random() < 0.7 and isinstance(d["info"].setdefault("tags", []), list):
            lst = d["info"]["tags"]
            at = r.choice([0, len(lst)])
            lst[at:at] = [{"$ref": s} for s in refs]
            added += [(("info", "tags", at + i), (kind,)) for i in range(n)]
        else:
            links = {f"to{i}-{r.randrange(10**6)}": {"$ref": s} for i, s in enumerate(refs)}
            if r.random() < 0.5:
                old = dict(m)
                m.clear()
                m.update({**links, **old})
            else:
                m.update(links)
            added += [((*sec.split("/"), k), None) for k in links]
    c = canon(d)
    if c is None or judge(c)[0] != "ok":
        return None
    want = dict(ref_sites(d))
    return [(p, want[p]) for p, _ in added if p in want]


def ref_below(x):
    return "$ref" in x or any(ref_below(v) for v in x.values() if isinstance(v, dict)) or any(isinstance(i, dict) and ref_below(i) for v in x.values() if isinstance(v, list) for i in v)


def twin(r, doc, path):
    """A copy of the document in which something on the way to the reference stands there twice: (document, path of the second reference)."""
    cuts = list(range(len(path)))
    r.shuffle(cuts)
    for cut in cuts:
        d = jx(doc)
        par = get_at(d, path[:cut])
        if isinstance(par, list):
            y = jx(par[path[cut]])
            i = r.choice([path[cut] + 1, len(par)])
            par.insert(i, y)
            new = i
        else:
            new = r.choice([k for k in (f"twin-{r.randrange(10**6)}", "headers", "payload") if k != path[cut]])
            par[new] = jx(par[path[cut]])
        at = (*path[:cut], new, *path[cut + 1:])
        c = canon(d)
        if c is not None and at in dict(ref_sites(c)):
            return d, at
    return None


def clones(r, doc, path):
    """The document with one list or map on the way to the reference holding nothing but equal copies of the way's own entry: (document, path of one copy, count)."""
    cuts = [i for i in range(len(path)) if isinstance(path[i], int) or isinstance(get_at(doc, path[:i]), dict) and isinstance(get_at(doc, path[:i + 1]), dict)]
    r.shuffle(cuts)
    for cut in sorted(cuts, key=lambda i: not isinstance(path[i], int)):
        d = jx(doc)
        par = get_at(d, path[:cut])
        x = par[path[cut]]
        n = r.choice([2, 3, 3, 4, 5, 9])
        if isinstance(par, list):
            par[:] = [jx(x) for _ in range(n)]
            at = (*path[:cut], r.randrange(n), *path[cut + 1:])
        else:
            new = [path[cut], *(f"k{i}" for i in range(1, n))]
            rest = {} if r.random() < 0.6 else {k: v for k, v in par.items() if k != path[cut]}
            par.clear()
            par.update({k: jx(x) for k in new} | rest)
            at = path
        c = canon(d)
        if c is not None and at in dict(ref_sites(c)):
            return d, at, n
    return None


def free_names_doc(case):
    """Servers whose variables have arbitrary names, one of them a bad reference: (document, its path, how), or (document, None, None)."""
    r = case.rng
    g = Gen(r, p=0.2, depth=1, ref=lambda s: "")
    ks = [gen.formatted(r) if r.random() < 0.6 else g.any_key() for _ in range(r.choice([1, 2, 3]))]
    ks = [k for k in ks if k != "$ref"]
    sv = {"host": "h", "protocol": "p", "variables": {k: r.choice([{}, {"default": "a"}, {"$ref": "#/components/serverVariables/v"}, {"$ref": "#/components/serverVariables/w"}]) for k in ks}}
    d = {"info": {"title": "t", "version": "1"}, "components": {"serverVariables": {"v": {"default": "x"}, "w": {"$ref": "#/components/serverVariables/v"}}, "schemas": {"s": {}}, "tags": {"t": {"name": "n"}}}}
    if r.random() < 0.5:
        d["servers"] = {"s": sv}
        head = ("servers", "s", "variables")
    else:
        d["components"]["servers"] = {"s": sv}
        head = ("components", "servers", "s", "variables")
    c = canon(d)
    if not ks or c is None or judge(c)[0] != "ok":
        return None
    if r.random() < 0.25:
        return d, None, None
    path = (*head, r.choice(ks))
    get_at(d, path[:-1])[path[-1]] = {"$ref": "#/components/serverVariables/v"}
    x = spoil(r, d, path, ["ServerVariable"])
    return None if x is None else (x[0], path, x[1])
