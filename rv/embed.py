"""Where each object type can sit in a document, and documents built around a given value."""

from rv.gen import FIXUPS, Gen, jx
from rv.spec import CATALOG, interpret

ROOT = "AsyncAPI3"


def inner(t, wrap=()):
    """(kind, names, wrap) for every object/reference position inside a field type."""
    k = t[0]
    if k == "obj":
        yield "obj", t[1], wrap, False
    elif k == "ref":
        yield "ref", None, wrap, True
    elif k == "list":
        yield from inner(t[1], wrap + ("list",))
    elif k == "map":
        yield from inner(t[1], wrap + ("map",))
    elif k == "union":
        allow = ["ref"] in t[1:]
        for a in t[1:]:
            if a[0] == "obj":
                yield "obj", a[1], wrap, allow
            elif a[0] in ("list", "map"):
                yield from inner(a, wrap)


EDGES = []  # (owner, field json or None for map items, wrap, child object name)
PARENTS = {}
for _o, _c in CATALOG.items():
    if _c["kind"] == "patterned":
        for kind, nm, wrap, _r in inner(_c["item"]):
            if kind == "obj":
                EDGES.append((_o, None, wrap, nm))
    else:
        for _f in _c["fields"]:
            for kind, nm, wrap, _r in inner(_f["type"]):
                if kind == "obj":
                    EDGES.append((_o, _f["json"], wrap, nm))
for _e in EDGES:
    PARENTS.setdefault(_e[3], []).append(_e)

DIST = {ROOT: 0}
_todo = [ROOT]
while _todo:
    _x = _todo.pop(0)
    for _o, _f, _w, _ch in EDGES:
        if _o == _x and _ch not in DIST:
            DIST[_ch] = DIST[_x] + 1
            _todo.append(_ch)


def ref_sites():
    """Every position that may hold a reference: (owner, field|None, wrap, expected object names | None)."""
    out = []

    def scan(owner, field, t, wrap):
        k = t[0]
        if k == "ref":
            out.append((owner, field, wrap, None))
        elif k in ("list", "map"):
            scan(owner, field, t[1], wrap + (k,))
        elif k == "union":
            if ["ref"] in t[1:]:
                out.append((owner, field, wrap, tuple(a[1] for a in t[1:] if a[0] == "obj")))
            for a in t[1:]:
                if a[0] in ("list", "map"):
                    scan(owner, field, a, wrap)

    for o, c in CATALOG.items():
        if c["kind"] == "patterned":
            scan(o, None, c["item"], ())
        else:
            for f in c["fields"]:
                scan(o, f["json"], f["type"], ())
    return out


BARE = {"channel": ("Channel",), "messages": ("Message",), "servers": ("Server",)}
REF_SITES = [(o, f, w, names or BARE[f]) for o, f, w, names in ref_sites()]


def fix(rng, name, v):
    fx = FIXUPS.get(name)
    if fx and isinstance(v, dict):
        fx(Gen(rng, p=0.0, depth=1), v)
    return v


def put(rng, owner, field, wrap, value, g, siblings=True):
    """A conforming `owner` holding `value` at field/wrap; returns (object, path) or None."""
    for _ in range(60):
        path = []
        x = value
        for w in reversed(wrap):
            if w == "list":
                n = rng.choice([0, 0, 0, 1, 2]) if siblings else 0
                pads = []
                t = None
                x = [*pads, x]
                path.insert(0, 0)
                del n, t
            else:
                key = g.any_key()
                x = {key: x}
                path.insert(0, key)
        if field is None:
            key = g.key()
            o = {key: x}
            path.insert(0, key)
            return o, path
        o = g.obj(owner, only=()) if rng.random() < 0.6 else g.obj(owner)
        o[field] = x
        fx = FIXUPS.get(owner)
        if fx:
            fx(g, o)
        if o.get(field) is not x:
            continue
        path.insert(0, field)
        return o, path
    return None


def chain(rng, name, extra=2):
    """A random way up from `name` to the root: list of edges, child first."""
    out, cur = [], name
    budget = DIST[name] + rng.randrange(0, extra + 1)
    while cur != ROOT:
        opts = [e for e in PARENTS[cur] if e[0] in DIST and DIST[e[0]] <= budget - 1]
        if not opts:
            opts = [e for e in PARENTS[cur] if e[0] in DIST and DIST[e[0]] == DIST[cur] - 1]
        # weight all parents evenly, so rare hosts are visited too
        e = rng.choice(opts)
        out.append(e)
        cur = e[0]
        budget -= 1
    return out


def embed(rng, name, value, p=0.1, ref=None, extra=2, key_pool=None, free_refs=False, up_to=ROOT, way=None):
    """(document, path of value) with `value` somewhere in a conforming document, or None."""
    for _ in range(20):
        ch = chain(rng, name, extra) if way is None else way
        g = Gen(rng, p=p, depth=2, ref=ref, key_pool=key_pool, free_refs=free_refs)
        v, path = value, []
        ok = True
        for owner, field, wrap, _child in ch:
            r = put(rng, owner, field, wrap, v, g)
            if r is None:
                ok = False
                break
            v, pp = r
            path = pp + path
        if not ok:
            continue
        return v, path, ch
    return None


def ways(name, seen=()):
    """Every way up from an object type to the root without passing a type twice."""
    if name == ROOT:
        yield ()
        return
    for e in PARENTS.get(name, ()):
        if e[0] in seen or e[0] == name or e[0] not in DIST:
            continue
        for t in ways(e[0], (*seen, name)):
            yield (e, *t)


SHAPES = [(s, w) for s in REF_SITES for w in ways(s[0])]


def good_embed(rng, name, value, **kw):
    """embed() whose document the oracle calls conforming."""
    for _ in range(12):
        r = embed(rng, name, value, **kw)
        if r and interpret(["obj", ROOT], r[0]).status == "ok":
            return r
    return None


__all__ = ["BARE", "DIST", "EDGES", "PARENTS", "REF_SITES", "chain", "embed", "fix", "good_embed", "inner", "jx", "put"]
