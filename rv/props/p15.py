"""P15: placing a model object into another re-checks its current contents."""

import copy

from rv import gen, lib
from rv.embed import EDGES, put
from rv.gen import Gen
from rv.spec import CATALOG, deep_eq, first_diff, interpret
from rv.util import PATTERNED, ROOT, T, pick_alt, rand_instance

RULE = ("a case builds a live object whose current contents are invalid (through model_construct, in-place edits of lists, dictionaries, extras and "
        "__dict__, or a copy with replaced values) or still valid, and puts it into a parent through constructor, validation, assignment and map "
        "item assignment; (edge, corruption) pairs are recorded as states")


def hollow(t, v):
    """The live objects for a JSON value that need not conform, made without validation."""
    k = t[0]
    if k == "obj" and isinstance(v, dict):
        c = CATALOG[t[1]]
        cls = lib.cls(t[1])
        if c["kind"] == "patterned":
            m = cls.model_construct({})
            object.__setattr__(m, "__dict__", {"root": {key: hollow(c["item"], x) for key, x in v.items()}})
            return m
        m = cls.model_construct()
        d, extra, given = {}, {}, set()
        for f in c["fields"]:
            if f["json"] in v:
                d[f["py"]] = hollow(f["type"], v[f["json"]])
                given.add(f["py"])
            elif not f.get("req"):
                d[f["py"]] = copy.deepcopy(f.get("default"))
        if t[1] == ROOT:
            d["extra_validators"] = d["extra_converters"] = None
        for key, x in v.items():
            if key not in c["by_json"]:
                extra[key] = gen.jx(x)
        object.__setattr__(m, "__dict__", d)
        object.__setattr__(m, "__pydantic_fields_set__", given)
        if c["kind"] == "closed":
            d.update(extra)
        else:
            object.__setattr__(m, "__pydantic_extra__", extra)
        return m
    if k == "ref" and isinstance(v, dict) and set(v) == {"$ref"}:
        return lib.Reference.model_construct(ref=v["$ref"])
    if k == "list" and isinstance(v, list):
        return [hollow(t[1], x) for x in v]
    if k == "map" and isinstance(v, dict):
        return {key: hollow(t[1], x) for key, x in v.items()}
    if k == "union":
        if isinstance(v, (dict, list)):
            return hollow(pick_alt(t[1:], v), v)
    return gen.jx(v)


def parent_of(case, edge, child):
    """JSON parent with the child in place (and where), conforming apart from the child."""
    owner, field, wrap, name = edge
    r = case.rng
    for _ in range(10):
        g = Gen(r, p=0.15, depth=2, free_refs=True)
        good = child[0]
        res = put(r, owner, field, wrap, good, g, siblings=False)
        if res and interpret(T(owner), res[0]).status == "ok":
            return res
    return None


def swap_in(t, v, path, obj):
    """Live value of JSON `v` of type t with `obj` at `path` (plain dicts and lists elsewhere)."""
    if not path:
        return obj
    out = dict(v) if isinstance(v, dict) else list(v)
    out[path[0]] = swap_in(None, v[path[0]], path[1:], obj)
    return out


def place(case, edge, good_parent, path, live, tag, expect, what):
    """Put `live` into the parent every possible way; `expect` is 'ok' or 'bad'."""
    owner, field, wrap, name = edge
    r = case.rng
    cls = lib.cls(owner)
    pat = owner in PATTERNED
    top = path[0]
    fresh = lambda: copy.deepcopy(live)  # noqa: E731
    jp = good_parent

    def constructor():
        d = swap_in(None, gen.jx(jp), path, fresh())
        if pat:
            return cls(d)
        return cls(**d) if r.random() < 0.5 else cls(**{(CATALOG[owner]["by_json"][k]["py"] if k in CATALOG[owner]["by_json"] else k): x for k, x in d.items()})

    def assignment():
        m = cls.model_validate(gen.jx(jp))
        d = swap_in(None, gen.jx(jp), path, fresh())
        if pat:
            if r.random() < 0.5:
                m[top] = d[top]
            else:
                m.root = d
        else:
            setattr(m, CATALOG[owner]["by_json"][top]["py"], d[top])
        return m

    ways = {"construct": constructor, "validate": lambda: cls.model_validate(swap_in(None, gen.jx(jp), path, fresh())), "assign": assignment,
            "validate-hollow-parent": lambda: cls.model_validate(hollow_with(T(owner), gen.jx(jp), path, fresh())),
            "self": lambda: lib.cls(name).model_validate(fresh())}
    for how, fn in ways.items():
        st, e = lib.attempt(fn)
        w = lambda: f"{what} [{tag}] placed into {owner}.{field} by {how}: {st} {e!s:.300}"  # noqa: E731
        case.check(st != "crash", "wrong-exception", w, jp)
        if expect == "ok":
            case.check(st == "ok", "valid-part-refused", w, jp)
            if how != "self":
                canon, out = interpret(T(owner), jp).canon, lib.dump(e)
                case.check(deep_eq(canon, out), "part-altered", lambda: f"{w()}: {first_diff(canon, out)}", jp)
        else:
            case.check(st == "invalid", "invalid-part-accepted", w, jp)
        case.see(f"placed:{how}:{expect}")
    case.state("edges", owner, field, name, expect)


def hollow_with(t, v, path, obj):
    if not path:
        return obj
    k = t[0]
    if k == "union":
        return hollow_with(pick_alt(t[1:], v), v, path, obj)
    if k == "obj":
        c = CATALOG[t[1]]
        m = hollow(t, v)
        if c["kind"] == "patterned":
            m.__dict__["root"][path[0]] = hollow_with(c["item"], v[path[0]], path[1:], obj)
        else:
            f = c["by_json"][path[0]]
            m.__dict__[f["py"]] = hollow_with(f["type"], v[path[0]], path[1:], obj)
        return m
    if k == "list":
        out = hollow(t, v)
        out[path[0]] = hollow_with(t[1], v[path[0]], path[1:], obj)
        return out
    if k == "map":
        out = hollow(t, v)
        out[path[0]] = hollow_with(t[1], v[path[0]], path[1:], obj)
        return out
    return obj


def usable(t, v):
    """Values whose hollow form says the same thing as the JSON (null given for a default, by-name keys... do not)."""
    return interpret(t, v).status == "bad"


def constructed(case):
    edge = EDGES[case.i % len(EDGES)]
    owner, field, wrap, name = edge
    r = case.rng
    for _ in range(3):
        x, _ = rand_instance(case, name, ref=lambda s: "#/x/y")
        if x is None:
            continue
        res = parent_of(case, edge, (x,))
        if res is None:
            continue
        jp, path = res
        live = hollow(T(name), x)
        place(case, edge, jp, path, live, "valid", "ok", f"hollow {name}")
        for _ in range(3):
            y, how = gen.mutate(r, T(name), gen.jx(x))
            if interpret(T(name), y).status != "bad" or not isinstance(y, dict):
                continue
            bad_parent = swap_in(None, gen.jx(jp), path, y)
            # where a raw value may be read as another kind, the live object still is what it is
            if interpret(T(owner), bad_parent).status != "bad":
                case.see("other-reading")
            place(case, edge, jp, path, hollow(T(name), y), how, "bad", f"{name} made without validation")
            case.state("corruption", name, how)
            case.distinct(edge, how, y)
    case.sample([owner, field, name])


# ---------------------------------------------------------------- in-place edits of live containers
def live_objects(t, v, live, out, path=()):
    """(path, type, live container) for every list, dict and extra-bearing model below a live object."""
    k = t[0]
    if k == "union":
        live_objects(pick_alt(t[1:], v), v, live, out, path)
    elif k == "list":
        out.append((path, t, live))
        for i, x in enumerate(v):
            live_objects(t[1], x, live[i], out, (*path, i))
    elif k == "map":
        out.append((path, t, live))
        for key, x in v.items():
            live_objects(t[1], x, live[key], out, (*path, key))
    elif k == "obj":
        c = CATALOG[t[1]]
        out.append((path, t, live))
        if c["kind"] == "patterned":
            for key, x in v.items():
                live_objects(c["item"], x, live[key], out, (*path, key))
        else:
            for f in c["fields"]:
                if v.get(f["json"]) is not None:
                    live_objects(f["type"], v[f["json"]], getattr(live, f["py"]), out, (*path, f["json"]))


def edited(case):
    edge = EDGES[case.i % len(EDGES)]
    owner, field, wrap, name = edge
    r = case.rng
    x, _ = rand_instance(case, name, "max" if r.random() < 0.5 else None, ref=lambda s: "#/x/y")
    if x is None:
        return
    res = parent_of(case, edge, (x,))
    if res is None:
        return
    jp, path = res
    for _ in range(4):
        live = lib.cls(name).model_validate(gen.jx(x))
        spots = []
        live_objects(T(name), x, live, spots)
        p, t, c = r.choice(spots)
        y = gen.jx(x)
        k = t[0]
        if k == "list":
            junk = r.choice([None, 5, "junk", [], {"a b": 1}, {"$ref": 5}, {"$ref": "#/a", "x": 1}, object])
            jv = "<object>" if junk is object else junk
            if junk is object:
                junk, jv = object(), ["not", "json"]
            if c and r.random() < 0.5:
                i = r.randrange(len(c))
                c[i] = junk
                gen.get_at(y, p)[i] = jv
            else:
                c.append(junk)
                gen.get_at(y, p).append(jv)
            how = "list item"
        elif k == "map":
            c["new key"] = r.choice([None, 5, [], {"$ref": 5}])
            gen.get_at(y, p)["new key"] = gen.jx(c["new key"])
            how = "map item"
        else:
            cc = CATALOG[t[1]]
            how = None
            if cc["kind"] == "patterned":
                if r.random() < 0.5:
                    c.root["bad key"] = lib.Reference(ref="#/x")
                    gen.get_at(y, p)["bad key"] = {"$ref": "#/x"}
                    how = "map key"
                else:
                    c.root["k"] = r.choice([None, 7, {"$ref": 5}, "s"])
                    gen.get_at(y, p)["k"] = gen.jx(c.root["k"])
                    how = "map value"
            elif cc["kind"] == "ext" and r.random() < 0.4:
                key = r.choice(["not-an-extension", "X-a", "x-", "x-a b", "x-a\n"])
                c.model_extra[key] = 1
                gen.get_at(y, p)[key] = 1
                how = "extra"
            elif cc["fields"]:
                f = r.choice(cc["fields"])
                junk = r.choice([5, "junk", [], {"a b": 1}, [None], {"$ref": 5}, -10**9, "", "a" * 3000])
                c.__dict__[f["py"]] = gen.jx(junk)
                gen.get_at(y, p)[f["json"]] = junk
                how = "attribute"
            if how is None:
                continue
        vy = interpret(T(name), y)
        bad_parent = swap_in(None, gen.jx(jp), path, y)
        vp = interpret(T(owner), bad_parent)
        if vy.status == "bad":
            if vp.status != "bad":
                case.see("other-reading")
            place(case, edge, jp, path, live, how, "bad", f"{name} edited in place at {'.'.join(map(str, p))}")
            case.state("edit", name, how)
            case.see("edit:" + how)
        elif vy.status == "ok" and vp.status == "ok":
            place(case, edge, swap_in(None, gen.jx(jp), path, y), path, live, how + " (still valid)", "ok", f"{name} edited in place")
        case.distinct("edit", edge, p, how, y)


def again(case):
    """A part edited in place where it stands is checked when it is stored there once more, or from there elsewhere."""
    edge = EDGES[case.i % len(EDGES)]
    owner, field, wrap, name = edge
    r = case.rng
    x, _ = rand_instance(case, name, "max" if r.random() < 0.5 else None, ref=lambda s: "#/x/y")
    if x is None:
        return
    res = parent_of(case, edge, (x,))
    if res is None:
        return
    jp, path = res
    for _ in range(4):
        live = lib.cls(owner).model_validate(gen.jx(jp))
        oc = CATALOG[owner]
        if oc["kind"] == "patterned":
            top, get, store = path[0], lambda m: m[path[0]], lambda m, o: m.__setitem__(path[0], o)
            t = oc["item"]
        else:
            f = next(f for f in oc["fields"] if f["json"] == path[0])
            top, get, store = f["json"], lambda m: getattr(m, f["py"]), lambda m, o: setattr(m, f["py"], o)
            t = f["type"]
        # one harmless pass first: storing the same object again changes nothing
        st, e = lib.attempt(store, live, get(live))
        case.check(st == "ok", "rejected-valid", lambda: f"{owner}[{top}] stored again: {st} {e!s:.200}", jp)
        spots = [s for s in live_spots(t, jp[top], get(live)) if s[1][0] == "obj" and CATALOG[s[1][1]]["kind"] != "patterned" and CATALOG[s[1][1]]["fields"]]
        if not spots:
            return
        p, t2, c = r.choice(spots)
        f2 = r.choice(CATALOG[t2[1]]["fields"])
        junk = r.choice([5, "junk", [], {"a b": 1}, [None], {"$ref": 5}, -10**9, "", 0.5, {}, [[]], True])
        y = gen.jx(jp)
        gen.get_at(y[top], p)[f2["json"]] = gen.jx(junk)
        if interpret(T(owner), y).status != "bad":
            continue
        c.__dict__[f2["py"]] = gen.jx(junk)
        c.__pydantic_fields_set__.add(f2["py"])
        st, e = lib.attempt(store, live, get(live))
        case.check(st == "invalid", "accepted-invalid-part", lambda: f"{owner}[{top}]: {t2[1]}.{f2['py']} = {junk!r} by an in-place edit, then stored again: {st} {e!s:.200}", jp)
        other = lib.cls(owner).model_validate(gen.jx(jp))
        st, e = lib.attempt(store, other, get(live))
        case.check(st == "invalid", "accepted-invalid-part", lambda: f"{owner}[{top}]: {t2[1]}.{f2['py']} = {junk!r} by an in-place edit, then stored in another: {st} {e!s:.200}", jp)
        case.see("again")
        case.distinct("again", edge, p, f2["json"])


def live_spots(t, v, live):
    out = []
    live_objects(t, v, live, out)
    return out


def fields(case):
    """Every attribute of every kind of part, one at a time, through every kind of edge."""
    edge = EDGES[case.i % len(EDGES)]
    owner, field, wrap, name = edge
    r = case.rng
    c = CATALOG[name]
    if c["kind"] == "patterned":
        return
    x, _ = rand_instance(case, name, r.choice([None, "max", "min"]), ref=lambda s: "#/x/y")
    if x is None:
        return
    res = parent_of(case, edge, (x,))
    if res is None:
        return
    jp, path = res
    for f in c["fields"]:
        junk = r.choice([5, "junk", [], {"a b": 1}, [None], {"$ref": 5}, -10**9, "", 0.5, {}, [[]], True])
        y = {**gen.jx(x), f["json"]: gen.jx(junk)}
        if interpret(T(name), y).status != "bad":
            continue
        live = lib.cls(name).model_validate(gen.jx(x))
        if r.random() < 0.5:
            live.__dict__[f["py"]] = gen.jx(junk)
            live.__pydantic_fields_set__.add(f["py"])
        else:
            live = live.model_copy(update={f["py"]: gen.jx(junk)})
        place(case, edge, jp, path, live, f["py"], "bad", f"{name} with {f['py']} = {junk!r}")
        case.state("fields", name, f["py"])
    case.distinct("fields", edge, x)


def documents(case):
    """Corruption deep inside a built document: re-validating or re-assigning any ancestor finds it."""
    from rv.util import rand_doc

    r = case.rng
    d, _ = rand_doc(case)
    if d is None:
        return
    y, how = gen.mutate(r, T(ROOT), gen.jx(d))
    if interpret(T(ROOT), y).status != "bad" or not isinstance(y, dict):
        return
    live = hollow(T(ROOT), y)
    st, e = lib.attempt(lib.AsyncAPI3.model_validate, live)
    case.check(st == "invalid", "invalid-part-accepted", lambda: f"document made without validation ({how}) re-validated: {st} {e!s:.300}; oracle: {interpret(T(ROOT), y).why}", y)
    m = lib.AsyncAPI3.model_validate(gen.jx(d))
    changed = [k for k in CATALOG[ROOT]["by_json"] if y.get(k) != d.get(k) and k in y]
    for k in changed:
        py = CATALOG[ROOT]["by_json"][k]["py"]
        st, e = lib.attempt(setattr, m, py, live.__dict__[py])
        case.check(st == "invalid", "invalid-part-accepted", lambda: f"document.{py} assigned a corrupted object ({how}): {st} {e!s:.300}", y)
        case.see("document-section")
    case.see("documents")
    good = hollow(T(ROOT), d)
    st, e = lib.attempt(lib.AsyncAPI3.model_validate, good)
    case.check(st == "ok", "valid-part-refused", lambda: f"hollow conforming document: {e!s:.300}", d)
    case.distinct("doc", y)


FACTOR = 3
STAGES = {"constructed": (constructed, len(EDGES) * 4, len(EDGES) * 80), "edited": (edited, len(EDGES) * 6, len(EDGES) * 120), "fields": (fields, len(EDGES) * 3, len(EDGES) * 60), "again": (again, len(EDGES) * 3, len(EDGES) * 60), "documents": (documents, 500, 8000)}
FLOORS = {"state:edges": 380, "state:corruption": 400, "state:edit": 130, "edit:extra": 120, "edit:map key": 25, "edit:list item": 60, "documents": 250, "again": 800, "state:fields": 250, "other-reading": 20, "placed:assign:bad": 2500,
          "placed:assign:ok": 800}
