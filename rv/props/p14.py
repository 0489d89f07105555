"""P14: named maps behave as validated ordered dictionaries (history monitor against a plain dict)."""

from rv import gen, lib
from rv.embed import good_embed
from rv.spec import CATALOG, KEY_OK, deep_eq, first_diff, interpret, walk_live
from rv.util import PATTERNED, ROOT, T, build

RULE = ("a case is one live named map (bare or inside a document) driven through a random operation sequence next to a plain ordered dict; "
        "after every operation result, content, order, serialisation and equality are compared; distinct operation logs counted")

MISSING = object()


def value(case, c, jv):
    """A live argument for a JSON item value."""
    return build(case.rng, c["item"], jv) if case.rng.random() < 0.5 else gen.jx(jv)


def agree(case, name, m, model, log):
    what = lambda: f"{name} after {log[-8:]}"  # noqa: E731
    canon = interpret(T(name), model).canon
    case.check(len(m) == len(model), "length", what, log)
    case.check(bool(m) == bool(model), "truth-value", what, log)
    case.check(list(m) == list(model), "iteration-order", lambda: f"{what()}: {list(m)!r:.200} != {list(model)!r:.200}", log)
    out = lib.dump(m)
    case.check(deep_eq(out, canon) and list(out) == list(model), "dump-differs", lambda: f"{what()}: {first_diff(canon, out)}", log)
    given = m.model_dump(exclude_unset=True)
    case.check(list(given) == list(model) and "root" in m.model_fields_set, "dump-differs", lambda: f"{what()}: dumped without unset members: {list(given)[:20]!r:.200}", log)
    d = walk_live(T(name), canon, m)
    case.check(d is None, "contents-differ", lambda: f"{what()}: {d}", log)


def ops(case, name, m, model, n, log):
    r, c = case.rng, CATALOG[name]
    pool = list(dict.fromkeys([*model, *[r.choice(gen.HOSTILE_KEYS) for _ in range(4)], "a", "b", "x-1"]))
    g = gen.Gen(r, p=r.choice([0.1, 0.4]), depth=2)
    for _ in range(n):
        op = r.choice(["set", "set", "set", "del", "get", "get", "in", "badkey", "badval", "badval", "getmissing", "delmissing", "root", "iter", "edit"])
        k = r.choice(list(model)) if model and r.random() < 0.5 else r.choice(pool)
        held = {key: m[key] for key in m}
        if op == "set":
            jv = g.gen(c["item"])
            if interpret(c["item"], jv).status != "ok":
                continue
            st, e = lib.attempt(m.__setitem__, k, value(case, c, jv))
            case.check(st == "ok", "valid-item-refused", lambda: f"{name}[{k!r}] = {jv!r:.150}: {e!s:.200}", log)
            log.append(["set", k])
            model[k] = jv
        elif op == "del":
            had = k in model
            st, e = lib.attempt(m.__delitem__, k)
            case.check((st == "ok") == had and (had or isinstance(e, KeyError)), "deletion", lambda: f"del {name}[{k!r}] (present: {had}): {st} {e!r}", log)
            model.pop(k, None)
            log.append(["del", k, had])
            op += ":" + str(had)
        elif op in ("get", "getmissing"):
            if op == "getmissing":
                k = r.choice(["absent", "", "a b", "root", "__class__", None, 5, ("a",)])
            st, e = lib.attempt(m.__getitem__, k)
            if k in model:
                case.check(st == "ok", "lookup", lambda: f"{name}[{k!r}]: {e!r}", log)
                d = walk_live(c["item"], interpret(c["item"], model[k]).canon, e)
                case.check(d is None, "lookup", lambda: f"{name}[{k!r}]: {d}", log)
            else:
                case.check(st == "crash" and isinstance(e, KeyError), "missing-key", lambda: f"{name}[{k!r}] (absent): {st} {e!r}", log)
            op += ":" + str(k in model)
        elif op == "delmissing":
            k = r.choice(["absent", "", "a b", "root", None, 5])
            if k in model:
                continue
            st, e = lib.attempt(m.__delitem__, k)
            case.check(st == "crash" and isinstance(e, KeyError), "missing-key", lambda: f"del {name}[{k!r}] (absent): {st} {e!r}", log)
        elif op == "in":
            k = r.choice([k, k, k, k, k, k, "absent", "root", "keys", "", None, 5])
            case.check((k in m) is (k in model), "membership", lambda: f"{k!r} in {name}: {k in m}, expected {k in model}", log)
            op += ":" + str(k in model)
        elif op == "badkey":
            k = r.choice([*gen.BAD_KEYS, None, 5, ("a",), 1.5])
            jv = g.gen(c["item"])
            if isinstance(k, str) and KEY_OK.match(k):
                continue
            st, e = lib.attempt(m.__setitem__, k, value(case, c, jv))
            case.check(st == "invalid", "bad-key-decision", lambda: f"{name}[{k!r}] = ...: {st} {e!r:.200}", log)
            log.append(["badkey", repr(k)])
        elif op == "badval":
            k = r.choice([k, "fresh-" + str(r.randrange(99))])
            if r.random() < 0.5:
                jv = gen.jx(r.choice(gen.JUNK))
            else:
                jv, _ = gen.mutate(r, c["item"], g.gen(c["item"]))
            v = interpret(c["item"], jv)
            if v.status == "gray":
                continue
            st, e = lib.attempt(m.__setitem__, k, gen.jx(jv))
            case.check((st == "ok") == (v.status == "ok") and st != "crash", "bad-value-decision", lambda: f"{name}[{k!r}] = {jv!r:.200}: {st} {e!s:.200}; oracle {v.status} {v.why}", log)
            if st == "ok":
                model[k] = jv
            log.append(["badval", k, st])
            op += ":" + st
        elif op == "root":
            new = {key: model[key] for key in r.sample(list(model), r.choice([len(model), len(model), r.randrange(0, len(model) + 1)]))} if model else {}
            st, e = lib.attempt(setattr, m, "root", gen.jx(new))
            case.check(st == "ok", "contents-refused", lambda: f"{name}.root = {new!r:.150}: {e}", log)
            model.clear()
            model.update(new)
            log.append(["root", list(new)])
        elif op == "iter":
            seen = {key: m[key] for key in m}
            case.check(list(seen) == list(model), "iteration-order", lambda: f"{name}: {list(seen)}", log)
        elif op == "edit":  # change one item through its own assignment, visible in the map
            if k not in model or set(model[k]) == {"$ref"} or not isinstance(model[k], dict):
                continue
            live = m[k]
            o = lib.name_of(type(live))
            fs = [f for f in CATALOG[o].get("fields", ()) if f["json"] == "description"] if o else ()
            if not fs:
                continue
            s = "edited " + str(r.randrange(1000))
            st, e = lib.attempt(setattr, live, "description", s)
            case.check(st == "ok", "item-edit-refused", lambda: f"{name}[{k!r}].description: {e}", log)
            model[k] = {**model[k], "description": s}
            log.append(["edit", k])
        if op != "root":  # a dictionary keeps its other entries as they are, the very same objects
            moved = [key for key in model if key in held and m[key] is not held[key] and not (op in ("set", "badval:ok") and key == k)]
            case.check(not moved, "entry-replaced", lambda: f"{name} after {log[-4:]}: the untouched entries {moved!r:.100} are no longer the same objects", log)
            case.see("entries-held")
        case.see("op:" + op)
        case.state("op", name, op)
        agree(case, name, m, model, log)


def bare(case):
    name = PATTERNED[case.i % len(PATTERNED)]
    r = case.rng
    g = gen.Gen(r, p=0.2, depth=2)
    x = g.obj(name) if r.random() < 0.7 else {}
    if interpret(T(name), x).status != "ok":
        return
    cls = lib.cls(name)
    st, m = lib.attempt(cls, gen.jx(x)) if r.random() < 0.5 else lib.attempt(cls.model_validate, gen.jx(x))
    case.check(st == "ok", "rejects-conforming", lambda: f"{name}: {m}"[:500], x)
    model, log = dict(x), []
    ops(case, name, m, model, r.choice([6, 12, 30]), log)
    case.check(m == cls.model_validate(gen.jx(model)), "not-equal-to-fresh", name, log)
    case.distinct(name, list(x), log)
    case.sample([name, log])


def hosted(case):
    """The map lives inside a parsed document; edits show in the document and nowhere else in it."""
    name = PATTERNED[case.i % len(PATTERNED)]
    r = case.rng
    g = gen.Gen(r, p=0.2, depth=2)
    x = g.obj(name)
    if interpret(T(name), x).status != "ok":
        return
    e = good_embed(r, name, x)
    if e is None or any(isinstance(s, int) for s in e[1]):
        return
    doc, path, _ = e
    root = lib.AsyncAPI3.model_validate(gen.jx(doc))
    t, m = ["obj", ROOT], root
    for s in path:
        nm = type(m)
        if isinstance(m, dict):
            m = m[s]
            continue
        c = CATALOG.get(lib.name_of(nm))
        if c is None or c["kind"] == "patterned":
            m = m[s]
        else:
            m = getattr(m, c["by_json"][s]["py"])
    del t
    model, log = dict(x), []
    ops(case, name, m, model, r.choice([4, 10]), log)
    now = gen.set_at(gen.jx(doc), path, gen.jx(model))
    v = interpret(T(ROOT), now)
    if v.status == "ok":
        out = lib.dump(root)
        case.check(deep_eq(out, v.canon), "document-differs", lambda: f"document after {name} {log[-6:]}: {first_diff(v.canon, out)}", log)
        case.check(root == lib.AsyncAPI3.model_validate(gen.jx(now)), "not-equal-to-fresh", name, log)
        case.see("documents-compared")
    case.distinct(name, path, log)


def big(case):
    """Long maps and long histories."""
    name = PATTERNED[case.i % len(PATTERNED)]
    r = case.rng
    cls = lib.cls(name)
    n = r.choice([100, 300])
    ref = lambda i: {"$ref": f"#/x/{i}"}  # noqa: E731
    model = {f"k{i}": ref(i) for i in r.sample(range(10**6), n)}
    m = cls(gen.jx(model))
    for _ in range(200):
        k = r.choice(list(model)) if r.random() < 0.6 else f"n{r.randrange(10**6)}"
        if r.random() < 0.5:
            model[k] = ref(r.randrange(99))
            m[k] = gen.jx(model[k])
        elif k in model:
            del model[k], m[k]
        q = r.choice(list(model))
        case.check(m[q].ref == model[q]["$ref"], "lookup", lambda: f"{name}[{q!r}] in a long history", None)
        case.check((k in m) == (k in model) and len(m) == len(model), "membership", lambda: f"{k!r} in {name} in a long history", None)
        if r.random() < 0.1:
            case.check(list(m) == list(model), "iteration-order", lambda: f"{name} in a long history: {list(m)[:20]} != {list(model)[:20]}", None)
    agree(case, name, m, model, ["long history"])
    case.see("long")


STAGES = {"bare": (bare, len(PATTERNED) * 25, len(PATTERNED) * 1200), "hosted": (hosted, len(PATTERNED) * 12, len(PATTERNED) * 500), "big": (big, len(PATTERNED), len(PATTERNED) * 20)}
FLOORS = {"state:op": 250, "op:set": 1000, "op:badkey": 300, "op:badval:invalid": 400, "op:del:True": 250, "op:in:True": 100, "documents-compared": 100, "long": 15}
