"""P13: attribute assignment is all or nothing (history monitor)."""

from rv import gen, lib
from rv.hist import History, random_value, snapshot
from rv.refs import broken_doc, consistent_doc
from rv.spec import CATALOG, RULES, deep_eq, first_diff, interpret
from rv.util import JUNK, NAMES, PATTERNED, ROOT, T, rand_doc, rand_instance

RULE = ("a case is one live object driven through a random sequence of valid and invalid assignments (fields, extensions, map roots, "
        "document sections with validators attached); after every step the object is compared with a fresh build or with its own snapshot")

OBJ = [n for n in NAMES if CATALOG[n].get("fields")]
RULED = [n for n in sorted(RULES) if n != ROOT]


def histories(case):
    name = OBJ[case.i % len(OBJ)] if case.i % 3 else RULED[case.i // 3 % len(RULED)]
    r = case.rng
    start, _ = rand_instance(case, name)
    goal, _ = rand_instance(case, name, "max")
    if start is None or goal is None:
        return
    h = History(case, name, start)
    fs = CATALOG[name]["fields"]
    for _ in range(r.choice([3, 8, 8, 20])):
        if r.random() < 0.12 and CATALOG[name]["kind"] != "patterned":
            k = r.choice(["x-a", "x-b", "x-a", "bad", "x-", "x-a\n", "unknown", "x-a b"])
            st = h.ext(k, r.choice([None, 1, {"a": []}, "v"]))
        else:
            f = r.choice(fs)
            st = h.step(f, random_value(case, f, goal, cur=h.cur))
        if st:
            case.see("step:" + st)
            case.state("steps", name, h.log[-1][0], st)
    case.distinct(name, h.log)
    case.sample([name, h.log])


def roots(case):
    """Assigning the whole contents of a named map."""
    name = PATTERNED[case.i % len(PATTERNED)]
    r = case.rng
    a, _ = rand_instance(case, name)
    if a is None:
        return
    m = lib.cls(name).model_validate(gen.jx(a))
    cur = a
    log = []
    for _ in range(6):
        b, _ = rand_instance(case, name)
        if b is None:
            continue
        if r.random() < 0.5:
            b, how = gen.mutate(r, T(name), b)
        v = interpret(T(name), b)
        if v.status == "gray":
            continue
        before = snapshot(m)
        st, e = lib.attempt(setattr, m, "root", gen.jx(b))
        log.append([b, st])
        case.check((st == "ok") == (v.status == "ok") and st != "crash", "assignment-decision", lambda: f"{name}.root = {b!r:.200}: {st} {e!s:.300}; oracle {v.status} {v.why}", log)
        if st == "ok":
            cur = b
            case.check(deep_eq(lib.dump(m), v.canon), "dump-after-assignment", lambda: f"{name}: {first_diff(v.canon, lib.dump(m))}", log)
            case.check(m == lib.cls(name).model_validate(gen.jx(cur)), "not-equal-to-fresh", name, log)
        else:
            case.check(deep_eq(lib.dump(m), before[0]) and list(lib.dump(m)) == list(before[0]), "rejected-but-changed", lambda: f"{name}: {first_diff(before[0], lib.dump(m))}", log)
            case.check(m == before[2] and set(m.model_fields_set) == before[1], "rejected-but-unequal", name, log)
        case.see("root:" + st)
    case.distinct(name, log)


SECTIONS = ["servers", "channels", "operations", "components", "info", "defaultContentType", "id", "asyncapi"]


def documents(case):
    """Root documents, with or without reference validators, sections swapped for good and bad ones."""
    r = case.rng
    d = consistent_doc(case)
    if d is None:
        return
    val = r.choice([[lib.UnifiedReferencesValidator], [lib.UnifiedReferencesValidator], [lib.UnifiedReferencesValidator, lib.TagsRefValidator], None])
    val = None if val is None else [v for v in val if v is not lib.TagsRefValidator]
    st, m = lib.attempt(lib.AsyncAPI3.model_validate, {**gen.jx(d), "extra_validators": val})
    case.check(st == "ok", "rejects-conforming", lambda: f"consistent document: {m!s:.400}", d)
    m_id = id(m)
    log = []
    for _ in range(r.choice([3, 6, 10])):
        sec = r.choice(SECTIONS)
        x = r.random()
        other = consistent_doc(case) if x < 0.3 else (broken_doc(case, d) or (d, None))[0] if x < 0.65 else rand_doc(case)[0]
        if other is None:
            continue
        if x > 0.85:
            other, _ = gen.mutate(r, T(ROOT), other)
        if not isinstance(other, dict):
            continue
        if sec not in other:
            if sec in ("info", "asyncapi"):
                continue
            val_new, nxt = None, {k: v for k, v in d.items() if k != sec}
        else:
            val_new = gen.jx(other[sec])
            nxt = {**d, sec: val_new}
        v = interpret(T(ROOT), nxt)
        if v.status == "gray":
            continue
        # decision oracle: a fresh parse of the resulting document under the same validators
        fst, fresh = lib.attempt(lib.AsyncAPI3.model_validate, {**gen.jx(nxt), "extra_validators": val})
        case.check(v.status == "ok" or fst == "invalid", "accepts-nonconforming", lambda: v.why, nxt)
        before = snapshot(m)
        py = CATALOG[ROOT]["by_json"][sec]["py"]
        live = gen.jx(val_new)
        if v.status == "ok" and val_new is not None and r.random() < 0.4:
            live = getattr(lib.AsyncAPI3.model_validate(gen.jx(nxt)), py)
        ast, e = lib.attempt(setattr, m, py, live)
        log.append([sec, ast])
        what = lambda: f"document.{py} = ... after {log}: {ast} {e!s:.300}; fresh parse: {fst} {fresh!s:.300}"  # noqa: E731
        case.check(ast != "crash", "wrong-exception", what, [d, nxt])
        case.check(ast == fst, "assignment-decision", what, [d, nxt])
        if ast == "ok":
            d = nxt
            case.check(m == fresh and fresh == m, "not-equal-to-fresh", what, nxt)
            case.check(deep_eq(lib.dump(m), v.canon), "dump-after-assignment", lambda: f"{what()}: {first_diff(v.canon, lib.dump(m))}", nxt)
        else:
            case.check(deep_eq(lib.dump(m), before[0]), "rejected-but-changed", lambda: f"{what()}: {first_diff(before[0], lib.dump(m))}", [d, nxt])
            case.check(m == before[2] and set(m.model_fields_set) == before[1], "rejected-but-unequal", what, [d, nxt])
            case.check(m.extra_validators == before[2].extra_validators, "rejected-but-changed", what, [d, nxt])
            if v.status == "ok":
                case.see("document:rejected-by-validators")
        case.see("document:" + ast)
    case.check(id(m) == m_id, "identity", "object replaced")
    case.distinct("doc", d, log)


HELD = [(n, f) for n in OBJ for f in CATALOG[n]["fields"] if any(t[0] in ("list", "map") for t in [f["type"], *(a for a in f["type"][1:] if isinstance(a, list))])]


def inplace(case):
    """A list or dictionary edited in place and then assigned again, the very same object: judged by what it holds now."""
    r = case.rng
    name, f = HELD[case.i % len(HELD)]
    j, py = f["json"], f["py"]
    start, _ = rand_instance(case, name, "max")
    if start is None:
        return
    g = gen.Gen(r, p=0.3, depth=2)
    for _ in range(4):
        start = {**start, j: g.gen(f["type"])} if r.random() < 0.7 else start
        if not isinstance(start.get(j), (list, dict)) or interpret(T(name), start).status != "ok":
            continue
        m = lib.cls(name).model_validate(gen.jx(start))
        live = getattr(m, py)
        if type(live) not in (list, dict):
            continue
        kind = "list" if isinstance(live, list) else "map"
        inner = next((t[1] for t in [f["type"], *(a for a in f["type"][1:] if isinstance(a, list))] if t[0] == kind), ["any"])
        new = gen.jx(start[j])
        x = g.gen(inner) if r.random() < 0.35 else gen.jx(r.choice(JUNK)) if r.random() < 0.6 else gen.bad_scalar(r, inner, g.gen(inner))
        if kind == "list":
            y = r.random()
            if y < 0.5 or not new:
                live.append(gen.jx(x)), new.append(x)
            elif y < 0.8:
                i = r.randrange(len(new))
                live[i], new[i] = gen.jx(x), x
            else:
                del live[0], new[0]
        else:
            k = r.choice(["a", "new-key", *new])
            live[k], new[k] = gen.jx(x), x
        nxt = {**start, j: new}
        v = interpret(T(name), nxt)
        if v.status == "gray":
            continue
        fields = set(m.model_fields_set)
        others = {k: y for k, y in m.__dict__.items() if k != py}
        copy_too = r.random() < 0.3
        st, e = lib.attempt(setattr, m, py, (live.copy() if copy_too else live))
        what = lambda: f"{name}.{py} edited in place to {new!r:.150} and assigned again: {st} {e!s:.300}; oracle {v.status} {v.why}"  # noqa: B023, E731
        case.check(st != "crash", "wrong-exception", what, nxt)
        case.check((st == "ok") == (v.status == "ok"), "assignment-decision", what, nxt)
        case.check(all(m.__dict__[k] is y for k, y in others.items()) or st == "ok", "rejected-but-changed", what, nxt)
        case.check(set(m.model_fields_set) == fields | ({py} if st == "ok" else set()), "fields-set", what, nxt)
        if st == "ok":
            case.check(deep_eq(lib.dump(m), v.canon), "dump-after-assignment", lambda: f"{what()}: {first_diff(v.canon, lib.dump(m))}", nxt)  # noqa: B023
            case.check(m == lib.cls(name).model_validate(gen.jx(nxt)), "not-equal-to-fresh", what, nxt)
        case.see("inplace:" + st)
        case.state("inplace", name, j)
        case.distinct("inplace", name, j, new)


FACTOR = 3
STAGES = {"inplace": (inplace, len(HELD) * 2, len(HELD) * 100), "histories": (histories, 900, 40000), "roots": (roots, len(PATTERNED) * 12, len(PATTERNED) * 300), "documents": (documents, 220, 8000)}
FLOORS = {"inplace:ok": 100, "inplace:invalid": 100, "state:inplace": 40, "step:ok": 1500, "step:bad": 1000, "state:steps": 500, "root:ok": 300, "root:invalid": 120, "document:ok": 200, "document:invalid": 140,
          "document:rejected-by-validators": 50, "rejected-extension": 60, "equal-value": 400}
