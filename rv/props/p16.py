"""P16: models share no state with each other or with their input (aliasing and mutation monitor)."""

import copy
import json
import pickle

import yaml
from pydantic import BaseModel

from rv import gen, lib
from rv.hist import random_value
from rv.spec import CATALOG, deep_eq, first_diff, interpret
from rv.util import NAMES, PATTERNED, ROOT, T, build, falsy_values, in_doc, rand_doc, rand_instance

RULE = ("a case builds two models (separate equal inputs, one shared input, one as a copy of the other), checks that no mutable object is "
        "reachable from both, then edits one of them in every container and checks the other, its input and later models for any change")


def reach(x, out=None, path="$"):
    """Every mutable object reachable from a value: id -> (path, object)."""
    if out is None:
        out = {}
    if id(x) in out or isinstance(x, type):
        return out
    if isinstance(x, BaseModel):
        out[id(x)] = (path, x)
        out[id(x.__dict__)] = (path + ".__dict__", x.__dict__)
        for k, v in x.__dict__.items():
            reach(v, out, f"{path}.{k}")
        if x.__pydantic_extra__ is not None:
            out[id(x.__pydantic_extra__)] = (path + ".__pydantic_extra__", x.__pydantic_extra__)
            for k, v in x.__pydantic_extra__.items():
                reach(v, out, f"{path}.{k}")
        out[id(x.__pydantic_fields_set__)] = (path + ".__fields_set__", x.__pydantic_fields_set__)
    elif isinstance(x, dict):
        out[id(x)] = (path, x)
        for k, v in x.items():
            reach(v, out, f"{path}[{k!r}]")
    elif isinstance(x, (list, tuple, set, bytearray)):
        if not isinstance(x, tuple):
            out[id(x)] = (path, x)
        for i, v in enumerate(x):
            reach(v, out, f"{path}[{i}]")
    return out


def disjoint(case, a, b, what, data):
    ra, rb = reach(a), reach(b)
    both = [ra[i][0] for i in ra if i in rb]
    case.check(not both, "shared-state", lambda: f"{what} share {both[:5]}", data)
    case.see("reach:compared")
    case.counts["reach:objects"] += len(ra)


def vandalise(r, m):
    """Edit every container reachable from a live object, bypassing validation."""
    n = 0
    for _p, x in list(reach(m).values()):
        if isinstance(x, BaseModel):
            continue
        n += 1
        if isinstance(x, list):
            if x and r.random() < 0.5:
                del x[r.randrange(len(x))]
            x.append("vandal")
        elif isinstance(x, set):
            x.add("vandal")
        elif isinstance(x, dict):
            if x and r.random() < 0.5:
                x[r.choice(list(x))] = "vandal"
            else:
                x["vandal"] = ["vandal"]
    return n


def polite(case, name, m, steps=6):
    """Assignments and map operations through the public interface; (may be refused)."""
    r = case.rng
    goal, _ = rand_instance(case, name, "max")
    n = 0
    for _ in range(steps):
        if name in PATTERNED:
            g = gen.Gen(r, p=0.2, depth=2)
            st, _e = lib.attempt(m.__setitem__, g.key(), g.gen(CATALOG[name]["item"]))
            if len(m) and r.random() < 0.4:
                del m[r.choice(list(m))]
        elif CATALOG[name]["fields"]:
            f = r.choice(CATALOG[name]["fields"])
            st, _e = lib.attempt(setattr, m, f["py"], random_value(case, f, goal or {}, 0.1))
        else:
            st, _e = lib.attempt(setattr, m, "x-edit", 1)
        n += st == "ok"
    # descend into children too
    for _p, x in list(reach(m).values()):
        if isinstance(x, BaseModel) and x is not m and r.random() < 0.4:
            c = next((k for k in NAMES if lib.cls(k) is type(x)), None)
            if c in PATTERNED:
                if len(x):
                    del x[next(iter(x))]
                    n += 1
                lib.attempt(x.__setitem__, "polite", {"$ref": "#/polite"})
            elif c and CATALOG[c]["fields"]:
                f = r.choice(CATALOG[c]["fields"])
                st, _e = lib.attempt(setattr, x, f["py"], None if r.random() < 0.4 else gen.Gen(r, p=0.2, depth=1).gen(f["type"]))
                n += st == "ok"
            elif c is None and type(x) is lib.Reference:
                x.ref = "#/polite/edit"
                n += 1
    return n


def state(m):
    return lib.dump(m), set(m.model_fields_set), m


def intact(case, m, before, ref, what, data):
    out = lib.dump(m)
    case.check(deep_eq(out, before), "influenced", lambda: f"{what}: {first_diff(before, out)}", data)
    case.check(m == ref and ref == m, "influenced", what, data)


def subject(case):
    r = case.rng
    if case.i % 4 == 0:
        d, _ = rand_doc(case, nulls=r.random() < 0.5)
        return ROOT, d
    name = NAMES[(case.i // 4 * 3 + case.i % 4 - 1) % len(NAMES)]
    x, _ = rand_instance(case, name, r.choice(["min", "max", "random"]), nulls=r.random() < 0.5)
    return name, x


def same_json(a, b):
    return deep_eq(a, b) and json.dumps(a) == json.dumps(b)


def separate(case):
    name, x = subject(case)
    if x is None:
        return
    r = case.rng
    cls = lib.cls(name)
    ia, ib = gen.jx(x), gen.jx(x)
    how = r.choice(["validate", "json", "construct", "assembled", "text", *(["yaml", "yaml"] if name == ROOT else [])])
    text = json.dumps(x)
    data = r.choice([text, text.encode()])
    if how == "yaml":  # one text object given twice
        text = yaml.safe_dump(x, sort_keys=False, allow_unicode=r.random() < 0.5)
        if not same_json(yaml.safe_load(text), x):
            return
        data = r.choice([text, text.encode()])
    mk = {"validate": lambda i: cls.model_validate(i), "json": lambda i: cls.model_validate_json(json.dumps(i)),
          "text": lambda i: cls.model_validate_json(data), "yaml": lambda i: cls.model_validate_yaml(data),
          "construct": lambda i: cls(i) if name in PATTERNED or "self" in i else cls(**i), "assembled": lambda i: build(r, T(name), i)}[how]
    if how == "construct" and name not in PATTERNED and "self" in x:
        mk = lambda i: cls.model_validate(i)  # noqa: E731
    a, b = mk(ia), mk(ib)
    case.check(same_json(ia, x) and same_json(ib, x), "input-modified", lambda: f"{name} by {how}: {first_diff(x, ia)}", x)
    disjoint(case, a, b, f"two separately built {name} ({how})", x)
    if how in ("json", "text", "yaml"):
        disjoint(case, a, ia, f"{name} and its input", x)
    before, ref = lib.dump(b), cls.model_validate(gen.jx(x))
    n = polite(case, name, a)
    intact(case, b, before, ref, f"{name}: assignments on another model ({how})", x)
    n += vandalise(r, a)
    intact(case, b, before, ref, f"{name}: in-place edits of another model ({how})", x)
    case.check(same_json(ib, x), "input-modified", lambda: f"{name}: other input changed", x)
    c = mk(gen.jx(x))
    intact(case, c, before, ref, f"{name}: model built after another was edited ({how})", x)
    case.counts["edits"] += n
    case.see("separate:" + how)
    case.state("objects", name, how)
    case.distinct(name, how, x)
    case.sample([name, how, n])


def shared(case):
    """The very same input object used twice."""
    name, x = subject(case)
    if x is None:
        return
    r = case.rng
    cls = lib.cls(name)
    inp = gen.jx(x)
    a, b = cls.model_validate(inp), cls.model_validate(inp)
    case.check(same_json(inp, x), "input-modified", lambda: f"{name}: {first_diff(x, inp)}", x)
    before, ref = lib.dump(b), cls.model_validate(gen.jx(x))
    polite(case, name, a)
    intact(case, b, before, ref, f"{name}: assignments on a model built from the same input", x)
    case.check(same_json(inp, x), "input-modified", lambda: f"{name}: input changed by assignments to the model: {first_diff(x, inp)}", x)
    # live objects as input
    part = build(r, T(name), gen.jx(x))
    before = lib.dump(part)
    fs = set(part.model_fields_set)
    hosts = [cls.model_validate(part) for _ in range(2)]
    case.check(deep_eq(lib.dump(part), before) and set(part.model_fields_set) == fs and part == ref, "input-modified", f"{name}: live input changed by validation", x)
    polite(case, name, hosts[0])
    intact(case, hosts[1], before, ref, f"{name}: assignments on a model built from the same live object", x)
    intact(case, part, before, ref, f"{name}: live input of an edited model", x)
    case.see("shared")
    case.state("shared", name)
    case.distinct("shared", name, x)


def hosted(case):
    """Live parts placed into two documents."""
    r = case.rng
    d, _ = rand_doc(case)
    if d is None:
        return
    parts = {}
    for f in CATALOG[ROOT]["fields"]:
        if f["json"] in d:
            parts[f["py"]] = build(r, f["type"], gen.jx(d[f["json"]]))
    for k in d:
        if k not in CATALOG[ROOT]["by_json"]:
            parts[k] = gen.jx(d[k])
    befores = {k: lib.dump(v) for k, v in parts.items() if isinstance(v, BaseModel)}
    a, b = lib.AsyncAPI3(**parts), lib.AsyncAPI3(**parts)
    ref = lib.AsyncAPI3.model_validate(gen.jx(d))
    before = lib.dump(b)
    polite(case, ROOT, a)
    intact(case, b, before, ref, "document built from the same parts", d)
    for k, dd in befores.items():
        case.check(deep_eq(lib.dump(parts[k]), dd), "input-modified", lambda: f"part {k}: {first_diff(dd, lib.dump(parts[k]))}", d)
    case.see("hosted")
    case.distinct("hosted", d)


def copies(case):
    name, x = subject(case)
    if x is None:
        return
    r = case.rng
    cls = lib.cls(name)
    inp = gen.jx(x)
    if name == ROOT and r.random() < 0.5:
        inp["extra_converters"] = r.choice([[lib.Noop], []])
        inp["extra_validators"] = r.choice([[lib.Noop], None])
    a = cls.model_validate(inp)
    before, ref = lib.dump(a), cls.model_validate({**gen.jx(x), **{k: inp[k] for k in inp if k not in x}} if isinstance(inp, dict) else gen.jx(x))
    how = r.choice(["deepcopy", "pickle", "model_copy"])
    protos = range(2, pickle.HIGHEST_PROTOCOL + 1)
    b = {"deepcopy": lambda: copy.deepcopy(a), "pickle": lambda: pickle.loads(pickle.dumps(a, r.choice(protos))), "model_copy": lambda: a.model_copy(deep=True)}[how]()
    case.check(type(b) is type(a) and b == a and a == b and deep_eq(lib.dump(b), before) and list(lib.dump(b)) == list(before), "copy-differs",
               lambda: f"{how} of {name}: {first_diff(before, lib.dump(b))}", x)
    case.check(b.model_fields_set == a.model_fields_set, "copy-differs", f"{how} of {name}: fields set", x)
    if name == ROOT:
        case.check(b.extra_validators == a.extra_validators and b.extra_converters == a.extra_converters, "copy-differs", f"{how}: processors", x)
    disjoint(case, a, b, f"{name} and its {how}", x)
    first, second = (a, b) if r.random() < 0.5 else (b, a)
    polite(case, name, first)
    intact(case, second, before, ref, f"{name}: assignments on its {how}", x)
    vandalise(r, first)
    intact(case, second, before, ref, f"{name}: in-place edits of its {how}", x)
    # the copy is fully functional: it still validates
    n = polite(case, name, second, 3)
    case.counts["edits"] += n
    case.see("copies:" + how)
    case.state("copies", name, how)
    case.distinct(how, name, x)


def defaults(case):
    """Minimal instances: whatever is absent must come from a fresh default."""
    name = NAMES[case.i % len(NAMES)]
    r = case.rng
    x, canon = rand_instance(case, name, "min")
    if x is None:
        return
    cls = lib.cls(name)
    a = cls.model_validate(gen.jx(x))
    before, ref = lib.dump(a), cls.model_validate(gen.jx(x))
    vandalise(r, a)
    for mk in (lambda: cls.model_validate(gen.jx(x)), lambda: cls.model_validate_json(json.dumps(x)), lambda: build(r, T(name), gen.jx(x))):
        c = mk()
        case.check(deep_eq(lib.dump(c), canon), "default-polluted", lambda: f"{name}: {first_diff(canon, lib.dump(c))}", x)
        intact(case, c, before, ref, f"{name}: defaults after another instance was edited", x)
        disjoint(case, a, c, f"minimal {name} instances", x)
    case.state("defaults", name)
    case.distinct("defaults", name, x)


def inputs(case):
    """Whatever the input says (explicit nulls, empty members, faults), reading it leaves it alone."""
    name = NAMES[case.i % len(NAMES)]
    r = case.rng
    x, _ = rand_instance(case, name, r.choice(["min", "random", "max"]), nulls=True)
    if x is None:
        return
    c = CATALOG[name]
    variants = [x]
    for f in c["fields"] if c["kind"] != "patterned" else []:
        if f.get("null"):
            variants.append({**{k: y for k, y in x.items() if r.random() < 0.7 or k == f["json"]}, f["json"]: None})
        vs = falsy_values(f["type"])
        if vs:
            variants.append({**x, f["json"]: gen.jx(r.choice(vs))})
    variants.append(gen.mutate(r, T(name), gen.jx(x))[0])
    variants.append(dict(reversed(list(x.items()))))
    cls = lib.cls(name)
    for y in variants:
        if not isinstance(y, dict):
            continue
        given = gen.jx(y)
        ids = reach(given)
        text, order = json.dumps(given), list(given)
        for how, fn in (("validate", cls.model_validate), ("construct", (lambda i: cls(i)) if name in PATTERNED else (lambda i: cls(**i) if "self" not in i else cls.model_validate(i))),
                        ("inside", lambda i: lib.AsyncAPI3.model_validate({"info": {"title": "t", "version": "1", "x-data": i}, "x-more": [i]}))):
            st, m = lib.attempt(fn, given)
            case.check(same_json(given, y) and list(given) == order and json.dumps(given) == text, "input-modified", lambda: f"{name} by {how} ({st}): {first_diff(y, given)}", y)
            case.check(reach(given).keys() == ids.keys(), "input-modified", lambda: f"{name} by {how} ({st}): parts of the input were replaced", y)
            case.see("input:" + st)
        doc = in_doc(case, name, gen.jx(y)) if r.random() < 0.2 and interpret(T(name), y).status == "ok" else None
        if doc:
            d = doc[0]
            text = json.dumps(d)
            st, m = lib.attempt(lib.AsyncAPI3.model_validate, d)
            case.check(json.dumps(d) == text, "input-modified", f"document with {name} ({st})", y)
            case.see("input:document")
    case.state("inputs", name)
    case.distinct("inputs", name, x)


def factories(case):
    """Objects the library itself makes (reference factories, the builder) are fresh each time."""
    r = case.rng
    k = gen.Gen(r).key()
    names = [n for n in dir(lib.Reference) if n.startswith("to_") and n.endswith("_name")]
    for n in names:
        fn = getattr(lib.Reference, n)
        a, b = fn(k), fn(k)
        want = lib.dump(a)
        disjoint(case, a, b, f"two results of {n}({k!r})", k)
        a.ref = "#/edited"
        case.check(lib.dump(b) == want, "influenced", f"{n}({k!r}): an earlier result changed with a later one", k)
        case.check(lib.dump(fn(k)) == want, "default-polluted", f"{n}({k!r}) after an earlier result was edited", k)
        # used in two documents, one edited
        c = fn(k)
        m1 = lib.cls("Operation")(action="send", channel=c)
        m2 = lib.cls("Operation")(action="send", channel=fn(k))
        m1.channel.ref = "#/edited"
        case.check(lib.dump(m2) == {"action": "send", "channel": want}, "influenced", f"{n}({k!r}) in two operations", k)
        case.state("factories", n)
    case.distinct("factories", k)


N = len(NAMES)
STAGES = {"separate": (separate, 600, 30000), "shared": (shared, 500, 20000), "hosted": (hosted, 120, 5000), "copies": (copies, 600, 30000), "defaults": (defaults, N * 2, N * 40),
          "factories": (factories, 24, 600), "inputs": (inputs, N * 3, N * 60)}
FLOORS = {"separate:validate": 80, "separate:assembled": 80, "separate:text": 80, "separate:yaml": 20, "shared": 300, "hosted": 80, "copies:deepcopy": 120, "copies:pickle": 120, "copies:model_copy": 120,
          "edits": 4000, "state:objects": 250, "state:defaults": 140, "reach:objects": 15000, "input:ok": 3000, "input:invalid": 500, "input:document": 100, "state:inputs": 120, "state:factories": 22}
