"""P30: hostile input yields a model or a validation error, nothing else."""

import array
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import json
import pathlib
import signal
import time
import types
import uuid

import yaml
from pydantic import BaseModel, ValidationError

import asyncapi3.validators as validators
from rv import gen, lib
from rv.gen import Gen, jx
from rv.embed import SHAPES
from rv.refs import consistent_doc, free_names_doc, ref_sites, site_doc
from rv.spec import CATALOG, deep_eq, first_diff
from rv.util import FIELDS, JUNK, NAMES, PATTERNED, ROOT, falsy_values, rand_doc, rand_instance

RULE = ("a case feeds one or more hostile inputs (arbitrary JSON, documents after 1-40 wild mutations, hostile reference strings under the bundled validators, foreign Python objects, damaged text, deep or large values) to the entry "
        "points; the outcome must be a model or ValidationError within a CPU budget, and every model from JSON data must dump and reparse equal")
VALIDATORS = [getattr(validators, n) for n in sorted(validators.__all__)]
ALLJSON = sorted({f["json"] for c in CATALOG.values() for f in c.get("fields", [])} | {f["py"] for c in CATALOG.values() for f in c.get("fields", [])})
BUDGET = 20.0  # CPU seconds


class TimeLimit(BaseException):
    pass


def _late(*_a):
    raise TimeLimit


def say(x, n=200):
    try:
        return ascii(str(x))[:n]
    except Exception as e:  # noqa: BLE001
        return f"<{type(x).__name__}; {type(e).__name__} on str>"


def attempt(case, what, fn, *a, **kw):
    """The outcome of a library call within the CPU budget."""
    old = signal.signal(signal.SIGPROF, _late)
    signal.setitimer(signal.ITIMER_PROF, BUDGET)
    try:
        return "ok", fn(*a, **kw)
    except ValidationError as e:
        return "invalid", e
    except TimeLimit:
        signal.setitimer(signal.ITIMER_PROF, 0)
        case.fail("too-slow", f"{what}: no result within {BUDGET:.0f} s of CPU time")
    except Exception as e:  # noqa: BLE001
        return "crash", e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def pure(x, depth=0):
    """JSON interchange data: finite numbers, well-formed text, moderate depth."""
    try:
        t = json.dumps(x, allow_nan=False)
        t.encode()
        if "\\ud8" in t or "\\udc" in t or "\\ud9" in t or "\\uda" in t or "\\udb" in t or "\\udd" in t or "\\ude" in t or "\\udf" in t:
            json.loads(t)
            json.dumps(x, ensure_ascii=False).encode()
        return depth_of(x) < 150
    except (ValueError, RecursionError, UnicodeError, TypeError):
        return False


def ambiguous(x):
    """Schema-like objects whose null siblings vanish from the dump and leave a bare reference, a multi-format schema or an empty mapping (left open)."""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, dict):
            if ("$ref" in y or "ref" in y) and len(y) > 1 or ("schema" in y or "schemaFormat" in y) and set(y) - {"schema", "schemaFormat"} or y and all(z is None for z in y.values()):
                return True
            stack += y.values()
        elif isinstance(y, list):
            stack += y
    return False


def depth_of(x):
    d, level = 0, [x]
    while level:
        nxt = []
        for y in level:
            if isinstance(y, dict):
                nxt += y.values()
            elif isinstance(y, list):
                nxt += y
        level = nxt
        d += 1
    return d


def settle(case, what, st, m, data, roundtrip, cls=None, vs=None):
    """Judge the outcome; a model from JSON data must survive dump and reparse."""
    case.check(st != "crash", f"crash:{type(m).__name__}" if st == "crash" else "", lambda: f"{what}: {type(m).__name__}: {say(m, 300)}", None if st != "crash" else say(data, 3000))
    case.see("outcome:" + st)
    if st == "invalid":
        case.check(m.error_count() > 0 and isinstance(m, ValidationError), "empty-error", what)
        return None
    cls = cls or lib.AsyncAPI3
    case.check(isinstance(m, cls), "wrong-result", lambda: f"{what}: {type(m).__name__}")
    if roundtrip:
        extra = {"extra_validators": vs} if vs is not None else {}
        outs = []
        for how, fn in (("model_dump", lib.dump), ("model_dump_json", lib.dumps), ("python", lambda x: x.model_dump()), ("repr", repr)):
            s2, o = attempt(case, what, fn, m)
            case.check(s2 == "ok", "dump-fails", lambda: f"{what}: {how}: {say(o, 300)}", data)
            outs.append(o)
        case.check(deep_eq(json.loads(outs[1]), outs[0]), "dumps-disagree", lambda: f"{what}: {first_diff(outs[0], json.loads(outs[1]))}", data)
        if ambiguous(data):
            case.see("open:ambiguous")
            return m
        root = isinstance(outs[0], dict) and cls is lib.AsyncAPI3
        again = [("dump", lambda: cls.model_validate({**outs[0], **extra} if root else outs[0])), ("json", lambda: cls.model_validate_json(outs[1]))]
        for how, fn in again:
            s3, m3 = attempt(case, what, fn)
            case.check(s3 == "ok", "dump-rejected", lambda: f"{what}: its own {how} is {s3}: {say(m3, 400)}", data)
            if how == "json" and root and vs is not None:
                s4, e4 = attempt(case, what, setattr, m3, "extra_validators", vs)
                case.check(s4 == "ok", "dump-rejected", lambda: f"{what}: attaching the validators to the reparsed model: {s4} {say(e4, 300)}", data)
            case.check(m3 == m, "dump-unequal", lambda: f"{what}: reparsed {how} differs: {say(first_diff(outs[0], lib.dump(m3)))}", data)
        case.see("roundtrip")
    return m


ENTRY = ["validate", "json", "kwargs", "yaml", "python-strings"]


def feed(case, x, cls, what, vs=None, how=None, roundtrip=None):
    r = case.rng
    how = how or r.choice(["validate", "validate", "json", "kwargs"])
    root = cls is lib.AsyncAPI3
    rt = pure(x) if roundtrip is None else roundtrip
    y = {**x, "extra_validators": vs} if vs is not None and isinstance(x, dict) and root else x
    if how == "json" and vs is None:
        try:
            t = json.dumps(x)
        except (TypeError, ValueError, RecursionError):
            how = "validate"
        else:
            t = t if r.random() < 0.5 else t.encode()
            st, m = attempt(case, what, cls.model_validate_json, t)
    elif how == "json":
        how = "validate"
    if how == "kwargs" and not (isinstance(y, dict) and all(isinstance(k, str) and k != "self" for k in y)):
        how = "validate"
    if how == "kwargs" and issubclass(cls, BaseModel) and "root" in cls.model_fields:
        st, m = attempt(case, what, cls, y)
    elif how == "kwargs":
        st, m = attempt(case, what, lambda: cls(**y))
    elif how == "validate":
        st, m = attempt(case, what, cls.model_validate, y)
    case.state("routes", how)
    return st, settle(case, f"{what} ({how})", st, m, x, rt, cls, vs if isinstance(x, dict) and root else None)


# ---------------------------------------------------------------- hostile JSON
HOSTILE_SCALARS = [None, True, False, 0, -1, 1, 10**30, -(10**300), 10**3000, 1.5, -0.0, 1e308, 5e-324, "", " ", "\x00", "\ufeff", "\u2028", "\uffff", "é" * 1000, "a" * 20000, "\n", "x-", "x-a", "$ref", "#/", "#/components", "3.0.0", "None",
                   "../" * 50, "%s%s%n", "{0.__class__}", "{}", "${jndi:x}", "\\", "'\"", "1e999", "0" * 500, "٣", "ﬁ", "\u202e", "https://", "http://[", "http://a:99999/", "urn:", "a@", "@b.c", "a@b..c", ".@b.cc", "a" * 3000 + "@b.cc",
                   "{" * 500, "}" * 500, "{a}" * 300, "3." * 300, "3.0.0-" + "a-" * 2000, "$message." + "a" * 100]


def arbitrary(r, d=5):
    x = r.random()
    if d <= 0 or x < 0.35:
        return r.choice(HOSTILE_SCALARS) if r.random() < 0.7 else jx(r.choice(JUNK))
    if x < 0.55:
        return [arbitrary(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 8]))]
    return {key(r): arbitrary(r, d - 1) for _ in range(r.choice([0, 1, 2, 4, 9]))}


def key(r):
    x = r.random()
    if x < 0.6:
        return r.choice(ALLJSON)
    if x < 0.75:
        return r.choice(["$ref", "ref", "root", "extra_validators", "extra_converters", "model_config", "model_fields", "__class__", "__dict__", "__root__", "self", "cls", "__pydantic_extra__", "__init__", "x-a", "x-", "", "model_extra", "_abc", "class"])
    return r.choice(gen.HOSTILE_KEYS) if x < 0.9 else r.choice(gen.STRINGS)


def nodes(v, path=()):
    out, stack = [], [(path, v)]
    while stack:
        p, x = stack.pop()
        out.append(p)
        if isinstance(x, dict):
            stack += [(p + (k,), y) for k, y in x.items()]
        elif isinstance(x, list):
            stack += [(p + (i,), y) for i, y in enumerate(x)]
    return out


def at(v, path):
    for s in path:
        v = v[s]
    return v


def size(x):
    return len(nodes(x))


def wild(r, v):
    """One unconstrained edit of a JSON tree; returns (tree, name)."""
    all_ = nodes(v)
    p = r.choice(all_)
    op = r.choice(["junk", "arbitrary", "subtree", "ancestor", "delete", "rename", "repeat", "wrap", "wrapdict", "unwrap", "addfield", "ref", "refsib", "null", "merge", "shuffle", "stringify"])
    x = at(v, p)
    par = at(v, p[:-1]) if p else None

    def put(y):
        nonlocal v
        if p:
            par[p[-1]] = y
        else:
            v = y
        return v, op

    if op == "junk":
        return put(jx(r.choice(JUNK)) if r.random() < 0.5 else r.choice(HOSTILE_SCALARS))
    if op == "arbitrary":
        return put(arbitrary(r, 3))
    if op == "subtree":
        return put(jx(at(v, r.choice(all_))) if len(all_) < 2000 else None)
    if op == "ancestor":
        return put(jx(at(v, p[: r.randrange(len(p) + 1)])) if len(all_) < 1500 else [])
    if op == "null":
        return put(None)
    if op == "wrap":
        return put([x] + ([jx(x)] if len(all_) < 1500 and r.random() < 0.3 else []))
    if op == "wrapdict":
        return put({key(r): x})
    if op == "unwrap" and isinstance(x, (dict, list)) and x:
        return put(next(iter(x.values() if isinstance(x, dict) else x)))
    if op == "stringify":
        return put(json.dumps(x)[:3000])
    if op == "ref":
        return put({"$ref": hostile_ref(r, all_)})
    if isinstance(x, dict):
        if op == "refsib":
            x["$ref"] = r.choice([hostile_ref(r, all_), 5, None, {}, []])
        elif op == "addfield":
            x[key(r)] = arbitrary(r, 2)
        elif op == "merge":
            y = at(v, r.choice(all_))
            if isinstance(y, dict) and len(all_) < 1500:
                x.update(jx(y))
        elif op == "shuffle":
            ks, vs = list(x), list(x.values())
            r.shuffle(vs)
            x.update(zip(ks, vs))
        elif op == "rename" and x:
            x[key(r)] = x.pop(r.choice(list(x)))
        elif op == "delete" and x:
            del x[r.choice(list(x))]
    elif isinstance(x, list) and x:
        if op == "delete":
            del x[r.randrange(len(x))]
        elif op == "repeat" and len(all_) < 1500:
            x += [jx(r.choice(x)) for _ in range(r.choice([1, 3, 60]))] if size(x) < 300 else []
    return v, op


def hostile_ref(r, paths=()):
    x = r.random()
    if x < 0.35 and paths:
        p = [str(s) for s in r.choice(list(paths))]
        return "#/" + "/".join(p) + r.choice(["", "", "", "/", "//", "/x", "/0", "/root", "/__class__", "/name"])
    sec = r.choice(["schemas", "servers", "channels", "operations", "messages", "securitySchemes", "tags", "externalDocs", "operationTraits", "messageTraits", "serverBindings", "replies", "x-a", "model_extra", "__dict__"])
    tail = gen.formatted(r) if r.random() < 0.1 else r.choice(["root", "__class__", "__init__", "__dict__", "0", "-1", "a", "", " ", "a/b", "a/b/c/d", "model_fields", "model_dump", "model_extra", "~0", "~1", "~2", "%2F", "%", "é", "日本", "\x00", "\n", "a" * 10000, "a/" * 500, "a/" * 5000, "a/" * 40000, "/".join(map(str, range(3000))), "properties/a/" * 2000, "/" * 5000, "a" * 300000, "None", "..",
                     ".", "*", "{}", "[0]", "items", "keys", "get", "__getitem__/x", "__class__/__mro__/0", "x-a", "1e5", "\u202e", "/", "//", "#", "#/", "?x", "a#b", "a?b", "a:b", "\\", "'", "\""])
    if x < 0.6:
        return f"#/components/{sec}/{tail}"
    if x < 0.75:
        return f"#/{sec}/{tail}"
    if x < 0.85:
        return r.choice(["#/channels/a/messages/", "#/channels//messages/", "#/servers/a/variables/", "#/components/", "#/info/", "#/operations/a/channel/", "#/components/messages/a/traits/", "#/components/channels/a/messages/"]) + tail
    return r.choice(["", "#", "#/", "/", "//", "a", tail, "http://", "https://[::1", "https://" + tail, "http://\x00", "file:///etc/passwd", "ftp://x", "javascript:1", "data:,", "\x00", " #/a", "#/a ", "##/a", "#a", "#/info", "#/info/title", "#/asyncapi",
                     "#/components", "#/components/schemas", "#/extra_validators/0", "#/extra_validators", "#/__class__", "#/model_fields", "#/_processing", "#/self", "#/root", "#/components/__class__", "#/x-a", "#/x-a/0", "#/components/x-a", "#/" * 500, "#/components/schemas" * 50, "#/" + "a/" * 5000, "#/" + "components/" * 3000, "#/" * 20000, "#/servers/" + "a/" * 1500, "https://e.x/" + "a/" * 20000, "#/channels/a/messages/" * 2000, "#" + "/" * 20000])


def some_validators(r):
    x = r.random()
    if x < 0.3:
        return None
    if x < 0.5:
        return [validators.UnifiedReferencesValidator]
    if x < 0.6:
        return list(VALIDATORS)
    return r.sample(VALIDATORS, r.choice([1, 2, 5])) + r.sample([validators.UnifiedReferencesValidator, validators.TagsRefValidator, validators.ExternalDocsRefValidator], 2)


# ---------------------------------------------------------------- stages
BASE = {"info": {"title": "t", "version": "1"}}


def formats(case):
    """Texts that careless message building takes for placeholders, at every place whose value may be quoted by an error or a warning."""
    r = case.rng
    t = gen.formatted(r)
    vs = some_validators(r) or [validators.UnifiedReferencesValidator]
    name = PATTERNED[case.i % len(PATTERNED)]
    for k in (t, t.replace("/", "")):
        feed(case, {k: {}}, lib.cls(name), f"{name} with key {k!r}")
        feed(case, {k: r.choice([5, None, [], "x"])}, lib.cls(name), f"{name} with key {k!r}")
    m = lib.cls(name)({})
    st, e = attempt(case, "item assignment", m.__setitem__, t, {})
    settle(case, f"{name}[{t!r}] = ...", st, m if st == "ok" else e, None, False, lib.cls(name))
    for k in (t, "x-" + t, "x-a" + t, t + "-x"):
        feed(case, {**BASE, k: 1}, lib.AsyncAPI3, f"member {k!r}")
        feed(case, {"info": {**BASE["info"], k: 1}}, lib.AsyncAPI3, f"info member {k!r}")
    for n, js, py, ty in (EVERY[(case.i * 7 + j) % len(EVERY)] for j in range(7)):
        if js is not None:
            base, _c = rand_instance(case, n, "min")
            if isinstance(base, dict):
                feed(case, {**jx(base), js: t}, lib.cls(n), f"{n}.{js} = {t!r}")
                feed(case, {**jx(base), js: {t: t}}, lib.cls(n), f"{n}.{js} = {{{t!r}: {t!r}}}")
                feed(case, {**jx(base), js: [t]}, lib.cls(n), f"{n}.{js} = [{t!r}]")
    for ref in (t, "#" + t, "#/" + t, "#/components/tags/" + t, "#/components/externalDocs/" + t, "http://a.b/" + t):
        tag, doc = {"$ref": ref}, {"$ref": ref}
        d = {"info": {**BASE["info"], "tags": [tag]}, "channels": {"c": {"externalDocs": doc, "servers": [{"$ref": ref}], "tags": [jx(tag)], "messages": {"m": {"$ref": ref}}}}, "components": {"schemas": {"s": {"$ref": ref}, "z": {}}, "tags": {"t": {"name": t}}}}
        feed(case, d, lib.AsyncAPI3, f"reference {ref!r}", r.choice([vs, [validators.UnifiedReferencesValidator], [validators.TagsRefValidator], [validators.ExternalDocsRefValidator]]))
    for _ in range(3):
        x = free_names_doc(case)
        if x is not None:
            feed(case, x[0], lib.AsyncAPI3, f"free names, {x[2]} reference at {x[1]!r:.200}", [validators.UnifiedReferencesValidator])
            case.see("free-names")
    case.state("formats", t)


def values(case):
    """Arbitrary JSON values into every model."""
    r = case.rng
    for _ in range(12):
        name = ROOT if r.random() < 0.2 else NAMES[(case.i * 12 + _) % len(NAMES)]
        x = arbitrary(r)
        if isinstance(x, dict) and r.random() < 0.7:  # flavour it so that something is recognised
            for f in CATALOG[name].get("fields", []):
                if f.get("req") or r.random() < 0.2:
                    x[f["json"]] = arbitrary(r, 2) if r.random() < 0.4 else Gen(r, p=0.3, depth=2).gen(f["type"])
        st, _m = feed(case, x, lib.cls(name), f"{name} from arbitrary JSON")
        case.state("models", name, st)
        case.distinct(name, say(x, 400))


EVERY = [(n, f["json"], f["py"], f["type"]) for n, f in FIELDS] + [(n, None, None, CATALOG[n]["item"]) for n in PATTERNED]
SHALLOW = [[], {}, [[]], [{}], {"": []}, {"a": None}, {"a": []}, {"a": {}}, [None], [[None]], [{"a": []}], {"$ref": []}, {"$ref": {}}, {"$ref": None}, {"$ref": ""}, {"ref": []}, {"root": []}, [{"$ref": []}], {"a": {"$ref": []}},
           {"type": []}, {"type": {}}, {"schemaFormat": []}, {"schemaFormat": "a", "schema": []}, {"name": []}, "", " ", "\x00", 0, -1, 0.5, -0.0, 10**30, True, False, None, "a" * 500, "\U0001f600", [1, "a", None, {}, []], [[[[]]]], {"a": {"b": {"c": []}}}]
PYTHON = [lambda: (), lambda: (1,), lambda: set(), lambda: frozenset({1}), lambda: b"", lambda: b"\xff", lambda: bytearray(b"a"), lambda: object(), lambda: object, lambda: float("nan"), lambda: float("inf"), lambda: 1j, lambda: range(3), lambda: iter([]), lambda: (x for x in [1]),
          lambda: {1: 2}, lambda: {None: 1}, lambda: {(): []}, lambda: {b"a": 1}, lambda: len, lambda: lambda: 1, lambda: NotImplemented, lambda: ..., lambda: decimal.Decimal("NaN"), lambda: decimal.Decimal(1), lambda: types.SimpleNamespace(root={}), lambda: collections.deque([1]),
          lambda: collections.defaultdict(list), lambda: types.MappingProxyType({"a": 1}), lambda: collections.UserDict(a=1), lambda: collections.UserList([1]), lambda: pathlib.Path("a"), lambda: datetime.date(2020, 1, 1), lambda: memoryview(b"a"), lambda: {}.keys(), lambda: {}.values()]


def every(case):
    """Every field of every model: empty, nested, odd and foreign values on their own, by parsing, keyword and assignment."""
    r = case.rng
    name, js, py, t = EVERY[case.i % len(EVERY)]
    cls = lib.cls(name)
    own = []
    while t[0] in ("list", "map") and len(own) < 40:
        own += [[x] if t[0] == "list" else {"a": x} for x in SHALLOW]
        t = t[1]
    for a in t[1:] if t[0] == "union" else [t]:
        if a[0] == "obj" and CATALOG[a[1]]["kind"] != "patterned":  # one level further down
            for f in CATALOG[a[1]]["fields"]:
                own += [{f["json"]: x} for x in r.sample(SHALLOW, 3)]
    base, _c = rand_instance(case, name, "min")
    if base is None or not isinstance(base, dict):
        return
    live = None
    if js is not None:
        live = lib.attempt(cls.model_validate, jx(base))[1]
    for x in [*SHALLOW, *JUNK, *own]:
        if js is None:
            y = {"a": jx(x)}
        elif r.random() < 0.5:
            y = {**jx(base), js: jx(x)}
        else:
            y = {js: jx(x)}
        st, _m = feed(case, y, cls, f"{name}.{js or '*'} = {say(x, 60)}")
        case.state("every", name, js, st)
        if js is not None and r.random() < 0.3:
            s2, e = attempt(case, "assignment", setattr, live, py, jx(x))
            settle(case, f"{name}.{py} = {say(x, 60)} by assignment", s2, live if s2 == "ok" else e, None, False, cls)
            case.see("every:assigned")
    for fn in PYTHON:
        try:
            y = {js or "a": fn()} if r.random() < 0.5 else {**base, js or "a": fn()}
        except TypeError:
            continue
        st, m = attempt(case, "foreign", cls.model_validate, y)
        settle(case, f"{name}.{js or '*'} holding a {type(y[js or 'a']).__name__}", st, m, None, False, cls)
        if js is not None:
            s2, e = attempt(case, "assignment", setattr, live, py, fn())
            settle(case, f"{name}.{py} = a {type(y[js]).__name__} by assignment", s2, live if s2 == "ok" else e, None, False, cls)
            if s2 == "ok":
                live = lib.attempt(cls.model_validate, jx(base))[1]
        case.see("every:foreign")
    case.distinct("every", name, js)


def mutants(case):
    """Documents and instances after stacked wild mutations, under the bundled validators."""
    r = case.rng
    if case.i % 3:
        d, _c = rand_doc(case) if r.random() < 0.5 else (consistent_doc(case), None)
        name = ROOT
    else:
        name = NAMES[(case.i // 3) % len(NAMES)]
        d, _c = rand_instance(case, name)
    if d is None:
        return
    d = jx(d)
    for k in range(r.choice([1, 1, 2, 3, 5, 10, 40])):
        d, op = wild(r, d)
        case.state("edits", op)
        if k % 3 == 0 and size(d) < 4000:
            vs = some_validators(r) if name == ROOT else None
            st, _m = feed(case, d, lib.cls(name), f"{name} after {k + 1} edits ({op})", vs)
            if vs:
                case.see("validated:" + st)
            case.state("mutant-outcomes", name, st)
        if not isinstance(d, (dict, list)) or size(d) > 4000:
            break
    case.distinct(name, say(d, 2000))
    case.sample(say(d, 300))


def edge_mutants(case):
    """Near-conforming documents: one light edit, so that most of them are accepted and must round-trip."""
    r = case.rng
    d, _c = rand_doc(case, nulls=True)
    if d is None:
        return
    for _ in range(4):
        x = jx(d)
        p = r.choice([p for p in nodes(x) if isinstance(at(x, p), dict)])
        o = at(x, p)
        how = r.choice(["ext", "null", "null", "falsy", "dup", "reorder"])
        if how == "ext":
            o["x-" + r.choice(["a", "root", "ref", "in", "é"])] = arbitrary(r, 3)
        elif how == "null":
            o[r.choice(ALLJSON)] = None
        elif how == "falsy":
            o[r.choice(ALLJSON)] = r.choice([0, "", [], {}, False])
        elif how == "dup" and o:
            o[key(r)] = jx(r.choice(list(o.values())))
        else:
            items = list(o.items())
            r.shuffle(items)
            o.clear()
            o.update(items)
        feed(case, x, lib.AsyncAPI3, f"document, {how}", some_validators(r) if r.random() < 0.3 else None)
        case.state("light-edits", how)
    case.distinct("edge", d)


def refs(case):
    """Hostile reference strings at every site, under the bundled validators."""
    r = case.rng
    d = consistent_doc(case) if r.random() < 0.6 else rand_doc(case)[0]
    if d is None or not ref_sites(d):
        return
    for _ in range(4):
        x = jx(d)
        if r.random() < 0.5:  # extensions and schema innards a pointer might wander into
            x["x-a"] = {"a": [1, {"b": None}], "0": "s"}
            x.setdefault("components", {}).setdefault("schemas", {})["a"] = {"type": "object", "properties": {"b": {"$ref": "#/components/schemas/a/properties/b"}}, "root": {"c": 1}, "__class__": 5}
            x["components"]["x-a"] = {"$ref": 5}
        sites = ref_sites(x)
        ps = nodes(x)
        for path, _n in r.sample(sites, min(len(sites), r.choice([1, 2, 8]))):
            at(x, path)["$ref"] = hostile_ref(r, ps)
        vs = some_validators(r) or [validators.UnifiedReferencesValidator]
        if r.random() < 0.15:  # cycles through live sections
            comps = x.setdefault("components", {})
            comps["messages"] = {**comps.get("messages", {}), "c1": {"$ref": "#/components/messages/c2"}, "c2": {"$ref": "#/components/messages/c1"}, "c3": {"$ref": "#/components/messages/c3"}}
            vs = [validators.UnifiedReferencesValidator, *vs]
        st, _m = feed(case, x, lib.AsyncAPI3, "hostile references", vs)
        case.see("hostile-ref:" + st)
        for v in vs:
            case.state("validators", v.__name__)
    case.distinct("refs", x)


EDGE_REFS = ["#/components/tags", "#/components/tags/", "#/components/tags//", "#/components/tags/a/", "#/components/externalDocs", "#/components/externalDocs/", "#/components/externalDocs//a",
             "#/components", "#/components/", "#/", "#", "", "#//", "#/a", "/", "#/components/tags/a/b/c", "#components/tags/a", "#/components/tags/\n", "#/servers/", "#/channels//messages/a", "#/info/", "#/info/tags/0"]


def lone(case):
    """A well-formed document with one edge-case reference string, at every place, under each reference validator alone."""
    r = case.rng
    site, way = SHAPES[case.i % len(SHAPES)]
    got = site_doc(case, site, way=way, p=0.05)
    if got is None:
        return
    d, path = got
    ps = nodes(d)
    own = {"Tag", "ExternalDocumentation"} & set(site[3])
    for s in [*(EDGE_REFS if own else r.sample(EDGE_REFS, 4)), hostile_ref(r, ps), hostile_ref(r, ps)]:
        at(d, path)["$ref"] = s
        for v in (validators.UnifiedReferencesValidator, validators.TagsRefValidator, validators.ExternalDocsRefValidator):
            st, _m = feed(case, d, lib.AsyncAPI3, f"reference {say(s, 80)} at {'/'.join(map(str, path))}", [v], "validate", roundtrip=False)
            case.see("lone:" + st)
    case.state("lone", site[0], site[1], [(e[0], e[1]) for e in way])
    case.distinct("lone", path, case.i)


class Colour(enum.Enum):
    RED = "send"


# no string-valued enum members: pydantic-core lets them through integer fields unchecked
class IntColour(enum.IntEnum):
    A = 1


class StrSub(str):
    pass


class IntSub(int):
    pass


class DictSub(dict):
    pass


class ListSub(list):
    pass


class Alien(BaseModel):
    title: str = "t"
    version: str = "1"
    model_config = {"extra": "allow"}


@dataclasses.dataclass
class Data:
    title: str = "t"
    version: str = "1"


Named = collections.namedtuple("Named", "title version")


class Obj:
    def __init__(self):
        self.title, self.version, self.ref = "t", "1", "#/a"


class Mapping(collections.UserDict):
    pass


class Odd:
    """Equal to everything, hashable, indexable."""

    def __eq__(self, other):
        return True

    __hash__ = object.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __getitem__(self, k):
        raise KeyError(k)


def foreign(r, x=None):
    """A Python object no JSON parser produces."""
    d = x if isinstance(x, dict) else {"title": "t", "version": "1"}
    lst = x if isinstance(x, list) else [x]
    loop = {}
    loop["x-a"] = loop
    ll = []
    ll.append(ll)
    return r.choice([
        lambda: (1, 2), lambda: tuple(lst), lambda: {1, 2}, lambda: frozenset(["a"]), lambda: b"abc", lambda: bytearray(b"x"), lambda: memoryview(b"x"), lambda: decimal.Decimal("1.5"), lambda: decimal.Decimal("NaN"), lambda: fractions.Fraction(1, 3),
        lambda: datetime.datetime(2020, 1, 1), lambda: datetime.date(1, 1, 1), lambda: datetime.timedelta(1), lambda: uuid.UUID(int=5), lambda: pathlib.PurePosixPath("/a"), lambda: Colour, lambda: IntColour.A, lambda: StrSub("send"), lambda: StrSub(x),
        lambda: IntSub(5), lambda: DictSub(d), lambda: ListSub(lst), lambda: collections.OrderedDict(d), lambda: collections.defaultdict(list, d), lambda: types.MappingProxyType(d), lambda: Mapping(d), lambda: collections.ChainMap(d), lambda: collections.deque(lst),
        lambda: (y for y in lst), lambda: iter(lst), lambda: range(5), lambda: map(str, lst), lambda: Alien(), lambda: Data(), lambda: Named("t", "1"), lambda: Obj(), lambda: object(), lambda: Ellipsis, lambda: NotImplemented, lambda: int, lambda: lib.AsyncAPI3,
        lambda: lib.Reference, lambda: len, lambda: (lambda: 0), lambda: json, lambda: 1j, lambda: float("nan"), lambda: float("inf"), lambda: -float("inf"), lambda: 10**5000, lambda: "\ud800", lambda: "a\udfff", lambda: ValueError("x"), lambda: array.array("i", [1]),
        lambda: {1: 2}, lambda: {None: 1}, lambda: {(1, 2): 3}, lambda: {b"a": 1}, lambda: {1.5: {}}, lambda: {True: 1}, lambda: {frozenset(): 1}, lambda: {"\ud800": 1}, lambda: {**d, 5: 1}, lambda: {**d, None: None}, lambda: {StrSub(k): y for k, y in d.items()}, lambda: {Colour.RED: 1},
        lambda: loop, lambda: ll, lambda: {"x": ll}, lambda: lib.Reference(ref="#/a"), lambda: lib.cls("Schema")(), lambda: lib.cls("Tag")(name="a"), lambda: lib.cls("Channels")({}), lambda: lib.AsyncAPI3.model_construct(), lambda: lib.cls("Info").model_construct(), lambda: lib.cls("Tag").model_construct(name=5),
        lambda: lib.Reference.model_construct(), lambda: lib.Reference.model_construct(ref=5), lambda: lib.cls("Channels").model_construct(root=None), lambda: Odd(), lambda: Odd, lambda: d.items(), lambda: d.keys(), lambda: slice(1), lambda: property(), lambda: bytes(1000), lambda: deep(r.choice([50, 180]), "list"), lambda: deep(180, "dict"),
    ])()


def deep(n, kind):
    x = 0
    for _ in range(n):
        x = [x] if kind == "list" else {"a": x} if kind == "dict" else {"$ref": x} if kind == "ref" else {"properties": {"p": x}}
    return x


def python(case):
    """Foreign Python objects anywhere in the input (values, keys, whole arguments)."""
    r = case.rng
    for _ in range(8):
        x = r.random()
        if x < 0.5:
            name = NAMES[(case.i * 8 + _) % len(NAMES)]
            d, _c = rand_instance(case, name, "min" if r.random() < 0.3 else "random")
        else:
            name = ROOT
            d, _c = rand_doc(case)
        if d is None:
            continue
        d = jx(d)
        for _k in range(r.choice([1, 1, 2, 4])):
            ps = nodes(d) if isinstance(d, (dict, list)) else [()]
            p = r.choice(ps)
            old = at(d, p)
            try:
                new = foreign(r, old)
            except (TypeError, ValueError, UnicodeError):
                continue
            if p:
                par = at(d, p[:-1])
                if isinstance(par, dict) and r.random() < 0.12:
                    try:
                        par[new] = par.pop(p[-1])  # as a key
                        case.see("foreign-key")
                        break
                    except Exception:  # noqa: BLE001 - not hashable
                        pass
                par[p[-1]] = new
            else:
                d = new
            case.state("foreign", type(new).__name__)
            if not isinstance(new, (dict, list)):
                continue
            break  # never walk into loops or live objects
        vs = some_validators(r) if name == ROOT and type(d) is dict and r.random() < 0.5 else None
        how = "validate" if not isinstance(d, dict) else r.choice(["validate", "validate", "kwargs"])
        st, m = feed(case, d, lib.cls(name), f"{name} with foreign objects", vs, how, roundtrip=False)
        if m is not None and r.random() < 0.3 and CATALOG[name]["kind"] != "patterned" and CATALOG[name]["fields"]:  # assignment is validated as well
            f = r.choice(CATALOG[name]["fields"])
            try:
                new = foreign(r)
            except (TypeError, ValueError, UnicodeError):
                continue
            s2, e = attempt(case, "assignment", setattr, m, f["py"], new)
            settle(case, f"{name}.{f['py']} = {type(new).__name__}", s2, m if s2 == "ok" else e, None, False, lib.cls(name))
        case.see("python:" + st)
    case.distinct("python", case.i)


def text(case):
    """Damaged JSON and YAML text."""
    r = case.rng
    d, _c = rand_doc(case)
    if d is None:
        return
    for _ in range(6):
        t = json.dumps(d, ensure_ascii=r.random() < 0.5, indent=r.choice([None, 1]))
        op = r.choice(["truncate", "flip", "insert", "delete", "dup", "bytes", "nan", "trailing", "quote", "bom", "huge", "swapcase", "utf16", "concat", "comment", "control"])
        i = r.randrange(len(t))
        if op == "truncate":
            t = t[:i]
        elif op == "flip":
            t = t[:i] + r.choice("{}[],:\"\\0ae \x00\u2028é-+.") + t[i + 1:]
        elif op == "insert":
            t = t[:i] + r.choice(["{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "null", "1e999", "-", "0x1", "\x00", "NaN", "/*", "\ud800"]) + t[i:]
        elif op == "delete":
            t = t[:i] + t[i + r.choice([1, 2, 10]):]
        elif op == "dup":
            t = t[:1] + '"info": 5, "info": {"title": "d", "version": "1"}, ' + t[1:]
        elif op == "bytes":
            t = t.encode("utf-8", "replace")
            t = t[:i] + bytes([r.randrange(256)]) + t[i + 1:]
        elif op == "nan":
            t = t.replace('"info"', '"x-a": ' + r.choice(["NaN", "Infinity", "-Infinity", "1e400", "-0", "01", "+1", ".5", "1."]) + ', "info"', 1)
        elif op == "trailing":
            t += r.choice([",", " x", "{}", "\x00", "]", "}", "null"])
        elif op == "quote":
            t = t.replace('"', "'")
        elif op == "bom":
            t = "\ufeff" + t
        elif op == "huge":
            t = t.replace('"info"', '"x-a": ' + "9" * r.choice([30, 400, 5000]) + ', "info"', 1)
        elif op == "swapcase":
            t = t.swapcase()
        elif op == "utf16":
            t = t.encode(r.choice(["utf-16", "utf-32", "latin-1"]), "replace")
        elif op == "concat":
            t = t + t
        elif op == "comment":
            t = "// c\n" + t
        else:
            t = t.replace(":", ":" + r.choice(["\t", "\x0b", "\x0c", "\x7f", "\u00a0"]), 1)
        if r.random() < 0.15:
            t = r.choice(["", " ", "null", "5", '""', "[]", "{}", "true", "[" * 100000, '{"a":' * 5000, '"' * 50000, "[[]," * 2000, b"", b"\x00", b"\xff\xfe", bytearray(b"{}"), "{" + '"a":1,' * 5000 + "}", '"\\', "\\", '"\\u12', "-", "1e", "tru", "nul", "NaN"])
        st, m = attempt(case, op, lib.AsyncAPI3.model_validate_json, t)
        ok_rt = False
        if st == "ok":
            try:
                ok_rt = pure(json.loads(t))
            except (ValueError, RecursionError, UnicodeError, TypeError):
                ok_rt = False
        settle(case, f"damaged JSON text ({op})", st, m, json.loads(t) if ok_rt else say(t, 500), ok_rt)
        if st == "ok" and not isinstance(t, bytearray):
            try:
                plain = json.loads(t)
            except (ValueError, UnicodeError):
                plain = None
                case.check(op in ("bytes", "utf16", "bom", "insert", "flip", "control", "delete"), "accepts-malformed", lambda: f"{op}: accepted although malformed: {say(t, 300)}")
            _ = plain
        case.state("damage", op, st)
        name = NAMES[(case.i * 6 + _) % len(NAMES)] if isinstance(_, int) else r.choice(NAMES)
        st, m = attempt(case, op, lib.cls(name).model_validate_json, t)
        settle(case, f"{name} from damaged JSON text ({op})", st, m, say(t, 500), False, lib.cls(name))
        # YAML: whatever the YAML reader makes of it
        if r.random() < 0.5 and isinstance(t, str) and len(t) < 4000:
            try:
                y = yaml.safe_load(t)
            except (yaml.YAMLError, ValueError, RecursionError, AttributeError, TypeError, OverflowError) as e:
                case.see("yaml:unreadable")
                st, m = attempt(case, "yaml", lib.AsyncAPI3.model_validate_yaml, t)
                case.check(st in ("invalid", "crash") and (st == "invalid" or type(m) is type(e)), "yaml-outcome", lambda: f"unreadable YAML ({type(e).__name__}): {st} {say(m)}", say(t, 500))
                continue
            st, m = attempt(case, "yaml", lib.AsyncAPI3.model_validate_yaml, t)
            s2, m2 = attempt(case, "yaml", lib.AsyncAPI3.model_validate, y)
            case.check(st == s2, "yaml-outcome", lambda: f"YAML text: {st} {say(m)}, its content: {s2} {say(m2)}", say(t, 500))
            settle(case, "YAML text", st, m, say(t, 500), False)
            case.see("yaml:" + st)
    case.distinct("text", case.i)


def nesting(case):
    """Deep nesting at free-form and modelled positions, by object and by text."""
    r = case.rng
    n = r.choice([20, 60, 100, 140, 150, 190, 300, 1000, 3000])
    kind = r.choice(["list", "dict", "ref", "props"])
    x = deep(n, kind)
    d = {"info": {"title": "t", "version": "1"}}
    where = r.choice(["x-root", "x-info", "schema", "payload", "headers", "title", "tags", "servers", "components", "root", "example", "mfs", "enum", "kafka"])
    if where == "x-root":
        d["x-a"] = x
    elif where == "x-info":
        d["info"]["x-a"] = x
    elif where == "schema":
        d["components"] = {"schemas": {"s": x}}
    elif where == "payload":
        d["components"] = {"messages": {"m": {"payload": x}}}
    elif where == "headers":
        d["components"] = {"messages": {"m": {"headers": x}}}
    elif where == "title":
        d["info"]["title"] = x
    elif where == "tags":
        d["info"]["tags"] = x
    elif where == "servers":
        d["servers"] = x
    elif where == "components":
        d["components"] = x
    elif where == "example":
        d["components"] = {"messages": {"m": {"examples": [{"payload": x}]}}}
    elif where == "mfs":
        d["components"] = {"schemas": {"s": {"schemaFormat": "a", "schema": x}}}
    elif where == "enum":
        d["channels"] = {"c": {"address": "{p}", "parameters": {"p": {"enum": x}}}}
    elif where == "kafka":
        d["components"] = {"messageBindings": {"k": {"kafka": {"key": x}}}}
    else:
        d = x
    vs = some_validators(r) if r.random() < 0.6 and isinstance(d, dict) and where != "root" else None
    y = {**d, "extra_validators": vs} if vs is not None else d
    st, m = attempt(case, "nesting", lib.AsyncAPI3.model_validate, y)
    if st == "crash" and isinstance(m, RecursionError) and n > 200:  # beyond the nesting the statement covers
        case.see("open:too-deep")
        return
    settle(case, f"{n}-deep {kind} at {where}", st, m, None, n <= 60 and kind != "props" or n <= 25, vs=vs)
    if n <= 900:
        st, m = attempt(case, "nesting", lib.AsyncAPI3.model_validate_json, json.dumps(d))
        settle(case, f"{n}-deep {kind} text at {where}", st, m, None, n <= 60 and kind != "props" or n <= 25)
    if m is not None and st == "ok" and n <= 60:
        s2, e = attempt(case, "nesting", setattr, m, "id", None)
        settle(case, "assignment next to deep value", s2, m if s2 == "ok" else e, None, False)
    case.state("nesting", n, kind, where)
    case.distinct("nesting", n, kind, where)


def scale_family(r, fam, n):
    d = {"info": {"title": "t", "version": "1"}}
    if fam == "tags":
        d["info"]["tags"] = [{"name": f"t{i}", "externalDocs": {"url": "https://e.x"}} for i in range(n)]
    elif fam == "tag-refs":
        d["info"]["tags"] = [{"$ref": "#/components/tags/a"}] * n
        d["components"] = {"tags": {"a": {"name": "n"}}}
    elif fam == "schemas":
        d["components"] = {"schemas": {f"s{i}": {"type": "string", "properties": {"a": {}}} for i in range(n)}}
    elif fam == "channels":
        d["channels"] = {f"c{i}": {"address": f"a/{{p{i}}}", "parameters": {f"p{i}": {"enum": ["a"]}}, "messages": {"m": {"$ref": "#/components/messages/m"}}} for i in range(n)}
        d["components"] = {"messages": {"m": {"payload": {"type": "string"}}}}
    elif fam == "operations":
        d["channels"] = {"c": {"messages": {"m": {}}}}
        d["operations"] = {f"o{i}": {"action": "send", "channel": {"$ref": "#/channels/c"}, "messages": [{"$ref": "#/channels/c/messages/m"}]} for i in range(n)}
    elif fam == "extensions":
        d.update({f"x-{i}": i for i in range(n)})
    elif fam == "one-long-key":
        d["servers"] = {"k" * (n * 300): {"host": "h", "protocol": "p"}}
    elif fam == "bad-long-key":
        d["servers"] = {"k" * (n * 300) + "!": {"host": "h", "protocol": "p"}}
    elif fam == "long-extension":
        d["x-" + "a.-_" * (n * 80)] = 1
    elif fam == "bad-long-extension":
        d["x-" + "a.-_" * (n * 80) + "!"] = 1
    elif fam == "email":
        d["info"]["contact"] = {"email": "a.b" * (n * 100) + "@" + "x-y." * 5 + "cc"}
    elif fam == "bad-email":
        d["info"]["contact"] = {"email": "a." * (n * 100) + "@" + "x.y" * (n * 100) + "@"}
    elif fam == "dotted-email":
        d["info"]["contact"] = {"email": "a@" + "a.b" * (n * 100) + "1"}
    elif fam == "version":
        d["asyncapi"] = "3.0.0-" + "a-." * (n * 100)
    elif fam == "bad-version":
        d["asyncapi"] = "3.0.0-" + "a-" * (n * 100) + "!"
    elif fam == "digit-version":
        d["asyncapi"] = "3." + "1" * 300 + "." + "1" * (n * 10) + "x"
    elif fam == "address":
        d["channels"] = {"c": {"address": "{a" * (n * 60), "parameters": {"a": {}}}}
    elif fam == "address-braces":
        d["channels"] = {"c": {"address": "{}" * (n * 60) + "{a}", "parameters": {"a": {}}}}
    elif fam == "location":
        d["components"] = {"correlationIds": {"c": {"location": "$message." + "header#/a" * (n * 50)}}, "replyAddresses": {"r": {"location": "$message" + "/" * (n * 100)}}}
    elif fam == "bad-refs":
        d["components"] = {"messages": {f"m{i}": {"$ref": f"#/components/messages/none{i}"} for i in range(n)}}
    elif fam == "long-ref":
        d["info"]["tags"] = [{"$ref": "#/components/tags/" + "a/" * (n * 100)}]
    elif fam == "long-ref-slashes":
        d["info"]["tags"] = [{"$ref": "#" + "/" * (n * 200)}]
    elif fam == "long-ref-url":
        d["info"]["externalDocs"] = {"$ref": "https://" + "a." * (n * 200)}
    elif fam == "many-faults":
        d["servers"] = {f"s{i}": {"host": 5} for i in range(n)}
    elif fam == "security":
        d["components"] = {"securitySchemes": {f"s{i}": {"type": "oauth2", "flows": {"implicit": {"authorizationUrl": "https://e.x", "availableScopes": {"a": "b"}}}} for i in range(n)}}
        d["servers"] = {"s": {"host": "h", "protocol": "p", "security": [{"$ref": f"#/components/securitySchemes/s{i}"} for i in range(n)]}}
    elif fam == "messages":
        d["components"] = {"messages": {f"m{i}": {"payload": {"schemaFormat": "a", "schema": {}}, "correlationId": {"location": "$message.header#/a"}, "examples": [{"payload": 1}], "tags": [{"name": "a"}], "traits": [{"$ref": "#/components/messageTraits/t"}]} for i in range(n)}, "messageTraits": {"t": {}}}
    elif fam == "payload":
        d["components"] = {"messages": {"m": {"examples": [{"payload": [{"a": i} for i in range(n * 20)]}]}}}
    elif fam == "url":
        d["id"] = "urn:" + "a:" * (n * 100)
    elif fam == "reply":
        d["channels"] = {"c": {"messages": {"m": {}}}}
        d["operations"] = {f"o{i}": {"action": "send", "channel": {"$ref": "#/channels/c"}, "reply": {"channel": {"$ref": "#/channels/c"}, "messages": [{"$ref": "#/channels/c/messages/m"}], "address": {"location": "$message.header#/r"}}} for i in range(n)}
    return d


FAMILIES = ["tags", "tag-refs", "schemas", "channels", "operations", "extensions", "one-long-key", "bad-long-key", "long-extension", "bad-long-extension", "email", "bad-email", "dotted-email", "version", "bad-version", "digit-version", "address", "address-braces",
            "location", "bad-refs", "long-ref", "long-ref-slashes", "long-ref-url", "many-faults", "security", "messages", "payload", "url", "reply"]


def scale(case):
    """CPU time grows in proportion: eight times the input may cost at most thirty times the time."""
    r = case.rng
    fam = FAMILIES[case.i % len(FAMILIES)]
    vs = [None, [validators.UnifiedReferencesValidator, validators.TagsRefValidator, validators.ExternalDocsRefValidator], list(VALIDATORS)][case.i // len(FAMILIES) % 3]

    def cost(n):
        best, got = None, None
        for _ in range(2):
            d = scale_family(r, fam, n)
            if vs is not None:
                d["extra_validators"] = vs
            t = time.process_time()
            st, m = attempt(case, f"{fam} x {n}", lib.AsyncAPI3.model_validate, d)
            t = time.process_time() - t
            settle(case, f"{fam} x {n}", st, m, None, False)
            if st == "ok":
                t2 = time.process_time()
                s2, o = attempt(case, f"{fam} x {n} dump", lib.dumps, m)
                case.check(s2 == "ok", "dump-fails", f"{fam} x {n}: {say(o)}")
                t += time.process_time() - t2
            if best is None or t < best:
                best = t
            got = st
            if best < 0.01:
                break
        return best, got

    base = 60 if vs is None or case.run.tier != "quick" else 20
    t1, s1 = cost(base)
    while t1 < 0.01 and base < 4000:  # large enough for the growth to show
        base *= 4
        t1, s1 = cost(base)
    t8, s8 = cost(base * 8)
    if t8 > 30 * t1 + 0.3:  # once more before believing it
        t1, s1 = cost(base)
        t8, s8 = cost(base * 8)
    case.check(t8 <= 30 * t1 + 0.3, "too-slow", lambda: f"{fam}: {t1:.3f} s for {base}, {t8:.3f} s for {base * 8}")
    case.state("families", fam, s1, s8)
    case.see("scale")
    case.distinct("scale", fam, vs is not None)


FACTOR = 3
STAGES = {"formats": (formats, 100, 6000), "values": (values, 300, 20000), "every": (every, len(EVERY), len(EVERY) * 20), "mutants": (mutants, 900, 40000), "edges": (edge_mutants, 300, 12000), "refs": (refs, 300, 15000), "python": (python, 300, 15000), "text": (text, 120, 8000), "nesting": (nesting, 120, 6000), "lone": (lone, len(SHAPES), len(SHAPES) * 40), "scale": (scale, len(FAMILIES) * 2, len(FAMILIES) * 12)}
FLOORS = {"outcome:ok": 800, "outcome:invalid": 1500, "roundtrip": 400, "state:foreign": 60, "state:damage": 16, "state:validators": 20, "state:edits": 17, "hostile-ref:ok": 20, "hostile-ref:invalid": 100, "scale": 50, "state:nesting": 80, "validated:ok": 20, "lone:ok": 1000, "lone:invalid": 1000, "state:lone": 300, "free-names": 100, "state:formats": 200}
WORKERS = 6
