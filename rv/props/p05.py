"""P05: every way of building a document agrees (differential monitor over entry points)."""

import datetime
import json

import yaml

from rv import gen, lib, yamlw
from rv.spec import CATALOG, deep_eq, interpret
from rv.util import ROOT, T, build, cover, rand_doc, rand_instance, NAMES

RULE = ("a case feeds one document (conforming or faulty per the oracle) through all entry points; a case is non-trivial when at least "
        "six entry points were compared; distinct documents counted")

YAML_STYLES = [dict(sort_keys=False, allow_unicode=True), dict(sort_keys=False, allow_unicode=False, default_flow_style=True),
               dict(sort_keys=True, default_flow_style=False, width=20), dict(sort_keys=False, default_style='"'),
               dict(sort_keys=False, explicit_start=True, indent=4)]


def routes(case, name, d):
    """(label, thunk) for each entry point of the model."""
    c, r = lib.cls(name), case.rng
    yield "dict", lambda: c.model_validate(gen.jx(d))
    txt = json.dumps(d, ensure_ascii=r.random() < 0.5, indent=r.choice([None, 2]))
    yield "json-str", lambda: c.model_validate_json(txt)
    yield "json-bytes", lambda: c.model_validate_json(txt.encode("utf-8"))
    yield "json-bytearray", lambda: c.model_validate_json(bytearray(txt.encode("utf-8")))
    odd = escaped(r, d)
    if deep_eq(json.loads(odd), d):
        yield "json-escaped", lambda: c.model_validate_json(odd)
        yield "json-escaped-bytes", lambda: c.model_validate_json(("\n " + odd + "\t\n").encode())
    if isinstance(d, dict) and all(isinstance(k, str) for k in d):
        if CATALOG[name]["kind"] != "patterned":
            if "self" not in d:
                yield "kwargs", lambda: c(**gen.jx(d))
                py = {(CATALOG[name]["by_json"][k]["py"] if k in CATALOG[name]["by_json"] else k): v for k, v in d.items()}
                if len(py) == len(d) and "self" not in py:
                    yield "python-kwargs", lambda: c(**gen.jx(py))
        else:
            yield "positional", lambda: c(gen.jx(d))
            yield "root-kwarg", lambda: c(root=gen.jx(d))
    if name == ROOT:
        texts = []
        try:
            y = yaml.safe_dump(d, **r.choice(YAML_STYLES))
            if deep_eq(yaml.safe_load(y), d):
                texts.append(("yaml", y))
        except (yaml.YAMLError, ValueError):
            pass
        if deep_eq(load_yaml(txt), d):
            texts.append(("json-as-yaml", txt))
        hand = list(yamlw.texts(r, d, 2))
        texts += [("hand-written-yaml", y) for y in hand]
        for label, y in texts:
            yield label, lambda y=y: c.model_validate_yaml(y)
            case.see("yaml-route")
            for enc, b in yamlw.encodings(r, y):
                if enc == "utf-8" or r.random() < 0.4 and same_yaml(b, d):
                    yield f"{label}-bytes-{enc}", lambda b=b: c.model_validate_yaml(b)
        for y in hand:
            case.counts["yaml-tabs"] += "\t" in y
            case.counts["yaml-anchors"] += " *a1" in y
            case.counts["yaml-crlf"] += "\r\n" in y


def same_yaml(b, d):
    return deep_eq(load_yaml(b), d)


def escaped(r, x):
    """JSON text with unusual but equivalent spelling."""
    if isinstance(x, dict):
        items = [f"{escaped(r, k)}{sp(r)}:{sp(r)}{escaped(r, v)}" for k, v in x.items()]
        return "{" + sp(r) + f"{sp(r)},{sp(r)}".join(items) + sp(r) + "}"
    if isinstance(x, list):
        return "[" + sp(r) + f"{sp(r)},{sp(r)}".join(escaped(r, v) for v in x) + sp(r) + "]"
    if isinstance(x, str):
        out = []
        for c in x:
            y = r.random()
            if y < 0.15 or c < " " or c in '"\\':
                out += [f"\\u{int.from_bytes(u, 'big'):04{'xX'[r.random() < 0.5]}}" for u in units(c)]
            elif c == "/" and y < 0.5:
                out.append("\\/")
            else:
                out.append(c)
        return '"' + "".join(out) + '"'
    if isinstance(x, float) and x == int(x) and abs(x) < 1e15:
        return r.choice([json.dumps(x), f"{x:e}", f"{x:E}", f"{int(x)}.000", f"{int(x)}.0e+0"])
    return json.dumps(x)


def units(c):
    b = c.encode("utf-16-be")
    return [b[i : i + 2] for i in range(0, len(b), 2)]


def sp(r):
    return r.choice(["", "", " ", "\n", "\t", "\r\n  "])


def load_yaml(t):
    try:
        return yaml.safe_load(t)
    except (yaml.YAMLError, ValueError):
        return object()


def compare(case, name, d, v):
    results = []
    for label, fn in routes(case, name, d):
        st, m = lib.attempt(fn)
        results.append((label, st, m))
        case.see("route:" + label)
        case.check(st != "crash", "wrong-exception", lambda: f"{name} via {label}: {type(m).__name__}: {m}"[:900], d)
        case.check((st == "ok") == (v.status == "ok"), "entry-point-disagrees", lambda: f"{name} via {label}: {st}, oracle {v.status} {v.why}; {m!s:.400}", d)
    if v.status == "ok":
        for how in (0.0, 0.5):
            st, m = lib.attempt(lambda: build(case.rng, T(name), d, raw=how))
            case.see("route:assembled")
            case.check(st == "ok", "entry-point-disagrees", lambda: f"{name} assembled from objects: {st} {m}"[:900], d)
            results.append((f"assembled{how}", st, m))
        _, _, first = results[0]
        ref = lib.dumps(first)
        case.check(deep_eq(json.loads(ref), v.canon), "dump-differs", "dict route dump differs from oracle", d)
        for label, _st, m in results[1:]:
            case.check(m == first and first == m, "entry-points-not-equal", lambda: f"{name}: dict and {label} give unequal models", d)
            case.check(json.loads(lib.dumps(m)) == json.loads(ref), "entry-point-dumps-differ", lambda: f"{name}: dict and {label} dump differently", d)
    case.distinct(name, d)
    case.see("documents:" + v.status)


def docs(case):
    d, _ = rand_doc(case)
    if d is None:
        return
    cover(case, T(ROOT), d)
    compare(case, ROOT, d, interpret(T(ROOT), d))
    case.sample(d)


def faulty(case):
    d, _ = rand_doc(case)
    if d is None:
        return
    d, _ = gen.mutate(case.rng, T(ROOT), d)
    v = interpret(T(ROOT), d)
    if v.status == "bad":
        compare(case, ROOT, d, v)


def instances(case):
    name = NAMES[case.i % len(NAMES)]
    x, _ = rand_instance(case, name)
    if x is None:
        return
    compare(case, name, x, interpret(T(name), x))
    y, _ = gen.mutate(case.rng, T(name), gen.jx(x))
    v = interpret(T(name), y)
    if v.status == "bad":
        compare(case, name, y, v)


MEMBERS = [".common", ".x", "_x", "$schema", "$id", "$comment", "//", "#", "@type", "<<", "=", "x", "x-", "X-A", "x_common", "anchors", "definitions", "", " ", "-", "null", "info ", "Info", "__root__", "root",
           "extra_fields", "version", "openapi", "swagger", "a.b", "a/b", "a b", "\u00e9", "1", "0", "true", "1.0"]
KEYS = [1, 0, -1, 10**20, 1.5, 1.0, True, False, None, datetime.date(2020, 1, 1), (1, 2), b"a"]


def spread(x, p=()):
    """Every object of a JSON value with its path."""
    if isinstance(x, dict):
        yield p, x
    for k, y in x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ():
        yield from spread(y, (*p, k))


def members(case):
    """One more member somewhere, with a name that helper entries of YAML files or unquoted scalars would have."""
    r = case.rng
    d, _ = rand_doc(case)
    if d is None:
        return
    spots = [p for p, x in spread(d) if "$ref" not in x]
    for _ in range(3):
        p = () if r.random() < 0.3 else r.choice(spots)
        x = gen.jx(d)
        at = gen.get_at(x, p)
        val = gen.jx(r.choice([{}, {"a": 1}, [], "a", 1, None, {"$ref": "#/components/schemas/a"}, *list(at.values())[:2]]))
        how = r.random()
        if how < 0.5:
            if how < 0.15:  # an empty member, as "channels:" without a value gives
                c = r.choice([list(at), ["servers", "channels", "operations", "components", "id", "info", "defaultContentType"] if not p else ["description", "tags", "bindings", "title", "messages"]])
                if not c:
                    continue
                at[r.choice(c)] = None if r.random() < 0.7 else r.choice(["", [], {}, False, 0])
                case.see("emptied-members")
            else:
                at[r.choice(MEMBERS) if how < 0.35 else r.choice(gen.POPULAR_EXT)] = val
            v = interpret(T(ROOT), x)
            if v.status in ("ok", "bad"):
                compare(case, ROOT, x, v)
                case.see("odd-members")
            continue
        # names that are not text: JSON has none, so the dict and the YAML text are compared
        k = r.choice(KEYS)
        at[k] = val
        try:
            text = yaml.safe_dump(x, **r.choice([YAML_STYLES[0], YAML_STYLES[1], YAML_STYLES[4]]))
            if not deep_eq(yaml.safe_load(text), x):
                raise ValueError
        except (yaml.YAMLError, ValueError, TypeError):
            case.see("odd-keys:no-yaml")
            continue
        st, m = lib.attempt(lib.AsyncAPI3.model_validate, x)
        s2, m2 = lib.attempt(lib.AsyncAPI3.model_validate_yaml, text)
        s3, m3 = lib.attempt(lib.AsyncAPI3.model_validate_yaml, text.encode())
        for s, e in ((st, m), (s2, m2), (s3, m3)):
            case.check(s != "crash", "wrong-exception", lambda: f"member named {k!r} at {p}: {type(e).__name__}: {e!s:.300}", text)
        case.check(st == s2 == s3, "entry-point-disagrees", lambda: f"member named {k!r} at {p}: dict {st}, YAML text {s2}, YAML bytes {s3}: {[str(e)[:200] for e in (m, m2, m3)]}", text)
        if st == "ok":
            case.check(m == m2 == m3, "entry-points-not-equal", lambda: f"member named {k!r} at {p}: dict and YAML give unequal models", text)
        case.see("odd-keys:" + st)
        case.distinct("member", repr(k), p, d)


def texts(case):
    """Notable texts, in values and in free names, through every entry point: what a preprocessor of one syntax would take for its own."""
    r = case.rng
    k = len(gen.SHORT_TEXTS)
    s = lambda j: gen.SHORT_TEXTS[(case.i * 5 + j) % k] if j < 5 else r.choice(gen.SHORT_TEXTS)  # noqa: E731
    d = {"info": {"title": s(0), "version": s(1), "description": s(2)}, "x-a": [s(3), s(5), {s(4): s(6), s(7): [s(8)]}],
         "components": {"schemas": {"a": {"type": "object", "properties": {s(9): {"const": s(3)}}}}, "messages": {"m": {"payload": {"enum": [s(0), s(4)]}, "summary": s(10)}}}}
    v = interpret(T(ROOT), d)
    if v.status in ("ok", "bad"):
        compare(case, ROOT, d, v)
        case.see("texts:" + v.status)


FACTOR = 2
STAGES = {"docs": (docs, 160, 8000), "faulty": (faulty, 200, 8000), "instances": (instances, len(NAMES) * 10, len(NAMES) * 250), "members": (members, 70, 6000), "texts": (texts, 60, 3000)}
FLOORS = {"texts:ok": 50, "route:yaml": 150, "route:json-as-yaml-bytes-utf-8": 100, "route:hand-written-yaml": 250, "route:hand-written-yaml-bytes-utf-16-le": 60, "yaml-tabs": 20, "yaml-anchors": 4, "route:json-escaped": 1500, "route:kwargs": 800, "route:python-kwargs": 800, "route:assembled": 1500,
          "documents:ok": 1300, "documents:bad": 600}
