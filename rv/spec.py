"""Executable reference model of the AsyncAPI 3 object model.

The data is `catalog.json` (148 object types, 463 fields: JSON name, Python name, type,
bounds, default, extension policy), reviewed by hand and frozen.  Nothing here looks at
the code under test: `interpret` decides from the catalog alone whether a JSON value is
a conforming object and what its canonical serialisation is.

Verdicts are three-valued: "ok", "bad" and "gray" (the statement says nothing: lax
coercions, Python names used as JSON names, boolean schemas, ...).
"""

import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "catalog.json")) as fh:
    CATALOG = json.load(fh)

for _name, _c in CATALOG.items():
    if _c["kind"] != "patterned":
        _c["by_json"] = {f["json"]: f for f in _c["fields"]}
        _c["py_only"] = {f["py"] for f in _c["fields"]} - set(_c["by_json"])

EXT_OK = re.compile(r"x-[A-Za-z0-9_.\-]+\Z")
EXT_GRAY = re.compile(r"x-[\w.\-]+\Z")
KEY_OK = re.compile(r"[A-Za-z0-9_\-]+\Z")
EMAIL_OK = re.compile(r"[a-zA-Z0-9._%+\-]+@[a-zA-Z0-9.\-]+\.[a-zA-Z]{2,}\Z")
VERSION_OK = re.compile(r"3\.[0-9]+\.[0-9]+(-[A-Za-z0-9_.\-]+)?\Z")
VERSION_ANY = re.compile(r"[0-9]+\.[0-9]+\.[0-9]+(-[\w.\-]+)?\Z")
ADDRESS_EXPR = re.compile(r"\{[^}]+\}")

OK, BAD, GRAY = "ok", "bad", "gray"


class Verdict:
    __slots__ = ("canon", "cls", "status", "why")

    def __init__(self, status, canon=None, why="", cls=None):
        self.status, self.canon, self.why, self.cls = status, canon, why, cls

    def __repr__(self):
        return f"<{self.status} {self.why}>"


def bad(why):
    return Verdict(BAD, why=why)


def gray(why):
    return Verdict(GRAY, why=why)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


# ---------------------------------------------------------------- URL normal forms
# Curated (input -> serialised form, kind) pairs; other URLs are outside the oracle.
URLS = {}


def _load_urls():
    any_same = [
        "urn:example:com:smartylighting:streetlights:server", "urn:a:b", "https://example.com/",
        "https://example.com/docs", "http://example.com/a/b?c=d&e=f#frag", "mailto:x@y.zz",
        "ftp://files.example.org/pub/x.txt", "https://example.com/%7Efoo", "tag:example.com,2020:x",
        "https://user:pw@example.com/p", "https://[::1]/x", "http://127.0.0.1:8080/x",
        "https://example.com/?q=%20a", "mqtt://broker.example.com:1883", "custom+x://h/p",
        "https://example.com/a//b", "https://sub.domain.example.co.uk/path;v=1",
    ]
    for u in any_same:
        URLS[u] = (u, "http" if u.startswith("http") else "any")
    # Long addresses: only the http(s)-typed fields carry a length limit (2083 characters).
    URLS["https://example.com/" + "a" * 1980] = ("https://example.com/" + "a" * 1980, "http")
    for u in ("urn:" + "a:b" * 1000, "mqtt://broker.example.com/" + "q" * 2500):
        URLS[u] = (u, "any")
    for u, n in {
        "https://example.com": "https://example.com/",
        "http://example.com:80/x": "http://example.com/x",
        "https://example.com:443": "https://example.com/",
        "HTTPS://EXAMPLE.com/Path": "https://example.com/Path",
        "https://example.com?a=1": "https://example.com/?a=1",
        "https://example.com#f": "https://example.com/#f",
        "https://example.com/a b": "https://example.com/a%20b",
    }.items():
        URLS[u] = (n, "http")


_load_urls()
# http and https addresses in plain form: written back as given, less a default port, with a path of at least "/".
PLAIN_URL = re.compile(r"(?P<scheme>https?)://(?P<user>[a-z0-9]+(:[a-z0-9]+)?@)?(?P<host>([a-z0-9]+(-[a-z0-9]+)*\.)*[a-z]+(-[a-z]+)*)(:(?P<port>[1-9][0-9]{0,4}))?"
                       r"(?P<path>(/[A-Za-z0-9._~-]*)+)?(?P<tail>(\?[A-Za-z0-9=&._-]*)?(#[A-Za-z0-9._-]*)?)")
BAD_URLS = ["", "not a url", "://x", "example.com", "/relative/path", "http://", "https://exa mple.com", "1http://x"]


def canon_url(kind, v):
    if not isinstance(v, str):
        return bad("url not a string")
    if v in URLS:
        n, k = URLS[v]
        if kind == "http" and k != "http":
            return bad("scheme not http(s)")
        return Verdict(OK, n)
    if v in BAD_URLS:
        return bad("not a URL")
    x = PLAIN_URL.fullmatch(v)
    if x and len(v) < 2000 and 0 < int(x["port"] or 1) < 65536 and not any(s in (".", "..") for s in (x["path"] or "").split("/")):
        port = "" if {"http": "80", "https": "443"}[x["scheme"]] == x["port"] else ":" + x["port"] if x["port"] else ""
        return Verdict(OK, f"{x['scheme']}://{x['user'] or ''}{x['host']}{port}{x['path'] or '/'}{x['tail'] or ''}")
    return gray("unlisted url")


# ---------------------------------------------------------------- cross-field rules
def _r_security(o):
    t, in_ = o.get("type"), o.get("in")
    if t == "apiKey" and in_ not in ("user", "password"):
        return "apiKey in"
    if t == "httpApiKey" and (o.get("name") is None or in_ not in ("query", "header", "cookie")):
        return "httpApiKey name/in"
    if t == "http" and o.get("scheme") is None:
        return "http scheme"
    if o.get("bearerFormat") is not None and not (t == "http" and o.get("scheme") == "bearer"):
        return "bearerFormat"
    if t == "oauth2" and o.get("flows") is None:
        return "oauth2 flows"
    if t == "openIdConnect" and o.get("openIdConnectUrl") is None:
        return "openIdConnectUrl"
    if o.get("scopes") is not None and t not in ("oauth2", "openIdConnect"):
        return "scopes"
    return None


def _r_flows(o):
    need = {
        "implicit": ("authorizationUrl",), "password": ("tokenUrl",),
        "clientCredentials": ("tokenUrl",), "authorizationCode": ("authorizationUrl", "tokenUrl"),
    }
    for f, urls in need.items():
        if o.get(f) is not None:
            for u in urls:
                if o[f].get(u) is None:
                    return f"{f} needs {u}"
    return None


def _r_channel(o):
    if o.get("parameters") is None:
        return None
    if o.get("address") is None:
        return "parameters without address"
    if not ADDRESS_EXPR.search(o["address"]):
        return "parameters without address expression"
    return None


def _r_example(o):
    return None if o.get("headers") is not None or o.get("payload") is not None else "empty example"


def _r_corr(o):
    return None if o["location"].startswith("$message.") else "location"


def _r_amqp(o):
    need, other = ("queue", "exchange") if o["is"] == "queue" else ("exchange", "queue")
    if o.get(need) is None:
        return f"{need} required"
    if o.get(other) is not None:
        return f"{other} not allowed"
    return None


def _r_ibm_channel(o):
    if o.get("queue") is not None and o.get("topic") is not None:
        return "queue and topic"
    if o["destinationType"] == "queue" and o.get("queue") is None:
        return "queue required"
    return None


def _r_ibm_message(o):
    return "headers" if o["type"] in ("string", "jms") and o.get("headers") is not None else None


def _r_kafka_server(o):
    if o.get("schemaRegistryVendor") is not None and o.get("schemaRegistryUrl") is None:
        return "vendor without url"
    return None


def _r_solace(o):
    need, other = ("queue", "topic") if o["destinationType"] == "queue" else ("topic", "queue")
    if o.get(need) is None:
        return f"{need} required"
    if o.get(other) is not None:
        return f"{other} not allowed"
    return None


def _r_version(o):
    v = o["asyncapi"]
    if VERSION_OK.match(v):
        return None
    if re.match(r"0+3\.", v) and VERSION_ANY.match(v):
        return GRAY
    if VERSION_ANY.match(v) and v.startswith("3."):
        return GRAY  # non-ASCII word characters in the suffix
    return "version"


def _r_contact(o):
    return None


RULES = {
    "SecurityScheme": _r_security, "OAuthFlows": _r_flows, "Channel": _r_channel,
    "MessageExample": _r_example, "CorrelationID": _r_corr, "AMQPChannelBindings": _r_amqp,
    "IBMMQChannelBindings": _r_ibm_channel, "IBMMQMessageBindings": _r_ibm_message,
    "KafkaServerBindings": _r_kafka_server, "SolaceDestination": _r_solace,
    "AsyncAPI3": _r_version,
}


# ---------------------------------------------------------------- interpreter
def interpret(t, v):
    k = t[0]
    if k == "any":
        return Verdict(OK, v)
    if k == "str":
        if not isinstance(v, str):
            return bad("not a string")
        if len(t) > 1 and len(v) > t[1]:
            return bad("too long")
        return Verdict(OK, v)
    if k == "email":
        if not isinstance(v, str):
            return bad("not a string")
        return Verdict(OK, v) if EMAIL_OK.match(v) and ".." not in v else bad("not an email")
    if k == "url":
        return canon_url(t[1], v)
    if k == "bool":
        if isinstance(v, bool):
            return Verdict(OK, v)
        if isinstance(v, (list, dict)) or v is None:
            return bad("not a boolean")
        if is_int(v):
            return gray("int as bool") if v in (0, 1) else bad("not a boolean")
        if isinstance(v, float):
            return gray("float as bool")
        return gray("str as bool") if v.strip().lower() in (
            "0", "1", "t", "f", "y", "n", "yes", "no", "on", "off", "true", "false") else bad("not a boolean")
    if k == "int":
        if is_int(v):
            if len(t) > 1 and ((t[1] is not None and v < t[1]) or (t[2] is not None and v > t[2])):
                return bad("out of range")
            return Verdict(OK, v)
        if isinstance(v, bool):
            return gray("bool as int")
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")) or v != int(v):
                return bad("fractional")
            if len(t) > 1 and ((t[1] is not None and v < t[1]) or (t[2] is not None and v > t[2])):
                return bad("out of range, whichever way the number is read")
            return gray("float as int")
        if isinstance(v, str):
            if not re.fullmatch(r"[+-]?(0+-)?[\d_]+(\.\d*)?([eE][+-]?\d+)?", v.strip()):
                return bad("not an integer")
            if re.fullmatch(r"-?[0-9]{1,30}", v) and len(t) > 1 and (
                    (t[1] is not None and int(v) < t[1]) or (t[2] is not None and int(v) > t[2])):
                return bad("out of range, whichever way the text is read")
            return gray("str as int")
        return bad("not an integer")
    if k == "lit":
        for x in t[1:]:
            if type(x) is type(v) and x == v:
                return Verdict(OK, v)
        if isinstance(v, (bool, float)) and any(not isinstance(x, str) and x == v for x in t[1:]):
            return gray("numeric literal")
        return bad("not an allowed value")
    if k == "ref":
        return interpret_ref(v)
    if k == "list":
        if not isinstance(v, list):
            return bad("not a list")
        return seq([interpret(t[1], x) for x in v])
    if k == "map":
        if not isinstance(v, dict):
            return bad("not an object")
        rs = [interpret(t[1], x) for x in v.values()]
        r = seq(rs)
        return Verdict(OK, dict(zip(v, r.canon))) if r.status == OK else r
    if k == "obj":
        return interpret_obj(t[1], v)
    if k == "union":
        return interpret_union(t[1:], v)
    raise AssertionError(t)


def seq(rs):
    g = None
    for r in rs:
        if r.status == BAD:
            return r
        if r.status == GRAY:
            g = r
    return g or Verdict(OK, [r.canon for r in rs])


def interpret_ref(v):
    if not isinstance(v, dict):
        return bad("not an object")
    if set(v) == {"$ref"}:
        return Verdict(OK, dict(v), cls="Reference") if isinstance(v["$ref"], str) else bad("$ref not a string")
    if "ref" in v:
        return gray("ref by name")
    return bad("not a reference object")


def interpret_obj(name, v):
    c = CATALOG[name]
    if not isinstance(v, dict):
        return bad(f"{name}: not an object")
    if c["kind"] == "patterned":
        for key in v:
            if not KEY_OK.match(key):
                return bad(f"{name}: key {key!r}")
        r = seq([interpret(c["item"], x) for x in v.values()])
        return Verdict(OK, dict(zip(v, r.canon)), cls=name) if r.status == OK else r
    out, g = {}, None
    for f in c["fields"]:
        j = f["json"]
        if j in v:
            x = v[j]
            if x is None and f.get("null"):
                if f["type"][0] == "any" or "default" in f:
                    g = g or gray("explicit null")
                if f.get("emit") == "always":
                    out[j] = None
                continue
            r = interpret(f["type"], x)
            if r.status == BAD:
                return bad(f"{name}.{j}: {r.why}")
            if r.status == GRAY:
                g = r
            out[j] = r.canon
        elif f["py"] != j and f["py"] in v:
            g = gray("by name")
        elif f.get("req"):
            return bad(f"{name}.{j}: missing")
        elif "default" in f:
            out[j] = f["default"]
        elif f.get("emit") == "always":
            out[j] = None
    for key in v:
        if key in c["by_json"]:
            continue
        if key in c["py_only"]:
            g = gray("by name")
        elif c["kind"] == "free":
            out[key] = v[key]
        elif c["kind"] == "ext" and EXT_OK.match(key):
            out[key] = v[key]
        elif c["kind"] == "ext" and EXT_GRAY.match(key):
            g = gray("non-ASCII extension name")
        else:
            return bad(f"{name}: unknown field {key!r}")
    if g:
        return g
    rule = RULES.get(name)
    if rule:
        why = rule(out)
        if why == GRAY:
            return gray(name)
        if why:
            return bad(f"{name}: {why}")
    return Verdict(OK, out, cls=name)


def interpret_union(alts, v):
    kinds = [a[0] for a in alts]
    objs = [a for a in alts if a[0] == "obj"]
    if isinstance(v, dict) and "ref" in kinds:
        free = any(CATALOG[a[1]]["kind"] == "free" for a in objs)
        if set(v) == {"$ref"}:
            if isinstance(v["$ref"], str):
                return Verdict(OK, dict(v), cls="Reference")
            return gray("$ref not a string") if free else bad("$ref not a string")
        if "ref" in v and len(v) == 1:
            return gray("ref by name")
        if "$ref" in v and free:
            return gray("$ref with siblings")
        names = [a[1] for a in objs]
        if "map" in kinds:  # kafka key: Schema | Reference | free-form object
            if "externalDocs" in v or "discriminator" in v or "deprecated" in v or "external_docs" in v:
                return gray("schema or mapping")
            return Verdict(OK, v)
        if "MultiFormatSchema" in names:
            if "schema" in v:
                if set(v) <= {"schema", "schemaFormat"} and isinstance(v.get("schemaFormat", ""), str):
                    return interpret_obj("MultiFormatSchema", v)
                return gray("multi format schema with siblings")
            if "schemaFormat" in v:
                return gray("schemaFormat without schema")
            return interpret_obj("Schema", v)
        return interpret_obj(names[0], v)
    if isinstance(v, bool) and any(a == ["obj", "Schema"] for a in alts):
        return gray("boolean schema")
    rs = [interpret(a, v) for a in alts]
    for r in rs:
        if r.status == OK:
            return r
    for r in rs:
        if r.status == GRAY:
            return r
    return bad("no alternative: " + "; ".join(r.why for r in rs)[:200])


# ---------------------------------------------------------------- live object walk
def scalar_eq(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def deep_eq(a, b):
    """Equality of plain JSON data that tells True from 1 and checks map order."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return isinstance(a, bool) == isinstance(b, bool) and isinstance(a, float) == isinstance(b, float) and a == b and (a != 0 or str(a) == str(b))
    return type(a) is type(b) and a == b


def first_diff(a, b, path="$"):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: missing, expected {a[k]!r:.80}"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}.{k}: unexpected {b[k]!r:.80}"
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(b)}, expected {len(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if deep_eq(a, b) else f"{path}: {b!r:.80}, expected {a!r:.80}"


def walk_live(t, canon, live, path="$"):
    """Compare a live object with its canonical document through public attributes only.

    Returns a description of the first disagreement, or None.
    """
    k = t[0]
    if k == "any":
        return None if deep_eq(canon, live) else f"{path}: {live!r:.80} != {canon!r:.80}"
    if k in ("str", "email"):
        return None if isinstance(live, str) and live == canon else f"{path}: {live!r:.80} != {canon!r:.80}"
    if k == "url":
        return None if str(live) == canon else f"{path}: {live!r:.80} != {canon!r:.80}"
    if k in ("bool", "int", "lit"):
        return None if type(live) is type(canon) and live == canon else f"{path}: {live!r:.80} != {canon!r:.80}"
    if k == "ref":
        if type(live).__name__ != "Reference" or live.ref != canon["$ref"]:
            return f"{path}: {live!r:.80} is not Reference({canon['$ref']!r:.60})"
        return None
    if k == "list":
        if not isinstance(live, list) or len(live) != len(canon):
            return f"{path}: {type(live).__name__} {live!r:.80}"
        for i, (c, l) in enumerate(zip(canon, live)):
            d = walk_live(t[1], c, l, f"{path}[{i}]")
            if d:
                return d
        return None
    if k == "map":
        if not isinstance(live, dict) or list(live) != list(canon):
            return f"{path}: {type(live).__name__} {live!r:.80}"
        for key in canon:
            d = walk_live(t[1], canon[key], live[key], f"{path}.{key}")
            if d:
                return d
        return None
    if k == "union":
        if isinstance(canon, dict) and ["ref"] in t and set(canon) == {"$ref"}:
            return walk_live(["ref"], canon, live, path)
        kinds = [a[0] for a in t[1:]]
        if isinstance(canon, dict) and "obj" in kinds:
            names = [a[1] for a in t[1:] if a[0] == "obj"]
            if "map" in kinds:
                return None  # Schema or mapping: not specified
            if "MultiFormatSchema" in names:
                return walk_live(["obj", "MultiFormatSchema" if "schema" in canon else "Schema"], canon, live, path)
            return walk_live(["obj", names[0]], canon, live, path)
        errs = [walk_live(a, canon, live, path) for a in t[1:] if compatible(a, canon)]
        return None if any(e is None for e in errs) else (errs[0] if errs else f"{path}: {live!r:.80}")
    if k == "obj":
        c = CATALOG[t[1]]
        from rv import lib  # not at the top: lib imports this module

        if type(live) is not lib.cls(t[1]):
            return f"{path}: is a {type(live).__name__}, expected {c['class']}"
        if c["kind"] == "patterned":
            if list(live) != list(canon) or len(live) != len(canon):
                return f"{path}: keys {list(live)!r:.80} != {list(canon)!r:.80}"
            for key in canon:
                if key not in live:
                    return f"{path}.{key}: missing"
                d = walk_live(c["item"], canon[key], live[key], f"{path}.{key}")
                if d:
                    return d
            return None
        for f in c["fields"]:
            try:
                v = getattr(live, f["py"])
            except AttributeError:
                return f"{path}: no attribute {f['py']}"
            j = f["json"]
            if j in canon and canon[j] is not None:
                d = walk_live(f["type"], canon[j], v, f"{path}.{f['py']}")
                if d:
                    return d
            elif v is not None:
                return f"{path}.{f['py']}: {v!r:.80}, expected None"
        if c["kind"] != "closed":
            extra = live.model_extra or {}
            want = {key: x for key, x in canon.items() if key not in c["by_json"]}
            d = first_diff(want, dict(extra), f"{path}<extra>")
            if d:
                return d
        return None
    raise AssertionError(t)


def compatible(t, canon):
    return {
        "str": isinstance(canon, str), "email": isinstance(canon, str), "url": isinstance(canon, str),
        "bool": isinstance(canon, bool), "int": is_int(canon), "lit": True,
        "list": isinstance(canon, list), "map": isinstance(canon, dict), "any": True,
    }.get(t[0], isinstance(canon, dict))


def type_of(name):
    return ["obj", name]
