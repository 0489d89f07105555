"""A small JSON Schema (2020-12) validator, and the structural reading of the catalog it is compared with."""

import re

from rv.spec import CATALOG, is_int

ANNOTATIONS = {"title", "description", "default", "examples", "deprecated", "readOnly", "writeOnly", "$comment", "$defs", "definitions", "format", "contentMediaType", "contentEncoding", "discriminator", "$schema", "$id"}
TYPES = {
    "string": lambda v: isinstance(v, str), "boolean": lambda v: isinstance(v, bool), "null": lambda v: v is None, "object": lambda v: isinstance(v, dict), "array": lambda v: isinstance(v, list),
    "integer": lambda v: is_int(v) or isinstance(v, float) and v == int(v), "number": lambda v: isinstance(v, (int, float)) and not isinstance(v, bool),
}


def jeq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(jeq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


class Broken(Exception):
    """The schema itself is not usable."""


class Validator:
    def __init__(self, root):
        self.root, self.refs = root, {}

    def target(self, ref):
        if ref not in self.refs:
            if ref == "#":
                self.refs[ref] = self.root
                return self.root
            if not ref.startswith("#/"):
                raise Broken(f"$ref {ref!r} leaves the schema")
            x = self.root
            for s in ref[2:].split("/"):
                s = s.replace("~1", "/").replace("~0", "~")
                if not isinstance(x, dict) or s not in x:
                    raise Broken(f"$ref {ref!r} resolves to nothing")
                x = x[s]
            self.refs[ref] = x
        return self.refs[ref]

    def why(self, v, s=None, at="$"):
        """None if the value conforms, otherwise the first reason."""
        s = self.root if s is None else s
        if s is True or s == {}:
            return None
        if s is False:
            return f"{at}: nothing allowed"
        for k, x in s.items():
            if k in ANNOTATIONS:
                continue
            e = None
            if k == "$ref":
                e = self.why(v, self.target(x), at)
            elif k == "type":
                if not any(TYPES[t](v) for t in ([x] if isinstance(x, str) else x)):
                    e = f"{at}: {v!r:.60} is not {x}"
            elif k == "enum":
                if not any(jeq(v, y) for y in x):
                    e = f"{at}: {v!r:.60} not in {x}"
            elif k == "const":
                if not jeq(v, x):
                    e = f"{at}: {v!r:.60} is not {x!r}"
            elif k == "anyOf":
                es = []
                for y in x:
                    e = self.why(v, y, at)
                    if e is None:
                        break
                    es.append(e)
                else:
                    e = f"{at}: no alternative [{'; '.join(es)}]"[:600]
            elif k == "oneOf":
                n = sum(self.why(v, y, at) is None for y in x)
                if n != 1:
                    e = f"{at}: {n} alternatives"
            elif k == "allOf":
                e = next((q for q in (self.why(v, y, at) for y in x) if q), None)
            elif k == "not":
                if self.why(v, x, at) is None:
                    e = f"{at}: forbidden"
            elif k == "required":
                if isinstance(v, dict):
                    e = next((f"{at}: {y!r} missing" for y in x if y not in v), None)
            elif k == "properties":
                if isinstance(v, dict):
                    e = next((q for q in (self.why(v[y], z, f"{at}.{y}") for y, z in x.items() if y in v) if q), None)
            elif k == "patternProperties":
                if isinstance(v, dict):
                    e = next((q for p, z in x.items() for y in v if re.search(p, y) for q in [self.why(v[y], z, f"{at}.{y}")] if q), None)
            elif k == "additionalProperties":
                if isinstance(v, dict):
                    known, pats = s.get("properties", {}), s.get("patternProperties", {})
                    for y in v:
                        if y not in known and not any(re.search(p, y) for p in pats):
                            e = self.why(v[y], x, f"{at}.{y}")
                            if e:
                                break
            elif k == "propertyNames":
                if isinstance(v, dict):
                    e = next((q for q in (self.why(y, x, f"{at}<key>") for y in v) if q), None)
            elif k == "items":
                if isinstance(v, list):
                    n = len(s.get("prefixItems", []))
                    e = next((q for q in (self.why(y, x, f"{at}[{i}]") for i, y in enumerate(v) if i >= n) if q), None)
            elif k == "prefixItems":
                if isinstance(v, list):
                    e = next((q for q in (self.why(y, z, f"{at}[]") for y, z in zip(v, x)) if q), None)
            elif k in ("minLength", "maxLength"):
                if isinstance(v, str) and (len(v) < x if k == "minLength" else len(v) > x):
                    e = f"{at}: length {len(v)}, {k} {x}"
            elif k in ("minItems", "maxItems"):
                if isinstance(v, list) and (len(v) < x if k == "minItems" else len(v) > x):
                    e = f"{at}: {len(v)} items, {k} {x}"
            elif k in ("minProperties", "maxProperties"):
                if isinstance(v, dict) and (len(v) < x if k == "minProperties" else len(v) > x):
                    e = f"{at}: {len(v)} properties, {k} {x}"
            elif k == "uniqueItems":
                if x and isinstance(v, list) and any(jeq(a, b) for i, a in enumerate(v) for b in v[:i]):
                    e = f"{at}: repeated items"
            elif k == "pattern":
                if isinstance(v, str) and not re.search(x, v):
                    e = f"{at}: {v!r:.60} does not match {x!r}"
            elif k in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"):
                if TYPES["number"](v) and not {"minimum": lambda: v >= x, "maximum": lambda: v <= x, "exclusiveMinimum": lambda: v > x, "exclusiveMaximum": lambda: v < x, "multipleOf": lambda: v % x == 0}[k]():
                    e = f"{at}: {v!r:.60}, {k} {x}"
            elif k in ("if", "then", "else"):
                if k == "if":
                    branch = s.get("then" if self.why(v, x, at) is None else "else")
                    e = self.why(v, branch, at) if branch is not None else None
            elif k in ("dependentRequired",):
                if isinstance(v, dict):
                    e = next((f"{at}: {z!r} missing" for y, zs in x.items() if y in v for z in zs if z not in v), None)
            elif not k.startswith("x-"):
                raise Broken(f"{at}: unknown schema keyword {k!r}")
            if e:
                return e
        return None


def subschemas(s, path="#"):
    """Every schema inside a schema."""
    yield path, s
    if not isinstance(s, dict):
        return
    for k, v in s.items():
        if k in ("properties", "$defs", "definitions", "patternProperties"):
            for n, x in v.items():
                yield from subschemas(x, f"{path}/{k}/{n}")
        elif k in ("anyOf", "allOf", "oneOf", "prefixItems"):
            for i, x in enumerate(v):
                yield from subschemas(x, f"{path}/{k}/{i}")
        elif k in ("items", "additionalProperties", "propertyNames", "not", "if", "then", "else", "contains") and isinstance(v, dict):
            yield from subschemas(v, f"{path}/{k}")


def structural(t, v):
    """Why a value breaks the structure (types, required, enumerations, closed objects) of a catalog type, or None.

    Lenient in everything JSON Schema need not express: formats, lengths, bounds, key patterns, extension names, cross-field rules.
    """
    k = t[0]
    if k == "any":
        return None
    if k in ("str", "email", "url"):
        return None if isinstance(v, str) else f"not a string: {v!r:.60}"
    if k == "bool":
        return None if isinstance(v, bool) else f"not a boolean: {v!r:.60}"
    if k == "int":
        return None if TYPES["integer"](v) else f"not an integer: {v!r:.60}"
    if k == "lit":
        return None if any(jeq(v, x) for x in t[1:]) else f"not allowed: {v!r:.60}"
    if k == "ref":
        if not isinstance(v, dict):
            return "not an object"
        if "ref" in v:
            return None
        return None if set(v) == {"$ref"} and isinstance(v["$ref"], str) else "not a reference"
    if k == "list":
        if not isinstance(v, list):
            return f"not a list: {v!r:.60}"
        return next((e for e in (structural(t[1], x) for x in v) if e), None)
    if k == "map":
        if not isinstance(v, dict):
            return f"not an object: {v!r:.60}"
        return next((e for e in (structural(t[1], x) for x in v.values()) if e), None)
    if k == "union":
        es = [structural(a, v) for a in t[1:]]
        return None if None in es else "no alternative: " + "; ".join(es)[:300]
    c = CATALOG[t[1]]
    if not isinstance(v, dict):
        return f"{t[1]}: not an object: {v!r:.60}"
    if c["kind"] == "patterned":
        return next((e for e in (structural(c["item"], x) for x in v.values()) if e), None)
    for f in c["fields"]:
        j = f["json"]
        if j in v:
            if v[j] is None and f.get("null"):
                continue
            e = structural(f["type"], v[j])
            if e:
                return f"{t[1]}.{j}: {e}"
        elif f.get("req") and f["py"] not in v:
            return f"{t[1]}.{j} missing"
    if c["kind"] == "closed":
        for x in v:
            if x not in c["by_json"] and x not in c["py_only"]:
                return f"{t[1]}: unknown {x!r}"
    return None
