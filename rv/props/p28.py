"""P28: references compare and hash by their string alone."""

import copy
import json
import os
import pickle
import subprocess
import sys
import unicodedata

from pydantic import BaseModel, Field, RootModel

from rv import embed, gen, lib
from rv.gen import Gen, jx
from rv.refs import consistent_doc, live_at, ref_sites, site_doc
from rv.util import NAMES, build, rand_doc, rand_instance, T

RULE = ("a case builds a population of references over near-identical strings by many routes (keyword, alias, parsing, factories, documents, copies, pickles, assignment, validation runs), and compares every pair and "
        "every set/dict operation with the same operation on plain strings")

BASES = ["#/components/schemas/a", "#/channels/a/messages/b", "#/components/tags/x", "https://example.com/a.yaml#/b", "", "#", "#/", "./x.json", "a b", "é", "#/servers/prod", "1", "None",
         "#/components/messages/" + "k" * 300, "日本語/x", "🙂", "ﬁ", "ß", "İ", "a\u200b", "x" * 5000, "\x00", " ", "$ref", "ref", "#/components/schemas/A"]


def near(r, s):
    """Strings a sloppy comparison would confuse with s."""
    out = [s + " ", " " + s, s + "\n", s + "/", "/" + s, s.upper(), s.lower(), s.swapcase(), s.casefold(), s + "\x00", s + "\u200b", unicodedata.normalize("NFD", s), unicodedata.normalize("NFC", s),
           unicodedata.normalize("NFKC", s), s.replace("/", "~1"), s.replace("#/", "#"), s.replace("#/", "/"), s.lstrip("#/"), s.replace("/", "//"), s.replace(" ", "%20"), s.replace("https", "http"), s.replace("https", "HTTPS"),
           s.replace("components/", ""), s[::-1], s[:-1], s[1:], s + s, s.replace("a", "%61"), s.rsplit("/", 1)[-1], s.split("#")[-1], s.split("#")[0], "#" + s, repr(s), s + "0", s.rstrip("0123456789"), s.replace("_", "-"), s.replace("/", "\\")]
    return r.choice(out)


FACTORIES = {"#/servers/": "to_root_server_name", "#/channels/": "to_root_channel_name", "#/components/schemas/": "to_component_schema_name", "#/components/tags/": "to_component_tag_name",
             "#/components/messages/": "to_component_message_name", "#/components/securitySchemes/": "to_component_security_scheme_name", "#/operations/": "to_root_operation_name"}
TAGDOC = {"info": {"title": "t", "version": "1"}}


def route(case, s):
    """One reference with string s, and the name of the route."""
    r = case.rng
    R = lib.Reference
    fac = next((f for p, f in FACTORIES.items() if s.startswith(p)), None)
    how = r.choice(["keyword", "alias", "validate", "validate-name", "json", "copy", "deepcopy", "model_copy", "model_copy-deep", "update", "pickle", "assign", "assign-twice", "rejected-assign", "tag", "kwarg-live", "doc", "yaml",
                    "construct", "construct-unset", "construct-copy", "copy-unset", "construct-assign", "dump-load", "hashed", "revalidated", "mapping-item"] + (["factory"] * 6 if fac else []))
    if how == "keyword":
        m = R(ref=s)
    elif how == "alias":
        m = R(**{"$ref": s})
    elif how == "validate":
        m = R.model_validate({"$ref": s})
    elif how == "validate-name":
        m = R.model_validate({"ref": s})
    elif how == "json":
        m = R.model_validate_json(json.dumps({"$ref": s}))
    elif how == "copy":
        m = copy.copy(R(ref=s))
    elif how == "deepcopy":
        m = copy.deepcopy(R(ref=s))
    elif how == "model_copy":
        m = R(ref=s).model_copy()
    elif how == "model_copy-deep":
        m = R(ref=s).model_copy(deep=True)
    elif how == "update":
        x = R(ref=r.choice(BASES))
        hash(x)
        m = x.model_copy(update={"ref": s})
    elif how == "pickle":
        x = R(ref=s)
        if r.random() < 0.5:
            hash(x)
        m = pickle.loads(pickle.dumps(x, r.choice([2, 4, 5])))
    elif how in ("assign", "assign-twice", "rejected-assign"):
        m = R(ref=r.choice(BASES))
        if r.random() < 0.7:
            hash(m), m == R(ref=s), repr(m), str(m), lib.dump(m)
        if how == "assign-twice":
            m.ref = r.choice(BASES)
            hash(m)
        m.ref = s
        if how == "rejected-assign":
            st, _ = lib.attempt(setattr, m, "ref", r.choice([None, 5, ["x"], {}]))
            case.check(st == "invalid", "accepts-nonconforming", "reference assigned a non-string")
    elif how == "tag":
        m = lib.cls("Tag").model_validate({"name": "n", "externalDocs": {"$ref": s}}).external_docs
    elif how == "kwarg-live":
        m = lib.cls("Tag")(name="n", external_docs=R(ref=s)).external_docs
    elif how == "doc":
        d = {"info": {"title": "t", "version": "1", "tags": [{"$ref": s}]}, "components": {"messages": {"m": {"$ref": s}}}}
        a = lib.AsyncAPI3.model_validate(d)
        m = a.info.tags[0] if r.random() < 0.5 else a.components.messages["m"]
    elif how == "yaml":
        import yaml

        y = yaml.safe_dump({"info": {"title": "t", "version": "1", "tags": [{"$ref": s}]}}, allow_unicode=r.random() < 0.5)
        try:
            same = yaml.safe_load(y)["info"]["tags"][0]["$ref"] == s
        except Exception:  # noqa: BLE001
            same = False
        m = lib.AsyncAPI3.model_validate_yaml(y).info.tags[0] if same else R(ref=s)
    elif how == "construct":
        m = R.model_construct(ref=s)
    elif how == "construct-unset":
        m = R.model_construct(_fields_set=set(), ref=s)
    elif how == "construct-copy":
        m = R.model_construct(**R(ref=s).__dict__).model_copy(deep=r.random() < 0.5)
    elif how == "copy-unset":
        m = R(ref=s)
        m.model_fields_set.discard("ref")
        if r.random() < 0.5:
            m = copy.copy(m)
    elif how == "construct-assign":
        m = R.model_construct(_fields_set=set(), ref=r.choice(BASES))
        hash(m)
        m.ref = s
    elif how == "dump-load":
        m = R(**lib.dump(R(ref=s)))
    elif how == "hashed":
        m = R(ref=s)
        hash(m)
        {m: 1}
    elif how == "revalidated":
        m = R.model_validate(R(ref=s))
    elif how == "mapping-item":
        c = lib.cls("Channels")({"k": R(ref=s)})
        m = c["k"]
        if r.random() < 0.5:
            c["j"] = {"$ref": s}
            m = c["j"]
    else:
        p = next(p for p in FACTORIES if s.startswith(p))
        m = getattr(R, fac)(s[len(p):])
    case.state("routes", how)
    case.check(type(m) is R and m.ref == s, "wrong-reference", lambda: f"{how}: {m!r:.200} for {s!r:.200}")
    return m, how


def population(case, n):
    r = case.rng
    strings = [r.choice(BASES) if r.random() < 0.8 else Gen(r).string() for _ in range(2)]
    for _ in range(4):
        strings.append(near(r, r.choice(strings)))
    return [(s, *route(case, s)) for s in (r.choice(strings) for _ in range(n))]


def pairs(case):
    pop = population(case, 12)
    for s, a, ha in pop:
        case.check(hash(a) == hash(a) and isinstance(hash(a), int), "hash-unstable", repr(s)[:200])
        for t, b, hb in pop:
            what = f"{s!r:.120} ({ha}) and {t!r:.120} ({hb})"
            e = a == b
            case.check(e is (s == t), "equality", lambda: f"{what}: == gives {e}")
            case.check((a != b) is (s != t), "equality", lambda: f"{what}: != disagrees")
            if s == t:
                case.check(hash(a) == hash(b), "hash-differs", lambda: f"{what}: equal but hashes differ")
                case.see("pair:equal")
            else:
                case.see("pair:distinct")
    case.distinct([(s, h) for s, _a, h in pop])
    case.sample([(s[:60], h) for s, _a, h in pop[:4]])


def containers(case):
    """Sets, dicts and lists of references against the same containers of strings."""
    r = case.rng
    pop = population(case, 20)
    model, st, dc = {}, set(), {}
    lst, mlst = [], []
    for k in range(50):
        s, a, how = r.choice(pop)
        op = r.choice(["add", "add", "set", "discard", "in", "get", "append", "count", "remove", "pop", "union"])
        if op == "add":
            st.add(a)
            dc.setdefault(a, k)
            model.setdefault(s, k)
        elif op == "set":
            st.add(a)
            dc[a] = k
            model[s] = k
        elif op == "discard":
            st.discard(a)
            dc.pop(a, None)
            model.pop(s, None)
        elif op == "get":
            case.check(dc.get(a) == model.get(s), "dict-lookup", lambda: f"{s!r:.150} ({how}): {dc.get(a)} expected {model.get(s)}")
        elif op == "append":
            lst.append(a)
            mlst.append(s)
        elif op == "count":
            case.check(lst.count(a) == mlst.count(s) and (a in lst) == (s in mlst), "list-membership", lambda: f"{s!r:.150} ({how})")
        elif op == "remove" and s in mlst:
            case.check(lst.index(a) == mlst.index(s), "list-membership", lambda: f"index of {s!r:.150} ({how})")
            lst.remove(a)
            mlst.remove(s)
        elif op == "pop" and model:
            x, _ = dc.popitem()
            st.discard(x)
            want, _ = model.popitem()
            case.check(x.ref == want, "dict-order", f"{x.ref!r:.150} popped, expected {want!r:.150}")
        elif op == "union":
            other = {x for _s, x, _h in r.sample(pop, 6)}
            case.check({x.ref for x in other & st} == {x.ref for x in other} & set(model) and len(other | st) == len({x.ref for x in other} | set(model)), "set-algebra", "& or | of reference sets")
        case.check((a in st) == (s in model) and (a in dc) == (s in model), "set-membership", lambda: f"after {op} {s!r:.150} ({how}): in set {a in st}, in dict {a in dc}, expected {s in model}")
        case.check(len(st) == len(model) == len(dc), "entry-count", lambda: f"after {op} {s!r:.150} ({how}): set {len(st)}, dict {len(dc)}, distinct strings {len(model)}")
    case.check(sorted(x.ref for x in st) == sorted(model) and [x.ref for x in dc] == list(model) and [x.ref for x in lst] == mlst, "entries", "final contents differ")
    case.check([x.ref for x in dict.fromkeys(a for _s, a, _h in pop)] == list(dict.fromkeys(s for s, _a, _h in pop)), "entries", "deduplication differs")
    case.check(len(frozenset(a for _s, a, _h in pop)) == len({s for s, _a, _h in pop}), "entry-count", "frozenset")
    case.see("containers")
    case.distinct("containers", [(s, h) for s, _a, h in pop])


def in_documents(case):
    """References found inside documents, from every kind of site, before and after validation runs."""
    r = case.rng
    pool = ["#/components/schemas/a", "#/components/schemas/A", "#/components/schemas/a ", "https://e.x/a", "#/channels/a", ""]
    docs = []
    for _ in range(2):
        d, c = rand_doc(case, ref=lambda site: r.choice(pool))
        if d is not None:
            docs.append((d, lib.AsyncAPI3.model_validate(jx(d)) if r.random() < 0.6 else build(r, T("AsyncAPI3"), jx(c))))
    d = consistent_doc(case) if r.random() < 0.5 else None
    if d is not None:
        docs.append((d, lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": [lib.UnifiedReferencesValidator]})))
    found = []
    for d, m in docs:
        for path, names in ref_sites(d):
            x = live_at(m, path)
            s = d
            for k in path:
                s = s[k]
            found.append((s["$ref"], x, "/".join(map(str, path))))
            case.state("sites", "/".join(str(k) for k in path if isinstance(k, str))[-24:])
    r.shuffle(found)
    found = found[:40]
    for s, a, pa in found:
        case.check(type(a) is lib.Reference and a.ref == s, "wrong-reference", lambda: f"{pa}: {a!r:.200}")
        fresh = lib.Reference(ref=s)
        case.check(a == fresh and fresh == a and hash(a) == hash(fresh), "equality", lambda: f"{pa} {s!r:.120}: not like Reference(ref=...)")
        for t, b, pb in found:
            case.check((a == b) is (s == t) and (s != t or hash(a) == hash(b)), "equality", lambda: f"{pa} {s!r:.120} and {pb} {t!r:.120}: == {a == b}")
    case.check(len({a for _s, a, _p in found}) == len({s for s, _a, _p in found}), "entry-count", "set of the references of a document")
    if found:
        case.see("documents")
        case.distinct("doc", [(s, p) for s, _a, p in found])
        # a document changed only in one reference string is another document
        d, m = r.choice([x for x in docs if ref_sites(x[0])] or docs)
        sites = ref_sites(d)
        if sites:
            path, _n = r.choice(sites)
            m2 = lib.AsyncAPI3.model_validate(jx(d))
            m1 = lib.AsyncAPI3.model_validate(jx(d))
            x = live_at(m2, path)
            old = x.ref
            case.check(m1 == m2, "equality", "equal documents compare unequal", d)
            x.ref = near(r, old)
            case.check((m1 == m2) is (x.ref == old), "equality", lambda: f"documents differing in {path}: {old!r:.100} / {x.ref!r:.100} compare equal", d)


class Lookalike(BaseModel):
    ref: str = Field(alias="$ref")
    model_config = {"populate_by_name": True}

    def __hash__(self):
        return hash(self.ref)


class Text(RootModel[str]):
    pass


class Plain:
    def __init__(self, s):
        self.ref = s

    def __hash__(self):
        return hash(self.ref)


def others(case):
    """Objects of other kinds never equal a reference."""
    r = case.rng
    s = r.choice(BASES)
    a, how = route(case, s)
    xs = [s, {"$ref": s}, {"ref": s}, [s], (s,), ("ref", s), None, True, False, 0, 1, hash(s), hash(a), s.encode("utf-8", "surrogatepass"), Lookalike(ref=s), Text(s), Plain(s), lib.Reference, str(a), repr(a), lib.dump(a), a.model_dump(), lib.dumps(a), object(), ...,
          frozenset([s]), {a}, [a], (a,), {a: a}, lib.cls("Schema").model_validate({"type": s}), lib.cls("Schema").model_construct(ref=s), lib.cls("Tag")(name=s), lib.cls("MultiFormatSchema")(schema={"$ref": s}), lib.cls("Schema")()]
    for name in r.sample(NAMES, 6):
        x, c = rand_instance(case, name, "min" if r.random() < 0.5 else "random", free_refs=False)
        if x is not None:
            xs.append(lib.cls(name).model_validate(x))
            case.state("kinds", name)
    for x in xs:
        for e in (a == x, x == a, not (a != x), not (x != a)):
            case.check(e is False, "equals-another-kind", lambda: f"Reference({s!r:.100}) ({how}) equals {type(x).__name__} {x!r:.200}")
        case.see("other-kind")
    case.check(len({a, s, Plain(s), Lookalike(ref=s), hash(s)}) == 5, "entry-count", "a set merges a reference with objects of other kinds")
    case.check(s not in {a: 1} and a not in {s: 1} and a not in [s, {"$ref": s}], "equals-another-kind", f"membership mixes a reference with its string {s!r:.100}")
    case.distinct("others", s, how)


CHILD = """
import sys, json, pickle, copy, os
sys.path.insert(0, sys.argv[1])
from asyncapi3.models.base import Reference
from asyncapi3.models.asyncapi import AsyncAPI3
out = []
for s in json.load(sys.stdin):
    a = Reference(ref=s); hash(a); {a}; a == Reference(ref=s)
    b = Reference(**{"$ref": "zz"}); hash(b); b.ref = s
    d = AsyncAPI3.model_validate({"info": {"title": "t", "version": "1", "tags": [{"$ref": s}]}}).info.tags[0]; hash(d)
    out.append((s, [a, b, d, copy.deepcopy(a), a.model_copy()]))
sys.stdout.buffer.write(pickle.dumps(out, 4))
"""


def foreign(case):
    """References hashed and pickled by another process (another hash seed) are like those built here."""
    r = case.rng
    strings = sorted({x for b in BASES for x in (b, near(r, b))})
    env = dict(os.environ, PYTHONHASHSEED=str(1 + case.i))
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", CHILD, lib.REPO], input=json.dumps(strings).encode(), env=env, capture_output=True, timeout=120)
    case.check(p.returncode == 0, "crash:child", lambda: p.stderr.decode()[-800:])
    got = pickle.loads(p.stdout)
    case.check([s for s, _ in got] == strings, "wrong-reference", "child's strings")
    for s, xs in got:
        here = lib.Reference(ref=s)
        for x in xs:
            case.check(x == here and here == x and hash(x) == hash(here) and x in {here} and here in {x: 1}, "foreign-reference", lambda: f"{s!r:.150}: pickled elsewhere is not like one built here")
            case.see("foreign")
        case.check(len({here, *xs}) == 1, "entry-count", f"{s!r:.150}")
    case.check(len({x for _s, xs in got for x in xs}) == len(strings), "entry-count", "all foreign references")
    case.distinct("foreign", case.i)


STAGES = {"pairs": (pairs, 700, 60000), "containers": (containers, 250, 20000), "documents": (in_documents, 150, 12000), "others": (others, 250, 20000), "foreign": (foreign, 2, 40)}
FLOORS = {"pair:equal": 4000, "pair:distinct": 20000, "containers": 200, "documents": 60, "state:routes": 24, "state:sites": 40, "state:kinds": 120, "other-kind": 5000, "foreign": 300}
_ = (embed, gen, site_doc)
