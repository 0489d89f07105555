"""The tag and external documentation reference validators: documented locations, oracle, workloads.

A documented location is a pattern over the JSON path of a reference: '*' stands for a map key, '#' for a list index.
"""

import json

from rv import gen, lib
from rv.gen import Gen, get_at, jx
from rv.refs import EXTERNAL, minimal, ref_sites, twin
from rv.spec import interpret
from rv.util import ROOT, T, live_sections, rand_doc

STEP = {("servers",): "Server", ("channels",): "Channel", ("operations",): "Operation", ("messages",): "Message",
        ("operationTraits",): "OperationTrait", ("messageTraits",): "MessageTrait", ("tags",): "Tag", ("schemas",): "Schema", ("externalDocs",): "ExternalDocumentation"}


def pats(text):
    return [tuple(x.split(".")) for x in text.split()]


TAG_PATTERNS = pats("""
info.tags.# servers.*.tags.# channels.*.tags.# channels.*.messages.*.tags.# channels.*.messages.*.traits.#.tags.# operations.*.tags.# operations.*.traits.#.tags.#
components.servers.*.tags.# components.channels.*.tags.# components.channels.*.messages.*.tags.# components.channels.*.messages.*.traits.#.tags.#
components.operations.*.tags.# components.operations.*.traits.#.tags.# components.messages.*.tags.# components.messages.*.traits.#.tags.#
components.operationTraits.*.tags.# components.messageTraits.*.tags.# components.tags.*
""")
M = "externalDocs headers.externalDocs payload.externalDocs tags.#.externalDocs traits.#.externalDocs traits.#.headers.externalDocs traits.#.tags.#.externalDocs".split()
OP = "externalDocs tags.#.externalDocs traits.#.externalDocs traits.#.tags.#.externalDocs".split()
DOC_PATTERNS = pats(" ".join(
    ["info.externalDocs info.tags.#.externalDocs servers.*.externalDocs channels.*.externalDocs"]
    + ["channels.*.messages.*." + x for x in M]
    + ["operations.*." + x for x in OP]
    + ["components.channels.*.externalDocs components.channels.*.messages.*.externalDocs components.channels.*.messages.*.traits.#.externalDocs"]
    + ["components.channels.*.messages.*.traits.#.tags.#.externalDocs components.externalDocs.*"]
    + ["components.messages.*." + x for x in "externalDocs headers.externalDocs payload.externalDocs traits.#.externalDocs traits.#.tags.#.externalDocs".split()]
    + ["components.messageTraits.*.externalDocs components.messageTraits.*.headers.externalDocs"]
    + ["components.operations.*." + x for x in "externalDocs traits.#.externalDocs traits.#.tags.#.externalDocs".split()]
    + ["components.operationTraits.*.externalDocs components.servers.*.externalDocs components.tags.*.externalDocs components.schemas.*.externalDocs"]))


class Kind:
    def __init__(self, name, validator, target, section, patterns, internal, external, other):
        self.name, self.V, self.target, self.section, self.patterns = name, validator, target, section, patterns
        self.internal, self.external, self.other = internal, external, other
        self.prefix = f"#/components/{section}/"

    def sites(self, doc):
        """(documented, undocumented) paths of the references of this kind."""
        yes, no = [], []
        for p, names in ref_sites(doc):
            if names == (self.target,):
                (yes if any(fits(q, p) for q in self.patterns) else no).append(p)
        return yes, no

    def entry(self, doc, ref):
        if not ref.startswith(self.prefix):
            return False
        return ref[len(self.prefix):] in doc.get("components", {}).get(self.section, {})

    def verdict(self, doc):
        """(rejected?, warned reference strings, all documented reference strings)."""
        yes, _ = self.sites(doc)
        rs = [get_at(doc, p)["$ref"] for p in yes]
        bad = [x for x in rs if x.startswith("#") and not self.entry(doc, x)]
        return bad, [x for x in rs if not x.startswith("#")], rs


TAGS = Kind("tag", lib.TagsRefValidator, "Tag", "tags", TAG_PATTERNS, "validate_internal_tag_ref", "validate_external_tag_ref", "externalDocs")
DOCS = Kind("docs", lib.ExternalDocsRefValidator, "ExternalDocumentation", "externalDocs", DOC_PATTERNS, "validate_internal_external_doc_ref", "validate_external_external_doc_ref", "tags")


def fits(pat, path):
    return len(pat) == len(path) and all(isinstance(s, int) if q == "#" else isinstance(s, str) and (q in ("*", s)) for q, s in zip(pat, path))


def ensure(r, doc, pat, g, leaf):
    """Make the document hold `leaf` at a place matching the pattern; returns the path."""
    cur, path = doc, []
    for n, s in enumerate(pat):
        last = n == len(pat) - 1
        prev = pat[n - 1] if n else ""
        if s == "*":
            inline = [k for k, x in cur.items() if set(x) != {"$ref"} and not (prev == "schemas" and "schema" in x)]
            if last or not inline or r.random() < 0.5:
                for _ in range(40):
                    key = g.key()
                    if key not in cur:
                        break
                else:
                    key = f"k{r.randrange(10**9)}"
                if last:
                    cur[key] = leaf
                    path.append(key)
                    if r.random() < 0.3:
                        shuffle_map(r, cur)
                    return tuple(path)
                cur[key] = minimal(r, STEP[(prev,)], p=0.1) or {}
                if r.random() < 0.3:
                    shuffle_map(r, cur)
            else:
                key = r.choice(inline)
            path.append(key)
            cur = cur[key]
        elif s == "#":
            i = r.choice([0, len(cur), r.randrange(len(cur) + 1)])
            if last:
                cur.insert(i, leaf)
                path.append(i)
                return tuple(path)
            x = {"tags": "Tag", "traits": "OperationTrait" if "operations" in path[:3] else "MessageTrait"}[prev]
            cur.insert(i, minimal(r, x, p=0.1) or {"name": "n"})
            path.append(i)
            cur = cur[i]
        else:
            path.append(s)
            if last:
                cur[s] = leaf
                return tuple(path)
            nxt = pat[n + 1]
            have = cur.get(s)
            if nxt == "#":
                if not isinstance(have, list):
                    cur[s] = []
            elif nxt == "*":
                if not isinstance(have, dict):
                    cur[s] = {}
            elif s in ("headers", "payload"):
                if not isinstance(have, dict) or set(have) == {"$ref"} or "schema" in have:
                    cur[s] = {"type": "object"}
            elif not isinstance(have, dict):
                cur[s] = {}
            cur = cur[s]
    raise AssertionError(pat)


def shuffle_map(r, m):
    items = list(m.items())
    r.shuffle(items)
    m.clear()
    m.update(items)


def wrong_refs(kind, r, doc):
    """Strings starting with # that are not pointers to an existing entry."""
    keys = list(doc.get("components", {}).get(kind.section, {}))
    k = r.choice(keys) if keys else "nope"
    P = kind.prefix
    others = [f"#/components/{s}/{x}" for s, m in doc.get("components", {}).items() if s != kind.section and isinstance(m, dict) for x in m]
    roots = [f"#/{s}/{x}" for s in ("servers", "channels", "operations") for x in doc.get(s, {})]
    out = [P + "missing-entry", P, P[:-1], "#", "#/", "#" + P[2:] + k, P + k + "/", P + k + "/name", "/".join([P + k, k]), P + "/" + k, P + k + " ", " ".join([P, k]), P + P + k, P + k + k, P + k[:-1],
           P + k.swapcase(), P.replace("components", "Components") + k, P.replace("/components", "") + k, P[:-1] + "s/" + k, f"#/components/{kind.other}/{k}", P.upper() + k, P.replace("#/", "#//") + k,
           "#" + P + k, f"#/components/{kind.section.lower()}x/{k}", P + "items", P + "root", P + "keys", P + "__class__", P + "%61", P + k + "\n", P + "\n" + k, "#/components/schemas/" + P[2:] + k,
           P.replace(kind.section, kind.section.swapcase()) + k, f"#/components/external_docs/{k}", "# " + P[1:] + k, "#/info/tags/0", "#/info/externalDocs", "##", *others[:3], *roots[:2]]
    return [x for x in out if x.startswith("#") and not kind.entry(doc, x)]


OUTSIDE = [*EXTERNAL, "", "x", "./a.yaml#/components/tags/x", "../b#/c", "components/tags/x", "/components/tags/x", " #/components/tags/x", "file:///a#b", "urn:a:b", "tags/#", "\n#/components/tags/a",
           "http:/x", "ftp://#/components/externalDocs/q", "{}", "%23/components/tags/a", "'", "%s", "{0}", "{ref}", "％#"]


def base_doc(case, kind, p=None):
    """A conforming document with random references everywhere; those of this kind are set to something right."""
    r = case.rng
    for _ in range(8):
        d = gen.document(r, p=p or r.choice([0.1, 0.2, 0.35]), depth=r.choice([4, 5, 6]))
        if r.random() < 0.85:
            sec = d.setdefault("components", {}).setdefault(kind.section, {})
            g = Gen(r, p=0.2, depth=2)
            for _ in range(r.choice([1, 2, 4])):
                sec.setdefault(g.key(), minimal(r, kind.target))
        settle(kind, r, d)
        if interpret(T(ROOT), d).status == "ok":
            return d
        case.see("generator:nonconforming")
    return None


def settle(kind, r, d, paths=None, ok=0.85):
    """Give every reference of this kind (documented or not) a right target, or an outside string."""
    keys = list(d.get("components", {}).get(kind.section, {}))
    yes, no = kind.sites(d)
    for p in (paths if paths is not None else [*yes, *no]):
        get_at(d, p)["$ref"] = kind.prefix + r.choice(keys) if keys and r.random() < ok else r.choice(OUTSIDE)


def routes(kind, r, d, V=None):
    V = V or kind.V

    def attach():
        m = lib.AsyncAPI3.model_validate(jx(d))
        m.extra_validators = [V]
        return m

    def call():
        m = lib.AsyncAPI3.model_validate(jx(d))
        try:
            got = V()(m)
        except ValueError as e:
            raise Rejected(str(e)) from None
        assert got is m, "validator does not return the document"
        return m

    def reval():
        m = lib.AsyncAPI3.model_validate(json.loads(json.dumps(d)))
        m.__dict__["extra_validators"] = [V]
        return lib.AsyncAPI3.model_validate(m)

    def late():
        m = lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": []})
        m.__dict__["extra_validators"] = [V]
        m.default_content_type = m.default_content_type
        return m

    return {"parse": lambda: lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": [V]}), "kwargs": lambda: lib.AsyncAPI3(**jx(d), extra_validators=[V]),
            "objects": lambda: lib.AsyncAPI3.model_validate({**live_sections(r, d), "extra_validators": [V]}), "attach": attach, "call": call, "revalidate": reval, "assign": late}


class Rejected(Exception):
    pass


def decide(case, kind, d, what, ways=None):
    """Observe the validator on a conforming document by some routes and compare with the oracle."""
    r = case.rng
    bad, outside, rs = kind.verdict(d)
    ws = routes(kind, r, d)
    for how in ways or ["parse", r.choice([w for w in ws if w != "parse"])]:
        with lib.LogTap() as tap:
            st, m = lib.attempt(ws[how])
        if isinstance(m, Rejected):
            st = "invalid"
        case.check(st != "crash", "wrong-exception", lambda: f"{what} by {how}: {type(m).__name__} {m!s:.300}", d)
        if bad:
            case.check(st == "invalid", "bad-reference-accepted", lambda: f"{what} by {how}: accepted although {bad[:4]} do not point to an entry of components.{kind.section}", d)
        else:
            case.check(st == "ok", "good-document-rejected", lambda: f"{what} by {how}: {m!s:.400}; references {rs[:6]}", d)
            ws_ = tap.warnings()
            case.check(len(ws_) == len(outside), "warning-count", lambda: f"{what} by {how}: {len(outside)} references do not start with #, {len(ws_)} warnings: {ws_[:3]}", d)
            for s in set(outside):
                n = sum(1 for w in ws_ if s in w)
                case.check(n >= outside.count(s), "warning-text", lambda: f"{what} by {how}: reference {s!r} is quoted by {n} warnings, occurs {outside.count(s)} times", d)
            case.counts["warnings"] += len(ws_)
        case.see(f"route:{how}", "rejected" if bad else "accepted")
    case.counts["references"] += len(rs)


def workloads(kind):
    def sites(case):
        r = case.rng
        pat = kind.patterns[case.i % len(kind.patterns)]
        for _ in range(6):
            d = base_doc(case, kind, p=r.choice([0.05, 0.1, 0.2]))
            if d is None:
                continue
            ref = {"$ref": ""}
            path = ensure(r, d, pat, Gen(r), ref)
            settle(kind, r, d)
            if interpret(T(ROOT), d).status == "ok" and path in kind.sites(d)[0]:
                break
            case.see("generator:nonconforming")
        else:
            return
        leaf = get_at(d, path)
        keys = list(d.get("components", {}).get(kind.section, {}))
        name = ".".join(pat)
        mode = (case.i // len(kind.patterns)) % 5
        if mode <= 1:
            for s in r.sample(wrong_refs(kind, r, d), 3):
                leaf["$ref"] = s
                decide(case, kind, d, f"{kind.name} reference {s!r:.100} at {name}", None if mode == 0 else ["parse"])
                case.distinct(name, s)
                case.state("wrong", s.replace(keys[0], "K") if keys else s)
            case.state("rejected_at", name)
        elif mode == 2 and keys:
            leaf["$ref"] = kind.prefix + r.choice(keys)
            decide(case, kind, d, f"{kind.name} reference {leaf['$ref']!r:.100} at {name}")
            case.state("accepted_at", name)
        elif mode == 3:
            for s in r.sample(OUTSIDE, 2):
                leaf["$ref"] = s
                decide(case, kind, d, f"{kind.name} reference {s!r:.100} at {name}")
                case.distinct(name, s)
            case.state("outside_at", name)
        else:  # entry is itself a reference, whatever it says outside; section missing; section empty
            sec = d.setdefault("components", {}).setdefault(kind.section, {})
            if r.random() < 0.5:
                k = r.choice(["link", "tags", "externalDocs", "0"])
                sec[k] = {"$ref": r.choice([kind.prefix + k, r.choice(OUTSIDE), kind.prefix + "missing"])}
                leaf["$ref"] = kind.prefix + k
            else:
                if r.random() < 0.5:
                    sec.clear()
                else:
                    del d["components"][kind.section]
                if pat[:2] == ("components", kind.section) or "components" not in d or interpret(T(ROOT), d).status != "ok":
                    return
                settle(kind, r, d, ok=0)
                get_at(d, path)["$ref"] = kind.prefix + (keys[0] if keys else "k")
            if interpret(T(ROOT), d).status != "ok":
                return
            decide(case, kind, d, f"{kind.name} reference {get_at(d, path)['$ref']!r} at {name}")
            case.see("linked-or-empty")
        case.sample([name, get_at(d, path)["$ref"]])

    def documents(case):
        r = case.rng
        d = base_doc(case, kind)
        if d is None:
            return
        for _ in range(r.choice([0, 2, 6])):
            e = jx(d)
            ensure(r, e, r.choice(kind.patterns), Gen(r), {"$ref": ""})
            if interpret(T(ROOT), e).status == "ok":
                d = e
        settle(kind, r, d, ok=r.choice([0, 0.5, 0.8, 1]))
        decide(case, kind, d, "document", ["parse"])
        yes, _no = kind.sites(d)
        if yes:
            for s in r.sample(wrong_refs(kind, r, d), 2):
                e = jx(d)
                p = r.choice(yes)
                get_at(e, p)["$ref"] = s
                decide(case, kind, e, f"document with {s!r:.100} at {'.'.join(map(str, p))}", ["parse"])
            case.distinct("doc", d)
            case.see("documents")

    def crowd(case):
        """One bad reference among many good ones, equal or not, in any place of a list or map."""
        r = case.rng
        pat = kind.patterns[case.i % len(kind.patterns)]
        for _ in range(6):
            d = base_doc(case, kind, p=0.08)
            if d is not None and d.get("components", {}).get(kind.section):
                break
        else:
            return
        keys = list(d["components"][kind.section])
        n = r.choice([2, 9, 30, 70, 140] + ([600] if case.run.tier != "quick" else []))
        marks = []
        for _ in range(n):
            leaf = {"$ref": r.choice([kind.prefix + r.choice(keys), r.choice(OUTSIDE)])}
            ensure(r, d, pat, Gen(r, key_pool=[f"k{i}" for i in range(20 + 2 * n)]), leaf)
            marks.append(leaf)
        settle(kind, r, d)
        if interpret(T(ROOT), d).status != "ok":
            return
        decide(case, kind, d, f"{n} references at {'.'.join(pat)}", ["parse"])
        yes, _ = kind.sites(d)
        here = [p for p in yes if fits(pat, p)]
        p = r.choice(here)
        get_at(d, p)["$ref"] = r.choice(wrong_refs(kind, r, d))
        decide(case, kind, d, f"bad reference at {'.'.join(map(str, p))} among {len(here)}", ["parse"])
        case.see("crowd")

    def twins(case):
        """Equal and nearly equal items: each reference counts on its own."""
        r = case.rng
        pat = kind.patterns[case.i % len(kind.patterns)]
        for _ in range(6):
            d = base_doc(case, kind, p=0.08)
            if d is None:
                continue
            path = ensure(r, d, pat, Gen(r), {"$ref": ""})
            settle(kind, r, d)
            get_at(d, path)["$ref"] = r.choice(OUTSIDE)
            got = twin(r, d, path) if interpret(T(ROOT), d).status == "ok" else None
            if got and path in kind.sites(got[0])[0]:
                break
            case.see("generator:none")
        else:
            return
        d, at = got
        decide(case, kind, d, f"reference {get_at(d, path)['$ref']!r:.80} at {'.'.join(map(str, path))} and at {'.'.join(map(str, at))}", ["parse"])
        for p in (path, at):
            e = jx(d)
            s = r.choice(wrong_refs(kind, r, e))
            get_at(e, p)["$ref"] = s
            decide(case, kind, e, f"reference {s!r:.80} at {'.'.join(map(str, p))}, one of twins", ["parse"])
        case.see("twins")
        case.state("twins", ".".join(pat), [n for n, (a, b) in enumerate(zip(path, at)) if a != b])
        case.distinct("twins", path, at)

    def history(case):
        """Assignments on a live document: each is judged on the document it would give."""
        r = case.rng
        d = base_doc(case, kind)
        if d is None or kind.verdict(d)[0]:
            return
        m = lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": [kind.V]})
        for _ in range(5):
            e = base_doc(case, kind)
            if e is None:
                continue
            sec = r.choice(["info", "servers", "channels", "operations", "components"])
            if sec not in e:
                continue
            nxt = {**d, sec: e[sec]}
            if r.random() < 0.4:
                yes = [p for p in kind.sites(nxt)[0] if p[0] == sec]
                if yes:
                    nxt = jx(nxt)
                    get_at(nxt, r.choice(yes))["$ref"] = r.choice(wrong_refs(kind, r, nxt))
            if interpret(T(ROOT), nxt).status != "ok":
                continue
            bad, outside, _ = kind.verdict(nxt)
            with lib.LogTap() as tap:
                st, x = lib.attempt(setattr, m, sec, jx(nxt[sec]))
            case.check(st != "crash", "wrong-exception", lambda: f"document.{sec} = ...: {x!r:.300}", nxt)
            case.check((st == "ok") == (not bad), "assignment-decision", lambda: f"document.{sec} = ...: {st} {x!s:.300}; bad references {bad[:3]}", [d, nxt])
            if st == "ok":
                d = nxt
                case.check(len(tap.warnings()) == len(outside), "warning-count", lambda: f"{len(outside)} outside references, warnings {tap.warnings()[:3]}", nxt)
            case.see("history:" + st)

    def unrelated(case):
        """Nothing else matters: other validators' objections, other kinds' references, names, order."""
        r = case.rng
        d, _ = rand_doc(case)
        if d is None:
            return
        settle(kind, r, d, ok=r.choice([0.3, 0.9]))
        if interpret(T(ROOT), d).status != "ok":
            return
        decide(case, kind, d, "document with arbitrary references of other kinds", ["parse"])
        case.see("unrelated")

    def spelling(case):
        """A right pointer with one more character, whichever it is, before or after the name."""
        r = case.rng
        pat = kind.patterns[case.i % len(kind.patterns)]
        for _ in range(6):
            d = base_doc(case, kind, p=0.04)
            if d is None or not d.get("components", {}).get(kind.section):
                continue
            path = ensure(r, d, pat, Gen(r), {"$ref": ""})
            settle(kind, r, d)
            if interpret(T(ROOT), d).status == "ok" and path in kind.sites(d)[0]:
                break
        else:
            return
        right = kind.prefix + r.choice(list(d["components"][kind.section]))
        i = r.choice([len(right), len(right), len(kind.prefix), 1, r.randrange(1, len(right))])
        for c in r.sample([chr(n) for n in range(1, 127)], 24):
            s = right[:i] + c + r.choice(["", "", "x", "1b"]) + right[i:]
            if not kind.entry(d, s):
                get_at(d, path)["$ref"] = s
                decide(case, kind, d, f"{kind.name} reference {s!r:.100} at {'.'.join(pat)}", ["parse"])
                case.see("spelling")
                case.state("spelling", c)
                case.distinct(s)

    n = len(kind.patterns)
    return ({"spelling": (spelling, n * 2, n * 100), "sites": (sites, n * 40, n * 2000), "documents": (documents, 300, 20000), "crowd": (crowd, n * 4, n * 200), "twins": (twins, n * 6, n * 200), "history": (history, 200, 10000), "unrelated": (unrelated, 300, 20000)},
            {"state:rejected_at": n, "state:accepted_at": n * 3 // 4, "state:outside_at": n, "documents": 50, "crowd": n, "history:ok": 30, "history:invalid": 15, "warnings": 300, "unrelated": 60, "spelling": n * 10, "state:spelling": 60, "twins": n * 6})
