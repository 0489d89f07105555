"""P25: overriding the handling of internal or external references in the tag and documentation validators."""

import collections

from rv import lib
from rv.gen import Gen, get_at, jx
from rv.refs import live_at
from rv.refval import DOCS, TAGS, base_doc, ensure, routes, settle, wrong_refs, Rejected
from rv.spec import interpret
from rv.util import ROOT, T

RULE = ("a case is a conforming document with references of one kind at documented locations and a validator subclass overriding one or both handlers (observing, vetoing, delegating); "
        "the references handed over, their identity and the outcome are compared with the documented rule")


def subclass(kind, over, calls, veto=lambda s: False, delegate=False, deep=False):
    """A validator overriding the handlers named in `over`."""
    def handler(which):
        name = kind.internal if which == "internal" else kind.external
        if kind is TAGS:
            def h(self, spec, tag_ref, context):
                return observe(self, spec, tag_ref, context)
        else:
            def h(self, spec, ref, context):
                return observe(self, spec, ref, context)

        def observe(self, spec, ref, context):
            calls.append((which, spec, ref, context))
            if veto(ref.ref):
                raise ValueError(f"vetoed-by-override {ref.ref}")
            if delegate:
                getattr(super(C, self), name)(spec, ref, context)
        return name, h

    C = type("Custom", (kind.V,), dict(handler(w) for w in over))
    if not deep:
        return C
    return type("Derived", (C,), {"extra": 1})


def document(case, kind, internal_ok=True):
    r = case.rng
    for _ in range(6):
        d = base_doc(case, kind, p=r.choice([0.08, 0.2]))
        if d is None:
            continue
        for _ in range(r.choice([1, 3, 8])):
            ensure(r, d, r.choice(kind.patterns), Gen(r), {"$ref": ""})
        settle(kind, r, d, ok=r.choice([0.4, 0.7]))
        if not internal_ok:
            yes = kind.sites(d)[0]
            for p in r.sample(yes, min(len(yes), r.choice([1, 2]))):
                get_at(d, p)["$ref"] = r.choice(wrong_refs(kind, r, d))
        if interpret(T(ROOT), d).status == "ok":
            return d
    return None


def observed(case):
    """Handlers that accept everything see exactly the references of their kind."""
    r = case.rng
    kind = (TAGS, DOCS)[case.i % 2]
    over = [("internal",), ("external",), ("internal", "external")][(case.i // 2) % 3]
    d = document(case, kind, internal_ok=r.random() < 0.4)
    if d is None:
        return
    bad, outside, rs = kind.verdict(d)
    yes, _ = kind.sites(d)
    calls = []
    V = subclass(kind, over, calls, deep=r.random() < 0.3)
    how = r.choice(["parse", "kwargs", "objects", "call", "attach"])
    with lib.LogTap() as tap:
        st, m = lib.attempt(routes(kind, r, d, V)[how])
    if isinstance(m, Rejected):
        st = "invalid"
    what = f"{kind.name} validator overriding {'+'.join(over)} by {how}"
    case.check(st != "crash", "wrong-exception", lambda: f"{what}: {m!r:.300}", d)
    expect_bad = bad and "internal" not in over
    case.check((st == "invalid") == bool(expect_bad), "override-decision", lambda: f"{what}: {st} {m!s:.300}; built-in would refuse {bad[:3]}", d)
    if st == "ok":
        want = collections.Counter(x for x in rs if ("internal" if x.startswith("#") else "external") in over)
        got = collections.Counter(c[2].ref for c in calls)
        case.check(want == got, "references-handed-over", lambda: f"{what}: missing {dict(want - got)}, too many {dict(got - want)}", d)
        for w, spec, ref, ctx in calls:
            case.check(w == ("internal" if ref.ref.startswith("#") else "external"), "wrong-handler", lambda: f"{what}: {ref.ref!r} given to the {w} handler", d)
            case.check(spec is m, "wrong-document", f"{what}: handler got another document", d)
            case.check(isinstance(ref, lib.Reference) and isinstance(ctx, str), "wrong-arguments", f"{what}: {type(ref)} {type(ctx)}", d)
        want_ids = collections.Counter(id(live(m, p)) for p in yes if ("internal" if get_at(d, p)["$ref"].startswith("#") else "external") in over)
        case.check(collections.Counter(id(c[2]) for c in calls) == want_ids, "references-handed-over", f"{what}: not the document's own reference objects, once each", d)
        n = 0 if "external" in over else len(outside)
        case.check(len(tap.warnings()) == n, "warning-count", lambda: f"{what}: {len(tap.warnings())} warnings, expected {n}", d)
        case.see("handed-over")
        case.counts["references"] += len(calls)
        for p in yes:
            case.state("locations", kind.name, [s if isinstance(s, str) and i in (0, 1, len(p) - 1) else "-" for i, s in enumerate(p)])
    case.distinct(kind.name, over, how, d)
    case.see("override:" + "+".join(over), "outcome:" + st)
    case.sample([kind.name, over, how, rs[:5]])


def crowd(case):
    """A long list of references, all of them handed over."""
    r = case.rng
    kind = (TAGS, DOCS)[case.i % 2]
    pat = r.choice(kind.patterns)
    for _ in range(6):
        d = base_doc(case, kind, p=0.05)
        if d is not None:
            break
    else:
        return
    n = r.choice([30, 70, 140, 300])
    over = r.choice([("internal",), ("external",), ("internal", "external")])
    for i in range(n):
        leaf = {"$ref": f"#/own/{i}" if "internal" in over and ("external" not in over or r.random() < 0.5) else f"own:{i}"}
        ensure(r, d, pat, Gen(r, key_pool=[f"k{i}" for i in range(20 + 2 * n)]), leaf)
    if interpret(T(ROOT), d).status != "ok":
        return
    bad, _outside, rs = kind.verdict(d)
    calls = []
    V = subclass(kind, over, calls, deep=r.random() < 0.3)
    st, e = lib.attempt(lib.AsyncAPI3.model_validate, {**jx(d), "extra_validators": [V]})
    case.check((st == "invalid") == bool(bad and "internal" not in over), "override-decision", lambda: f"{kind.name} validator overriding {over} with {n} references at {'.'.join(pat)}: {st} {e!s:.200}", d)
    if st == "ok":
        want = collections.Counter(x for x in rs if ("internal" if x.startswith("#") else "external") in over)
        got = collections.Counter(c[2].ref for c in calls)
        case.check(want == got, "references-handed-over", lambda: f"{n} references at {'.'.join(pat)}: missing {dict(want - got)}, too many {dict(got - want)}"[:600], d)
        case.see("crowd")
        case.state("crowds", kind.name, pat)


def live(m, path):
    cur = path
    names, idx = [], None
    obj = m
    for s in cur:
        if isinstance(s, int):
            obj = live_at(obj, names)[s] if names else obj[s]
            names = []
        else:
            names.append(s)
    return live_at(obj, names) if names else obj


def vetoed(case):
    """A handler refusing one particular reference decides alone; the other kind keeps its built-in handling."""
    r = case.rng
    kind = (TAGS, DOCS)[case.i % 2]
    over = [("internal",), ("external",), ("internal", "external")][(case.i // 2) % 3]
    d = document(case, kind, internal_ok=r.random() < 0.7)
    if d is None:
        return
    bad, outside, rs = kind.verdict(d)
    mine = [x for x in rs if ("internal" if x.startswith("#") else "external") in over]
    pool = mine if mine and r.random() < 0.7 else ["#/never", "never"]
    target = r.choice(pool)
    calls = []
    delegate = r.random() < 0.4
    V = subclass(kind, over, calls, veto=lambda s: s == target, delegate=delegate)
    with lib.LogTap() as tap:
        st, e = lib.attempt(routes(kind, r, d, V)["parse"])
    refused_internal = bad and ("internal" not in over or delegate)
    want = "invalid" if refused_internal or target in mine else "ok"
    what = f"{kind.name} validator overriding {'+'.join(over)}, refusing {target!r:.60}, delegate={delegate}"
    case.check(st == want, "override-decision", lambda: f"{what}: {st} {e!s:.300}, expected {want}", d)
    if target in mine and not refused_internal:
        case.check("vetoed-by-override" in str(e), "override-error-lost", lambda: f"{what}: {e!s:.300}", d)
        case.see("vetoed")
    if st == "ok":
        n = len(outside) if "external" not in over or delegate else 0
        case.check(len(tap.warnings()) == n, "warning-count", lambda: f"{what}: {len(tap.warnings())} warnings, expected {n}", d)
        case.see("passed")
    case.distinct(kind.name, over, target, delegate, d)


def locations(case):
    """Each documented location on its own, with a string that only a custom handler understands."""
    r = case.rng
    allp = [(k, p) for k in (TAGS, DOCS) for p in k.patterns]
    kind, pat = allp[case.i % len(allp)]
    for _ in range(5):
        d = base_doc(case, kind, p=0.08)
        if d is None:
            continue
        path = ensure(r, d, pat, Gen(r), {"$ref": ""})
        settle(kind, r, d)
        if interpret(T(ROOT), d).status == "ok":
            break
    else:
        return
    for which, s in (("internal", r.choice(["#custom:1", "#/elsewhere/tag", "#/components/tags", "#"])), ("external", r.choice(["registry://tag/1", "", "tag-1"]))):
        get_at(d, path)["$ref"] = s
        for refuse in (False, True):
            calls = []
            V = subclass(kind, (which,), calls, veto=lambda x, s=s, f=refuse: f and x == s)
            others = [get_at(d, p)["$ref"] for p in kind.sites(d)[0] if p != path]
            st, e = lib.attempt(lib.AsyncAPI3.model_validate, {**jx(d), "extra_validators": [V]})
            case.check((st == "ok") == (not refuse), "override-decision", lambda: f"{which} {s!r} at {'.'.join(pat)}, refuse={refuse}: {st} {e!s:.300}", d)
            want = 1 + others.count(s)
            got = sum(1 for c in calls if c[2].ref == s)
            case.check(got == want if not refuse else got == 1, "references-handed-over", lambda: f"{which} {s!r} at {'.'.join(pat)} handed over {got} times, expected {want}", d)
        case.state("places", kind.name, pat, which)
    case.distinct(pat, path)


N = len(TAGS.patterns) + len(DOCS.patterns)
STAGES = {"crowd": (crowd, N * 2, N * 100), "observed": (observed, 600, 30000), "vetoed": (vetoed, 600, 30000), "locations": (locations, N * 10, N * 500)}
FLOORS = {"crowd": 100, "handed-over": 250, "references": 500, "vetoed": 60, "passed": 150, "state:places": 100}
