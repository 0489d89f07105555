"""P23: external references warn and never fail, under every bundled validator; valid internal ones never warn."""

from rv import gen, lib
from rv.embed import REF_SITES
from rv.gen import Gen, get_at, jx
from rv.refs import SECTION, canon, connect, consistent_doc, judge, pointer, ref_sites, resolve, section, site_doc, twin
from rv.refval import DOCS, TAGS, routes
from rv.util import live_sections

import asyncapi3.validators as bundled

RULE = ("a case is a document whose references are all valid or http(s) URLs, validated by one or several bundled validators by several routes while a log tap records every record; "
        "reference positions, validators and URLs are recorded as states")
ALL = [getattr(bundled, n) for n in sorted(bundled.__all__)]
U, TV, DV = lib.UnifiedReferencesValidator, lib.TagsRefValidator, lib.ExternalDocsRefValidator
URLS = ["https://example.com/a.yaml#/components/tags/x", "http://example.com/", "https://e.org/x#/b", "http://localhost:1/a.json", "https://example.com/%7Euser/%s?q={a}&b=%d#/c%2Fd",
        "http://[::1]:8080/x", "https://user:pw@example.com:8443/p/a/t/h.yaml#", "https://üñí.example/z", "http://a/#/components/schemas/a", "https://e.org/" + "long/" * 60,
        "https://e.org/'quote'", "https://e.org/{0}{name}", "http://example.com/#/components/externalDocs/x", "https://#/components/tags/a", "http://x/$message.header#/id", "https://e.org/" + "p/" * 1200, "https://e.org/#/" + "q" * 5000, "https://", "http://", "https://e.org/\n#/a", "https://e.org/\u2028x", "https:///a", "http://a.b/c\td", "https://e.org/a\\b", "http://x y"]


def watch(case, d, vs, what, ways=None, plain=None):
    """Validate a document whose references are all fine; judge acceptance and the warnings."""
    r = case.rng
    c = canon(d)
    want = []  # (url, at least so many warnings)
    exp = {}
    for p, names in ref_sites(d):
        s = get_at(d, p)["$ref"]
        if s.startswith(("http://", "https://")):
            if U in vs:
                exp[s] = exp.get(s, 0) + 1
            for k in (TAGS, DOCS):
                if k.V in vs and names == (k.target,) and p in k.sites(d)[0]:
                    exp[s] = exp.get(s, 0) + 1
    want = sorted(exp.items())
    urls = {get_at(d, p)["$ref"] for p, _ in ref_sites(d) if get_at(d, p)["$ref"].startswith(("http://", "https://"))}

    ws = {
        "parse": lambda: lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": list(vs)}),
        "kwargs": lambda: lib.AsyncAPI3(**jx(d), extra_validators=list(vs)),
        "objects": lambda: lib.AsyncAPI3.model_validate({**live_sections(r, d), "extra_validators": list(vs)}),
        "attach": lambda: attach(d, vs),
    }
    if len(vs) == 1:
        ws["call"] = lambda: vs[0]()(lib.AsyncAPI3.model_validate(jx(d)))
    for how in ways or ["parse", r.choice([w for w in ws if w != "parse"])]:
        with lib.LogTap() as tap:
            st, m = lib.attempt(ws[how])
        names = "+".join(v.__name__ for v in vs) if len(vs) < 4 else f"{len(vs)} validators"
        case.check(st == "ok", "external-rejected" if urls else "internal-rejected", lambda: f"{what} by {how} under {names}: {m!s:.400}", d)
        out = tap.warnings()
        quoted = {}
        for w in out:
            u = max((u for u in urls if u in w), key=len, default=None)
            quoted[u] = quoted.get(u, 0) + 1
        for u, n in want:
            k = quoted.get(u, 0)
            case.check(k >= n, "missing-warning", lambda: f"{what} by {how} under {names}: {u!r} occurs {n} times, quoted by {k} warnings", d)
        stray = [w for w in out if not any(u in w for u in urls)]
        case.check(not stray, "spurious-warning", lambda: f"{what} by {how} under {names}: {stray[:2]}", d)
        if how != "call":
            m.extra_validators = None
        dd = lib.dump(m)
        case.check(dd == c, "document-changed", f"{what} by {how} under {names}", d)
        case.see("route:" + how)
        case.counts["warnings"] += len(out)
    return m


def attach(d, vs):
    m = lib.AsyncAPI3.model_validate(jx(d))
    m.extra_validators = list(vs)
    return m


def pick(r):
    x = r.random()
    if x < 0.45:
        return [U]
    if x < 0.6:
        return [TV]
    if x < 0.75:
        return [DV]
    if x < 0.85:
        return r.sample([U, TV, DV], r.choice([2, 3]))
    return list(ALL) if x < 0.93 else r.sample(ALL, r.randrange(1, 6))


def tidy(d):
    """Internal references of the tag and documentation kinds point into their own section (or are URLs)."""
    for p, names in ref_sites(d):
        for k in (TAGS, DOCS):
            if names == (k.target,):
                s = get_at(d, p)["$ref"]
                if not s.startswith("http") and not k.entry(d, s):
                    return False
    return True


def sites(case):
    """An external reference at every position."""
    r = case.rng
    site = REF_SITES[case.i % len(REF_SITES)]
    for _ in range(5):
        got = site_doc(case, site)
        if got and tidy(got[0]):
            break
    else:
        return
    d, path = got
    url = r.choice(URLS)
    get_at(d, path)["$ref"] = url
    c = canon(d)
    if c is None or judge(c)[0] != "ok" or not tidy(d):
        return
    what = f"{url!r:.80} at {'/'.join(map(str, path))}"
    watch(case, d, [U], what)
    watch(case, d, pick(r), what, ["parse"])
    if case.i % 4 == 0:
        watch(case, d, ALL, what, ["parse"])
    case.state("sites", site[0], site[1])
    case.state("urls", url)
    case.distinct(path, url)
    case.sample([path, url])


def documents(case):
    """Mixed documents: some, all or no references external."""
    r = case.rng
    ext = r.choice([0, 0, 0.2, 0.6, 1])
    d = consistent_doc(case, ext=ext)
    if d is None or not tidy(d):
        return
    for p, _ in ref_sites(d):
        n = get_at(d, p)
        if n["$ref"].startswith("http"):
            n["$ref"] = r.choice(URLS)
    watch(case, d, pick(r), f"document with {len(ref_sites(d))} references", ["parse"])
    case.see("documents", "all-internal" if not ext else "mixed")
    case.distinct("doc", d)


def behind(case):
    """A chain of internal references ending in an external one, for every kind."""
    r = case.rng
    site = REF_SITES[case.i % len(REF_SITES)]
    got = site_doc(case, site)
    if got is None:
        return
    d, path = got
    kind = r.choice(site[3])
    url = r.choice(URLS)
    prev = url
    secs = SECTION[kind]
    for i in range(r.choice([1, 2, 5])):
        sec = r.choice(secs)
        k = f"hop{i}-{r.randrange(99)}"
        section(d, sec)[k] = {"$ref": prev}
        prev = pointer((*sec.split("/"), k))
    get_at(d, path)["$ref"] = prev
    c = canon(d)
    if c is None or judge(c)[0] != "ok" or not tidy(d):
        return
    watch(case, d, [U], f"chain to {url!r:.80} at {'/'.join(map(str, path))}")
    watch(case, d, r.choice([[TV], [DV], [TV, DV, U], ALL]), "chain to an external reference", ["parse"])
    case.state("behind", site[0], site[1])
    case.see("behind")


def same(case):
    """The same URL many times, each time a warning; validating again warns again."""
    r = case.rng
    d = consistent_doc(case, p=0.3, depth=5)
    if d is None:
        return
    url = r.choice(URLS)
    ss = ref_sites(d)
    for p, _ in r.sample(ss, min(len(ss), r.choice([2, 5, 20]))):
        get_at(d, p)["$ref"] = url
    if canon(d) is None or judge(canon(d))[0] != "ok" or not tidy(d):
        return
    vs = pick(r)
    m = watch(case, d, vs, "the same URL several times", ["parse"])
    case.see("same")
    m.extra_validators = None
    for _ in range(2):
        with lib.LogTap() as a:
            m.extra_validators = list(vs)
        with lib.LogTap() as b:
            m.default_content_type = "application/json"
        case.check(sorted(a.warnings()) == sorted(b.warnings()), "warnings-vary", lambda: f"warnings differ between validations: {len(a.warnings())} then {len(b.warnings())}", d)


def twins(case):
    """Equal neighbours, each with an external reference."""
    r = case.rng
    site = REF_SITES[case.i % N]
    got = site_doc(case, site, p=0.05)
    if got is None:
        return
    d, path = got
    get_at(d, path)["$ref"] = r.choice(URLS)
    two = twin(r, d, path) if canon(d) is not None else None
    if two is None or judge(canon(two[0]))[0] != "ok" or not tidy(two[0]):
        case.see("generator:none")
        return
    watch(case, two[0], [U], f"{get_at(d, path)['$ref']!r:.80} at {'/'.join(map(str, path))} and {'/'.join(map(str, two[1]))}", ["parse"])
    watch(case, two[0], pick(r), "twins", ["parse"])
    case.see("twins")


def hand(case):
    """Assigned after the fact: a live document given an external reference by assignment."""
    r = case.rng
    d = consistent_doc(case)
    if d is None or not tidy(d):
        return
    m = lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": [U, TV, DV]})
    url = r.choice(URLS)
    key = r.choice(["channels", "servers", "operations", "info"])
    new = jx(d.get(key) or ({"title": "t", "version": "1"} if key == "info" else {}))
    if key == "info":
        new["tags"] = [{"$ref": url}]
        n = 2
    else:
        new[Gen(r).key() + "-ext"] = {"$ref": url}
        n = 1
    nxt = {**d, key: new}
    if canon(nxt) is None or judge(canon(nxt))[0] != "ok" or not tidy(nxt):
        return
    with lib.LogTap() as tap:
        st, e = lib.attempt(setattr, m, key, new)
    case.check(st == "ok", "external-rejected", lambda: f"document.{key} with {url!r}: {e!s:.300}", nxt)
    k = sum(1 for w in tap.warnings() if url in w)
    case.check(k >= n, "missing-warning", lambda: f"document.{key} with {url!r}: {k} warnings quote it, expected {n}", nxt)
    case.see("hand")


N = len(REF_SITES)
STAGES = {"sites": (sites, N * 8, N * 400), "documents": (documents, 200, 10000), "behind": (behind, N * 2, N * 100), "same": (same, 80, 4000), "hand": (hand, 80, 4000), "twins": (twins, N * 2, N * 60)}
FLOORS = {"state:sites": 72, "documents": 60, "all-internal": 20, "mixed": 20, "behind": 60, "same": 20, "hand": 30, "twins": 200, "warnings": 700, "state:urls": 15}
_ = (gen, connect, resolve, routes)
