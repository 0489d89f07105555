"""P19: the unified validator rejects every bad reference (fault injection at every reference position)."""

import json

from rv import gen, lib
from rv.embed import REF_SITES, SHAPES
from rv.gen import Gen, get_at, jx
from rv.refs import SECTION, broken_doc, canon, clones, consistent_doc, every_kind, free_names_doc, judge, live_at, pointer, ref_sites, section, site_doc, spoil, swell, twin
from rv.spec import CATALOG, deep_eq
from rv.util import live_sections

RULE = ("a case is a consistent document, accepted with the validator attached, plus the same document with exactly one reference (or several) spoilt, "
        "given by parsing, JSON, construction or assignment; (position, fault kind) pairs are recorded as states")
FAULTS = ["dangling", "near", "kind", "shared", "cycle", "chain", "unsupported", "container"]
V = lib.UnifiedReferencesValidator


def good(case, d):
    st, m = lib.attempt(lib.AsyncAPI3.model_validate, {**jx(d), "extra_validators": [V]})
    case.check(st == "ok", "consistent-rejected", lambda: f"before the fault: {m!s:.400}", d)
    return m


def rejected(case, d, what, mech="bad-reference-accepted", routes=None):
    r = case.rng
    ways = {
        "parse": lambda: lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": [V]}),
        "kwargs": lambda: lib.AsyncAPI3(**jx(d), extra_validators=[V]),
        "live": lambda: lib.AsyncAPI3.model_validate({**live_sections(r, d), "extra_validators": [V]}),
        "revalidate": lambda: revalidated(d),
        "attach": lambda: attached(d),
    }
    for how in routes or r.sample(sorted(ways), 2):
        setting = r.choice(lib.LOG_SETTINGS) if r.random() < 0.2 else ""
        with lib.log_setting(setting):
            st, e = lib.attempt(ways[how])
        if setting:
            case.see("logging:" + setting)
        case.check(st != "crash", "wrong-exception", lambda: f"{what} by {how}: {type(e).__name__} {e!s:.300}", d)
        case.check(st == "invalid", mech, lambda: f"{what} accepted by {how}" + (f" with logging {setting}" if setting else ""), d)
        case.see("route:" + how)


def revalidated(d):
    m = lib.AsyncAPI3.model_validate(json.loads(json.dumps(d)))
    m.__dict__["extra_validators"] = [V]
    return lib.AsyncAPI3.model_validate(m)


def attached(d):
    m = lib.AsyncAPI3.model_validate(json.loads(json.dumps(d)))
    m.extra_validators = [V]
    return m


def sites(case):
    """Every position, every fault kind."""
    n = len(REF_SITES)
    site, how = REF_SITES[case.i % n], FAULTS[(case.i // n) % len(FAULTS)]
    for _ in range(3):
        got = site_doc(case, site)
        if got is None:
            case.see("generator:none")
            continue
        d, path = got
        x = spoil(case.rng, d, path, site[3], how)
        if x is None:
            continue
        good(case, d)
        rejected(case, x[0], f"{how} reference {get_at(x[0], path)['$ref']!r:.100} at {'/'.join(map(str, path))} ({x[2]})"[:500], f"bad-reference-accepted:{how}")
        case.state("faults", site[0], site[1], how)
        case.see("fault:" + how)
        case.distinct(site[0], site[1], how, len(path), get_at(x[0], path)["$ref"])
        case.sample([site[0], site[1], how, get_at(x[0], path)["$ref"]])
        return


def documents(case):
    """Rich documents, one bad reference anywhere."""
    d = consistent_doc(case, ext=case.rng.choice([0, 0.1]))
    if d is None:
        return
    good(case, d)
    for _ in range(3):
        b = broken_doc(case, d)
        if b is None:
            return
        rejected(case, b[0], f"{b[1]} reference in a document with {len(ref_sites(d))} others: {judge(canon(b[0]))[1]}"[:500], f"bad-reference-accepted:{b[1]}", ["parse"])
        case.see("fault:" + b[1])
        case.distinct("doc", b[0])
        case.see("documents")


def kinds(case):
    """Every place a reference can stand in (each way down from the document), every kind of wrong target."""
    site, way = SHAPES[case.i % len(SHAPES)]
    r = case.rng
    got = site_doc(case, site, way=way, p=0.05)
    if got is None:
        case.see("generator:none")
        return
    d, path = got
    targets = every_kind(r, d, Gen(r))
    c = canon(d) if targets else None
    if c is None or judge(c)[0] != "ok":
        case.see("generator:bad")
        return
    good(case, d)
    links = 0
    for name, q in targets.items():
        kind = name.rstrip("2")
        x = jx(d)
        ref = pointer(q)
        if r.random() < 0.25 and kind in SECTION:  # at the end of a link of the position's own kind
            sec = r.choice(SECTION[r.choice(list(site[3]))])
            if r.random() < 0.5:
                section(x, sec)["link-to-it"] = {"$ref": ref}
                ref = f"#/{sec}/link-to-it"
                links += 1
        get_at(x, path)["$ref"] = ref
        cx = canon(x)
        if cx is None or judge(cx)[0] != "bad":
            continue
        rejected(case, x, f"reference to a {kind} ({ref}) at {'/'.join(map(str, path))}", "bad-reference-accepted:kind", ["parse"])
        case.state("kinds", site[0], site[1], kind)
        case.see("kinds")
    case.state("ways", site[0], site[1], [(e[0], e[1]) for e in way])
    case.counts["kinds:links"] += links
    case.distinct("kinds", path)


def shared_object(case):
    """One live Reference object standing in two places that want different things."""
    r = case.rng
    d = consistent_doc(case, p=0.3, depth=5)
    if d is None:
        return
    rs = [(p, n) for p, n in ref_sites(d)]
    r.shuffle(rs)
    done = 0
    for p, pn in rs[:8]:
        for q, qn in rs:
            s = get_at(d, p)["$ref"]
            if q == p or set(pn) & set(qn) and r.random() < 0.8 or q[: len(p)] == p or p[: len(q)] == q:
                continue
            x = jx(d)
            get_at(x, q)["$ref"] = s
            c = canon(x)
            if c is None:
                continue
            st = judge(c)[0]
            if st == "open":
                continue
            try:
                m = lib.AsyncAPI3.model_validate(jx(d))
                obj = live_list(m, p) if isinstance(p[-1], int) else live_at(m, p)
                place(m, q, obj)
            except (KeyError, TypeError, AttributeError):
                continue
            if not deep_eq(lib.dump(m), c):
                case.see("generator:unplaced")
                continue
            how = r.choice(["call", "call", "assign", "validate"])
            m.__dict__["extra_validators"] = [V] if how != "call" else None
            try:
                if how == "call":
                    V()(m)
                elif how == "assign":
                    m.default_content_type = m.default_content_type
                else:
                    lib.AsyncAPI3.model_validate(m)
                got = "ok"
            except ValueError as e:
                got = "bad"
                _ = e
            case.check(got == st, "shared-object-decision", lambda: f"one Reference object {s!r} at {'/'.join(map(str, p))} and {'/'.join(map(str, q))}, {how}: {got}, oracle {st}", x)
            case.see("shared-object:" + st)
            done += 1
            break
        if done >= 3:
            return


def place(m, path, obj):
    """Put a live object into a live document behind the validators' back."""
    par = live_at(m, path[:-1])
    s = path[-1]
    if isinstance(par, (list, dict)):
        par[s] = obj
    elif CATALOG_OF[type(par)]["kind"] == "patterned":
        par.root[s] = obj
    else:
        par.__dict__[CATALOG_OF[type(par)]["by_json"][s]["py"]] = obj


CATALOG_OF = {lib.cls(n): c for n, c in CATALOG.items()}
LISTS = [s for s in REF_SITES if "list" in s[2]]


OUTSIDE = ["https://example.com/a.json#/x", "https://example.com/a.json", "http://a.example/#/components/tags/t", "https://b.example/c.yaml#/components/schemas/s", "http://[::1]/x"]


def crowd(case):
    """Many good references to share strings with, one bad one somewhere among them, in any order."""
    site = LISTS[case.i % len(LISTS)]
    r = case.rng
    got = site_doc(case, site)
    if got is None:
        return
    d, path = got
    lst = get_at(d, path[:-1])
    fine = get_at(d, path)["$ref"]
    n = r.choice([2, 10, 40, 120])
    others = [fine, fine, *r.sample(OUTSIDE, 2), r.choice(OUTSIDE)] if r.random() < 0.7 else [fine]
    while len(lst) < n or len(lst) > n:  # runs of the same reference, in any order
        lst[:] = [] if len(lst) > n else lst
        ref = r.choice(others)
        lst.extend({"$ref": ref} for _ in range(min(r.choice([1, 1, 2, 3]), n - len(lst))))
    c = canon(d)
    if c is None or judge(c)[0] != "ok":
        return
    good(case, d)
    i = r.choice([0, n - 1, r.randrange(n)])
    how = r.choice(FAULTS)
    x = spoil(r, d, (*path[:-1], i), site[3], how)
    if x is None:
        return
    rejected(case, x[0], f"{how} reference as item {i} of {n} at {'/'.join(map(str, path[:-1]))}", f"bad-reference-accepted:{how}", ["parse"])
    case.see("crowd")
    if any(y == z and not y["$ref"].startswith("#") for y, z in zip(lst, lst[1:])) and i > 1:
        case.see("crowd:external")
    case.distinct("crowd", site[0], site[1], how, n, i)


def names(case):
    """All map entries called like fields of the specification: a reference of the wrong kind is still noticed."""
    r = case.rng
    pool = [r.choice(gen.HOSTILE_KEYS) for _ in range(r.choice([1, 2, 3]))]
    site = REF_SITES[case.i % len(REF_SITES)]
    got = site_doc(case, site, key_pool=pool, extra=3)
    if got is None:
        case.see("generator:none")
        return
    d, path = got
    good(case, d)
    for how in r.sample(FAULTS, 3):
        x = spoil(r, d, path, site[3], how)
        if x is None:
            continue
        rejected(case, x[0], f"{how} reference {get_at(x[0], path)['$ref']!r:.100} at {'/'.join(map(str, path))}", f"bad-reference-accepted:{how}", ["parse"])
        case.see("names")
        case.state("names", site[0], site[1], pool[0])
    case.distinct("names", path, pool)


def free_names(case):
    """Members whose names the user may choose freely, holding a bad reference."""
    for _ in range(3):
        x = free_names_doc(case)
        if x is None or x[1] is None:
            continue
        d, path, how = x
        rejected(case, d, f"{how} reference {get_at(d, path)['$ref']!r:.100} at {'/'.join(map(str, path))!r}", f"bad-reference-accepted:{how}")
        case.see("free-names")
        case.distinct("free", path)


def several(case):
    """More than one bad reference, and bad references behind good ones that share their string."""
    r = case.rng
    d = consistent_doc(case)
    if d is None:
        return
    k = 0
    cur = d
    for _ in range(r.choice([2, 3, 5])):
        b = broken_doc(case, cur)
        if b is None:
            break
        cur, k = b[0], k + 1
    if k:
        rejected(case, cur, f"{k} bad references", routes=["parse"])
        case.see("several")


def late(case):
    """A valid live document made inconsistent by in-place edits is caught by the next assignment."""
    r = case.rng
    d = consistent_doc(case)
    if d is None:
        return
    m = good(case, d)
    rs = [(p, n) for p, n in ref_sites(d)]
    if not rs:
        return
    p, _ = r.choice(rs)
    try:
        parent = live_at(m, p[:-1]) if not isinstance(p[-1], int) else None
        live = live_at(m, p) if parent is not None else live_list(m, p)
    except (KeyError, TypeError, AttributeError):
        return
    if type(live) is not lib.Reference:
        return
    live.ref = "#/components/schemas/not-there-at-all"
    st, e = lib.attempt(setattr, m, "default_content_type", "text/plain")
    case.check(st == "invalid", "bad-reference-accepted:late", lambda: f"reference at {'/'.join(map(str, p))} edited to dangle, next assignment: {st}", d)
    case.see("late")


def live_list(m, p):
    return live_at(m, p[:-1])[p[-1]]


def history(case):
    """Sections assigned on a live document: decision equals the oracle's for the resulting document."""
    r = case.rng
    d = consistent_doc(case)
    if d is None:
        return
    m = good(case, d)
    for _ in range(5):
        other = consistent_doc(case) if r.random() < 0.4 else (broken_doc(case, d) or (None,))[0]
        if other is None:
            continue
        sec, py = r.choice([("servers", "servers"), ("channels", "channels"), ("operations", "operations"), ("components", "components"), ("info", "info")])
        nxt = {**d, sec: other[sec]} if sec in other else {k: x for k, x in d.items() if k != sec}
        if "info" not in nxt:
            continue
        c = canon(nxt)
        if c is None:
            continue
        st, why, _ = judge(c)
        if st == "open":
            continue
        ast, e = lib.attempt(setattr, m, py, jx(nxt.get(sec)))
        case.check(ast != "crash", "wrong-exception", lambda: f"{sec}: {e!r:.300}", nxt)
        case.check((ast == "ok") == (st == "ok"), "assignment-reference-decision", lambda: f"document.{py} = ...: {ast} {e!s:.300}; oracle {st} {why[:3]}", [d, nxt])
        case.see("history:" + st)
        if ast == "ok":
            d = nxt
    case.distinct("history", d)


def large(case):
    """One bad reference in a document with very many distinct good ones: a string used before for another kind, or any other fault."""
    r = case.rng
    site = REF_SITES[case.i % len(REF_SITES)]
    got = site_doc(case, site, p=0.05)
    if got is None:
        case.see("generator:none")
        return
    d, path = got
    n = r.choice([40, 70, 130, 270] + ([1100] if case.run.tier != "quick" or case.i % 40 == 0 else []))
    at = swell(r, d, n)
    if not at:
        case.see("generator:bad")
        return
    if path[:2] == ("info", "tags"):  # may have moved
        path = next((p for p, want in ref_sites(d) if want == site[3] and len(p) == len(path)), path)
    good(case, d)
    for p, names in ((path, site[3]), r.choice(at)):
        for how in ("shared", r.choice(FAULTS)):
            x = spoil(r, d, p, names, how)
            if x is None:
                continue
            rejected(case, x[0], f"{how} reference {get_at(x[0], p)['$ref']!r:.100} at {'/'.join(map(str, p))} among {len(at)} others", f"bad-reference-accepted:{how}", ["parse"])
            case.see("large", "large:" + how)
    case.counts["large:references"] += len(at)
    case.state("large", site[0], site[1], n)
    case.distinct("large", path, n)


def twins(case):
    """Equal or nearly equal neighbours: a bad reference in one of them is noticed."""
    r = case.rng
    site, way = SHAPES[case.i % len(SHAPES)]
    got = site_doc(case, site, p=0.05, way=way)
    two = got and twin(r, *got)
    if not two or judge(canon(two[0]))[0] != "ok":
        case.see("generator:none")
        return
    d, path = two[0], r.choice([got[1], two[1]])
    good(case, d)
    x = spoil(r, d, path, dict(ref_sites(d))[path], r.choice(FAULTS))
    if x is None:
        return
    rejected(case, x[0], f"{x[1]} reference {get_at(x[0], path)['$ref']!r:.100} at {'/'.join(map(str, path))}, one of twins {got[1]} {two[1]}", f"bad-reference-accepted:{x[1]}", ["parse"])
    case.see("twins")
    case.state("twins", site[0], site[1], [n for n, (a, b) in enumerate(zip(got[1], two[1])) if a != b])


def equal_parts(case):
    """Lists and maps holding nothing but equal entries, each with the same bad reference."""
    r = case.rng
    site, way = SHAPES[case.i % len(SHAPES)]
    got = site_doc(case, site, p=0.05, way=way)
    if not got:
        case.see("generator:none")
        return
    x = spoil(r, got[0], got[1], dict(ref_sites(got[0]))[got[1]], r.choice(FAULTS))
    many = x and clones(r, x[0], got[1])
    if not many:
        return
    d, path, n = many
    c = canon(d)
    if c is None or judge(c)[0] != "bad":
        return
    rejected(case, d, f"{x[1]} reference {get_at(d, path)['$ref']!r:.100} in {n} equal parts, at {'/'.join(map(str, path))}", f"bad-reference-accepted:{x[1]}", ["parse"])
    case.see("equal-parts")


FACTOR = 2
STAGES = {"sites": (sites, len(REF_SITES) * 8, len(REF_SITES) * 320), "documents": (documents, 200, 10000), "crowd": (crowd, len(LISTS) * 8, len(LISTS) * 200),
          "names": (names, len(REF_SITES) * 3, len(REF_SITES) * 100), "free_names": (free_names, 80, 4000), "several": (several, 60, 3000), "late": (late, 120, 4000),
          "kinds": (kinds, len(SHAPES), len(SHAPES) * 40), "shared_object": (shared_object, 150, 6000), "history": (history, 100, 5000), "large": (large, len(REF_SITES), len(REF_SITES) * 30), "twins": (twins, len(SHAPES), len(SHAPES) * 20), "equal_parts": (equal_parts, len(SHAPES), len(SHAPES) * 20)}
FLOORS = {"state:faults": 460, "documents": 250, "crowd": 60, "crowd:external": 15, "names": 250, "free-names": 60, "late": 50, "history:bad": 60, "history:ok": 60, "fault:cycle": 60, "fault:shared": 30, "kinds": 4500,
          "state:kinds": 1000, "state:ways": 300, "shared-object:bad": 100, "shared-object:ok": 10, "large": 200, "large:shared": 80, "twins": 350, "equal-parts": 350}
