"""P20: the unified validator accepts every consistent document and leaves it unchanged."""

from rv import gen, lib
from rv.embed import REF_SITES, SHAPES, good_embed
from rv.gen import Gen, get_at, jx
from rv.refs import PLACES, SECTION, add_target, addressable, canon, clones, connect, consistent_doc, decorate, free_names_doc, judge, merged, minimal, pointer, ref_sites, section, site_doc, site_verdict, swell
from rv.spec import deep_eq, first_diff
from rv.util import live_sections

RULE = ("a case is one document whose references all lead to the right kind of object per the pointer interpreter (hostile names, sharing, chains), "
        "given to the validator by several routes; reference positions and names are recorded as states")
V = lib.UnifiedReferencesValidator


def accepted(case, d, what, routes=2):
    r = case.rng
    c = canon(d)
    urls = judge(c)[2]  # external references are warned about (P23)
    plain = lib.AsyncAPI3.model_validate(jx(d))

    def attach():
        m = lib.AsyncAPI3.model_validate(jx(d))
        m.extra_validators = [V]
        return m

    def call():
        m = lib.AsyncAPI3.model_validate(jx(d))
        case.check(V()(m) is m, "validator-return", "calling the validator does not return the document", d)
        return m

    ways = {
        "parse": lambda: lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": [V]}),
        "kwargs": lambda: lib.AsyncAPI3(**jx(d), extra_validators=[V]),
        "objects": lambda: lib.AsyncAPI3.model_validate({**live_sections(r, d), "extra_validators": [V]}),
        "attach": attach, "call": call, "builder": lambda: rebuilt(d),
    }
    for how in ["parse", *r.sample([w for w in ways if w != "parse"], routes - 1)]:
        with lib.LogTap() as tap:
            st, m = lib.attempt(ways[how])
        case.check(st == "ok", "consistent-rejected", lambda: f"{what} by {how}: {m!s:.500}", d)
        if how == "builder":
            case.see("route:" + how)
            continue
        out = lib.dump(m)
        case.check(deep_eq(out, c), "document-changed", lambda: f"{what} by {how}: {first_diff(c, out)}", d)
        case.check(urls or not tap.warnings(), "spurious-warning", lambda: f"{what} by {how}: {tap.warnings()[:2]}", d)
        if how != "call":
            m.extra_validators = None
        case.check(m == plain, "document-changed", f"{what} by {how}: unequal to the document without validator", d)
        case.see("route:" + how)


def rebuilt(d):
    m = lib.AsyncAPI3.model_validate(jx(d))
    return lib.AsyncAPI3.as_builder(**{k: getattr(m, k) for k in ("info", "servers", "channels", "operations", "components")})


def note(case, d):
    rs = ref_sites(d)
    case.counts["references"] += len(rs)
    case.distinct(d)


def sites(case):
    site = REF_SITES[case.i % len(REF_SITES)]
    got = site_doc(case, site, extra=case.rng.choice([0, 2, 4]))
    if got is None:
        case.see("generator:none")
        return
    d, path = got
    accepted(case, d, f"reference {get_at(d, path)['$ref']!r:.100} at {'/'.join(map(str, path))}")
    case.state("sites", site[0], site[1])
    case.state("paths", [s if isinstance(s, str) else 0 for s in path])
    note(case, d)
    case.sample([path, get_at(d, path)["$ref"]])


def named(case):
    """All user-chosen names come from a tiny pool of specification words."""
    r = case.rng
    site = REF_SITES[case.i % len(REF_SITES)]
    pool = [r.choice(gen.HOSTILE_KEYS) for _ in range(r.choice([1, 1, 2]))] + r.sample([f"n{i}" for i in range(9)], 2)
    got = site_doc(case, site, key_pool=pool, extra=r.choice([0, 3]))
    if got is None:
        case.see("generator:none")
        return
    d, path = got
    accepted(case, d, f"reference {get_at(d, path)['$ref']!r:.100} at {'/'.join(map(str, path))}", 1)
    case.state("names", site[0], site[1], pool[0])
    case.state("name", pool[0])
    note(case, d)


def documents(case):
    d = consistent_doc(case, chain=case.rng.choice([0, 0.3, 0.8]), reuse=case.rng.choice([0.1, 0.5, 0.9]))
    if d is None:
        return
    accepted(case, d, f"document with {len(ref_sites(d))} references")
    case.see("documents")
    note(case, d)


def graphs(case):
    """Long chains and heavy sharing over one kind."""
    r = case.rng
    site = REF_SITES[case.i % len(REF_SITES)]
    got = site_doc(case, site)
    if got is None:
        return
    d, path = got
    g = Gen(r)
    kind = r.choice(site[3])
    if kind in ("Operation",):
        return
    tgt = add_target(r, d, [kind], g)
    if tgt is None:
        return
    n = r.choice([1, 5, 30] + ([400] if case.i % 19 == 0 else []) + gen.new_sizes(r, 600))
    prev = tgt
    secs = SECTION[kind]
    keys = []
    for i in range(n):
        sec = r.choice(secs)
        k = f"lk{i}-{r.randrange(99)}"
        section(d, sec)[k] = {"$ref": pointer(prev)}
        prev = (*sec.split("/"), k)
        keys.append(prev)
    if r.random() < 0.5:
        for s in secs:
            mp = section(d, s)
            items = list(mp.items())
            r.shuffle(items)
            mp.clear()
            mp.update(items)
    node = get_at(d, path)
    node["$ref"] = pointer(r.choice(keys)) if r.random() < 0.5 else pointer(prev)
    c = canon(d)
    if c is None or judge(c)[0] != "ok":
        case.see("generator:bad")
        return
    accepted(case, d, f"chain of {n} references", 1)
    case.see("graphs")
    case.state("graphs", site[0], site[1], min(n, 30))


def ways(case):
    """Every place a reference can stand in, each kind it may lead to, directly and over a link; long lists."""
    site, way = SHAPES[case.i % len(SHAPES)]
    r = case.rng
    got = site_doc(case, site, way=way, p=0.05)
    if got is None:
        case.see("generator:none")
        return
    d, path = got
    g = Gen(r)
    for kind in site[3]:
        for link in (False, True):
            x = jx(d)
            q = add_target(r, x, [kind], g)
            if q is None:
                continue
            if kind == "Operation":
                get_at(x, q)["channel"]["$ref"] = pointer(add_target(r, x, ["Channel"], g))
            ref = pointer(q)
            if link:
                sec = r.choice(SECTION[kind])
                k = r.choice([k for k in ("a-link", "link", "tags", "root") if k not in section(x, sec)])
                section(x, sec)[k] = {"$ref": ref}
                ref = f"#/{sec}/{k}"
            get_at(x, path)["$ref"] = ref
            c = canon(x)
            if c is None or judge(c)[0] != "ok":
                case.see("generator:bad")
                continue
            accepted(case, x, f"reference {ref!r:.100} at {'/'.join(map(str, path))}", 1)
            case.state("kinds", site[0], site[1], kind, link)
            case.see("ways")
    if "list" in site[2]:
        lst = get_at(d, path[:-1])
        fine = [get_at(d, p)["$ref"] for p, n in ref_sites(d) if n == site[3]]
        n = r.choice([2, 10, 11, 25, 101, 130] + ([1001] if case.run.tier != "quick" else []))
        lst[:] = [{"$ref": r.choice(fine)} for _ in range(n)]
        c = canon(d)
        if c is not None and judge(c)[0] == "ok":
            accepted(case, d, f"{n} references at {'/'.join(map(str, path[:-1]))}", 1)
            case.see("long-list" if n > 10 else "short-list")
    case.state("ways", site[0], site[1], [(e[0], e[1]) for e in way])
    note(case, d)


def inner_lists(case):
    """References below a late item of a long list."""
    r = case.rng
    hosts = [(s, w) for s, w in SHAPES if any("list" in e[2] for e in w)]
    site, way = hosts[case.i % len(hosts)]
    got = site_doc(case, site, way=way, p=0.05)
    if got is None:
        case.see("generator:none")
        return
    d, path = got
    cuts = [i for i, s in enumerate(path) if isinstance(s, int) and i < len(path) - 1]
    if not cuts:
        return
    cut = r.choice(cuts)
    lst = get_at(d, path[:cut])
    item = lst[path[cut]]
    n = r.choice([9, 10, 11, 99, 100, 120])
    lst[:] = [{"name": "pad"} if path[cut - 1] == "tags" else {} for _ in range(n)] + [item]
    c = canon(d)
    if c is None or judge(c)[0] != "ok":
        case.see("generator:bad")
        return
    accepted(case, d, f"reference below item {n} of {'/'.join(map(str, path[:cut]))}", 1)
    case.see("inner-list")
    note(case, d)


def inner_targets(case):
    """References to objects that are not in a section of their own: inline anywhere, next to members that look like attributes."""
    r = case.rng
    site = REF_SITES[case.i % len(REF_SITES)]
    got = site_doc(case, site, p=0.08)
    if got is None:
        return
    d, path = got
    kind = r.choice(site[3])
    name, way = r.choice([p for p in PLACES if p[0] == kind])
    value = minimal(r, name, p=0.05)
    two = good_embed(r, name, value, way=way, p=0.03)
    if two is None:
        case.see("generator:none")
        return
    e, at, _ = two
    for i in range(len(at) + 1):
        decorate(r, e, at[:i], get_at(e, at[:i]), at[i] if i < len(at) else None)
    x = merged(d, e)
    if not addressable(at) or connect(r, x, Gen(r), keep={p for p, _ in ref_sites(d)}) is None:
        case.see("generator:none")
        return
    get_at(x, path)["$ref"] = pointer(at)
    c = canon(x)
    if c is None or judge(c)[0] != "ok":
        case.see("generator:bad")
        return
    accepted(case, x, f"reference {pointer(at)!r:.100} at {'/'.join(map(str, path))}", 1)
    case.state("inner", site[0], site[1], [q[:2] for q in way])
    note(case, x)


def two_kinds(case):
    """One string used at several positions, each of which allows the target."""
    r = case.rng
    d = consistent_doc(case, p=0.3, depth=5)
    if d is None:
        return
    rs = ref_sites(d)
    n = 0
    for p, names in rs:
        q, _ = r.choice(rs)
        s = get_at(d, q)["$ref"]
        if p == q or site_verdict(d, s, names).status != "ok":
            continue
        get_at(d, p)["$ref"], old = s, get_at(d, p)["$ref"]
        c = canon(d)
        if c is None or judge(c)[0] != "ok":
            get_at(d, p)["$ref"] = old
        else:
            n += 1
    if n:
        accepted(case, d, f"{n} strings shared between positions", 1)
        case.see("shared")


def equal_parts(case):
    """Lists and maps holding nothing but equal entries."""
    r = case.rng
    site, way = SHAPES[case.i % len(SHAPES)]
    got = site_doc(case, site, p=0.05, way=way)
    many = got and clones(r, *got)
    if not many or judge(canon(many[0]))[0] != "ok":
        case.see("generator:none")
        return
    accepted(case, many[0], f"{many[2]} equal parts at {'/'.join(map(str, many[1]))}", 1)
    case.see("equal-parts")


def free_names(case):
    """Members whose names the user may choose freely."""
    for _ in range(3):
        x = free_names_doc(case)
        if x is not None and x[1] is None:
            accepted(case, x[0], f"variables {sorted((x[0].get('servers') or x[0]['components']['servers'])['s']['variables'])!r:.200}")
            case.see("free-names")


def history(case):
    """A growing document: every assignment that keeps it consistent is accepted."""
    r = case.rng
    d = consistent_doc(case)
    e = consistent_doc(case)
    if d is None or e is None:
        return
    m = lib.AsyncAPI3.model_validate({**jx(d), "extra_validators": [V]})
    for sec in ("components", "servers", "channels", "operations", "info"):
        if sec not in e:
            continue
        nxt = {**d, sec: e[sec]}
        c = canon(nxt)
        if c is None or judge(c)[0] != "ok":
            continue
        st, x = lib.attempt(setattr, m, sec, jx(e[sec]))
        case.check(st == "ok", "consistent-assignment-rejected", lambda: f"document.{sec} = ...: {x!s:.400}", [d, nxt])
        d = nxt
        case.check(deep_eq(lib.dump(m), c), "document-changed", lambda: f"after assigning {sec}: {first_diff(c, lib.dump(m))}", nxt)
        case.see("history")


def large(case):
    """Very many distinct references and entries."""
    r = case.rng
    d = consistent_doc(case) if case.i % 2 else (site_doc(case, REF_SITES[case.i // 2 % N], p=0.05) or (None,))[0]
    if d is None:
        return
    n = r.choice([40, 70, 130, 270] + ([1100] if case.run.tier != "quick" or case.i % 40 == 0 else []))
    at = swell(r, d, n)
    if not at:
        case.see("generator:bad")
        return
    accepted(case, d, f"document with {len(at)} more references", 2)
    case.see("large")
    case.counts["large:references"] += len(at)
    case.distinct("large", d)


N = len(REF_SITES)
FACTOR = 3
STAGES = {"sites": (sites, N * 6, N * 400), "named": (named, N * 6, N * 300), "documents": (documents, 150, 8000), "graphs": (graphs, N * 2, N * 60), "two_kinds": (two_kinds, 100, 5000),
          "ways": (ways, len(SHAPES), len(SHAPES) * 60), "inner_targets": (inner_targets, N * 8, N * 500), "inner_lists": (inner_lists, 200, 6000), "equal_parts": (equal_parts, len(SHAPES) // 2, len(SHAPES) * 20), "free_names": (free_names, 60, 3000), "history": (history, 80, 4000), "large": (large, N // 2, N * 20)}
FLOORS = {"state:sites": 70, "state:paths": 330, "state:names": 300, "state:name": 40, "documents": 100, "graphs": 70, "shared": 30, "history": 60, "references": 1200,
          "ways": 600, "state:ways": 300, "long-list": 20, "inner-list": 100, "state:inner": 150, "large": 40, "free-names": 15, "equal-parts": 200}
