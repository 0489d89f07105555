"""P18: reference resolution against a pointer interpreter over the JSON document."""

import time

from rv import gen, lib
from rv.embed import REF_SITES, good_embed
from rv.gen import Gen, jx
from rv.refs import (EXTERNAL, PLACES, SECTION, UNSUPPORTED, add_target, addressable, canon, consistent_doc, decorate, live_at, minimal, near_miss, pointer, ref_sites, resolve, section,
                     site_doc, table)
from rv.spec import deep_eq
from rv.util import FIELDS, fix_min

RULE = ("a case resolves a set of pointers in one document and compares result identity, type, path, log records and document dump with an independent "
        "pointer interpreter; distinct (reference string, outcome) pairs counted")


def probe(case, d, m, ref, before=None):
    """Resolve `ref` in the live document `m` of the canonical JSON `d`, and judge the outcome."""
    want = resolve(d, ref)
    with lib.LogTap() as tap:
        t0 = time.perf_counter()
        st, res = lib.attempt(lib.resolve_reference, ref, m)
        dt = time.perf_counter() - t0
    w = lambda: f"{ref!r:.200}: {st} {res!r:.250}; oracle {want}"  # noqa: E731
    case.check(st == "ok" or isinstance(res, ValueError), "resolution-crash", w, d)
    case.check(dt < 20, "resolution-slow", lambda: f"{w()} took {dt:.1f}s", None)
    case.see("probe:" + want.status)
    case.distinct(ref, want.status, want.kind)
    if want.status == "ok":
        case.check(st == "ok" and res is not None, "target-not-found", w, d)
        live = live_at(m, want.path)
        case.check(res.resolved_object is live, "wrong-object", w, d)
        case.check(res.resolved_type is type(live), "wrong-type", w, d)
        case.check(res.path == ".".join(("spec", *want.path)), "wrong-path", w, d)
        case.check(not isinstance(res.resolved_object, lib.Reference), "stopped-at-reference", w, d)
        case.check(not tap.warnings(), "spurious-warning", lambda: f"{w()} warned {tap.warnings()[:2]}", d)
        case.see(f"hops:{min(want.hops, 3)}" + ("+" if want.hops >= 3 else ""))
        case.state("kinds", want.kind)
    elif want.status == "bad":
        case.check(st != "ok", "bad-reference-resolved", w, d)
        case.check(not tap.warnings(), "spurious-warning", lambda: f"{w()} warned {tap.warnings()[:2]}", d)
    elif want.status == "external":
        case.check(st == "ok" and res is None, "external-result", w, d)
        ws = tap.warnings()
        case.check(len(ws) == 1 and want.url in ws[0], "external-warning", lambda: f"{w()} warned {ws}", d)
    if before is not None:
        case.check(deep_eq(lib.dump(m), before), "document-changed", w, d)
    return want


def documents(case):
    d = consistent_doc(case, ext=0.1)
    if d is None:
        return
    r = case.rng
    c = canon(d)
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = lib.dump(m)
    ptrs = [pointer(p) for p in table(c)]
    r.shuffle(ptrs)
    refs = [gen.get_at(c, p)["$ref"] for p, _ in ref_sites(c)]
    r.shuffle(refs)
    probes = ptrs[:20] + refs[:15]
    probes += [near_miss(r, c, x) for x in probes[:20]]
    probes += r.sample(UNSUPPORTED, 3) + r.sample(EXTERNAL, 2) + ["#/info", "#/info/title", "#/components", "#/servers", "#/asyncapi", "#/channels/none"]
    for ref in probes:
        probe(case, c, m, ref)
    for ref in probes[:5]:  # again, later: no memory of earlier resolutions
        probe(case, c, m, ref)
    case.check(deep_eq(lib.dump(m), before), "document-changed", "resolving changed the document", d)
    case.sample(probes[:8])


def spelling(case):
    """Right pointers with one more character, whichever it is, anywhere."""
    d = consistent_doc(case, ext=0)
    if d is None:
        return
    r = case.rng
    c = canon(d)
    m = lib.AsyncAPI3.model_validate(jx(d))
    refs = [x for x in {gen.get_at(c, p)["$ref"] for p, _ in ref_sites(c)} if x.startswith("#")]
    if not refs:
        return
    for ref in r.sample(sorted(refs), min(3, len(refs))):
        cuts = [len(ref), len(ref), *[i + r.choice([0, 1]) for i, x in enumerate(ref) if x == "/"], r.randrange(1, len(ref) + 1)]
        for n in range(1, 127):
            i = max(1, r.choice(cuts))
            s = ref[:i] + chr(n) + r.choice(["", "", "x", "1"]) + ref[i:]
            probe(case, c, m, s)
            case.see("spelling")


def chains(case):
    """Long chains, cycles and diamonds of references."""
    r = case.rng
    kind = r.choice(sorted(SECTION))
    secs = SECTION[kind]
    d = {"info": {"title": "", "version": ""}}
    g = Gen(r)
    n = r.choice([1, 2, 3, 8, 12, 60, 300] + ([1500, 3000] if case.i % 10 == 0 else []) + gen.new_sizes(r, 1500))
    tgt = add_target(r, d, [kind], g)
    if tgt is None:
        return
    if kind == "Operation":
        gen.get_at(d, tgt)["channel"]["$ref"] = "#/channels/none"
    spots = []
    for i in range(n):
        sec = r.choice(secs)
        spots.append((sec, f"link-{i}-{r.randrange(1000)}"))
    r.choice([lambda x: None, r.shuffle])(spots)
    end = r.choice(["target", "target", "target", "cycle", "dangling", "external", "unsupported", "self"])
    for i, (sec, k) in enumerate(spots):
        last = i == n - 1
        if not last:
            nxt = f"#/{spots[i + 1][0]}/{spots[i + 1][1]}"
        elif end == "target":
            nxt = pointer(tgt)
        elif end == "cycle":
            s2, k2 = r.choice(spots)
            nxt = f"#/{s2}/{k2}"
        elif end == "self":
            nxt = f"#/{sec}/{k}"
        elif end == "dangling":
            nxt = r.choice([f"#/{sec}/absent", "#/nowhere", "#/components/none/x"])
        elif end == "external":
            nxt = r.choice(EXTERNAL)
        else:
            nxt = r.choice(UNSUPPORTED)
        section(d, sec)[k] = {"$ref": nxt}
    if r.random() < 0.5:
        for s in set(sec for sec, _ in spots):
            mp = section(d, s)
            items = list(mp.items())
            r.shuffle(items)
            mp.clear()
            mp.update(items)
    c = canon(d)
    if c is None:
        case.see("generator:nonconforming")
        return
    st, m = lib.attempt(lib.AsyncAPI3.model_validate, jx(d))
    case.check(st == "ok", "rejects-conforming", lambda: f"chain document: {m!s:.300}", d)
    before = lib.dump(m)
    for i in {0, n - 1, n // 2, r.randrange(n)}:
        probe(case, c, m, f"#/{spots[i][0]}/{spots[i][1]}")
    case.check(deep_eq(lib.dump(m), before), "document-changed", "resolving changed the document", None)
    case.see("chain:" + end)
    case.state("chain", kind, end, min(n, 12))
    if n >= 1000:
        case.see("chain:long")


def positions(case):
    """Targets of every kind at every addressable position, incl. references met on the way."""
    site = REF_SITES[case.i % len(REF_SITES)]
    got = site_doc(case, site)
    if got is None:
        return
    d, path = got
    c = canon(d)
    m = lib.AsyncAPI3.model_validate(jx(d))
    probe(case, c, m, gen.get_at(c, path)["$ref"], lib.dump(m))
    for p in list(table(c))[:25]:
        probe(case, c, m, pointer(p))
    case.state("sites", site[0], site[1])


def places(case):
    """A pointer to every kind of object at every place it can stand in, next to members that look like attributes of the models."""
    name, way = PLACES[case.i % len(PLACES)]
    r = case.rng
    value = minimal(r, name, p=0.1)
    got = good_embed(r, name, value, way=way, p=0.08)
    if got is None:
        case.see("generator:none")
        return
    d, path, _ = got
    for i in range(len(path) + 1):
        x = gen.get_at(d, path[:i])
        decorate(r, d, path[:i], x, path[i] if i < len(path) else None)
    c = canon(d)
    if c is None:
        case.see("generator:nonconforming")
        return
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = lib.dump(m)
    if addressable(path):
        probe(case, c, m, pointer(path), before)
        case.state("places", name, [e[:2] for e in way])
    for p in list(table(c))[:12]:
        probe(case, c, m, pointer(p))


FREE = [(n, f) for n, f in FIELDS if f["type"] in (["any"], ["map", ["any"]])]
FALSY = [0, "", False, [], {}, 0.0]


def free(case):
    """Pointers into free-form data: existing entries, falsy ones included, and absent ones."""
    r = case.rng
    name, f = FREE[case.i % len(FREE)]
    data = {}
    x = data
    keys = []
    for _ in range(r.choice([1, 2, 2, 4])):
        k = r.choice(["a", "0", "root", "name", "x-a", "ref", "keys", "é", "a b", "tags", "schemas", "__class__", "A.b", "{}", "items"])
        keys.append(k)
        for j in r.sample(["b", "z", "get", "1", "x-y"], r.choice([0, 1, 3])):
            x[j] = jx(r.choice([*FALSY, *FALSY, 1, "s", [1], {"c": 1}, True]))
        x[k] = {}
        x = x[k]
    par = data
    for k in keys[:-1]:
        par = par[k]
    par[keys[-1]] = jx(r.choice([*FALSY, 1, "s", [{}], {"c": 0}]))
    o = fix_min(case, name, f["json"], data)
    o[f["json"]] = data
    got = good_embed(r, name, o, p=0.08)
    if got is None:
        case.see("generator:none")
        return
    d, head, _ = got
    c = canon(d)
    base = (*head, f["json"])
    if c is None or not addressable(base):
        case.see("generator:nonconforming")
        return
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = lib.dump(m)

    def walk(v, path):
        yield path, v
        if isinstance(v, dict):
            for k, y in v.items():
                yield from walk(y, (*path, k))

    for path, v in walk(data, base):
        ref = pointer(path)
        with lib.LogTap() as tap:
            st, res = lib.attempt(lib.resolve_reference, ref, m)
        w = lambda: f"{ref!r:.200}: {st} {res!r:.250}; the document holds {v!r:.80} there"  # noqa: B023, E731
        case.check(st == "ok" and res is not None, "target-not-found", w, d)
        case.check(type(res.resolved_object) is type(v) and deep_eq(res.resolved_object, v), "wrong-object", w, d)
        case.check(res.resolved_type is type(v), "wrong-type", w, d)
        case.check(res.path == ".".join(("spec", *path)), "wrong-path", w, d)
        case.check(not tap.warnings(), "spurious-warning", w, d)
        case.see("free:found" if v else "free:falsy")
        for k in ("absent", "model_fields", "root", "values", "copy", "upper"):
            if isinstance(v, list) or isinstance(v, dict) and k in v:
                continue
            ref = pointer((*path, k))
            st, res = lib.attempt(lib.resolve_reference, ref, m)
            case.check(st != "ok" and isinstance(res, ValueError), "bad-reference-resolved", lambda: f"{ref!r:.200}: {st} {res!r:.250}; nothing there", d)  # noqa: B023
            case.see("free:absent")
    case.check(deep_eq(lib.dump(m), before), "document-changed", "resolving changed the document", d)
    case.state("free", name, f["json"])
    case.distinct("free", base, data)


def garbage(case):
    r = case.rng
    d = consistent_doc(case, p=0.15, depth=3)
    if d is None:
        return
    c = canon(d)
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = lib.dump(m)
    ptrs = [pointer(p) for p in table(c)] or ["#/info"]
    for _ in range(40):
        x = r.random()
        if x < 0.3:
            s = r.choice(gen.STRINGS)
        elif x < 0.5:
            s = "#/" + "/".join(r.choice([*gen.HOSTILE_KEYS, *gen.STRINGS[:30]]) for _ in range(r.randrange(0, 5)))
        else:
            s = r.choice(ptrs)
            for _ in range(r.randrange(1, 4)):
                i = r.randrange(len(s) + 1)
                y = r.random()
                if y < 0.4:
                    s = s[:i] + r.choice(["/", "#", "~", "~1", "%", ".", "..", "\x00", " ", "é", "a", "0", "[0]", "{", "root"]) + s[i:]
                elif y < 0.8:
                    s = s[:i] + s[i + 1 :]
                else:
                    s = s + s
        probe(case, c, m, s)
    big = "#/" + "a/" * r.choice([1000, 20000]) + "b"
    probe(case, c, m, big)
    case.check(deep_eq(lib.dump(m), before), "document-changed", "resolving changed the document", d)
    case.see("garbage")


def lists(case):
    """Lists are no containers of targets: a position outside one fails like any other missing member."""
    r = case.rng
    d = consistent_doc(case, p=0.25, depth=4)
    if d is None:
        return
    c = canon(d)
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = lib.dump(m)

    def walk(v, path):
        if isinstance(v, list):
            yield path, v
        elif isinstance(v, dict) and "$ref" not in v:
            for k, y in v.items():
                if addressable((*path, k)):
                    yield from walk(y, (*path, k))

    found = list(walk(c, ()))
    r.shuffle(found)
    for path, v in found[:12]:
        n = len(v)
        for k in [str(n), str(n + 7), "-1", "-", "99999999999999999999", f"{n}.0", "\u0661\u0660\u0660", "\u00b2", "1e9", "length", "first", "*", "[0]", str(-n), str(-n - 1)]:
            for tail in ("", "/name"):
                ref = pointer((*path, k)) + tail
                st, res = lib.attempt(lib.resolve_reference, ref, m)
                case.check(st != "ok" and isinstance(res, ValueError), "bad-reference-resolved", lambda: f"{ref!r:.200}: {st} {res!r:.250}; the list there has {n} entries", d)  # noqa: B023
                case.see("list:outside")
        for i in (0, n - 1):
            st, res = lib.attempt(lib.resolve_reference, pointer((*path, str(i))), m)
            case.check(st == "ok" or isinstance(res, ValueError), "resolution-crash", lambda: f"{path} {i}: {st} {res!r:.250}", d)  # noqa: B023
        case.state("lists", path[0], path[-1])
    case.check(deep_eq(lib.dump(m), before), "document-changed", "resolving changed the document", d)


STAGES = {"spelling": (spelling, 24, 1000), "lists": (lists, 40, 2000), "places": (places, len(PLACES) // 2, len(PLACES) * 20), "documents": (documents, 160, 8000), "chains": (chains, 320, 12000), "positions": (positions, len(REF_SITES) * 2, len(REF_SITES) * 80), "free": (free, len(FREE) * 12, len(FREE) * 500), "garbage": (garbage, 80, 5000)}
FLOORS = {"spelling": 2000, "list:outside": 2000, "state:lists": 10, "probe:ok": 3500, "probe:bad": 3000, "probe:external": 250, "hops:3+": 120, "state:kinds": 60, "free:found": 300, "free:falsy": 200, "free:absent": 1000, "state:free": 4, "chain:cycle": 15, "chain:long": 5, "state:sites": 65, "garbage": 60, "state:places": 200}
