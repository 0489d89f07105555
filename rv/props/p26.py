"""P26: validation has no memory and no cross-talk between threads (history, cold-start and thread-stress monitors)."""

import atexit
import contextlib
import gc
import json
import sys
import threading
import time
import warnings

from rv import gen, lib
from rv.gen import get_at, jx
from rv.outcome import Pristine, ThreadTap, V, judged, outcome
from rv.props.p16 import reach
from rv.props.p24 import tracing, Trace
from rv.refs import EXTERNAL, broken_doc, canon, consistent_doc, pointer, ref_sites, table
from rv.refval import DOCS, TAGS, base_doc, wrong_refs
from rv.spec import deep_eq, interpret
from rv.util import JUNK, ROOT, T, rand_doc

RULE = ("a case is a pool of good and bad documents whose outcome (decision, errors, warnings, result) is first computed each in its own freshly forked process; then they are validated in random "
        "histories, by reused validator instances, or by many threads with forced switches, and every outcome must equal the pristine one; thread switches are recorded as states")
ASSUMPTIONS = ["thread interleavings are provoked (tiny switch interval, yields injected at library lines), not enumerated"]
WORKERS = 6
_server = {}


def pristine():
    import os

    key = os.getpid()
    if key not in _server:
        _server[key] = Pristine()
        atexit.register(_server[key].close)
    return _server[key]


def pool(case, n):
    """[document text, validators, route] jobs of all kinds."""
    r = case.rng
    out = []
    while len(out) < n:
        k = r.choice(["good", "good", "bad", "bad", "external", "tags", "docs", "invalid", "any", "twin", "same"])
        d, vs = None, r.choice([["U"], ["U"], ["T"], ["D"], ["U", "T"], ["T", "D"], ["D", "U", "T"], []])
        if k in ("good", "external"):
            d = consistent_doc(case, ext=0.3 if k == "external" else 0)
        elif k == "bad":
            d = consistent_doc(case)
            b = d and broken_doc(case, d)
            for _ in range(r.choice([0, 0, 1, 3, 6])):  # several faults: which one is reported must not depend on anything else
                b = (b and canon(b[0]) is not None and broken_doc(case, b[0])) or b
            d, vs = (b[0], ["U"]) if b else (None, vs)
        elif k in ("tags", "docs"):
            kind = TAGS if k == "tags" else DOCS
            d = base_doc(case, kind, p=0.15)
            vs = ["T" if k == "tags" else "D"]
            if d and r.random() < 0.5:
                yes = kind.sites(d)[0]
                if yes:
                    get_at(d, r.choice(yes))["$ref"] = r.choice(wrong_refs(kind, r, d))
        elif k == "invalid":
            d, _ = rand_doc(case)
            d = d and gen.mutate(r, T(ROOT), jx(d))[0]
        elif k == "any":
            d, _ = rand_doc(case)
        elif k == "twin" and out:  # same names, other contents: what a stale cache would confuse
            d = json.loads(r.choice(out)[0])
            ss = ref_sites(d) if isinstance(d, dict) and interpret(T(ROOT), d).status == "ok" else []
            if ss:
                p, _ = r.choice(ss)
                q, _ = r.choice(ss)
                get_at(d, p)["$ref"] = r.choice([get_at(d, q)["$ref"], "#/components/tags/gone", r.choice(EXTERNAL)])
            vs = r.choice([["U"], ["T"], ["D"]])
        elif k == "same" and out:
            d, _vs, _ = r.choice(out)
            d = json.loads(d)
        if d is None or not isinstance(d, dict):
            continue
        route = r.choice(["parse", "parse", "kwargs", "json", "assign", "call"])
        if route == "kwargs" and not all(isinstance(x, str) for x in d):
            continue
        try:
            out.append([json.dumps(d), vs, route])
        except (TypeError, ValueError):
            continue
        case.see("pool:" + k)
    return out


def same(case, a, b, what, data=None):
    case.check(a == b, "outcome-differs", lambda: f"{what}: in a fresh process {str(a)[:500]}; here {str(b)[:500]}", data)
    case.see("compared", "outcome:" + a[0])


def histories(case):
    """Validations in random order and number, in this (used) process."""
    r = case.rng
    jobs = pool(case, r.choice([4, 8]))
    base = [pristine().ask([j])[0] for j in jobs]
    kept = {c: c() for c in V.values()} if r.random() < 0.5 else None
    with ThreadTap() as tap:
        for n in range(len(jobs) * 3):
            i = r.randrange(len(jobs))
            same(case, base[i], outcome(*jobs[i], tap, kept), f"validation {n} of a history, document {i}", jobs[i])
    for j, b in zip(jobs, base):
        case.distinct(j)
        case.state("outcomes", b[0], j[1], j[2])
    case.sample([[j[1], j[2], b[0]] for j, b in zip(jobs, base)])


def within(case):
    """Validations made inside another validation, by a customised validator of the outer one."""
    r = case.rng
    jobs = [j for j in pool(case, 8) if j[2] != "live"]
    base = [pristine().ask([j])[0] for j in jobs]
    outer = [i for i, j in enumerate(jobs) if base[i][0] in ("ok", "invalid", "refused")]
    i = r.choice(outer)
    depth, runs = [0], [0]
    with ThreadTap() as tap:
        def inner():
            if depth[0] >= r.choice([1, 1, 2]) or runs[0] >= 6:
                return
            depth[0] += 1
            runs[0] += 1
            held = tap.take()
            k = r.randrange(len(jobs))
            try:
                same(case, base[k], outcome(*jobs[k], tap), f"document {k} validated inside the validation of document {i}", jobs[k])
            finally:
                depth[0] -= 1
                tap.by[threading.get_ident()] = held
            case.see("within")
            case.state("within", jobs[i][1], jobs[k][1], base[k][0])

        def hooked(cls, names):
            def wrap(n):
                def hook(self, *a, **k):
                    first = r.random() < 0.5
                    if first:
                        inner()
                    out = getattr(cls, n)(self, *a, **k)
                    if not first:
                        inner()
                    return out

                return hook

            return type(cls.__name__, (cls,), {n: wrap(n) for n in names if hasattr(cls, n)})

        vs = {"U": hooked(V["U"], ["validate_reference"]), "T": hooked(V["T"], [TAGS.internal, TAGS.external]), "D": hooked(V["D"], [DOCS.internal, DOCS.external])}
        got = outcome(*jobs[i], tap, V=vs)
    same(case, base[i], got, f"document {i}, with validations of others inside its own", jobs[i])
    case.distinct("within", jobs[i])


def settings(case):
    """The same validations under other settings of the interpreter that are of no consequence."""
    r = case.rng
    jobs = pool(case, 6)
    base = [pristine().ask([j])[0] for j in jobs]
    for how in r.sample([*lib.LOG_SETTINGS, "warnings-error", "no-gc", "gc-often"], 5):
        for j, b in zip(jobs, base):
            if j[2] == "live":
                continue
            with ThreadTap() as tap, setting(how):
                got = outcome(*j, tap)
            case.check(b[:-1] == got[:-1], "outcome-differs", lambda: f"with {how}: in a fresh process {str(b)[:400]}; here {str(got)[:400]}", j)
            case.see("settings")
            case.state("settings", how, b[0])


@contextlib.contextmanager
def setting(how):
    if how in lib.LOG_SETTINGS:
        with lib.log_setting(how):
            yield
    elif how == "warnings-error":
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            yield
    elif how == "no-gc":
        on = gc.isenabled()
        gc.disable()
        try:
            yield
        finally:
            if on:
                gc.enable()
    elif how == "gc-often":
        old = gc.get_threshold()
        gc.set_threshold(7)
        try:
            yield
        finally:
            gc.set_threshold(*old)


def sequence(case):
    """A sequence of validations inside one fresh process equals the same validations each in their own."""
    r = case.rng
    jobs = pool(case, 6)
    base = [pristine().ask([j])[0] for j in jobs]
    order = [r.randrange(len(jobs)) for _ in range(12)]
    got = pristine().ask([jobs[i] for i in order])
    for n, i in enumerate(order):
        same(case, base[i], got[n], f"validation {n} of a sequence in one process", jobs[i])
    case.see("sequence")


def cold(case):
    """Threads that perform the very first validations of a process at the same time."""
    r = case.rng
    jobs = pool(case, r.choice([3, 6, 10]))
    if r.random() < 0.3:
        jobs = [jobs[0]] * 8
    base = [pristine().ask([j])[0] for j in jobs]
    got = pristine().ask(jobs, threads=True, switch=r.choice([1e-6, 1e-5, 1e-4]))
    for j, a, b in zip(jobs, base, got):
        same(case, a, b, "first validation of a process, with other threads", j)
    case.see("cold")


def library_code():
    """Code objects of the library's own functions."""
    out, todo = [], [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "asyncapi3"]
    seen = set()
    for mod in todo:
        for x in list(vars(mod).values()):
            for f in [x, *(list(vars(x).values()) if isinstance(x, type) else [])]:
                f = getattr(f, "__func__", f)
                f = getattr(f, "wrapped", f)
                f = getattr(f, "__func__", f)
                c = getattr(f, "__code__", None)
                if c is not None and c not in seen and c.co_filename.startswith(lib.REPO):
                    seen.add(c)
                    out.append(c)
    return out


TOOL = 3
MON = sys.monitoring


class Switches:
    """Yields injected at lines of some of the library's functions, and the resulting order of threads."""

    def __init__(self, rng, p):
        self.seq = []
        self.rnd = [rng.random() < p for _ in range(4096)]
        codes = library_code()
        self.codes = rng.sample(codes, max(1, int(len(codes) * rng.choice([0.1, 0.3, 0.6]))))
        self.i = 0

    def line(self, code, no):
        self.i += 1
        me = threading.get_ident()
        if not self.seq or self.seq[-1][0] != me:
            self.seq.append((me, code.co_name, no))
        if self.rnd[self.i % 4096]:
            time.sleep(0)

    def __enter__(self):
        MON.use_tool_id(TOOL, "verif")
        MON.register_callback(TOOL, MON.events.LINE, self.line)
        for c in self.codes:
            MON.set_local_events(TOOL, c, MON.events.LINE)
        return self

    def __exit__(self, *exc):
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)


def run_threads(fns, switch=2e-5, tracer=None):
    old = sys.getswitchinterval()
    gate = threading.Barrier(len(fns))
    out = [None] * len(fns)

    def go(i):
        gate.wait()
        try:
            out[i] = fns[i]()
        except BaseException as e:  # noqa: BLE001
            out[i] = e

    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
    sys.setswitchinterval(switch)
    try:
        with tracer or contextlib.nullcontext():
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(old)
    for x in out:
        if isinstance(x, BaseException):
            raise x
    return out


def threads(case):
    """Many threads validating the pool over and over."""
    r = case.rng
    jobs = pool(case, r.choice([4, 8]))
    base = [pristine().ask([j])[0] for j in jobs]
    sw = Switches(r, r.choice([0.002, 0.01, 0.05]))
    n = r.choice([2, 4, 8])
    kept = {c: c() for c in V.values()} if r.random() < 0.3 else None
    plans = [[r.randrange(len(jobs)) for _ in range(r.choice([3, 6]))] for _ in range(n)]
    with ThreadTap() as tap:
        out = run_threads([lambda p=p: [outcome(*jobs[i], tap, kept) for i in p] for p in plans], tracer=sw)
    for p, o in zip(plans, out):
        for i, x in zip(p, o):
            same(case, base[i], x, f"one of {n} threads", jobs[i])
    ids = {t: k for k, t in enumerate(dict.fromkeys(s[0] for s in sw.seq))}
    case.counts["switches"] += len(sw.seq)
    case.state("interleavings", [(ids[a], b, c) for a, b, c in sw.seq[:400]])
    for _a, b, c in sw.seq:
        case.state("switch_points", b, c)
    case.see("threads")


def shared(case):
    """One input, one live document, read and validated by several threads at once."""
    r = case.rng
    d = consistent_doc(case, ext=0.1)
    if d is None:
        return
    data = {**jx(d), "extra_validators": [V["U"]]}
    live = lib.AsyncAPI3.model_validate(data)
    want, frozen = lib.dumps(live), json.dumps(d)
    sw = Switches(r, r.choice([0.002, 0.02]))

    def work(k):
        out = []
        for _ in range(3):
            if k % 4 == 0:
                out.append(lib.dumps(lib.AsyncAPI3.model_validate(data)))
            elif k % 4 == 1:
                out.append(lib.dumps(lib.AsyncAPI3.model_validate(live)))
            elif k % 4 == 2:
                V["U"]()(live)
                out.append(lib.dumps(live))
            else:
                out.append(lib.dumps(lib.AsyncAPI3(**{**d, "info": live.info, "components": live.components}, extra_validators=[V["U"]])))
        return out

    with ThreadTap():
        out = run_threads([lambda k=k: work(k) for k in range(r.choice([4, 6, 8]))], tracer=sw)
    for o in out:
        for x in o:
            case.check(x == want, "outcome-differs", "threads sharing an input or a document got another result", d)
    case.check(json.dumps({k: x for k, x in data.items() if k != "extra_validators"}) == frozen, "input-modified", "shared input modified", d)
    case.check(lib.dumps(live) == want, "document-modified", "shared document modified", d)
    case.counts["switches"] += len(sw.seq)
    case.see("shared")


def live_docs(case):
    """One live document, good or bad, judged by many threads at once: validators called and pointers resolved."""
    r = case.rng
    d = consistent_doc(case, ext=r.choice([0, 0.3]))
    if d is None:
        return
    if r.random() < 0.5:
        b = broken_doc(case, d)
        d = b[0] if b else d
    elif r.random() < 0.4:
        kind = r.choice([TAGS, DOCS])
        x = base_doc(case, kind, p=0.15)
        yes = kind.sites(x)[0] if x else []
        if yes:
            d = x
            for p in r.sample(yes, min(2, len(yes))):
                get_at(d, p)["$ref"] = r.choice(wrong_refs(kind, r, d))
    c = canon(d)
    ptrs = [pointer(p) for p in table(c)] + [get_at(c, p)["$ref"] for p, _ in ref_sites(c)] + ["#/components/tags/none", "https://e.x/a"]
    plans = []
    for _k in range(r.choice([2, 4, 8])):
        plans.append((r.choices(["U", "U", "T", "D"], k=r.choice([1, 2, 3])), r.sample(ptrs, min(len(ptrs), r.choice([0, 2, 8])))))
    if r.random() < 0.4:
        plans = [plans[0]] * len(plans)
    base = [pristine().ask([[json.dumps(d), list(p), "live"]])[0][1] for p in plans]
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = lib.dumps(m)
    kept = {x: x() for x in V.values()} if r.random() < 0.3 else None
    sw = Switches(r, r.choice([0.005, 0.02, 0.1, 0.3]))
    n = r.choice([2, 4])
    with ThreadTap() as tap:
        out = run_threads([lambda p=p: [judged(m, p[0], tap, kept, p[1]) for _ in range(n)] for p in plans], tracer=sw, switch=r.choice([1e-6, 2e-5]))
    for p, b, o in zip(plans, base, out):
        for x in o:
            case.check(x == b, "outcome-differs", lambda: f"validators and pointers {p} on one shared document: alone {b!s:.600}; among threads {x!s:.600}", d)
        case.see(*("live:" + y[0] for y in b))
    case.check(lib.dumps(m) == before, "document-modified", "shared document modified", d)
    case.counts["switches"] += len(sw.seq)
    case.see("live")


def assignments(case):
    """Threads assigning to their own documents; each runs exactly its own processors."""
    r = case.rng
    n = r.choice([2, 4, 8])
    docs = []
    for _ in range(n):
        d, _c = rand_doc(case)
        if d is None:
            return
        docs.append(d)
    sharing = r.random() < 0.5  # the same processor classes for all documents, or their own
    tr0 = Trace()
    lists = [tracing(tr0, "c"), tracing(tr0, "v")]
    lives, traces = [], []
    for d in docs:
        tr = tr0 if sharing else Trace()
        c, v = lists if sharing else (tracing(tr, "c"), tracing(tr, "v"))
        lives.append(lib.AsyncAPI3.model_validate({**jx(d), "extra_converters": [c], "extra_validators": [v]}))
        traces.append(tr)
    for tr in traces:
        tr.events.clear()
    steps = r.choice([3, 6])
    sw = Switches(r, 0.1)
    expected = []

    def work(k):
        m = lives[k]
        log = []
        for j in range(steps):
            if (k + j) % 3 == 2:
                st, _e = lib.attempt(setattr, m, "asyncapi", "9")
                log.append(st)
            else:
                m.default_content_type = f"{k}/{j}"
                log.append("ok")
        return log

    out = run_threads([lambda k=k: work(k) for k in range(n)], tracer=sw)
    for k in range(n):
        want = ["invalid" if (k + j) % 3 == 2 else "ok" for j in range(steps)]
        case.check(out[k] == want, "outcome-differs", lambda: f"assignments in thread {k}: {out[k]}, expected {want}", docs[k])
        evs = [e for e in traces[k].events if e[2] is lives[k]]
        got = [e[0] for e in evs]
        case.check(got == ["c", "v"] * want.count("ok"), "processors-in-threads", lambda: f"thread {k}: processors ran {got} for assignments {want}", docs[k])
        vals = [e[3].get("defaultContentType") for e in evs if e[0] == "v"]
        exp = [f"{k}/{j}" for j in range(steps) if (k + j) % 3 != 2]
        case.check(vals == exp, "stale-values", lambda: f"thread {k}: validators saw {vals}, expected {exp}", docs[k])
    expected.append(0)
    case.counts["switches"] += len(sw.seq)
    case.see("assignments")


def interleaved(case):
    """A validation held open in one thread while others run to completion: no effect on either."""
    r = case.rng
    jobs = pool(case, 4)
    base = [pristine().ask([j])[0] for j in jobs]
    d = consistent_doc(case)
    if d is None:
        return
    inside, go_on = threading.Event(), threading.Event()

    class Hold:
        def __call__(self, spec):
            inside.set()
            if not go_on.wait(30):
                raise RuntimeError("stuck")
            return spec

    pos = r.choice(["converter", "first", "last"])
    lists = {"extra_converters": [Hold] if pos == "converter" else [], "extra_validators": [V["U"], V["T"]] if pos == "converter" else [Hold, V["U"]] if pos == "first" else [V["U"], Hold]}
    lists["extra_validators"] = [x for x in lists["extra_validators"] if x is not V["T"]]
    box = {}
    t = threading.Thread(target=lambda: box.setdefault("m", lib.attempt(lib.AsyncAPI3.model_validate, {**jx(d), **lists})))
    with ThreadTap() as tap:
        t.start()
        case.check(inside.wait(30), "never-ran", "processor did not run")
        for n in range(6):
            i = r.randrange(len(jobs))
            same(case, base[i], outcome(*jobs[i], tap), "validation while another thread is inside one", jobs[i])
        go_on.set()
        t.join(60)
    st, m = box["m"]
    case.check(st == "ok", "outcome-differs", lambda: f"held validation: {st} {m!s:.300}", d)
    case.see("interleaved")


def untouched(case):
    """Validators leave the document alone: same objects, same contents, same fields set."""
    r = case.rng
    d = consistent_doc(case, ext=r.choice([0, 0.2]))
    if d is None:
        return
    if r.random() < 0.5:
        b = broken_doc(case, d)
        d = b[0] if b else d
    m = lib.AsyncAPI3.model_validate(jx(d))
    before = reach(m)
    ids = {i: (p, frozen(x)) for i, (p, x) in before.items()}
    dump = lib.dump(m)
    import asyncapi3.validators as bundled

    for name in r.sample(sorted(bundled.__all__), len(bundled.__all__)):
        v = getattr(bundled, name)()
        for _ in range(2):
            try:
                got = v(m)
            except ValueError:
                case.see("refusing")
            else:
                case.check(got is m, "validator-return", f"{name} does not return the document", d)
        after = reach(m)
        now = {i: (p, frozen(x)) for i, (p, x) in after.items()}
        case.check(now == ids, "document-modified", lambda: f"{name} modified the document: {[(p, x) for i, (p, x) in now.items() if ids.get(i) != (p, x)][:2]}"[:600], d)
    case.check(deep_eq(lib.dump(m), dump), "document-modified", "dump changed", d)
    # the wrong way round: a rejected or junk validation in between changes nothing for the next
    for _ in range(3):
        lib.attempt(lib.AsyncAPI3.model_validate, jx(r.choice(JUNK)))
    case.check(lib.AsyncAPI3.model_validate(jx(d)) == m, "outcome-differs", "parsing again gives something else", d)
    case.see("untouched")
    case.counts["objects"] += len(ids)


def leaks(case):
    """Validating the same documents over and over keeps nothing alive: no document, and no object per validation."""
    jobs = pool(case, 5)

    def rounds(n):
        with ThreadTap() as tap:
            for _ in range(n):
                for j in jobs:
                    outcome(*j, tap, None)
        gc.collect()
        live = gc.get_objects()
        return len(live), sum(1 for x in live if type(x) is lib.AsyncAPI3)

    rounds(3)
    n0, d0 = rounds(1)
    n1, d1 = rounds(10)
    case.check(d1 <= d0, "documents-kept-alive", lambda: f"{d1 - d0} documents are still alive after {10 * len(jobs)} validations", jobs)
    case.check(n1 - n0 < 5 * len(jobs), "objects-kept-alive", lambda: f"{n1 - n0} more objects are alive after {10 * len(jobs)} validations of the same documents", jobs)
    case.see("leaks")
    case.state("leak", n1 - n0)


def frozen(x):
    if isinstance(x, (list, tuple)):
        return [id(y) if not isinstance(y, (str, int, float, type(None))) else y for y in x]
    if isinstance(x, dict):
        return [(k, id(y) if not isinstance(y, (str, int, float, type(None))) else y) for k, y in x.items()]
    if isinstance(x, set):
        return sorted(map(str, x))
    return type(x).__name__


FACTOR = 1
STAGES = {"settings": (settings, 24, 800), "within": (within, 120, 3000), "histories": (histories, 60, 1500), "sequence": (sequence, 30, 800), "cold": (cold, 40, 1200), "threads": (threads, 40, 1500), "shared": (shared, 40, 1500), "live": (live_docs, 60, 2500), "assignments": (assignments, 40, 1500),
          "interleaved": (interleaved, 25, 700), "untouched": (untouched, 120, 5000), "leaks": (leaks, 24, 600)}
FLOORS = {"settings": 150, "state:settings": 9, "within": 20, "compared": 900, "cold": 30, "threads": 30, "shared": 25, "assignments": 20, "interleaved": 15, "switches": 2000, "untouched": 60, "leaks": 20, "state:interleavings": 20, "outcome:ok": 200, "outcome:invalid": 150}
