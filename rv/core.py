"""Runner: deterministic cases, observation counters, verdicts, evidence, replay."""

import collections
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def pj(x):
    return json.dumps(x, sort_keys=True, default=repr, ensure_ascii=True)


class Violation(Exception):
    """The monitored execution broke the property."""

    def __init__(self, mechanism, message, data=None):
        super().__init__(message)
        self.mechanism, self.message, self.data = mechanism, message, data


class Case:
    """One execution: its random source and everything the monitors observed in it."""

    def __init__(self, run, stage, i):
        self.run, self.stage, self.i = run, stage, i
        self.rng = random.Random(f"{run.seed}/{run.prop}/{stage}/{i}")
        self.counts = run.counts

    def see(self, *events):
        for e in events:
            self.counts[e] += 1

    def distinct(self, *parts):
        self.run.distinct.add(hashlib.blake2b(pj(parts).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def state(self, kind, *parts):
        self.run.states[kind].add(hashlib.blake2b(pj(parts).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def sample(self, what):
        if self.i < 3 and len(self.run.samples) < 6:
            s = pj({"stage": self.stage, "case": self.i, "observed": what})
            self.run.samples.append(s[:1500])

    def check(self, cond, mechanism, message, data=None):
        self.counts["assertions"] += 1
        if not cond:
            raise Violation(mechanism, message() if callable(message) else message, data() if callable(data) else data)

    def fail(self, mechanism, message, data=None):
        raise Violation(mechanism, message, data)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = collections.Counter()
        self.distinct = set()
        self.states = collections.defaultdict(set)
        self.samples = []
        self.violations = []
        self.errors = []
        self.evaluations = 0
        self.skipped = 0


def one(run, module, stage, i):
    fn = module.STAGES[stage][0]
    case = Case(run, stage, i)
    run.evaluations += 1
    try:
        fn(case)
        return True
    except Violation as v:
        run.violations.append({"stage": stage, "case": i, "mechanism": v.mechanism, "message": str(v.message)[:1500], "data": v.data})
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        from rv import lib

        frames = [f"{f.filename}:{f.lineno} {f.name}" for f in tb]
        if any(f.filename.startswith(lib.REPO + "/") for f in tb) or any("/pydantic/" in f.filename for f in tb):
            run.violations.append({"stage": stage, "case": i, "mechanism": f"crash:{type(e).__name__}",
                                   "message": f"unexpected {type(e).__name__}: {e}"[:1500], "data": {"frames": frames[-8:]}})
        else:
            run.errors.append("".join(traceback.format_exception(e))[-3000:])
    return False


def work(prop, tier, seed, modname, jobs, deadline, slot=0):
    import importlib

    module = importlib.import_module(modname)
    run = Run(prop, tier, seed)
    for stage, i in jobs:
        if time.time() > deadline:
            run.skipped += 1
            continue
        if NOW is not None:
            NOW[2 * slot], NOW[2 * slot + 1] = list(module.STAGES).index(stage), i
        if not one(run, module, stage, i) and (len(run.violations) >= 3 or len(run.errors) >= 2):
            break
    return (run.counts, run.distinct, dict(run.states), run.samples, run.violations, run.errors, run.evaluations, run.skipped)


DEEP = int(os.environ.get("VERIF_DEEP", "3"))  # how many times over the thorough numbers are run


def cases(module, stage, tier):
    """Cases of a stage: the quick number times the module's factor, at most the thorough number."""
    _fn, quick, thorough = module.STAGES[stage]
    factor = int(os.environ.get("VERIF_FACTOR", getattr(module, "FACTOR", 6)))  # set by hand for cheap runs against mutants
    return min(quick * factor, thorough) if tier == "quick" else thorough * DEEP


def plan(module, tier):
    jobs = []
    for stage in module.STAGES:
        n = cases(module, stage, tier)
        jobs += [(stage, i) for i in range(n)]
    return jobs


STALL = 240  # seconds one case may take before its process counts as hanging (cases take milliseconds to a few seconds)
NOW = None  # (stage index, case) each worker is at


def parallel(prop, tier, seed, module, parts, deadline, limit):
    """Run the parts in forked workers; a worker that dies or hangs is itself an observation."""
    global NOW
    ctx = multiprocessing.get_context("fork")
    NOW = ctx.Array("q", 2 * len(parts), lock=False)
    for k in range(len(parts)):
        NOW[2 * k] = -1
    procs, results = [], []
    for k, p in enumerate(parts):
        a, b = ctx.Pipe(False)

        def child(b=b, p=p, k=k):
            b.send(work(prop, tier, seed, module.__name__, p, deadline, k))
            b.close()

        pr = ctx.Process(target=child, daemon=False)
        pr.start()
        b.close()
        procs.append((pr, a))
    stages = list(module.STAGES)
    moved = [((-1, 0), time.time()) for _ in procs]
    for k, (pr, a) in enumerate(procs):
        got, why = None, ""
        try:
            while not a.poll(2.0):
                now = time.time()
                for j in range(len(procs)):
                    at = (NOW[2 * j], NOW[2 * j + 1])
                    if at != moved[j][0]:
                        moved[j] = (at, now)
                if now - moved[k][1] > STALL or now > deadline + 200:
                    why = f"made no progress for {now - moved[k][1]:.0f} s"
                    break
            else:
                got = a.recv()
        except EOFError:
            pr.join(10)
            why = f"died (exit code {pr.exitcode})"
        if got is None:
            stuck = pr.is_alive()
            if stuck:
                pr.kill()
            at = (stages[NOW[2 * k]], NOW[2 * k + 1]) if NOW[2 * k] >= 0 else ("start", 0)
            if (pr.exitcode == -9 and not stuck) or at[0] == "start":  # killed from outside: says nothing about the code
                got = (collections.Counter(), set(), {}, [], [], [f"worker {k} at {at}: {why}"], 0, 0)
            else:
                v = {"stage": at[0], "case": at[1], "mechanism": "process-died" if "died" in why else "hang", "message": f"the process running this case {why}", "data": None}
                got = (collections.Counter(), set(), {}, [], [v], [], 1, 0)
        pr.join(10)
        results.append(got)
    return results


def load_known():
    path = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def main(prop, module, tier, seed, replay=None):
    t0 = time.time()
    if replay:
        rec = json.load(open(replay))
        run = Run(prop, rec["tier"], rec["seed"])
        one(run, module, rec["stage"], rec["case"])
        for v in run.violations:
            print(json.dumps(v, indent=1, default=repr))
            print(f"VIOLATION property={prop} replay={replay}")
        for e in run.errors:
            print(e)
        print("replayed:", "violation" if run.violations else "error" if run.errors else "held")
        return 1 if run.violations else 2 if run.errors else 0

    jobs = plan(module, tier)
    limit = float(os.environ.get("VERIF_DEADLINE", 400 if tier == "quick" else 3000))
    deadline = t0 + limit
    workers = int(os.environ.get("VERIF_WORKERS", getattr(module, "WORKERS", 6) if tier == "quick" else 8))
    total = Run(prop, tier, seed)
    parts = [jobs[k::workers] for k in range(workers)]
    parts = [p for p in parts if p]
    results = parallel(prop, tier, seed, module, parts, deadline, limit)
    for counts, distinct, states, samples, violations, errors, ev, skipped in results:
        total.counts.update(counts)
        total.distinct |= distinct
        for k, s in states.items():
            total.states[k] |= s
        total.samples += samples
        total.violations += violations
        total.errors += errors
        total.evaluations += ev
        total.skipped += skipped

    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    for k in known:
        total.counts["known_finding_checks"] += 1
        still = module.KNOWN[k["mechanism"]]()
        if still:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            print(f"note: known finding no longer reproduces: {k['mechanism']}")
    known_mech = {k["mechanism"] for k in known}
    fresh = [v for v in total.violations if v["mechanism"] not in known_mech]

    for name, want in getattr(module, "FLOORS", {}).items():
        have = len(total.states[name[6:]]) if name.startswith("state:") else total.counts[name]
        if have < want and not fresh and not total.skipped:
            total.errors.append(f"inconclusive: monitor event {name!r} seen {have} times, floor {want}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.distinct),
            "rule": module.RULE,
            "samples": sorted(total.samples)[:6] or ["none"],
            "observed_events": dict(sorted(total.counts.items())),
            "distinct_states": {k: len(s) for k, s in sorted(total.states.items())},
            "stages": {s: cases(module, s, tier) for s in module.STAGES},
            "cases_skipped_at_deadline": total.skipped,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []) + [
            "CPython 3.12 and pydantic/pydantic-core as installed are trusted", "the reviewed catalog in rv/catalog.json states the object model"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)

    if fresh:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        fresh.sort(key=lambda v: (v["stage"], v["case"]))
        seen = set()
        for v in fresh:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            rp = os.path.join(ROOT, "replays", f"{prop}-{seed}-{v['stage']}-{v['case']}.json")
            with open(rp, "w") as fh:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, fh, indent=1, default=repr)
            print(f"  {v['mechanism']}: {v['message'][:600]}")
            print(f"VIOLATION property={prop} replay={rp}")
            if len(seen) >= 5:
                break
        return 1
    if total.errors:
        for e in total.errors[:3]:
            print("ERROR", e, file=sys.stderr)
        return 2
    print(f"held: property={prop} tier={tier} seed={seed} cases={total.evaluations} distinct={len(total.distinct)} "
          f"assertions={total.counts['assertions']} wall={ev['wall_s']}s")
    return 0
