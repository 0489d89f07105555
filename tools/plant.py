"""Trial of planted bugs: plant.py SPEC.py [--all] [id...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (python), needs, breaks.
Each is tried in a scratch copy of /repo: it must build, pass the stable tests, and its demonstration must pass on /repo and
fail on the copy.  Confirmed ones are written to seeded/<id>/ with the checks that report them.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))) if False else None
ORIG = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
SH = '#!/bin/bash\n# run in the tree to judge; exit 0: the property holds on the demonstrated input\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 200 /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t)


def original_lines(diff):
    """True when at least one removed line (or the context around an addition) comes from the base commit."""
    out = run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", diff], "/repo").stdout
    return out


def trial(b, every):
    d = f"/tmp/plant/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    res = {"id": b["id"], "property": b["property"]}
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                res["error"] = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                return res
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "-C", d, "diff"], d).stdout
        removed = []
        for f, _o, _n in b["edits"]:
            blame = run(["git", "-C", d, "blame", "-s", "HEAD", "--", f], d).stdout.splitlines()
            now = run(["git", "-C", d, "diff", "-U0", "--", f], d).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", now, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + max(n, 1)):
                    removed.append(ORIG.startswith(blame[k - 1].split()[0].lstrip("^")))
        res["original"] = f"{sum(removed)}/{len(removed)}"
        t = run([PY, "-B", "-m", "pytest", "-q", "-o", "addopts=", "-p", "no:cacheprovider", "-x", "--timeout=300"], d,
                {"PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": f"{d}-pyc"})
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        if t.returncode:
            res["error"] = "tests: " + "\n".join(t.stdout.strip().splitlines()[-4:])
            return res
        out = f"/tmp/plant/{b['id']}.seed"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/demo.sh", "w").write(SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.py", "w").write(b["demo"].lstrip())
        open(f"{out}/patch.diff", "w").write(diff)
        good, badr = run(["bash", f"{out}/demo.sh"], "/repo", t=250), run(["bash", f"{out}/demo.sh"], d, t=250)
        if good.returncode or not badr.returncode:
            res["error"] = f"demo: /repo rc={good.returncode} patched rc={badr.returncode}\n{good.stderr[-600:]}\n--\n{badr.stderr[-300:]}"
            return res
        caught, errs = [], []
        props = [b["property"]] + ([f"P{i:02d}" for i in range(1, 31) if f"P{i:02d}" != b["property"]] if every else [])
        for p in props:
            r = run([PY, "-B", "check.py", p, "quick"], ROOT, {"VERIF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_WORKERS": "3"})
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                caught.append(p)
                if p == b["property"]:
                    res["how"] = r.stdout.strip().splitlines()[0][:160]
            elif r.returncode:
                errs.append((p, r.returncode, (r.stderr or r.stdout)[-300:]))
        res["caught"], res["errors"] = caught, errs
        meta = {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"], "caught_by": ", ".join(caught) or "none"}
        json.dump(meta, open(f"{out}/meta.json", "w"), indent=1)
        dst = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        shutil.rmtree(out)
        res["tests"] = tail
        return res
    except Exception as e:
        res["error"] = repr(e)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"{d}-pyc", ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a != "--all"]
    every = "--all" in sys.argv
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    os.makedirs("/tmp/plant", exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for r in ex.map(lambda b: trial(b, every), bugs):
            own = r["property"] in r.get("caught", [])
            print(("OK    " if own else "MISS  " if "caught" in r else "SKIP  ") + json.dumps(r), flush=True)


main()
