#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough] | check.py PROPERTY --replay FILE"""

import os
import sys
import tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    # never trust or write byte code next to the code under test
    tmp = tempfile.mkdtemp(prefix="verif-pyc-")
    env["PYTHONPYCACHEPREFIX"] = tmp
    import shutil
    import subprocess

    try:
        rc = subprocess.call(["/opt/venv/bin/python", "-B", "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]], env=env, cwd=ROOT)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

sys.path.insert(0, ROOT)
import importlib  # noqa: E402


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    args = sys.argv[2:]
    if args and args[0] == "--replay":
        replay = args[1]
    elif args:
        tier = args[0]
    from rv import core

    try:
        module = importlib.import_module(f"rv.props.{prop.lower()}")
    except Exception as e:  # the code under test does not import: nothing was observed
        import traceback

        traceback.print_exc()
        print(f"ERROR import: {type(e).__name__}: {e}", file=sys.stderr)
        return 2
    return core.main(prop, module, tier, seed, replay)


if __name__ == "__main__":
    sys.exit(main())
