"""The observable outcome of validating one document, and a pristine process to compute it in.

Run as a script, this is a server: for every line it forks a child that has imported the library but validated nothing,
lets it validate the given documents (one after another, or each in its own thread released by a barrier) and prints the outcomes.
"""

import contextlib
import json
import logging
import os
import subprocess
import sys
import threading

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from rv import lib  # noqa: E402

V = {"U": lib.UnifiedReferencesValidator, "T": lib.TagsRefValidator, "D": lib.ExternalDocsRefValidator}


class ThreadTap(logging.Handler):
    """Records log records per emitting thread."""

    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.by = {}

    def emit(self, record):
        self.by.setdefault(threading.get_ident(), []).append(record.getMessage())

    def take(self):
        return self.by.pop(threading.get_ident(), [])

    def __enter__(self):
        root = logging.getLogger()
        self.old = (list(root.handlers), root.level)
        root.handlers[:] = [self]
        root.setLevel(logging.WARNING)
        return self

    def __exit__(self, *exc):
        logging.getLogger().handlers[:], level = self.old
        logging.getLogger().setLevel(level)


def outcome(doc, vs, route, tap, kept=None, V=V):
    """JSON-able outcome of one validation."""
    if route == "live":
        return ["live", judged(lib.AsyncAPI3.model_validate(json.loads(doc)), vs[0], tap, None, vs[1])]
    tap.take()
    classes = [V[v] for v in vs]
    x = json.loads(doc)
    try:
        if route == "parse":
            m = lib.AsyncAPI3.model_validate({**x, "extra_validators": classes}) if isinstance(x, dict) else lib.AsyncAPI3.model_validate(x)
        elif route == "kwargs":
            m = lib.AsyncAPI3(**x, extra_validators=classes)
        elif route == "json":
            m = lib.AsyncAPI3.model_validate_json(doc)
            m.extra_validators = classes
        elif route == "assign":
            m = lib.AsyncAPI3.model_validate({"info": {"title": "t", "version": "0"}, "extra_validators": classes})
            rest = dict(x)
            # components first, so that references in the rest can be resolved
            for k, py in (("components", "components"), ("servers", "servers"), ("channels", "channels"), ("operations", "operations"), ("info", "info")):
                if k in rest:
                    setattr(m, py, rest[k])
        else:
            m = lib.AsyncAPI3.model_validate(x)
            for v in classes:
                (kept or {}).get(v, v())(m)
    except lib.ValidationError as e:
        return ["invalid", [[list(map(str, d["loc"])), d["type"], d["msg"]] for d in e.errors(include_url=False, include_context=False, include_input=False)], sorted(tap.take())]
    except ValueError as e:
        return ["refused", str(e), sorted(tap.take())]
    except Exception as e:  # noqa: BLE001
        return ["crash", type(e).__name__, str(e)[:300]]
    return ["ok", lib.dumps(m), sorted(tap.take())]


def judged(m, vs, tap, kept=None, refs=()):
    """Outcome of calling validators on, and resolving pointers in, a live document."""
    tap.take()
    out = []
    for v in vs:
        try:
            r = (kept or {}).get(V[v], V[v]())(m)
            out.append(["ok", r is m])
        except ValueError as e:
            out.append(["refused", str(e)])
        except Exception as e:  # noqa: BLE001
            out.append(["crash", type(e).__name__, str(e)[:300]])
        out[-1].append(sorted(tap.take()))
    for ref in refs:
        try:
            r = lib.resolve_reference(ref, m)
            out.append(["resolved", None if r is None else [r.path, r.resolved_type.__name__, lib.dumps(r.resolved_object) if hasattr(r.resolved_object, "model_dump_json") else repr(r.resolved_object)]])
        except ValueError as e:
            out.append(["unresolved", str(e)])
        except Exception as e:  # noqa: BLE001
            out.append(["crash", type(e).__name__, str(e)[:300]])
        out[-1].append(sorted(tap.take()))
    return out


class Pristine:
    """Client of a server process."""

    def __init__(self):
        self.p = subprocess.Popen(["/opt/venv/bin/python", "-B", "-W", "ignore", os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED="77"))

    def ask(self, jobs, threads=False, switch=None):
        self.p.stdin.write(json.dumps({"jobs": jobs, "threads": threads, "switch": switch}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("pristine process ended")
        return json.loads(line)

    def close(self):
        with contextlib.suppress(Exception):
            self.p.stdin.close()
            self.p.wait(10)


def serve_one(req):
    with ThreadTap() as tap:
        if not req["threads"]:
            return [outcome(*j, tap) for j in req["jobs"]]
        if req["switch"]:
            sys.setswitchinterval(req["switch"])
        out = [None] * len(req["jobs"])
        gate = threading.Barrier(len(req["jobs"]))

        def go(i):
            gate.wait()
            out[i] = outcome(*req["jobs"][i], tap)

        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(out))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out


def serve():
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                s = json.dumps(serve_one(req))
            except BaseException as e:  # noqa: BLE001
                s = json.dumps([["server-error", repr(e)]])
            with os.fdopen(w, "w") as fh:
                fh.write(s)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as fh:
            s = fh.read()
        os.waitpid(pid, 0)
        print(s.replace("\n", " "), flush=True)


if __name__ == "__main__":
    serve()
