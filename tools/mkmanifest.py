"""Writes MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "P01": "runtime monitor: parsed model compared with a reference model of the object model, over generated documents",
    "P02": "runtime monitor: fault injection into documents, outcome judged by a reference model",
    "P03": "runtime monitor: parse/dump/parse conservation against the reference model's canonical form",
    "P04": "runtime monitor: dump compared with the reference model's canonical form after several build histories",
    "P05": "differential runtime monitor over all entry points",
    "P06": "runtime monitor at every reference position against a recognition rule",
    "P07": "runtime monitor of extension handling against a name/value oracle",
    "P08": "runtime monitor of map keys against a key oracle",
    "P09": "runtime monitor of formatted strings against independent grammars",
    "P10": "runtime monitor of member combinations and assignment histories against a rule table",
    "P11": "runtime monitor of member combinations and assignment histories against a rule table",
    "P12": "runtime monitor of binding objects against a rule table",
    "P13": "history monitor: snapshot/rollback oracle after every assignment",
    "P14": "history monitor: live map against a sequential model (ordered dict)",
    "P15": "runtime monitor: corrupted live objects placed in parents, judged by the reference model",
    "P16": "aliasing monitor (reachable mutable objects) and mutation monitor over pairs of models",
    "P17": "runtime monitor: factory results resolved in documents with identifiable objects",
    "P18": "runtime monitor: resolution compared with an independent pointer interpreter",
    "P19": "runtime monitor: fault injection at every reference position, judged by the pointer interpreter",
    "P20": "runtime monitor: consistent documents per the pointer interpreter must be accepted unchanged",
    "P21": "runtime monitor: decisions and log records compared with the documented rule",
    "P22": "runtime monitor: decisions and log records compared with the documented rule",
    "P23": "runtime monitor: log tap over all bundled validators",
    "P24": "trace monitor: recorded processor calls checked against a model of order and effects, with faults injected",
    "P25": "trace monitor: recorded handler calls checked against the documented rule",
    "P26": "history and thread-stress monitor: outcomes compared with pristine-process baselines, yields injected",
    "P27": "runtime monitor of builder results and later edits against the documented document",
    "P28": "runtime monitor: references against plain strings, pairwise and in containers",
    "P29": "runtime monitor: generated schema evaluated by an independent JSON Schema validator against the reference model",
    "P30": "hostile-input monitor: outcome, CPU budget, scaling and process-death watch, dump/reparse oracle",
}
NOTE = {
    "default": "Held on the executions counted in the evidence file; says nothing about inputs not generated. Trusts CPython, pydantic and the reviewed catalog rv/catalog.json.",
    "P26": "Held on the histories and thread interleavings counted in the evidence file; interleavings are provoked (tiny switch interval, yields injected at library lines), not enumerated. Trusts CPython and pydantic.",
    "P29": "Held on the schemas and values counted in the evidence file; covers types, required members, enumerations, closed objects, defaults and names. Trusts rv/jschema.py's reading of JSON Schema.",
    "P30": "Held on the inputs counted in the evidence file; time is judged by CPU budgets with wide margins and by growth against input size. Trusts CPython and pydantic.",
}
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import pydantic, yaml, json; json.load(open('rv/catalog.json'))\"",
    "checks": [
        {"property": p, "quick_cmd": f"/opt/venv/bin/python -B check.py {p} quick", "thorough_cmd": f"/opt/venv/bin/python -B check.py {p} thorough",
         "technique": t, "level": "exploration", "level_note": NOTE.get(p, NOTE["default"])}
        for p, t in T.items()
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed at the public interface. Compiler sanitizers and race detectors have nothing to act on (pure Python, no native code, no threads of its own); see DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
