"""Assembles DESIGN.md: fixed text, one section per property (from the modules), the table of planted bugs."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
HOW = json.load(open(os.path.join(ROOT, "tools", "design_how.json")))
out = [HEAD.rstrip(), "", "## Properties, one by one", ""]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    p = d["id"]
    m = importlib.import_module(f"rv.props.{p.lower()}")
    out += [f"### {p} — {d['title']}", "", f"*Cases.* {m.RULE[0].upper()}{m.RULE[1:]}.", "", HOW[p], ""]
    st = ", ".join(f"`{s}` {q}/{t}" for s, (_f, q, t) in m.STAGES.items())
    out += [f"*Stages (cases quick/thorough).* {st}. *Inconclusive below* {len(m.FLOORS)} observation floors.", ""]
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['what_it_breaks']} | {d.get('caught_by', '?')} |")
out += ["## Planted bugs", "", f"{len(rows)} planted bugs are kept in `seeded/`; \"caught by\" lists the quick checks that report them "
        "(seed 1), the property's own check first.", "", "| id | property | what it breaks | caught by |", "|---|---|---|---|", *rows, "", TAIL.rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
