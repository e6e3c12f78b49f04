#!/usr/bin/env python3
"""spaces.py QUICK_EVIDENCE_DIR THOROUGH_EVIDENCE_DIR: writes SPACES.md, the list of explored spaces."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
q, t = sys.argv[1:3]
out = ["# Explored spaces", "",
       "Executions of the real code per space (all compared with the reference model, except those skipped as outside the property or",
       "borderline) in the quick and the thorough tier. The text is that of the quick tier.", ""]
for l in open(f"{root}/properties.jsonl"):
    p = json.loads(l)
    a = json.load(open(f"{q}/{p['id']}.json")); b = json.load(open(f"{t}/{p['id']}.json"))
    tb = {s["name"]: s for s in b["coverage"]["spaces"]}
    out += [f"## {p['id']} {p['title']}", "", "| space | alphabet and bound | quick | thorough | skipped |", "|---|---|---|---|---|"]
    for s in a["coverage"]["spaces"]:
        x = tb.get(s["name"])
        d = s["alphabet_and_bound"].replace("|", "/")
        out.append(f"| {s['name']} | {d} | {s['executions']} | {x['executions'] if x else '-'} | {s['skipped']} |")
    out.append("")
open(f"{root}/SPACES.md", "w").write("\n".join(out))
