#!/usr/bin/env python3
# Regenerates the per-property and planted-bug sections of DESIGN.md.
import json, os, re, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(H, "lib"))
import props, notes
s = open(H + "/DESIGN.md").read(); out = []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    n = notes.NOTES.get(p["id"], {})
    out.append(f"### {p['id']} {p['title']}\n\n- Decided by: {p['technique']}.\n- Enumerated: {p['quantifier']['text']}.\n- Oracle: {n.get('oracle','')}\n- Bounds and limits: {p['level_note']}\n- Cost: {n.get('cost','under two minutes')} (quick, including a cold build, 8 cores).\n- Why tests cannot: {p['why_tests_cant']}\n")
s = re.sub(r"(<!-- properties -->\n).*?(<!-- /properties -->)", lambda m: m[1] + "\n" + "\n".join(out) + "\n" + m[2], s, flags=re.S)
rows = ["| planted change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d); rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {notes.CAUGHT.get(i, m['property'] + ' quick')} |")
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n" + "\n".join(rows) + "\n\n" + m[2], s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
