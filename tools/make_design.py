#!/usr/bin/env python3
"""Writes DESIGN.md from design/head.md, design/families.md (sections '### Cxx') and seeded/*/meta.json + tools/caught.json."""
import json, os, glob
h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(h+"/properties.jsonl")]
fam = {}
for part in open(h+"/design/families.md").read().split("\n### ")[1:]:
    k, t = part.split("\n", 1); fam[k.strip()] = t.strip()
out = ["## Property by property"]
for p in props:
    out += [f"### {p['id']} {p['title']}", fam.get(p['id'], "Not built yet (see MANIFEST.json, not_applicable).")]
caught = json.load(open(h+"/tools/caught.json")) if os.path.exists(h+"/tools/caught.json") else {}
s = ["## Planted changes and the checks that catch them", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(h+"/seeded/*/meta.json")):
    i = m.split("/")[-2]; d = json.load(open(m))
    s.append(f"| {i} | {d['property']} | {d['needs']} | {', '.join(caught.get(i, [])) or 'not caught'} |")
t = open(h+"/design/head.md").read().replace("@@FAMILIES@@", "\n\n".join(out)).replace("@@SEEDED@@", "\n".join(s))
open(h+"/DESIGN.md", "w").write(t)
