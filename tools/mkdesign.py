#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, the checks, the evidence of the last runs and seeded/."""
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
rows, notes = [], []
for p in props:
    i = p["id"]
    try:
        m = importlib.import_module("checks." + i.lower())
        ev = json.load(open(f"{V}/evidence/{i}.json"))
    except (ImportError, OSError):
        continue
    cov = ev["coverage"]
    fns = sorted({f[0].split(".")[-1] for f in cov.get("functions_under_contract", [])})
    cases = ", ".join(f"{k} {v['cases']}" for k, v in cov.get("bounded", {}).items())
    n = len(cov.get("functions_under_contract", []))
    rows.append(f"| {i} {p['title']} | {n}: {', '.join(fns) if len(fns) < 16 else 'the five methods of every class, and the loaders'} | {cases} | {cov.get('obligations', '?')} | {ev['wall_s']:.0f} s |")
    notes.append(f"* **{i}** {m.NOTE}")
seeds = []
for s in sorted(os.listdir(V + "/seeded")):
    d = json.load(open(f"{V}/seeded/{s}/meta.json"))
    c = json.load(open(V + "/tools/caught.json")).get(s, "?")
    seeds.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | {c} |")
na = json.load(open(V + "/tools/not_applicable.json"))
t = open(V + "/tools/DESIGN.in.md").read()
nfix = sum(x.startswith("fixed:") for x in open(V + "/KNOWN_FINDINGS"))
for k, v in {"TABLE": "\n".join(rows), "NOTES": "\n".join(notes), "NFIX": nfix, "NSEED": len(seeds), "P22": na.get("P22"), "P23": na.get("P23"),
             "SEEDS": "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds)}.items():
    t = t.replace(f"@{k}@", str(v))
open(V + "/DESIGN.md", "w").write(t)
