#!/usr/bin/env python3-vt
"""records which functions have every obligation discharged, and the sources they were discharged on (contracts/baseline.json)"""
import os, sys, json, importlib
if os.environ.get("PYTHONHASHSEED") != "0":       # same order of everything in every run
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/engine", HERE + "/contracts", HERE]
import extract, verify
from cxx import Program
from props import PROPS
argv = sys.argv; sys.argv = ["check.py", "G01"]
src = open(HERE + "/check.py").read().split("def known_findings")[0]
ns = {"__file__": HERE + "/check.py", "__name__": "x"}
import re, hashlib
exec("def norm_hash" + open(HERE + "/check.py").read().split("def norm_hash")[1].split("def newly_undischarged")[0], globals())
mods = {}
for pid, P in PROPS.items():
    for m in P["contracts"]: mods.setdefault((tuple(P["contracts"]), tuple(P["tus"])), []).append(pid)
proved = set(); bad = []
for (ms, tus), pids in mods.items():
    for m in ms: importlib.import_module(m)
    prog = Program(extract.extract(list(tus)))
    sel = [c for c in verify.REG if c.props & set(pids)]
    for r in verify.run(prog, sel, tmo=20, procs=8, limit=3000):
        if r["status"] == "proved": proved.add((r["contract"], r["fn"]))
        else: bad.append((r["contract"], r["fn"], r["status"], r["why"]))
json.dump({"proved": sorted(proved), "sources": source_state()}, open(HERE + "/contracts/baseline.json", "w"), indent=0)
for b in sorted(set(bad)): print("not proved:", b)
print(len(proved), "functions proved")
