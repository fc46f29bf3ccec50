#!/usr/bin/env python3-vt
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H, H + "/dv"]
import properties_map as PM, units as U
t = open(H + "/tools/design.in.md").read(); rows = []
def says(n):
    if n in U.LEAN: return "Lean: " + U.LEAN[n][1]
    if n == "compiler:translate": return "`recurseCalculationSubformula`, `addMinimumValueToAllVariables`, `computeCalculationSubformula`, `parseSimpleFormula`, declaration of an integer variable in `performConversion` (tools/StructuredSlugsParser/compiler.py): the emitted prefix formula denotes the comparison of the two values for any number of bits and any nesting of sums; connectives denote themselves; every in-range constraint is emitted exactly, for the owner only, for the initial and the next value"
    if n in U.STATIC: return "the command-line table is extracted from main.cpp and evaluated completely: every option, every combination, every order"
    u = U.UNITS[n]; return "`%s`: %s" % (", ".join(u["functions"]), u["says"])
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i not in PM.MAP: continue
    c = PM.MAP[i]; rows.append("### %s — %s" % (i, p["title"]))
    if c.get("units"): rows.append("Proved (unbounded), every run, from the current sources:"); rows += ["* **%s** %s" % (n, says(n)) for n in c["units"]]
    else: rows.append("No function under contract yet: the whole check is a bounded exploration (level `exploration`).")
    rows.append("Bounded only: %s." % c.get("bounded", "")); 
    if c.get("why"): rows.append(c["why"])
    rows.append("")
t = t.replace("@@TABLE@@", "\n".join(rows))
s = []
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d)); s.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/")[:230], m.get("caught_by", "")))
t = t.replace("@@SEEDS@@", "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(s))
t = t.replace("@@NA@@", "\n".join("* **%s** %s" % kv for kv in PM.NA.items()) or "None.")
open(H + "/DESIGN.md", "w").write(t)
