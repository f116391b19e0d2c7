#!/usr/bin/env python3
"""Puts DESIGN.md together: head, per-property section (bounds from jobs.py, cost from the last evidence), tail."""
import os, sys, json
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import jobs, design_props
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); titles[d["id"]] = d["title"]
out = open(os.path.join(H, "design_head.md")).read()
cost = json.load(open(os.path.join(H, "design_cost.json"))) if os.path.exists(os.path.join(H, "design_cost.json")) else {}
for pid, short, how, why in design_props.PROPS:
    p = jobs.PROPS[pid]; q = [j for j in p["jobs"] if j["tier"] == "q"]; t = [j for j in p["jobs"] if j["tier"] != "q"]
    out += "### %s %s\n\n" % (pid, titles[pid])
    out += "*Decided by*: %s\n\n*Bounds*: %s.\n\n" % (how, p["bounds"])
    if p["assumptions"]: out += "*Assumed*: %s.\n\n" % "; ".join(p["assumptions"])
    out += "*Beyond tests because*: %s\n\n" % why
    c = cost.get(pid)
    out += "*Cost*: %d quick jobs%s%s.\n\n" % (len(q), ", %d more in the thorough tier" % len(t) if t else "", "; last measured: " + c if c else "")
out += open(os.path.join(H, "design_tail.md")).read()
out += "| bug | property | needs | caught by |\n|---|---|---|---|\n"
catches = json.load(open(os.path.join(H, "catches.json")))
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json"))); c = catches.get(b, {})
    out += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"].replace("|", "/"), ", ".join("%s (%s)" % x for x in sorted(c.items())) or "missed")
open(os.path.join(V, "DESIGN.md"), "w").write(out)
