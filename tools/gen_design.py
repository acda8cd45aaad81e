#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, tools/design_tail.md and the registries."""
import json, os, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
try: cost = json.load(open(H + "/tools/costs.json"))
except OSError: cost = {}
try: res = json.load(open(H + "/tools/seeded_results.json"))
except OSError: res = {}
o = [open(H + "/tools/design_head.md").read().rstrip(), "", "## Properties and deciding explorations", "",
     "All are decided by model checking; none is `not_applicable`. Costs are wall-clock seconds on 8 otherwise idle cores, compilation included.", ""]
for p in props:
    c = CHECKS[p["id"]]; k = cost.get(p["id"], {})
    o += ["### %s — %s" % (p["id"], p["title"]), "", p["statement"], "",
          "* Decided by: %s (level `%s`)." % (c["technique"], c["level"]),
          "* Quick bounds: %s." % c["bounds"]["quick"], "* Thorough bounds: %s." % c["bounds"]["thorough"],
          "* Why tests cannot: %s" % p["why_tests_cant"], "* Notes: %s" % c["note"]]
    if k: o += ["* Cost: quick %s s%s." % (k.get("quick", "?"), ", thorough %s s" % k["thorough"] if "thorough" in k else "")]
    o += [""]
o += ["## Defects found and repaired in the library", "", "Each was shown on the real code by the named check, and is repaired by a `fix:` commit in /repo (`known_findings.txt`).", "", "| property | commit | what failed |", "|---|---|---|"]
for l in open(H + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o += ["| %s | %s | %s |" % m.groups()]
kn = [l for l in open(H + "/known_findings.txt") if l.startswith("finding:")]
o += ["", "## Known findings (recorded, not repaired)", "", "".join(kn) if kn else "None: every violation found on the original tree could be repaired by a small commit."]
o += ["", "## Planted bugs", "", "| bug | property | needs | reported by |", "|---|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d)); o += ["| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, "?"))]
o += ["", open(H + "/tools/design_tail.md").read().rstrip(), ""]
open(H + "/DESIGN.md", "w").write("\n".join(o))
