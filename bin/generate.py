#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from registry import CHECKS, NOT_APPLICABLE
V = os.path.dirname(HERE)
props = [c["prop"] for c in CHECKS.values()] + [p for p, _ in NOT_APPLICABLE]
props.sort(key=lambda p: p["id"])
for p in props:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
manifest = dict(
    version=1, setup_cmd="python3 bin/setup.py",
    checks=[dict(property=i, quick_cmd="python3 bin/check.py %s" % i,
                 thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % i,
                 evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"],
                 level_note=c["note"]) for i, c in sorted(CHECKS.items())],
    not_applicable=[dict(property=p["id"], reason=r) for p, r in NOT_APPLICABLE],
    notes="The checks compile the harnesses against /repo's working tree in a temporary directory; no hooks in /repo are needed.")
json.dump(manifest, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: what is the same for all checks, each of them, what they found, and which planted bugs they catch
import glob, textwrap
from design_text import TEXT
o = open(os.path.join(HERE, "design_head.md")).read()
for i, c in sorted(CHECKS.items()):
    o += "\n### %s %s\n\n%s\n\n* Decided by: %s.\n* Specified and observed: %s\n* Enumerated: %s.\n* Bounds: quick: %s; thorough: %s.\n" % (
        i, c["prop"]["title"], c["prop"]["statement"], c["technique"], TEXT[i], c["prop"]["quantifier"]["text"], c["bounds"]["quick"], c["bounds"]["thorough"])
    if c["assumptions"]:
        o += "* Assumed: %s.\n" % "; ".join(c["assumptions"])
    o += "* Beyond the tests: %s.\n* Harness: %s.\n" % (c["prop"]["why_tests_cant"], ", ".join(sorted({"`harness/%s`" % j["src"] for j in c["jobs"]})))
o += "\nProperties that this family cannot address here: %s.\n" % ("; ".join("%s %s" % (p["id"], r) for p, r in NOT_APPLICABLE) or "none of those listed")
known = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl"))]
o += "\n## Defects found in mito\n\nRepaired, each by one commit in /repo (`known_findings.jsonl`; these suppress nothing):\n\n"
for k in known:
    if k["status"] == "fixed":
        o += "* %s `%s` %s\n" % (k["property"], k["commit"], k["what"].split(k["commit"])[1].strip())
o += "\nRecorded, as a repair is not small (reported as KNOWN-FINDING on every run, any other violation of the property still fails):\n\n"
for k in known:
    if k["status"] != "fixed":
        o += "* %s `%s` (%s): %s\n" % (k["property"], k["key"], k.get("where", ""), k["what"])
o += "\n" + open(os.path.join(HERE, "design_tail.md")).read()
o += "\n## Planted bugs\n\nIn `seeded/`, each with a demonstration; all but those marked are caught by the quick check of their property.\n\n| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
missed = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    o += "| %s | %s | %s | %s | %s |\n" % (n, m["property"], m["what_it_breaks"], m["needs"], missed.get(n, "yes"))
open(os.path.join(V, "DESIGN.md"), "w").write(o)
