#!/usr/bin/env python3
"""Writes DESIGN.md from design_intro.md, catalog.py, the evidence of the last run, design_end.md, known-findings.jsonl
and seeded/*/meta.json (development aid, not run by any check)."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from catalog import PROPS, ENGINE_NOTE
ev = sys.argv[1] if len(sys.argv) > 1 else os.path.join(root, "evidence")
out = [open(os.path.join(here, "design_intro.md")).read()]
out.append("## Properties\n\nStatements are in properties.jsonl. \"Rules\" are what is decided; the counts are those of the unchanged tree.\n")
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if "na" in p:
        out.append("Not applicable: %s\n" % p["na"])
        continue
    e = json.load(open(os.path.join(ev, p["id"] + ".json")))
    c = e["coverage"]
    out.append("*How.* %s %s\n" % (c["explanation"], p["note"].replace(ENGINE_NOTE, "").strip()))
    out.append("*Rules.*\n")
    for k in sorted(c["rules"]):
        out.append("* `%s`: %s" % (k, c["rules"][k]))
    out.append("")
    own = [a for a in e["assumptions"] if not a.startswith(("Go's type checker", "External (standard", "Distinct symbolic"))]
    if own:
        out.append("*Assumes.* %s\n" % " ".join(a[0].upper() + a[1:].rstrip(".") + "." for a in own))
    out.append("*Covers* %d obligations, %d functions, %d call sites. *Why tests cannot:* %s\n" % (c["obligations"], c["functions_analysed"], c["call_sites_interpreted"], p["why"]))
out.append(open(os.path.join(here, "design_end.md")).read())
out.append("## Defects found and repaired\n\nEach is one \"fix:\" commit in /repo, found by the rule named; the check reports it again when the repair is undone.\n")
for l in open(os.path.join(root, "known-findings.jsonl")):
    f = json.loads(l)
    commit = f.get("fixed", "").split("property=%s " % f["property"])[-1].split(" ")[0]
    out.append("* %s `%s`, %s: %s" % (f["property"], f["rule"], commit or "recorded", f["what"]))
out.append("\n## Planted bugs\n\n`seeded/ID`; each compiles, passes the tests, and has a demonstration that fails with it. The check of the property named catches it (exit 1) unless noted.\n")
out.append("| bug | property | what it breaks | what it needs |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"]))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
