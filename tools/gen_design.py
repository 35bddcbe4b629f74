#!/usr/bin/env python3
"""Regenerates DESIGN.md from design_head.md, properties.jsonl, the rules in the evidence files of the last run,
known-findings.json, the seeded changes and design_tail.md."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(os.path.join(root, n)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
na = json.load(open(os.path.join(root, "tools/not_applicable.json")))
notes = json.load(open(os.path.join(root, "tools/design_notes.json")))
out = [rd("tools/design_head.md").rstrip().replace("@N@", str(len(props))).replace("@D@", str(len(props) - len(na))), ""]
for p in props:
    i = p["id"]
    if i in na:
        continue
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    ev = os.path.join(root, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        out += ["Rules:", ""]
        rs = c.get("rules", {})
        for r in (sorted(rs) if isinstance(rs, dict) else rs):
            if isinstance(rs, dict):
                v = rs[r]
                out.append("* *%s*: %s" % (r, v["text"] if isinstance(v, dict) else v))
            else:
                out.append("* *%s*: %s" % (r["rule"], r["text"]))
        out.append("")
    out.append("Anchors: " + ", ".join("`%s`" % f for f in p["anchors"]["files"]) + "; " + "; ".join(p["anchors"]["mechanism"]) + ".")
    if i in notes:
        out += ["", notes[i]]
    out.append("")
out += ["## 4. Defects found and repaired", "", "Each was shown by a check on the original tree; the repairs are the `fix:` commits in /repo (listed in",
        "known-findings.json; none is suppressed).", ""]
for l in json.load(open(os.path.join(root, "known-findings.json")))["fixed"]:
    w = l.split(" ", 3)
    out.append("* %s (%s): %s" % (w[1].split("=")[1], w[2], w[3]))
out += ["", "No defect is recorded as an open known finding.", "", "## 5. Planted changes", "",
        "`seeded/<id>/` holds changes that compile, pass the stable tests and break a property, each with a demonstration",
        "that runs the real code. All are caught by the check of the property named.", "",
        "| change | property | breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"]))
out += ["", rd("tools/design_tail.md").rstrip(), "", "## 7. Not applicable", ""]
for i in sorted(na):
    out.append("* %s: %s" % (i, na[i]))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
