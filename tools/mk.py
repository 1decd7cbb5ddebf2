#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"],
                         "state": [dict(zip(("name", "meaning", "where"), s)) for s in p.get("state", [])],
                         "mechanism": [dict(zip(("name", "where"), s)) for s in p["mechanism"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "sh check.sh %s quick" % p["id"],
                   "thorough_cmd": "sh check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "contract-based deductive verification of the Go functions (SSA to verification conditions, z3/cvc5)" + p.get("tech", ""),
                   "level": "proof", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "sh setup.sh", "hooks": {"guard": "verif", "enable": "no hooks were needed: the verifier reads the source and the replay harnesses come in through go build overlays", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": props.NOTES}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import design, glob
t = open(here + "/DESIGN.in").read()
text = []
for p in props.PROPS:
    text.append("### %s: %s\n\n%s" % (p["id"], p["title"], "Not applicable: " + p["na"] if "na" in p else design.D[p["id"]]))
t = t.replace("@PROPS@", "\n\n".join(text))
kf = json.load(open(root + "/known_findings.json"))
t = t.replace("@FIXED@", "\n".join("* %s `%s`: %s" % (k["property"], k["what"].split()[2], " ".join(k["what"].split()[3:])) if k["kind"] == "fixed" else "* not repaired, " + k["what"] for k in kf))
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    n = f.split("/")[-2]
    k = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (n, k["needs"], k["what_it_breaks"], design.CAUGHT.get(n, "?")))
t = t.replace("@SEEDS@", "\n".join(rows))
open(root + "/DESIGN.md", "w").write(t)
