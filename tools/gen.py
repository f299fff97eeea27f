"""Writes properties.jsonl and MANIFEST.json from sa/props.py (run after editing it)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.props import NOT_APPLICABLE, PROPS  # noqa: E402
import sa.driver  # noqa: E402,F401  (registers every rule)
from sa.rules import RULES  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]},
        }) + "\n")
checks = []
for p in PROPS:
    whole = [r for r in p["rules"]]
    for r in whole:
        assert r in RULES, (p["id"], r)
    rules_only = all(s.startswith("@") for s in p["select"])
    tech = ("whole-program rules over the syntax tree and value graphs: " + ", ".join(whole)) if rules_only else \
        ("value-graph equivalence of every function, class declaration and module level in the property's cone with reference semantics"
         + ("; rules: " + ", ".join(whole) if whole else ""))
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "static analysis: " + tech,
        "level": "other",
        "level_note": "Decided from the source on every run for all inputs and paths of the analysed functions; trusts the reviewed reference "
                      "semantics in /verif/model, library calls behaving as documented and floating-point re-association being harmless. Code "
                      "the normaliser cannot compare is listed as UNDECIDED and raises no alarm.",
    })
man = {"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
       "notes": "One analyser (sa/) decides all properties; see DESIGN.md. Known findings: KNOWN_FINDINGS.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")

# ---- DESIGN.md
import glob  # noqa: E402
head = open(os.path.join(HERE, "docs", "DESIGN_head.md")).read()
tail = open(os.path.join(HERE, "docs", "DESIGN_tail.md")).read()
rt = "\n".join("* `%s`: %s" % (n, " ".join((f.__doc__ or "").split())) for n, f in RULES.items())
body = ["## 4. Per property", ""]
for p in PROPS:
    sel = [s for s in p["select"]]
    body.append("**%s. %s.** Anchored in %s." % (p["id"], p["title"], ", ".join("`%s`" % f for f in p["files"])))
    if all(s.startswith("@") for s in sel):
        body.append("Decided by whole-program rules %s over every function of the package." % ", ".join("`%s`" % r for r in p["rules"]))
    else:
        body.append("Obligations: equivalence of every function, class declaration and module level under %s%s." % (
            ", ".join("`%s`" % s.replace("spins.", "", 1) for s in sel if not s.startswith(("-", "@"))),
            "; rules " + ", ".join("`%s`" % r for r in p["rules"]) if p["rules"] else ""))
    body.append("Quantifies over: %s. %s" % (p["text"], p["why"]))
    body.append("")
body += ["## 5. Not applicable", ""]
for p in NOT_APPLICABLE:
    body.append("* **%s. %s**: %s" % (p["id"], p["title"], p["reason"]))
body.append("")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
cf = os.path.join(HERE, "tools", "seeded_results.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s: %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["property"], m["needs"], caught.get(n, "?")))
with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
    fh.write(head.replace("RULES_TABLE", rt) + "\n".join(body) + "\n" + tail.replace("SEEDED_TABLE", "\n".join(rows)))
