"""writes DESIGN.md: tools/design_head.md + a section per property + tools/design_tail.md (defects, seeded changes)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
HOW = json.load(open(HERE + "/tools/design_how.json"))
out = [open(HERE + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    j = jobs.PROPS.get(p["id"])
    out += ["### %s %s" % (p["id"], p["title"]), "", HOW[p["id"]].strip(), ""]
    if j:
        n = sum(1 for x in j["jobs"] if x.get("tier", "quick") == "quick")
        src = ", ".join("`harness/%s`" % s for s in sorted({x["src"] for x in j["jobs"]}))
        out += ["* decided by: %s; %d jobs (thorough: %d) in %s" % (j["technique"], n, len(j["jobs"]), src),
                "* covered: " + j["note"], "* bounds: " + j["bounds"], "* outside: " + j["outside"], ""]
out += [open(HERE + "/tools/design_tail.md").read().rstrip(), "", "### Defects found by the checks", "",
        "Repaired (each one small commit `fix: ...` in /repo; the property's check reports it again if it returns):", ""]
d = json.load(open(HERE + "/known_findings.json"))
out += ["* " + x.replace("fixed: property=", "") for x in d["fixed"]]
out += ["", "Recorded, not repaired: " + ("none." if not d["findings"] else ""), ""]
out += ["* %s" % json.dumps(x) for x in d["findings"]]
out += ["", "## Planted changes", "",
        "Each compiles, passes the 13 tests three times in a row, and has a demonstration (`seeded/<id>/demo.sh`).", "",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
CB = json.load(open(HERE + "/tools/caught_by.json"))
for s in sorted(os.listdir(HERE + "/seeded")) if os.path.isdir(HERE + "/seeded") else []:
    m = json.load(open(HERE + "/seeded/%s/meta.json" % s))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], CB.get(s, "?")))
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
