"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from lib/properties.py and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from properties import PROPS
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
m = {"version": 1, "setup_cmd": "./setup", "hooks": {"guard": "NEOLIB_VERIFY", "enable": "no hooks were needed: the monitors observe the public interfaces and the sanitizers' instrumentation; nothing in /repo is guarded by this define", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Checks compile the monitored sources from /repo's working tree into /verif/build (git-ignored, keyed by content) on every run. known_findings.json lists repaired and recorded defects."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import design, glob
out = [design.HEAD, "## Properties\n\n"]
for p in PROPS:
    c = CHECKS.get(p["id"])
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    if not c:
        out.append("Not applicable / not claimed: %s\n\n" % p["na"]); continue
    d = design.D[p["id"]]
    out.append("* Oracle: %s.\n* Workload and bounds: %s.\n" % d[:2])
    out.append("* Runs: %s.\n" % "; ".join("`%s` %s, %d cases quick / %d thorough%s" % (j["src"], j["variant"], j["cases"][0], j["cases"][1], (" (" + " ".join(j["flags"]) + ")") if j.get("flags") else "") for j in c["jobs"]))
    out.append("* Beyond the tests: %s\n\n" % p["why"])
k = json.load(open(os.path.join(V, "known_findings.json")))
out.append("## Genuine defects\n\nFound by these monitors (or while writing them) and repaired by `fix:` commits in /repo; the checks report them again on the unrepaired code.\n\n")
for l in k["fixed"]:
    l = l.split(" ", 3); out.append("* %s `%s` %s\n" % (l[1][9:], l[2], l[3]))
out.append("\nRecorded, not repaired:%s\n" % (" none." if not k["findings"] else ""))
for f in k["findings"]:
    out.append("* %s `%s` %s\n" % (f["property"], f["key"], f.get("what", "")))
out.append("\n## Planted bugs\n\nEach is caught by the check of its property (quick tier) unless noted.\n\n| seed | property | needs | breaks |\n|---|---|---|---|\n")
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    j = json.load(open(m)); out.append("| %s | %s | %s | %s |\n" % (m.split("/")[-2], j["property"], j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/")))
out.append(design.TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
print(len(checks), "checks;", len(na), "not claimed")
