"""Writes MANIFEST.json from the check modules that exist and the list of properties."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C21": "Pure function of depth and leaf number: no schedule, clock, fault, I/O or interleaving for a simulator to decide.",
      "C22": "Pure function of the pushed numbers: no schedule, clock, fault, I/O or interleaving for a simulator to decide."}
NOTES = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f"{V}/dst/checks/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection: " + NOTES[i][0],
                       "level": "exploration", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "Check not built yet."})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is installed from /verif/dst (see DESIGN.md). Repairs of genuine defects are "
              "the 'fix:' commits listed in known_findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
