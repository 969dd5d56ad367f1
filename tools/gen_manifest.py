#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of checks the harness offers (`nbv list`)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NOTES = json.load(open(root + "/tools/notes.json"))
have = [l.split()[0] for l in subprocess.run([root + "/harness/target/debug/nbv", "list"], capture_output=True, text=True).stdout.splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
            "technique": n.get("technique", "property-based testing: generated inputs against an independent reference model"),
            "level": "exploration",
            "level_note": n.get("note", "Holds on every generated case of the run; seeds and case counts are in the evidence file. Trusts the reference model in /verif/harness and the Rust toolchain.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks run the harness crate in /verif/harness, built against /repo's working tree; no hooks in /repo are needed. Replays: ./check.sh replay <file>."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
