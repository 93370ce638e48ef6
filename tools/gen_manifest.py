#!/usr/bin/env python3
"""Write MANIFEST.json. A property is claimed if mc/cNN.py exists (and is not listed in SKIP)."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
SKIP = set()
COMMON = "Trusts CPython's ast.parse/compile as the definition of Python, the independent oracle in the check module, and the stated bounds; the code under test is the real code of /repo, run directly."
NOTES = {}
exec(open(os.path.join(here, "tools", "manifest_notes.py"), encoding="utf-8").read())
checks, na = [], []
with open(os.path.join(here, "properties.jsonl"), encoding="utf-8") as f:
    props = [json.loads(line) for line in f]
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", i.lower() + ".py")) and i not in SKIP:
        tech, level, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note + " " + COMMON})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.exit(sys.version_info < (3, 8))'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public interface of the real code. `./check <ID> --replay replays/<file>` re-runs one reported case. Seeded bugs: tools/try_seeded.sh."}
with open(os.path.join(here, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
