"""Writes MANIFEST.json from the property list and the check modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "tfmon", "props", i.lower() + ".py")) and i in NOTES:
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=NOTES[i][0], level="exploration", level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet (work in progress)"))
out = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, iminuit, numba, matplotlib' && chmod +x check && mkdir -p evidence",
           checks=checks, not_applicable=na,
           notes="Runtime monitoring: tfmon/ runs the real code imported from /repo under generated histories; see DESIGN.md. "
                 "No hooks in /repo: every monitor sits at the public interface.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
