"""Writes MANIFEST.json from vm/meta.py (checks that have a module in checks/) and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vm.meta import META  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
PY = "/opt/venv/bin/python -B vm/run.py "
checks, na = [], []
for i in ids:
    if i in META and os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        m = META[i]
        checks.append(dict(property=i, quick_cmd=PY + i, thorough_cmd=PY + i + " --tier thorough", evidence_file="evidence/%s.json" % i,
                           technique=m["technique"], level="exploration",
                           level_note=(m["note"] or "Held on every execution observed by the monitor; no claim about executions that were not generated.")
                           + " Trusted: the independent reference model in /verif/vm, numpy, scipy, OpenMPI."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B tools/setup.py",
               checks=checks, not_applicable=na,
               notes="See DESIGN.md. Known findings and repaired defects: known_findings.txt."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
