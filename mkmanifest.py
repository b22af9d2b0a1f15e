"""Regenerates MANIFEST.json from vt.props and the check modules that exist."""
import json, os
from vt import props
from vt.config import CFG, TECH
ROOT = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for p in props.PROPS:
    pid = p["id"]
    if os.path.exists(f"{ROOT}/vt/checks/{pid.lower()}.py"):
        checks.append(dict(property=pid, quick_cmd=f"/opt/venv/bin/python run.py {pid}",
                           thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python run.py {pid}",
                           technique=TECH.get(pid, TECH["_"]), level="exploration",
                           level_note="Decided by online monitors over seeded random executions of the real code; held on what was executed, not proved for all inputs."))
    else:
        na.append(dict(property=pid, reason=props.NA.get(pid, "check not built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas, numba'", checks=checks, not_applicable=na),
          open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
