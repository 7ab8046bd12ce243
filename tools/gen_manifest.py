"""/opt/venv/bin/python tools/gen_manifest.py: writes /verif/MANIFEST.json from properties.jsonl and the contracts present."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vc.worker import load_contracts  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
PY = "/opt/venv/bin/python"
checks, na = [], []
for p in props:
    pid = p["id"]
    cons = load_contracts(pid)
    nb = sum(c.mode == "bounded" for c in cons)
    npf = len(cons) - nb
    blocks = cons
    if pid in NA or not blocks:
        na.append({"property": pid, "reason": NA.get(pid, "no contract has been written for it yet")})
        continue
    note = f"{npf} contracts over the real functions discharged by the verifier for all inputs"
    if nb:
        note += f"; {nb} further contracts checked with stated bounds only (labelled bounded, not counted as proved)"
    note += "; floating point is treated as exact arithmetic over the reals, learners and third-party numerics are assumed contracts (listed in the evidence)"
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"{PY} run.py {pid} --tier quick",
            "thorough_cmd": f"{PY} run.py {pid} --tier thorough",
            "technique": "contract-based deductive verification (symbolic execution of the real functions against pre/postconditions, array/sum normal form + z3)" if npf else "contracts on the real functions, bounded evaluation only",
            "level": "proof" if npf else "exploration",
            "level_note": note,
        }
    )
m = {"version": 1, "setup_cmd": f"{PY} run.py --selftest", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
