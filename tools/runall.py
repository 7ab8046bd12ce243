"""/opt/venv/bin/python tools/runall.py [PROP ...]: run the registered quick checks, record a status table for DESIGN.md."""
import json
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(here + "/MANIFEST.json"))
os.makedirs(here + "/tools/status", exist_ok=True)
for c in m["checks"]:
    p = c["property"]
    if sys.argv[1:] and p not in sys.argv[1:]:
        continue
    q = subprocess.run(c["quick_cmd"], shell=True, cwd=here, capture_output=True, text=True)
    e = json.load(open(f"{here}/evidence/{p}.json"))
    b = [x["contract"].split(":")[1] for x in e["coverage"]["contracts"] if x["status"].startswith("bounded")]
    bad = [x["contract"] for x in e["coverage"]["contracts"] if x["status"] in ("failed", "VACUOUS")]
    json.dump(dict(obligations=e["coverage"]["obligations"], discharged=e["coverage"]["discharged"], wall=round(e["wall_s"]), bounded=b), open(f"{here}/tools/status/{p}.json", "w"))
    print(p, "exit", q.returncode, "wall", e["wall_s"], "obl", e["coverage"]["obligations"], "bounded", b, "bad", bad, flush=True)
    if q.returncode:
        print(q.stdout[-1500:], q.stderr[-500:], flush=True)
