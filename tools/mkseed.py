"""/opt/venv/bin/python tools/mkseed.py SPEC.py [ID ...]: turns planted changes into seeded/<id>/.

SPEC.py defines SEEDS: list of dicts id, property, edits [(file, old, new[, count])], needs, breaks, demo
(python text, run with the tree under test as working directory).  Each change is confirmed against a copy
under /tmp: the demonstration passes without it and fails with it.  `--tests` runs the repository's tests
with all listed changes applied at once.  `--checks` runs the property's check on each."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for x in ("doubleml", "pyproject.toml", "setup.cfg", "setup.py"):
        if os.path.exists(f"/repo/{x}"):
            subprocess.run(["cp", "-a", f"/repo/{x}", dst + "/"], check=True)


def apply(root, s):
    for f, old, new, *k in s["edits"]:
        p = os.path.join(root, f)
        t = open(p).read()
        if old not in t:
            sys.exit(f"{s['id']}: text not found in {f}")
        want = k[0] if k else 1
        if isinstance(want, int):
            if t.count(old) != want:
                sys.exit(f"{s['id']}: {t.count(old)} occurrences in {f}")
            t = t.replace(old, new)
        else:  # ("nth", i)
            parts = t.split(old)
            i = want[1]
            t = old.join(parts[: i + 1]) + new + old.join(parts[i + 1 :])
        open(p, "w").write(t)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    seeds = runpy.run_path(args[0])["SEEDS"]
    if args[1:]:
        seeds = [s for s in seeds if s["id"] in args[1:]]
    for s in seeds:
        d = f"{HERE}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        root = f"/tmp/seed_{s['id']}"
        copy(root + "/a"), copy(root + "/b")
        apply(root + "/b", s)
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        out = subprocess.run(["git", "diff", "--no-index", "--no-color", "a/doubleml", "b/doubleml"], cwd=root, capture_output=True, text=True).stdout
        for x in ("__pycache__",):
            assert x not in out
        open(d + "/patch.diff", "w").write(out.replace("a/a/", "a/").replace("b/b/", "b/"))
        ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode
        r = [subprocess.run(["bash", d + "/demo.sh"], cwd=root + x, capture_output=True, text=True) for x in ("/a", "/b")]
        good = ok == 0 and r[0].returncode == 0 and r[1].returncode != 0
        print(s["id"], "apply", ok, "demo", r[0].returncode, r[1].returncode, "" if good else "<<<<<", (r[0].stderr[-600:] if r[0].returncode else r[1].stderr[-160:]).strip())
        if "--checks" in sys.argv:
            e = dict(os.environ, VC_REPO=root + "/b", VC_EVID="/tmp/mut_ev")
            q = subprocess.run([PY, "run.py", s["property"], "--tier", "quick"], cwd=HERE, env=e, capture_output=True, text=True)
            v = [x for x in q.stdout.splitlines() if x.startswith(("VIOLATION", "obligation", "  ")) or "fail" in x.lower()]
            print("   check", q.returncode, *v[:3], sep="\n      ")
        shutil.rmtree(root, ignore_errors=True)
    if "--tests" in sys.argv:
        root = "/tmp/seed_all"
        copy(root)
        for s in seeds:
            apply(root, s)
        q = subprocess.run([PY, "-m", "pytest", "-q", "-n", "8", "doubleml", "-p", "no:cacheprovider", "--ignore=doubleml/plm/tests/test_plr_classifier.py", "--timeout=300"], cwd=root, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=root + ":/opt/vp/plugins", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0"))
        print("\n".join(sorted({x.split("[")[0] for x in q.stdout.splitlines() if x.startswith("FAILED")})), q.stdout[-4000:])
        shutil.rmtree(root, ignore_errors=True)


main()
