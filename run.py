#!/opt/venv/bin/python
"""Check one property: discharge every contract obligation generated from the
current source under /repo, replay failures on the real code, write evidence.

  run.py PROP [--tier quick|thorough] [--only name,...] [-v]
  run.py --replay FILE
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable
REPO = os.environ.get("VC_REPO", "/repo")


def worker(reading, prop, opts, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    env.pop("PYTHONPATH", None)
    return subprocess.Popen([PY, "-W", "ignore", "-m", "vc.worker", reading, prop, out, json.dumps(opts)], cwd=HERE, env=env)


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return load(p) or []


def replay(path):
    r = load(path)
    opts = dict(seed=r["seed"], samples=1, only=[r["contract"]])
    if r.get("input_seed") is None:
        print(json.dumps(r, indent=1))
        print("no failing input: the replay file names the failed obligation and carries the verifier's output")
        return 1
    code = (
        "import sys,json;sys.path.insert(0,%r);sys.path.insert(0,%r);import warnings;warnings.simplefilter('ignore');"
        "from vc.worker import load_contracts;from vc.conc import ConcCtx;import random,numpy as np;"
        "con=[c for c in load_contracts(%r) if c.key==%r][0];sd=%d;random.seed(sd);np.random.seed(sd%%2**32);"
        "c=ConcCtx(sd,%r,picked=%r);con.fn(c);print('replay: the obligation holds on this input')"
    ) % (HERE, REPO, r["property"], r["contract"], r["input_seed"], r.get("forced") or {}, r.get("picked") or [])
    p = subprocess.run([PY, "-W", "ignore", "-c", code], cwd=HERE)
    return 1 if p.returncode else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        sys.exit(1 if subprocess.run([PY, "-W", "ignore", "-m", "vc.selftest"], cwd=HERE, env=env).returncode else 0)
    if a.replay:
        sys.exit(replay(a.replay))
    prop, tier, seed = a.prop, a.tier, a.seed
    t0 = time.time()
    thorough = tier == "thorough"
    live = [f for f in known_findings() if f.get("property") == prop and f.get("status") != "fixed"]
    soft = {}
    for f in live:
        soft.setdefault(f["contract"], []).append(f.get("label") or "")
    only = [f"{prop}:{x}" for x in a.only.split(",")] if a.only else None
    tmp = tempfile.mkdtemp(prefix="vc_")
    so, co = os.path.join(tmp, "s.json"), os.path.join(tmp, "c.json")
    sopts = dict(verbose=a.v, timeout=60000 if thorough else 25000, budget=280 if not thorough else 560, limit=330 if not thorough else 640, only=only, procs=6, keep_smt=thorough, stop=tmp)
    copts = dict(seed=seed, mult=20 if thorough else 1, budget=60 if not thorough else 400, limit=200 if not thorough else 600, only=only, procs=5, stop=tmp, soft=soft)
    ps, pc = worker("sym", prop, sopts, so), worker("conc", prop, copts, co)
    ps.wait()
    pc.wait()
    sym, conc = load(so), load(co)
    viol, notes, bounded = [], [], {}
    if conc is None and sym is None:
        # the package does not import at all: nothing to check against
        print(f"error: the package under {REPO} could not be loaded by either reading", file=sys.stderr)
        sys.exit(2)
    sym = sym or dict(results=[], sources={}, contracts=(conc or {}).get("contracts", []))
    conc = conc or dict(results=[], contracts=sym["contracts"])
    cres = {r["key"]: r for r in conc["results"]}
    sres = {r["key"]: r for r in sym["results"]}
    contracts = {c["key"]: c for c in sym["contracts"] or conc["contracts"]}
    if only:
        contracts = {k: v for k, v in contracts.items() if k in only}
    # ---- concrete failures (failing input in hand)
    suspicious = {}
    for k in contracts:
        r = cres.get(k, {})
        for f in r.get("failures", []):
            viol.append((k, f["label"], f, None))
        s = sres.get(k)
        if s is None:
            continue
        bad = [x for x in s.get("results", []) if not x["ok"] and x["status"] != "unsupported" and not any(x["label"].startswith(y) for y in soft.get(k, ()))]
        uns = [x["label"] + ": " + x["reason"] for x in s.get("results", []) if not x["ok"] and x["status"] == "unsupported"]
        exc = s.get("exceptions", [])
        if s.get("died") is not None:
            bounded[k] = f"verifier process ended: {s['died']}"
        elif s["unsupported"] or uns:
            bounded[k] = (s["unsupported"] + uns)[0]
        elif s["missing"]:
            bounded[k] = f"target missing: {s['missing'][0]}"
        if (bad or exc or k in bounded) and not r.get("failures"):
            suspicious[k] = (bad, exc)
    # ---- deeper search for failing inputs of undischarged obligations
    if suspicious:
        forced = {}
        for k, (bad, exc) in suspicious.items():
            ch = (bad[0] if bad else exc[0] if exc else {}).get("choices", [])
            forced[k] = {x.split("=", 1)[0]: x for x in ch}
        o2 = os.path.join(tmp, "c2.json")
        mult = 12
        p2 = worker("conc", prop, dict(seed=seed + 7919, mult=mult, budget=90, limit=120, only=list(suspicious), forced=forced, procs=8, soft=soft), o2)
        p2.wait()
        d2 = load(o2) or dict(results=[])
        for r in d2["results"]:
            k = r["key"]
            base = cres.setdefault(k, dict(ran=0, checked=0, distinct=0))
            for fld in ("ran", "checked", "distinct"):
                base[fld] = base.get(fld, 0) + r.get(fld, 0)
            for f in r.get("failures", []):
                f["forced"] = forced.get(k)
                viol.append((k, f["label"], f, None))
        hit = {v[0] for v in viol}
        for k, (bad, exc) in suspicious.items():
            if k in hit:
                continue
            if bad:
                viol.append((k, bad[0]["label"], None, dict(failed=bad)))
            elif exc:
                e = exc[0]
                if e["type"] in ("ValueError", "IndexError", "KeyError", "ZeroDivisionError", "UnboundLocalError") and e["where"] and "/doubleml/" in str(e["where"]):
                    viol.append((k, "no-unexpected-exception", None, dict(exceptions=exc)))
                else:
                    bounded[k] = f"verifier could not execute: {e['type']}: {e['msg']}"
    # ---- report
    out_viol = []
    for k, label, fail, ver in viol:
        hit = [f for f in live if f["contract"] == k and (not f.get("label") or label.startswith(f["label"]))]
        if hit:
            continue
        out_viol.append((k, label, fail, ver))
    for f in live:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    reported = set()
    for k, label, fail, ver in out_viol:
        if k in reported:
            continue
        reported.add(k)
        h = hashlib.sha1(f"{k}{label}".encode()).hexdigest()[:8]
        path = os.path.join(HERE, "replays", f"{prop}-{k.split(':')[1]}-{h}.json".replace("/", "_"))
        rec = dict(property=prop, contract=k, obligation=label, seed=seed, targets=contracts[k]["targets"])
        if fail:
            rec.update(input_seed=fail["seed"], forced=fail.get("forced"), picked=fail.get("picked"), inputs=fail["inputs"], choices=fail["choices"], detail=fail["detail"], traceback=fail.get("tb"), replay_cmd=f"{PY} {HERE}/run.py --replay {path}")
            sbad = [x for x in sres.get(k, {}).get("results", []) if not x["ok"]]
            if sbad:
                rec["failed_obligations"] = sbad[:5]
        else:
            rec.update(input_seed=None, verifier_output=ver)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        tail = "" if fail else " no-failing-input-found"
        print(f"# {k} obligation '{label}' " + (f"fails on a concrete input: {fail['detail'][:300]}" if fail else "is not discharged: " + json.dumps(ver, default=str)[:600]))
        print(f"VIOLATION property={prop} replay={path}{tail}")
    # ---- evidence
    obls, disc, backends, slow = 0, 0, {}, 0.0
    traced, used = set(), set()
    per = []
    stats = {}
    proved_targets, bounded_targets = set(), set()
    cv = dict(checked=0, agreed=0)
    for k, c in contracts.items():
        s = sres.get(k)
        r = cres.get(k, {})
        row = dict(contract=k, targets=c["targets"], stubs=c["stubs"], note=c["note"], runtime_evaluations=r.get("ran", 0), runtime_assertions=r.get("checked", 0))
        if s is not None and s.get("died") is None:
            g = s["results"]
            o = len(g)
            d = sum(1 for x in g if x["ok"])
            row.update(paths=s["paths"], obligations=o, discharged=d, secs=round(s.get("secs", 0), 2))
            if k in bounded:
                row["status"] = "bounded (not proved)"
                row["reason"] = bounded[k][:300]
                bounded_targets.update(c["targets"])
            else:
                obls += o
                disc += d
                row["status"] = "failed" if k in {v[0] for v in viol} else "proved" if o and o == d else ("VACUOUS" if not o else "failed")
                if row["status"] == "proved":
                    proved_targets.update(c["targets"])
                for x in g:
                    if x["ok"]:
                        backends[x["backend"]] = backends.get(x["backend"], 0) + 1
                    slow = max(slow, x["secs"])
            traced.update(s.get("traced", []))
            used.update(s.get("used", []))
            for kk, v in s.get("stats", {}).items():
                stats[kk] = stats.get(kk, 0) + v
            if thorough:
                cv2 = cross_check(g)
                cv["checked"] += cv2[0]
                cv["agreed"] += cv2[1]
        elif s is not None:
            row["status"] = "bounded (not proved)"
            row["reason"] = bounded.get(k, "")
            bounded_targets.update(c["targets"])
        else:
            row["status"] = "bounded (not proved)"
            row["reason"] = c["why_bounded"]
            bounded_targets.update(c["targets"])
        per.append(row)
    nbounded = sum(1 for p in per if p["status"].startswith("bounded"))
    vac = [p["contract"] for p in per if p["status"] == "VACUOUS"]
    samples = []
    for k in contracts:
        samples += [dict(contract=k, **x) for x in cres.get(k, {}).get("samples", [])[:1]]
    level = "proof" if obls else "exploration"
    coverage = dict(
        obligations=obls,
        discharged=disc,
        checker_cmd=f"{PY} run.py {prop} --tier {tier}",
        trusted_base=[
            "vc/ engine: symbolic executor, normal form over the ring with indicators, loop rule",
            "z3 5.3.2 (residual obligations)",
            "CPython semantics; loader.py AST transformation (loops, comprehensions, builtin conversions)",
        ]
        + [f"assumed contract of {u}" for u in sorted(used)],
        backends=backends,
        solver=dict(z3_seconds=round(stats.get("z3_time", 0), 2), z3_calls=stats.get("z3_calls", 0), feasibility_calls=stats.get("feas_calls", 0), feasibility_seconds=round(stats.get("feas_time", 0), 2), slowest_obligation_s=round(slow, 2)),
        functions_under_contract=sorted(proved_targets),
        functions_bounded_only=sorted(bounded_targets - proved_targets),
        functions_executed_by_verifier=sorted(traced),
        contracts=per,
        vacuous=vac,
        bounded_standins=nbounded,
        evaluations=sum(r.get("ran", 0) for r in cres.values()),
        distinct_nontrivial=sum(r.get("distinct", 0) for r in cres.values()),
        rule="run-time reading of the same contracts on the unmodified package: random inputs satisfying the preconditions; counted when at least one postcondition was evaluated and the drawn input differs from earlier ones",
        samples=samples[:12],
        source_hashes=sym.get("sources", {}),
        explanation="deductive: postconditions discharged for all inputs on every path of the current source; contracts marked bounded are run-time checks with the stated number of inputs and are not counted as proved",
    )
    if thorough:
        coverage["cvc5_recheck"] = cv
    ev = dict(
        property=prop,
        tier=tier if tier in ("quick", "thorough") else "quick",
        seed=seed,
        level=level,
        coverage=coverage,
        assumptions=[
            "machine floating point is treated as exact real arithmetic",
            "denominators occurring in compared expressions are non-zero",
            "arrays are dense numpy arrays without aliasing between distinct inputs",
            "function symbols for learners, random draws, exp/log/normal quantiles are uninterpreted except for the facts stated in the contracts",
        ]
        + sorted({f"{p['contract']}: callee contract assumed: {x}" for p in per for x in p["stubs"]}),
        wall_s=round(time.time() - t0, 2),
        violations=len(reported),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] contracts={len(per)} proved={sum(1 for p in per if p['status'] == 'proved')} bounded={nbounded} obligations={obls} discharged={disc} slowest={slow:.1f}s runtime-evals={coverage['evaluations']} wall={ev['wall_s']}s")
    if a.v or vac:
        for p in per:
            print("  ", p["contract"], p["status"], p.get("paths"), p.get("obligations"), p.get("secs"), (p.get("reason") or "")[:400])
            if a.v:
                for e in sres.get(p["contract"], {}).get("exceptions", [])[:1]:
                    print(e["tb"])
                r = cres.get(p["contract"], {})
                if r.get("errors") or r.get("missing") or r.get("died"):
                    print("     conc:", r.get("errors"), r.get("missing"), r.get("died"))
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(1 if reported else 0)


def cross_check(results):
    sys.path.insert(0, HERE)
    from vc import solver as S

    n = a = 0
    for x in results:
        if x["ok"] and x.get("smt"):
            n += 1
            if S.cvc5_check(x["smt"], 5000) == "unsat":
                a += 1
            if n >= 40:
                break
    return n, a


if __name__ == "__main__":
    main()
