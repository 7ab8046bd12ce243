"""Worker process: runs the contracts of one property in one reading.

python -m vc.worker sym|conc PROP OUT.json [opts-json]"""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load_contracts(prop):
    import contracts

    from .harness import REGISTRY

    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.startswith(prop.lower()) or m.startswith("shared"):
            importlib.import_module(f"contracts.{m}")
    return [c for c in REGISTRY.values() if c.prop == prop]


def _trace_start():
    seen = set()
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(tool, "vc")
    except ValueError:
        return seen

    def start(code, off):
        f = code.co_filename
        if "/doubleml/" in f and f.startswith(REPO) and not code.co_qualname.split(".")[-1].startswith(("vc__", "<")):
            seen.add(f"{f[len(REPO) + 1:-3].replace('/', '.')}.{code.co_qualname.replace('.<locals>', '')}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def _task_sym(con, opts, q):
    from .harness import run_symbolic
    from .solver import STATS

    seen = _trace_start()
    try:
        r = run_symbolic(con, opts)
    except BaseException as e:  # noqa: BLE001
        r = dict(key=con.key, results=[], unsupported=[f"engine: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"], missing=[], exceptions=[], paths=0, secs=0, used=[])
    r["traced"] = sorted(x for x in seen if ".vc__" not in x)
    r["stats"] = dict(STATS.__dict__)
    q.put(r)


def _task_conc(con, opts, q):
    from .conc import run_concrete

    try:
        r = run_concrete(con, opts.get("samples") or con.samples * opts.get("mult", 1), opts["seed"], budget=opts.get("budget", 60), forced=opts.get("forced", {}).get(con.key), soft=opts.get("soft", {}).get(con.key, ()))
    except BaseException as e:  # noqa: BLE001
        r = dict(key=con.key, ran=0, skipped=0, checked=0, failures=[], errors=[f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"], missing=[], samples=[], distinct=0, secs=0)
    q.put(r)


def run_pool(cons, task, opts, procs, limit):
    """One forked process per contract, at most `procs` at a time, each with a wall limit."""
    ctx = mp.get_context("fork")
    todo = sorted(cons, key=lambda c: -c.weight)
    live = []
    done = []
    while todo or live:
        while todo and len(live) < procs:
            con = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(task, con, opts, q))
            p.start()
            live.append((p, q, con, time.time()))
        time.sleep(0.02)
        for item in list(live):
            p, q, con, t0 = item
            if not q.empty():
                done.append(q.get())
                if opts.get("stop") and done[-1].get("failures"):
                    with open(os.path.join(opts["stop"], con.key.replace(":", "_")), "w"):
                        pass
                p.join(5)
                if p.is_alive():
                    p.kill()
                live.remove(item)
            elif not p.is_alive():
                if not q.empty():
                    continue
                done.append(dict(key=con.key, died=p.exitcode))
                live.remove(item)
            elif task is _task_sym and opts.get("stop") and _stopped(opts["stop"], con.key) and time.time() - t0 > 45:
                # the other reading has a failing input for this contract
                p.kill()
                p.join(5)
                done.append(dict(key=con.key, died="stopped: failing input found"))
                live.remove(item)
            elif time.time() - t0 > limit:
                p.kill()
                p.join(5)
                done.append(dict(key=con.key, died="time limit"))
                live.remove(item)
    return done


def _stopped(d, key):
    return os.path.exists(os.path.join(d, key.replace(":", "_")))


def _child(task, con, opts, q):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    task(con, opts, q)


def main():
    reading, prop, out = sys.argv[1:4]
    opts = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    import warnings

    warnings.simplefilter("ignore")
    if reading == "sym":
        from . import loader

        loader.install()
    else:
        sys.path.insert(0, REPO)
    import doubleml  # noqa: F401

    assert doubleml.__file__.startswith(REPO), doubleml.__file__
    import doubleml.rdd  # noqa: F401

    cons = load_contracts(prop)
    only = opts.get("only")
    if only:
        cons = [c for c in cons if c.key in only]
    if reading == "sym":
        cons = [c for c in cons if c.mode == "proof"]
        res = run_pool(cons, _task_sym, opts, opts.get("procs", 6), opts.get("limit", 300))
        from . import loader

        payload = dict(results=res, sources=loader.SOURCES)
    else:
        res = run_pool(cons, _task_conc, opts, opts.get("procs", 4), opts.get("limit", 300))
        payload = dict(results=res)
    payload["contracts"] = [dict(key=c.key, mode=c.mode, targets=c.targets, note=c.note, stubs=c.stubs, why_bounded=c.why_bounded, samples=c.samples) for c in load_contracts(prop)]
    with open(out, "w") as f:
        json.dump(payload, f, default=str)


if __name__ == "__main__":
    main()
