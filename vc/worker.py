"""worker.py MODE TASKFILE OUTDIR NPAR   (MODE: sym | conc)
Forks one child per task (after loading once), with a hard time limit and a memory
limit; each child writes OUTDIR/<id>.json.  A child that dies or is stopped gives
status "timeout"/"died", which never counts as a violation and never as proved."""
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup(mode):
    sys.path.insert(0, HERE)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    import logging

    logging.disable(logging.CRITICAL)
    if mode == "sym":
        from vc import loader

        loader.load()
    else:
        import pyvbmc.vbmc  # noqa: F401
    from vc import harness

    import pyvbmc

    assert os.path.abspath(pyvbmc.__file__).startswith(os.path.abspath(repo) + "/"), pyvbmc.__file__
    return harness


def do_sym(c, t):
    from vc import symenv

    r = symenv.run_sym(c, t["case"], t["shapes"], t["budget"])
    return r


def do_conc(c, t):
    from vc import concenv

    out = dict(status="ok", trials=0, discards=0, checks=0, failures=[], samples=[], distinct=0)
    seen = set()
    t0 = time.time()
    plans = []
    for g in t.get("givens", []):
        plans += [(t["seed"], g, 4)]
        plans += [(t["seed"] + 1 + k, {k2: v for k2, v in g.items() if k2.startswith(("dim:", "int:", "bool:", "choice:"))}, 4) for k in range(10)]
    for i in range(t["trials"]):
        plans.append((t["seed"] + 17 * i, None, 1 + (i % 4) + (2 if i % 7 == 6 else 0)))
    if t.get("exact"):
        plans = [(t["seed"], t["exact"], t.get("size_hint", 4))]
    for seed, given, hint in plans:
        if time.time() - t0 > t["budget"]:
            break
        st, fl, E = concenv.run_once(c, t["case"], seed, t["shapes"], given, hint)
        out["trials"] += 1
        out["checks"] += E.checks
        if st == "discard":
            out["discards"] += 1
            continue
        if st == "unavailable":
            out["status"], out["reason"] = "unavailable", str(fl)[:600]
            break
        key = json.dumps(E.draws, sort_keys=True)
        if key not in seen:
            seen.add(key)
        if len(out["samples"]) < 1 and len(key) < 2000:
            out["samples"].append(E.draws)
        if st == "fail":
            # only failures the caller does not already know
            known = t.get("known", [])
            new = [f for f in fl if not any(f[0].startswith(k) for k in known)]
            old = [f for f in fl if f not in new]
            if old:
                out.setdefault("known_hit", []).extend(f for f in old if f not in out.get("known_hit", []))
            if new:
                out["status"] = "fail"
                out["failures"] = new[:8]
                out.update(fail_seed=seed, draws=E.draws, size_hint=hint)
                break
    out["distinct"] = len(seen)
    return out


def child(mode, harness, t, path):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VC_TRACE"):
            os.dup2(devnull, 2)
        import numpy as np

        np.random.seed(t.get("seed", 0) % (2**32))
        c = harness.CONTRACTS[t["contract"]]
        r = do_sym(c, t) if mode == "sym" else do_conc(c, t)
    except MemoryError:
        r = dict(status="died", reason="memory")
    except BaseException as e:  # noqa
        r = dict(status="error", reason="".join(traceback.format_exception(e))[-2500:])
    try:
        with open(path + ".tmp", "w") as f:
            json.dump(r, f, default=lambda o: float(o) if hasattr(o, "__float__") else str(o))
        os.rename(path + ".tmp", path)
    finally:
        os._exit(0)


def main():
    mode, taskfile, outdir, npar = sys.argv[1:5]
    npar = int(npar)
    tasks = json.load(open(taskfile))
    harness = setup(mode)
    for p in sorted({t["contract"].split(".")[0] for t in tasks}):
        harness.load_contracts(p)
    running = {}
    todo = list(tasks)
    while todo or running:
        while todo and len(running) < npar:
            t = todo.pop(0)
            path = os.path.join(outdir, f"{t['id']}.json")
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                child(mode, harness, t, path)
            running[pid] = (t, path, time.time() + t["kill"])
        time.sleep(0.02)
        for pid in list(running):
            t, path, dl = running[pid]
            done, _ = os.waitpid(pid, os.WNOHANG)
            if not done and time.time() > dl:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                done = pid
                if not os.path.exists(path):
                    json.dump(dict(status="timeout", reason=f"hard limit {t['kill']} s"), open(path, "w"))
            if done:
                if not os.path.exists(path):
                    json.dump(dict(status="died", reason="child ended without a result"), open(path, "w"))
                del running[pid]


if __name__ == "__main__":
    main()
