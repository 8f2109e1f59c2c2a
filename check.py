"""check.py PROP [quick|thorough]        decide one property on /repo's current tree
   check.py --replay FILE                re-run a recorded failing input on the real code
   check.py --baseline PROP...           record which proof tasks discharge (development)

Exit 0: property held on everything explored. Exit 1 + VIOLATION line: broken."""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
           NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR",
           MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME="/root", LANG="C.UTF-8")
LIMIT = dict(quick=660, thorough=5400)


def spawn(mode, tasks, tmp, npar):
    d = os.path.join(tmp, mode + str(time.time_ns()))
    os.mkdir(d)
    tf = os.path.join(d, "tasks")
    json.dump(tasks, open(tf, "w"))
    env = dict(os.environ, **ENV)
    env["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    p = subprocess.Popen([PY, os.path.join(HERE, "vc", "worker.py"), mode, tf, d, str(npar)], env=env, cwd=tmp,
                         stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "w"), start_new_session=True)
    return p, d


def collect(p, d, tasks, deadline):
    while p.poll() is None and time.time() < deadline:
        time.sleep(0.05)
    if p.poll() is None:
        kill(p, tasks, d)
    out = {}
    for t in tasks:
        f = os.path.join(d, f"{t['id']}.json")
        try:
            out[t["id"]] = json.load(open(f))
        except Exception:
            err = ""
            try:
                err = open(os.path.join(d, "err")).read()[-1500:]
            except OSError:
                pass
            out[t["id"]] = dict(status="timeout", reason="not finished within the run's limit. " + err)
    return out


def kill(p, tasks, d):
    try:
        kids = subprocess.run(["pgrep", "-P", str(p.pid)], capture_output=True, text=True).stdout.split()
    except OSError:
        kids = []
    p.kill()
    for k in kids:
        try:
            os.kill(int(k), signal.SIGKILL)
        except OSError:
            pass
    p.wait()


def hseed(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:4], "big")


def registry(prop):
    sys.path.insert(0, HERE)
    from vc import harness

    return harness.load_contracts(prop)


def tkey(c, case, shapes):
    return json.dumps([c, case, shapes], sort_keys=True)


def known_for(prop):
    f = os.path.join(HERE, "known_findings.json")
    ks = json.load(open(f))["findings"] if os.path.exists(f) else []
    return [k for k in ks if k["property"] == prop and k.get("status") == "known"]


def kmatch(k, contract, case, name):
    return k["contract"] == contract and all(case.get(a) == b for a, b in k.get("case", {}).items()) and name.startswith(k["obligation"])


def main(prop, tier):
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="verif_")
    try:
        rc = run(prop, tier, t0, deadline, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc


def run(prop, tier, t0, deadline, seed, tmp):
    reg = registry(prop)
    if not reg:
        print(f"no contract for {prop}")
        return 2
    known = known_for(prop)
    bl = {}
    blf = os.path.join(HERE, "baseline.json")
    if os.path.exists(blf):
        bl = json.load(open(blf))
    sym, conc = [], []
    n = 0
    for key, c in reg.items():
        for case in c.cases:
            for sh in c.shapes or [None]:
                if c.sym and not case.get('conc_only'):
                    n += 1
                    kb = c.budget * (4 if tier == "thorough" else 1)
                    sym.append(dict(id=f"s{n}", contract=key, case=case, shapes=sh, budget=kb, kill=kb * 1.5 + 30, seed=seed))
            if c.conc:
                n += 1
                tr = c.trials * (20 if tier == "thorough" else 1)
                b = (600 if tier == "thorough" else 60)
                conc.append(dict(id=f"c{n}", contract=key, case=case, shapes=None, trials=tr, budget=b, kill=b * 2 + 60,
                                 seed=hseed(seed, key, json.dumps(case, sort_keys=True)),
                                 known=[k["obligation"] for k in known if k["contract"] == key and all(case.get(a) == b2 for a, b2 in k.get("case", {}).items())]))
    # longest first
    sym.sort(key=lambda t: -bl.get(prop, {}).get(tkey(t["contract"], t["case"], t["shapes"]), {}).get("wall", 50))
    ncpu = max(2, os.cpu_count() or 2)
    ps = spawn("sym", sym, tmp, max(1, ncpu - 2)) if sym else None
    pc = spawn("conc", conc, tmp, 3) if conc else None
    rc = collect(*pc, conc, deadline) if conc else {}
    rs = collect(*ps, sym, deadline) if sym else {}

    viol, khits, notes = [], [], []
    # ---- concrete failures
    for t in conc:
        r = rc[t["id"]]
        for f in r.get("known_hit", []):
            for k in known:
                if kmatch(k, t["contract"], t["case"], f[0]) and k not in khits:
                    khits.append(k)
        if r["status"] == "fail":
            viol.append(dict(kind="input", contract=t["contract"], case=t["case"], seed=r["fail_seed"], draws=r["draws"],
                             size_hint=r["size_hint"], failures=r["failures"]))
        elif r["status"] != "ok":
            notes.append(f"{t['contract']} {t['case']}: runtime contract {r['status']}: {r.get('reason', '')[:300]}")
    # ---- proof obligations
    obl, dis, functions, backends, solver_s = 0, 0, {}, {}, 0.0
    replay_tasks, pend = [], {}
    prooflist, bounded = [], []
    for t in sym:
        r = rs[t["id"]]
        c = reg[t["contract"]]
        os_ = r.get("obligations", [])
        solver_s += sum(o["t"] for o in os_)
        k = tkey(t["contract"], t["case"], t["shapes"])
        entry = dict(contract=t["contract"], case=t["case"], shapes=t["shapes"] or "all (symbolic)", status=r["status"],
                     obligations=len(os_), paths=r.get("paths"), wall_s=round(r.get("wall", 0), 2))
        if r["status"] == "proved":
            obl += len(os_)
            dis += len(os_)
            for o in os_:
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            for f in c.targets:
                functions[f] = functions.get(f, 0) + len(os_)
            prooflist.append(entry)
            continue
        entry["reason"] = r.get("reason", "")[:600]
        bad = [o for o in os_ if o["status"] != "proved"]
        badk = [o for o in bad if any(kmatch(kk, t["contract"], t["case"], o["name"]) for kk in known)]
        for o in badk:
            for kk in known:
                if kmatch(kk, t["contract"], t["case"], o["name"]) and kk not in khits:
                    khits.append(kk)
        bad = [o for o in bad if o not in badk]
        entry["open"] = [dict(name=o["name"], status=o["status"], goal=o["note"][:300]) for o in bad[:6]]
        obl += max(1, len(os_))
        dis += sum(o["status"] == "proved" for o in os_)
        prooflist.append(entry)
        notes.append(f"{t['contract']} {t['case']} {t['shapes'] or ''}: not discharged: {r['status']} {entry['reason'][:200]}")
        if r["status"] in ("refuted", "unknown", "unsupported", "budget") and bad:
            givens, seen = [], set()
            for o in bad:
                if o.get("model") and o["name"] not in seen and len(givens) < 6:
                    seen.add(o["name"])
                    givens.append(o["model"])
            if c.conc:
                n += 1
                replay_tasks.append(dict(id=f"r{n}", contract=t["contract"], case=t["case"], shapes=t["shapes"], givens=givens, trials=300,
                                         budget=60, kill=150, seed=hseed(seed, "replay", k),
                                         known=[kk["obligation"] for kk in known if kk["contract"] == t["contract"]]))
                pend[f"r{n}"] = (t, bad)
            else:
                pend[f"x{t['id']}"] = (t, bad)
    rr = {}
    if replay_tasks and not viol:
        p = spawn("conc", replay_tasks, tmp, ncpu)
        rr = collect(*p, replay_tasks, max(deadline, time.time() + 120))
    for rid, (t, bad) in pend.items():
        r = rr.get(rid)
        if r and r["status"] == "fail":
            viol.append(dict(kind="input", contract=t["contract"], case=t["case"], seed=r["fail_seed"], draws=r["draws"], shapes=t["shapes"],
                             size_hint=r["size_hint"], failures=r["failures"], obligation=bad[0]["name"], goal=bad[0]["note"]))
        elif not viol or r is None:
            ref = [o for o in bad if o["status"] == "refuted"]
            k = tkey(t["contract"], t["case"], t["shapes"])
            was = bl.get(prop, {}).get(k, {}).get("status") == "proved"
            if ref and was and not any(v["kind"] == "input" for v in viol):
                viol.append(dict(kind="obligation", contract=t["contract"], case=t["case"], shapes=t["shapes"], obligation=ref[0]["name"],
                                 solver=dict(backend=ref[0]["backend"], goal=ref[0]["note"], model=ref[0]["model"]),
                                 replay=(r or {}).get("status", "not run")))
    # bounded part
    ev = sum(r.get("trials", 0) - r.get("discards", 0) for r in rc.values())
    dn = sum(r.get("distinct", 0) for r in rc.values())
    checks = sum(r.get("checks", 0) for r in rc.values())
    unproved = []
    byc = {}
    for t in sym:
        byc.setdefault(t["contract"], []).append((t, rs[t["id"]]["status"]))
    for key, c in reg.items():
        kind = "proved"
        if not c.sym or key not in byc:
            kind = "bounded (runtime contract only)"
        elif any(s != "proved" for _, s in byc.get(key, [])):
            kind = "partly discharged; rest bounded"
        elif c.shapes:
            kind = "proved for the listed shapes, all values"
        bounded.append(dict(contract=key, functions=c.targets, verdict=kind, note=c.note[:400],
                            runtime_trials=sum(rc[t["id"]].get("trials", 0) for t in conc if t["contract"] == key)))
    samples = []
    for t in conc:
        for s in rc[t["id"]].get("samples", [])[:1]:
            if len(samples) < 3:
                samples.append(dict(contract=t["contract"], case=t["case"], inputs=s))
    trusted = sorted({x for c in reg.values() for x in c.trusted} | set(BASE_TRUST))
    level = manifest_level(prop)
    cov = dict(obligations=obl, discharged=dis, checker_cmd=f"{PY} /verif/check.py {prop} {tier}", trusted_base=trusted,
               contracts=bounded, functions_under_contract=functions, backends=backends, solver_s=round(solver_s, 2), proof_tasks=prooflist,
               evaluations=ev, distinct_nontrivial=dn, runtime_postconditions_evaluated=checks,
               rule="runtime-contract trials: inputs drawn from the contract's precondition; distinct = different drawn inputs, discarded trials not counted",
               samples=samples, not_discharged=notes,
               explanation="contracts proved by symbolic execution of the current source + obligations discharged by the listed back ends; "
                           "contracts marked bounded are evaluated at run time on generated inputs only and are not counted in obligations")
    evd = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
               assumptions=trusted, violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evd, f, indent=1)
    for k in khits:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for s in notes:
        print("note:", s)
    print(f"{prop} {tier}: obligations {obl}, discharged {dis}; runtime trials {ev} ({checks} postconditions); {time.time() - t0:.1f} s")
    if viol:
        viol.sort(key=lambda v: v["kind"] != "input")
        v = viol[0]
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha256(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(rd, f"{prop}-{h}.json")
        v["property"] = prop
        v["how"] = f"{PY} /verif/check.py --replay {path}"
        json.dump(v, open(path, "w"), indent=1, default=str)
        for x in viol[:5]:
            print("broken:", x["contract"], x["case"], json.dumps(x.get("failures") or x.get("obligation"))[:700])
        print(f"VIOLATION property={prop} replay={path}" + ("" if v["kind"] == "input" else " no-failing-input-found"))
        return 1
    if not sym and not conc or (obl == 0 and ev == 0):
        print("nothing was checked")
        return 3
    return 0


BASE_TRUST = [
    "machine arithmetic: floats treated as mathematical reals extended with +-inf and nan (runtime contracts run in IEEE doubles)",
    "numpy/scipy operations used by the functions: semantics given by the shim rules in /verif/vc (cross-checked against numpy by vc selftests)",
    "facts used for exp, log, sqrt, erf-type functions and orthogonal matrices: ring rules and axioms listed in vc/norm.py and vc/solve.py",
    "z3 5.3.2 and the ring normaliser in /verif/vc/norm.py",
]


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def replay(path):
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif_")
    try:
        if v["kind"] == "obligation":
            reg = registry(v["property"])
            c = reg[v["contract"]]
            t = [dict(id="s1", contract=v["contract"], case=v["case"], shapes=v["shapes"], budget=c.budget, kill=c.budget * 2, seed=1)]
            r = collect(*spawn("sym", t, tmp, 1), t, time.time() + 800)["s1"]
            bad = [o for o in r.get("obligations", []) if o["status"] == "refuted" and o["name"] == v["obligation"]]
            print(json.dumps(bad[:1] or r.get("status"), indent=1))
            return 1 if bad else 0
        t = [dict(id="r1", contract=v["contract"], case=v["case"], shapes=v.get("shapes"), exact=v["draws"], trials=0, budget=600, kill=700,
                  seed=v["seed"], size_hint=v.get("size_hint", 4))]
        r = collect(*spawn("conc", t, tmp, 1), t, time.time() + 700)["r1"]
        print(json.dumps({k: r[k] for k in r if k in ("status", "failures", "reason")}, indent=1))
        return 1 if r["status"] == "fail" else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def baseline(props):
    f = os.path.join(HERE, "baseline.json")
    bl = json.load(open(f)) if os.path.exists(f) else {}
    for prop in props:
        reg = registry(prop)
        tmp = tempfile.mkdtemp(prefix="verif_")
        try:
            ts, n = [], 0
            for key, c in reg.items():
                if c.sym:
                    for case in c.cases:
                        if case.get('conc_only'):
                            continue
                        for sh in c.shapes or [None]:
                            n += 1
                            ts.append(dict(id=f"s{n}", contract=key, case=case, shapes=sh, budget=c.budget, kill=c.budget * 1.5 + 30, seed=1))
            rs = collect(*spawn("sym", ts, tmp, os.cpu_count() - 1), ts, time.time() + 3000) if ts else {}
            bl[prop] = {}
            for t in ts:
                r = rs[t["id"]]
                bl[prop][tkey(t["contract"], t["case"], t["shapes"])] = dict(
                    status=r["status"], n=len(r.get("obligations", [])), wall=round(r.get("wall", 0), 1))
                print(prop, t["contract"], t["case"], t["shapes"], r["status"], round(r.get("wall", 0), 1), "" if r["status"] == "proved" else r.get("reason", "")[:300])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        json.dump(bl, open(f, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--baseline":
        baseline(sys.argv[2:])
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(main(sys.argv[1], tier))
