"""Parent side: spawn workers, merge what their monitors observed, decide, write evidence."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")


def worker_env(mode, scratch, idx, extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("NUMBA_"):
            del env[k]
    cache = os.path.join(scratch, "nbcache" + extra["VT_SHARED_CACHE"] if extra and extra.get("VT_SHARED_CACHE") else f"nbcache{idx}")
    os.makedirs(cache, exist_ok=True)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_CACHE_DIR=cache, MPLBACKEND="Agg",
               VT_SCRATCH=scratch, PYTHONPATH=REPO + os.pathsep + ROOT)
    if mode == "pure":
        env["NUMBA_DISABLE_JIT"] = "1"
    else:
        env["NUMBA_BOUNDSCHECK"] = "1"
        env["MALLOC_PERTURB_"] = str(17 + 29 * (idx % 7))
    env.update(extra or {})
    return env


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--only")
    ap.add_argument("--mode")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    from . import config
    pid = a.pid
    cfg = config.get(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or cfg["budget"][tier]
    n_pure, n_jit = cfg["workers"]
    if a.workers:
        n_pure, n_jit = a.workers, 0
    if a.mode == "pure":
        n_pure, n_jit = max(1, n_pure), 0
    elif a.mode == "jit":
        n_pure, n_jit = 0, max(1, n_jit)
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        n_pure, n_jit = (1, 0) if replay["mode"] == "pure" else (0, 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vt_{pid}_")
    try:
        rc = drive(a, pid, cfg, tier, seed, budget, n_pure, n_jit, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def drive(a, pid, cfg, tier, seed, budget, n_pure, n_jit, replay, scratch, t0):
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    merged = dict(evaluations=0, counters={}, per_monitor={}, samples=[], violations=[], known={}, errors=[], hashes=set())
    # a loaded machine may not reach every required monitor within the budget: go on with fresh cases
    for rnd in range(4):
        procs = []
        for idx, mode in enumerate(["pure"] * n_pure + ["jit"] * n_jit):
            out = os.path.join(scratch, f"out{rnd}_{idx}.json")
            log = open(os.path.join(scratch, f"log{rnd}_{idx}.txt"), "wb")
            spec = dict(pid=pid, mode=mode, idx=idx, tier=tier, seed=seed, budget=budget, out=out, only=a.only,
                        n_pure=n_pure, n_jit=n_jit, replay=replay, round=rnd)
            p = subprocess.Popen([py, "-m", "vt.worker", json.dumps(spec)], cwd=scratch,
                                 env=worker_env(mode, scratch, idx, cfg["env"](idx, tier) if cfg.get("env") else None), stdout=log, stderr=subprocess.STDOUT)
            procs.append((p, spec, log))
        hard = time.time() + budget * 2 + (420 if tier == "quick" else 600)
        first_viol = None
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(0.05)
            now = time.time()
            if now > hard:
                for p, _, _ in procs:
                    if p.poll() is None:
                        p.kill()
            if first_viol is None:
                for p, s, _ in procs:
                    if os.path.exists(s["out"] + ".viol"):
                        first_viol = now
            elif now > first_viol + 6:
                for p, _, _ in procs:
                    if p.poll() is None:
                        p.kill()
        notes = []
        for p, s, log in procs:
            log.close()
            res = None
            for path in (s["out"], s["out"] + ".viol"):
                if os.path.exists(path):
                    try:
                        res = json.load(open(path))
                        break
                    except Exception:
                        pass
            if res is None:
                tail = open(log.name, "rb").read()[-3000:].decode("utf8", "replace")
                if first_viol is None or p.returncode not in (-9,):
                    merged["errors"].append(f"worker {s['idx']} ({s['mode']}) ended with {p.returncode}: {tail}")
                    if p.returncode is not None and p.returncode < 0 and p.returncode not in (-9, -15):
                        notes.append((s, p.returncode, tail))
                continue
            merged["evaluations"] += res["evaluations"]
            merged["hashes"].update(res["hashes"])
            for k, v in res["counters"].items():
                merged["counters"][k] = merged["counters"].get(k, 0) + v
            for k, v in res["per_monitor"].items():
                kk = s["mode"] + ":" + k
                merged["per_monitor"][kk] = merged["per_monitor"].get(kk, 0) + v
            merged["samples"] += res["samples"][:2]
            merged["violations"] += res["violations"]
            merged["errors"] += res["errors"]
            for k, v in res["known"].items():
                merged["known"].setdefault(k, v)
        # a compiled worker that crashed by signal (SIGSEGV/SIGABRT) is an observed memory violation
        for s, rc, tail in notes:
            cur = s["out"] + ".cur"
            if os.path.exists(cur):
                try:
                    v = json.load(open(cur))
                except Exception:
                    continue
                v["message"] = f"process crashed with signal {-rc} while executing this case"
                merged["violations"].append(v)
        missing = [m for m in cfg.get("required", []) if not merged["counters"].get(m)]
        few = len(merged["hashes"]) < cfg.get("min_distinct", 20)
        if merged["violations"] or merged["errors"] or replay or a.only or not (missing or few) or time.time() - t0 > 300:
            break
    wall = time.time() - t0
    rule = cfg.get("rule", "random cases from seeded generators; non-trivial = distinct case digest that reached the deciding oracle")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=merged["evaluations"], distinct_nontrivial=len(merged["hashes"]), rule=rule,
                            samples=merged["samples"][:6], monitors=merged["per_monitor"], observed=merged["counters"],
                            workers=dict(interpreted=n_pure, compiled=n_jit),
                            known_findings=sorted(merged["known"])),
              assumptions=cfg.get("assumptions", []) + ["host NumPy/pandas/numba are trusted", "held on the executions listed, not verified for all"],
              wall_s=round(wall, 2), violations=len(merged["violations"]))
    if not a.no_evidence and not a.replay:
        tmp = os.path.join(ROOT, "evidence", f".{pid}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1, default=str)
        os.replace(tmp, os.path.join(ROOT, "evidence", f"{pid}.json"))
    for k, v in sorted(merged["known"].items()):
        print(f"KNOWN-FINDING: property={pid} {v}")
    print(f"{pid} [{tier} seed={seed}] {merged['evaluations']} evaluations, {len(merged['hashes'])} distinct non-trivial, "
          f"{sum(merged['counters'].values())} observed events, {wall:.1f}s")
    if merged["violations"]:
        v = merged["violations"][0]
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.md5(json.dumps(v, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{pid}_{h}.json")
        json.dump(v, open(path, "w"), indent=1, default=str)
        print(f"  monitor {v['monitor']} mode {v['mode']} case {v['case']}: {v['message'][:1500]}")
        for e in merged["violations"][1:4]:
            print(f"  also: monitor {e['monitor']} case {e['case']}: {e['message'][:300]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if merged["errors"]:
        print("INCONCLUSIVE: harness error")
        for e in merged["errors"][:3]:
            print(e[-3000:])
        return 3
    if replay is None and not a.only and (missing or len(merged["hashes"]) < cfg.get("min_distinct", 20)):
        print(f"INCONCLUSIVE: monitors not reached: {missing}, distinct={len(merged['hashes'])}")
        return 3
    return 0
