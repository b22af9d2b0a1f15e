"""One worker process: runs the monitors of one property until its budget is used."""
import asyncio
import importlib, json, os, sys, time, traceback, warnings, zlib


def run(spec):
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from vt import core
    if spec["mode"] == "pure":
        v = [(7.77e300, -77, 0xA5), (-3.3e250, 1234567, 0x5A), (np.nan, 0, 0), (1.0, 1, 1)][spec["idx"] % 4]
        core.install_poison(*v)
    state = dict(counters={}, hashes=set(), samples=[], known={}, violations=[], errors=[], evaluations=0, per_monitor={}, pid=spec["pid"])
    t_imp = time.time()
    import vectorbt as vbt
    assert os.path.realpath(vbt.__file__).startswith(os.path.realpath(os.environ.get("VT_REPO", "/repo")) + "/"), vbt.__file__
    if spec["mode"] == "pure":
        vbt.settings.numba["check_func_type"] = False
    importlib.import_module(f"vt.checks.{spec['pid'].lower()}")
    own = f"vt.checks.{spec['pid'].lower()}"      # checks import helpers of each other
    mons = {k: m for (mod, k), m in core.MONITORS.items() if mod == own and spec["mode"] in m["modes"]}
    if spec["only"]:
        mons = {k: m for k, m in mons.items() if spec["only"] in k}
    out = spec["out"]

    def dump(path):
        s = dict(state)
        s["hashes"] = sorted(s["hashes"])
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(s, f, default=str)
        os.replace(tmp, path)

    def one(name, case):
        m = mons[name]
        cur = dict(property=spec["pid"], monitor=name, mode=spec["mode"], case=list(case), seed=spec["seed"], tier=spec["tier"], message="")
        if spec["mode"] == "jit":
            with open(out + ".cur", "w") as f:
                json.dump(cur, f)
        ss = np.random.SeedSequence([zlib.crc32(name.encode()), *[int(c) for c in case]])
        rng = np.random.default_rng(ss)
        import random
        random.seed(int(ss.generate_state(1)[0]))
        np.random.seed(int(ss.generate_state(1)[0]))
        ctx = core.Ctx(rng, spec["mode"], spec["tier"], case, state)
        try:
            m["f"](ctx)
            state["evaluations"] += 1
            state["per_monitor"][name] = state["per_monitor"].get(name, 0) + 1
            if len(state["samples"]) < 2 and ctx.desc:
                state["samples"].append(dict(monitor=name, case=list(case), input=str(core.short(ctx.desc))[:900]))
        except core.Skip:
            pass
        except core.Violation as e:
            cur["message"] = str(e)
            cur["desc"] = core.short(ctx.desc)
            tb = traceback.extract_tb(e.__traceback__)
            cur["at"] = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
            state["violations"].append(cur)
            dump(out + ".viol")
        except (Exception, asyncio.CancelledError) as e:
            tb = traceback.format_exc()
            frames = traceback.extract_tb(e.__traceback__)
            inner = frames[-1].filename
            in_repo = any("/vectorbt/" in f.filename for f in frames)
            if isinstance(e, (AttributeError, ImportError, NameError)) and not in_repo and "vectorbt" in str(e) and "module" in str(e):
                state["errors"].append(f"{name} {case}: {tb}")
            else:
                cur["message"] = f"unexpected {type(e).__name__}: {e} :: {tb[-1800:]}"
                cur["desc"] = core.short(ctx.desc)
                state["violations"].append(cur)
                dump(out + ".viol")

    if spec["replay"]:
        r = spec["replay"]
        one(r["monitor"], r["case"])
        dump(out)
        return
    if not mons:
        dump(out)
        return
    names = sorted(mons)
    W = spec["n_pure"] if spec["mode"] == "pure" else spec["n_jit"]
    slot = spec["idx"] if spec["mode"] == "pure" else spec["idx"] - spec["n_pure"]
    base = spec["seed"] * 1000003 + (0 if spec["mode"] == "pure" else 500000)
    rnd = spec.get("round", 0)
    idx = {n: slot + rnd * 200000 * W for n in names}
    spent = {n: 0.0 for n in names}
    done = {n: (9 if rnd and mons[n]["once"] else 0) for n in names}
    t0 = time.time()
    end = t0 + spec["budget"]
    # every monitor gets at least `floor` cases, then time shares follow the weights
    floor = 2 if spec["mode"] == "pure" else 1
    order = names[slot % len(names):] + names[:slot % len(names)]
    while len(state["violations"]) < 3 and not state["errors"]:
        now = time.time()
        pend = [n for n in order if done[n] < floor and not (mons[n]["once"] and slot)]
        live = [n for n in order if not mons[n]["once"]]
        if pend:
            n = pend[0]
            if now > end + spec["budget"] + 60:
                break
        elif now >= end or not live:
            break
        else:
            n = min(live, key=lambda n: spent[n] / mons[n]["weight"])
        if mons[n]["once"]:
            done[n] = floor
        t = time.time()
        one(n, (base, idx[n]))
        spent[n] += time.time() - t
        done[n] += 1
        idx[n] += W
    state["counters"]["_cpu_s"] = int(sum(spent.values()))
    dump(out)


if __name__ == "__main__":
    run(json.loads(sys.argv[1]))
