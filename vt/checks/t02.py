"""T02: rolling return metrics against the metric of each window; resampled returns against their bins."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.returns import dispatch
from vt import gen, metrics as M
from vt.checks.t01 import METRICS, draw_acc, draw_bench, call_params, reference, unstable
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan
ROLL = {k: "rolling_" + v[0] for k, v in METRICS.items()}


def window_refs(name, r, b, ann, p):
    n, w = len(r), p["window"]
    mp = w if p["minp"] is None else p["minp"]
    out, skip = np.full(n, NAN), np.zeros(n, bool)
    for i in range(n):
        lo = max(0, i + 1 - w)
        x = r[lo:i + 1]
        if np.count_nonzero(~np.isnan(x)) < mp:
            continue
        y = None if b is None else b[lo:i + 1]
        if unstable(name, x, y, ann, p):
            skip[i] = True
        else:
            v = reference(name, x, y, ann, p)
            skip[i] = abs(v) > 1e15 and not np.isinf(v)
            out[i] = v
    return out, skip


def drive(ctx, names, k):
    rng = ctx.rng
    n, c = int(rng.integers(1, 26)), int(rng.integers(1, 4))
    acc, r, b, ann, p, obj, kind = draw_acc(ctx, n, c)
    for name in rng.permutation(names)[:k].tolist():
        meth, f, a, needs, pn = METRICS[name]
        kw, q = call_params(ctx, ("window", "minp") + tuple(pn), p)
        if kw.get("minp", 0) is None:
            kw.pop("minp")
            q["minp"] = p["minp"]
        bb = b
        if needs and (b is None or rng.random() < 0.3):
            kw["benchmark_rets"], bb = draw_bench(ctx, n, c, r, obj)
        if q["minp"] is not None and q["minp"] > q["window"]:
            kw["minp"] = q["minp"] = q["window"]
        if rng.random() < 0.1:
            kw["engine"] = pick(rng, ["numba", "auto"])
        out = getattr(acc, ROLL[name])(**kw)
        ctx.check(type(out) is type(obj) and out.index.equals(obj.index), f"{ROLL[name]}: type and index", got=type(out).__name__)
        if isinstance(obj, pd.DataFrame):
            ctx.check(out.columns.equals(obj.columns), f"{ROLL[name]}: columns")
        got = np.asarray(out, float).reshape(n, c)
        for j in range(c):
            want, skip = window_refs(name, r[:, j], None if bb is None else bb[:, j], ann, q)
            g = got[:, j].copy()
            g[skip] = want[skip] = 0.0
            ctx.eq(g, want, f"{ROLL[name]} {({k: v for k, v in kw.items() if k != 'benchmark_rets'})} defaults {p} factor {ann} of {r[:, j].tolist()} against {None if bb is None else bb[:, j].tolist()}", rtol=1e-7, atol=1e-9)
            ctx.seen("windows", np.count_nonzero(want == want))
            ctx.seen("too_few", np.count_nonzero(want != want))
            if (want == want).any():
                ctx.seen(name)
            if needs and b is not None and "benchmark_rets" not in kw:
                ctx.seen("own_benchmark")
    ctx.nontrivial(kind, r.tobytes(), ann)


@monitor(weight=6)
def m_rolling(ctx):
    drive(ctx, list(METRICS), 4)


@monitor(weight=6, modes=("jit",))
def m_rolling_compiled(ctx):
    # each rolling kernel compiles for seconds: every worker takes its own few
    k = 5 if ctx.tier == "quick" else 10
    names = np.random.default_rng(ctx.case[0]).permutation(list(METRICS))[:k].tolist()
    drive(ctx, names, 2)
    ctx.seen("compiled")


@monitor(weight=1)
def m_whole(ctx):
    """A window as long as the series gives the plain metric in the last row."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 20)), int(rng.integers(1, 4))
    acc, r, b, ann, p, obj, kind = draw_acc(ctx, n, c, nan=False, bench=True)
    name = pick(rng, list(METRICS))
    kw, q = call_params(ctx, METRICS[name][4], p)
    roll = np.asarray(getattr(acc, ROLL[name])(window=n, minp=n, **kw), float).reshape(n, c)
    full = np.atleast_1d(np.asarray(getattr(acc, METRICS[name][0])(**kw), float))
    for j in range(c):
        if unstable(name, r[:, j], b[:, j], ann, q):
            continue
        ctx.eq(roll[-1, j], full[j], f"{name}: full window against the whole series", rtol=1e-9, atol=1e-12)
        ctx.check(np.isnan(roll[:-1, j]).all(), f"{name}: shorter windows are undefined")
    ctx.seen("whole")


@monitor(weight=3, modes=("pure", "jit"))
def m_resample(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 60)), int(rng.integers(1, 4))
    how = pick(rng, ["daily", "annual", "free", "free"])
    step = dict(daily=["1h", "6h", "8h", "35min"], annual=["30D", "91D", "7D", "200D"], free=["1D", "3D", "12h"])[how]
    idx = pd.date_range(pick(rng, ["2020-01-01", "2020-01-01 13:37", "2019-12-30"]), periods=n, freq=pick(rng, step))
    if rng.random() < 0.3 and n > 3:     # rows missing: bins may be empty
        keep = np.sort(rng.choice(n, size=int(rng.integers(2, n)), replace=False))
        idx = idx[keep]
        n = len(idx)
        ctx.seen("gaps")
    if rng.random() < 0.2:
        idx = idx.tz_localize("UTC")
    r = rng.normal(0.001, 0.03, (n, c)) if rng.random() < 0.7 else rng.integers(-8, 9, (n, c)) / 32
    if rng.random() < 0.3:
        r[rng.random((n, c)) < 0.2] = NAN
    ser = c == 1 and rng.random() < 0.5
    obj = pd.Series(r[:, 0].copy(), index=idx, name="x") if ser else pd.DataFrame(r.copy(), index=idx, columns=gen.columns(rng, c))
    kw, rk = {}, {}
    if how == "annual":
        y = pick(rng, ["365 days", "252 days", "100 days"])
        acc = obj.vbt.returns(year_freq=y, freq="1D")
        freq = pd.Timedelta(y)
        out = acc.annual()
    elif how == "daily":
        freq = "1D"
        out = obj.vbt.returns(freq="1h").daily()
    else:
        freq = pick(rng, ["2D", "7D", "W", "MS", "ME", "10D", "YS"])
        if rng.random() < 0.3:
            rk = dict(closed=pick(rng, ["left", "right"]), label=pick(rng, ["left", "right"]))
        out = obj.vbt.returns(freq="1D").resample_total_return(freq, **rk)
    full = pd.DataFrame(r, index=idx)
    keys, rows = [], []
    for k, g in full.resample(freq, **rk):
        keys.append(k)
        rows.append([M.total(g[j].values) if len(g) else NAN for j in range(c)])
        ctx.seen("bins")
        if not len(g):
            ctx.seen("empty_bins")
    ctx.check(type(out) is type(obj), "type kept", got=type(out).__name__)
    ctx.check(list(out.index) == keys, f"{how} {freq} {rk}: one row per bin", got=list(out.index), want=keys)
    if not ser:
        ctx.check(out.columns.equals(obj.columns), "columns kept")
    ctx.eq(np.asarray(out, float).reshape(len(keys), c), np.array(rows, float).reshape(len(keys), c), f"{how} {freq} {rk}: compounded return of each bin of {idx.tolist()} {r.tolist()}", rtol=1e-9, atol=1e-12)
    ctx.seen(how)
    ctx.nontrivial("res", how, r.tobytes(), str(freq))


@monitor(weight=0.5)
def m_same_frequency(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    s = pd.Series(rng.normal(0, 0.1, n), index=pd.date_range("2020", periods=n, freq="1D"))
    ctx.eq(s.vbt.returns.daily().values, s.values, "daily returns of daily returns")
    ctx.eq(s.vbt.returns(year_freq="1D").annual().values, s.values, "annual returns of annual returns")
    ctx.raises(Exception, lambda: pd.Series(s.values).vbt.returns(freq="1D").annual(), msg="annual returns without dates")
    ctx.seen("same_frequency")
