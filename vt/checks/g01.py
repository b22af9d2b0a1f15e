"""G01: rolling, expanding and exponential statistics against pandas and against exact window sums."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.generic import dispatch, nb
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


def values(ctx, n, c):
    rng = ctx.rng
    kind = pick(rng, ["walk", "lattice", "tiny", "big", "mixed", "const", "int", "bool", "f32", "int8", "prices", "spikes"])
    if ctx.mode == "pure" and kind in ("f32", "bool", "int8"):   # the interpreter computes these in their own precision
        kind = "walk"
    if kind == "walk":
        a = 100 + np.cumsum(rng.normal(0, 1, (n, c)), axis=0)
    elif kind == "lattice":
        a = rng.integers(-3, 4, (n, c)).astype(float)
    elif kind == "tiny":
        a = rng.normal(0, 1e-8, (n, c))
    elif kind == "big":
        a = 1e9 + rng.normal(0, 10, (n, c))
    elif kind == "mixed":
        a = rng.normal(0, 1, (n, c)) * 10.0 ** rng.integers(-3, 4, (n, c))
    elif kind == "const":
        a = np.full((n, c), float(rng.normal(0, 10)))
    elif kind == "int":
        a = rng.integers(-10 ** 6, 10 ** 6, (n, c))
    elif kind == "bool":
        a = rng.random((n, c)) < 0.5
    elif kind == "f32":
        a = rng.normal(50, 5, (n, c)).astype(np.float32)
    elif kind == "int8":
        a = rng.integers(-128, 128, (n, c)).astype(pick(rng, [np.int8, np.int16]))
    elif kind == "spikes":
        a = rng.normal(0, 1, (n, c))
        a[rng.random((n, c)) < 0.1] *= 1e14
    else:
        a = gen.prices(rng, n, c)
    if a.dtype.kind == "f" and rng.random() < 0.6:
        a[rng.random((n, c)) < pick(rng, [0.1, 0.3, 0.8])] = NAN
        if rng.random() < 0.3:
            a[:int(rng.integers(0, n + 1)), int(rng.integers(c))] = NAN
        if rng.random() < 0.15:
            a[:, int(rng.integers(c))] = NAN
        ctx.seen("with_nan")
    if a.dtype.kind != "f":
        ctx.seen("other_dtypes")
    return a, kind


def scale(a):
    b = np.abs(np.asarray(a, float))
    b = b[~np.isnan(b)]
    return float(b.max()) if b.size else 1.0


def wants(rng, n):
    w = int(rng.integers(1, n + 4))
    if rng.random() < 0.5:
        w = min(w, int(rng.integers(1, 6)))
    minp = pick(rng, [None, 0, 1, w, int(rng.integers(0, w + 1))])
    return w, minp


def reference(op, s, w, minp, ddof, adjust):
    """pandas result of one column (float64 Series)."""
    kind, stat = op.split("_")
    if kind == "rolling":
        r = s.rolling(w, min_periods=minp)
    elif kind == "expanding":
        r = s.expanding(min_periods=minp)
    else:
        r = s.ewm(span=w, min_periods=minp if minp is not None else w, adjust=adjust)
    if stat == "std" and kind != "ewm":
        return getattr(r, stat)(ddof=ddof)
    return getattr(r, stat)()


OPS = ["rolling_min", "rolling_max", "rolling_mean", "rolling_std", "expanding_min", "expanding_max", "expanding_mean", "expanding_std", "ewm_mean", "ewm_std"]


def tolerance(op, a, kind):
    sc = scale(a)
    if op.endswith("min") or op.endswith("max"):
        return dict(rtol=0, atol=0)
    if op.endswith("mean"):
        return dict(rtol=1e-12, atol=sc * 1e-14)
    # the variance loses half of the digits
    return dict(rtol=1e-9, atol=sc * (2e-7 if kind in ("spikes", "mixed") else 1e-8))


@monitor(weight=3, modes=("pure", "jit"))
def m_accessors(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 16)), int(rng.integers(1, 4))
    a, kind = values(ctx, n, c)
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    o = pd.Series(a[:, 0], index=idx, name="x") if c == 1 and rng.random() < 0.5 else pd.DataFrame(a, index=idx, columns=cols)
    before = a.copy()
    f = pd.DataFrame(np.asarray(a, float))
    for op in (OPS if ctx.mode == "pure" else [pick(rng, OPS)]):
        w, minp = wants(rng, n)
        ddof = int(rng.integers(0, 4))
        adjust = bool(rng.random() < 0.5)
        kw = {}
        k = op.split("_")[0]
        if k != "expanding":
            kw["window" if k == "rolling" else "span"] = w
        else:
            minp = int(rng.integers(0, n + 3))
            if minp > n:
                ctx.seen("minp_beyond_length")
        if k == "ewm":
            kw["adjust"] = adjust
        kw["minp"] = minp
        if k != "ewm" and op.endswith("std"):
            kw["ddof"] = ddof
        dflt = rng.random() < 0.15
        if dflt:      # defaults of the accessor
            kw = {x: kw[x] for x in kw if x in ("window", "span")}
            minp, ddof, adjust = (w if k == "rolling" else (1 if k == "expanding" else 0)), 1, True
        if rng.random() < 0.3:
            kw["wrap_kwargs"] = pick(rng, [{}, dict(columns=cols) if isinstance(o, pd.DataFrame) else {}])
        if rng.random() < 0.3:
            kw["engine"] = pick(rng, ["numba", "auto", None])
        out = getattr(o.vbt, op)(**kw)
        ctx.check(type(out) is type(o) and list(out.index) == list(o.index), f"{op}: type/index")
        ctx.check(list(out.columns) == list(o.columns) if isinstance(o, pd.DataFrame) else out.name == "x", f"{op}: labels")
        got = np.asarray(out).reshape(n, c)
        for j in range(c):
            e = reference(op, f[j], w, minp, ddof, adjust).values
            ctx.eq(got[:, j], e, f"{op}({kw}) [{kind}] of {a[:, j].tolist()}", **tolerance(op, a[:, j], kind))
        ctx.seen(op)
    ctx.eq(np.asarray(o).reshape(n, c), before, "input untouched", rtol=0, atol=0)
    ctx.nontrivial(a.tobytes(), a.shape, kind)


@monitor(weight=3, modes=("pure", "jit"))
def m_kernels(ctx):
    """1-d and 2-d entry points with every memory layout."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 16)), int(rng.integers(1, 4))
    a, kind = values(ctx, n, c)
    lay = pick(rng, ["C", "F", "strided"])
    if lay == "F":
        x = np.asfortranarray(a)
    elif lay == "strided":
        big = np.zeros((2 * n, 2 * c), a.dtype)
        big[::2, ::2] = a
        x = big[::2, ::2]
    else:
        x = np.ascontiguousarray(a)
    f = pd.DataFrame(np.asarray(a, float))
    for op in (OPS if ctx.mode == "pure" else [pick(rng, OPS)]):
        w, minp = wants(rng, n)
        ddof, adjust = int(rng.integers(0, 4)), bool(rng.random() < 0.5)
        k = op.split("_")[0]
        args = [w] if k != "expanding" else []
        if k == "expanding":
            minp = int(rng.integers(0, n + 3))
        args.append(minp)
        if k == "ewm":
            args.append(adjust)
        if op.endswith("std"):
            args.append(ddof)
        out = getattr(dispatch, op)(x, *args)
        ctx.check(out.shape == (n, c) and out.dtype == np.float64, f"{op}: shape/dtype {out.shape} {out.dtype}")
        j = int(rng.integers(c))
        one = getattr(dispatch, op + "_1d")(x[:, j], *args)
        ctx.eq(one, out[:, j], f"{op}: 1-d against 2-d", rtol=0, atol=0)
        for j in range(c):
            e = reference(op, f[j], w, minp, ddof, adjust).values
            ctx.eq(out[:, j], e, f"{op}{tuple(args)} [{kind} {lay}] of {a[:, j].tolist()}", **tolerance(op, a[:, j], kind))
        if k != "expanding":
            ctx.raises(ValueError, lambda: getattr(dispatch, op)(x, w, w + 1), msg=f"{op}: minp > window")
        ctx.seen("kernel_" + op)
    ctx.nontrivial(a.tobytes(), a.shape, kind, lay)


@monitor(weight=2, modes=("pure", "jit"))
def m_drift(ctx):
    """Long series: exact window sums as reference, no error accumulating with the rows."""
    rng = ctx.rng
    n = int(rng.integers(200, 700)) if ctx.mode == "pure" else int(rng.integers(5000, 30000))
    kind = pick(rng, ["walk", "offset", "spikes", "growth", "decay", "runs"])
    if kind == "walk":
        a = np.cumsum(rng.normal(0, 1, n))
    elif kind == "offset":
        a = 1e8 + rng.normal(0, 1, n)
    elif kind == "spikes":
        a = rng.normal(0, 1, n)
        a[rng.random(n) < 0.02] = 1e15
    elif kind == "growth":
        a = 10.0 ** np.linspace(-6, 9, n) * rng.uniform(0.5, 1.5, n)
    elif kind == "decay":
        a = 10.0 ** np.linspace(12, -3, n) * rng.uniform(0.5, 1.5, n)
    else:
        a = np.repeat(rng.normal(0, 1e6, n // 20 + 1), 20)[:n]
    if rng.random() < 0.4:
        a[rng.random(n) < 0.2] = NAN
    w = int(rng.integers(2, 40))
    minp = int(rng.integers(1, w + 1))
    m = dispatch.rolling_mean_1d(a, w, minp)
    s = dispatch.rolling_std_1d(a, w, minp, 1)
    ps = pd.Series(a).rolling(w, min_periods=minp).std(ddof=1).values
    run = np.fmax.accumulate(np.abs(np.where(np.isnan(a), 0, a)))
    rows = np.unique(np.concatenate([rng.integers(0, n, 150), np.arange(max(0, n - 50), n)]))
    for i in rows:
        x = [v for v in a[max(0, i - w + 1):i + 1].tolist() if v == v]
        if len(x) < minp:
            ctx.check(m[i] != m[i] and s[i] != s[i], f"row {i}: too few observations", got=(m[i], s[i]))
            continue
        e = math.fsum(x) / len(x)
        ctx.check(abs(m[i] - e) <= 8 * 2.3e-16 * run[i] + 1e-12 * abs(e), f"rolling mean drifts at row {i} of {n} [{kind}]: {m[i]!r} against {e!r} (largest value so far {run[i]!r})")
        if len(x) > 1:
            es = math.sqrt(math.fsum((v - e) ** 2 for v in x) / (len(x) - 1))
            if es > 1e-6 * max(map(abs, x)):
                # pandas' own error is allowed
                ctx.check(abs(s[i] - es) <= 1e-6 * es + 4 * abs(ps[i] - es) + 1e-9 * max(map(abs, x)), f"rolling std drifts at row {i} of {n} [{kind}]: {s[i]!r} against {es!r}, pandas {ps[i]!r}")
        ctx.seen("long_rows")
    ctx.eq(np.isnan(s), np.isnan(ps), "rolling std: defined rows")
    mm = dispatch.expanding_mean_1d(a, 1)
    i = int(rows[-1])
    x = [v for v in a[:i + 1].tolist() if v == v]
    if x:
        ctx.check(abs(mm[i] - math.fsum(x) / len(x)) <= 64 * 2.3e-16 * run[i], f"expanding mean drifts at row {i}")
    sub = a[max(0, i - w + 1):i + 1]
    if (~np.isnan(sub)).sum() >= minp:
        ctx.eq(dispatch.rolling_max_1d(a, w, minp)[i], np.nanmax(sub), "rolling max of a long series", rtol=0, atol=0)
        ctx.eq(dispatch.rolling_min_1d(a, w, minp)[i], np.nanmin(sub), "rolling min of a long series", rtol=0, atol=0)
    e = pd.Series(a).ewm(span=w, min_periods=0, adjust=False).mean().values
    ctx.eq(dispatch.ewm_mean_1d(a, w, 0, False), e, "ewm mean of a long series", rtol=1e-10, atol=1e-12 * float(run[-1]) * 1e-3)
    ctx.seen("long_series")
    ctx.nontrivial("long", a.tobytes())
