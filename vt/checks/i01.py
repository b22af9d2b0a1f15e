"""I01: built-in indicators against their textbook formulas, computed row by row."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.indicators import dispatch
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


# ------------------------------------------------------------------ reference
def sma(x, w):
    out = [NAN] * len(x)
    for i in range(w - 1, len(x)):
        win = x[i - w + 1:i + 1]
        if not any(math.isnan(v) for v in win):
            out[i] = math.fsum(win) / w
    return np.array(out, float)


def rstd(x, w, ddof):
    out = [NAN] * len(x)
    if w > ddof:
        for i in range(w - 1, len(x)):
            win = x[i - w + 1:i + 1]
            if not any(math.isnan(v) for v in win):
                m = math.fsum(win) / w
                out[i] = math.sqrt(math.fsum((v - m) ** 2 for v in win) / (w - ddof))
    return np.array(out, float)


def ewm(x, w, adjust):
    return pd.Series(x).ewm(span=w, min_periods=w, adjust=adjust)


def ma(x, w, is_ewm, adjust):
    x = [float(v) for v in x]
    if is_ewm:
        return ewm(x, w, adjust).mean().values.copy()
    return sma(x, w)


def mstd(x, w, is_ewm, adjust, ddof):
    x = [float(v) for v in x]
    if is_ewm:
        return ewm(x, w, adjust).std().values.copy()
    return rstd(x, w, ddof)


def ext(x, w, f):
    out = [NAN] * len(x)
    for i in range(w - 1, len(x)):
        win = [float(v) for v in x[i - w + 1:i + 1]]
        if not any(math.isnan(v) for v in win):
            out[i] = f(win)
    return np.array(out, float)


def true_range(h, l, c):
    out = []
    for i in range(len(h)):
        cand = [float(h[i]) - float(l[i])]
        if i and not math.isnan(c[i - 1]) and not math.isnan(cand[0]):
            cand += [abs(float(h[i]) - float(c[i - 1])), abs(float(l[i]) - float(c[i - 1]))]
        out.append(max(cand) if not math.isnan(cand[0]) else NAN)
    return np.array(out, float)


def on_balance(c, v):
    s, out = 0.0, []
    for i in range(len(c)):
        x = float(v[i])
        if i and c[i] < c[i - 1]:
            x = -x
        elif i and c[i] == c[i - 1]:
            x = 0.0
        if not math.isnan(x):
            s += x
        out.append(s)
    return np.array(out, float)


# ------------------------------------------------------------------ workload
def series(ctx, n, c):
    rng = ctx.rng
    kind = pick(rng, ["grid", "grid", "walk", "runs", "int", "wild", "const", "big"])
    if kind == "grid":
        a = rng.integers(1, 12, (n, c)).astype(float)
    elif kind == "runs":
        a = np.repeat(rng.integers(1, 60, (n // 3 + 1, c)), 3, axis=0)[:n].astype(float) / 4
    elif kind == "walk":
        a = 100 * np.exp(np.cumsum(rng.normal(0, 0.02, (n, c)), axis=0))
    elif kind == "wild":
        a = 10 * np.exp(np.cumsum(rng.normal(0, 0.5, (n, c)), axis=0))
    elif kind == "int":
        a = rng.integers(1, 1000, (n, c))
    elif kind == "const":
        a = np.full((n, c), float(rng.integers(1, 9)))
    else:
        a = 1e7 + rng.integers(0, 1000, (n, c)).astype(float)
    if a.dtype.kind == "f" and rng.random() < 0.35:
        a[rng.random((n, c)) < pick(rng, [0.03, 0.1, 0.3])] = NAN
        if rng.random() < 0.4:
            a[:int(rng.integers(1, n + 1)), int(rng.integers(c))] = NAN
        ctx.seen("with_nan")
    return a, kind


def hlc(ctx, n, c):
    rng = ctx.rng
    cl, kind = series(ctx, n, c)
    step = pick(rng, [0, 1, 2])
    h = cl + step * rng.integers(0, 4, (n, c))
    l = cl - step * rng.integers(0, 3, (n, c)) * (0.25 if cl.dtype.kind == "f" else 1)
    if cl.dtype.kind == "f" and rng.random() < 0.25:
        for x in (h, l, cl):
            x[rng.random((n, c)) < 0.08] = NAN
    return h, l, cl, kind


def scale(x):
    x = np.abs(np.asarray(x, float))
    x = x[~np.isnan(x)]
    return float(x.max()) if x.size else 1.0


def scan(ctx, rng, names, n, defaults):
    """Parameter values (scalars or lists of the same length) and the combinations they mean."""
    p = int(rng.integers(1, 4)) if ctx.mode == "pure" else int(rng.integers(1, 3))
    single = rng.random() < 0.4
    if single:
        p = 1
    kw, cols = {}, {}
    for k in names:
        def one():
            if "ewm" in k:
                return bool(rng.random() < 0.5)
            if k == "alpha":
                return float(pick(rng, [0.5, 1.0, 2.0, 2.5, 3.0]))
            if rng.random() < 0.3 and k in defaults:
                return int(defaults[k])
            return int(rng.integers(2 if rng.random() < 0.5 else 1, max(3, min(n + 2, 9))))
        vals = [one() for _ in range(p)]
        if single or rng.random() < 0.25:
            vals = vals[:1] * p
            kw[k] = vals[0]
        else:
            kw[k] = pick(rng, [list, tuple])(vals)
        cols[k] = vals
    if single:
        for k in names:
            if k in defaults and rng.random() < 0.3:
                kw.pop(k)
                cols[k] = [defaults[k]]
                ctx.seen("default_parameters")
    if any(isinstance(v, (list, tuple)) for v in kw.values()):
        ctx.seen("several_parameters")
    else:
        p = 1
        cols = {k: v[:1] for k, v in cols.items()}
    return kw, [{k: v[i] for k, v in cols.items()} for i in range(p)]


DEF = dict(
    MA=dict(ewm=False),
    MSTD=dict(ewm=False),
    BBANDS=dict(window=20, ewm=False, alpha=2),
    RSI=dict(window=14, ewm=False),
    STOCH=dict(k_window=14, d_window=3, d_ewm=False),
    MACD=dict(fast_window=12, slow_window=26, signal_window=9, macd_ewm=False, signal_ewm=False),
    ATR=dict(window=14, ewm=True),
    OBV=dict(),
)
NAMES = dict(MA=["window", "ewm"], MSTD=["window", "ewm"], BBANDS=["window", "ewm", "alpha"], RSI=["window", "ewm"],
             STOCH=["k_window", "d_window", "d_ewm"], MACD=["fast_window", "slow_window", "signal_window", "macd_ewm", "signal_ewm"],
             ATR=["window", "ewm"], OBV=[])


def as_pd(rng, arrs, n, c):
    idx, cols = gen.dt_index(rng, n), gen.columns(rng, c)
    ser = c == 1 and rng.random() < 0.5
    return [pd.Series(a[:, 0].copy(), index=idx, name="x") if ser else pd.DataFrame(a.copy(), index=idx, columns=cols) for a in arrs]


def mat(ctx, out, n, cols, what):
    v = np.asarray(out, dtype=float).reshape(n, -1)
    ctx.check(v.shape == (n, cols), f"{what}: {v.shape} instead of {(n, cols)}")
    return v


def warm(ctx, got, rows, what, src):
    """NaN exactly as long as required: (rows) NaN rows then values, when the source has none missing."""
    if not np.isnan(np.asarray(src, float)).any():
        k = min(rows, len(got))
        ctx.check(np.isnan(got[:k]).all() and not np.isnan(got[k:]).any(), f"{what}: {k} undefined rows expected", got=got.tolist())
        ctx.seen("warm_up")


@monitor(weight=4, modes=("pure", "jit"))
def m_formulas(ctx):
    rng = ctx.rng
    name = pick(rng, list(NAMES))
    n = int(rng.integers(1, 16)) if rng.random() < 0.5 else int(rng.integers(16, 48))
    c = int(rng.integers(1, 4))
    kw, combos = scan(ctx, rng, NAMES[name], n, DEF[name])
    adjust, ddof = bool(rng.random() < 0.4), int(rng.integers(0, 3))
    extra = {}
    if name != "OBV":
        extra = gen.omit(rng, dict(adjust=adjust), dict(adjust=False))
    if name in ("MSTD", "BBANDS"):
        extra.update(gen.omit(rng, dict(ddof=ddof), dict(ddof=0)))
    if rng.random() < 0.2:
        extra["engine"] = pick(rng, ["numba", "auto", None])
    F = getattr(vbt, name)
    call = f"{name}({kw}, {extra})"
    if name in ("STOCH", "ATR"):
        h, l, cl, kind = hlc(ctx, n, c)
        ins = as_pd(rng, [h, l, cl], n, c)
    elif name == "OBV":
        cl, kind = series(ctx, n, c)
        vol = rng.integers(0, 50, (n, c)).astype(float)
        if rng.random() < 0.3:
            vol[rng.random((n, c)) < 0.2] = NAN
        ins = as_pd(rng, [cl, vol], n, c)
    else:
        cl, kind = series(ctx, n, c)
        ins = as_pd(rng, [cl], n, c)
    keep = [np.asarray(x).copy() for x in ins]
    r = F.run(*ins, **kw, **extra)
    for x, k in zip(ins, keep):
        ctx.eq(np.asarray(x), k, "inputs untouched", rtol=0, atol=0)
    P = len(combos)
    outs = {o: mat(ctx, getattr(r, o), n, P * c, o) for o in {"MA": ["ma"], "MSTD": ["mstd"], "BBANDS": ["middle", "upper", "lower", "percent_b", "bandwidth"],
            "RSI": ["rsi"], "STOCH": ["percent_k", "percent_d"], "MACD": ["macd", "signal", "hist"], "ATR": ["tr", "atr"], "OBV": ["obv"]}[name]}
    for pi, q in enumerate(combos):
        for j in range(c):
            col = pi * c + j
            o = {k: v[:, col] for k, v in outs.items()}
            x = np.asarray(cl[:, j], float)
            sc = scale(x)
            tol = dict(rtol=1e-11, atol=sc * 1e-13)
            stol = dict(rtol=1e-9, atol=sc * 1e-7)
            what = f"{call} with {q}, adjust={adjust}, ddof={ddof} of {x.tolist()}"
            if name == "MA":
                ctx.eq(o["ma"], ma(x, q["window"], q["ewm"], adjust), "moving average " + what, **tol)
                warm(ctx, o["ma"], q["window"] - 1, "ma", x)
            elif name == "MSTD":
                ctx.eq(o["mstd"], mstd(x, q["window"], q["ewm"], adjust, ddof), "moving deviation " + what, **stol)
            elif name == "BBANDS":
                m, s = ma(x, q["window"], q["ewm"], adjust), mstd(x, q["window"], q["ewm"], adjust, ddof)
                ctx.eq(o["middle"], m, "middle band " + what, **tol)
                st = dict(rtol=1e-9, atol=sc * 1e-7 * q["alpha"])
                ctx.eq(o["upper"], m + q["alpha"] * s, "upper band " + what, **st)
                ctx.eq(o["lower"], m - q["alpha"] * s, "lower band " + what, **st)
                with np.errstate(all="ignore"):
                    ctx.eq(o["percent_b"], (x - o["lower"]) / (o["upper"] - o["lower"]), "%b " + what)
                    ctx.eq(o["bandwidth"], (o["upper"] - o["lower"]) / o["middle"], "bandwidth " + what)
            elif name == "RSI":
                d = np.array([NAN] + [x[i] - x[i - 1] for i in range(1, n)])
                u = ma(np.where(d < 0, 0.0, d), q["window"], q["ewm"], adjust)
                v = ma(np.where(d > 0, 0.0, -d), q["window"], q["ewm"], adjust)
                ds = scale(d)
                for i in range(n):
                    t = u[i] + v[i]
                    g = o["rsi"][i]
                    if t != t:
                        ctx.check(g != g, f"RSI row {i} undefined {what}", got=g)
                    elif t <= ds * 1e-9:
                        if kind in ("grid", "runs", "int", "const", "big") and not q["ewm"]:   # sums are exact
                            ctx.check(g != g, f"RSI row {i} without any change {what}", got=g, up=u[i], down=v[i])
                            ctx.seen("flat_rsi")
                    else:
                        e = 100 * u[i] / t
                        ctx.check(abs(g - e) <= 1e-9 + 100 * ds * 1e-12 / t, f"RSI row {i} {what}: {g!r} instead of {e!r}")
                if kind == "walk" and not np.isnan(x).any():
                    warm(ctx, o["rsi"], q["window"], "rsi", x)
            elif name == "STOCH":
                hi, lo = ext(h[:, j], q["k_window"], max), ext(l[:, j], q["k_window"], min)
                with np.errstate(all="ignore"):
                    k = 100 * (x - lo) / (hi - lo)
                ctx.eq(o["percent_k"], k, "%K " + what, rtol=1e-11, atol=1e-9)
                if not np.isinf(k).any():
                    ctx.eq(o["percent_d"], ma(k, q["d_window"], q["d_ewm"], adjust), "%D " + what, rtol=1e-9, atol=1e-8)
                if step_ok(h[:, j], l[:, j], x):
                    ctx.check(not (o["percent_k"] < -1e-9).any() and not (o["percent_k"] > 100 + 1e-9).any(), "%K within 0..100 " + what)
            elif name == "MACD":
                e = ma(x, q["fast_window"], q["macd_ewm"], adjust) - ma(x, q["slow_window"], q["macd_ewm"], adjust)
                ctx.eq(o["macd"], e, "MACD " + what, **tol)
                s = ma(e, q["signal_window"], q["signal_ewm"], adjust)
                ctx.eq(o["signal"], s, "MACD signal " + what, rtol=1e-9, atol=sc * 1e-11)
                ctx.eq(o["hist"], o["macd"] - o["signal"], "MACD histogram " + what)
                warm(ctx, o["macd"], max(q["fast_window"], q["slow_window"]) - 1, "macd", x)
                warm(ctx, o["signal"], max(q["fast_window"], q["slow_window"]) + q["signal_window"] - 2, "signal", x)
            elif name == "ATR":
                t = true_range(h[:, j], l[:, j], x)
                ctx.eq(o["tr"], t, "true range " + what, rtol=1e-12, atol=0)
                ctx.eq(o["atr"], ma(t, q["window"], q["ewm"], adjust), "ATR " + what, **tol)
            else:
                ctx.eq(o["obv"], on_balance(x, vol[:, j]), f"OBV {what} volume {vol[:, j].tolist()}", rtol=1e-12, atol=1e-9)
            ctx.seen("columns_checked")
    ctx.seen(name)
    ctx.nontrivial(name, str(kw), cl.tobytes())


def step_ok(h, l, x):
    h, l = np.asarray(h, float), np.asarray(l, float)
    return bool(np.all((np.isnan(h) | np.isnan(x) | (h >= x)) & (np.isnan(l) | np.isnan(x) | (l <= x))) and not np.isnan(h + l + x).any())


@monitor(weight=2, modes=("pure", "jit"))
def m_functions(ctx):
    """The engine-neutral functions below the classes, on two-dimensional arrays."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 20)), int(rng.integers(1, 4))
    h, l, cl, kind = hlc(ctx, n, c)
    h, l, cl = [np.asarray(x, float) for x in (h, l, cl)]
    if rng.random() < 0.3:
        h, l, cl = [np.asfortranarray(x) for x in (h, l, cl)]
    w, e, adjust, ddof = int(rng.integers(1, 9)), bool(rng.random() < 0.5), bool(rng.random() < 0.5), int(rng.integers(0, 3))
    sc = scale(cl)
    kw = gen.omit(rng, dict(adjust=adjust), dict(adjust=False))
    m = dispatch.ma(cl, w, e, **kw)
    s = dispatch.mstd(cl, w, e, **kw, **gen.omit(rng, dict(ddof=ddof), dict(ddof=0)))
    t = dispatch.true_range(h, l, cl)
    for j in range(c):
        x = cl[:, j]
        ctx.eq(m[:, j], ma(x, w, e, adjust), f"ma({w}, {e}, {kw}) of {x.tolist()}", rtol=1e-11, atol=sc * 1e-13)
        ctx.eq(s[:, j], mstd(x, w, e, adjust, ddof), f"mstd({w}, {e}, {kw}, {ddof}) of {x.tolist()}", rtol=1e-9, atol=sc * 1e-7)
        ctx.eq(t[:, j], true_range(h[:, j], l[:, j], x), f"true_range of {h[:, j].tolist()} {l[:, j].tolist()} {x.tolist()}", rtol=1e-12, atol=0)
    ctx.seen("functions")
    ctx.nontrivial("fn", cl.tobytes(), w, e)


@monitor(weight=1, modes=("pure", "jit"))
def m_against_pandas(ctx):
    """Longer series in one pandas expression per indicator."""
    rng = ctx.rng
    n = int(rng.integers(60, 300))
    x = pd.Series(100 * np.exp(np.cumsum(rng.normal(0, 0.03, n))))
    h, l = x * (1 + rng.random(n) * 0.05), x * (1 - rng.random(n) * 0.05)
    w = int(rng.integers(2, 30))
    e = bool(rng.random() < 0.5)

    def mean(y, k, ew):
        return y.ewm(span=k, min_periods=k, adjust=False).mean() if ew else y.rolling(k).mean()
    d = x.diff()
    up, dn = d.clip(lower=0), -d.clip(upper=0)
    u, v = mean(up, w, e), mean(dn, w, e)
    ctx.eq(vbt.RSI.run(x, w, ewm=e).rsi.values, (100 - 100 / (1 + u / v)).values, "RSI of a long series", rtol=1e-8, atol=1e-7)
    k = 100 * (x - l.rolling(w).min()) / (h.rolling(w).max() - l.rolling(w).min())
    st = vbt.STOCH.run(h, l, x, k_window=w, d_ewm=e)
    ctx.eq(st.percent_k.values, k.values, "%K of a long series", rtol=1e-10, atol=1e-9)
    ctx.eq(st.percent_d.values, mean(k, 3, e).values, "%D of a long series", rtol=1e-9, atol=1e-8)
    pc = x.shift()
    tr = pd.concat([h - l, (h - pc).abs(), (l - pc).abs()], axis=1).max(axis=1)
    a = vbt.ATR.run(h, l, x, window=w, ewm=e)
    ctx.eq(a.tr.values, tr.values, "TR of a long series", rtol=1e-12)
    ctx.eq(a.atr.values, mean(tr, w, e).values, "ATR of a long series", rtol=1e-9)
    b = vbt.BBANDS.run(x, window=w, alpha=2.5)
    ctx.eq(b.upper.values, (x.rolling(w).mean() + 2.5 * x.rolling(w).std(ddof=0)).values, "upper band of a long series", rtol=1e-9)
    ctx.eq(b.lower.values, (x.rolling(w).mean() - 2.5 * x.rolling(w).std(ddof=0)).values, "lower band of a long series", rtol=1e-9)
    mc = vbt.MACD.run(x, macd_ewm=e)
    f = mean(x, 12, e) - mean(x, 26, e)
    ctx.eq(mc.macd.values, f.values, "MACD of a long series", rtol=1e-8, atol=1e-9)
    ctx.eq(mc.signal.values, f.rolling(9).mean().values, "MACD signal of a long series", rtol=1e-8, atol=1e-9)
    ctx.seen("long_series")
    ctx.nontrivial("long", x.values.tobytes())
