"""T01: return and risk metrics against reference formulas, column by column."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from scipy.stats import norm
from vectorbt._settings import settings
from vectorbt.returns import dispatch
from vt import gen, metrics as M
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan
KNOWN_DSR = "deflated-sharpe-excess-kurtosis"

# name -> (accessor method, reference, takes the annualisation factor, takes the benchmark, parameters)
METRICS = dict(
    total=("total", M.total, False, False, ()),
    annualized=("annualized", M.annualized, True, False, ()),
    annualized_volatility=("annualized_volatility", M.annualized_volatility, True, False, ("levy_alpha", "ddof")),
    calmar_ratio=("calmar_ratio", M.calmar_ratio, True, False, ()),
    omega_ratio=("omega_ratio", M.omega_ratio, True, False, ("risk_free", "required_return")),
    sharpe_ratio=("sharpe_ratio", M.sharpe_ratio, True, False, ("risk_free", "ddof")),
    downside_risk=("downside_risk", M.downside_risk, True, False, ("required_return",)),
    sortino_ratio=("sortino_ratio", M.sortino_ratio, True, False, ("required_return",)),
    information_ratio=("information_ratio", M.information_ratio, False, True, ("ddof",)),
    beta=("beta", M.beta, False, True, ()),
    alpha=("alpha", M.alpha, True, True, ("risk_free",)),
    tail_ratio=("tail_ratio", M.tail_ratio, False, False, ()),
    common_sense_ratio=("common_sense_ratio", M.common_sense_ratio, True, False, ()),
    value_at_risk=("value_at_risk", M.value_at_risk, False, False, ("cutoff",)),
    cond_value_at_risk=("cond_value_at_risk", M.cond_value_at_risk, False, False, ("cutoff",)),
    capture=("capture", M.capture, True, True, ()),
    up_capture=("up_capture", M.up_capture, True, True, ()),
    down_capture=("down_capture", M.down_capture, True, True, ()),
    max_drawdown=("max_drawdown", M.max_drawdown, False, False, ()),
)
NAME = dict(total="total_return", annualized="annualized_return")
FREQS = ["1D", "12h", "7D", "2D", "365D", "1h"]


def draw_params(rng):
    return dict(
        ddof=int(rng.integers(0, 3)), risk_free=float(pick(rng, [0.0, 0.001, 0.01, -0.005])), levy_alpha=float(pick(rng, [2.0, 1.5, 1.0])),
        required_return=float(pick(rng, [0.0, 0.001, 0.02, -0.01, 0.1])), cutoff=float(pick(rng, [0.05, 0.01, 0.25, 0.5, 0.123, 0.0])),
        start_value=float(pick(rng, [0.0, 1.0, 100.0])), window=int(rng.integers(1, 9)), minp=None if rng.random() < 0.5 else int(rng.integers(0, 5)))


def draw_rets(ctx, n, c, nan=True):
    rng = ctx.rng
    kind = pick(rng, ["normal", "normal", "fat", "grid", "up", "down", "flat", "total_loss"])
    if kind == "normal":
        r = rng.normal(0.001, 0.02, (n, c))
    elif kind == "fat":
        r = np.clip(rng.standard_t(2, (n, c)) * 0.05, -0.95, 4)
    elif kind == "grid":
        r = rng.integers(-4, 6, (n, c)) / 16
    elif kind == "up":
        r = rng.integers(0, 4, (n, c)) / 64
    elif kind == "down":
        r = -rng.integers(0, 4, (n, c)) / 64
    elif kind == "flat":
        r = np.full((n, c), float(pick(rng, [0.0, 0.25, -0.125])))
    else:
        r = rng.normal(0, 0.02, (n, c))
        r[int(rng.integers(n)), int(rng.integers(c))] = -1.0
    if nan and rng.random() < 0.35:
        r[rng.random((n, c)) < pick(rng, [0.05, 0.3])] = NAN
        if rng.random() < 0.3:
            r[:, int(rng.integers(c))] = NAN
        ctx.seen("with_nan")
    return r, kind


def unstable(name, r, b, ann, p):
    """Values decided by rounding alone (a spread or denominator that is zero only up to rounding)."""
    x = np.asarray(r, float)
    v = x[~np.isnan(x)]
    if name in ("sharpe_ratio", "annualized_volatility") and len(v):
        y = v - p.get("risk_free", 0.0)
        s = M.std(y, p["ddof"])
        return name == "sharpe_ratio" and s == s and s <= 1e-12 * (np.abs(y).max() + np.abs(v).max())
    if name == "information_ratio":
        y = x - np.asarray(b, float)
        y = y[~np.isnan(y)]
        s = M.std(y, p["ddof"])
        return s == s and len(y) > 0 and s <= 1e-12 * (np.abs(v).max() + np.nanmax(np.abs(b)))
    if name == "omega_ratio" and len(v):
        t = p["required_return"] if ann == 1 else (1 + p["required_return"]) ** (1 / ann) - 1
        y = np.abs(v - p["risk_free"] - t)
        return bool(((y > 0) & (y < 1e-12)).any()) or bool((y == 0).any() and (p["risk_free"] or p["required_return"]))
    if name in ("sortino_ratio", "downside_risk") and len(v):
        y = np.abs(v - p["required_return"])
        return bool(((y > 0) & (y < 1e-12)).any())
    if name in ("beta", "alpha"):
        ind = np.where(np.isnan(x), NAN, np.asarray(b, float))
        if not (~np.isnan(ind)).any():
            return False
        var = np.nanmean((ind - np.nanmean(ind)) ** 2)
        if name == "alpha" and var >= 1e-30:
            y = M.alpha(r, b, 1.0, p["risk_free"])
            return not (y > -1 + 1e-6) or abs(np.log1p(y)) * ann > 50
        return 1e-33 < var < 1e-12
    if name in ("capture", "up_capture", "down_capture"):
        f = M.annualized
        bb = np.asarray(b, float)
        if name != "capture":
            bb = bb[bb > 0] if name == "up_capture" else bb[bb < 0]
        d = f(bb, ann)
        return d != 0 and abs(d) < 1e-9
    if name == "calmar_ratio":
        d = abs(M.max_drawdown(r))
        return 0 < d < 1e-9
    if name in ("tail_ratio", "common_sense_ratio") and len(v):
        d = abs(M._pct(r, 0.05))
        return 0 < d < 1e-12
    return False


def reference(name, r, b, ann, p):
    _, f, a, bench, names = METRICS[name]
    args = [r] + ([b] if bench else []) + ([ann] if a else []) + [p[k] for k in names]
    with np.errstate(all="ignore"):
        return f(*args)


def draw_acc(ctx, n, c, nan=True, bench=None):
    """A returns accessor with its raw returns, benchmark, annualisation factor and effective parameters."""
    rng = ctx.rng
    r, kind = draw_rets(ctx, n, c, nan)
    freq = pick(rng, FREQS)
    idx = pd.date_range("2020-01-01", periods=n, freq=freq)
    cols = gen.columns(rng, c)
    ser = c == 1 and rng.random() < 0.5
    mk = lambda a: pd.Series(a[:, 0].copy(), index=idx, name="x") if ser else pd.DataFrame(a.copy(), index=idx, columns=cols)
    obj = mk(r)
    kw = {}
    if rng.random() < 0.3 or n < 3:
        freq = pick(rng, FREQS)
        kw["freq"] = freq
        ctx.seen("freq_given")
    year = pd.Timedelta(settings["returns"]["year_freq"])
    if rng.random() < 0.4:
        y = pick(rng, ["252 days", "365 days", "30 days", "1 days"])
        kw["year_freq"] = y
        year = pd.Timedelta(y)
        ctx.seen("year_freq_given")
    ann = year / pd.Timedelta(freq)
    p = dict(settings["returns"]["defaults"])
    q = draw_params(rng)
    if rng.random() < 0.4:
        d = {k: q[k] for k in p if rng.random() < 0.5 and k in q}
        kw["defaults"] = d
        p.update(d)
        ctx.seen("defaults_given")
    b, raw = None, None
    if bench if bench is not None else rng.random() < 0.7:
        raw, b = draw_bench(ctx, n, c, r, obj)
        kw["benchmark_rets"] = raw
    return obj.vbt.returns(**kw), r, b, ann, p, obj, kind


def draw_bench(ctx, n, c, r, obj):
    rng = ctx.rng
    form = pick(rng, ["frame", "array", "series", "row", "col"])
    full = rng.normal(0.001, 0.02, (n, c)) if rng.random() < 0.6 else rng.integers(-3, 5, (n, c)) / 32
    if rng.random() < 0.2:
        full[rng.random((n, c)) < 0.15] = NAN
    ctx.seen("benchmark_" + form)
    if isinstance(obj, pd.Series):
        return (pd.Series(full[:, 0], index=obj.index, name="b") if form in ("frame", "series") else full[:, 0].copy()), full
    if form == "frame":
        return pd.DataFrame(full, index=obj.index, columns=obj.columns), full
    if form == "array":
        return full, full
    if form == "row":
        return full[:1].copy(), np.repeat(full[:1], n, 0)
    if form == "series":
        return pd.Series(full[:, 0], index=obj.index, name="b"), np.repeat(full[:, :1], c, 1)
    return full[:, :1].copy(), np.repeat(full[:, :1], c, 1)


def call_params(ctx, names, p):
    """Leave to the defaults, or give."""
    q = draw_params(ctx.rng)
    kw = {k: q[k] for k in names if ctx.rng.random() < 0.5}
    return kw, {**p, **kw}


def close(ctx, got, want, msg):
    if not (isinstance(want, float) and abs(want) > 1e15):
        ctx.eq(float(got), float(want), msg, rtol=1e-7, atol=1e-9)


@monitor(weight=6, modes=("pure", "jit"))
def m_metrics(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 12)) if rng.random() < 0.4 else int(rng.integers(12, 60))
    c = int(rng.integers(1, 4))
    acc, r, b, ann, p, obj, kind = draw_acc(ctx, n, c)
    if rng.random() < 0.2 and c > 1:
        k = sorted(rng.choice(c, size=int(rng.integers(1, c + 1)), replace=False).tolist())
        acc, r, obj = acc.iloc[:, k], r[:, k], obj.iloc[:, k]
        b = None if b is None else b[:, k]
        c = len(k)
        ctx.seen("selected")
    keep = r.copy()
    for name in rng.permutation(list(METRICS))[:8].tolist():
        meth, f, a, needs, names = METRICS[name]
        kw, q = call_params(ctx, names, p)
        bb = b
        if needs and (b is None or rng.random() < 0.3):
            kw["benchmark_rets"], bb = draw_bench(ctx, n, c, r, obj)
        if rng.random() < 0.1:
            kw["engine"] = pick(rng, ["numba", "auto"])
        out = getattr(acc, meth)(**kw)
        if isinstance(obj, pd.Series):
            ctx.check(np.ndim(out) == 0, f"{name} of a series is a number", got=type(out).__name__)
            vals = [out]
        else:
            ctx.check(isinstance(out, pd.Series) and out.index.equals(obj.columns) and out.name == NAME.get(name, name), f"{name}: labels and name", got=out, columns=list(obj.columns))
            vals = out.tolist()
        for j in range(c):
            bj = bb[:, j] if bb is not None else None
            if unstable(name, r[:, j], bj, ann, q):
                continue
            want = reference(name, r[:, j], bj, ann, q)
            close(ctx, vals[j], want, f"{name} {({k: v for k, v in kw.items() if k != 'benchmark_rets'})} defaults {p} factor {ann} of {r[:, j].tolist()} against {None if bj is None else bj.tolist()}")
            if want == want:
                ctx.seen(name)
            if np.isinf(want):
                ctx.seen("infinite")
    ctx.eq(np.asarray(obj, float).reshape(keep.shape), keep, "returns untouched", rtol=0, atol=0)
    ctx.nontrivial(kind, r.tobytes(), ann)


@monitor(weight=2, modes=("pure", "jit"))
def m_paths(ctx):
    """Cumulative returns, drawdown, drawdown records and their inversion."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 30)), int(rng.integers(1, 4))
    acc, r, b, ann, p, obj, kind = draw_acc(ctx, n, c, bench=False)
    kw, q = call_params(ctx, ("start_value",), p)
    cum = acc.cumulative(**kw)
    dd = acc.drawdown()
    for x, nm in ((cum, "cumulative"), (dd, "drawdown")):
        ctx.check(type(x) is type(obj) and x.index.equals(obj.index), f"{nm}: type and index", got=type(x).__name__)
    C, D = np.asarray(cum, float).reshape(n, c), np.asarray(dd, float).reshape(n, c)
    for j in range(c):
        ctx.eq(C[:, j], M.cumulative(r[:, j], q["start_value"]), f"cumulative {kw} of {r[:, j].tolist()}", rtol=1e-10, atol=1e-12)
        with np.errstate(all="ignore"):
            want = M.drawdown(r[:, j])
        ctx.eq(D[:, j], want, f"drawdown of {r[:, j].tolist()}", rtol=1e-9, atol=1e-10)
        ctx.check(not (D[:, j] > 1e-12).any(), "drawdown is never positive")
    if not (r == -1).any() and kind != "total_loss":
        md = np.atleast_1d(np.asarray(acc.drawdowns.max_drawdown(), float))
        for j in range(c):
            want = M.max_drawdown(r[:, j])
            ctx.eq(md[j], want if want < -1e-12 else (md[j] if abs(want) > 0 else NAN), f"deepest drawdown record of {r[:, j].tolist()}", rtol=1e-8, atol=1e-10)
        ctx.seen("drawdown_records")
    ctx.seen("paths")
    # inversion
    if not np.isnan(r).any() and (r > -1).all():
        s = float(pick(rng, [1.0, 100.0, 0.5]))
        val = acc.cumulative(start_value=s)
        init = s if rng.random() < 0.5 else np.full(c, s)
        back = acc.from_value(val, init_value=init)
        ctx.eq(np.asarray(back.obj, float).reshape(n, c), r, "returns of the cumulated returns", rtol=1e-9, atol=1e-12)
        ctx.seen("inverted")
    ctx.nontrivial("path", r.tobytes(), str(kw))


@monitor(weight=2, modes=("pure", "jit"))
def m_from_value(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 20)), int(rng.integers(1, 4))
    v = pick(rng, [lambda: rng.integers(-3, 5, (n, c)).astype(float), lambda: rng.integers(1, 50, (n, c)), lambda: 100 + np.cumsum(rng.normal(0, 1, (n, c)), axis=0)])()
    if v.dtype.kind == "f" and rng.random() < 0.3:
        v[rng.random((n, c)) < 0.2] = NAN
    init = pick(rng, [None, float(rng.integers(0, 5)), rng.integers(-2, 5, c).astype(float)])
    iv = np.full(c, NAN) if init is None else np.broadcast_to(init, c)
    want = np.column_stack([M.returns(v[:, j], iv[j]) for j in range(c)])
    obj = pd.DataFrame(v, columns=gen.columns(rng, c), index=gen.dt_index(rng, n))
    kw = {} if init is None else dict(init_value=init)
    how = pick(rng, ["from_value", "to_returns", "function", "array"])
    if how == "from_value":
        a = vbt.returns.accessors.ReturnsDFAccessor.from_value(obj, **kw)
        got = a.obj
        ctx.check(got.index.equals(obj.index) and got.columns.equals(obj.columns), "labels kept")
    elif how == "to_returns":
        if init is not None and np.ndim(init):
            raise Skip
        got = obj.vbt.to_returns(**kw)
    elif how == "array":
        got = vbt.returns.accessors.ReturnsAccessor.from_value(v[:, 0] if c == 1 else v, **kw).obj
    else:
        got = dispatch.returns(v, iv.astype(float))
    ctx.eq(np.asarray(got, float).reshape(n, c), want, f"returns ({how}) of {v.tolist()} starting from {init}", rtol=1e-12, atol=1e-15)
    ctx.seen("returns_" + how)
    ctx.seen("zero_base", np.isinf(want).sum())
    ctx.nontrivial("ret", v.tobytes(), str(init))


@monitor(weight=2)
def m_deflated(ctx):
    """Bailey and Lopez de Prado: P[SR > expected maximum of nb_trials], with skewness and (non-excess) kurtosis."""
    rng = ctx.rng
    n, c = int(rng.integers(8, 60)), int(rng.integers(1, 5))
    r = rng.normal(0.003, 0.02, (n, c)) if rng.random() < 0.5 else rng.standard_t(3, (n, c)) * 0.02
    if rng.random() < 0.2:
        r[rng.random((n, c)) < 0.1] = NAN
    freq, year = pick(rng, ["1D", "7D"]), pick(rng, ["365 days", "252 days"])
    obj = pd.DataFrame(r, index=pd.date_range("2020", periods=n, freq=freq), columns=gen.columns(rng, c))
    ann = pd.Timedelta(year) / pd.Timedelta(freq)
    kw = {}
    rf = float(pick(rng, [0.0, 0.001]))
    if rf or rng.random() < 0.5:
        kw["risk_free"] = rf
    ddof, bias = 1, True
    if rng.random() < 0.3:
        ddof = kw["ddof"] = int(rng.integers(0, 2))
    if rng.random() < 0.3:
        bias = kw["bias"] = bool(rng.random() < 0.5)
    trials = c
    if c < 2 or rng.random() < 0.5:
        trials = kw["nb_trials"] = int(rng.integers(2, 30))
    sr = np.array([M.sharpe_ratio(r[:, j], ann, rf, 1) for j in range(c)])
    if c < 2 or rng.random() < 0.4:
        var = kw["var_sharpe"] = float(rng.uniform(0.1, 3))
    else:
        m = sr.mean()
        var = ((sr - m) ** 2).sum() / (c - ddof)
    got = obj.vbt.returns(year_freq=year).deflated_sharpe_ratio(**kw)
    ctx.check(got.index.equals(obj.columns) and got.name == "deflated_sharpe_ratio", "labels")
    g = 0.5772156649015329
    sr0 = math.sqrt(var / ann) * ((1 - g) * norm.ppf(1 - 1 / trials) + g * norm.ppf(1 - 1 / (trials * math.e)))
    for j in range(c):
        x = np.where(np.isnan(r[:, j]), 0.0, r[:, j])
        d = x - x.mean()
        m2, m3, m4 = (d ** 2).mean(), (d ** 3).mean(), (d ** 4).mean()
        sk, ku = m3 / m2 ** 1.5, m4 / m2 ** 2
        if not bias:
            sk *= math.sqrt(n * (n - 1)) / (n - 2)
            ku = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * ku - 3 * (n - 1)) + 3
        s = sr[j] / math.sqrt(ann)

        def value(k):
            v = 1 - sk * s + (k - 1) / 4 * s * s
            return norm.cdf((s - sr0) * math.sqrt(n - 1) / math.sqrt(v)) if v > 0 else NAN
        ok = lambda w: abs(got.iloc[j] - w) <= 1e-9 + 1e-6 * abs(w) or (w != w and got.iloc[j] != got.iloc[j])
        what = f"deflated Sharpe ratio {kw} factor {ann} of {r[:, j].tolist()}: {got.iloc[j]!r}, reference {value(ku)!r}"
        if ok(value(ku)):
            pass
        elif ok(value(ku - 3)):
            ctx.known(KNOWN_DSR, what)
        else:
            ctx.fail(what)
    ctx.seen("deflated")
    ctx.nontrivial("dsr", r.tobytes(), str(kw))


@monitor(weight=0.5)
def m_requirements(ctx):
    """Annualisation needs both frequencies; settings reach the metrics."""
    rng = ctx.rng
    n = int(rng.integers(3, 12))
    r = rng.normal(0, 0.02, n)
    ser = pd.Series(r)
    ctx.raises(ValueError, lambda: ser.vbt.returns.annualized(), msg="no index frequency")
    idx = pd.Series(r, index=pd.date_range("2020", periods=n, freq="1D"))
    old = settings["returns"]["year_freq"], dict(settings["returns"]["defaults"])
    try:
        settings["returns"]["year_freq"] = None
        ctx.raises(ValueError, lambda: idx.vbt.returns.annualized(), msg="no year frequency")
        y = pick(rng, ["252 days", "100 days"])
        settings["returns"]["year_freq"] = y
        rf = float(rng.uniform(0, 0.01))
        settings["returns"]["defaults"]["risk_free"] = rf
        ctx.eq(float(idx.vbt.returns.sharpe_ratio()), float(M.sharpe_ratio(r, pd.Timedelta(y) / pd.Timedelta("1D"), rf)), "global year frequency and risk-free rate", rtol=1e-8)
    finally:
        settings["returns"]["year_freq"] = old[0]
        settings["returns"]["defaults"].update(old[1])
    ctx.seen("requirements")
