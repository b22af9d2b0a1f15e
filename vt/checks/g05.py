"""G05: no look-ahead. Outputs up to row t stay as they are when every input row after t is rewritten or cut off."""
import warnings
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.portfolio.enums import StopEntryPrice
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


# ------------------------------------------------------------------ inputs
def price(rng, n, c):
    k = pick(rng, ["walk", "grid", "wild", "flat"])
    if k == "walk":
        a = 100 * np.exp(np.cumsum(rng.normal(0, 0.03, (n, c)), axis=0))
    elif k == "grid":
        a = rng.integers(1, 12, (n, c)).astype(float)
    elif k == "wild":
        a = 10 * np.exp(rng.normal(0, 1.5, (n, c)))
    else:
        a = np.full((n, c), float(rng.integers(1, 9)))
    return a


def gappy(rng, n, c):
    a = price(rng, n, c)
    if rng.random() < 0.5:
        a[rng.random((n, c)) < pick(rng, [0.05, 0.3])] = NAN
    return a


def returns(rng, n, c):
    return rng.normal(0, 0.03, (n, c))


def flags(rng, n, c):
    return rng.random((n, c)) < pick(rng, [0.1, 0.3, 0.6])


def volume(rng, n, c):
    return rng.integers(0, 100, (n, c)).astype(float)


def hlc(rng, n, c):
    cl = price(rng, n, c)
    return [cl + rng.integers(0, 4, (n, c)), np.maximum(cl - rng.integers(0, 3, (n, c)) * 0.25, 0.1), cl]


def ohlc(rng, n, c):
    h, l, cl = hlc(rng, n, c)
    o = np.clip(cl + rng.normal(0, 0.5, (n, c)), l, h)
    return [o, h, l, cl]


def single(f):
    return lambda rng, n, c: [f(rng, n, c)]


def many(*fs):
    def draw(rng, n, c):
        out = []
        for f in fs:
            x = f(rng, n, c)
            out += x if isinstance(x, list) else [x]
        return out
    return draw


# ------------------------------------------------------------------ operations
OPS = {}


def op(name, inputs, **kw):
    def deco(f):
        OPS[name] = dict(make=f, inputs=inputs, **kw)
        return f
    return deco


def w_(rng, lo=1, hi=9):
    return int(rng.integers(lo, hi))


def outs(r, names):
    return [getattr(r, k) for k in names]


def indicator(name, inputs, params, out_names):
    @op(name, inputs, group="indicator")
    def make(rng, f=getattr(vbt, name)):
        kw = {k: g(rng) for k, g in params.items()}
        if rng.random() < 0.3 and name != "OBV":
            k = pick(rng, [q for q in params if q not in ("adjust", "ddof")])
            kw[k] = [kw[k], params[k](rng)]
        return lambda *x: outs(f.run(*x, **kw), out_names), 0, str(kw)


yes = lambda rng: bool(rng.random() < 0.5)
indicator("MA", single(gappy), dict(window=w_, ewm=yes, adjust=yes), ["ma"])
indicator("MSTD", single(gappy), dict(window=w_, ewm=yes, adjust=yes, ddof=lambda r: w_(r, 0, 2)), ["mstd"])
indicator("BBANDS", single(gappy), dict(window=w_, ewm=yes, alpha=lambda r: float(pick(r, [1, 2, 2.5])), adjust=yes), ["middle", "upper", "lower", "percent_b", "bandwidth"])
indicator("RSI", single(gappy), dict(window=w_, ewm=yes, adjust=yes), ["rsi"])
indicator("STOCH", hlc, dict(k_window=w_, d_window=w_, d_ewm=yes, adjust=yes), ["percent_k", "percent_d"])
indicator("MACD", single(gappy), dict(fast_window=w_, slow_window=w_, signal_window=w_, macd_ewm=yes, signal_ewm=yes, adjust=yes), ["macd", "signal", "hist"])
indicator("ATR", hlc, dict(window=w_, ewm=yes, adjust=yes), ["tr", "atr"])
indicator("OBV", many(gappy, volume), {}, ["obv"])


def generic(name, inputs, draw):
    @op(name, inputs, group="rolling")
    def make(rng):
        kw = draw(rng)
        return lambda x: [getattr(x.vbt, name)(**kw)], 0, str(kw)


def win(rng, **extra):
    w = w_(rng)
    return dict(window=w, **({"minp": int(rng.integers(0, w + 1))} if rng.random() < 0.5 else {}), **extra)


for nm in ("rolling_min", "rolling_max", "rolling_mean"):
    generic(nm, single(gappy), win)
generic("rolling_std", single(gappy), lambda r: win(r, ddof=int(r.integers(0, 2))))
for nm in ("expanding_min", "expanding_max", "expanding_mean", "expanding_std"):
    generic(nm, single(gappy), lambda r: dict(minp=int(r.integers(1, 5))))
generic("ewm_mean", single(gappy), lambda r: dict(span=w_(r, 3), minp=int(r.integers(0, 4)), adjust=yes(r)))
generic("ewm_std", single(gappy), lambda r: dict(span=w_(r, 3), minp=int(r.integers(0, 4)), adjust=yes(r)))
for nm in ("fshift", "diff", "pct_change"):
    generic(nm, single(gappy), lambda r: dict(n=w_(r, 0, 5)))
generic("ffill", single(gappy), lambda r: {})
generic("cumsum", single(gappy), lambda r: {})
generic("cumprod", single(returns), lambda r: {})
generic("fillna", single(gappy), lambda r: dict(value=0.0))


def mean_of(*a):
    return np.nanmean(a[-1]) if np.size(a[-1]) and not np.isnan(a[-1]).all() else NAN


@op("rolling_apply", single(gappy), group="rolling", pure=True)
def _(rng):
    kw = win(rng)
    return lambda x: [x.vbt.rolling_apply(kw["window"], mean_of, minp=kw.get("minp"))], 0, str(kw)


@op("expanding_apply", single(gappy), group="rolling", pure=True)
def _(rng):
    mp = int(rng.integers(1, 4))
    return lambda x: [x.vbt.expanding_apply(mean_of, minp=mp)], 0, str(mp)


@op("crossing", many(gappy, gappy), group="crossing")
def _(rng):
    wait, scal, k = int(rng.integers(0, 4)), bool(rng.random() < 0.3), pick(rng, ["crossed_above", "crossed_below"])
    v = float(pick(rng, [5, 100, 10]))
    return lambda x, y: [getattr(x.vbt, k)(v if scal else y, wait=wait)], 0, f"{k} {wait} {v if scal else ''}"


@op("rank", many(flags, flags), group="ranking")
def _(rng):
    kw = dict(after_false=yes(rng), allow_gaps=yes(rng))
    reset = yes(rng)

    def f(x, r):
        rb = dict(reset_by=r) if reset else {}
        s = x.vbt.signals
        return [s.pos_rank(**kw, **rb), s.partition_pos_rank(after_false=kw["after_false"], **rb), s.first(**rb), s.nth(1, **rb), s.from_nth(2, **rb)]
    return f, 0, f"{kw} {reset}"


@op("clean", many(flags, flags), group="signals")
def _(rng):
    first = yes(rng)

    def f(x, y):
        return list(x.vbt.signals.clean(y, entry_first=first))
    return f, 0, f"entry_first={first}"


def stop_kw(rng, chain):
    kw = dict(exit_wait=int(rng.integers(0, 3)), pick_first=yes(rng))
    if chain:
        kw.update(chain=True, entry_wait=int(rng.integers(0, 3)))
        if kw["entry_wait"] == kw["exit_wait"] == 0:
            kw["entry_wait"] = 1
    elif rng.random() < 0.5:
        kw.update(until_next=yes(rng), skip_until_exit=yes(rng))
        if kw["skip_until_exit"]:
            kw["until_next"] = False
    if chain or kw.get("skip_until_exit"):
        kw["pick_first"] = True      # taking every later hit, the last of them decides where the next entry may come
    return kw


@op("stop_exits", many(flags, price), group="stops")
def _(rng):
    chain = rng.random() < 0.4
    kw = stop_kw(rng, chain)
    stop, trail = float(pick(rng, [0.02, 0.1, 0.3, -0.1, -0.03])), yes(rng)

    def f(e, p):
        r = e.vbt.signals.generate_stop_exits(p, stop, trailing=trail, **kw)
        return list(r) if isinstance(r, tuple) else [r]
    return f, 0, f"{stop} {trail} {kw}"


@op("ohlc_stop_exits", many(flags, ohlc), group="stops")
def _(rng):
    chain = rng.random() < 0.4
    kw = stop_kw(rng, chain)
    kw.update(sl_stop=float(pick(rng, [0.02, 0.1, NAN])), tp_stop=float(pick(rng, [0.02, 0.1, NAN])), sl_trail=yes(rng), reverse=yes(rng), is_open_safe=yes(rng))

    def f(e, o, h, l, c):
        d = {}
        r = e.vbt.signals.generate_ohlc_stop_exits(open=o, high=h, low=l, close=c, out_dict=d, **kw)
        return (list(r) if isinstance(r, tuple) else [r]) + [d["stop_price"], d["stop_type"]]
    return f, 0, str(kw)


@op("STX", many(flags, price), group="stops")
def _(rng):
    stop, trail = float(pick(rng, [0.02, 0.1, -0.1])), yes(rng)
    return lambda e, p: [vbt.STX.run(e, p, stop, trail).exits], 0, f"{stop} {trail}"


@op("OHLCSTCX", many(flags, ohlc), group="stops")
def _(rng):
    sl, tp, tr = float(pick(rng, [0.02, 0.1])), float(pick(rng, [0.02, 0.1, NAN])), yes(rng)

    def f(e, o, h, l, c):
        r = vbt.OHLCSTCX.run(e, o, h, l, c, sl_stop=sl, tp_stop=tp, sl_trail=tr)
        return [r.new_entries, r.exits, r.stop_price, r.stop_type]
    return f, 0, f"{sl} {tp} {tr}"


@op("returns", many(returns, returns), group="returns", pure=True)
def _(rng):
    w = w_(rng, 2)
    k = pick(rng, ["rolling_total", "rolling_sharpe_ratio", "rolling_max_drawdown", "rolling_annualized_volatility", "rolling_beta", "rolling_alpha",
                   "rolling_sortino_ratio", "rolling_calmar_ratio", "rolling_value_at_risk", "rolling_cond_value_at_risk", "rolling_tail_ratio", "rolling_up_capture",
                   "rolling_information_ratio", "rolling_omega_ratio", "rolling_downside_risk", "rolling_annualized", "rolling_capture", "rolling_down_capture", "rolling_common_sense_ratio"])

    def f(x, b):
        a = x.vbt.returns(freq="1D", benchmark_rets=b)
        return [getattr(a, k)(window=w), a.cumulative(), a.drawdown()]
    return f, 0, f"{k} {w}"


@op("to_returns", single(price), group="returns")
def _(rng):
    return lambda x: [x.vbt.to_returns(), x.vbt.drawdown()], 0, ""


TALIB = ["SMA", "EMA", "RSI", "ADX", "MOM", "BBANDS", "ATR", "KAMA", "SAR", "STOCH", "OBV", "LINEARREG", "TRIX", "HT_TRENDLINE", "CCI"]


@op("talib", many(ohlc, volume), group="indicator")
def _(rng):
    F = vbt.talib(pick(rng, TALIB))

    def f(o, h, l, c, v):
        m = dict(open=o, high=h, low=l, close=c, volume=v, real=c)
        r = F.run(*[m[k] for k in F.input_names])
        return [getattr(r, k) for k in F.output_names]
    return f, 0, F.__name__


# look-ahead by design, to a documented row
@op("FIXLB", single(gappy), group="labels")
def _(rng):
    n = w_(rng, 0, 6)
    return lambda x: [vbt.FIXLB.run(x, n).labels], n, str(n)


@op("future_windows", single(gappy), group="labels")
def _(rng):
    w, wait = w_(rng), int(rng.integers(0, 4))
    k, o = pick(rng, [("FMEAN", "fmean"), ("FSTD", "fstd"), ("FMIN", "fmin"), ("FMAX", "fmax"), ("MEANLB", "labels")])
    return lambda x: [getattr(getattr(vbt, k).run(x, w, wait=wait), o)], w + wait - 1, f"{k} {w} {wait}"


@op("BOLB", single(gappy), group="labels")
def _(rng):
    w, wait = w_(rng), int(rng.integers(0, 4))
    p, q = [float(v) for v in rng.choice([0.0, 0.02, 0.1, 0.4], 2)]
    return lambda x: [vbt.BOLB.run(x, w, p, q, wait=wait).labels], w + wait - 1, f"{w} {wait} {p} {q}"


# ------------------------------------------------------------------ monitor
def labelled(arrs, ser, idx, cols):
    return [pd.Series(a[:, 0].copy(), index=idx[:len(a)], name="x") if ser else pd.DataFrame(a.copy(), index=idx[:len(a)], columns=cols) for a in arrs]


def evaluate(f, arrs, ser, idx, cols):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [np.asarray(o, float).reshape(len(arrs[0]), -1) for o in f(*labelled(arrs, ser, idx, cols))]


def same(ctx, a, b, rows, what, tol=1e-9):
    ctx.check(len(a) == len(b), what)
    for k, (x, y) in enumerate(zip(a, b)):
        x, y = x[:rows], y[:rows]
        fin = np.abs(x[np.isfinite(x)])
        sc = float(fin.max()) if fin.size else 1.0
        ctx.eq(y, x, f"output {k} of {what}", rtol=tol, atol=tol * 1e-3 * max(sc, 1e-3))


@monitor(weight=8, modes=("pure", "jit"))
def m_causal(ctx):
    rng = ctx.rng
    names = [k for k, v in OPS.items() if not (v.get("pure") and ctx.mode == "jit")]
    groups = sorted({OPS[k]["group"] for k in names})
    g = pick(rng, groups)
    name = pick(rng, [k for k in names if OPS[k]["group"] == g])
    o = OPS[name]
    n, c = int(rng.integers(2, 40)), int(rng.integers(1, 4))
    if name == "talib":
        n += 60
    f, horizon, desc = o["make"](rng)
    arrs = o["inputs"](rng, n, c)
    idx, cols = gen.dt_index(rng, n), gen.columns(rng, c)
    ser = c == 1 and rng.random() < 0.5
    base = evaluate(f, arrs, ser, idx, cols)
    for _ in range(3):
        t = int(rng.integers(0, n))
        rows = t + 1 - horizon
        if rows < 1:
            continue
        how = pick(rng, ["redraw", "redraw", "cut", "swap", "extreme", "missing"])
        if how == "cut":
            if t + 1 < 2 or name == "talib" and t < 60:
                continue
            other = [a[:t + 1] for a in arrs]
        else:
            fresh = o["inputs"](rng, n, c)
            other = []
            for a, b in zip(arrs, fresh):
                x = a.copy()
                if how == "extreme" and a.dtype.kind == "f" and o["group"] != "labels":
                    b = b * pick(rng, [1e-4, 1e4])
                elif how == "missing" and a.dtype.kind == "f" and name not in ("talib",):
                    b = np.full_like(a, NAN)
                elif how == "swap":
                    b = a[::-1]
                x[t + 1:] = b[t + 1:]
                other.append(x)
        got = evaluate(f, other, ser, idx, cols)
        same(ctx, base, got, rows, f"{name}({desc}) changed up to row {rows - 1} after {how} of the rows after {t}; inputs {[a.tolist() for a in arrs]} then {[a.tolist() for a in other]}", tol=1e-9 if o["group"] != "labels" else 1e-5)
        ctx.seen("rewritten_" + how)
        ctx.seen("rows_compared", rows)
    ctx.seen(name)
    ctx.nontrivial(name, desc, arrs[0].tobytes())


@monitor(weight=2, modes=("pure", "jit"))
def m_zigzag(ctx):
    """Extrema confirmed within a prefix stay; trend labels between them too."""
    rng = ctx.rng
    n, c = int(rng.integers(4, 50)), int(rng.integers(1, 3))
    x = 50 * np.exp(np.cumsum(rng.normal(0, 0.05, (n, c)), axis=0))
    p, q = float(pick(rng, [0.02, 0.05, 0.1])), float(pick(rng, [0.02, 0.05, 0.1]))
    mode = int(rng.integers(0, 5))
    t = int(rng.integers(2, n))
    f = lambda a: (np.asarray(vbt.LEXLB.run(pd.DataFrame(a), p, q).labels), np.asarray(vbt.TRENDLB.run(pd.DataFrame(a), p, q, mode).labels))
    y = x.copy()
    y[t + 1:] = 50 * np.exp(rng.normal(0, 0.5, (n - t - 1, c)))
    (l0, t0), (l1, t1) = f(x), f(y if rng.random() < 0.5 else x[:t + 1])
    for j in range(c):
        e = np.flatnonzero(f(x[:t + 1])[0][:, j])
        if len(e) > 1:
            ctx.eq(l1[:e[-1], j], l0[:e[-1], j], f"confirmed extrema of {x[:, j].tolist()} ({p}, {q}) up to row {t}", rtol=0, atol=0)
            ctx.eq(t1[:e[-2], j], t0[:e[-2], j], f"trend labels ({mode}) between confirmed extrema of {x[:, j].tolist()} ({p}, {q}) up to row {t}")
            ctx.seen("confirmed", len(e) - 1)
    ctx.nontrivial("zz", x.tobytes())
