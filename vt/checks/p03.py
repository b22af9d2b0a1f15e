"""P03: nothing that happened up to a bar depends on later bars (rewriting or cutting the future leaves the past bit-for-bit)."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt import gen, model as M, pf
from vt.core import monitor, Skip
from vt.gen import pick, Arg

NAN, INF = np.nan, np.inf


def rewrite(rng, a, perm):
    if a.form in ("scalar", "row"):
        return a
    full = a.full[perm]
    r = a.raw
    if isinstance(r, (pd.DataFrame, pd.Series)):
        v = r.to_numpy()[perm]
        raw = pd.DataFrame(v, index=r.index, columns=r.columns) if isinstance(r, pd.DataFrame) else pd.Series(v, index=r.index, name=r.name)
    else:
        raw = np.asarray(r)[perm]
    return Arg(raw, full, a.form)


def new_prices(rng, x, t):
    y = x.copy()
    m = len(x) - t - 1
    if m <= 0:
        return y
    k = rng.random()
    base = float(np.nanmedian(x)) if np.isfinite(x).any() else 10.0
    fut = np.abs(rng.normal(base, base, (m, x.shape[1]))) + 0.01 * base
    if k < 0.3:
        fut = fut * pick(rng, [100, 0.01])
    if rng.random() < 0.3:
        fut[rng.random(fut.shape) < 0.5] = NAN
    y[t + 1:] = fut
    return y


def past(p, v, t):
    n = len(p.wrapper.index)
    out = dict(orders=pf.strip(p.order_records, upto=t), logs=pf.strip(p.log_records, upto=t))
    A = lambda x: x.to_numpy().reshape(n, -1)[:t + 1]
    out["cash"], out["free_cash"] = A(p.cash()), A(p.cash(free=True))
    out["column_cash"] = A(p.cash(group_by=False))
    out["assets"], out["asset_flow"], out["cash_flow"] = A(p.assets()), A(p.asset_flow()), A(p.cash_flow())
    out["position_mask"] = A(p.position_mask()).astype(float)
    if p._call_seq is not None:
        out["call_seq"] = A(p.call_seq).astype(float)
    if not np.isnan(v["close"][:t + 1]).any():
        out["value"], out["asset_value"] = A(p.value()), A(p.asset_value())
        out["returns"] = A(p.returns())
        out["gross_exposure"] = A(p.gross_exposure())
    return out


def same(ctx, a, b, msg):
    for k in a:
        if k in ("orders", "logs"):
            pf.exact(ctx, b[k], a[k], f"{msg}: {k} up to the bar")
        else:
            ctx.eq(b[k], a[k], f"{msg}: {k} up to the bar", rtol=0, atol=0)
    ctx.seen("past_orders_compared", len(a["orders"]))
    ctx.seen("past_logs_compared", len(a["logs"]))


def choose_t(rng, n):
    return int(rng.integers(0, n)) if rng.random() < 0.9 else n - 1


def array_case(ctx, kind, r):
    rng = ctx.rng
    p, v = r[0], r[0]._vt
    n, c = v["close"].shape
    t = choose_t(rng, n)
    before = past(p, v, t)
    # 1. rewritten future
    perm = np.arange(n)
    perm[t + 1:] = rng.integers(0, n, n - t - 1)
    A2 = {k: rewrite(rng, a, perm) for k, a in v["A"].items()}
    close2 = new_prices(rng, v["close"], t)
    seq2 = None
    if isinstance(v["kw"].get("call_seq"), np.ndarray):
        seq2 = v["kw"]["call_seq"].copy()
        seq2[t + 1:] = seq2[perm[t + 1:]]
    try:
        q = pf.resim(kind, v, A=A2, close=close2, seq=seq2)
    except ValueError:
        q = None
    if q is not None:
        same(ctx, before, past(q, v, t), f"future after bar {t} of {n} rewritten")
        if len(q.order_records) != len(p.order_records) or not np.array_equal(q.order_records["price"], p.order_records["price"]):
            ctx.seen("futures_that_differ")
        ctx.seen("rewritten_" + kind)
    # 2. cut future
    rows = np.arange(t + 1)
    q = pf.resim(kind, v, rows=rows)
    same(ctx, before, past(q, v, t), f"future after bar {t} of {n} cut off")
    ctx.seen("truncated_" + kind)


@monitor(weight=2)
def m_orders(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(2, 13)), int(rng.integers(1, 6))
    r = pf.run_from_orders(ctx, rng, n, c, sharing=rng.random() < 0.5, allow_series=False)
    if r is not None:
        array_case(ctx, "orders", r)


@monitor(weight=2.5)
def m_signals(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(2, 13)), int(rng.integers(1, 5))
    r = pf.run_from_signals(ctx, rng, n, c, sharing=rng.random() < 0.4, stops=rng.random() < 0.7, allow_series=False)
    if r is not None:
        array_case(ctx, "signals", r)


@monitor(weight=2)
def m_func(ctx):
    """Order functions of every kind: their data after bar t is rewritten in place and the simulation repeated."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 9)), int(rng.integers(1, 5))
    r = pf.run_from_func(ctx, rng, n, c, record=False)
    if r is None:
        return
    p, v = r[0], r[0]._vt
    t = choose_t(rng, n)
    before = past(p, v, t)
    kw = dict(v["kw"])
    # cut
    rows = np.arange(t + 1)
    kt = dict(kw)
    for k in ("call_seq", "segment_mask"):
        if isinstance(kt.get(k), np.ndarray):
            kt[k] = kt[k][rows]
    q = vbt.Portfolio.from_order_func(v["cl"].iloc[rows], v["fn"], **kt)
    same(ctx, before, past(q, v, t), f"future after bar {t} of {n} cut off")
    ctx.seen("truncated_func")
    # rewrite
    perm = np.arange(n)
    perm[t + 1:] = rng.integers(0, n, n - t - 1)
    for a in v["A"].values():
        if a.form in ("scalar", "row"):
            continue
        x = a.raw if a.form == "col" else a.full
        x[:] = x[perm]
    plan = getattr(v["prog"], "plan", None)
    if plan is not None:
        for (i, g) in list(plan):
            if i > t:
                plan[i, g] = [(k, o) for k, o in plan[i, g]][: int(rng.integers(0, 3))]
    for (i, k) in list(v["ov"]):
        if i > t:
            v["ov"][i, k] = float(rng.uniform(1, 100))
    for k in ("call_seq", "segment_mask"):
        if isinstance(kw.get(k), np.ndarray):
            x = kw[k].copy()
            x[t + 1:] = x[perm[t + 1:]]
            kw[k] = x
    close2 = new_prices(rng, v["close"], t)
    try:
        q = vbt.Portfolio.from_order_func(pd.DataFrame(close2, index=v["cl"].index, columns=v["cl"].columns), v["fn"], **kw)
    except ValueError:
        return
    same(ctx, before, past(q, v, t), f"future after bar {t} of {n} rewritten")
    ctx.seen("rewritten_func")
    ctx.seen("rewritten_" + ("flex" if v["flexible"] else "plain") + ("_row" if v["row_wise"] else "_col"))


@monitor(weight=1)
def m_callback_signals(ctx):
    """Signals and stop adjustments delivered by callbacks."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 11)), int(rng.integers(1, 4))
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    o, h, l, cl = gen.ohlc(rng, n, c)
    S = [rng.random((n, c)) < 0.35 for _ in range(4)]
    adj = rng.uniform(0.01, 0.3, (n, c))
    size = np.abs(rng.normal(2, 1, (n, c)))
    gl = gen.group_lens(rng, c)
    sharing = bool(rng.random() < 0.5)
    t = choose_t(rng, n)
    ctx.desc = dict(close=cl, signals=S, t=t, gl=gl, sharing=sharing)
    trail = bool(rng.random() < 0.5)
    acc = bool(rng.random() < 0.5)

    def run(S, adj, size, o, h, l, cl, m):
        def sig(c_):
            return tuple(bool(s[c_.i, c_.col]) for s in S)

        def sl(c_):
            return float(adj[c_.i, c_.col]), bool(c_.curr_trail)

        def tp(c_):
            return float(adj[c_.i, c_.col] * 1.5)
        kw = dict(group_by=gen.groups_from_lens(gl), cash_sharing=True, call_seq="auto") if sharing else {}
        return vbt.Portfolio.from_signals(pd.DataFrame(cl[:m], index=idx[:m], columns=cols), signal_func_nb=sig, adjust_sl_func_nb=sl, adjust_tp_func_nb=tp,
                                          open=o[:m], high=h[:m], low=l[:m], size=size[:m], sl_stop=0.1, tp_stop=0.2, sl_trail=trail, log=True, freq="D",
                                          accumulate=acc, attach_call_seq=True, **kw)
    v = dict(close=cl)
    a = run(S, adj, size, o, h, l, cl, n)
    before = past(a, v, t)
    ctx.nontrivial(n, c, gl, len(a.order_records), float(cl[0, 0]))
    same(ctx, before, past(run(S, adj, size, o, h, l, cl, t + 1), v, t), f"future after bar {t} cut off")
    S2 = []
    for s in S:
        s = s.copy()
        s[t + 1:] = ~s[t + 1:]
        S2.append(s)
    adj2, size2 = adj.copy(), size.copy()
    adj2[t + 1:] = rng.uniform(0.01, 0.5, adj2[t + 1:].shape)
    size2[t + 1:] *= 3
    o2, h2, l2, cl2 = gen.ohlc(rng, n, c)
    mix = lambda x, y: np.concatenate([x[:t + 1], y[t + 1:]])
    same(ctx, before, past(run(S2, adj2, size2, mix(o, o2), mix(h, h2), mix(l, l2), mix(cl, cl2), n), v, t), f"future after bar {t} rewritten")
    ctx.seen("callback_signal_runs")


@monitor(weight=0.5)
def m_holding(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(2, 12)), int(rng.integers(1, 4))
    close = gen.prices(rng, n, c, kind="walk")
    idx = gen.dt_index(rng, n, "D")
    t = choose_t(rng, n)
    ctx.desc = dict(close=close, t=t)
    d = pick(rng, ["longonly", "shortonly"])
    run = lambda x, m: vbt.Portfolio.from_holding(pd.DataFrame(x[:m], index=idx[:m]), direction=d, log=True, freq="D")
    v = dict(close=close)
    before = past(run(close, n), v, t)
    same(ctx, before, past(run(new_prices(rng, close, t), n), v, t), "from_holding, future rewritten")
    same(ctx, before, past(run(close, t + 1), v, t), "from_holding, future cut")
    ctx.nontrivial("hold", n, c, t, float(close[0, 0]))
    ctx.seen("holding_runs")
