"""P04: a column (or cash-sharing group) simulated with others behaves exactly as when simulated alone."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.portfolio import nb
from vt import gen, model as M, pf
from vt.core import monitor
from vt.gen import pick

NAN, INF = np.nan, np.inf
COL_METRICS = ["total_profit", "final_value", "total_return", "max_drawdown", "sharpe_ratio", "position_coverage", "total_benchmark_return"]


def metrics(p, by=None):
    kw = {} if by is None else dict(group_by=by)
    out = {m: np.atleast_1d(np.asarray(getattr(p, m)(**kw), float)) for m in COL_METRICS}
    T = p.trades
    out["trade_count"] = np.atleast_1d(np.asarray(T.count(**kw), float))
    out["trade_pnl"] = np.atleast_1d(np.asarray(T.pnl.sum(**kw), float))
    out["win_rate"] = np.atleast_1d(np.asarray(T.win_rate(**kw), float))
    out["sqn"] = np.atleast_1d(np.asarray(T.sqn(**kw), float))
    out["drawdowns"] = np.atleast_1d(np.asarray(p.drawdowns.count(), float)) if by is None else np.zeros(0)
    return out


def series(p, n):
    A = lambda x: x.to_numpy().reshape(n, -1)
    return {"cash": A(p.cash()), "assets": A(p.assets()), "value": A(p.value()), "returns": A(p.returns()), "asset_value": A(p.asset_value()),
            "gross_exposure": A(p.gross_exposure()), "column_cash_flow": A(p.cash_flow(group_by=False)), "column_value": A(p.value(group_by=False))}


def compare(ctx, p, q, cols, units, n, msg):
    """p: full run; q: run of the columns `cols` (cash units `units`)."""
    pf.exact(ctx, pf.strip(q.order_records), pf.strip(p.order_records, cols), f"{msg}: orders")
    pf.exact(ctx, pf.strip(q.log_records), pf.strip(p.log_records, cols), f"{msg}: logs")
    P, Q = series(p, n), series(q, n)
    w = {"assets": cols, "column_cash_flow": cols, "column_value": cols}
    for k in P:
        j = w.get(k, units)
        if k in ("asset_value", "value", "returns", "gross_exposure", "cash"):
            j = units
        # 1-ulp differences may come from summing several columns at once
        ctx.eq(Q[k], P[k][:, j], f"{msg}: {k}", rtol=1e-12, atol=1e-9)
    mp, mq = metrics(p), metrics(q)
    for k in mp:
        if len(mp[k]) > 0:
            ctx.eq(mq[k], mp[k][units], f"{msg}: {k}", rtol=1e-7, atol=1e-9)
    ctx.seen("alone_comparisons")
    ctx.seen("orders_compared", len(q.order_records))


def array_case(ctx, kind, r):
    rng = ctx.rng
    p, v = r[0], r[0]._vt
    n, c = v["close"].shape
    gl, sh = v["gl"], v["sharing"]
    start = np.cumsum([0] + list(gl))
    G = len(gl)
    seq = v["kw"].get("call_seq")

    def sub(groups):
        cols = np.concatenate([np.arange(start[g], start[g + 1]) for g in groups])
        g2 = [gl[g] for g in groups]
        init = v["kw"]["init_cash"]
        if not np.isscalar(init):
            init = np.asarray(init)[groups]
        # scalar cash stays scalar; grouping is kept only when cash is shared
        q = pf.resim(kind, v, cols=cols, gl=g2, init=init)
        return cols, q
    # each alone
    g = int(rng.integers(G))
    cols, q = sub([g])
    compare(ctx, p, q, cols, np.array([g]), n, f"group {g} (columns {cols.tolist()}) alone")
    # rearranged / removed
    k = int(rng.integers(1, G + 1))
    groups = list(rng.permutation(G)[:k])
    cols, q = sub(groups)
    compare(ctx, p, q, cols, np.array(groups), n, f"groups {groups}")
    if groups != sorted(groups):
        ctx.seen("rearranged")
    if k < G:
        ctx.seen("removed")
    ctx.seen(("shared_" if sh else "separate_") + kind)
    # cash_sharing kernels treat one-column groups as separate columns
    if sh and max(gl) > 1:
        ctx.seen("real_sharing")


@monitor(weight=2)
def m_orders(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 11)), int(rng.integers(2, 7))
    r = pf.run_from_orders(ctx, rng, n, c, sharing=rng.random() < 0.5, allow_series=False)
    if r is not None:
        array_case(ctx, "orders", r)


@monitor(weight=2)
def m_signals(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 11)), int(rng.integers(2, 6))
    r = pf.run_from_signals(ctx, rng, n, c, sharing=rng.random() < 0.5, allow_series=False)
    if r is not None:
        array_case(ctx, "signals", r)


def policy(flexible, sizes):
    """State-dependent order function: any state leaking between columns changes the orders."""
    def want(c_, size, price, fees, col, pos, cash, value, ret, rec):
        s = size[c_.i, col]
        if pos != 0 and c_.i % 3 == 1:
            s = -pos * 0.5
        if ret == ret and ret > 0.02:
            s = s * 2
        if rec["id"] >= 0 and rec["pnl"] < -1:
            s = -s
        if value < 50:
            s = s * 0.1
        return nb.order_nb(size=float(s), price=float(price[c_.i, col]), fees=float(fees[c_.i, col]), log=True)

    def plain(c_, size, price, fees):
        return want(c_, size, price, fees, c_.col, c_.position_now, c_.cash_now, c_.value_now, c_.return_now, c_.pos_record_now)

    def flex(c_, size, price, fees):
        m = c_.group_len
        if c_.call_idx >= 2 * m:
            return -1, nb.order_nothing_nb()
        col = c_.from_col + c_.call_idx % m
        u = c_.group if c_.cash_sharing else col
        return col, want(c_, size, price, fees, col, c_.last_position[col], c_.last_cash[u], c_.last_value[u], c_.last_return[u], c_.last_pos_record[col])
    return flex if flexible else plain


@monitor(weight=2)
def m_func(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(2, 10)), int(rng.integers(2, 6))
    close = gen.prices(rng, n, c, kind="walk")
    close = close * 10 / np.nanmedian(close)
    size = rng.normal(0, 4, (n, c))
    price = close * rng.uniform(0.95, 1.05, (n, c))
    fees = rng.choice([0.0, 0.01], size=(n, c))
    gl = gen.group_lens(rng, c)
    sharing = bool(rng.random() < 0.6)
    grouped = sharing or rng.random() < 0.5
    if not grouped:
        gl = [1] * c
    flexible, row_wise = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    init = rng.choice([60.0, 100.0, 1000.0], size=len(gl) if sharing else c)
    idx = gen.dt_index(rng, n, "D")
    fn = policy(flexible, None)
    fl = dict(update_value=bool(rng.random() < 0.5), ffill_val_price=bool(rng.random() < 0.5), call_post_segment=True)
    cs, _ = pf.call_seq_arg(rng, n, gl)
    mask = rng.random((n, len(gl))) < 0.8
    ctx.desc = dict(close=close, size=size, price=price, gl=gl, sharing=sharing, flexible=flexible, row_wise=row_wise, mask=mask)
    start = np.cumsum([0] + list(gl))

    def run(groups, vp=None):
        cols = np.concatenate([np.arange(start[g], start[g + 1]) for g in groups])
        kw = dict(fl)
        if grouped:
            kw.update(group_by=gen.groups_from_lens([gl[g] for g in groups]), cash_sharing=sharing)
        if not flexible:
            kw.update(call_seq=cs[:, cols])
        u = groups if sharing else cols
        return cols, vbt.Portfolio.from_order_func(pd.DataFrame(close[:, cols], index=idx), fn, size[:, cols], price[:, cols], fees[:, cols], flexible=flexible,
                                                   row_wise=row_wise, segment_mask=mask[:, groups], init_cash=init[u], max_orders=2 * n * c, max_logs=2 * n * c,
                                                   freq="D", **kw)
    G = len(gl)
    _, p = run(np.arange(G))
    ctx.nontrivial(n, c, gl, sharing, flexible, row_wise, len(p.order_records), float(close[0, 0]))
    for groups in ([int(rng.integers(G))], [int(x) for x in rng.permutation(G)[:int(rng.integers(1, G + 1))]]):
        cols, q = run(np.array(groups))
        pf.exact(ctx, pf.strip(q.order_records), pf.strip(p.order_records, cols), f"groups {groups}: orders")
        pf.exact(ctx, pf.strip(q.log_records), pf.strip(p.log_records, cols), f"groups {groups}: logs")
        U = np.array(groups) if grouped else cols
        P, Q = series(p, n), series(q, n)
        for k in P:
            w = cols if k in ("assets", "column_cash_flow", "column_value") else U
            ctx.eq(Q[k], P[k][:, w], f"groups {groups}: {k}", rtol=1e-12, atol=1e-9)
        ctx.seen("func_comparisons")
        ctx.seen("orders_compared", len(q.order_records))
    ctx.seen("func_" + ("flex" if flexible else "plain") + ("_row" if row_wise else "_col") + ("_shared" if sharing else ""))


@monitor(weight=0.7)
def m_insert(ctx):
    """Inserting unrelated (even worthless or price-less) columns changes nothing for the others."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 10)), int(rng.integers(1, 4))
    close = gen.prices(rng, n, c, kind="walk")
    size = rng.normal(0, 3, (n, c))
    idx = gen.dt_index(rng, n, "D")
    at = int(rng.integers(0, c + 1))
    bad = pick(rng, [np.full((n, 1), NAN), np.full((n, 1), 1e9), rng.random((n, 1)) * 1e-6 + 1e-9])
    ins = lambda a, b: np.concatenate([a[:, :at], b, a[:, at:]], axis=1)
    ctx.desc = dict(close=close, size=size, at=at)
    cols = np.array([j if j < at else j + 1 for j in range(c)])
    if rng.random() < 0.5:
        run = lambda x, s: vbt.Portfolio.from_orders(pd.DataFrame(x, index=idx), s, log=True, freq="D", fees=0.01)
        other = np.full((n, 1), 1.0)
        a, b = run(close, size), run(ins(close, bad), ins(size, other))
    else:
        e, x = rng.random((n, c)) < 0.4, rng.random((n, c)) < 0.4
        run = lambda cl, en, ex: vbt.Portfolio.from_signals(pd.DataFrame(cl, index=idx), en, ex, sl_stop=0.05, tp_stop=0.1, log=True, freq="D", direction="both")
        o = np.full((n, 1), True)
        a, b = run(close, e, x), run(ins(close, bad), ins(e, o), ins(x, ~o))
    pf.exact(ctx, pf.strip(a.order_records), pf.strip(b.order_records, cols), "orders with an inserted column")
    pf.exact(ctx, pf.strip(a.log_records), pf.strip(b.log_records, cols), "logs with an inserted column")
    P, Q = series(b, n), series(a, n)
    for k in P:
        ctx.eq(Q[k], P[k][:, cols], f"inserted column: {k}", rtol=1e-12, atol=1e-9)
    mp, mq = metrics(b), metrics(a)
    for k in mp:
        ctx.eq(mq[k], mp[k][cols], f"inserted column: {k}", rtol=1e-7, atol=1e-9)
    ctx.nontrivial("ins", n, c, at, float(close[0, 0]))
    ctx.seen("insertions")
