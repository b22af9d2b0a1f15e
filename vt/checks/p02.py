"""P02: conservation of cash and assets; reconstruction equals the simulator's own state."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt import gen, model as M, pf
from vt.core import monitor
from vt.gen import pick

NAN, INF = np.nan, np.inf
AT = 1e-7


def units(v):
    gl, c = v["gl"], v["close"].shape[1]
    return np.repeat(np.arange(len(gl)), gl) if v["sharing"] else np.arange(c)


def held_from_logs(ctx, p, v):
    """State the simulator held after every bar, read from its own log records."""
    n, c = v["close"].shape
    u = units(v)
    nu = u.max() + 1
    pos = np.zeros((n, c))
    cash, free = np.tile(v["init"], (n, 1)).astype(float), np.tile(v["init"], (n, 1)).astype(float)
    own = np.full((n, c), NAN)      # cash right after the column's own order
    for r in p.log_records:
        i, k = r["idx"], r["col"]
        pos[i:, k] = r["new_position"]
        cash[i:, u[k]] = r["new_cash"]
        free[i:, u[k]] = r["new_free_cash"]
        own[i, k] = r["new_cash"]
    return pos, cash, free, own


def held_from_states(v, p):
    n, c = v["close"].shape
    u = units(v)
    pos = np.full((n, c), NAN)
    cash, free = np.full((n, u.max() + 1), NAN), np.full((n, u.max() + 1), NAN)
    for i, g, d in v["states"]:
        for k, (a, b, f) in d.items():
            pos[i, k], cash[i, u[k]], free[i, u[k]] = a, b, f
    return pos, cash, free, None


def ledger(p, n, c):
    """Flows rebuilt independently from the order records."""
    af, cf = np.zeros((n, c)), np.zeros((n, c))
    lf, sf = np.zeros((n, c)), np.zeros((n, c))
    pos = np.zeros(c)
    for r in p.order_records:
        i, k = r["idx"], r["col"]
        s = r["size"] if r["side"] == 0 else -r["size"]
        af[i, k] += s
        cf[i, k] -= s * r["price"] + r["fees"]
        new = M.add(float(pos[k]), float(s))
        lf[i, k] += max(new, 0) - max(pos[k], 0)
        sf[i, k] += max(-new, 0) - max(-pos[k], 0)
        pos[k] = new
    return af, cf, lf, sf


def gsum(a, gl):
    e = np.cumsum(gl)
    return np.column_stack([a[:, e[g] - l:e[g]].sum(1) for g, l in enumerate(gl)])


def verify(ctx, p, v, held, exact_sim=True):
    n, c = v["close"].shape
    gl, shared = v["gl"], v["sharing"]
    u = units(v)
    pos, cash, free, own = held
    tol = AT * max(1.0, float(np.nanmax(np.abs(np.where(np.isfinite(cash), cash, 0)))) * 1e-3, float(np.abs(pos).max()) * 1e-3)
    af, cf, lf, sf = ledger(p, n, c)
    A = lambda x: x.to_numpy().reshape(n, -1)
    eq = lambda a, b, m, t=tol: ctx.eq(a, b, m, rtol=1e-8, atol=t)
    postol = 1e-8 * max(1.0, float(np.abs(af).max()))
    eq(A(p.asset_flow()), af, "asset flow = signed fill sizes", postol)
    eq(A(p.asset_flow(direction="longonly")), lf, "long asset flow", postol)
    eq(A(p.asset_flow(direction="shortonly")), sf, "short asset flow", postol)
    eq(A(p.assets()), pos, "assets = position held by the simulator", postol)
    eq(A(p.assets(direction="longonly")), np.maximum(pos, 0), "long assets", postol)
    eq(A(p.assets(direction="shortonly")), np.maximum(-pos, 0), "short assets", postol)
    eq(A(p.cash_flow(group_by=False)), cf, "cash flow = fills minus fees", tol)
    gby = gen.groups_from_lens(gl)
    big = np.abs(pos) > postol
    sure = big | (pos == 0)
    for d, m in (("both", pos != 0), ("longonly", pos > 0), ("shortonly", pos < 0)):
        got = A(p.position_mask(direction=d, group_by=False))
        ctx.eq(got[sure], m[sure], f"position mask {d}")
        if sure.all():
            ctx.eq(np.asarray(p.position_coverage(direction=d, group_by=False)).reshape(-1), m.mean(0), f"position coverage {d}")
            if not shared or "group_by" in v["kw"]:
                gm = np.column_stack([m[:, np.asarray(gby) == g].any(1) for g in range(len(gl))])
                gc = np.array([m[:, np.asarray(gby) == g].mean() for g in range(len(gl))])
                kw = {} if shared else dict(group_by=gby)
                ctx.eq(A(p.position_mask(direction=d, **kw)), gm, f"grouped position mask {d}")
                ctx.eq(np.asarray(p.position_coverage(direction=d, **kw)).reshape(-1), gc, f"grouped position coverage {d}")
    if shared:
        eq(A(p.cash()), cash, "group cash = cash held by the simulator")
        eq(A(p.cash(free=True)), free, "group free cash = free cash held by the simulator")
        eq(A(p.cash_flow()), gsum(cf, gl), "group cash flow = sum over members")
        eq(A(p.cash(group_by=False)), v["init"][u] + np.cumsum(cf, 0), "column cash = group init + own flows")
        eq(np.asarray(p.init_cash).reshape(-1), v["init"], "group init cash")
        eq(np.asarray(p.get_init_cash(group_by=False)).reshape(-1), v["init"][u], "column init cash")
        if own is not None and not np.isnan(own).any():
            eq(A(p.cash(group_by=False, in_sim_order=True)), own, "cash in simulation order = cash after each order")
            ctx.seen("in_sim_order")
    else:
        eq(A(p.cash(group_by=False)), cash, "cash = cash held by the simulator")
        eq(A(p.cash(group_by=False, free=True)), free, "free cash = free cash held by the simulator")
        eq(np.asarray(p.get_init_cash(group_by=False)).reshape(-1), v["init"], "init cash")
        g2 = gl if len(gl) < c or c == 1 else gen.group_lens(ctx.rng, c)
        by = gen.groups_from_lens(g2)
        eq(A(p.cash(group_by=by)), gsum(cash, g2), "grouped cash = sum over members")
        eq(A(p.cash(group_by=by, free=True)), gsum(free, g2), "grouped free cash = sum over members")
        eq(A(p.cash_flow(group_by=by)), gsum(cf, g2), "grouped cash flow = sum over members")
        eq(np.asarray(p.get_init_cash(group_by=by)).reshape(-1), gsum(v["init"][None, :], g2)[0], "grouped init cash = sum")
        ctx.seen("regrouped")
    # the conservation law itself
    eq(cash, v["init"] + np.cumsum(gsum(cf, gl) if shared else cf, 0), "cash held = init cash + flows of all fills")
    eq(pos, np.cumsum(af, 0), "assets held = sum of signed fills", postol)
    ctx.seen("bars_checked", n * c)
    ctx.seen("fills", len(p.order_records))
    if (pos < 0).any():
        ctx.seen("short_positions")


@monitor(weight=2)
def m_orders(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 13)), int(rng.integers(1, 6))
    r = pf.run_from_orders(ctx, rng, n, c, sharing=rng.random() < 0.5)
    if r is not None:
        verify(ctx, r[0], r[0]._vt, held_from_logs(ctx, r[0], r[0]._vt))


@monitor(weight=1.5)
def m_signals(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 13)), int(rng.integers(1, 6))
    r = pf.run_from_signals(ctx, rng, n, c, sharing=rng.random() < 0.5)
    if r is not None:
        verify(ctx, r[0], r[0]._vt, held_from_logs(ctx, r[0], r[0]._vt))


@monitor(weight=1.5)
def m_func(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    r = pf.run_from_func(ctx, rng, n, c, record=False, flags=dict(call_post_segment=True))
    if r is not None:
        v = r[0]._vt
        v["sharing"] = v["sharing"]
        verify(ctx, r[0], v, held_from_states(v, r[0]))
        if v["flexible"]:
            ctx.seen("flexible")


@monitor(weight=1.2)
def m_auto(ctx):
    """Automatic initial cash: infinite cash during the simulation, then aligned so that cash never goes below zero."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 5))
    mode = pick(rng, ["auto", "autoalign", 0, 1])
    align = mode in ("autoalign", 1)
    sharing = bool(rng.random() < 0.5)
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    close = gen.prices(rng, n, c)
    gl = gen.group_lens(rng, c)
    size = rng.normal(0, 3, (n, c))
    fees = float(pick(rng, [0.0, 0.01]))
    ctx.desc = dict(close=close, size=size, gl=gl, sharing=sharing, mode=mode, fees=fees)
    kw = dict(group_by=gen.groups_from_lens(gl)) if sharing or rng.random() < 0.5 else {}
    grouped = bool(kw)
    if rng.random() < 0.5:
        p = vbt.Portfolio.from_orders(pd.DataFrame(close, index=idx, columns=cols), size, fees=fees, init_cash=mode, cash_sharing=sharing, freq="D", **kw)
    else:
        e = rng.random((n, c)) < 0.4
        s = rng.random((n, c)) < 0.4
        p = vbt.Portfolio.from_signals(pd.DataFrame(close, index=idx, columns=cols), entries=e, short_entries=s, size=np.abs(size) + 0.1, fees=fees,
                                       init_cash=mode, cash_sharing=sharing, freq="D", accumulate=bool(rng.random() < 0.5), **kw)
    af, cf, lf, sf = ledger(p, n, c)
    A = lambda x: x.to_numpy().reshape(n, -1)
    tol = 1e-7 * max(1.0, np.abs(cf).sum() * 1e-3)
    cases = [(False, cf)]
    if grouped:
        cases.append((None, gsum(cf, gl)))
    g2 = gen.group_lens(rng, c)
    if not sharing:
        cases.append((gen.groups_from_lens(g2), gsum(cf, g2)))
    for by, flow in cases:
        cum = np.cumsum(flow, 0)
        need = np.where(cum.min(0) < 0, -cum.min(0), 1.0)
        if align:
            need = np.full_like(need, need.max())
        got = np.asarray(p.get_init_cash(group_by=by)).reshape(-1)
        ctx.eq(got, need, "auto init cash = largest amount ever needed", rtol=1e-8, atol=tol)
        ctx.eq(A(p.cash(group_by=by)), need + cum, "cash with auto init cash", rtol=1e-8, atol=tol)
        ctx.eq(A(p.cash_flow(group_by=by)), flow, "cash flow with auto init cash", rtol=1e-8, atol=tol)
        ctx.check((A(p.cash(group_by=by)) > -tol).all(), "cash goes negative under automatic initial cash")
    ctx.eq(A(p.assets()), np.cumsum(af, 0), "assets with auto init cash", rtol=1e-8, atol=1e-8)
    ctx.nontrivial(n, c, gl, mode, sharing, len(p.order_records), close[0, 0])
    ctx.seen("auto_" + ("align" if align else "plain"))


@monitor(weight=0.6)
def m_long(ctx):
    """Long histories: no drift between the simulator and the reconstruction."""
    rng = ctx.rng
    n, c = int(rng.integers(60, 200)), int(rng.integers(1, 4))
    r = pf.run_from_orders(ctx, rng, n, c, sharing=rng.random() < 0.5, kind=pick(rng, ["walk", "grid"]))
    if r is not None:
        verify(ctx, r[0], r[0]._vt, held_from_logs(ctx, r[0], r[0]._vt))
        ctx.seen("long_histories")
