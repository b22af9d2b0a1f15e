"""P06: stop-loss / trailing / take-profit."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt.core import monitor
from vt import gen, model as M
from vt.gen import pick
from vt.pf import compare_orders, compare_logs, run_from_signals

NAN, INF = np.nan, np.inf


@monitor(weight=4)
def m_sim(ctx):
    """Random stop configurations; every fired stop and resulting order compared with the reference stop machine."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 16)), int(rng.integers(1, 4))
    tr = []
    r = run_from_signals(ctx, rng, n, c, sharing=rng.random() < 0.15, stops=True, p_sig=pick(rng, [0.05, 0.15, 0.3]), trace=tr,
                         simple=rng.random() < 0.4, kind=pick(rng, ["walk", "walk", "grid", "flat", "wild"]), via_func=rng.random() < 0.2)
    if r is None:
        return
    pf, S, used = r
    compare_orders(ctx, pf.order_records, S.orders)
    compare_logs(ctx, pf.log_records, S.logs)
    for i, c_, kind in tr:
        ctx.seen("stop_hit_" + kind)


@monitor(weight=2)
def m_adjust(ctx):
    """User adjust functions see the documented context each bar and their return value is what is enforced."""
    rng = ctx.rng
    n, c = int(rng.integers(3, 14)), int(rng.integers(1, 3))
    k = float(pick(rng, [0.5, 0.9, 1.1]))
    be = float(pick(rng, [0.02, 0.05]))
    which = int(rng.integers(3))
    seen_m, seen_r, cur = [], [], [None]

    def rec(tag, d):
        cur[0].append((tag,) + tuple((kk, float(v)) for kk, v in sorted(d.items())))

    def asl(d):
        rec("sl", d)
        if d["position_now"] == 0 or d["init_i"] < 0:
            return d["curr_stop"], d["curr_trail"]
        if d["i"] - d["init_i"] >= 2 and not np.isnan(d["curr_stop"]):
            return d["curr_stop"] * k, not d["curr_trail"]
        if np.isnan(d["curr_stop"]):
            return be, True
        return d["curr_stop"], d["curr_trail"]

    def atp(d):
        rec("tp", d)
        if d["position_now"] != 0 and d["i"] - d["init_i"] >= 1:
            return be * 2 if np.isnan(d["curr_stop"]) else d["curr_stop"] * k
        return d["curr_stop"]
    cur[0] = seen_m
    adj = [(asl, None), (None, atp), (asl, atp)][which]

    class Sw:
        pass
    # the model runs first and records into seen_m, the real run records into seen_r
    import vt.pf as P
    orig = P.vbt.Portfolio.from_signals

    class Proxy:
        @staticmethod
        def from_signals(*a, **kw):
            cur[0] = seen_r
            return orig(*a, **kw)
    tr = []
    real = P.vbt
    try:
        P.vbt = type("V", (), {"Portfolio": Proxy})
        r = run_from_signals(ctx, rng, n, c, sharing=False, stops=True, adjust=adj, trace=tr, simple=rng.random() < 0.5,
                             p_sig=pick(rng, [0.1, 0.3]), kind=pick(rng, ["walk", "grid"]), allow_series=False)
    finally:
        P.vbt = real
    if r is None:
        return
    pf, S, used = r
    compare_orders(ctx, pf.order_records, S.orders)
    compare_logs(ctx, pf.log_records, S.logs)
    ctx.eq([s[0] for s in seen_r], [s[0] for s in seen_m], "adjust call sequence")
    for a, b in zip(seen_r, seen_m):
        ctx.eq([x[1] for x in a[1:]], [x[1] for x in b[1:]], "adjust context", ctx_got=str(a), ctx_exp=str(b))
    ctx.seen("adjust_calls", len(seen_r))
    for i, c_, kind in tr:
        ctx.seen("adjusted_hit_" + kind)


@monitor(weight=2)
def m_direct(ctx):
    """One position, default modes: first touching bar computed directly from the definition (no simulator model)."""
    rng = ctx.rng
    n = int(rng.integers(3, 30))
    o, h, l, cl = gen.ohlc(rng, n, 1, kind=pick(rng, ["walk", "grid", "flat"]), nan=False)
    o, h, l, cl = o[:, 0], h[:, 0], l[:, 0], cl[:, 0]
    e = int(rng.integers(n))
    sl = float(pick(rng, [NAN, 0.02, 0.05, 0.1, 0.3]))
    tp = float(pick(rng, [NAN, 0.02, 0.05, 0.1, 0.3]))
    trail = bool(rng.random() < 0.5)
    long = bool(rng.random() < 0.5)
    slip = float(pick(rng, [0.0, 0.01]))
    market = bool(rng.random() < 0.5)
    ent = np.zeros(n, bool)
    ent[e] = True
    ctx.desc = dict(o=o, h=h, l=l, c=cl, e=e, sl=sl, tp=tp, trail=trail, long=long)
    pf = vbt.Portfolio.from_signals(cl, ent, False, direction="longonly" if long else "shortonly", open=o, high=h, low=l, sl_stop=sl, tp_stop=tp, sl_trail=trail,
                                    size=1.0, init_cash=1e9, slippage=slip, stop_exit_price="stopmarket" if market else "stoplimit", freq="D")
    rec = pf.order_records
    base = best = cl[e]
    hit = None
    sg = 1 if long else -1
    for i in range(e + 1, n):
        lv = best * (1 - sg * sl)
        if not np.isnan(sl):
            if sg * (o[i] - lv) <= 0:
                hit = (i, o[i])
            elif l[i] <= lv <= h[i]:
                hit = (i, lv)
        if hit is None and not np.isnan(tp):
            lv = base * (1 + sg * tp)
            if sg * (o[i] - lv) >= 0:
                hit = (i, o[i])
            elif l[i] <= lv <= h[i]:
                hit = (i, lv)
        if hit is not None:
            break
        if trail:
            best = max(best, h[i]) if long else min(best, l[i])
    ctx.check(len(rec) == (1 if hit is None else 2), f"{len(rec)} orders, expected exit {hit}", orders=rec)
    ctx.eq(rec["idx"][0], e, "entry bar")
    if hit is not None:
        ctx.eq(int(rec["idx"][1]), hit[0], "exit bar")
        ctx.eq(rec["price"][1], hit[1] * (1 - sg * slip if market else 1), "exit price")
        ctx.eq(rec["size"][1], 1.0, "exit size")
        ctx.seen("direct_hits")
    else:
        ctx.seen("direct_no_hit")
    ctx.nontrivial(n, e, sl, tp, trail, long, hit)


@monitor(weight=0.5)
def m_no_position(ctx):
    """Without a position, or with stops disabled, no stop order ever appears."""
    rng = ctx.rng
    n = int(rng.integers(2, 20))
    o, h, l, cl = gen.ohlc(rng, n, 2)
    pf = vbt.Portfolio.from_signals(cl, False, False, open=o, high=h, low=l, sl_stop=0.01, tp_stop=0.01, sl_trail=True, freq="D", log=True)
    ctx.check(len(pf.order_records) == 0 and len(pf.log_records) == 0, "orders without any signal", orders=pf.order_records)
    ent = gen.bools(rng, n, 2, 0.2)
    a = vbt.Portfolio.from_signals(cl, ent, False, open=o, high=h, low=l, sl_stop=0.01, tp_stop=0.01, use_stops=False, freq="D")
    b = vbt.Portfolio.from_signals(cl, ent, False, freq="D")
    ctx.eq(a.order_records, b.order_records, "use_stops=False")
    c = vbt.Portfolio.from_signals(cl, ent, False, open=o, high=h, low=l, sl_stop=np.full((n, 2), NAN), tp_stop=np.full((n, 2), NAN), freq="D")
    ctx.eq(c.order_records, b.order_records, "NaN stops")
    ctx.nontrivial(n, ent.tobytes())
    ctx.seen("no_stop_runs")
