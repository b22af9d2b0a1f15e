"""P09: entry trades, exit trades and positions partition the orders and conserve size, fees and PnL."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.portfolio.enums import order_dt
from vectorbt.portfolio.orders import Orders
from vectorbt.portfolio.trades import EntryTrades, ExitTrades, Positions
from vt import gen, model as M, pf
from vt.core import monitor
from vt.gen import pick

NAN, INF = np.nan, np.inf
FIELDS = ["id", "col", "size", "entry_idx", "entry_price", "entry_fees", "exit_idx", "exit_price", "exit_fees", "pnl", "return", "direction", "status",
          "parent_id"]


def positions_of(orders, last_close, last_idx):
    """Orders of one column -> list of positions: dict(dir, parts=[(kind, size, price, fees, idx)], open). Written from the definition: a position lives
    from the order that leaves zero until the order that returns to (or crosses) zero; a crossing order is split by size."""
    out, cur, left = [], None, 0.0
    for o in orders:
        buy = o["side"] == 0
        size, price, fees, i = float(o["size"]), float(o["price"]), float(o["fees"]), int(o["idx"])
        if cur is None:
            cur = dict(dir=0 if buy else 1, parts=[("in", size, price, fees, i)], open=True)
            left = size
            out.append(cur)
            continue
        if buy == (cur["dir"] == 0):
            cur["parts"].append(("in", size, price, fees, i))
            left += size
        elif M.near(size, left):
            cur["parts"].append(("out", left, price, fees, i))
            cur["open"], cur = False, None
        elif size < left:
            cur["parts"].append(("out", size, price, fees, i))
            left -= size
        else:
            cur["parts"].append(("out", left, price, fees * left / size, i))
            cur["open"] = False
            rest = size - left
            cur = dict(dir=1 - cur["dir"], parts=[("in", rest, price, fees * rest / size, i)], open=True)
            out.append(cur)
            left = rest
    if cur is not None:
        cur["parts"].append(("mark", left, last_close, 0.0, last_idx))
    return out


def finish(t):
    ev, xv = t["size"] * t["entry_price"], t["size"] * t["exit_price"]
    t["pnl"] = (xv - ev if t["direction"] == 0 else ev - xv) - t["entry_fees"] - t["exit_fees"]
    t["return"] = t["pnl"] / ev
    return t


def reference(o, n, c, close):
    ent, exi, pos = [], [], []
    pid = -1
    for k in range(c):
        for P in positions_of(o[o["col"] == k], float(close[-1, k]), n - 1):
            pid += 1
            ins = [p for p in P["parts"] if p[0] == "in"]
            outs = [p for p in P["parts"] if p[0] != "in"]
            tot = sum(p[1] for p in ins)
            base = dict(col=k, direction=P["dir"], status=0 if P["open"] else 1, parent_id=pid)
            xp = sum(p[1] * p[2] for p in outs) / tot
            xf = sum(p[3] for p in outs)
            end = outs[-1][4]
            for p in ins:       # one entry trade per entry
                ent.append(finish(dict(base, id=len(ent), size=p[1], entry_idx=p[4], entry_price=p[2], entry_fees=p[3], exit_idx=end, exit_price=xp,
                                       exit_fees=xf * p[1] / tot)))
            s = g = f = 0.0     # average-cost pool
            for kind, size, price, fees, i in P["parts"]:
                if kind == "in":
                    s, g, f = s + size, g + size * price, f + fees
                    continue
                q = min(1.0, size / s)
                exi.append(finish(dict(base, id=len(exi), size=size, entry_idx=ins[0][4], entry_price=g / s, entry_fees=f * q, exit_idx=i, exit_price=price,
                                       exit_fees=fees, status=0 if kind == "mark" else 1)))
                s, g, f = s - size, g * (1 - q), f * (1 - q)
            pos.append(finish(dict(base, id=pid, size=tot, entry_idx=ins[0][4], entry_price=sum(p[1] * p[2] for p in ins) / tot,
                                   entry_fees=sum(p[3] for p in ins), exit_idx=end, exit_price=xp, exit_fees=xf)))
    return ent, exi, pos


def cmp(ctx, rec, exp, msg):
    if len(rec) != len(exp):
        ctx.fail(f"{msg}: {len(rec)} records, expected {len(exp)}", got=rec, expected=exp[:8])
    for f in FIELDS:
        e = np.array([x[f] for x in exp])
        a = rec[f]
        if a.dtype.kind == "f":
            sc = 1.0
            if f == "pnl":
                sc = max(1.0, float(np.nanmax(np.abs([x["size"] * x["entry_price"] for x in exp]), initial=0)),
                         float(np.nanmax(np.abs([x["size"] * x["exit_price"] for x in exp]), initial=0)))
            if f == "return":       # values below the documented tolerance (1e-12) count as equal: returns of dust are not defined that sharply
                big = np.array([x["size"] * x["entry_price"] > 1e-4 for x in exp], bool)
                a, e = a[big], e[big]
                sc = max(1.0, float(np.nanmax([abs(x["exit_price"] / x["entry_price"]) for x in exp], initial=0)))
            if f.endswith("fees"):
                sc = max(1.0, float(np.nanmax(np.abs(e), initial=0)))
            ctx.eq(a, e, f"{msg}.{f}", rtol=1e-7, atol=1e-9 * sc, records=rec, model=exp)
        else:
            ctx.eq(a, e.astype(a.dtype) if len(e) else a[:0], f"{msg}.{f}")


def laws(ctx, o, ent, exi, pos, c):
    """Partition laws straight from the real records."""
    sgn = lambda r: np.where(r["direction"] == 0, 1.0, -1.0)
    for k in range(c):
        oc = o[o["col"] == k]
        e, x, p = ent[ent["col"] == k], exi[exi["col"] == k], pos[pos["col"] == k]
        vol = float(oc["size"].sum())
        t = 1e-8 * max(1.0, vol)
        ctx.eq(e["size"].sum(), p["size"].sum(), f"entry volume of column {k}: entry trades vs positions", atol=t)
        ctx.eq(x["size"].sum(), p["size"].sum(), f"exit volume of column {k}: exit trades vs positions", atol=t)
        closed = float(x["size"][x["status"] == 1].sum())
        ctx.eq(float(p["size"].sum()) + closed, vol, f"entries + exits of column {k} = filled volume", atol=t)
        net = float(np.where(oc["side"] == 0, oc["size"], -oc["size"]).sum())
        op = x[x["status"] == 0]
        ctx.eq(float((op["size"] * sgn(op)).sum()), net, f"open trades of column {k} hold the net position", atol=t * 10)
        fees = float(oc["fees"].sum())
        ft = 1e-8 * max(1.0, fees)
        for w, r in (("entry trades", e), ("exit trades", x), ("positions", p)):
            ctx.eq(float(r["entry_fees"].sum() + r["exit_fees"].sum()), fees, f"fees of column {k}: {w}", atol=ft)
        for q in p:
            es, xs = e[e["parent_id"] == q["id"]], x[x["parent_id"] == q["id"]]
            v = abs(float(q["size"] * q["entry_price"])) + abs(float(q["size"] * q["exit_price"]))
            for w, r in (("entry trades", es), ("exit trades", xs)):
                ctx.eq(r["size"].sum(), q["size"], f"{w} of position {q['id']}: size", rtol=1e-8)
                ctx.eq(r["pnl"].sum(), q["pnl"], f"{w} of position {q['id']}: PnL", rtol=1e-7, atol=1e-8 * max(1, v))
                ctx.eq((r["entry_fees"].sum(), r["exit_fees"].sum()), (q["entry_fees"], q["exit_fees"]), f"{w} of position {q['id']}: fees", rtol=1e-8, atol=ft)
                ctx.check((r["direction"] == q["direction"]).all(), f"{w} of position {q['id']}: direction")
            ctx.check(q["status"] == xs["status"][-1] and (es["status"] == q["status"]).all(), f"status of position {q['id']}")
            ctx.seen("positions_checked")
            ctx.seen("multi_part_positions", len(xs) > 1 or len(es) > 1)
    ctx.seen("open_trades", (exi["status"] == 0).sum())
    ctx.seen("short_trades", (exi["direction"] == 1).sum())


def mean(a):
    return float(np.mean(a)) if len(a) else NAN


def statistics(ctx, T, rec, n, c, freq=True):
    """Statistics of a Trades object from its records."""
    rng = ctx.rng
    val = lambda x: np.asarray(x).reshape(-1)

    def per(f, by=None):
        if by is None:
            return [f(rec[rec["col"] == k]) for k in range(c)]
        by = np.asarray(by)
        return [f(np.concatenate([rec[rec["col"] == k] for k in np.flatnonzero(by == g)])) for g in range(by.max() + 1)]

    def wr(r):
        return (r["pnl"] > 0).sum() / len(r) if len(r) else NAN

    def pfac(r):
        if not len(r):
            return NAN
        w, l = r["pnl"][r["pnl"] > 0].sum(), abs(r["pnl"][r["pnl"] < 0].sum())
        return w / l if l else (INF if w > 0 else NAN)

    def expc(r):
        if not len(r):
            return NAN
        w, l = r["pnl"][r["pnl"] > 0], r["pnl"][r["pnl"] < 0]
        return wr(r) * (w.mean() if len(w) else 0) - (1 - wr(r)) * abs(l.mean() if len(l) else 0)

    def sqn(r):
        p = r["pnl"][~np.isnan(r["pnl"])]
        if len(p) < 2:
            return NAN
        s = p.std(ddof=1)
        return np.sqrt(len(r)) * p.mean() / s if s else NAN

    def streak(r, sign):
        out, q = [], 0
        for p in r["pnl"]:
            q = q + 1 if p * sign > 0 else 0
            out.append(q)
        return out
    dur = lambda r: r["exit_idx"] - r["entry_idx"] + (r["status"] == 0)
    gl = gen.group_lens(rng, c)
    by = gen.groups_from_lens(gl)
    for kw, w in ((dict(group_by=False), None), (dict(group_by=by), by)) if c > 1 else ((dict(group_by=False), None),):
        nm = "grouped " if w is not None else ""
        ctx.eq(val(T.count(**kw)), np.array(per(len, w)), nm + "count")
        ctx.eq(val(T.win_rate(**kw)), np.array(per(wr, w), float), nm + "win rate", atol=1e-12)
        ctx.eq(val(T.profit_factor(**kw)), np.array(per(pfac, w), float), nm + "profit factor", rtol=1e-7)
        ctx.eq(val(T.expectancy(**kw)), np.array(per(expc, w), float), nm + "expectancy", rtol=1e-7, atol=1e-8)
        a, b = val(T.sqn(**kw)), np.array(per(sqn, w), float)
        pl = np.array(per(lambda r: np.ptp(r["pnl"]) > 1e-6 * max(1.0, np.abs(r["pnl"]).max()) if len(r) and not np.isnan(r["pnl"]).any() else False, w), bool)
        ctx.eq(a[pl], b[pl], nm + "SQN", rtol=1e-6)
        ctx.eq(val(T.winning.count(**kw)), np.array(per(lambda r: (r["pnl"] > 0).sum(), w)), nm + "winning count")
        ctx.eq(val(T.losing.count(**kw)), np.array(per(lambda r: (r["pnl"] < 0).sum(), w)), nm + "losing count")
        for s, d in (("long", 0), ("short", 1)):
            ctx.eq(val(getattr(T, s).count(**kw)), np.array(per(lambda r: (r["direction"] == d).sum(), w)), nm + s + " count")
        for s, d in (("open", 0), ("closed", 1)):
            ctx.eq(val(getattr(T, s).count(**kw)), np.array(per(lambda r: (r["status"] == d).sum(), w)), nm + s + " count")
        ctx.eq(val(T.pnl.sum(**kw)), np.array(per(lambda r: np.nansum(r["pnl"]), w)), nm + "PnL sum", rtol=1e-8, atol=1e-8)
        md = val(T.avg_duration(wrap_kwargs=dict(to_timedelta=False), **kw)).astype(float)
        ctx.eq(md, np.array(per(lambda r: mean(dur(r)), w)), nm + "average duration")
        mx = val(T.max_duration(wrap_kwargs=dict(to_timedelta=False), **kw)).astype(float)
        ctx.eq(mx, np.array(per(lambda r: float(dur(r).max()) if len(r) else NAN, w)), nm + "maximum duration")
    ctx.eq(T.duration.values, dur(rec), "durations")
    ctx.eq(T.winning_streak.values, np.array(sum((streak(r, 1) for r in per(lambda r: r)), []), int), "winning streaks")
    ctx.eq(T.losing_streak.values, np.array(sum((streak(r, -1) for r in per(lambda r: r)), []), int), "losing streaks")
    ctx.eq(T.returns.values, rec["return"], "returns field", rtol=0, atol=0)
    # the statistics table of one column
    k = int(rng.integers(c))
    r = rec[rec["col"] == k]
    incl = bool(rng.random() < 0.5)
    kw = dict(column=T.wrapper.columns[k]) if c > 1 else {}
    st = T.stats(settings=dict(incl_open=incl), group_by=False, **kw)
    u = r if incl else r[r["status"] == 1]
    cov = np.zeros(n, int)
    for q in r:
        cov[q["entry_idx"]:q["exit_idx"] + (q["status"] == 0)] += 1
    idx = T.wrapper.index
    sfx = ""
    exp = {"Total Records": len(r), "Total Long Trades": (r["direction"] == 0).sum(), "Total Short Trades": (r["direction"] == 1).sum(),
           "Total Closed Trades": (r["status"] == 1).sum(), "Total Open Trades": (r["status"] == 0).sum(),
           "Open Trade PnL": np.nansum(r["pnl"][r["status"] == 0]), "Win Rate [%]": wr(r[r["status"] == 1]) * 100, "Profit Factor": pfac(u), "Expectancy": expc(u),
           "Best Trade [%]": np.nanmax(u["return"]) * 100 if len(u) and not np.isnan(u["return"]).all() else NAN,
           "Worst Trade [%]": np.nanmin(u["return"]) * 100 if len(u) and not np.isnan(u["return"]).all() else NAN,
           "Avg Winning Trade [%]": mean(u["return"][u["pnl"] > 0]) * 100, "Avg Losing Trade [%]": mean(u["return"][u["pnl"] < 0]) * 100,
           "Max Win Streak": max(streak(u, 1), default=NAN), "Max Loss Streak": max(streak(u, -1), default=NAN)}
    for t, e in exp.items():
        ctx.check(t in st.index, f"statistics table misses {t}", index=list(st.index))
        a = st[t]
        ctx.eq(float(a) if not pd.isna(a) else NAN, float(e), f"stats[{t}] (incl_open={incl})", rtol=1e-7, atol=1e-7)
    td = lambda x: pd.Timedelta(days=1) * float(x)
    for t, e in (("Coverage", (cov > 0).sum() if len(r) else NAN), ("Overlap Coverage", (cov > 1).sum() if len(r) else NAN),
                 ("Avg Winning Trade Duration", mean(dur(u)[u["pnl"] > 0])), ("Avg Losing Trade Duration", mean(dur(u)[u["pnl"] < 0])), ("Period", n)):
        a = st[t]
        if pd.isna(e):
            ctx.check(pd.isna(a), f"stats[{t}] should be missing", got=a)
        else:
            ctx.check(abs(a - td(e)) <= pd.Timedelta("2us"), f"stats[{t}]", got=str(a), expected=str(td(e)))
    if len(r):
        ctx.check(st["First Trade Start"] == idx[r["entry_idx"][0]] and st["Last Trade End"] == idx[r["exit_idx"][-1]], "stats first/last trade")
    ctx.seen("stats_tables")


def real(ctx, O, cl2):
    E, X = EntryTrades.from_orders(O), ExitTrades.from_orders(O)
    return E, X, Positions.from_trades(X)


def judge(ctx, o, E, X, P, n, c, close):
    ent, exi, pos = reference(o, n, c, close)
    cmp(ctx, E.values, ent, "entry trades")
    cmp(ctx, X.values, exi, "exit trades")
    cmp(ctx, P.values, pos, "positions")
    if not np.isnan(close[-1]).any():
        laws(ctx, o, E.values, X.values, P.values, c)
    ctx.seen("trades_checked", len(exi) + len(ent))


@monitor(weight=2.5)
def m_synthetic(ctx):
    """Trades of made-up order records: any interleaving of columns, sizes on a grid (exact closes, reversals) or arbitrary."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 15)), int(rng.integers(1, 6))
    close = np.abs(rng.normal(10, 5, (n, c))) + 0.1
    m = int(rng.integers(0, 3 * n))
    o = np.zeros(m, order_dt)
    o["idx"] = np.sort(rng.integers(0, n, m))
    o["col"] = rng.integers(0, c, m)
    grid = rng.random() < 0.6
    o["size"] = rng.choice([0.5, 1.0, 1.5, 2.0, 3.0], m) if grid else rng.lognormal(0, 2, m)
    o["price"] = rng.choice([1.0, 2.0, 4.0], m) if rng.random() < 0.4 else close[o["idx"], o["col"]] * rng.uniform(0.8, 1.2, m) if m else 1.0
    o["fees"] = rng.choice([0.0, 0.1, 1.0], m) if rng.random() < 0.7 else rng.random(m)
    o["side"] = rng.integers(0, 2, m) if rng.random() < 0.7 else np.arange(m) % 2
    if not grid and rng.random() < 0.5:
        for k in range(c):      # close exactly now and then
            q = np.flatnonzero(o["col"] == k)
            s = 0.0
            for j in q:
                if s != 0 and rng.random() < 0.4:
                    o["size"][j], o["side"][j] = abs(s), 1 if s > 0 else 0
                    s = 0.0
                else:
                    s += o["size"][j] if o["side"][j] == 0 else -o["size"][j]
    o["id"] = np.arange(m)
    layout = pick(rng, ["row", "col"])
    if layout == "col":
        o = o[np.argsort(o["col"], kind="stable")]
    idx = gen.dt_index(rng, n, "D")
    w = vbt.ArrayWrapper(idx, gen.columns(rng, c), 2, freq="D")
    O = Orders(w, o, close=pd.DataFrame(close, index=idx, columns=w.columns))
    ctx.desc = dict(orders=o, close=close)
    E, X, P = real(ctx, O, close)
    judge(ctx, o, E, X, P, n, c, close)
    s = [o[o["col"] == k] for k in range(c)]
    ctx.seen("unsorted_layouts", layout == "row" and (np.diff(o["col"]) < 0).any())
    ctx.seen("empty_columns", sum(len(x) == 0 for x in s))
    T = pick(rng, [E, X, P])
    statistics(ctx, T, T.values, n, c)
    ctx.nontrivial(n, c, m, layout, o["size"].tolist()[:8], o["side"].tolist()[:8])
    # documented guards
    if m > 1:
        bad = o.copy()
        j = int(rng.integers(m))
        f = pick(rng, ["size", "price"])
        bad[f][j] = pick(rng, [0.0, -1.0])
        B = Orders(w, bad, close=O.close)
        for cls in (EntryTrades, ExitTrades):
            ctx.raises(ValueError, cls.from_orders, B, msg=f"order with {f} {bad[f][j]}")
        same = [k for k in range(c) if (o["col"] == k).sum() > 1]
        if same:
            bad = o.copy()
            q = np.flatnonzero(o["col"] == same[0])
            bad["id"][q] = bad["id"][q][::-1]
            for cls in (EntryTrades, ExitTrades):
                ctx.raises(ValueError, cls.from_orders, Orders(w, bad, close=O.close), msg="descending order ids")
            ctx.seen("guards")


def portfolio_case(ctx, p, v):
    rng = ctx.rng
    n, c = v["close"].shape
    close = v["close"]
    o = p.order_records
    E, X, P = p.entry_trades, p.exit_trades, p.positions
    judge(ctx, o, E, X, P, n, c, close)
    ok = ~np.isnan(close[-1])
    tp = np.asarray(p.get_total_profit(group_by=False) if hasattr(p, "get_total_profit") else p.total_profit(group_by=False)).reshape(-1)
    for nm, T in (("entry trades", E), ("exit trades", X), ("positions", P)):
        s = np.array([T.values["pnl"][T.values["col"] == k].sum() for k in range(c)])
        vol = np.array([(o["size"] * o["price"])[o["col"] == k].sum() for k in range(c)])
        ctx.check(np.allclose(s[ok], tp[ok], rtol=1e-7, atol=1e-8 * max(1.0, vol.max(initial=0))), f"summed PnL of {nm} = total profit per column", pnl=s, profit=tp)
    if ok.all():
        ctx.eq(np.asarray(p.trades.pnl.sum()).reshape(-1), np.asarray(p.total_profit()).reshape(-1), "trade PnL = total profit per group/column", rtol=1e-7,
               atol=1e-8 * max(1.0, vol.max(initial=0)))
        ctx.seen("profit_comparisons")
    statistics(ctx, pick(rng, [E, X, P]), None, n, c) if False else None
    T = pick(rng, [E, X, P])
    if v["sharing"]:
        T = T.replace(wrapper=T.wrapper.replace(group_by=None, grouped_ndim=None)) if False else T
    if not v["sharing"]:
        statistics(ctx, T if "group_by" not in v["kw"] else T.regroup(False), T.values, n, c)
    typ = pick(rng, ["EntryTrades", "ExitTrades", "Positions", 0, 1, 2])
    tr = {"EntryTrades": E, "ExitTrades": X, "Positions": P, 0: E, 1: X, 2: P}[typ]
    q = p.replace(trades_type=typ)
    pf.exact(ctx, q.trades.values, tr.values, f"trades of trades_type={typ}")
    ctx.check(type(q.trades) is type(tr), "class of trades")


@monitor(weight=1.5)
def m_orders(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 15)), int(rng.integers(1, 5))
    r = pf.run_from_orders(ctx, rng, n, c, sharing=rng.random() < 0.3, allow_series=False)
    if r is not None:
        portfolio_case(ctx, r[0], r[0]._vt)


@monitor(weight=1.2)
def m_signals(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 15)), int(rng.integers(1, 5))
    r = pf.run_from_signals(ctx, rng, n, c, sharing=rng.random() < 0.3, allow_series=False)
    if r is not None:
        portfolio_case(ctx, r[0], r[0]._vt)


@monitor(weight=1)
def m_func(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 8)), int(rng.integers(1, 5))
    r = pf.run_from_func(ctx, rng, n, c, record=False)
    if r is not None:
        portfolio_case(ctx, r[0], r[0]._vt)
        ctx.seen("func_portfolios")
