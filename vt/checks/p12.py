"""P12: order and log records form one consistent, chained history; accessors and statistics count exactly these records."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt import gen, model as M, pf
from vt.core import monitor
from vt.gen import pick, Arg

NAN, INF = np.nan, np.inf
SIDE = {0: "Buy", 1: "Sell", -1: None}
STATUS = {0: "Filled", 1: "Ignored", 2: "Rejected"}


def chain(ctx, p, v, all_logged):
    """Structural laws, from the records alone."""
    n, c = v["close"].shape
    o, l = p.order_records, p.log_records
    gl = v["gl"]
    gid = np.repeat(np.arange(len(gl)), gl)
    u = gid if v["sharing"] else np.arange(c)
    nu = int(u.max()) + 1
    ctx.eq(o["id"], np.arange(len(o)), "order ids count up from 0")
    ctx.eq(l["id"], np.arange(len(l)), "log ids count up from 0")
    for r, w in ((o, "orders"), (l, "logs")):
        ctx.check(((r["col"] >= 0) & (r["col"] < c) & (r["idx"] >= 0) & (r["idx"] < n)).all(), f"{w}: column or row outside the simulation")
        for k in range(c):
            ctx.check((np.diff(r["idx"][r["col"] == k]) >= 0).all(), f"{w} of column {k} are not in time order")
        if len(r):
            g = gid[r["col"]]
            major = np.stack((r["idx"], g)) if v.get("row_wise") else np.stack((g, r["idx"]))
            key = major[0] * (max(n, c) + 1) + major[1]
            ctx.check((np.diff(key) >= 0).all(), f"{w}: ids do not follow the simulation order (groups then rows, or rows then groups)")
    ctx.check(np.isfinite(o["size"]).all() and (o["size"] > 0).all(), "order with a size that is not positive")
    ctx.check(np.isin(o["side"], [0, 1]).all(), "order without a side")
    ctx.eq(l["group"], gid[l["col"]].astype(float), "log.group is the group of log.col")
    # filled log <-> order
    fl = l[l["res_status"] == 0]
    ctx.check((l["order_id"][l["res_status"] != 0] == -1).all(), "an unfilled log names an order id")
    ctx.check((fl["order_id"] >= 0).all() and (len(fl) == 0 or fl["order_id"].max() < len(o)), "a filled log names no order")
    if all_logged:
        ctx.eq(np.sort(fl["order_id"]), o["id"], "each order belongs to exactly one filled log")
    else:
        ctx.check(len(np.unique(fl["order_id"])) == len(fl), "two logs name the same order")
    m = o[fl["order_id"]]
    for a, b in (("col", "col"), ("idx", "idx"), ("res_size", "size"), ("res_price", "price"), ("res_fees", "fees"), ("res_side", "side")):
        ctx.eq(fl[a], m[b].astype(fl[a].dtype), f"filled log.{a} equals order.{b}", rtol=0, atol=0)
    nf = l[l["res_status"] != 0]
    ctx.check(np.isnan(nf["res_size"]).all() and np.isnan(nf["res_price"]).all() and np.isnan(nf["res_fees"]).all() and (nf["res_side"] == -1).all(),
              "an unfilled log reports a fill")
    for a in ("cash", "position", "debt", "free_cash"):
        ctx.eq(nf["new_" + a], nf[a], f"an unfilled log changes {a}", rtol=0, atol=0)
    if all_logged:
        cash = np.array(v["init"], float)[:nu].copy()
        free = cash.copy()
        pos, debt = np.zeros(c), np.zeros(c)
        for r in l:
            k, q = r["col"], u[r["col"]]
            for f, s, j in (("cash", cash, q), ("free_cash", free, q), ("position", pos, k), ("debt", debt, k)):
                if r[f] != s[j]:
                    ctx.fail(f"log {r['id']}.{f} = {r[f]!r} but the account was left at {s[j]!r}", record=str(r))
                s[j] = r["new_" + f]
            ctx.check(r["new_val_price"] == r["val_price"] or v["upd"] or (np.isnan(r["val_price"]) and np.isnan(r["new_val_price"])), "valuation price changed by an order without update_value", record=str(r))
        ctx.seen("chain_links", len(l))
    ctx.seen("orders", len(o))
    ctx.seen("filled_logs", len(fl))
    ctx.seen("unfilled_logs", len(nf))


def agg(a, f):
    a = np.asarray(a, float)
    return f(a) if len(a) else NAN


def accessors(ctx, p, v):
    n, c = v["close"].shape
    rng = ctx.rng
    o, l = p.order_records, p.log_records
    O, L = p.orders, p.logs
    val = lambda x: np.asarray(x).reshape(-1)
    per = lambda r, f: np.array([f(r[r["col"] == k]) for k in range(c)], float)
    kw = dict(group_by=False)
    ctx.eq(O.values, o, "orders.values") if len(o) else None
    ctx.eq(val(O.count(**kw)), per(o, len), "orders.count")
    ctx.eq(val(L.count(**kw)), per(l, len), "logs.count")
    for nm, sd in (("buy", 0), ("sell", 1)):
        s = getattr(O, nm)
        ctx.eq(s.values["id"], o["id"][o["side"] == sd], f"orders.{nm} filter")
        ctx.eq(val(s.count(**kw)), per(o[o["side"] == sd], len), f"orders.{nm}.count")
        ctx.eq(getattr(L, "res_side_" + nm, getattr(L, nm, None)).values["id"], l["id"][l["res_side"] == sd], f"logs.{nm} filter")
    for nm, st in (("filled", 0), ("ignored", 1), ("rejected", 2)):
        s = getattr(L, nm)
        ctx.eq(s.values["id"], l["id"][l["res_status"] == st], f"logs.{nm} filter")
        ctx.eq(val(s.count(**kw)), per(l[l["res_status"] == st], len), f"logs.{nm}.count")
    from vectorbt.portfolio.enums import OrderStatusInfo
    import re
    for i, nm in enumerate(OrderStatusInfo._fields):
        snake = re.sub(r"(?<=[a-z0-9])([A-Z])|(?<=[A-Z])([A-Z])(?=[a-z])", lambda m: "_" + m.group(0), nm).lower()
        s = getattr(L, snake, None)
        if s is not None:
            ctx.eq(s.values["id"], l["id"][l["res_status_info"] == i], f"logs.{snake} filter")
            ctx.seen("status_info_filters")
    for f in ("size", "price", "fees"):
        A = getattr(O, f)
        for nm, fn in (("min", np.min), ("max", np.max), ("mean", np.mean), ("median", np.median)):
            ctx.eq(val(getattr(A, nm)(**kw)), per(o, lambda r: agg(r[f], fn)), f"orders.{f}.{nm}", rtol=1e-9, atol=1e-12)
        ctx.eq(val(A.sum(**kw)), per(o, lambda r: r[f].sum()), f"orders.{f}.sum", atol=1e-9)
    # readable forms
    rd = O.records_readable
    cols = p.wrapper.columns
    idx = p.wrapper.index
    ctx.eq(list(rd["Order Id"]), list(o["id"]), "readable order ids")
    ctx.check(list(rd["Column"]) == [cols[k] for k in o["col"]], "readable order columns")
    ctx.check(list(rd["Timestamp"]) == [idx[i] for i in o["idx"]], "readable order timestamps")
    ctx.check(list(rd["Side"]) == [SIDE[s] for s in o["side"]], "readable order sides")
    for t, f in (("Size", "size"), ("Price", "price"), ("Fees", "fees")):
        ctx.eq(rd[t].to_numpy(), o[f], f"readable order {f}", rtol=0, atol=0)
    rl = L.records_readable
    ctx.check(list(rl["Result Status"]) == [STATUS[s] for s in l["res_status"]], "readable log statuses")
    ctx.check(list(rl["Result Side"]) == [SIDE[s] for s in l["res_side"]], "readable log sides")
    ctx.check(list(rl["Result Status Info"]) == [None if s < 0 else OrderStatusInfo._fields[s] for s in l["res_status_info"]], "readable log status infos")
    for t, f in (("Cash", "cash"), ("Position", "position"), ("Request Size", "req_size"), ("New Cash", "new_cash"), ("Order Id", "order_id"),
                 ("Value", "value"), ("New Debt", "new_debt"), ("Result Fees", "res_fees"), ("Request Lock Cash", "req_lock_cash")):
        ctx.eq(np.asarray(rl[t]), l[f], f"readable log {f}", rtol=0, atol=0)
    # statistics of one column
    k = int(rng.integers(c))
    col = p.wrapper.columns[k]
    oc, lc = o[o["col"] == k], l[l["col"] == k]
    b, s = oc[oc["side"] == 0], oc[oc["side"] == 1]
    exp = {"Total Records": len(oc), "Total Buy Orders": len(b), "Total Sell Orders": len(s), "Min Size": agg(oc["size"], np.min),
           "Max Size": agg(oc["size"], np.max), "Avg Size": agg(oc["size"], np.mean), "Avg Buy Size": agg(b["size"], np.mean),
           "Avg Sell Size": agg(s["size"], np.mean), "Avg Buy Price": agg(b["price"], np.mean), "Avg Sell Price": agg(s["price"], np.mean),
           "Total Fees": oc["fees"].sum(), "Min Fees": agg(oc["fees"], np.min), "Max Fees": agg(oc["fees"], np.max),
           "Avg Fees": agg(oc["fees"], np.mean), "Avg Buy Fees": agg(b["fees"], np.mean), "Avg Sell Fees": agg(s["fees"], np.mean)}
    st = O.stats(column=col, group_by=False) if c > 1 else O.stats(group_by=False)
    for t, e in exp.items():
        ctx.eq(float(st[t]), float(e), f"orders.stats[{t}]", rtol=1e-9, atol=1e-9)
    ctx.check(st["Start"] == idx[0] and st["End"] == idx[-1], "orders.stats start/end")
    ctx.check(st["Period"] == pd.Timedelta(days=n), "orders.stats period", got=st["Period"])
    st = L.stats(column=col, group_by=False) if c > 1 else L.stats(group_by=False)
    ctx.eq(float(st["Total Records"]), float(len(lc)), "logs.stats[Total Records]")
    if len(l):
        for i, nm in STATUS.items():
            ctx.eq(float(st[f"Status Counts: {nm}"]), float((lc["res_status"] == i).sum()), f"logs.stats status count {nm}")
        for i, nm in enumerate(("None",) + OrderStatusInfo._fields):
            t = f"Status Info Counts: {nm}"
            if t in st.index:
                ctx.eq(float(st[t]), float((lc["res_status_info"] == i - 1).sum()), f"logs.stats info count {nm}")
            else:
                ctx.check(not (lc["res_status_info"] == i - 1).any(), f"logs.stats misses info {nm}")
        ctx.seen("log_stats")
    # groups and selections
    if c > 1 and not v["sharing"]:
        g2 = gen.group_lens(rng, c)
        gid = np.repeat(np.arange(len(g2)), g2)
        ctx.eq(val(O.count(group_by=gid)), np.array([(gid[o["col"]] == g).sum() for g in range(len(g2))]), "grouped orders.count")
        ctx.eq(val(L.filled.count(group_by=gid)), np.array([((gid[l["col"]] == g) & (l["res_status"] == 0)).sum() for g in range(len(g2))]),
               "grouped logs.filled.count")
        fs = np.array([o["fees"][gid[o["col"]] == g].sum() for g in range(len(g2))])
        ctx.eq(val(O.fees.sum(group_by=gid)), fs, "grouped orders.fees.sum", atol=1e-9)
        # mean over columns of the per-column values when no column is selected
        with_agg = O.stats(group_by=False, metrics=["total_records", "total_fees", "max_size"], agg_func=np.mean)
        ctx.eq(float(with_agg["Total Records"]), float(np.mean(per(o, len))), "aggregated Total Records")
        ctx.eq(float(with_agg["Total Fees"]), float(np.mean(per(o, lambda r: r["fees"].sum()))), "aggregated Total Fees", atol=1e-9)
        sel = pick(rng, [[0], [c - 1, 0], list(range(1, c))])
        S = O.wrapper and (p.orders if "group_by" not in v["kw"] else p.orders.regroup(False))
        S = S.iloc[sel]
        e = np.concatenate([o[o["col"] == k] for k in sel]) if len(sel) else o[:0]
        ctx.eq(S.values["id"], e["id"], "orders of selected columns")
        ctx.eq(S.values["col"], np.concatenate([np.full((o["col"] == k).sum(), j) for j, k in enumerate(sel)]), "columns renumbered")
        ctx.eq(S.close.to_numpy().reshape(n, -1), v["close"][:, sel], "close of selected orders", rtol=0, atol=0)
        ctx.seen("selections")


def run(ctx, kind, all_logged, **kw):
    rng = ctx.rng
    n, c = int(rng.integers(1, 11)), int(rng.integers(1, 6))
    if kind == "func":
        return pf.run_from_func(ctx, rng, min(n, 7), min(c, 4), record=False, **kw)
    f = pf.run_from_orders if kind == "orders" else pf.run_from_signals
    return f(ctx, rng, n, c, sharing=rng.random() < 0.5, allow_series=False, **kw)


@monitor(weight=3)
def m_history(ctx):
    rng = ctx.rng
    kind = pick(rng, ["orders", "orders", "signals", "func"])
    r = run(ctx, kind, True)
    if r is None:
        return
    p, v = r[0], r[0]._vt
    chain(ctx, p, v, True)
    S = r[1]
    pf.compare_orders(ctx, p.order_records, S.orders)
    pf.compare_logs(ctx, p.log_records, S.logs)
    if kind != "func" or not v["flexible"]:
        # one log per processed cell
        if kind == "orders":
            n, c = v["close"].shape
            ctx.eq(np.bincount(p.log_records["idx"] * c + p.log_records["col"], minlength=n * c), np.ones(n * c, int), "one log per cell")
    ctx.seen("histories_" + kind)


@monitor(weight=1)
def m_partial_log(ctx):
    """Logging switched on per element: the logged orders, and only those, appear."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 5))
    A = gen.order_args(rng, n, c)
    m = rng.random((n, c)) < 0.5
    A["log"] = Arg(m, m, "full")
    r = pf.run_from_orders(ctx, rng, n, c, sharing=rng.random() < 0.5, args=A)
    if r is None:
        return
    p, v = r[0], r[0]._vt
    chain(ctx, p, v, False)
    l = p.log_records
    ctx.eq(np.bincount(l["idx"] * c + l["col"], minlength=n * c), m.astype(int).ravel(), "exactly the orders asked to be logged are logged")
    pf.compare_logs(ctx, l, r[1].logs)
    pf.compare_orders(ctx, p.order_records, r[1].orders)
    ctx.seen("partial_logs")


@monitor(weight=2)
def m_accessors(ctx):
    rng = ctx.rng
    kind = pick(rng, ["orders", "orders", "signals", "func"])
    r = run(ctx, kind, True)
    if r is None:
        return
    accessors(ctx, r[0], r[0]._vt)
    ctx.seen("accessor_runs")


@monitor(weight=1)
def m_capacity(ctx):
    """Record buffers: exactly enough is enough, one less raises the documented error."""
    rng = ctx.rng
    kind = pick(rng, ["orders", "signals", "func"])
    r = run(ctx, kind, True)
    if r is None:
        return
    p, v = r[0], r[0]._vt
    no, nl = len(p.order_records), len(p.log_records)
    cl, kw = v["cl"], dict(v["kw"])
    if kind == "func":
        def f(cl_, **kw_):
            return vbt.Portfolio.from_order_func(cl_, v["fn"], **kw_)
    else:
        f = getattr(vbt.Portfolio, "from_" + kind)
    q = f(cl, **dict(kw, max_orders=no, max_logs=nl))
    pf.exact(ctx, q.order_records, p.order_records, "orders with an exactly sized buffer")
    pf.exact(ctx, q.log_records, p.log_records, "logs with an exactly sized buffer")
    if no > 0:
        k = int(rng.integers(0, no))
        ctx.raises(IndexError, f, cl, **dict(kw, max_orders=k), msg=f"{no} orders, buffer {k}")
        ctx.seen("orders_overflow")
    if nl > 1:      # a buffer of 0 means 1
        k = int(rng.integers(1, nl))
        ctx.raises(IndexError, f, cl, **dict(kw, max_logs=k), msg=f"{nl} logs, buffer {k}")
        ctx.seen("logs_overflow")
