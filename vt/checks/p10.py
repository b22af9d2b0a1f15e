"""P10: value, returns, exposures, profits, benchmark and summary statistics equal their definitions per column and group."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt import gen, model as M, pf, metrics as X
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.p02 import ledger, gsum

NAN, INF = np.nan, np.inf


def filled(close):
    out = np.array(close, float)
    for k in range(out.shape[1]):
        last = NAN
        for i in range(len(out)):
            if np.isnan(out[i, k]):
                out[i, k] = last
            last = out[i, k]
        nxt = NAN
        for i in range(len(out) - 1, -1, -1):
            if np.isnan(out[i, k]):
                out[i, k] = nxt
            nxt = out[i, k]
    return out


def cumadd(f):
    out = np.zeros_like(f)
    for k in range(f.shape[1]):
        s = 0.0
        for i in range(len(f)):
            s = M.add(float(s), float(f[i, k]))
            out[i, k] = s
    return out


def ret(prev, cur):
    if np.isnan(prev) or np.isnan(cur):
        return NAN
    if prev == 0:
        return 0.0 if cur == 0 else np.sign(cur) * INF
    return (cur - prev) / abs(prev)


def portfolio(ctx):
    rng = ctx.rng
    kind = pick(rng, ["orders", "orders", "signals", "func"])
    n, c = int(rng.integers(1, 13)), int(rng.integers(1, 6))
    fill = bool(rng.random() < 0.6)
    extra = dict(fillna_close=fill)
    extra["trades_type"] = pick(rng, ["exittrades", "entrytrades", "positions"])
    if kind == "func":
        r = pf.run_from_func(ctx, rng, min(n, 8), min(c, 4), record=False, extra=extra)
    else:
        sharing = bool(rng.random() < 0.5)
        if not sharing and rng.random() < 0.5:
            gl = gen.group_lens(rng, c)
            extra["group_by"] = gen.groups_from_lens(gl)
        r = (pf.run_from_orders if kind == "orders" else pf.run_from_signals)(ctx, rng, n, c, sharing=sharing, extra=extra)
    if r is None:
        raise Skip()
    return r[0], r[0]._vt, fill


def group_views(ctx, p, v):
    """(group_by kwarg, list of member arrays)."""
    c = v["close"].shape[1]
    views = [(dict(group_by=False), [[k] for k in range(c)])]
    if "group_by" in v["kw"]:
        g = np.asarray(v["kw"]["group_by"])
        views.append((dict(), [list(np.flatnonzero(g == x)) for x in np.unique(g)]))
    elif not v["sharing"]:
        gl = gen.group_lens(ctx.rng, c)
        g = gen.groups_from_lens(gl)
        views.append((dict(group_by=g), [list(np.flatnonzero(g == x)) for x in np.unique(g)]))
        views.append((dict(), [[k] for k in range(c)]))
    if v["sharing"]:
        return views
    if ctx.rng.random() < 0.3:
        views.append((dict(group_by=True), [list(range(c))]))
    return views


def definitions(ctx, p, v, fill):
    n, c = v["close"].shape
    af, cf, _, _ = ledger(p, n, c)
    assets = cumadd(af)
    close = filled(v["close"]) if fill else v["close"]
    A = lambda x: np.asarray(x).reshape(n, -1)
    R = lambda x: np.asarray(x, float).reshape(-1)
    scale = max(1.0, float(np.abs(cf).sum()) * 1e-3, float(np.nanmax(v["init"])) * 1e-3)
    tol = 1e-7 * scale
    eq = lambda a, b, m: ctx.eq(a, b, m, rtol=1e-8, atol=tol)
    same = lambda a, b, m: ctx.eq(a, b, m, rtol=1e-9, atol=1e-12)
    av = {}
    with np.errstate(all="ignore"):
        for d, q in (("both", assets), ("longonly", np.maximum(assets, 0)), ("shortonly", np.maximum(-assets, 0))):
            av[d] = np.where(q == 0, 0.0, q * close)
    for kw, members in group_views(ctx, p, v):
        grouped = not all(len(m) == 1 for m in members) or "group_by" not in kw or kw["group_by"] is not False
        cols = lambda a: np.column_stack([a[:, m].sum(1) for m in members])
        w = f" ({'group_by=' + str(kw.get('group_by', 'own'))})"
        cash = A(p.cash(**kw))
        init = R(p.get_init_cash(**kw))
        for d in av:
            eq(A(p.asset_value(direction=d, **kw)), cols(av[d]), f"asset value {d}" + w)
            a = np.column_stack([np.abs(A(p.asset_value(direction=d, group_by=False))[:, m]).sum(1) for m in members])
            f = A(p.cash(free=True, **kw))
            den = np.array([[M.add(float(a[i, j]), float(f[i, j])) for j in range(len(members))] for i in range(n)]).reshape(n, -1)
            with np.errstate(all="ignore"):
                ge = np.where(den == 0, 0.0, a / den)
            same(A(p.gross_exposure(direction=d, **kw)), ge, f"gross exposure {d}" + w)
        same(A(p.net_exposure(**kw)), A(p.gross_exposure(direction="longonly", **kw)) - A(p.gross_exposure(direction="shortonly", **kw)), "net exposure" + w)
        value = A(p.value(**kw))
        eq(value, cash + cols(av["both"]), "value = cash + holdings at close" + w)
        same(A(p.returns(**kw)), np.column_stack([[ret(value[i - 1, j] if i else init[j], value[i, j]) for i in range(n)] for j in range(value.shape[1])]), "returns" + w)
        cfl = A(p.cash_flow(**kw))
        avg = A(p.asset_value(**kw))
        same(A(p.asset_returns(**kw)), np.column_stack([[ret(avg[i - 1, j] if i else 0.0, avg[i, j] + cfl[i, j]) for i in range(n)] for j in range(len(members))]), "asset returns" + w)
        # totals
        per = np.zeros(c)
        orders = np.bincount(p.order_records["col"], minlength=c)
        for k in range(c):
            per[k] = 0.0 if orders[k] == 0 else cf[:, k].sum() + (0.0 if assets[-1, k] == 0 else assets[-1, k] * close[-1, k])
        tp = np.array([per[m].sum() for m in members])
        got = R(p.total_profit(**kw))
        eq(got, tp, "total profit = cash flows + last value of the assets" + w)
        ok = np.isfinite(value[-1])
        eq(got[ok], (value[-1] - init)[ok], "total profit = final value - init cash" + w)
        same(R(p.final_value(**kw)), got + init, "final value" + w)
        eq(R(p.final_value(**kw))[ok], value[-1][ok], "final value = last value" + w)
        same(R(p.total_return(**kw)), got / init, "total return" + w)
        # market
        with np.errstate(all="ignore"):
            norm = close / close[0]
        bench = np.column_stack([init[j] / len(m) * norm[:, m].sum(1) for j, m in enumerate(members)])
        bv = A(p.benchmark_value(**kw))
        ctx.eq(bv, bench, "benchmark value: init cash split equally and held" + w, rtol=1e-9, atol=tol)
        same(A(p.benchmark_returns(**kw)), np.column_stack([[ret(bv[i - 1, j] if i else init[j], bv[i, j]) for i in range(n)] for j in range(bv.shape[1])]), "benchmark returns" + w)
        same(R(p.total_benchmark_return(**kw)), [ret(bv[0, j], bv[-1, j]) for j in range(bv.shape[1])], "total benchmark return" + w)
        # drawdowns of the value series, returns accessor
        same(A(p.get_returns_acc(**kw).cumulative()), np.column_stack([X.cumulative(x) for x in A(p.returns(**kw)).T]), "cumulative returns" + w)
        dd = p.get_drawdowns(**kw)
        same(A(dd.ts), value, "drawdowns are taken from the value" + w)
        if np.isfinite(value).all() and (value > 0).all():
            mdd = [float((x / np.maximum.accumulate(x) - 1).min()) for x in value.T]
            same(np.nan_to_num(R(dd.max_drawdown())), mdd, "max drawdown of the value" + w)
            ctx.seen("drawdown_series")
        ctx.seen("views_grouped" if any(len(m) > 1 for m in members) else "views_single")
    ctx.seen("bars", n * c)
    if np.isnan(v["close"]).any():
        ctx.seen("nan_closes")


@monitor(weight=3)
def m_definitions(ctx):
    p, v, fill = portfolio(ctx)
    definitions(ctx, p, v, fill)


@monitor(weight=1)
def m_long(ctx):
    rng = ctx.rng
    r = pf.run_from_orders(ctx, rng, int(rng.integers(40, 120)), int(rng.integers(1, 4)), sharing=bool(rng.random() < 0.5))
    if r is not None:
        definitions(ctx, r[0], r[0]._vt, True)


@monitor(weight=1.2)
def m_auto(ctx):
    """Automatic initial cash enters every definition."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    close = gen.prices(rng, n, c, nan=False)
    sharing = bool(rng.random() < 0.5)
    size = rng.normal(0, 2, (n, c))
    gl = gen.group_lens(rng, c)
    by = gen.groups_from_lens(gl)
    mode = pick(rng, ["auto", "autoalign"])
    ctx.desc = dict(close=close, size=size, gl=gl, sharing=sharing, mode=mode)
    p = vbt.Portfolio.from_orders(pd.DataFrame(close, index=gen.dt_index(rng, n, "D"), columns=gen.columns(rng, c)), size, fees=0.01, init_cash=mode,
                                  group_by=by, cash_sharing=sharing, freq="D", attach_call_seq=True)
    v = dict(close=close, kw=dict(group_by=by), sharing=sharing, init=np.array([100.0]))
    definitions(ctx, p, v, True)
    ctx.nontrivial(n, c, gl, mode, sharing, close[0, 0])
    ctx.seen("auto_cash")


@monitor(weight=1.2)
def m_sim_order(ctx):
    """Cash, value and returns along the order in which the columns of a group were processed."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(2, 6))
    fill = bool(rng.random() < 0.6)
    f = pick(rng, [pf.run_from_orders, pf.run_from_signals])
    r = f(ctx, rng, n, c, sharing=True, extra=dict(fillna_close=fill), auto=pick(rng, ["auto", "auto", "custom", "reversed", "default"]))
    if r is None:
        raise Skip()
    p, v = r[0], r[0]._vt
    af, cf, _, _ = ledger(p, n, c)
    assets = cumadd(af)
    close = filled(v["close"]) if fill else v["close"]
    av = np.where(assets == 0, 0.0, assets * close)
    gl = v["gl"]
    init = v["init"]
    seq = np.asarray(r[2])
    ctx.eq(np.asarray(p.call_seq).reshape(n, -1), seq, "attached call sequence")
    cash, value, rets = np.zeros((n, c)), np.zeros((n, c)), np.zeros((n, c))
    c0 = 0
    moved = False
    for g, l in enumerate(gl):
        money, hold, last = init[g], np.zeros(l), init[g]
        for i in range(n):
            if i and list(seq[i, c0:c0 + l]) != list(seq[i - 1, c0:c0 + l]):
                moved = True
            for k in range(l):
                m = int(seq[i, c0 + k])
                money = money + cf[i, c0 + m]
                hold[m] = av[i, c0 + m]
                cash[i, c0 + m] = money
                value[i, c0 + m] = money + hold.sum()
        c0 += l
    A = lambda x: np.asarray(x).reshape(n, -1)
    tol = 1e-7 * max(1.0, np.abs(cf).sum() * 1e-3)
    ctx.eq(A(p.cash(group_by=False, in_sim_order=True)), cash, "cash in simulation order", rtol=1e-8, atol=tol)
    got = A(p.value(group_by=False, in_sim_order=True))
    ctx.eq(got, value, "value in simulation order", rtol=1e-8, atol=tol)
    c0 = 0
    for g, l in enumerate(gl):
        last = init[g]
        for i in range(n):
            for k in range(l):
                m = c0 + int(seq[i, c0 + k])
                rets[i, m] = ret(last, got[i, m])
                last = got[i, m]
            if np.isfinite(last):
                ctx.eq(last, float(A(p.value())[i, g]), "the last value of a bar is the group's value", rtol=1e-8, atol=tol)
        c0 += l
    ctx.eq(A(p.returns(group_by=False, in_sim_order=True)), rets, "returns in simulation order", rtol=1e-9, atol=1e-9)
    ctx.seen("sim_order_runs")
    if moved:
        ctx.seen("sim_order_changing_sequences")


@monitor(weight=0.3)
def m_sim_order_guards(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 5)), int(rng.integers(2, 4))
    close = pd.DataFrame(gen.prices(rng, n, c, nan=False))
    p = vbt.Portfolio.from_orders(close, 1.0, group_by=True, cash_sharing=False)
    ctx.raises(ValueError, lambda: p.cash(group_by=False, in_sim_order=True), msg="simulation order without cash sharing")
    q = vbt.Portfolio.from_orders(close, 1.0, group_by=True, cash_sharing=True, attach_call_seq=False)
    for name in ("cash", "value", "returns"):
        ctx.raises(ValueError, lambda: getattr(q, name)(group_by=False, in_sim_order=True), msg=f"{name} in simulation order without call sequence")
    ctx.seen("guards")


def num(x):
    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        return pd.Timedelta(x) / pd.Timedelta("1D")
    if x is pd.NaT:
        return NAN
    return float(x)


def trade_part(tr, incl_open, at):
    sel = tr if incl_open else tr.closed
    return {"Total Trades": at(tr.count()), "Total Closed Trades": at(tr.closed.count()), "Total Open Trades": at(tr.open.count()),
            "Open Trade PnL": at(tr.open.pnl.sum()), "Win Rate [%]": at(sel.win_rate()) * 100, "Best Trade [%]": at(sel.returns.max()) * 100,
            "Worst Trade [%]": at(sel.returns.min()) * 100, "Avg Winning Trade [%]": at(sel.winning.returns.mean()) * 100,
            "Avg Losing Trade [%]": at(sel.losing.returns.mean()) * 100, "Avg Winning Trade Duration": at(sel.winning.duration.mean()),
            "Avg Losing Trade Duration": at(sel.losing.duration.mean()), "Profit Factor": at(sel.profit_factor()), "Expectancy": at(sel.expectancy())}


def close_to(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 3e-5 + 1e-7 * abs(b)


@monitor(once=True)
def m_finding_trades_type(ctx):
    """Directed: stats(settings=dict(trades_type=...)) reports the requested kind of trades."""
    p = vbt.Portfolio.from_orders(pd.Series([1.0, 2, 3, 4, 5, 6]), [2, 1, -1, -1, -1, 1])
    n = int(p.stats(metrics="total_trades", settings=dict(trades_type="entrytrades"))["Total Trades"])
    if n != int(p.entry_trades.count()):
        if n == int(p.exit_trades.count()):
            ctx.known("stats-ignores-trades-type", "stats ignores trades_type")
        else:
            ctx.fail("total trades are neither of the requested nor of the own type")
    q = vbt.Portfolio.from_orders(pd.Series([1.0, 2, 3, 4, 5, 6]), [2, 1, -1, -1, -1, 1], trades_type="entrytrades")
    ctx.eq(int(q.stats(metrics="total_trades")["Total Trades"]), int(q.entry_trades.count()), "stats of a portfolio of entry trades")
    ctx.seen("finding_probes")


@monitor(weight=2)
def m_stats(ctx):
    """Portfolio.stats against the accessors and, where a formula exists, against the formula."""
    rng = ctx.rng
    p, v, fill = portfolio(ctx)
    n, c = v["close"].shape
    views = group_views(ctx, p, v)
    kw, members = pick(rng, views if not v["sharing"] else views[1:])
    own = "group_by" not in kw
    j = int(rng.integers(len(members)))
    settings = {}
    incl_open = bool(rng.random() < 0.4)
    if rng.random() < 0.6:
        settings["incl_open"] = incl_open
    else:
        incl_open = False
    use_asset = bool(rng.random() < 0.3)
    if use_asset:
        settings["use_asset_returns"] = True
    tt = None
    if rng.random() < 0.4:
        tt = pick(rng, ["exittrades", "entrytrades", "positions"])
        settings["trades_type"] = tt
    acc_kw = {}
    for k, x in (("risk_free", 0.001), ("required_return", 0.01)):
        if rng.random() < 0.3:
            acc_kw[k] = x
    settings.update(acc_kw)
    yf = pick(rng, [None, "252 days"])
    if yf:
        settings["year_freq"] = yf
    label = p.wrapper.get_columns(**kw)[j] if not own else p.wrapper.get_columns()[j]
    single = len(members) == 1
    dup = not p.wrapper.get_columns(**kw).is_unique
    if dup and not single:
        raise Skip()
    s = p.stats(column=None if single else label, settings=settings or None, silence_warnings=True, **kw)
    at = lambda x: np.asarray(x).reshape(-1)[j]
    series = lambda x: np.asarray(x).reshape(n, -1)[:, j]
    by_type = {"exittrades": p.get_exit_trades, "entrytrades": p.get_entry_trades, "positions": p.get_positions}
    mine = v["kw"]["trades_type"] if "trades_type" in v["kw"] else "exittrades"
    tr = by_type[tt or mine](**kw)
    at = lambda x: np.asarray(x).reshape(-1)[j]
    D = 1.0
    r = series((p.asset_returns if use_asset else p.returns)(**kw))
    b = series(p.benchmark_returns(**kw))
    ann = pd.Timedelta(yf or "365 days") / pd.Timedelta("1D")
    dd = p.get_drawdowns(**kw)
    rf = acc_kw.get("risk_free", 0.0)
    rr = acc_kw.get("required_return", 0.0)
    td = lambda x: NAN if x is pd.NaT or x != x else (pd.Timedelta(x) / pd.Timedelta("1D") if not isinstance(x, float) else x)
    exp = {
        "Start": p.wrapper.index[0], "End": p.wrapper.index[-1], "Period": n * D,
        "Start Value": at(p.get_init_cash(**kw)), "End Value": at(p.final_value(**kw)), "Total Return [%]": at(p.total_return(**kw)) * 100,
        "Benchmark Return [%]": X.total(b) * 100, "Max Gross Exposure [%]": np.nanmax(series(p.gross_exposure(**kw))) * 100 if np.isfinite(series(p.gross_exposure(**kw))).any() else NAN,
        "Total Fees Paid": p.order_records["fees"][np.isin(p.order_records["col"], members[j])].sum(),
        "Max Drawdown [%]": -at(dd.max_drawdown()) * 100,
        "Max Drawdown Duration": td(at(dd.max_duration())),
    }
    exp.update(trade_part(tr, incl_open, at))
    own_type = trade_part(by_type[mine](**kw), incl_open, at) if tt not in (None, mine) else None
    if np.isfinite(r).all():
        exp.update({"Sharpe Ratio": X.sharpe_ratio(r, ann, rf), "Calmar Ratio": X.calmar_ratio(r, ann), "Omega Ratio": X.omega_ratio(r, ann, rf, rr),
                    "Sortino Ratio": X.sortino_ratio(r, ann, rr)})
        if abs(X.std(r, 1)) < 1e-12 * max(1e-3, np.abs(r).max()):
            exp.pop("Sharpe Ratio")
        ctx.seen("ratios")
    ctx.check(set(exp) <= set(s.index), "stats lack metrics", missing=sorted(set(exp) - set(s.index)))
    want = set(exp) | {"Sharpe Ratio", "Calmar Ratio", "Omega Ratio", "Sortino Ratio"}
    ctx.check(set(s.index) == want and len(s) == len(want), "unexpected metrics", got=list(s.index))
    for k, x in exp.items():
        if k in ("Start", "End"):
            ctx.check(s[k] == x, f"stats[{k}]")
            continue
        g = num(s[k])
        if k == "Calmar Ratio" and (np.isinf(x) or abs(x) > 1e12):
            continue
        if own_type is not None and k in own_type and not close_to(g, float(x)):
            if close_to(g, float(own_type[k])):
                ctx.known("stats-ignores-trades-type", f"stats[{k}] ignores trades_type={tt}")
                continue
        ctx.eq(g, float(x), f"stats[{k}] (settings {settings}, view {kw})", rtol=1e-7, atol=1e-7 if "Duration" not in k else 3e-5)
    if "trades_type" in v["kw"]:
        pass
    cnt = np.isin(tr.values["col"], members[j]).sum()
    ctx.eq(at(tr.count()), cnt, "trade count")
    ctx.seen("stats_tables")
    if any(len(m) > 1 for m in members):
        ctx.seen("stats_grouped")
    if incl_open:
        ctx.seen("stats_incl_open")
    if use_asset:
        ctx.seen("stats_asset_returns")
    # returns_stats reports the same returns
    rs = p.returns_stats(column=None if single else label, use_asset_returns=use_asset, settings=dict(silence_warnings=True), year_freq=yf, **kw)
    ctx.eq(num(rs["Total Return [%]"]), X.total(r) * 100, "returns_stats total return", rtol=1e-8, atol=1e-8)
    ctx.eq(num(rs["Benchmark Return [%]"]), X.total(b) * 100, "returns_stats benchmark return", rtol=1e-8, atol=1e-8)
    if np.isfinite(r).all():
        ctx.eq(num(rs["Annualized Return [%]"]), X.annualized(r, ann) * 100, "returns_stats annualized return", rtol=1e-7, atol=1e-7)
