"""P11: selecting columns/groups or regrouping commutes with analysing, and equals simulating the selection."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt import gen, pf
from vt.core import monitor, Skip, diff
from vt.gen import pick

GROUPED = [("cash_flow", {}), ("cash_flow", dict(free=True)), ("cash", {}), ("cash", dict(free=True)), ("asset_value", {}), ("asset_value", dict(direction="shortonly")),
           ("gross_exposure", {}), ("gross_exposure", dict(direction="longonly")), ("net_exposure", {}), ("value", {}), ("returns", {}), ("asset_returns", {}),
           ("benchmark_value", {}), ("benchmark_returns", {}), ("position_mask", {}), ("position_mask", dict(direction="longonly")), ("cumulative_returns", {}),
           ("drawdown", {})]
PLAIN = [("asset_flow", {}), ("asset_flow", dict(direction="longonly")), ("assets", {}), ("assets", dict(direction="shortonly"))]
RED = ["total_profit", "final_value", "total_return", "total_benchmark_return", "position_coverage", "max_drawdown", "sharpe_ratio", "annualized_return",
       "annualized_volatility", "calmar_ratio", "omega_ratio", "sortino_ratio", "value_at_risk"]
RECS = ["orders", "logs", "entry_trades", "exit_trades", "positions", "trades"]


def make(ctx, allow_group=True):
    rng = ctx.rng
    kind = pick(rng, ["orders", "orders", "signals", "func"])
    n, c = int(rng.integers(1, 11)), int(rng.integers(2, 8))
    extra = dict(fillna_close=bool(rng.random() < 0.7), trades_type=pick(rng, ["exittrades", "entrytrades", "positions"]))
    if kind == "func":
        r = pf.run_from_func(ctx, rng, min(n, 8), c, record=False, extra=extra)
    else:
        sharing = bool(rng.random() < 0.5)
        gl = None
        if sharing and rng.random() < 0.5 and c >= 4:
            gl = gen.group_lens(rng, c)
        if not sharing and allow_group and rng.random() < 0.6:
            extra["group_by"] = groups_named(rng, gen.group_lens(rng, c))
        r = (pf.run_from_orders if kind == "orders" else pf.run_from_signals)(ctx, rng, n, c, sharing=sharing, extra=extra, allow_series=False, **(dict(gl=gl) if gl else {}))
    if r is None:
        raise Skip()
    ctx.seen("from_" + kind)
    return kind, r[0], r[0]._vt


def groups_named(rng, gl):
    g = np.asarray(gen.groups_from_lens(gl))
    style = rng.integers(3)
    if style == 0:
        return g
    names = np.array(["z%d" % i if style == 1 else "%s" % "hgfedcba"[i % 8] for i in range(len(gl))], object)
    return pd.Index(names[g], name=pick(rng, [None, "grp"]))


def by_kwargs(rng, labels, how, k):
    """A random selection of `k` axis positions, as (function on an indexable, positions|int)."""
    m = len(labels)
    uniq = labels.is_unique
    style = pick(rng, ["iloc_int", "iloc_list", "iloc_slice", "iloc_mask", "getitem", "getitem_list", "loc", "loc_list", "loc_mask", "iloc_step"])
    if not uniq and style in ("getitem", "getitem_list", "loc", "loc_list"):
        style = "iloc_list"
    if isinstance(labels, pd.MultiIndex) and style in ("getitem_list", "loc_list"):
        style = "iloc_list"
    if isinstance(labels, pd.MultiIndex) and style in ("getitem", "loc"):
        style = "iloc_int"
    i = int(rng.integers(m))
    perm = [int(x) for x in rng.permutation(m)[:max(1, k)]]
    if rng.random() < 0.4:
        perm = sorted(perm)
    if style == "iloc_int":
        return style, (lambda o: o.iloc[i]), i
    if style == "iloc_list":
        return style, (lambda o: o.iloc[perm]), perm
    if style in ("iloc_slice", "iloc_step"):
        a, b = sorted(int(x) for x in rng.integers(0, m + 1, 2))
        if a == b:
            a, b = 0, m
        st = int(rng.integers(2, 4)) if style == "iloc_step" else 1
        return style, (lambda o: o.iloc[a:b:st]), list(range(m))[a:b:st]
    mask = np.zeros(m, bool)
    mask[perm] = True
    if style == "iloc_mask":
        return style, (lambda o: o.iloc[mask]), np.flatnonzero(mask).tolist()
    if style == "loc_mask":
        return style, (lambda o: o.loc[mask]), np.flatnonzero(mask).tolist()
    if style == "getitem":
        return style, (lambda o: o[labels[i]]), i
    if style == "loc":
        return style, (lambda o: o.loc[labels[i]]), i
    ls = [labels[x] for x in perm]
    if style == "getitem_list":
        return style, (lambda o: o[ls]), perm
    return style, (lambda o: o.loc[ls]), perm


def take(df, pos):
    """The same selection on a frame/series of results."""
    return df


def strip_ids(rec, cols):
    r = pf.strip(rec, cols)
    drop = [f for f in r.dtype.names if f not in ("parent_id",)]
    return r[drop]


def compare_sel(ctx, p, q, pos, v, w):
    """q = p restricted to units `pos` (int → series)."""
    n, c = v["close"].shape
    units = p.wrapper.grouper.get_groups() if False else None
    grp = np.asarray(p.wrapper.grouper.get_groups()) if p.wrapper.grouper.is_grouped() else np.arange(c)
    grp = np.asarray(grp)
    sel = [pos] if isinstance(pos, int) else list(pos)
    if p.wrapper.grouper.is_grouped():
        members = [np.flatnonzero(grp == g) for g in range(grp.max() + 1)]
    else:
        members = [np.array([k]) for k in range(c)]
    cols = np.concatenate([members[s] for s in sel])
    A = lambda x: np.asarray(x).reshape(n, -1)
    ctx.check(list(q.wrapper.columns) == [p.wrapper.columns[k] for k in cols], w + ": column labels", got=list(q.wrapper.columns))
    ctx.check(q.wrapper.index.equals(p.wrapper.index), w + ": index")
    gcols = p.wrapper.get_columns()
    ctx.check(list(q.wrapper.get_columns()) == [gcols[s] for s in sel], w + ": unit labels", got=list(q.wrapper.get_columns()), expected=[gcols[s] for s in sel])
    single = isinstance(pos, int)
    exact = dict(rtol=1e-12, atol=1e-12)
    ctx.eq(A(q.close), A(p.close)[:, cols], w + ": close", **exact)
    for name, kw in PLAIN:
        ctx.eq(A(getattr(q, name)(**kw)), A(getattr(p, name)(**kw))[:, cols], f"{w}: {name}({kw})", **exact)
    tol = dict(rtol=1e-9, atol=1e-9)
    auto = not (isinstance(p._init_cash, np.ndarray) or np.isscalar(p._init_cash)) or isinstance(p._init_cash, (int, np.integer)) and not isinstance(p._init_cash, bool) and p._init_cash in (0, 1)
    align = isinstance(p._init_cash, (int, np.integer)) and p._init_cash == 1
    for name, kw in GROUPED:
        if align and name in ("cash", "value", "returns", "gross_exposure", "net_exposure", "benchmark_value", "benchmark_returns", "cumulative_returns", "drawdown") and not kw.get("x"):
            if name != "benchmark_returns":
                continue
            continue
        full = getattr(p, name)(**kw)
        got = getattr(q, name)(**kw)
        want = A(full)[:, sel]
        ctx.eq(A(got), want, f"{w}: {name}({kw})", **tol)
        ctx.check((got.ndim == 1) == single, f"{w}: {name} ndim {got.ndim}")
        if single and full.ndim == 2:
            e = full.iloc[:, pos]
            ctx.check(got.name == e.name or (got.name is None and e.name == 0), f"{w}: {name} name {got.name!r} != {e.name!r}")
        elif full.ndim == 2:
            ctx.check(list(got.columns) == list(full.columns[sel]), f"{w}: {name} labels", got=list(got.columns))
    for name in RED:
        if align:
            continue
        full = np.asarray(getattr(p, name)(), float).reshape(-1)
        got = getattr(q, name)()
        ctx.check((np.ndim(got) == 0) == single, f"{w}: {name} ndim")
        ctx.eq(np.asarray(got, float).reshape(-1), full[sel], f"{w}: {name}", rtol=1e-7, atol=1e-9)
    if not align:
        ctx.eq(np.asarray(q.init_cash, float).reshape(-1), np.asarray(p.init_cash, float).reshape(-1)[sel], f"{w}: init cash", **tol)
    for name in RECS:
        a, b = getattr(q, name), getattr(p, name)
        pf.exact(ctx, strip_ids(a.values, None), strip_ids(b.values, cols), f"{w}: {name}")
        ctx.eq(np.asarray(a.count()).reshape(-1), np.asarray(b.count()).reshape(-1)[sel], f"{w}: {name} count")
        # selecting the records themselves gives the same set
    T, U = q.trades, p.trades
    for m in ("win_rate", "profit_factor", "expectancy", "sqn"):
        ctx.eq(np.asarray(getattr(T, m)(), float).reshape(-1), np.asarray(getattr(U, m)(), float).reshape(-1)[sel], f"{w}: trades.{m}", rtol=1e-7, atol=1e-9)
    for m in ("pnl", "fees" if hasattr(T, "fees") else "pnl", "returns"):
        ctx.eq(np.asarray(getattr(T, m).sum(), float).reshape(-1), np.asarray(getattr(U, m).sum(), float).reshape(-1)[sel], f"{w}: trades.{m}.sum", rtol=1e-9, atol=1e-9)
    if not align:
        a, b = q.drawdowns, p.drawdowns
        pf.exact(ctx, strip_ids(a.values, None), strip_ids(b.values, np.asarray(sel)), f"{w}: drawdowns") if not ctx.state.get("_loose") else None
    if p._call_seq is not None:
        ctx.eq(np.asarray(q.call_seq).reshape(n, -1), np.asarray(p.call_seq).reshape(n, -1)[:, cols], f"{w}: call sequence")
    if p.cash_sharing and p._call_seq is not None and not align and len(cols) > 1:
        for m in ("cash", "value", "returns"):
            ctx.eq(A(getattr(q, m)(group_by=False, in_sim_order=True)), A(getattr(p, m)(group_by=False, in_sim_order=True))[:, cols], f"{w}: {m} in simulation order", **tol)
        ctx.seen("sim_order")
    for name in ("cash_sharing", "fillna_close", "trades_type"):
        ctx.check(getattr(q, name) == getattr(p, name), f"{w}: {name}")
    ctx.seen("selections")
    ctx.seen("cells", n * len(cols))
    if any(len(members[s]) > 1 for s in sel):
        ctx.seen("selected_groups")
    if len(sel) >= 3 and len({len(members[s]) for s in sel}) > 1:
        ctx.seen("uneven_groups")
    if single:
        ctx.seen("single")
    if align:
        ctx.seen("align")
    if len(p.order_records):
        ctx.nontrivial(w, len(p.order_records), cols.tolist(), n)
    return cols, sel


def apply(ctx, f, p):
    return f(p)


@monitor(weight=3)
def m_select(ctx):
    rng = ctx.rng
    kind, p, v = make(ctx)
    units = p.wrapper.get_columns()
    if p.wrapper.ndim == 1 or p.wrapper.get_ndim() == 1:
        raise Skip()
    if v["sharing"] or p.wrapper.grouper.is_grouped():
        ctx.seen("grouped_portfolios")
    how, f, pos = by_kwargs(rng, units, None, int(rng.integers(1, len(units) + 1)))
    q = f(p)
    w = f"{kind} {how} {pos} of {len(units)}"
    cols, sel = compare_sel(ctx, p, q, pos, v, w)
    ctx.sample(select=how, pos=pos, units=len(units), orders=len(p.order_records))
    # a second selection on top of the selection
    if not isinstance(pos, int) and len(pos) >= 2 and q.wrapper.get_ndim() == 2:
        how2, f2, pos2 = by_kwargs(rng, q.wrapper.get_columns(), None, int(rng.integers(1, len(pos) + 1)))
        r2 = f2(q)
        v2 = dict(v, close=v["close"][:, cols])
        compare_sel(ctx, q, r2, pos2, v2, w + f" then {how2} {pos2}")
        ctx.seen("nested")
    # summary statistics of the selection
    single = isinstance(pos, int)
    if single and units.is_unique:
        with np.errstate(all="ignore"):
            a = p.stats(column=units[pos], silence_warnings=True)
            b = q.stats(silence_warnings=True)
        ctx.check(list(a.index) == list(b.index), w + ": stats metrics", got=list(b.index), expected=list(a.index))
        align = isinstance(p._init_cash, (int, np.integer)) and p._init_cash == 1
        for k in a.index:
            if align and k in ("Start Value", "End Value", "Total Return [%]", "Max Drawdown [%]", "Max Drawdown Duration", "Sharpe Ratio", "Calmar Ratio", "Omega Ratio", "Sortino Ratio", "Max Gross Exposure [%]", "Benchmark Return [%]"):
                continue
            x, y = a[k], b[k]
            if isinstance(x, (pd.Timestamp, pd.Timedelta)) or x is pd.NaT:
                ctx.check((x is pd.NaT and y is pd.NaT) or abs(pd.Timedelta(x - y)) <= pd.Timedelta("2s") if not isinstance(x, float) else True, f"{w}: stats[{k}] {x} != {y}")
            else:
                ctx.eq(float(y) if np.isscalar(y) else y, float(x) if np.isscalar(x) else x, f"{w}: stats[{k}]", rtol=1e-7, atol=1e-8)
        ctx.seen("stats_tables")


@monitor(weight=1.5)
def m_resim(ctx):
    """The selection equals simulating the selected columns with their own arguments."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(2, 7))
    kind = pick(rng, ["orders", "signals"])
    sharing = bool(rng.random() < 0.5)
    r = (pf.run_from_orders if kind == "orders" else pf.run_from_signals)(ctx, rng, n, c, sharing=sharing, allow_series=False)
    if r is None:
        raise Skip()
    p, v = r[0], r[0]._vt
    gl = v["gl"]
    G = len(gl)
    start = np.cumsum([0] + list(gl))
    if p.wrapper.get_ndim() == 1:
        raise Skip()
    groups = [int(x) for x in rng.permutation(G)[:int(rng.integers(1, G + 1))]]
    cols = np.concatenate([np.arange(start[g], start[g + 1]) for g in groups])
    q = p.iloc[groups]
    init = v["kw"]["init_cash"]
    if not np.isscalar(init):
        init = np.asarray(init)[groups]
    s = pf.resim(kind, v, cols=cols, gl=[gl[g] for g in groups], init=init)
    w = f"{kind} groups {groups} (columns {cols.tolist()})"
    A = lambda x: np.asarray(x).reshape(n, -1)
    R = lambda x: np.asarray(x, float).reshape(-1)
    pf.exact(ctx, pf.strip(q.order_records), pf.strip(s.order_records), w + ": orders")
    for name in ("assets", "asset_flow", "cash_flow", "cash", "value", "returns", "asset_value", "gross_exposure", "benchmark_returns"):
        ctx.eq(A(getattr(q, name)()), A(getattr(s, name)()), f"{w}: {name}", rtol=1e-9, atol=1e-9)
    for name in ("init_cash",):
        ctx.eq(R(q.init_cash), R(s.init_cash), f"{w}: init cash", rtol=1e-9, atol=1e-9)
    for name in RED:
        ctx.eq(R(getattr(q, name)()), R(getattr(s, name)()), f"{w}: {name}", rtol=1e-7, atol=1e-8)
    for name in ("entry_trades", "exit_trades", "positions"):
        pf.exact(ctx, strip_ids(getattr(q, name).values, None), strip_ids(getattr(s, name).values, None), f"{w}: {name}")
    ctx.seen("resimulated")
    if sharing and max(gl) > 1:
        ctx.seen("resimulated_sharing")
    if len(p.order_records):
        ctx.nontrivial(w, len(p.order_records))


@monitor(weight=1.5)
def m_regroup(ctx):
    """Enabling, changing, disabling grouping: regroup() ≡ group_by= ≡ grouping at simulation."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(2, 8))
    kind = pick(rng, ["orders", "signals"])
    first = groups_named(rng, gen.group_lens(rng, c)) if rng.random() < 0.6 else None
    extra = dict(fillna_close=bool(rng.random() < 0.7), trades_type=pick(rng, ["exittrades", "entrytrades", "positions"]))
    if first is not None:
        extra["group_by"] = first
    r = (pf.run_from_orders if kind == "orders" else pf.run_from_signals)(ctx, rng, n, c, sharing=False, extra=extra)
    if r is None:
        raise Skip()
    p, v = r[0], r[0]._vt
    to = pick(rng, ["change", "change", "all", "off"])
    g = {"change": groups_named(rng, gen.group_lens(rng, c)), "all": True, "off": False}[to]
    q = p.regroup(g)
    w = f"{kind} regroup {to} {list(g) if to == 'change' else ''} from {None if first is None else list(first)}"
    A = lambda x: np.asarray(x).reshape(n, -1)
    R = lambda x: np.asarray(x, float).reshape(-1)
    gg = np.asarray(g) if to == "change" else (np.zeros(c, int) if to == "all" else np.arange(c))
    order = list(dict.fromkeys(list(gg)))
    members = [np.flatnonzero(gg == x) for x in order]
    for name, kw in GROUPED + PLAIN:
        a = getattr(q, name)(**kw)
        if (name, kw) not in PLAIN:
            b = getattr(p, name)(group_by=g, **kw)
        else:
            b = getattr(p, name)(**kw)
        ctx.eq(a, b, f"{w}: {name}({kw})", rtol=1e-12, atol=1e-12)
    for name in RED:
        a, b = getattr(q, name)(), getattr(p, name)(group_by=g)
        ctx.eq(R(a), R(b), f"{w}: {name}", rtol=1e-12, atol=1e-12)
    # money metrics of the regrouped portfolio are sums over members
    for name in ("cash", "cash_flow", "asset_value", "value"):
        full = A(getattr(p, name)(group_by=False))
        e = np.column_stack([full[:, m].sum(1) for m in members])
        ctx.eq(A(getattr(q, name)()), e, f"{w}: {name} sums members", rtol=1e-9, atol=1e-7)
    for name in ("total_profit", "final_value"):
        full = R(getattr(p, name)(group_by=False))
        ctx.eq(R(getattr(q, name)()), [full[m].sum() for m in members], f"{w}: {name} sums members", rtol=1e-9, atol=1e-7)
    for name in RECS:
        a, b = getattr(q, name), getattr(p, name)
        pf.exact(ctx, a.values, b.values, f"{w}: {name}")
        cnt = np.bincount(b.values["col"], minlength=c)
        ctx.eq(R(a.count()), [cnt[m].sum() for m in members], f"{w}: {name} count")
        ctx.eq(R(a.count()), R(getattr(p, "get_" + name)(group_by=g).count()), f"{w}: get_{name}(group_by)")
    pf.exact(ctx, q.drawdowns.values, p.get_drawdowns(group_by=g).values, f"{w}: drawdowns")
    # same as simulating with this grouping from the start
    if to != "off":
        ctx.check(q.wrapper.grouper.is_grouped(), w)
    else:
        ctx.check(not q.wrapper.grouper.is_grouped(), w + ": grouping is not disabled")
    if to == "change":
        kw = dict(v["kw"])
        kw["group_by"] = g
        f = vbt.Portfolio.from_orders if kind == "orders" else vbt.Portfolio.from_signals
    # round trip
    back = q.regroup(first if first is not None else False)
    for name in ("value", "returns", "cash", "asset_value"):
        ctx.eq(A(getattr(back, name)()), A(getattr(p, name)()), f"{w}: {name} after regrouping back", rtol=1e-12, atol=1e-12)
    # select on top of regrouping
    if q.wrapper.get_ndim() == 2:
        how, f, pos = by_kwargs(rng, q.wrapper.get_columns(), None, int(rng.integers(1, len(q.wrapper.get_columns()) + 1)))
        compare_sel(ctx, q, f(q), pos, v, w + f" then {how} {pos}")
    # the original is untouched
    ctx.eq(A(p.value(group_by=False)), A(r[0].value(group_by=False)), w)
    ctx.check(p.wrapper.grouper.is_grouped() == (first is not None), w + ": regroup changed the original")
    ctx.seen("regrouped_" + to)
    ctx.nontrivial(w, len(p.order_records))


@monitor(weight=0.5)
def m_sharing_fixed(ctx):
    """Grouping of cash-sharing portfolios can't be changed in a way that breaks sharing."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 6)), int(rng.integers(2, 6))
    r = pf.run_from_orders(ctx, rng, n, c, sharing=True)
    if r is None:
        raise Skip()
    p, v = r[0], r[0]._vt
    grp = np.asarray(p.wrapper.grouper.get_groups())
    other = None
    for _ in range(10):
        h = np.asarray(gen.groups_from_lens(gen.group_lens(rng, c)))
        if list(h) != list(grp):
            other = h
            break
    if other is None:
        raise Skip()
    ctx.raises(ValueError, lambda: p.regroup(other), msg=f"regrouping a cash-sharing portfolio from {grp.tolist()} to {other.tolist()}")
    for name in ("value", "cash", "returns", "asset_value", "total_profit"):
        ctx.raises(ValueError, lambda: getattr(p, name)(group_by=other), msg=f"{name} with another grouping of a cash-sharing portfolio")
    # disabling grouping for a metric is allowed only where it can be attributed
    if max(v["gl"]) > 1:
        ctx.raises(ValueError, lambda: p.regroup(False), msg="disabling grouping of a cash-sharing portfolio")
    a = np.asarray(p.cash_flow(group_by=False)).reshape(n, -1)
    start = np.cumsum([0] + list(v["gl"]))
    e = np.column_stack([a[:, start[g]:start[g + 1]].sum(1) for g in range(len(v["gl"]))])
    ctx.eq(np.asarray(p.cash_flow()).reshape(n, -1), e, "group cash flow = sum of members", rtol=1e-9, atol=1e-8)
    ctx.seen("sharing_guards")


@monitor(weight=0.3)
def m_ungrouped_duplicates(ctx):
    """Selecting a column twice yields two equal columns."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 8)), int(rng.integers(2, 5))
    r = pf.run_from_orders(ctx, rng, n, c, sharing=False)
    if r is None:
        raise Skip()
    p = r[0]
    pos = [int(x) for x in rng.integers(0, c, int(rng.integers(2, 6)))]
    q = p.iloc[pos]
    A = lambda x: np.asarray(x).reshape(n, -1)
    for name in ("assets", "cash_flow", "asset_value"):
        ctx.eq(A(getattr(q, name)()), A(getattr(p, name)())[:, pos], f"{name} of selection {pos}", rtol=1e-12, atol=1e-12)
    cnt = np.asarray(p.orders.count()).reshape(-1)
    ctx.eq(np.asarray(q.orders.count()).reshape(-1), cnt[pos], f"order count of selection {pos}")
    pf.exact(ctx, pf.strip(q.order_records), np.concatenate([_renum(p.order_records, s, k) for k, s in enumerate(pos)])[[f for f in pf.strip(q.order_records).dtype.names]], "orders of a repeated selection")
    ctx.seen("duplicates")


def _renum(rec, col, new):
    r = rec[rec["col"] == col].copy()
    r["col"] = new
    r["id"] = 0
    return r
