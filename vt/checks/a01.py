"""A01: statistics tables report exactly the metric of the selected column or group.

Every table is recomputed by an own description of what each row stands for (public methods called directly on the
object, on its groups and on the objects of its single columns), and the builder itself is driven with custom metrics
whose calculation functions record what they were handed."""

import warnings
from collections import Counter

import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.utils.config import merge_dicts
from vectorbt.utils.template import RepEval, RepFunc, Rep, Sub

from vt.core import Skip, monitor

from vt.checks.d02 import Feed


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


# --------------------------------------------------------------------------------------------- objects

MULTI = pd.MultiIndex.from_tuples([("x", "a"), ("x", "b"), ("y", "a"), ("y", "b")], names=["g", "s"])


def columns(rng, c):
    k = rng.random()
    if k < 0.5:
        return pd.Index(list("abcdef")[:c])
    if k < 0.7:
        return pd.Index([10, 20, 30, 40, 50][:c], name="n")
    if k < 0.85:
        return MULTI[:c]
    return pd.Index([0, 1, 2, 3, 4][:c])


def frame(rng, c=None, n=None, lo=False):
    c = int(rng.integers(1, 5)) if c is None else c
    n = int(rng.integers(4, 14)) if n is None else n
    kind = rng.random()
    if kind < 0.75:
        index = pd.date_range("2020-01-01", periods=n, freq=pick(rng, ["D", "D", "h"]))
    else:
        index = pd.RangeIndex(n)
    a = np.round(np.exp(np.cumsum(rng.normal(0, 0.1, (n, c)), axis=0)) * 10, 2)
    return pd.DataFrame(a, index=index, columns=columns(rng, c))


def groups(rng, df):
    c = df.shape[1]
    k = rng.random()
    if k < 0.5 or c == 1:
        return None
    if k < 0.6:
        return True
    if isinstance(df.columns, pd.MultiIndex) and k < 0.75:
        return pick(rng, ["g", 0])
    return np.sort(rng.integers(0, 3, c)) + 5


def freq_for(rng, df):
    if isinstance(df.index, pd.DatetimeIndex):
        return pick(rng, [None, None, "1D", "2h"])
    return pick(rng, [None, "1D", "3h"])


def boolean(rng, df, p=0.4):
    return pd.DataFrame(rng.random(df.shape) < p, index=df.index, columns=df.columns)


def mk_pf(rng):
    df = frame(rng)
    g = groups(rng, df)
    kw = dict(fees=0.001, freq=freq_for(rng, df), init_cash=pick(rng, [100.0, 50.0]), group_by=g, log=True)
    if g is not None and rng.random() < 0.4:
        kw["cash_sharing"] = True
    if rng.random() < 0.5:
        return vbt.Portfolio.from_signals(df, boolean(rng, df), boolean(rng, df), **kw)
    kw["init_cash"] = pick(rng, [100.0, 50.0, "auto"])
    size = np.where(rng.random(df.shape) < 0.5, np.round(rng.normal(0, 2, df.shape), 1), np.nan)
    return vbt.Portfolio.from_orders(df, size, **kw)


def mk_trades(rng):
    return getattr(mk_pf(rng), pick(rng, ["trades", "entry_trades", "exit_trades", "positions"]))


def mk_orders(rng):
    return mk_pf(rng).orders


def mk_logs(rng):
    return mk_pf(rng).logs


def mk_dd(rng):
    if rng.random() < 0.5:
        return mk_pf(rng).drawdowns
    df = frame(rng)
    return df.vbt(freq=freq_for(rng, df)).get_drawdowns(group_by=groups(rng, df))


def mk_ranges(rng):
    df = frame(rng)
    acc = boolean(rng, df).vbt(freq=freq_for(rng, df)).signals
    g = groups(rng, df)
    return pick(rng, [acc.between_ranges, acc.partition_ranges, acc.between_partition_ranges])(group_by=g)


def mk_records(rng):
    o = mk_orders(rng)
    return vbt.Records(o.wrapper, o.values)


def mk_mapped(rng):
    o = pick(rng, [mk_trades, mk_orders, mk_dd])(rng)
    f = pick(rng, [x for x in ("pnl", "price", "size", "start_val", "fees", "entry_price", "valley_val") if x in o.values.dtype.names])
    m = o.map_field(f)
    if rng.random() < 0.4:
        enum = {0: "zero", 1: "one", 2: "two", 3: "three"}
        fs = [x for x in ("side", "status", "direction") if x in o.values.dtype.names]
        if fs:
            m = o.map_field(fs[0], mapping=enum)
    return m


def mk_generic(rng):
    df = frame(rng)
    kw = dict(freq=freq_for(rng, df))
    if rng.random() < 0.4:
        df = pd.DataFrame(rng.integers(0, 3, df.shape).astype(pick(rng, [float, int])), index=df.index, columns=df.columns)
        kw["mapping"] = {0: "zero", 1: "one", 2: "two"}
    elif rng.random() < 0.3:
        df = df.mask(rng.random(df.shape) < 0.2)
    o = df.vbt(**kw)
    if rng.random() < 0.4:
        o = o.regroup(groups(rng, df))
    return o


def mk_signals(rng):
    df = frame(rng)
    o = boolean(rng, df).vbt(freq=freq_for(rng, df)).signals
    if rng.random() < 0.4:
        o = o.regroup(groups(rng, df))
    return o


def mk_returns(rng):
    df = frame(rng)
    r = df.pct_change()
    bench = None
    if rng.random() < 0.5:
        bench = pd.DataFrame(rng.normal(0, 0.05, r.shape), index=r.index, columns=r.columns)
    return r.vbt.returns(freq=freq_for(rng, df), benchmark_rets=bench, year_freq=pick(rng, [None, "365 days", "252 days"]),
                         defaults=pick(rng, [None, dict(risk_free=0.001)]))


def mk_data(rng):
    syms = ["a", "b", "c"][:int(rng.integers(1, 4))]
    dfs = {}
    idx = pd.date_range("2020-01-01", periods=int(rng.integers(3, 9)))
    feats = pick(rng, [["Open", "Close"], ["x"], ["x", "y", "z"]])
    for s in syms:
        f = pd.DataFrame(rng.normal(0, 1, (len(idx), len(feats))), index=idx.tz_localize("UTC"), columns=feats)
        dfs[s] = f.mask(rng.random(f.shape) < 0.3)
    return vbt.Data.from_data(dfs, missing_index="nan", missing_columns="nan")


Factory = vbt.IndicatorFactory(
    class_name="Mini", input_names=["ts"], param_names=["k"], output_names=["hi", "lo"],
    metrics=dict(top=dict(title="Top", calc_func="hi.vbt.max", tags="hi"), bot=dict(title="Bot", calc_func=lambda self, group_by: self.lo.vbt.min(group_by=group_by), tags=["lo", "hi"]),
                 both=dict(title="Both", calc_func=lambda self, group_by: {"a": self.hi.vbt.max(group_by=group_by), "b": self.lo.vbt.min(group_by=group_by)})),
    stats_defaults=dict(settings=dict(foo=1)),
).from_apply_func(lambda ts, k: (ts + k, ts - k))


def mk_indicator(rng):
    return Factory.run(frame(rng), k=pick(rng, [1, [1, 2]]))


KINDS = dict(pf=mk_pf, trades=mk_trades, orders=mk_orders, logs=mk_logs, dd=mk_dd, ranges=mk_ranges, records=mk_records, mapped=mk_mapped,
             generic=mk_generic, signals=mk_signals, returns=mk_returns, data=mk_data, indicator=mk_indicator)


# ------------------------------------------------------------------------------ own description of the tables


class Row:
    def __init__(self, title, f, tags, agg=True, td=False, need=None, warn=False):
        self.title, self.f, self.tags, self.agg, self.td, self.need = title, f, tags, agg, td, need


def tl(x):
    return [x] if isinstance(x, str) else list(x)


def span(o, v):
    """Durations counted in bars, as multiples of the frequency."""
    fq = o.wrapper.freq
    if isinstance(v, pd.Series):
        return v.astype(float) * fq
    return float(v) * fq if not pd.isna(v) else pd.NaT


def dur(o, v, s):
    return span(o, v) if s["td"] else v


def wrapper_rows():
    return dict(
        start=Row("Start", lambda o, s: o.wrapper.index[0], "wrapper", agg=False),
        end=Row("End", lambda o, s: o.wrapper.index[-1], "wrapper", agg=False),
        period=Row("Period", lambda o, s: dur(o, len(o.wrapper.index), s), "wrapper", agg=False),
    )


def raw(s):
    return dict(wrap_kwargs=dict(to_timedelta=False))


def nth(m, n, g):
    """n-th value of each column or group of a mapped array as index labels, from its records."""
    cols = m.wrapper.regroup(g).get_columns() if m.wrapper.regroup(g).get_ndim() != 1 else None
    gid = m.wrapper.regroup(g).grouper.get_groups() if m.wrapper.grouper.is_grouped(group_by=g) else np.arange(m.wrapper.shape_2d[1])
    k = len(np.unique(gid)) if len(gid) else 0
    out = []
    for j in range(k):
        v = [m.values[i] for i in range(len(m.values)) if gid[m.col_arr[i]] == j]
        try:
            out.append(m.wrapper.index[int(v[n])])
        except IndexError:
            out.append(None)
    return out


def table(kind, o, s):
    """Rows of the table of `o`; `s` holds the settings in effect."""
    g = s["group_by"]
    R = wrapper_rows()
    G = dict(group_by=g)
    if kind == "pf":
        del_tags = ["open", "closed"] if s["incl_open"] else ["closed"]
        tr = lambda o: o.get_trades(**G)
        ti = lambda o: tr(o) if s["incl_open"] else tr(o).closed
        ra = lambda o: (o.get_returns_acc(**G, year_freq=s["year_freq"], freq=None) if not s["use_asset_returns"]
                        else o.get_returns_acc(**G, year_freq=s["year_freq"], use_asset_returns=True))
        rk = dict(risk_free=s["risk_free"]) if "risk_free" in s else {}
        rr = dict(required_return=s["required_return"]) if "required_return" in s else {}
        fy = lambda o: o.wrapper.freq is not None and s["year_freq"] is not None
        R.update(
            start_value=Row("Start Value", lambda o, s: o.get_init_cash(**G), "portfolio"),
            end_value=Row("End Value", lambda o, s: o.final_value(**G), "portfolio"),
            total_return=Row("Total Return [%]", lambda o, s: o.total_return(**G) * 100, "portfolio"),
            benchmark_return=Row("Benchmark Return [%]", lambda o, s: ((1 + o.benchmark_returns(**G)).prod() - 1) * 100, "portfolio"),
            max_gross_exposure=Row("Max Gross Exposure [%]", lambda o, s: o.gross_exposure(**G).max() * 100, "portfolio"),
            total_fees_paid=Row("Total Fees Paid", lambda o, s: o.orders.fees.sum(**G), ["portfolio", "orders"]),
            max_dd=Row("Max Drawdown [%]", lambda o, s: -o.get_drawdowns(**G).max_drawdown() * 100, ["portfolio", "drawdowns"]),
            max_dd_duration=Row("Max Drawdown Duration", lambda o, s: dur(o, o.get_drawdowns(**G).max_duration(**raw(s)), s), ["portfolio", "drawdowns", "duration"]),
            total_trades=Row("Total Trades", lambda o, s: tr(o).count(), ["portfolio", "trades"]),
            total_closed_trades=Row("Total Closed Trades", lambda o, s: tr(o).closed.count(), ["portfolio", "trades", "closed"]),
            total_open_trades=Row("Total Open Trades", lambda o, s: tr(o).open.count(), ["portfolio", "trades", "open"]),
            open_trade_pnl=Row("Open Trade PnL", lambda o, s: tr(o).open.pnl.sum(), ["portfolio", "trades", "open"]),
            win_rate=Row("Win Rate [%]", lambda o, s: ti(o).win_rate() * 100, ["portfolio", "trades"] + del_tags),
            best_trade=Row("Best Trade [%]", lambda o, s: ti(o).returns.max() * 100, ["portfolio", "trades"] + del_tags),
            worst_trade=Row("Worst Trade [%]", lambda o, s: ti(o).returns.min() * 100, ["portfolio", "trades"] + del_tags),
            avg_winning_trade=Row("Avg Winning Trade [%]", lambda o, s: ti(o).winning.returns.mean() * 100, ["portfolio", "trades", "winning"] + del_tags),
            avg_losing_trade=Row("Avg Losing Trade [%]", lambda o, s: ti(o).losing.returns.mean() * 100, ["portfolio", "trades", "losing"] + del_tags),
            avg_winning_trade_duration=Row("Avg Winning Trade Duration", lambda o, s: dur(o, ti(o).winning.duration.mean(), s), ["portfolio", "trades", "winning", "duration"] + del_tags),
            avg_losing_trade_duration=Row("Avg Losing Trade Duration", lambda o, s: dur(o, ti(o).losing.duration.mean(), s), ["portfolio", "trades", "losing", "duration"] + del_tags),
            profit_factor=Row("Profit Factor", lambda o, s: ti(o).profit_factor(), ["portfolio", "trades"] + del_tags),
            expectancy=Row("Expectancy", lambda o, s: ti(o).expectancy(), ["portfolio", "trades"] + del_tags),
            sharpe_ratio=Row("Sharpe Ratio", lambda o, s: ra(o).sharpe_ratio(**rk), ["portfolio", "returns"], need=fy),
            calmar_ratio=Row("Calmar Ratio", lambda o, s: ra(o).calmar_ratio(), ["portfolio", "returns"], need=fy),
            omega_ratio=Row("Omega Ratio", lambda o, s: ra(o).omega_ratio(**rk, **rr), ["portfolio", "returns"], need=fy),
            sortino_ratio=Row("Sortino Ratio", lambda o, s: ra(o).sortino_ratio(**rr), ["portfolio", "returns"], need=fy),
        )
    elif kind == "trades":
        dt = ["open", "closed"] if s["incl_open"] else ["closed"]
        c = (lambda o: o) if s["incl_open"] else (lambda o: o.closed)
        R.update(
            first_trade_start=Row("First Trade Start", lambda o, s: o.entry_idx.nth(0, **G, wrap_kwargs=dict(to_index=True)), ["trades", "index"]),
            last_trade_end=Row("Last Trade End", lambda o, s: o.exit_idx.nth(-1, **G, wrap_kwargs=dict(to_index=True)), ["trades", "index"]),
            coverage=Row("Coverage", lambda o, s: dur(o, o.coverage(overlapping=False, normalize=False, **G), s), ["ranges", "coverage"]),
            overlap_coverage=Row("Overlap Coverage", lambda o, s: dur(o, o.coverage(overlapping=True, normalize=False, **G), s), ["ranges", "coverage"]),
            total_records=Row("Total Records", lambda o, s: o.count(**G), "records"),
            total_long_trades=Row("Total Long Trades", lambda o, s: o.long.count(**G), ["trades", "long"]),
            total_short_trades=Row("Total Short Trades", lambda o, s: o.short.count(**G), ["trades", "short"]),
            total_closed_trades=Row("Total Closed Trades", lambda o, s: o.closed.count(**G), ["trades", "closed"]),
            total_open_trades=Row("Total Open Trades", lambda o, s: o.open.count(**G), ["trades", "open"]),
            open_trade_pnl=Row("Open Trade PnL", lambda o, s: o.open.pnl.sum(**G), ["trades", "open"]),
            win_rate=Row("Win Rate [%]", lambda o, s: o.closed.win_rate(**G) * 100, ["trades"] + dt),
            winning_streak=Row("Max Win Streak", lambda o, s: c(o).winning_streak.max(**G, wrap_kwargs=dict(dtype=pd.Int64Dtype())), ["trades", "streak"] + dt),
            losing_streak=Row("Max Loss Streak", lambda o, s: c(o).losing_streak.max(**G, wrap_kwargs=dict(dtype=pd.Int64Dtype())), ["trades", "streak"] + dt),
            best_trade=Row("Best Trade [%]", lambda o, s: c(o).returns.max(**G) * 100, ["trades"] + dt),
            worst_trade=Row("Worst Trade [%]", lambda o, s: c(o).returns.min(**G) * 100, ["trades"] + dt),
            avg_winning_trade=Row("Avg Winning Trade [%]", lambda o, s: c(o).winning.returns.mean(**G) * 100, ["trades", "winning"] + dt),
            avg_losing_trade=Row("Avg Losing Trade [%]", lambda o, s: c(o).losing.returns.mean(**G) * 100, ["trades", "losing"] + dt),
            avg_winning_trade_duration=Row("Avg Winning Trade Duration", lambda o, s: dur(o, c(o).winning.avg_duration(**G, **raw(s)), s), ["trades", "winning", "duration"] + dt),
            avg_losing_trade_duration=Row("Avg Losing Trade Duration", lambda o, s: dur(o, c(o).losing.avg_duration(**G, **raw(s)), s), ["trades", "losing", "duration"] + dt),
            profit_factor=Row("Profit Factor", lambda o, s: c(o).profit_factor(**G), ["trades"] + dt),
            expectancy=Row("Expectancy", lambda o, s: c(o).expectancy(**G), ["trades"] + dt),
            sqn=Row("SQN", lambda o, s: c(o).sqn(**G), ["trades"] + dt),
        )
    elif kind == "orders":
        R.update(
            total_records=Row("Total Records", lambda o, s: o.count(**G), "records"),
            total_buy_orders=Row("Total Buy Orders", lambda o, s: o.buy.count(**G), ["orders", "buy"]),
            total_sell_orders=Row("Total Sell Orders", lambda o, s: o.sell.count(**G), ["orders", "sell"]),
            min_size=Row("Min Size", lambda o, s: o.size.min(**G), ["orders", "size"]),
            max_size=Row("Max Size", lambda o, s: o.size.max(**G), ["orders", "size"]),
            avg_size=Row("Avg Size", lambda o, s: o.size.mean(**G), ["orders", "size"]),
            avg_buy_size=Row("Avg Buy Size", lambda o, s: o.buy.size.mean(**G), ["orders", "buy", "size"]),
            avg_sell_size=Row("Avg Sell Size", lambda o, s: o.sell.size.mean(**G), ["orders", "sell", "size"]),
            avg_buy_price=Row("Avg Buy Price", lambda o, s: o.buy.price.mean(**G), ["orders", "buy", "price"]),
            avg_sell_price=Row("Avg Sell Price", lambda o, s: o.sell.price.mean(**G), ["orders", "sell", "price"]),
            total_fees=Row("Total Fees", lambda o, s: o.fees.sum(**G), ["orders", "fees"]),
            min_fees=Row("Min Fees", lambda o, s: o.fees.min(**G), ["orders", "fees"]),
            max_fees=Row("Max Fees", lambda o, s: o.fees.max(**G), ["orders", "fees"]),
            avg_fees=Row("Avg Fees", lambda o, s: o.fees.mean(**G), ["orders", "fees"]),
            avg_buy_fees=Row("Avg Buy Fees", lambda o, s: o.buy.fees.mean(**G), ["orders", "buy", "fees"]),
            avg_sell_fees=Row("Avg Sell Fees", lambda o, s: o.sell.fees.mean(**G), ["orders", "sell", "fees"]),
        )
    elif kind == "logs":
        def counts(o, field, enum, every):
            m = o.regroup(g)
            vals = m.map_field(field)
            w = m.wrapper
            gid = w.grouper.get_groups() if w.grouper.is_grouped() else np.arange(w.shape_2d[1])
            k = len(set(gid))
            names = list(enum._fields)
            code = {-1: "None", **{int(getattr(enum, f)): f for f in names}}
            present = sorted(set(int(x) for x in vals.values))
            keys = sorted(code) if every else present
            out = {}
            for c in keys:
                v = np.array([np.sum([(int(x) == c) and gid[cc] == j for x, cc in zip(vals.values, vals.col_arr)]) for j in range(k)])
                name = code[c] if c in code else None
                out[str(name)] = v[0] if w.get_ndim() == 1 else pd.Series(v, index=w.get_columns())
            return out
        from vectorbt.portfolio.enums import OrderStatus, OrderStatusInfo
        R.update(
            total_records=Row("Total Records", lambda o, s: o.count(**G), "records"),
            res_status_counts=Row("Status Counts", lambda o, s: counts(o, "res_status", OrderStatus, True), ["logs", "res_status", "value_counts"]),
            res_status_info_counts=Row("Status Info Counts", lambda o, s: counts(o, "res_status_info", OrderStatusInfo, False), ["logs", "res_status_info", "value_counts"]),
        )
    elif kind == "dd":
        ng = not o.wrapper.grouper.is_grouped(group_by=g)
        nn = lambda o: ng
        ia = (lambda o: o) if s["incl_active"] else (lambda o: o.recovered)
        at = [] if s["incl_active"] else ["recovered"]
        R.update(
            coverage=Row("Coverage [%]", lambda o, s: o.coverage(**G) * 100, ["ranges", "duration"]),
            total_records=Row("Total Records", lambda o, s: o.count(**G), "records"),
            total_recovered=Row("Total Recovered Drawdowns", lambda o, s: o.recovered.count(**G), "drawdowns"),
            total_active=Row("Total Active Drawdowns", lambda o, s: o.active.count(**G), "drawdowns"),
            active_dd=Row("Active Drawdown [%]", lambda o, s: -o.active_drawdown(**G) * 100, ["drawdowns", "active"], need=nn),
            active_duration=Row("Active Duration", lambda o, s: dur(o, o.active_duration(**G, **raw(s)), s), ["drawdowns", "active", "duration"], need=nn),
            active_recovery=Row("Active Recovery [%]", lambda o, s: o.active_recovery(**G) * 100, ["drawdowns", "active"], need=nn),
            active_recovery_return=Row("Active Recovery Return [%]", lambda o, s: o.active_recovery_return(**G) * 100, ["drawdowns", "active"], need=nn),
            active_recovery_duration=Row("Active Recovery Duration", lambda o, s: dur(o, o.active_recovery_duration(**G, **raw(s)), s), ["drawdowns", "active", "duration"], need=nn),
            max_dd=Row("Max Drawdown [%]", lambda o, s: -ia(o).drawdown.min(**G) * 100, ["drawdowns"] + at),
            avg_dd=Row("Avg Drawdown [%]", lambda o, s: -ia(o).drawdown.mean(**G) * 100, ["drawdowns"] + at),
            max_dd_duration=Row("Max Drawdown Duration", lambda o, s: dur(o, ia(o).duration.max(**G), s), ["drawdowns", "duration"] + at),
            avg_dd_duration=Row("Avg Drawdown Duration", lambda o, s: dur(o, ia(o).duration.mean(**G), s), ["drawdowns", "duration"] + at),
            max_return=Row("Max Recovery Return [%]", lambda o, s: o.recovered.recovery_return.max(**G) * 100, ["drawdowns", "recovered"]),
            avg_return=Row("Avg Recovery Return [%]", lambda o, s: o.recovered.recovery_return.mean(**G) * 100, ["drawdowns", "recovered"]),
            max_recovery_duration=Row("Max Recovery Duration", lambda o, s: dur(o, o.recovered.recovery_duration.max(**G), s), ["drawdowns", "recovered", "duration"]),
            avg_recovery_duration=Row("Avg Recovery Duration", lambda o, s: dur(o, o.recovered.recovery_duration.mean(**G), s), ["drawdowns", "recovered", "duration"]),
            recovery_duration_ratio=Row("Avg Recovery Duration Ratio", lambda o, s: o.recovered.recovery_duration_ratio.mean(**G), ["drawdowns", "recovered"]),
        )
    elif kind == "ranges":
        R.update(
            coverage=Row("Coverage", lambda o, s: dur(o, o.coverage(overlapping=False, normalize=False, **G), s), ["ranges", "coverage"]),
            overlap_coverage=Row("Overlap Coverage", lambda o, s: dur(o, o.coverage(overlapping=True, normalize=False, **G), s), ["ranges", "coverage"]),
            total_records=Row("Total Records", lambda o, s: o.count(**G), "records"),
            duration=Row("Duration", lambda o, s: {k: dur(o, f(o.duration), s) for k, f in dict(Min=lambda d: d.min(**G), Median=lambda d: d.median(**G), Max=lambda d: d.max(**G),
                                                                                                Mean=lambda d: d.mean(**G), Std=lambda d: d.std(ddof=s.get("ddof", 1), **G)).items()}, ["ranges", "duration"]),
        )
    elif kind == "records":
        R.update(count=Row("Count", lambda o, s: o.count(**G), "records"))
    elif kind in ("mapped", "generic"):
        mp = s.get("mapping", o.mapping)
        has, no = (lambda o: mp is not None), (lambda o: mp is None)
        t = "mapped_array" if kind == "mapped" else "generic"
        d = [t, "describe"]
        sd = dict(ddof=s["ddof"]) if "ddof" in s else {}
        vc = {}
        R.update(
            count=Row("Count", lambda o, s: o.count(**G), t if kind == "mapped" else d, need=None if kind == "mapped" else no),
            mean=Row("Mean", lambda o, s: o.mean(**G), d, need=no),
            std=Row("Std", lambda o, s: o.std(**G, **sd), d, need=no),
            min=Row("Min", lambda o, s: o.min(**G), d, need=no),
            median=Row("Median", lambda o, s: o.median(**G), d, need=no),
            max=Row("Max", lambda o, s: o.max(**G), d, need=no),
            idx_min=Row("Min Index", lambda o, s: o.idxmin(**G), [t, "index"], agg=False, need=no),
            idx_max=Row("Max Index", lambda o, s: o.idxmax(**G), [t, "index"], agg=False, need=no),
            value_counts=Row("Value Counts", lambda o, s: value_counts(o, g, mp, kind, s.get("incl_all_keys", False)), [t, "value_counts"], need=has),
        )
    elif kind == "signals":
        ot = s.get("other")
        ho = lambda o: ot is not None
        title = "Distance" if ot is None else "Distance %s %s" % ("<-" if s["from_other"] else "->", s["other_name"])
        def four(m):
            ddof = s.get("ddof", 1)
            return {"Min": m.min(), "Max": m.max(), "Mean": m.mean(), "Std": m.std(ddof=ddof)}
        def durs(o, m):
            return {k: dur(o, v, s) for k, v in four(m).items()}
        def total(o, x):
            return pd.DataFrame(x).vbt.signals.total(group_by=g) if False else o.replace(obj=x).total(**G)
        R.update(
            total=Row("Total", lambda o, s: o.total(**G), "signals"),
            rate=Row("Rate [%]", lambda o, s: o.rate(**G) * 100, "signals"),
            total_overlapping=Row("Total Overlapping", lambda o, s: total(o, o.obj & ot), ["signals", "other"], need=ho),
            overlapping_rate=Row("Overlapping Rate [%]", lambda o, s: total(o, o.obj & ot) / total(o, o.obj | ot) * 100, ["signals", "other"], need=ho),
            first_index=Row("First Index", lambda o, s: o.nth_index(0, **G), ["signals", "index"]),
            last_index=Row("Last Index", lambda o, s: o.nth_index(-1, **G), ["signals", "index"]),
            norm_avg_index=Row("Norm Avg Index [-1, 1]", lambda o, s: o.norm_avg_index(**G), ["signals", "index"]),
            distance=Row(title, lambda o, s: durs(o, o.between_ranges(other=ot, from_other=s["from_other"], **G).duration), ["signals", "distance"] + (["other"] if ot is not None else [])),
            total_partitions=Row("Total Partitions", lambda o, s: o.total_partitions(**G), ["signals", "partitions"]),
            partition_rate=Row("Partition Rate [%]", lambda o, s: o.partition_rate(**G) * 100, ["signals", "partitions"]),
            partition_len=Row("Partition Length", lambda o, s: durs(o, o.partition_ranges(**G).duration), ["signals", "partitions", "distance"]),
            partition_distance=Row("Partition Distance", lambda o, s: durs(o, o.between_partition_ranges(**G).duration), ["signals", "partitions", "distance"]),
        )
    elif kind == "returns":
        fy = lambda o: o.wrapper.freq is not None and s["year_freq"] is not None
        bb = lambda o: s.get("benchmark_rets", o.benchmark_rets) is not None
        b = {} if s.get("benchmark_rets") is None else dict(benchmark_rets=s["benchmark_rets"])
        rf = dict(risk_free=s["risk_free"]) if "risk_free" in s else {}
        rr = dict(required_return=s["required_return"]) if "required_return" in s else {}
        dd = dict(ddof=s["ddof"]) if "ddof" in s else {}
        def bench_total(o, s):
            x = s.get("benchmark_rets")
            x = o.benchmark_rets if x is None else x
            return ((1 + x).prod() - 1) * 100
        R.update(
            total_return=Row("Total Return [%]", lambda o, s: o.total() * 100, "returns"),
            benchmark_return=Row("Benchmark Return [%]", bench_total, "returns", need=bb),
            ann_return=Row("Annualized Return [%]", lambda o, s: o.annualized() * 100, "returns", need=fy),
            ann_volatility=Row("Annualized Volatility [%]", lambda o, s: o.annualized_volatility(**dd) * 100, "returns", need=fy),
            max_dd=Row("Max Drawdown [%]", lambda o, s: -o.drawdowns.max_drawdown() * 100, ["returns", "drawdowns"]),
            max_dd_duration=Row("Max Drawdown Duration", lambda o, s: dur(o, o.drawdowns.max_duration(**raw(s)), s), ["returns", "drawdowns", "duration"]),
            sharpe_ratio=Row("Sharpe Ratio", lambda o, s: o.sharpe_ratio(**rf, **dd), "returns", need=fy),
            calmar_ratio=Row("Calmar Ratio", lambda o, s: o.calmar_ratio(), "returns", need=fy),
            omega_ratio=Row("Omega Ratio", lambda o, s: o.omega_ratio(**rf, **rr), "returns", need=fy),
            sortino_ratio=Row("Sortino Ratio", lambda o, s: o.sortino_ratio(**rr), "returns", need=fy),
            skew=Row("Skew", lambda o, s: o.obj.skew(), "returns"),
            kurtosis=Row("Kurtosis", lambda o, s: o.obj.kurtosis(), "returns"),
            tail_ratio=Row("Tail Ratio", lambda o, s: o.tail_ratio(), "returns"),
            common_sense_ratio=Row("Common Sense Ratio", lambda o, s: o.common_sense_ratio(), "returns", need=fy),
            value_at_risk=Row("Value at Risk", lambda o, s: o.value_at_risk(), "returns"),
            alpha=Row("Alpha", lambda o, s: o.alpha(**b, **rf), "returns", need=lambda o: fy(o) and bb(o)),
            beta=Row("Beta", lambda o, s: o.beta(**b), "returns", need=bb),
        )
        for r in R.values():
            pass
    elif kind == "data":
        def nulls(o, s):
            return {k: v.isnull().sum() if v.ndim == 1 else v.isnull().sum() for k, v in o.data.items()}
        R.update(
            total_symbols=Row("Total Symbols", lambda o, s: len(o.symbols), "data", agg=False),
            null_counts=Row("Null Counts", nulls, "data"),
        )
    elif kind == "indicator":
        R = dict(
            top=Row("Top", lambda o, s: o.hi.max(), "hi"),
            bot=Row("Bot", lambda o, s: o.lo.min(), ["lo", "hi"]),
            both=Row("Both", lambda o, s: {"a": o.hi.max(), "b": o.lo.min()}, None),
        )
    return R


def value_counts(o, g, mp, kind, every):
    """Counts of each mapped value in every column or group."""
    w = o.wrapper.regroup(g)
    gid = np.asarray(w.grouper.get_groups()) if w.grouper.is_grouped() else np.arange(w.shape_2d[1])
    k = len(set(gid.tolist()))
    if kind == "mapped":
        pairs = [(int(v), int(gid[c])) for v, c in zip(o.values, o.col_arr)]
    else:
        a = np.asarray(o.obj).reshape(len(w.index), -1)
        pairs = [(int(a[i, j]), int(gid[j])) for i in range(a.shape[0]) for j in range(a.shape[1])]
    keys = set(v for v, _ in pairs)
    if every:
        keys |= set(mp)
    cnt = Counter(pairs)
    out = {}
    for v in sorted(keys):
        x = np.array([cnt[(v, j)] for j in range(k)])
        out[str(mp[v])] = x[0] if w.get_ndim() == 1 else pd.Series(x, index=w.get_columns())
    return out


# --------------------------------------------------------------------------------------------- comparing


def plain_value(v):
    if isinstance(v, (pd.Timedelta, np.timedelta64)):
        if pd.isna(v):
            return ("na",)
        return ("td", pd.Timedelta(v).value / 1e9)
    if v is None or v is pd.NaT or v is pd.NA:
        return ("na",)
    if isinstance(v, (pd.Timestamp, np.datetime64)):
        if pd.isna(v):
            return ("na",)
        t = pd.Timestamp(v)
        return ("dt", t.value // 10 ** 3 if t.unit == "ns" else pd.Timestamp(v).as_unit("us").value)
    if isinstance(v, (bool, np.bool_)):
        return ("num", float(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return ("na",) if np.isnan(float(v)) else ("num", float(v))
    return ("obj", str(v))


def alike(a, b, rtol=1e-8, atol=1e-9):
    x, y = plain_value(a), plain_value(b)
    if x[0] != y[0]:
        return False
    if x[0] == "num":
        return x[1] == y[1] or abs(x[1] - y[1]) <= atol + rtol * abs(y[1])
    if x[0] == "td":
        return abs(x[1] - y[1]) <= 1.0 + rtol * abs(y[1])
    return x == y


def per_column(v, w, g):
    """A metric as a list with one value per column or group, and whether it is the same value for all."""
    cols = w.regroup(g).get_columns()
    if isinstance(v, pd.Series):
        return list(v.values) if v.dtype != object else list(v), False
    return [v] * len(cols), True


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            out = f(*a, **k)
    return out, [str(r.message) for r in rec]


def draw_settings(rng, kind, o, cfg):
    """Random settings for the table; returns (effective settings, keyword arguments)."""
    s, kw = {}, {}
    if kind == "pf":
        s = dict(incl_open=False, use_asset_returns=False, year_freq=vbt.settings.returns["year_freq"])
        if rng.random() < 0.35:
            kw["incl_open"] = True
        if rng.random() < 0.3:
            kw["use_asset_returns"] = True
        if rng.random() < 0.3:
            kw["risk_free"] = 0.001
        if rng.random() < 0.2:
            kw["required_return"] = 0.002
        if rng.random() < 0.2:
            kw["year_freq"] = pick(rng, ["252 days", None])
    elif kind == "trades":
        s = dict(incl_open=False)
        if rng.random() < 0.4:
            kw["incl_open"] = True
    elif kind == "dd":
        s = dict(incl_active=False)
        if rng.random() < 0.4:
            kw["incl_active"] = True
    elif kind in ("mapped", "generic"):
        s = dict(incl_all_keys=False)
        if rng.random() < 0.3 and o.mapping is None:
            kw["ddof"] = 0
        if rng.random() < 0.3 and o.mapping is not None:
            kw["incl_all_keys"] = True
        vals = o.values if kind == "mapped" else np.asarray(o.obj)
        if rng.random() < 0.4 and o.mapping is not None and vals.dtype.kind == "f":
            kw["mapping"] = None
    elif kind == "signals":
        s = dict(other=None, from_other=False, other_name="Other")
        if rng.random() < 0.4:
            x = pd.DataFrame(rng.random(o.wrapper.shape_2d) < 0.4, index=o.wrapper.index, columns=o.wrapper.columns)
            kw["other"] = x.iloc[:, 0] if o.wrapper.ndim == 1 else x
            if o.wrapper.ndim == 1:
                kw["other"].name = o.wrapper.name
            if rng.random() < 0.4:
                kw["from_other"] = True
            if rng.random() < 0.4:
                kw["other_name"] = "Exits"
        if rng.random() < 0.2:
            kw["ddof"] = 0
    elif kind == "returns":
        s = dict(year_freq=o.year_freq)
        if rng.random() < 0.25:
            kw["risk_free"] = 0.002
        if rng.random() < 0.25:
            kw["required_return"] = 0.001
        if rng.random() < 0.2:
            kw["ddof"] = 0
    s.update(kw)
    return s, kw


def tag_choice(rng, R):
    every = sorted({t for r in R.values() if r.tags is not None for t in tl(r.tags)})
    if not every or rng.random() < 0.55:
        return None, lambda tags: True
    k = rng.random()
    a, b = pick(rng, every), pick(rng, every)
    if k < 0.3:
        return a, lambda tags: a in tags
    if k < 0.5:
        f = pick(rng, [list, tuple, set])
        return f([a, b]), lambda tags: a in tags or b in tags
    if k < 0.7:
        return "%s and not %s" % (a, b), lambda tags: a in tags and b not in tags
    if k < 0.85:
        return "not %s" % a, lambda tags: a not in tags
    return ["%s and %s" % (a, b), "nothing"], lambda tags: a in tags and b in tags


def freq_override(rng, kind, o):
    if rng.random() < 0.15 and kind not in ("data", "indicator"):
        return pick(rng, ["1D", "6h"])
    return None


def prepare(ctx):
    rng = ctx.rng
    kind = pick(rng, list(KINDS))
    o = KINDS[kind](rng)
    if kind == "mapped" and rng.random() < 0.5:
        o = o.replace(mapped_arr=o.values.astype(float))
    if o.wrapper.shape[0] == 0 or not o.wrapper.columns.is_unique:
        raise Skip
    # a single column or group of it
    if rng.random() < 0.2 and o.wrapper.get_ndim() == 2 and o.wrapper.ndim == 2:
        o = o[pick(rng, list(o.wrapper.get_columns()))]
    return kind, o


def regroupable(kind, o):
    gr = o.wrapper.grouper
    return kind not in ("returns", "data", "indicator") and gr.allow_modify and gr.allow_enable and gr.allow_disable


@monitor(14)
def tables(ctx):
    """Every row of every table against the metric computed directly."""
    rng = ctx.rng
    kind, o = prepare(ctx)
    s, kw = draw_settings(rng, kind, o, None)
    w = o.wrapper
    g = None
    call = {}
    if regroupable(kind, o) and w.ndim == 2 and rng.random() < 0.4:
        g = pick(rng, [False, True, np.arange(w.shape[1]) // 2])
        call["group_by"] = g
    fq = freq_override(rng, kind, o)
    ref_o = o
    if fq is not None:
        kw = dict(kw, freq=fq)
        ref_o = o.replace(wrapper=w.replace(freq=fq))
    td = ref_o.wrapper.freq is not None
    if rng.random() < 0.15:
        kw = dict(kw, to_timedelta=False)
        td = False
    s = dict(s, group_by=g, td=td)
    R, _ = quiet(table, kind, ref_o, s)
    check_grouped = kind == "returns" and w.grouper.is_grouped()
    if check_grouped:
        raise Skip
    names = list(R)
    metrics = None
    order = names
    if rng.random() < 0.5:
        order = [pick(rng, names) for _ in range(int(rng.integers(1, 6)))] if rng.random() < 0.6 else list(rng.permutation(names))
        metrics = [str(x) for x in order] if rng.random() < 0.8 or len(order) > 1 else str(order[0])
        order = [str(x) for x in order]
        call["metrics"] = metrics
    elif rng.random() < 0.3:
        call["metrics"] = "all"
    tags, keep = tag_choice(rng, R)
    if tags is not None:
        call["tags"] = tags
    if kw:
        call["settings"] = dict(kw)
    wg = ref_o.wrapper.regroup(g)
    cols = list(wg.get_columns())
    one = wg.get_ndim() == 1
    col = None
    agg = np.mean
    if not one and rng.random() < 0.5:
        j = int(rng.integers(len(cols)))
        col = cols[j]
        call["column"] = col
        if rng.random() < 0.3 and j not in wg.get_columns():
            call["column"] = j
    elif rng.random() < 0.4:
        agg = pick(rng, [np.max, np.min, None, np.sum, np.median, pd.Series.mean])
        call["agg_func"] = agg
    # what is expected
    rows = []
    counts = Counter(order)
    for n in order:
        r = R[n]
        if tags is not None and (r.tags is None or not keep(tl(r.tags))):
            continue
        if r.need is not None and not r.need(ref_o):
            continue
        rows.append(r)
    if not rows:
        got, warned = quiet(o.stats, **call)
        ctx.check(got is None, "no metric is left, so nothing must be returned", got=repr(got)[:200])
        ctx.seen("empty")
        return
    exp = {}
    for r in rows:
        v, _ = quiet(r.f, ref_o, s)
        subs = {r.title + ": " + k: x for k, x in v.items()} if isinstance(v, dict) else {r.title: v}
        for t, x in subs.items():
            vals, same = per_column(x, ref_o.wrapper, g)
            if same and not isinstance(x, pd.Series):
                exp[t] = ("scalar", x)
            elif col is not None:
                exp[t] = ("scalar", vals[cols.index(col)])
            elif agg is None:
                exp[t] = ("multi", vals)
            elif r.agg:
                try:
                    exp[t] = ("scalar", quiet(agg, pd.Series(vals) if not isinstance(x, pd.Series) else x)[0])
                except Exception:
                    raise Skip
            # no aggregation function: left out
    if not exp:
        raise Skip
    got, warned = quiet(o.stats, **call)
    ctx.check(got is not None, "no table although metrics match", kind=kind, call=str(call)[:300])
    info = dict(kind=kind, call=str({k: v for k, v in call.items() if k != "settings"})[:300], settings=str(list(kw))[:200])
    if isinstance(got, pd.DataFrame):
        ctx.check(not one and col is None and agg is None, "a frame of statistics only without aggregation", **info)
        ctx.check(list(got.index) == cols, "rows of the statistics are the columns or groups", got=str(list(got.index)), want=str(cols), **info)
        titles = list(got.columns)
    else:
        if one:
            ctx.check(str(got.name) == str(wg.get_name()), "name of the statistics", got=str(got.name), want=str(wg.get_name()), **info)
        elif col is not None:
            ctx.check(got.name == call["column"], "name of the statistics", got=str(got.name), **info)
        elif agg is not None:
            ctx.check(got.name == "agg_func_" + agg.__name__, "name of the statistics", got=str(got.name), **info)
        titles = list(got.index)
        ctx.check(one or col is not None or agg is not None, "one value per metric only for one column or with aggregation", **info)
    ctx.check(titles == list(exp), "metrics in the table", got=str(titles), want=str(list(exp)), **info)
    for t in exp:
        k, x = exp[t]
        if isinstance(got, pd.DataFrame):
            g_ = list(got[t])
            want = x if k == "multi" else [x] * len(cols)
            ctx.check(all(alike(a, b) for a, b in zip(g_, want)), "metric differs from the direct computation", title=t, got=str(g_)[:300], want=str(want)[:300], **info)
        else:
            a = got.iloc[titles.index(t)]
            ctx.check(k == "scalar" and alike(a, x), "metric differs from the direct computation", title=t, got=str(a)[:200], want=str(x)[:200], **info)
    if agg is not None and not one and col is None:
        some = any(k == "scalar" for k, _ in exp.values())
    ctx.seen("rows", len(exp))
    ctx.seen("tables of " + kind)
    if col is not None:
        ctx.seen("one column selected")
    if g is not None:
        ctx.seen("regrouped")
    ctx.nontrivial(kind, str(sorted(call)), tuple(exp)[:3], len(cols))
    ctx.sample(kind=kind, rows=len(exp), call=str(sorted(call)))


@monitor(8)
def own_object(ctx):
    """The table of one column or group equals the table of its own object, a regrouped table that of the regrouped object."""
    rng = ctx.rng
    kind, o = prepare(ctx)
    s, kw = draw_settings(rng, kind, o, None)
    kw.pop("other", None), kw.pop("from_other", None)
    w = o.wrapper
    call = {}
    if kw:
        call["settings"] = kw
    if regroupable(kind, o) and w.ndim == 2 and rng.random() < 0.4:
        g = pick(rng, [False, True, np.arange(w.shape[1]) // 2])
        o2 = o.regroup(g)
        a, _ = quiet(o.stats, group_by=g, agg_func=None, **call)
        b, _ = quiet(o2.stats, agg_func=None, **call)
        same_table(ctx, a, b, "statistics of regrouped columns differ from those of the regrouped object", kind=kind)
        ctx.seen("regrouped object")
    if w.get_ndim() == 1:
        # without selection there is nothing to aggregate
        a, warned = quiet(o.stats, **call)
        b, _ = quiet(o.stats, agg_func=None, **call)
        ctx.check(not any("Aggregating" in x for x in warned), "a single column is not aggregated")
        same_table(ctx, a, b, "a table of one column depends on the aggregation function", kind=kind)
        ctx.seen("single")
        return
    col = pick(rng, list(w.get_columns()))
    if kind == "pf" and isinstance(o._init_cash, int):
        raise Skip  # automatic cash is shared with the other columns
    one = o[col]
    a, wa = quiet(o.stats, column=col, **call)
    b, wb = quiet(one.stats, **call)
    whole = a
    if a is not None and b is not None:
        # counts of values that occur only in other columns
        a = a[[t in b.index or "Counts: " not in t or a[t] != 0 for t in a.index]]
    ctx.check(not any("Aggregating" in x for x in wa), "a selected column is not aggregated", kind=kind)
    same_table(ctx, a, b, "statistics of a selected column differ from those of its own object", kind=kind, column=str(col))
    m = pick(rng, list(o.metrics))
    c, _ = quiet(o.stats, m, column=col, **call)
    if c is not None:
        ctx.check(set(c.index) <= set(whole.index), "a metric on its own has other titles", kind=kind, metric=m)
        same_table(ctx, c, whole.loc[list(c.index)], "a metric on its own differs from the one in the whole table", kind=kind, metric=m)
    f, _ = quiet(o.stats, agg_func=None, **call)
    if isinstance(f, pd.DataFrame):
        ctx.check(list(f.columns) == list(whole.index), "titles depend on the selection", kind=kind)
        row = f.iloc[list(w.get_columns()).index(col)]
        bad = [t for t in a.index if not alike(a[t], row[t])]
        ctx.check(not bad, "the row of a column differs from its own table", titles=str(bad), kind=kind)
    ctx.seen("own object")
    ctx.seen("own object of " + kind)
    ctx.nontrivial(kind, str(col), len(a))


def same_table(ctx, a, b, text, **info):
    ctx.check(type(a) is type(b), text, got=type(a).__name__, want=type(b).__name__, **info)
    if a is None:
        return
    if isinstance(a, pd.DataFrame):
        ctx.check(list(a.columns) == list(b.columns) and list(a.index) == list(b.index), text + " (labels)", **info)
        for c in a.columns:
            bad = [(x, y) for x, y in zip(a[c], b[c]) if not alike(x, y)]
            ctx.check(not bad, text, title=str(c), values=str(bad)[:300], **info)
    else:
        ctx.check(list(a.index) == list(b.index), text + " (labels)", got=str(list(a.index)), want=str(list(b.index)), **info)
        bad = [(t, x, y) for t, x, y in zip(a.index, a, b) if not alike(x, y)]
        ctx.check(not bad, text, values=str(bad)[:300], **info)


# --------------------------------------------------------------------------------------------- custom metrics


class Log(list):
    pass


LOG = Log()


def f_all(self, group_by, column, metric_name, agg_func, silence_warnings, to_timedelta, p=None, q="dq"):
    LOG.append(("f_all", dict(self=self, group_by=group_by, column=column, metric_name=metric_name, agg_func=agg_func, silence_warnings=silence_warnings,
                              to_timedelta=to_timedelta, p=p, q=q)))
    return result("f_all", self)


def f_p(p):
    LOG.append(("f_p", dict(p=p)))
    return 3.5 if not isinstance(p, (int, float)) else float(p)


def f_kw(self, **kwargs):
    LOG.append(("f_kw", dict(self=self, kwargs=kwargs)))
    return result("f_kw", self)


def f_dict(self, q="dq"):
    LOG.append(("f_dict", dict(self=self, q=q)))
    return {"u": result("u", self), "v": 2.0}


def f_raw(self, settings):
    LOG.append(("f_raw", dict(self=self, settings=settings)))
    return result("f_raw", self)


SALT = {"f_all": 1.0, "f_kw": 2.0, "u": 3.0, "f_raw": 4.0}


def result(name, obj):
    w = obj.wrapper
    if w.ndim == 1:
        return SALT[name] + 10.0
    return pd.Series(SALT[name] + 10.0 * (1 + np.arange(w.shape[1])), index=w.columns)


SPEC = dict(f_all=(f_all, ["self", "group_by", "column", "metric_name", "agg_func", "silence_warnings", "to_timedelta", "p", "q"]),
            f_p=(f_p, ["p"]), f_kw=(f_kw, None), f_dict=(f_dict, ["self", "q"]), f_raw=(f_raw, None))


def draw_metric(rng):
    n = pick(rng, list(SPEC))
    m = dict(calc_func=SPEC[n][0])
    if rng.random() < 0.6:
        m["title"] = pick(rng, ["T1", "T2", "T3", "T4", Sub("T$p"), RepEval("'Z' + str(p)"), Rep("q")])
    if rng.random() < 0.5:
        m["tags"] = pick(rng, ["a", ["a", "b"], ("b",), ["c"], RepEval("['a'] if p == 1 else ['b']")])
    if rng.random() < 0.4 or n == "f_p":
        m["p"] = pick(rng, [1, 2, Rep("pp"), RepEval("q * 2") if rng.random() < 0.3 else 5])
    if rng.random() < 0.2 and n in ("f_all", "f_dict"):
        m["q"] = pick(rng, ["q1", "q2"])
    if rng.random() < 0.25:
        m["check_yes"] = pick(rng, [True, True, False])
    if rng.random() < 0.25:
        m["inv_check_no"] = pick(rng, [True, True, False])
    if rng.random() < 0.2:
        m[pick(rng, ["check_no", "inv_check_yes"])] = True
    if rng.random() < 0.2:
        m["agg_func"] = pick(rng, [None, np.max])
    if rng.random() < 0.2:
        m["column"] = "a"
    if rng.random() < 0.2 and n != "f_dict":
        m["post_calc_func"] = post
    if rng.random() < 0.2 and n != "f_raw":
        m["pass_" + pick(rng, ["column", "metric_name", "p", "self"])] = bool(rng.random() < 0.5)
    if rng.random() < 0.2:
        m["apply_to_timedelta"] = True
    if rng.random() < 0.15:
        m["to_timedelta"] = pick(rng, [True, False])
    if rng.random() < 0.15:
        m["silence_warnings"] = bool(rng.random() < 0.5)
    if n == "f_raw":
        m["resolve_calc_func"] = False
    return n, m


def post(self, out, settings):
    LOG.append(("post", dict(self=self, out=out, settings=settings)))
    return out + 1000.0


FILTERS = dict(
    yes=dict(filter_func=lambda self, ms: True, inv_warning_message=Sub("inv yes $metric_name")),
    no=dict(filter_func=lambda self, ms: False, warning_message=Sub("no $metric_name")),
)


def _t(x):
    t = x.template
    return t if isinstance(t, str) else t.template


def sub1(x, mapping):
    """Substitute a template by hand (shapes used here only)."""
    if isinstance(x, Sub):
        return _t(x).replace("$p", str(mapping["p"])).replace("$metric_name", str(mapping.get("metric_name"))) if ("$p" not in _t(x) or "p" in mapping) else x
    if isinstance(x, RepEval):
        try:
            return eval(x.expression, {}, dict(mapping))
        except NameError:
            return x
    if isinstance(x, Rep):
        return mapping.get(x.key, x)
    return x


@monitor(3)
def custom(ctx):
    """Custom metrics: what their functions are handed, and what becomes of their results."""
    rng = ctx.rng
    df = frame(rng)
    df.columns = list("abcdef")[:df.shape[1]]
    o = df.vbt(freq=pick(rng, [None, "1D"]))
    if rng.random() < 0.25:
        o = df.iloc[:, 0].vbt(freq=pick(rng, [None, "1D"]))
    w = o.wrapper
    LOG.clear()
    ms = []
    names = ["m1", "m2", "m3", "m4"]
    for i in range(int(rng.integers(1, 5))):
        nm = pick(rng, names) if rng.random() < 0.5 else names[i]
        kind, m = draw_metric(rng)
        ms.append((nm, kind, m))
    settings = {}
    if rng.random() < 0.6:
        settings["p"] = pick(rng, [1, 2, 7, Rep("pp")])
    if rng.random() < 0.4:
        settings["q"] = pick(rng, ["sq", "sq2"])
    tmap = {"pp": 3} if rng.random() < 0.8 else {}
    # every template must be resolvable
    cnt = Counter(n for n, _, _ in ms)
    seen = Counter()
    full = []
    for n, kind, m in ms:
        k = n
        if cnt[n] > 1:
            k = "%s_%d" % (n, seen[n])
            seen[n] += 1
        full.append((k, kind, m))
    if len({k for k, _, _ in full}) != len(full):
        raise Skip
    msets = {}
    for k, kind, m in full:
        if rng.random() < 0.3:
            d = {}
            if rng.random() < 0.5:
                d["title"] = pick(rng, ["MS", Sub("M$p")])
            if rng.random() < 0.5:
                d["p"] = 11
            if rng.random() < 0.2:
                d["tags"] = "a"
            if rng.random() < 0.2:
                d["check_no"] = False
            if rng.random() < 0.2:
                d["agg_func"] = np.min
            if d:
                msets[k] = d
    col, agg = None, np.mean
    call = {}
    if w.ndim == 2 and rng.random() < 0.4:
        col = pick(rng, list(w.columns))
        call["column"] = col
    elif rng.random() < 0.4:
        agg = pick(rng, [None, np.max, np.sum])
        call["agg_func"] = agg
    tags = pick(rng, [None, None, None, "a", ["a", "c"], ("b", "c"), "a and not b", "all"])
    if tags is not None:
        call["tags"] = tags
    sil = pick(rng, [None, None, True, False])
    if sil is not None:
        call["silence_warnings"] = sil
    # reference
    expected, calls, warns = {}, [], []
    plan = []
    fr = w.freq is not None
    for k, kind, m in full:
        base = dict(column=col, group_by=None, metric_name=k, agg_func=agg, silence_warnings=bool(sil), to_timedelta=None)
        gs = {a: sub1(b, tmap) for a, b in settings.items()}
        merged = {**base, **settings, **m, **msets.get(k, {})}
        mapping = {**tmap, **merged}
        merged2 = {a: sub1(b, mapping) for a, b in merged.items()}
        if any(isinstance(b, (Sub, RepEval, Rep)) for b in merged2.values()):
            raise Skip
        # chained templates: p is a template while title refers to p
        if any(isinstance(b, (Sub, RepEval, Rep)) for a, b in merged.items() if a in ("p", "q")) and any(isinstance(merged.get(a), (Sub, RepEval, Rep)) for a in ("title", "tags")):
            raise Skip
        t = merged2.get("tags")
        if tags is not None and tags != "all":
            tg = [] if t is None else tl(t)
            hit = {"a": "a" in tg, "a and not b": "a" in tg and "b" not in tg}.get(tags) if isinstance(tags, str) else any(x in tg for x in tags)
            if t is None or not hit:
                continue
        sw = merged2["silence_warnings"]
        bad = []
        if merged2.get("check_no"):
            bad.append("no " + k)
        if merged2.get("inv_check_yes"):
            bad.append("inv yes " + k)
        if bad:
            if not sw:
                plan.append(("warn", bad))
            continue
        plan.append(("calc", k, kind, m, merged2))
    lacks = []
    for p in plan:
        if p[0] == "calc":
            k, kind, m, mg = p[1:]
            if kind == "f_p" and ("pass_p" in mg and not mg["pass_p"]):
                raise Skip
    out, warned, exc = None, None, None
    kwargs = dict(metrics=[(n, dict(m)) for n, _, m in ms], settings=settings, template_mapping=tmap, metric_settings=msets, filters=FILTERS, **call)
    if len(ms) == 1 and rng.random() < 0.3:
        kwargs["metrics"] = kwargs["metrics"][0]
    elif max(cnt.values()) == 1 and rng.random() < 0.3:
        kwargs["metrics"] = dict(kwargs["metrics"])
    # argument errors are expected when something is passed that the function does not take
    exp_calls, bad_args = [], False
    dup = False
    for p in plan:
        if p[0] != "calc":
            continue
        k, kind, m, mg = p[1:]
        opt = {"self", "column", "group_by", "metric_name", "agg_func", "silence_warnings", "to_timedelta"} | set(settings)
        opt |= set(o.self_aliases) | {"freq"} | set(o.stats_defaults["settings"])
        mg = dict(mg)
        if mg["to_timedelta"] is None:
            mg["to_timedelta"] = fr
        title = mg.get("title", k)
        custom_keys = {a: b for a, b in mg.items() if a not in ("title", "tags", "calc_func", "resolve_calc_func", "post_calc_func", "apply_to_timedelta", "fill_wrap_kwargs", "use_caching")
                       and not a.startswith(("check_", "inv_check_"))}
        args = SPEC[kind][1]
        if kind == "f_raw":
            passed = None
        else:
            final = {**{a: o for a in o.self_aliases}, **{a: b for a, b in o.stats_defaults["settings"].items() if a != "use_caching"}, **custom_keys}
            passed = {}
            for a, b in final.items():
                if a.startswith("pass_"):
                    continue
                ps = final.get("pass_" + a)
                if a in opt:
                    if ps is not None:
                        if ps:
                            passed[a] = b
                    elif args is not None and a in args:
                        passed[a] = b
                    elif args is None and a == "self":
                        passed[a] = b
                else:
                    passed[a] = b
            if args is not None and not set(passed) <= set(args):
                bad_args = True
                break
            if kind in ("f_all", "f_dict", "f_kw") and "self" not in passed:
                bad_args = True
                break
            if kind == "f_all" and not {"column", "metric_name"} <= set(passed):
                bad_args = True
                break
            if kind == "f_p" and "p" not in passed:
                bad_args = True
                break
        exp_calls.append((k, kind, passed, mg, title))
    if bad_args:
        exc = ctx.raises(TypeError, quiet, o.stats, msg="a function is handed arguments it does not take, or lacks some", **kwargs) if False else None
        try:
            quiet(o.stats, **kwargs)
        except TypeError:
            ctx.seen("argument mismatch")
            return
        ctx.fail("calculation function accepted arguments it cannot have been handed", metrics=str([(n, sorted(m)) for n, _, m in ms]), settings=str(settings))
    out, warned = quiet(o.stats, **kwargs)
    if not exp_calls:
        ctx.check(out is None, "nothing to compute must give nothing", got=repr(out)[:200])
        ctx.check(any("No metrics to calculate" in x for x in warned) == (not sil), "warning that no metric is left", warned=str(warned))
        ctx.seen("nothing left")
        return
    got_calls = [x for x in LOG if x[0] != "post"]
    ctx.check([x[0] for x in got_calls] == [x[1] for x in exp_calls], "calculation functions called", got=str([x[0] for x in got_calls]), want=str([x[1] for x in exp_calls]))
    table_, used = {}, False
    dups, nof = [], []
    for (fn, seen_args), (k, kind, passed, mg, title) in zip(got_calls, exp_calls):
        if kind == "f_raw":
            ctx.check(seen_args["self"] is o, "the object handed to a metric")
            ctx.check(isinstance(seen_args["settings"], dict) and seen_args["settings"].get("metric_name") == k, "merged settings handed to a metric")
            for a in ("p", "q", "tags", "column"):
                ctx.check(seen_args["settings"].get(a) == mg.get(a), "merged settings handed to a metric", key=a, got=str(seen_args["settings"].get(a)), want=str(mg.get(a)))
        else:
            a = dict(seen_args)
            if kind == "f_kw":
                a = dict(a.pop("kwargs"), self=a["self"])
            else:
                defaults = dict(p=None, q="dq")
                passed = {**{x: defaults[x] for x in a if x in defaults}, **passed}
            ctx.check(set(a) == set(passed), "arguments handed to a metric", got=str(sorted(a)), want=str(sorted(passed)), metric=k)
            for x in a:
                same = a[x] is passed[x] or (x not in ("self",) and a[x] == passed[x])
                ctx.check(same, "argument handed to a metric", arg=x, got=str(a[x])[:100], want=str(passed[x])[:100], metric=k)
            ctx.seen("arguments", len(a))
        if kind == "f_p":
            v = {None: float(passed["p"]) if isinstance(passed["p"], (int, float)) else 3.5}
        elif kind == "f_dict":
            v = {"u": result("u", o), "v": 2.0}
        else:
            v = {None: result(kind, o)}
        if "post_calc_func" in mg:
            v = {a: b + 1000.0 for a, b in v.items()}
        for sub, x in v.items():
            t = title if sub is None else "%s: %s" % (title, sub)
            if mg.get("apply_to_timedelta") and mg["to_timedelta"]:
                if not fr:
                    x = x  # cannot be converted: left as is
                else:
                    x = x * w.freq if isinstance(x, pd.Series) else x * w.freq
            if isinstance(x, pd.Series):
                if mg["column"] is not None:
                    x = x.iloc[list(w.columns).index(mg["column"])]
                elif agg is not None:
                    if mg["agg_func"] is None:
                        if not mg["silence_warnings"]:
                            nof.append(k)
                        continue
                    x = mg["agg_func"](x)
                    used = True
            if t in table_ and not mg["silence_warnings"]:
                dups.append(t)
            table_[t] = x
    for t in dups:
        ctx.check(any("Duplicate metric title '%s'" % t in x for x in warned), "duplicate titles are reported", warned=str(warned))
    for k in nof:
        ctx.check(any("Metric '%s' returned multiple values" % k in x for x in warned), "several values without aggregation are reported", warned=str(warned))
    fw = [x for p in plan if p[0] == "warn" for x in p[1]]
    for x in fw:
        ctx.check(any(x == y for y in warned), "a dropped metric is reported", want=x, warned=str(warned))
    nf = sum(1 for y in warned if y.startswith(("no m", "inv yes")))
    ctx.check(nf == len(fw), "dropped metrics reported once each", got=nf, want=len(fw))
    ctx.check(any("Aggregating" in x for x in warned) == (used and not sil and w.ndim == 2), "aggregation is reported", warned=str(warned), used=used)
    if w.ndim == 2 and col is None and agg is None:
        ctx.check(isinstance(out, pd.DataFrame) and list(out.columns) == list(table_) and list(out.index) == list(w.columns), "layout without aggregation", got=str(out)[:200])
        for t, x in table_.items():
            want = list(x) if isinstance(x, pd.Series) else [x] * w.shape[1]
            ctx.check(all(alike(a, b) for a, b in zip(out[t], want)), "custom metric", title=t, got=str(list(out[t])), want=str(want))
    else:
        ctx.check(isinstance(out, pd.Series) and list(out.index) == list(table_), "titles", got=str(list(out.index)), want=str(list(table_)))
        for t, x in table_.items():
            ctx.check(not isinstance(x, pd.Series) and alike(out[t], x), "custom metric", title=t, got=str(out[t]), want=str(x))
    ctx.seen("custom metrics", len(exp_calls))
    ctx.nontrivial(tuple((k, kind, tuple(sorted(m))) for k, kind, m in full), str(sorted(call)), str(sorted(settings)))


# --------------------------------------------------------------------------------------------- paths


class Probe(vbt.generic.stats_builder.StatsBuilderMixin, vbt.base.array_wrapper.Wrapping):
    """An object whose attributes record how they were called."""

    def __init__(self, wrapper, tag=0):
        vbt.base.array_wrapper.Wrapping.__init__(self, wrapper, tag=tag)
        vbt.generic.stats_builder.StatsBuilderMixin.__init__(self)
        self.tag = tag

    def indexing_func(self, f, **kw):
        return self.replace(wrapper=self.wrapper.indexing_func(f, **kw))

    def get_part(self, scale=1.0, group_by=None, mode="m0"):
        LOG.append(("get_part", dict(scale=scale, group_by=group_by, mode=mode, freq=self.wrapper.freq)))
        return Part(self.wrapper, scale, mode)

    @property
    def part(self):
        LOG.append(("part", {}))
        return Part(self.wrapper, 1.0, "m0")

    def total(self, scale=1.0):
        LOG.append(("total", dict(scale=scale)))
        return pd.Series(scale * np.arange(1, 1 + self.wrapper.shape_2d[1]), index=self.wrapper.columns)

    @property
    def plain(self):
        return 42.0

    def get_extra(self, mode="m0"):
        LOG.append(("get_extra", dict(mode=mode)))
        return {"m0": 1.0, "m1": 2.0}[mode]


class Part:
    def __init__(self, wrapper, scale, mode):
        self.wrapper, self.scale, self.mode = wrapper, scale, mode

    def total(self, ddof=0, scale=9.0):
        LOG.append(("part.total", dict(ddof=ddof, scale=scale)))
        return pd.Series(100.0 * self.scale + ddof + np.arange(self.wrapper.shape_2d[1]), index=self.wrapper.columns)

    @property
    def inner(self):
        return Part(self.wrapper, self.scale * 2, self.mode)


def f_extra(extra, part=None):
    LOG.append(("f_extra", dict(extra=extra, part=part)))
    return float(extra)


@monitor(2)
def resolution(ctx):
    """Metrics given by a path: which attribute is taken, and with which settings."""
    rng = ctx.rng
    c = int(rng.integers(2, 4))
    w = vbt.ArrayWrapper(pd.date_range("2020-01-01", periods=3), pd.Index(list("abc")[:c]), 2, freq=pick(rng, [None, "1D", "2D"]))
    o = Probe(w)
    LOG.clear()
    settings = {}
    if rng.random() < 0.6:
        settings["scale"] = pick(rng, [2.0, 3.0])
    if rng.random() < 0.5:
        settings["mode"] = "m1"
    if rng.random() < 0.4:
        settings["ddof"] = 5
    fq = None
    if rng.random() < 0.3:
        fq = pick(rng, ["1D", "6h"])
        settings["freq"] = fq
    metrics, expect = [], {}
    use = pick(rng, [True, True, False])
    ms = {}
    for i in range(int(rng.integers(1, 5))):
        path = pick(rng, ["part.total", "part.inner.total", "total", "plain", "extra"])
        m = dict(calc_func=path, agg_func=np.sum)
        sc = settings.get("scale", 1.0)
        if path in ("part.total", "part.inner.total") and rng.random() < 0.3:
            m["ddof"] = 4  # specific to the metric
        if rng.random() < 0.15:
            m["use_caching"] = False
        if rng.random() < 0.3 and path in ("part.total", "part.inner.total"):
            m["scale"] = 7.0
            if "scale" in settings:
                sc = 7.0  # only what is known as an option reaches the attributes on the path
        dd = m.get("ddof", settings.get("ddof", 0))
        base = np.arange(c)
        if path == "part.total":
            v = (100.0 * sc + dd + base).sum()
        elif path == "part.inner.total":
            v = (200.0 * sc + dd + base).sum()
        elif path == "total":
            if rng.random() < 0.3:
                sc = m["scale"] = 0.5
            v = (sc * (1 + base)).sum()
        elif path == "plain":
            v = 42.0
            if rng.random() < 0.5:
                m["apply_to_timedelta"] = True
                one = fq
                if rng.random() < 0.6:
                    one = m["freq"] = pick(rng, ["3h", "2D"])
                one = pd.Timedelta(one) if one is not None else w.freq
                v = 42 * one if one is not None else 42.0
                ctx.seen("durations")
        else:
            m = dict(calc_func=f_extra, resolve_extra=True)
            v = {"m0": 1.0, "m1": 2.0}[settings.get("mode", "m0")]
            if rng.random() < 0.3:
                m["mode"] = "m1" if settings.get("mode") != "m1" else "m0"
                # passed to the function itself too, which does not take it
                m.pop("mode")
        metrics.append(("k%d" % i, m))
        expect["k%d" % i] = v
    got, warned = quiet(o.stats, metrics, settings=settings)
    ctx.check(list(got.index) == list(expect), "titles", got=str(list(got.index)))
    for k, v in expect.items():
        ctx.check(alike(got[k], v), "metric given by a path", metric=str(dict(metrics)[k]), settings=str(settings), got=str(got[k]), want=str(v))
    parts = [a for n, a in LOG if n == "get_part"]
    for a in parts:
        ctx.check(a["mode"] == settings.get("mode", "m0"), "setting handed to a resolved attribute", got=a["mode"])
        want = pd.Timedelta(fq) if fq is not None else w.freq
        ctx.check(a["freq"] == want, "frequency of the object a metric is computed on", got=str(a["freq"]), want=str(want))
    ctx.check(not any(n == "part" for n, _ in LOG), "the method is preferred over the property")
    shared = [m for _, m in metrics if m["calc_func"] in ("part.total", "part.inner.total") and "scale" not in m and m.get("use_caching", True)]
    ctx.seen("paths", len(expect))
    ctx.nontrivial(str(metrics), str(settings))


@monitor(2)
def portfolio_paths(ctx):
    """Custom metrics of a portfolio that name its attributes: the settings decide which returns and trades are meant."""
    rng = ctx.rng
    o = mk_pf(rng)
    s = {}
    if rng.random() < 0.5:
        s["use_asset_returns"] = True
    if rng.random() < 0.5:
        s["incl_open"] = True
    if rng.random() < 0.4 and not o.wrapper.grouper.is_grouped():
        s["group_by"] = True
    g = s.get("group_by")
    call = dict(group_by=s.pop("group_by")) if "group_by" in s else {}
    asset, incl = s.get("use_asset_returns", False), s.get("incl_open", False)
    rets = (lambda p: p.asset_returns(group_by=g)) if asset else (lambda p: p.returns(group_by=g))
    tr = lambda p: p.get_trades(group_by=g) if incl else p.get_trades(group_by=g).closed
    table_ = dict(
        r=(dict(calc_func="returns.vbt.max"), lambda p: rets(p).max()),
        a=(dict(calc_func="asset_returns.vbt.max"), lambda p: p.asset_returns(group_by=g).max()),
        f=(dict(calc_func=f_returns, resolve_returns=True), lambda p: rets(p).min()),
        t=(dict(calc_func="trades.pnl.sum"), lambda p: tr(p).pnl.sum()),
        c=(dict(calc_func=f_trades, resolve_trades=True), lambda p: tr(p).count()),
        n=(dict(calc_func="trades.count", incl_open=True), lambda p: p.get_trades(group_by=g).count()),
        z=(dict(calc_func="trades.count", incl_open=False), lambda p: p.get_trades(group_by=g).closed.count()),
        e=(dict(calc_func="entry_trades.count"), lambda p: p.get_entry_trades(group_by=g).count() if incl else p.get_entry_trades(group_by=g).closed.count()),
        q=(dict(calc_func="positions.count"), lambda p: p.get_positions(group_by=g).count() if incl else p.get_positions(group_by=g).closed.count()),
        v=(dict(calc_func="value.vbt.min"), lambda p: p.value(group_by=g).min()),
        i=(dict(calc_func="get_init_cash"), lambda p: p.get_init_cash(group_by=g)),
        d=(dict(calc_func="drawdowns.active.count"), lambda p: p.get_drawdowns(group_by=g).active.count()),
        o=(dict(calc_func="orders.size.sum", group_by=False), lambda p: p.orders.size.sum(group_by=False)),
    )
    keys = [str(x) for x in rng.permutation(list(table_))[:int(rng.integers(1, 8))]]
    if g is not None or o.wrapper.grouper.is_grouped():
        keys = [k for k in keys if k != "o"] or ["r"]
    got, _ = quiet(o.stats, [(k, table_[k][0]) for k in keys], settings=s, agg_func=np.sum, **call)
    for k in keys:
        v, _ = quiet(table_[k][1], o)
        want = quiet(np.sum, v)[0] if isinstance(v, pd.Series) else v
        ctx.check(alike(got[k], want), "custom metric of a portfolio", metric=str(table_[k][0]), settings=str(s), call=str(call), got=str(got[k]), want=str(want))
    ctx.seen("portfolio paths", len(keys))
    ctx.nontrivial(tuple(keys), str(s), str(call), o.wrapper.shape)


def f_returns(returns):
    return returns.vbt.min()


def f_trades(trades):
    return trades.count()


# --------------------------------------------------------------------------------------------- errors & isolation


@monitor(2)
def overrides(ctx):
    """Unknown names raise; changing the metrics of an instance, of the settings or of a subclass reaches exactly its tables."""
    rng = ctx.rng
    kind, o = prepare(ctx)
    if kind == "returns" and o.wrapper.grouper.is_grouped():
        raise Skip
    names = list(o.metrics)
    k = rng.random()
    if k < 0.15:
        ctx.raises(KeyError, o.stats, "no_such_metric", msg="unknown metric")
        ctx.seen("errors")
    elif k < 0.3:
        m = pick(rng, names)
        try:
            quiet(o.stats, m, metric_settings={"nope": dict(title="x")})
        except ValueError:
            pass
        else:
            ctx.fail("settings of a metric that is not selected must raise")
        ctx.seen("errors")
    elif k < 0.4:
        for bad in ({"check_nothing": True}, {"inv_check_nothing": False}):
            try:
                quiet(o.stats, [("x", dict(calc_func=lambda self: 1, **bad))])
            except ValueError:
                pass
            else:
                ctx.fail("a filter that does not exist must raise")
        ctx.raises(TypeError, quiet, o.stats, [3], msg="neither a name nor a tuple")
        for bad in (np.array([1, 2]), pd.DataFrame([[1]])):
            try:
                quiet(o.stats, [("x", dict(calc_func=lambda self, b=bad: b))])
            except TypeError:
                pass
            else:
                ctx.fail("a metric returning an array must raise")
        ctx.seen("errors")
    elif k < 0.7:
        before = list(type(o).metrics)
        other = KINDS[kind](rng)
        m = pick(rng, names)
        o.metrics[m]["title"] = "Mine"
        o.metrics[m]["calc_func"] = lambda self: 77.0
        for x in ("post_calc_func", "apply_to_timedelta", "fill_wrap_kwargs", "wrap_kwargs", "n", "return_labels", "overlapping", "normalize", "incl_open", "resolve_value_counts", "incl_all_keys"):
            o.metrics[m].pop(x, None)
        for x in [y for y in o.metrics[m] if y.startswith(("check_", "inv_check_"))]:
            o.metrics[m].pop(x)
        o.metrics["added"] = dict(title="Added", calc_func=lambda self: 78.0)
        got, _ = quiet(o.stats)
        ctx.check(got["Mine"] == 77.0 and got["Added"] == 78.0, "changed metrics of an instance")
        ctx.check(list(other.metrics) == names and other.metrics[m].get("title") != "Mine", "changed metrics reach another instance")
        ctx.check(list(type(o).metrics) == before and type(o).metrics[m].get("title") != "Mine", "changed metrics reach the class")
        c = o.copy() if rng.random() < 0.5 else type(o).loads(o.dumps()) if False else o.replace()
        got2, _ = quiet(c.stats)
        ctx.check("Mine" in got2.index and "Added" in got2.index, "changed metrics are kept by a copy", kind=kind)
        if o.wrapper.get_ndim() == 2 and o.wrapper.ndim == 2:
            sub = o[pick(rng, list(o.wrapper.get_columns()))]
            ctx.check("added" in sub.metrics, "changed metrics are kept when indexing", kind=kind)
        ctx.seen("changed metrics")
        ctx.nontrivial("changed", kind, m)
    else:
        key = dict(pf="portfolio", trades="trades", orders="orders", logs="logs", dd="drawdowns", ranges="ranges", records="records", mapped="mapped_array",
                   generic="generic", signals="signals", returns="returns", data="data").get(kind)
        if key is None:
            raise Skip
        m = [str(x) for x in rng.permutation(names)[:2]]
        want, _ = quiet(o.stats, m, silence_warnings=True)
        alltags = sorted({t for x in m for t in (tl(o.metrics[x].get("tags", [])) if not hasattr(o.metrics[x].get("tags", []), "expression") else [])})
        cfg = vbt.settings[key]["stats"]
        sb = vbt.settings["stats_builder"]
        saved, saved_b = cfg.get("metrics", None), sb["metrics"]
        try:
            if rng.random() < 0.5:
                cfg["metrics"] = m
            else:
                sb["metrics"] = m
            sb["silence_warnings"] = True
            got, warned = quiet(o.stats)
        finally:
            cfg.pop("metrics", None)
            if saved is not None:
                cfg["metrics"] = saved
            sb["metrics"] = saved_b
            sb["silence_warnings"] = False
        same_table(ctx, got, want, "metrics set in the global settings", kind=kind)
        ctx.check(not any("Aggregating" in x or "requires" in x for x in warned), "warnings silenced in the global settings")
        ctx.seen("global settings")
        ctx.nontrivial("global", kind, tuple(m))
