"""R03: ranges and drawdowns against a brute-force run finder."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.generic.enums import range_dt, drawdown_dt, RangeStatus, DrawdownStatus
from vt import gen, recs
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


def isgap(x, gap):
    return (isinstance(gap, float) and gap != gap and x != x) or x == gap


def ref_ranges(a, gap):
    """[(col, start, end, status)] of the maximal runs of non-gap values."""
    out = []
    n = a.shape[0]
    for c in range(a.shape[1]):
        live = np.array([not isgap(x, gap) for x in a[:, c].tolist()])
        for s in range(n):
            if live[s] and (s == 0 or not live[s - 1]):
                after = [t for t in range(s, n) if not live[t]]
                out.append((c, s, after[0], 1) if after else (c, s, n - 1, 0))
    return out


def ref_dds(a):
    """Below-peak stretches: (col, peak_idx, start, valley_idx, end, peak, valley, end_val, status)."""
    out = []
    for c in range(a.shape[1]):
        rows = [i for i in range(a.shape[0]) if a[i, c] == a[i, c]]
        v = a[:, c]
        k = 0
        while k < len(rows):
            p = rows[k]
            if k + 1 == len(rows) or v[rows[k + 1]] >= v[p]:
                k += 1
                continue
            rec = [j for j in range(k + 1, len(rows)) if v[rows[j]] >= v[p]]
            e = rec[0] if rec else len(rows) - 1
            span = rows[k + 1:e + 1]
            val = min(v[i] for i in span)
            vi = [i for i in span if v[i] == val][0]
            out.append((c, p, p + 1, vi, rows[e], v[p], val, v[rows[e]], 1 if rec else 0))
            k = e if rec else len(rows)
    return out


def series_values(ctx, n, c, kind=None):
    rng = ctx.rng
    kind = kind or pick(rng, ["lattice", "lattice", "walk", "mono", "flat", "neg", "prices"])
    if kind == "lattice":
        a = rng.integers(1, 5, (n, c)).astype(float)
    elif kind == "walk":
        a = 100 + np.cumsum(rng.integers(-2, 3, (n, c)), axis=0).astype(float)
    elif kind == "mono":
        a = np.cumsum(rng.random((n, c)), axis=0) * np.where(rng.random(c) < 0.5, 1, -1) + 500
    elif kind == "flat":
        a = np.full((n, c), 3.0)
        a[rng.random((n, c)) < 0.2] = 2.0
    elif kind == "neg":
        a = rng.normal(0, 2, (n, c))
    else:
        a = gen.prices(rng, n, c, nan=False)
    if rng.random() < 0.6:
        a[rng.random((n, c)) < pick(rng, [0.1, 0.3, 0.7])] = NAN
        if rng.random() < 0.3:
            a[:int(rng.integers(1, n + 1)), int(rng.integers(c))] = NAN
        if rng.random() < 0.3:
            a[int(rng.integers(0, n)):, int(rng.integers(c))] = NAN
    return a


def obj(ctx, a, names=True):
    rng = ctx.rng
    n, c = a.shape
    idx = gen.dt_index(rng, n, "D")
    cols = gen.columns(rng, c)
    if c == 1 and rng.random() < 0.5:
        return pd.Series(a[:, 0], index=idx, name="a")
    return pd.DataFrame(a, index=idx, columns=cols)


def wkw(rng, o):
    if isinstance(o, pd.DataFrame) and rng.random() < 0.5:
        return dict(group_by=gen.groups_from_lens(gen.group_lens(rng, o.shape[1])), freq="D")
    return dict(freq="D")


def fields(r, names):
    return [tuple(x[k].item() for k in names) for x in r]


def flat(x):
    return np.asarray(x).reshape(-1)


def days(x):
    return np.array([NAN if pd.isnull(v) else pd.Timedelta(v) / pd.Timedelta("1D") for v in (list(x) if np.ndim(x) else [x])])


def cover(recs_, rows, n):
    t = np.zeros(n, int)
    for k in rows:
        _, s, e, st = recs_[k]
        t[s:e + (1 if st == 0 else 0)] += 1
    return t


def check_range_views(ctx, r, rr, n, msg):
    """Masks, durations, coverage of any Ranges object given rr=[(col,start,end,status)]."""
    rng = ctx.rng
    w = r.wrapper
    dur = np.array([e - s + (1 if st == 0 else 0) for _, s, e, st in rr], int)
    ctx.eq(r.duration.values, dur, msg + ": duration")
    gb = recs.group_arg(rng, w)
    units = recs.groups_of(w, gb)
    rows = [[k for k in range(len(rr)) if rr[k][0] in set(u.tolist())] for u in units]
    if any(len(u) > 1 for u in units):
        ctx.seen("grouped_views")
    cov = [cover(rr, x, n) for x in rows]
    mask = np.array(r.to_mask(group_by=gb)).reshape(n, -1)
    ctx.eq(mask, np.array([t > 0 for t in cov]).T.reshape(n, -1), f"{msg}: to_mask(group_by={gb})")
    with np.errstate(all="ignore"):
        for ov in (False, True):
            for nm in (False, True):
                e = []
                for t, x, u in zip(cov, rows, units):
                    if not x:
                        e.append(NAN)
                        continue
                    steps = (t > 1).sum() if ov else (t > 0).sum()
                    den = (t > 0).sum() if ov else n * len(u)
                    e.append((steps / den if den else NAN) if nm else float(steps))
                out = r.coverage(overlapping=ov, normalize=nm, group_by=gb)
                ctx.eq(flat(out).astype(float), e, f"{msg}: coverage(overlapping={ov}, normalize={nm}, group_by={gb})")
        ctx.eq(flat(r.coverage(group_by=gb)).astype(float), [NAN if not x else (t > 0).sum() / (n * len(u)) for t, x, u in zip(cov, rows, units)], msg + ": coverage default")
    ctx.eq(days(r.avg_duration(group_by=gb)), [dur[x].mean() if x else NAN for x in rows], f"{msg}: avg_duration", atol=3e-5)
    ctx.eq(days(r.max_duration(group_by=gb)), [dur[x].max() if x else NAN for x in rows], f"{msg}: max_duration", atol=3e-5)
    ctx.eq(flat(r.avg_duration(group_by=gb, wrap_kwargs=dict(to_timedelta=False))).astype(float), [dur[x].mean() if x else NAN for x in rows], msg + ": avg_duration raw")
    if any(len(x) > 1 and (cover(rr, x, n) > 1).any() for x in rows):
        ctx.seen("overlapping")
    return dur


def check_filters(ctx, r, st, enum, msg):
    for name, code in zip(enum._fields, enum):
        sub = getattr(r, name.lower())
        ctx.eq(sub.values["id"], r.values["id"][st == code], f"{msg}: filter {name}")


@monitor(weight=2, modes=("pure", "jit"))
def m_ranges(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 14)), int(rng.integers(1, 5))
    kind = pick(rng, ["bool", "int", "float", "float", "custom"])
    kw = {}
    if kind == "bool":
        a, gap = rng.random((n, c)) < rng.random(), False
        if rng.random() < 0.3:
            a[:, int(rng.integers(c))] = rng.random() < 0.5
    elif kind == "int":
        a, gap = rng.integers(-1, 3, (n, c)), -1
    elif kind == "float":
        a, gap = series_values(ctx, n, c), NAN
    else:
        a = series_values(ctx, n, c, "lattice")
        gap = float(pick(rng, [1, 2, 3]))
        kw["gap_value"] = gap
    o = obj(ctx, a)
    wk = wkw(rng, o)
    how = rng.integers(3)
    before = a.copy()
    if how == 0 or kind == "custom":
        r = vbt.Ranges.from_ts(o, wrapper_kwargs=wk, **kw)
    elif how == 1:
        r = o.vbt.get_ranges(wrapper_kwargs=wk, **kw)
    else:
        wk = dict(freq=None)
        r = o.vbt(freq="D").get_ranges(**kw) if rng.random() < 0.5 else o.vbt(freq="D").ranges
    ctx.eq(np.asarray(o).reshape(n, c), before, "input untouched", rtol=0)
    rr = ref_ranges(a, gap)
    ctx.eq(fields(r.values, ["col", "start_idx", "end_idx", "status"]), rr, f"ranges of {a.tolist()} gap={gap}")
    ctx.eq(r.values["id"], np.arange(len(rr)), "ids")
    ctx.check(r.values.dtype == range_dt, "range dtype")
    dur = check_range_views(ctx, r, rr, n, "from_ts")
    st = np.array([x[3] for x in rr], int)
    check_filters(ctx, r, st, RangeStatus, "ranges")
    ctx.check(r.ts is not None and np.array_equal(np.asarray(r.ts, float), np.asarray(o, float), equal_nan=True), "attached series")
    ctx.check(list(r.wrapper.columns) == (list(o.columns) if isinstance(o, pd.DataFrame) else ["a"]) and list(r.wrapper.index) == list(o.index), "labels")
    if isinstance(o, pd.DataFrame):
        k = int(rng.integers(c))
        s = r.replace(wrapper=r.wrapper.replace(group_by=None))
        s = s.iloc[k]
        ctx.eq(fields(s.values, ["start_idx", "end_idx", "status"]), [x[1:] for x in rr if x[0] == k], "selected column")
        ctx.eq(np.asarray(s.ts, float).reshape(-1), a[:, k].astype(float), "selected series")
    rd = r.records_readable
    ctx.check(list(rd["Start Timestamp"]) == [o.index[x[1]] for x in rr] and list(rd["End Timestamp"]) == [o.index[x[2]] for x in rr], "readable")
    ctx.seen("ranges", len(rr))
    if (st == 0).any():
        ctx.seen("open_ranges")
    ctx.nontrivial(np.asarray(a).tobytes(), a.shape, kind)


@monitor(weight=2, modes=("pure", "jit"))
def m_custom_ranges(ctx):
    """User-built, overlapping and unordered range records."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 12)), int(rng.integers(1, 5))
    w = recs.wrapper(rng, n, c)
    m = int(rng.integers(0, 14))
    col = recs.col_arr(rng, m, c)
    r = np.zeros(len(col), range_dt)
    s = rng.integers(0, n, len(col))
    e = np.array([rng.integers(x, n) for x in s], int)
    r["id"], r["col"], r["start_idx"], r["end_idx"] = np.arange(len(col)), col, s, e
    r["status"] = rng.integers(0, 2, len(col))
    if rng.random() < 0.7:
        r["end_idx"] = np.where((r["status"] == 1) & (s == e), np.minimum(e + 1, n - 1), e)
    o = vbt.Ranges(w, r.copy())
    rr = fields(r, ["col", "start_idx", "end_idx", "status"])
    dur = check_range_views(ctx, o, rr, n, "custom ranges")
    if (dur == 0).any():
        ctx.seen("zero_duration")
    ctx.eq(o.values["start_idx"], s, "records untouched", rtol=0)
    ctx.nontrivial(tuple(map(tuple, rr)), n, c)


@monitor(weight=3, modes=("pure", "jit"))
def m_drawdowns(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 16)), int(rng.integers(1, 5))
    a = series_values(ctx, n, c)
    o = obj(ctx, a)
    wk = wkw(rng, o)
    how = rng.integers(3)
    if how == 0:
        d = vbt.Drawdowns.from_ts(o, wrapper_kwargs=wk)
    elif how == 1:
        d = o.vbt.get_drawdowns(wrapper_kwargs=wk)
    else:
        d = o.vbt(freq="D").drawdowns
    rr = ref_dds(a)
    names = ["col", "peak_idx", "start_idx", "valley_idx", "end_idx", "peak_val", "valley_val", "end_val", "status"]
    ctx.eq(fields(d.values, names), rr, f"drawdowns of {a.tolist()}", rtol=0, atol=0)
    ctx.eq(d.values["id"], np.arange(len(rr)), "ids")
    ctx.check(d.values.dtype == drawdown_dt, "drawdown dtype")
    check_range_views(ctx, d, [(x[0], x[2], x[4], x[8]) for x in rr], n, "drawdowns")
    st = np.array([x[8] for x in rr], int)
    check_filters(ctx, d, st, DrawdownStatus, "drawdowns")
    A = np.array([x for x in rr], float).reshape(-1, 9)
    with np.errstate(all="ignore"):
        dd = (A[:, 6] - A[:, 5]) / A[:, 5]
        rec = (A[:, 7] - A[:, 6]) / A[:, 6]
        dec = A[:, 3] - A[:, 2] + 1
        rcd = A[:, 4] - A[:, 3]
        ctx.eq(d.drawdown.values, dd, "drawdown")
        ctx.eq(d.recovery_return.values, rec, "recovery_return")
        ctx.eq(d.decline_duration.values, dec, "decline_duration")
        ctx.eq(d.recovery_duration.values, rcd, "recovery_duration")
        ctx.eq(d.recovery_duration_ratio.values, rcd / dec, "recovery_duration_ratio")
        gb = recs.group_arg(rng, d.wrapper)
        units = recs.groups_of(d.wrapper, gb)
        sel = [np.flatnonzero(np.isin(A[:, 0], u)) for u in units]
        red = lambda v, f: [f(v[s][~np.isnan(v[s])]) if len(s) and (~np.isnan(v[s])).any() else NAN for s in sel]
        for name, v, f in (("avg_drawdown", dd, np.mean), ("max_drawdown", dd, np.min), ("avg_recovery_return", rec, np.mean), ("max_recovery_return", rec, np.max)):
            ctx.eq(flat(getattr(d, name)(group_by=gb)).astype(float), red(v, f), f"{name}(group_by={gb})")
        # active metrics
        g = gb
        if d.wrapper.grouper.is_grouped(group_by=g):
            for name in ("active_drawdown", "active_duration", "active_recovery", "active_recovery_return", "active_recovery_duration"):
                ctx.raises(ValueError, lambda: getattr(d, name)(group_by=g), msg=f"{name} of a grouped object")
            g = False
            ctx.seen("grouped_active_refused")
        act = [[x for x in rr if x[0] == j and x[8] == 0] for j in range(c)]
        ctx.check(all(len(x) <= 1 for x in act), "more than one active drawdown per column")
        num = lambda f: [f(*x[0]) if x else NAN for x in act]
        F = np.float64
        ctx.eq(flat(d.active_drawdown(group_by=g)).astype(float), num(lambda cc, p, s, v, e, pv, vv, ev, t: F(ev - pv) / F(pv)), "active_drawdown")
        ctx.eq(flat(d.active_recovery(group_by=g)).astype(float), num(lambda cc, p, s, v, e, pv, vv, ev, t: F(ev - vv) / F(pv - vv)), "active_recovery")
        ctx.eq(flat(d.active_recovery_return(group_by=g)).astype(float), num(lambda cc, p, s, v, e, pv, vv, ev, t: F(ev - vv) / F(vv)), "active_recovery_return")
        ctx.eq(days(d.active_duration(group_by=g)), num(lambda cc, p, s, v, e, pv, vv, ev, t: e - s + 1.0), "active_duration")
        ctx.eq(days(d.active_recovery_duration(group_by=g)), num(lambda cc, p, s, v, e, pv, vv, ev, t: float(e - v)), "active_recovery_duration")
    ctx.seen("drawdowns", len(rr))
    for x in rr:
        ctx.seen("recovered" if x[8] else "active")
    if np.isnan(a).any():
        ctx.seen("with_nan")
    ctx.nontrivial(a.tobytes(), a.shape)


@monitor(weight=1)
def m_stats(ctx):
    """The two statistics tables, for one column or group and aggregated."""
    rng = ctx.rng
    n, c = int(rng.integers(3, 16)), int(rng.integers(1, 4))
    a = series_values(ctx, n, c, pick(rng, ["lattice", "walk", "prices"]))
    o = obj(ctx, a)
    tol = dict(rtol=1e-9, atol=3e-5)
    day = lambda v: v if np.isscalar(v) and not isinstance(v, pd.Timedelta) and not pd.isnull(v) else (NAN if pd.isnull(v) else v / pd.Timedelta("1D"))
    k = int(rng.integers(c))
    frame = isinstance(o, pd.DataFrame)
    colkw = dict(column=o.columns[k]) if frame else {}
    if frame and not o.columns.is_unique:
        raise Skip
    # ranges
    r = o.vbt(freq="D").ranges
    s = r.stats(silence_warnings=True, **colkw)
    rr = [x for x in ref_ranges(a, NAN) if x[0] == k]
    dur = pd.Series([float(e - b + (1 if st == 0 else 0)) for _, b, e, st in rr], dtype=float)
    t = cover(rr, range(len(rr)), n)
    e = {"Period": n, "Coverage": (t > 0).sum() if rr else NAN, "Overlap Coverage": (t > 1).sum() if rr else NAN, "Total Records": len(rr),
         "Duration: Min": dur.min(), "Duration: Median": dur.median(), "Duration: Max": dur.max(), "Duration: Mean": dur.mean(), "Duration: Std": dur.std(ddof=1)}
    ctx.check(s["Start"] == o.index[0] and s["End"] == o.index[-1], "stats start/end")
    ctx.check(list(s.index) == ["Start", "End"] + list(e), "range stats labels", got=list(s.index))
    for name, v in e.items():
        ctx.eq(float(day(s[name])), float(v), f"range stats {name}", **tol)
    # drawdowns
    d = o.vbt(freq="D").drawdowns
    incl = bool(rng.random() < 0.5)
    s = d.stats(settings=dict(incl_active=incl), silence_warnings=True, **colkw)
    A = np.array([x for x in ref_dds(a) if x[0] == k], float).reshape(-1, 9)
    R = A[A[:, 8] == 1]
    act = A[A[:, 8] == 0]
    B = A if incl else R
    f = lambda v, g: g(v) if len(v) else NAN
    with np.errstate(all="ignore"):
        e = {"Period": n, "Coverage [%]": NAN, "Total Records": len(A), "Total Recovered Drawdowns": len(R), "Total Active Drawdowns": len(act),
             "Active Drawdown [%]": f(act, lambda x: -(x[0, 7] - x[0, 5]) / x[0, 5] * 100),
             "Active Duration": f(act, lambda x: x[0, 4] - x[0, 2] + 1),
             "Active Recovery [%]": f(act, lambda x: (x[0, 7] - x[0, 6]) / (x[0, 5] - x[0, 6]) * 100),
             "Active Recovery Return [%]": f(act, lambda x: (x[0, 7] - x[0, 6]) / x[0, 6] * 100),
             "Active Recovery Duration": f(act, lambda x: x[0, 4] - x[0, 3]),
             "Max Drawdown [%]": f(B, lambda x: -((x[:, 6] - x[:, 5]) / x[:, 5]).min() * 100),
             "Avg Drawdown [%]": f(B, lambda x: -((x[:, 6] - x[:, 5]) / x[:, 5]).mean() * 100),
             "Max Drawdown Duration": f(B, lambda x: (x[:, 4] - x[:, 2] + (x[:, 8] == 0)).max()),
             "Avg Drawdown Duration": f(B, lambda x: (x[:, 4] - x[:, 2] + (x[:, 8] == 0)).mean()),
             "Max Recovery Return [%]": f(R, lambda x: ((x[:, 7] - x[:, 6]) / x[:, 6]).max() * 100),
             "Avg Recovery Return [%]": f(R, lambda x: ((x[:, 7] - x[:, 6]) / x[:, 6]).mean() * 100),
             "Max Recovery Duration": f(R, lambda x: (x[:, 4] - x[:, 3]).max()),
             "Avg Recovery Duration": f(R, lambda x: (x[:, 4] - x[:, 3]).mean()),
             "Avg Recovery Duration Ratio": f(R, lambda x: ((x[:, 4] - x[:, 3]) / (x[:, 3] - x[:, 2] + 1)).mean())}
        if len(A):
            t = cover([(0, int(x[2]), int(x[4]), int(x[8])) for x in A], range(len(A)), n)
            e["Coverage [%]"] = (t > 0).sum() / n * 100
    ctx.check(list(s.index) == ["Start", "End"] + list(e), "drawdown stats labels", got=list(s.index))
    for name, v in e.items():
        ctx.eq(float(day(s[name])), float(v), f"drawdown stats {name} (incl_active={incl})", **tol)
    ctx.seen("stats_tables")
    ctx.nontrivial("stats", a.tobytes(), a.shape)


@monitor(once=True, modes=("pure", "jit"))
def m_no_steps(ctx):
    """Ranges that span no step at all (same-bar trades): coverage is a number, not an exception."""
    w = vbt.ArrayWrapper(pd.RangeIndex(4), ["a", "b"], 2)
    r = np.zeros(3, range_dt)
    r["id"], r["col"], r["start_idx"], r["end_idx"], r["status"] = [0, 1, 2], [0, 0, 1], [1, 1, 0], [1, 1, 2], 1
    o = vbt.Ranges(w, r)
    with np.errstate(all="ignore"):
        ctx.eq(o.coverage(overlapping=True, normalize=True).values, [NAN, 0.0], "overlapping coverage without steps")
    ctx.eq(o.coverage(overlapping=True, normalize=False).values, [0.0, 0.0], "overlapping steps without steps")
    ctx.eq(o.coverage().values, [0.0, 0.5], "coverage without steps")
