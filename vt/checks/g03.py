"""G03: user functions see exactly the right window, group, bin or element, once, and results land at the right place."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.generic import dispatch
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


class Spy:
    """Callback recording every call; returns a distinct value (or vector) per key."""

    def __init__(self, ctx, width=None, nkey=1, boolean=False):
        self.ctx, self.calls, self.width, self.nkey, self.boolean = ctx, {}, width, nkey, boolean
        self.rng = np.random.default_rng(int(ctx.rng.integers(1 << 30)))
        self.out = {}

    def __call__(self, *args):
        key = tuple(int(x) if not isinstance(x, np.ndarray) else tuple(x.tolist()) for x in args[:self.nkey])
        self.ctx.check(key not in self.calls, f"called twice for {key}")
        self.calls[key] = np.array(args[self.nkey], dtype=float, copy=True)
        self.ctx.check(args[self.nkey + 1:] == (7, "x"), f"extra arguments {args[self.nkey + 1:]}")
        w = self.width
        if callable(w):
            w = w(args[self.nkey])
        if self.boolean:
            v = bool(self.rng.random() < 0.5)
        else:
            v = float(self.rng.normal()) if w is None else self.rng.normal(size=w)
        self.out[key] = v
        return v

    def verify(self, expected, what):
        e = {k: np.array(v, float) for k, v in expected.items()}
        self.ctx.check(set(self.calls) == set(e), f"{what}: called for {sorted(self.calls)[:20]} instead of {sorted(e)[:20]}")
        for k in e:
            self.ctx.check(self.calls[k].shape == e[k].shape, f"{what}: argument shape {self.calls[k].shape} instead of {e[k].shape} for {k}")
            self.ctx.eq(self.calls[k], e[k], f"{what}: argument for {k}", rtol=0, atol=0)
        self.ctx.seen("calls", len(e))


def data(ctx, nan=None, n=None, c=None):
    rng = ctx.rng
    n = n or int(rng.integers(1, 10))
    c = c or int(rng.integers(1, 6))
    a = rng.normal(0, 5, (n, c)) if rng.random() < 0.8 else rng.integers(-9, 9, (n, c))
    if a.dtype.kind == "f" and (nan if nan is not None else rng.random() < 0.5):
        a[rng.random((n, c)) < 0.3] = NAN
    return a


def obj(ctx, a, idx=None):
    rng = ctx.rng
    n, c = a.shape
    idx = gen.dt_index(rng, n, "D") if idx is None else idx
    if c == 1 and rng.random() < 0.5:
        return pd.Series(a[:, 0].copy(), index=idx, name="s")
    return pd.DataFrame(a.copy(), index=idx, columns=gen.columns(rng, c))


def shape_ok(ctx, out, o, what):
    ctx.check(type(out) is type(o) and list(out.index) == list(o.index), f"{what}: type/index")
    if isinstance(o, pd.DataFrame):
        ctx.check(list(out.columns) == list(o.columns), f"{what}: columns")


EX = (7, "x")


@monitor(weight=4)
def m_windows(ctx):
    rng = ctx.rng
    a = data(ctx)
    n, c = a.shape
    o = obj(ctx, a)
    f = np.asarray(a, float)
    # columns and rows
    s = Spy(ctx, width=n)
    out = o.vbt.apply_along_axis(s, *EX, axis=0)
    s.verify({(j,): f[:, j] for j in range(c)}, "apply columns")
    shape_ok(ctx, out, o, "apply columns")
    ctx.eq(np.asarray(out).reshape(n, c), np.array([s.out[(j,)] for j in range(c)]).T, "apply columns: results", rtol=0, atol=0)
    s = Spy(ctx, width=c)
    out = o.vbt.apply_along_axis(s, *EX, axis=1)
    s.verify({(i,): f[i] for i in range(n)}, "apply rows")
    shape_ok(ctx, out, o, "apply rows")
    ctx.eq(np.asarray(out).reshape(n, c), [s.out[(i,)] for i in range(n)], "apply rows: results", rtol=0, atol=0)
    ctx.raises(ValueError, lambda: o.vbt.apply_along_axis(s, axis=2), msg="axis 2")
    # rolling and expanding
    for w in (int(rng.integers(1, n + 3)), None):
        minp = pick(rng, [None, 0, 1, int(rng.integers(0, (w or n) + 1))])
        ww = w or n
        mp = ww if minp is None else minp
        s = Spy(ctx, nkey=2)
        kw = dict(minp=minp)
        if w is None and rng.random() < 0.3:
            kw, mp = {}, 1
        out = o.vbt.rolling_apply(w, s, *EX, **kw) if w else o.vbt.expanding_apply(s, *EX, **kw)
        exp = {}
        for j in range(c):
            for i in range(n):
                win = f[max(0, i + 1 - ww):i + 1, j]
                if (~np.isnan(win)).sum() >= mp:
                    exp[(i, j)] = win
        s.verify(exp, f"rolling window {w} minp {minp} of {f.tolist()}")
        shape_ok(ctx, out, o, "rolling_apply")
        e = np.full((n, c), NAN)
        for k in exp:
            e[k] = s.out[k]
        ctx.eq(np.asarray(out).reshape(n, c), e, "rolling_apply: results", rtol=0, atol=0)
        ctx.seen("rolling" if w else "expanding")
        if not np.isnan(f).any():            # with missing values: see known findings
            s = Spy(ctx, width=c)
            out = o.vbt.rolling_apply(w, s, *EX, minp=minp, on_matrix=True) if w else o.vbt.expanding_apply(s, *EX, minp=minp, on_matrix=True)
            mp = ww if minp is None else minp
            exp = {(i,): f[max(0, i + 1 - ww):i + 1] for i in range(n) if min(i + 1, ww) >= mp}
            s.verify(exp, f"rolling matrix {w} minp {minp}")
            shape_ok(ctx, out, o, "rolling matrix")
            ctx.eq(np.asarray(out).reshape(n, c), [s.out[(i,)] if (i,) in exp else [NAN] * c for i in range(n)], "rolling matrix: results", rtol=0, atol=0)
            ctx.seen("rolling_matrix")
    # elements
    s = Spy(ctx, nkey=2)
    out = o.vbt.applymap(s, *EX)
    cells = {(i, j): f[i, j] for i in range(n) for j in range(c) if f[i, j] == f[i, j]}
    s.verify(cells, "applymap")
    shape_ok(ctx, out, o, "applymap")
    ctx.eq(np.asarray(out).reshape(n, c), [[s.out.get((i, j), NAN) for j in range(c)] for i in range(n)], "applymap: results", rtol=0, atol=0)
    s = Spy(ctx, nkey=2, boolean=True)
    out = o.vbt.filter(s, *EX)
    s.verify(cells, "filter")
    shape_ok(ctx, out, o, "filter")
    ctx.eq(np.asarray(out).reshape(n, c), [[f[i, j] if s.out.get((i, j), False) else NAN for j in range(c)] for i in range(n)], "filter: results", rtol=0, atol=0)
    ctx.seen("elements", len(cells))
    ctx.eq(a, np.asarray(o).reshape(n, c), "input untouched", rtol=0, atol=0)
    ctx.nontrivial(a.tobytes(), a.shape)


@monitor(weight=3)
def m_groupby(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    a = data(ctx, n=n)
    c = a.shape[1]
    o = obj(ctx, a)
    f = np.asarray(a, float)
    kind = pick(rng, ["int", "str", "func", "level", "runs"])
    lab = rng.integers(0, 4, n)
    kw = {}
    if kind == "int":
        by = lab
    elif kind == "str":
        by = lab = np.array(["q", "a", "zz", "m"], object)[lab]
    elif kind == "runs":
        by = lab = np.sort(lab)[::-1].copy()
    elif kind == "func":
        by, lab = (lambda t: t.day % 3), np.array([t.day % 3 for t in o.index])
    else:
        by, lab, kw = None, np.asarray(o.index), dict(level=0)
    keys = sorted(set(lab.tolist() if kind != "level" else list(o.index)))
    rows = {k: [i for i in range(n) if (lab[i] if kind != "level" else o.index[i]) == k] for k in keys}
    s = Spy(ctx, nkey=2)
    out = o.vbt.groupby_apply(by, s, *EX, **kw)
    s.verify({(tuple(rows[k]), j): f[rows[k], j] for k in keys for j in range(c)}, f"groupby {kind}")
    ctx.check(set(out.index) == set(keys) and len(out.index) == len(keys), f"groupby: labels {list(out.index)} against {keys}")
    for k in keys:
        ctx.eq(np.atleast_1d(np.asarray(out.loc[k])), [s.out[(tuple(rows[k]), j)] for j in range(c)], f"groupby: result of group {k}", rtol=0, atol=0)
    s = Spy(ctx, width=c)
    out = o.vbt.groupby_apply(by, s, *EX, on_matrix=True, **kw)
    s.verify({(tuple(rows[k]),): f[rows[k]] for k in keys}, f"groupby matrix {kind}")
    for k in keys:
        ctx.eq(np.atleast_1d(np.asarray(out.loc[k])), s.out[(tuple(rows[k]),)], f"groupby matrix: result of group {k}", rtol=0, atol=0)
    ctx.check((list(out.columns) == list(o.columns)) if isinstance(o, pd.DataFrame) else isinstance(out, pd.Series), "groupby: columns")
    ctx.seen("groupby_groups", len(keys))
    ctx.nontrivial(a.tobytes(), kind, str(keys))


@monitor(weight=3)
def m_resample(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 14))
    a = data(ctx, n=n)
    c = a.shape[1]
    step = pick(rng, ["h", "D", "irregular", "min"])
    start = pd.Timestamp("2020-01-01") + pd.Timedelta(hours=int(rng.integers(0, 60)))
    if step == "irregular":
        idx = pd.DatetimeIndex([start + pd.Timedelta(hours=int(x)) for x in np.sort(rng.choice(24 * 12, n, replace=False))])
        freq = pick(rng, ["6h", "1D", "3D", "W"])
    else:
        idx = pd.date_range(start, periods=n, freq=step)
        freq = {"h": ["2h", "5h", "1D"], "D": ["2D", "W", "MS", "ME", "3D"], "min": ["3min", "7min", "1h"]}[step]
        freq = pick(rng, freq)
    if rng.random() < 0.3:
        idx = idx.tz_localize(pick(rng, ["UTC", "Europe/Berlin"]))
    kw = {}
    if rng.random() < 0.3:
        kw["closed"] = pick(rng, ["left", "right"])
    if rng.random() < 0.3:
        kw["label"] = pick(rng, ["left", "right"])
    if rng.random() < 0.2 and freq not in ("W", "MS", "ME"):
        kw["origin"] = pick(rng, ["start", "epoch", "start_day"])
    o = obj(ctx, a, idx)
    f = np.asarray(a, float)
    ref = pd.Series(np.arange(n), index=idx).resample(freq, **kw)
    bins = {k: v.tolist() for k, v in ref}
    for matrix in (False, True):
        s = Spy(ctx, width=c) if matrix else Spy(ctx, nkey=2)
        out = o.vbt.resample_apply(freq, s, *EX, on_matrix=matrix, **kw)
        full = {k: v for k, v in bins.items() if v}
        if matrix:
            s.verify({(tuple(v),): f[v] for v in full.values()}, f"resample {freq} {kw}")
        else:
            s.verify({(tuple(v), j): f[v, j] for v in full.values() for j in range(c)}, f"resample {freq} {kw}")
        ctx.check(list(out.index) == list(bins), f"resample {freq} {kw}: bins {list(out.index)} against {list(bins)}")
        for k, v in bins.items():
            e = [NAN] * c if not v else (s.out[(tuple(v),)] if matrix else [s.out[(tuple(v), j)] for j in range(c)])
            ctx.eq(np.atleast_1d(np.asarray(out.loc[k], float)), e, f"resample {freq} {kw}: bin {k}", rtol=0, atol=0)
            if not v:
                ctx.seen("empty_bins")
    ctx.seen("bins", len(bins))
    ctx.nontrivial(a.tobytes(), freq, str(kw), str(idx[0]))


@monitor(weight=4)
def m_reduce(ctx):
    rng = ctx.rng
    a = data(ctx)
    n, c = a.shape
    o = obj(ctx, a)
    f = np.asarray(a, float)
    frame = isinstance(o, pd.DataFrame)
    s = Spy(ctx)
    out = o.vbt.reduce(s, *EX)
    s.verify({(j,): f[:, j] for j in range(c)}, "reduce")
    ctx.eq(np.atleast_1d(np.asarray(out)), [s.out[(j,)] for j in range(c)], "reduce: results", rtol=0, atol=0)
    if frame:
        ctx.check(list(out.index) == list(o.columns), "reduce: labels")
    k = int(rng.integers(1, 4))
    s = Spy(ctx, width=k)
    out = o.vbt.reduce(s, *EX, returns_array=True)
    s.verify({(j,): f[:, j] for j in range(c)}, "reduce to array")
    ctx.eq(np.asarray(out).reshape(k, c), np.array([s.out[(j,)] for j in range(c)]).T, "reduce to array: results", rtol=0, atol=0)
    # indices into the column
    got = o.vbt.reduce(lambda col, x: (col + 1) % n, returns_idx=True)
    ctx.check(list(np.atleast_1d(np.asarray(got, object))) == [o.index[(j + 1) % n] for j in range(c)] or list(pd.Index(np.atleast_1d(got))) == [o.index[(j + 1) % n] for j in range(c)], f"reduce to index: {got}")
    got = o.vbt.reduce(lambda col, x: (col + 1) % n, returns_idx=True, to_index=False)
    ctx.eq(np.atleast_1d(np.asarray(got)), [(j + 1) % n for j in range(c)], "reduce to position")
    # apply and reduce
    m = int(rng.integers(1, 4))
    s1, s2 = Spy(ctx, width=m), Spy(ctx)
    out = o.vbt.apply_and_reduce(s1, s2, apply_args=EX, reduce_args=EX)
    s1.verify({(j,): f[:, j] for j in range(c)}, "apply_and_reduce: apply")
    s2.verify({(j,): s1.out[(j,)] for j in range(c)}, "apply_and_reduce: reduce")
    ctx.eq(np.atleast_1d(np.asarray(out)), [s2.out[(j,)] for j in range(c)], "apply_and_reduce: results", rtol=0, atol=0)
    if not frame:
        ctx.seen("series")
        return
    gl = gen.group_lens(rng, c)
    gb = gen.groups_from_lens(gl)
    A, kw = (o.vbt(group_by=gb), {}) if rng.random() < 0.5 else (o.vbt, dict(group_by=gb))
    names = list(pd.unique(gb))
    ends = np.cumsum(gl)
    blocks = [f[:, e - l:e] for e, l in zip(ends, gl)]
    G = len(gl)

    def labels(out, axis):
        if G > 1:
            ctx.check(list(getattr(out, axis)) == names, f"grouped: labels {list(getattr(out, axis))}")

    for flatten in (False, True):
        order = pick(rng, ["C", "F", "c", "f"])
        arg = [b if not flatten else b.ravel(order=order.upper()) for b in blocks]
        s = Spy(ctx)
        out = A.reduce(s, *EX, flatten=flatten, order=order, **kw)
        s.verify({(g,): arg[g] for g in range(G)}, f"grouped reduce flatten={flatten} {order}")
        ctx.eq(np.atleast_1d(np.asarray(out)), [s.out[(g,)] for g in range(G)], "grouped reduce: results", rtol=0, atol=0)
        labels(out, "index")
        s = Spy(ctx, width=k)
        out = A.reduce(s, *EX, flatten=flatten, order=order, returns_array=True, **kw)
        s.verify({(g,): arg[g] for g in range(G)}, f"grouped reduce to array flatten={flatten} {order}")
        ctx.eq(np.asarray(out).reshape(k, G), np.array([s.out[(g,)] for g in range(G)]).T, "grouped reduce to array: results", rtol=0, atol=0)
        labels(out, "columns")
        if flatten:
            rr, cc = [int(rng.integers(n)) for _ in gl], [int(rng.integers(l)) for l in gl]

            def flat_idx(g, x):
                return np.int64(rr[g] * gl[g] + cc[g] if order.upper() == "C" else cc[g] * n + rr[g])
            out = A.reduce(flat_idx, flatten=True, order=order, returns_idx=True, to_index=False, **kw)
            ctx.eq(np.atleast_1d(np.asarray(out)), rr, f"row of a flattened position (order {order})")
            ctx.seen("flat_idx")
    s = Spy(ctx, nkey=2)
    out = A.squeeze_grouped(s, *EX, **kw)
    s.verify({(i, g): blocks[g][i] for i in range(n) for g in range(G)}, "squeeze")
    ctx.eq(np.asarray(out).reshape(n, G), [[s.out[(i, g)] for g in range(G)] for i in range(n)], "squeeze: results", rtol=0, atol=0)
    labels(out, "columns")
    ctx.check(list(out.index) == list(o.index), "squeeze: index")
    for order in ("C", "F"):
        out = A.flatten_grouped(order=order, **kw)
        mx = int(max(gl))
        got = np.asarray(out, float).reshape(n * mx, G)
        ctx.check(list(out.index) == ([t for t in o.index for _ in range(mx)] if order == "C" else list(o.index) * mx), f"flatten {order}: index")
        for g, b in enumerate(blocks):
            pad = np.full((n, mx), NAN)
            pad[:, :b.shape[1]] = b
            ctx.eq(got[:, g], pad.ravel(order=order), f"flatten_grouped {order} groups {list(map(int, gl))}", rtol=0, atol=0)
        labels(out, "columns")
    if len(set(map(int, gl))) > 1:
        ctx.seen("uneven_groups")
    ctx.raises(ValueError, lambda: o.vbt.squeeze_grouped(s), msg="squeeze without groups")
    ctx.raises(ValueError, lambda: o.vbt.flatten_grouped(), msg="flatten without groups")
    # a series groups its elements
    sr = pd.Series(f[0].copy(), index=o.columns, name="r")
    s = Spy(ctx, nkey=2)
    out = sr.vbt.squeeze_grouped(s, *EX, group_by=gb)
    s.verify({(0, g): blocks[g][0] for g in range(G)}, "series squeeze")
    ctx.eq(np.atleast_1d(np.asarray(out)), [s.out[(0, g)] for g in range(G)], "series squeeze: results", rtol=0, atol=0)
    ctx.seen("grouped", G)
    ctx.nontrivial(a.tobytes(), tuple(map(int, gl)))


@njit
def j_apply(col, a):
    return a * 2 + col


@njit
def j_row(i, a):
    return a * 2 + i


@njit
def j_roll(i, col, a):
    return np.nansum(a) * 10 + i + 1000 * col


@njit
def j_rollm(i, a):
    return a[-1] + a[0] * 2 + i


@njit
def j_grp(idxs, col, a):
    return np.nansum(a) + 1000.0 * col + idxs.sum() * 10


@njit
def j_grpm(idxs, a):
    return a[0] + idxs.sum() * 10


@njit
def j_map(i, col, x):
    return x * 2 + i + 100 * col


@njit
def j_filt(i, col, x):
    return (i + col) % 2 == 0 and x > -5


@njit
def j_red(col, a):
    return np.nansum(a) + 100.0 * col


@njit
def j_reda(col, a):
    return np.array([a.size * 1.0, np.nansum(a), 1.0 * col])


@njit
def j_red2(g, a):
    return np.nansum(a[:, 0]) + a.shape[1] * 100.0 + g * 10000.0


@njit
def j_red2a(g, a):
    return np.array([1.0 * a.shape[0], 1.0 * a.shape[1], a[0, 0], 1.0 * g])


@njit
def j_sq(i, g, a):
    return a[0] + 2 * a[-1] + 10 * i + 1000 * g


@monitor(weight=5, modes=("jit",))
def m_compiled(ctx):
    """The compiled appliers (and their memory layouts) against direct evaluation."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 6))
    a = rng.normal(0, 5, (n, c))
    if rng.random() < 0.4:
        a[rng.random((n, c)) < 0.2] = NAN
    lay = pick(rng, ["C", "C", "F"])
    x = np.asfortranarray(a) if lay == "F" else np.ascontiguousarray(a)
    f = a
    ops = ["apply", "row", "roll", "rollm", "groupby", "groupbym", "map", "filter", "reduce", "reducea", "red2", "red2a", "flat", "flata", "squeeze", "applyred"]
    gl = np.array(gen.group_lens(rng, c), np.int64)
    st = np.concatenate(([0], np.cumsum(gl)))
    blocks = [f[:, st[g]:st[g + 1]] for g in range(len(gl))]
    for op in ops[ctx.case[1] % 2::2]:
        tol = dict(rtol=1e-12, atol=1e-12)
        if op == "apply":
            ctx.eq(dispatch.apply(x, j_apply), f * 2 + np.arange(c), op, **tol)
        elif op == "row":
            ctx.eq(dispatch.row_apply(x, j_row), f * 2 + np.arange(n)[:, None], op, **tol)
        elif op in ("roll", "rollm"):
            w = int(rng.integers(1, n + 2))
            mp = int(rng.integers(0, w + 1))
            e = np.full((n, c), NAN)
            if op == "rollm" and np.isnan(f).any():
                continue
            for i in range(n):
                win = f[max(0, i + 1 - w):i + 1]
                if op == "rollm":
                    if len(win) >= mp:
                        e[i] = win[-1] + win[0] * 2 + i
                else:
                    for j in range(c):
                        if (~np.isnan(win[:, j])).sum() >= mp:
                            e[i, j] = np.nansum(win[:, j]) * 10 + i + 1000 * j
            ctx.eq((dispatch.rolling_apply(x, w, mp, j_roll) if op == "roll" else dispatch.rolling_matrix_apply(x, w, mp, j_rollm)), e, f"{op} {w} {mp}", **tol)
        elif op in ("groupby", "groupbym"):
            o = pd.DataFrame(x)
            by = rng.integers(0, 3, n)
            out = o.vbt.groupby_apply(by, j_grp if op == "groupby" else j_grpm, on_matrix=op == "groupbym")
            for k in set(by.tolist()):
                r = np.flatnonzero(by == k)
                e = [np.nansum(f[r, j]) + 1000 * j + r.sum() * 10 for j in range(c)] if op == "groupby" else f[r[0]] + r.sum() * 10
                ctx.eq(np.asarray(out.loc[k]), e, op, **tol)
        elif op == "map":
            ctx.eq(dispatch.applymap(x, j_map), f * 2 + np.arange(n)[:, None] + 100 * np.arange(c), op, **tol)
        elif op == "filter":
            keep = ((np.arange(n)[:, None] + np.arange(c)) % 2 == 0) & (f > -5)
            ctx.eq(dispatch.filter(x, j_filt), np.where(keep, f, NAN), op, **tol)
        elif op == "reduce":
            ctx.eq(dispatch.reduce(x, j_red), np.nansum(f, axis=0) + 100 * np.arange(c), op, **tol)
        elif op == "reducea":
            ctx.eq(dispatch.reduce_to_array(x, j_reda), [[n] * c, np.nansum(f, axis=0), np.arange(c)], op, **tol)
        elif op == "red2":
            ctx.eq(dispatch.reduce_grouped(x, gl, j_red2), [np.nansum(b[:, 0]) + b.shape[1] * 100 + g * 10000 for g, b in enumerate(blocks)], op, **tol)
        elif op == "red2a":
            ctx.eq(dispatch.reduce_grouped_to_array(x, gl, j_red2a), np.array([[n, b.shape[1], b[0, 0], g] for g, b in enumerate(blocks)]).T, op, **tol)
        elif op == "flat":
            co = bool(rng.random() < 0.5)
            ctx.eq(dispatch.flat_reduce_grouped(x, gl, co, j_red), [np.nansum(b) + 100 * g for g, b in enumerate(blocks)], op, **tol)
        elif op == "flata":
            co = bool(rng.random() < 0.5)
            ctx.eq(dispatch.flat_reduce_grouped_to_array(x, gl, co, j_reda), np.array([[b.size, np.nansum(b), g] for g, b in enumerate(blocks)]).T, op, **tol)
        elif op == "squeeze":
            ctx.eq(dispatch.squeeze_grouped(x, gl, j_sq), np.array([b[:, 0] + 2 * b[:, -1] + 10 * np.arange(n) + 1000 * g for g, b in enumerate(blocks)]).T, op, **tol)
        else:
            ctx.eq(dispatch.apply_and_reduce(x, j_apply, (), j_red, ()), [np.nansum(f[:, j] * 2 + j) + 100 * j for j in range(c)], op, **tol)
        ctx.seen("jit_" + op)
    ctx.nontrivial(a.tobytes(), lay)


@monitor(once=True)
def m_known(ctx):
    """The matrix variant counts the missing values of the current row only."""
    a = np.array([[NAN], [1.0], [2.0]])
    seen = []
    o = pd.DataFrame(a)
    one = o.vbt.rolling_apply(2, lambda i, col, x: np.nansum(x), minp=2)
    mat = o.vbt.rolling_apply(2, lambda i, x: np.nansum(x, axis=0), minp=2, on_matrix=True)
    if not np.array_equal(one.values, mat.values, equal_nan=True):
        ctx.known("rolling-matrix-nan-count", f"rolling_apply(2, minp=2) of [nan, 1, 2] as a one-column frame is {mat.values.ravel().tolist()} with on_matrix=True and {one.values.ravel().tolist()} without: missing values of earlier rows of the window are not counted")
