"""Workload generators shared by the monitors."""
import numpy as np
import pandas as pd
from . import model as M

NAN, INF = np.nan, np.inf


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def dt_index(rng, n, freq=None):
    freq = freq or pick(rng, ["D", "h", "7D"])
    return pd.date_range("2020-01-01", periods=n, freq=freq)


def prices(rng, n, c, kind=None, nan=None):
    """(n, c) positive prices with jumps, ties, gaps; optional NaN holes."""
    kind = kind or pick(rng, ["walk", "walk", "wild", "grid", "flat", "tiny", "big"])
    if kind == "walk":
        p = 100 * np.exp(np.cumsum(rng.normal(0, 0.05, (n, c)), axis=0))
    elif kind == "wild":
        p = 10 * np.exp(np.cumsum(rng.normal(0, 0.5, (n, c)), axis=0))
    elif kind == "grid":
        p = rng.integers(1, 6, (n, c)).astype(float)
    elif kind == "flat":
        p = np.full((n, c), float(rng.integers(1, 20)))
        p[rng.random((n, c)) < 0.3] *= 1.5
    elif kind == "tiny":
        p = 1e-4 * np.exp(np.cumsum(rng.normal(0, 0.2, (n, c)), axis=0))
    else:
        p = 1e6 * np.exp(np.cumsum(rng.normal(0, 0.2, (n, c)), axis=0))
    if nan is None:
        nan = rng.random() < 0.25
    if nan:
        p[rng.random((n, c)) < 0.15] = NAN
        if rng.random() < 0.3:
            p[: int(rng.integers(1, max(2, n // 2))), int(rng.integers(c))] = NAN
    return p


def ohlc(rng, n, c, **kw):
    close = prices(rng, n, c, **kw)
    prev = np.vstack([close[:1], close[:-1]])
    gap = 1 + rng.normal(0, 0.03, (n, c)) * (rng.random((n, c)) < 0.5)
    open_ = prev * gap
    hi = np.fmax(open_, close) * (1 + np.abs(rng.normal(0, 0.04, (n, c))) * (rng.random((n, c)) < 0.7))
    lo = np.fmin(open_, close) * (1 - np.minimum(np.abs(rng.normal(0, 0.04, (n, c))), 0.5) * (rng.random((n, c)) < 0.7))
    return open_, hi, lo, close


def columns(rng, c, kind=None):
    kind = kind or pick(rng, ["str", "int", "multi", "range"])
    if kind == "str":
        return pd.Index([f"c{j}" for j in range(c)], name=pick(rng, [None, "sym"]))
    if kind == "int":
        return pd.Index(list(rng.permutation(c * 2)[:c] + 10), name="p")
    if kind == "range":
        return pd.RangeIndex(c)
    a = [int(x) for x in np.sort(rng.integers(0, 3, c))]
    return pd.MultiIndex.from_arrays([a, [f"c{j}" for j in range(c)]], names=["g", "s"])


def frame(a, index, cols, series_if_one=False):
    if series_if_one and a.shape[1] == 1:
        return pd.Series(a[:, 0], index=index, name=cols[0])
    return pd.DataFrame(a, index=index, columns=cols)


class Arg:
    """An argument passed in some broadcastable form plus its full (n, c) expansion."""

    def __init__(self, raw, full, form):
        self.raw, self.full, self.form = raw, full, form


def arg(rng, n, c, draw, forms=("scalar", "row", "col", "full", "frame"), p=None, index=None, cols=None):
    """draw(shape) -> array of that shape."""
    form = pick(rng, forms, p)
    if form == "scalar":
        v = np.asarray(draw((1, 1)))
        x = v[0, 0]
        raw = x.item() if hasattr(x, "item") else x
        return Arg(raw, np.broadcast_to(v, (n, c)), form)
    if form == "row":      # one value per column
        v = np.asarray(draw((1, c)))
        return Arg(v if rng.random() < 0.5 or c == 1 else v[0], np.broadcast_to(v, (n, c)), form)
    if form == "col":      # one value per bar
        v = np.asarray(draw((n, 1)))
        return Arg(v, np.broadcast_to(v, (n, c)), form)
    v = np.asarray(draw((n, c)))
    if form == "frame" and index is not None:
        return Arg(pd.DataFrame(v, index=index, columns=cols), v, form)
    return Arg(v, v, "full")


def const(v):
    return lambda shape: np.full(shape, v)


def choice(rng, vals, p=None):
    vals = list(vals)

    def draw(shape):
        k = rng.choice(len(vals), size=shape, p=p)
        return np.array(vals)[k]
    return draw


def mixf(rng, special, p_special, base):
    """base(shape) floats with special values mixed in."""
    def draw(shape):
        v = np.asarray(base(shape), float).copy()
        m = rng.random(shape) < p_special
        if len(special):
            v[m] = rng.choice(np.asarray(special, float), size=int(m.sum()))
        return v
    return draw


def group_lens(rng, c):
    """Random composition of c."""
    out = []
    while sum(out) < c:
        out.append(int(rng.integers(1, min(4, c - sum(out)) + 1)))
    return out


def groups_from_lens(gl):
    return np.repeat(np.arange(len(gl)), gl)


ORDER_ARG_NAMES = list(M.ORDER_DEFAULTS)


def order_args(rng, n, c, index=None, cols=None, hostile=True, directions=None, size_types=None, log=True,
               reject=False, price=True, p=(0.4, 0.2, 0.15, 0.15, 0.1), forms=("scalar", "row", "col", "full", "frame"), scale=1.0):
    """Random arguments of an order-based simulation as {name: Arg}."""
    A = {}

    def mk(name, draw, prob=1.0, default=None):
        d = draw if rng.random() < prob else const(default)
        A[name] = arg(rng, n, c, d, forms=forms, p=p, index=index, cols=cols)
    st = pick(rng, [0, 1, 2, 3, 4, 5, -1, -1]) if size_types is None else pick(rng, size_types)
    if st == -1:
        A["size_type"] = arg(rng, n, c, choice(rng, [0, 1, 2, 3, 4, 5]), forms=("row", "full"))
    else:
        A["size_type"] = Arg(int(st), np.full((n, c), int(st)), "scalar")
    stf = A["size_type"].full
    base = rng.normal(0, 1, (n, c))
    mag = np.select([stf == 0, stf == 1, stf == 2, stf == 3, stf == 4], [5.0 * scale, 60.0, 0.6, 5.0 * scale, 60.0], 0.5)
    size = base * mag
    if rng.random() < 0.3:
        size = np.round(size, 1 if mag.max() < 3 else 0)
    m = rng.random((n, c))
    size[m < 0.2] = NAN if rng.random() < 0.5 else 0.0
    if hostile:
        if not np.isin(stf, [3, 4, 5]).any():
            size[(m > 0.85)] = INF
            size[(m > 0.93)] = -INF
    if rng.random() < 0.08:
        v = float(pick(rng, [1.0, INF, 0.5]))
        if stf.max() > 2 and np.isinf(v):
            v = 1.0
        A["size"] = Arg(v, np.full((n, c), v), "scalar")
    elif index is not None and rng.random() < 0.5:
        A["size"] = Arg(pd.DataFrame(size, index=index, columns=cols), size, "frame")
    else:
        A["size"] = Arg(size, size, "full")
    A["direction"] = arg(rng, n, c, choice(rng, directions or [2]), forms=("scalar", "row"))
    mk("fees", choice(rng, [0.0, 0.001, 0.01, 0.1]), 0.6, 0.0)
    mk("fixed_fees", choice(rng, [0.0, 0.1, 1.0, 5.0]), 0.4, 0.0)
    mk("slippage", choice(rng, [0.0, 0.001, 0.01, 0.1]), 0.5, 0.0)
    mk("min_size", choice(rng, [0.0, 0.1 * scale, 1.0 * scale, 3.0 * scale]), 0.35, 0.0)
    mk("max_size", choice(rng, [INF, 1.0 * scale, 2.5 * scale, 10.0 * scale]), 0.35, INF)
    mk("size_granularity", choice(rng, [NAN, 0.1 * scale, 1.0 * scale, 0.25 * scale]), 0.3, NAN)
    mk("lock_cash", choice(rng, [False, True]), 0.4, False)
    mk("allow_partial", choice(rng, [True, False], p=[0.7, 0.3]), 0.4, True)
    A["raise_reject"] = Arg(False, np.full((n, c), False), "scalar")
    A["reject_prob"] = Arg(0.0, np.full((n, c), 0.0), "scalar") if not reject else arg(rng, n, c, choice(rng, [0.0, 0.3, 1.0]), forms=("scalar", "row"))
    A["log"] = Arg(bool(log), np.full((n, c), bool(log)), "scalar")
    if price:
        k = rng.random()
        if k < 0.5:
            A["price"] = Arg(INF, np.full((n, c), INF), "scalar")
        else:
            A["price"] = arg(rng, n, c, mixf(rng, [INF, -INF, INF], 0.5 if k < 0.8 else 0.95, lambda s: rng.uniform(0.5, 1.5, s) * 10 * scale ** -1), forms=("row", "full", "col"))
    k = rng.random()
    A["val_price"] = Arg(INF, np.full((n, c), INF), "scalar") if k < 0.5 else (
        Arg(-INF, np.full((n, c), -INF), "scalar") if k < 0.7 else
        arg(rng, n, c, mixf(rng, [INF, -INF, NAN], 0.6, lambda s: rng.uniform(0.5, 2.0, s) * 10), forms=("row", "full", "col")))
    return A


def raw(A):
    return {k: a.raw for k, a in A.items()}


def getter(A):
    f = {k: a.full for k, a in A.items()}

    def get(name, i, c):
        v = f[name][i, c]
        return v.item() if hasattr(v, "item") else v
    return get


def bools(rng, n, c, p=None):
    p = p if p is not None else pick(rng, [0.05, 0.2, 0.5, 0.8])
    return rng.random((n, c)) < p


def floats(rng, n, c, nan=None, kind=None):
    """Generic float arrays: ties, NaN runs, offsets, constants."""
    kind = kind or pick(rng, ["normal", "ties", "offset", "const", "mono", "walk"])
    if kind == "normal":
        a = rng.normal(0, 1, (n, c))
    elif kind == "ties":
        a = rng.integers(-2, 3, (n, c)).astype(float)
    elif kind == "offset":
        a = 1e6 + rng.normal(0, 1, (n, c))
    elif kind == "const":
        a = np.full((n, c), float(rng.integers(-3, 4)))
    elif kind == "mono":
        a = np.cumsum(rng.random((n, c)), axis=0) * pick(rng, [1, -1])
    else:
        a = np.cumsum(rng.normal(0, 1, (n, c)), axis=0)
    if nan is None:
        nan = rng.random() < 0.6
    if nan:
        a = a.copy()
        a[rng.random((n, c)) < pick(rng, [0.1, 0.3, 0.7])] = NAN
        if rng.random() < 0.2:
            a[:, int(rng.integers(c))] = NAN
    return a


def signal_args(rng, n, c, index=None, cols=None, stops=None, ls=None, simple=False, log=True, scale=1.0, size_types=None, p_sig=None,
                forms=("scalar", "row", "col", "full", "frame"), ohlc_arrays=None):
    """Random arguments of a signal-based simulation: ({name: Arg}, ls flag)."""
    A = {}
    p = (0.4, 0.2, 0.15, 0.15, 0.1)
    if len(forms) != 5:
        p = None

    def mk(name, draw, prob=1.0, default=None):
        d = draw if rng.random() < prob else const(default)
        A[name] = arg(rng, n, c, d, forms=forms, p=p, index=index, cols=cols)
    ls = bool(rng.random() < 0.5) if ls is None else ls
    q = p_sig if p_sig is not None else pick(rng, [0.1, 0.3, 0.5])
    for k in (("entries", "exits", "short_entries", "short_exits") if ls else ("entries", "exits")):
        b = bools(rng, n, c, min(0.9, q * pick(rng, [0.3, 1, 1.5])))
        A[k] = Arg(pd.DataFrame(b, index=index, columns=cols) if index is not None and rng.random() < 0.3 else b, b, "full")
        if rng.random() < 0.08:
            v = bool(rng.random() < 0.5)
            A[k] = Arg(v, np.full((n, c), v), "scalar")
    if not ls:
        A["direction"] = arg(rng, n, c, choice(rng, [0, 1, 2]), forms=("scalar", "row", "full"))
    st = pick(rng, size_types if size_types is not None else [0, 0, 1, 2, -1])
    acc_vals = [0, 1, 2, 3]
    if st == 2:
        acc_vals = [0, 1, 1, 1, 2, 3]
    if st == -1:
        A["size_type"] = arg(rng, n, c, choice(rng, [0, 1]), forms=("row", "full"))
    else:
        A["size_type"] = Arg(int(st), np.full((n, c), int(st)), "scalar")
    stf = A["size_type"].full
    base = np.abs(rng.normal(1, 0.6, (n, c))) * np.select([stf == 0, stf == 1], [3.0 * scale, 40.0], 0.4)
    k = rng.random((n, c))
    base[k < 0.08] = NAN
    base[(k > 0.9) & (stf != 2)] = INF
    base[(k > 0.08) & (k < 0.1)] = 0.0
    if rng.random() < 0.3:
        v = float(pick(rng, [INF, 1.0 * scale])) if st != 2 else 0.5
        A["size"] = Arg(v, np.full((n, c), v), "scalar")
    else:
        A["size"] = Arg(base, base, "full")
    mk("accumulate", choice(rng, acc_vals), 0.7, 1 if st == 2 else 0)
    mk("upon_long_conflict", choice(rng, range(5)), 0.7, 0)
    mk("upon_short_conflict", choice(rng, range(5)), 0.7, 0)
    mk("upon_dir_conflict", choice(rng, range(5)), 0.7, 0)
    mk("upon_opposite_entry", choice(rng, range(5) if st != 2 else [0, 1, 2]), 0.7, 4 if st != 2 else 1)
    if simple:
        for nm, v in (("fees", 0.0), ("fixed_fees", 0.0), ("slippage", 0.0), ("min_size", 0.0), ("max_size", INF), ("size_granularity", NAN),
                      ("lock_cash", False), ("allow_partial", True)):
            A[nm] = Arg(v, np.full((n, c), v), "scalar")
    else:
        mk("fees", choice(rng, [0.0, 0.001, 0.01]), 0.5, 0.0)
        mk("fixed_fees", choice(rng, [0.0, 0.1, 1.0]), 0.3, 0.0)
        mk("slippage", choice(rng, [0.0, 0.001, 0.02]), 0.5, 0.0)
        mk("min_size", choice(rng, [0.0, 0.5 * scale]), 0.25, 0.0)
        mk("max_size", choice(rng, [INF, 2.0 * scale, 10.0 * scale]), 0.25, INF)
        mk("size_granularity", choice(rng, [NAN, 0.1 * scale, 1.0 * scale]), 0.2, NAN)
        mk("lock_cash", choice(rng, [False, True]), 0.4, False)
        mk("allow_partial", choice(rng, [True, False]), 0.3, True)
    for nm, v in (("reject_prob", 0.0), ("raise_reject", False), ("log", bool(log))):
        A[nm] = Arg(v, np.full((n, c), v), "scalar")
    k = rng.random()
    A["price"] = Arg(INF, np.full((n, c), INF), "scalar") if k < 0.5 else (
        Arg(-INF, np.full((n, c), -INF), "scalar") if k < 0.65 else
        arg(rng, n, c, mixf(rng, [INF, -INF, INF], 0.6, lambda s: rng.uniform(0.5, 1.5, s) * 10 / scale), forms=("row", "full", "col")))
    k = rng.random()
    A["val_price"] = Arg(INF, np.full((n, c), INF), "scalar") if k < 0.6 else (
        Arg(-INF, np.full((n, c), -INF), "scalar") if k < 0.75 else
        arg(rng, n, c, mixf(rng, [INF, -INF, NAN], 0.6, lambda s: rng.uniform(0.5, 2.0, s) * 10 / scale), forms=("row", "full", "col")))
    stops = bool(rng.random() < 0.5) if stops is None else stops
    if stops:
        lv = pick(rng, [[0.01, 0.05, 0.1], [0.1, 0.3], [0.0, 0.02, 0.5]])
        kinds = pick(rng, ["sl", "tp", "both", "both"])
        mk("sl_stop", mixf(rng, [NAN], pick(rng, [0.0, 0.3]), choice(rng, lv)), 1.0 if kinds != "tp" else 0.0, NAN)
        mk("tp_stop", mixf(rng, [NAN], pick(rng, [0.0, 0.3]), choice(rng, lv)), 1.0 if kinds != "sl" else 0.0, NAN)
        mk("sl_trail", choice(rng, [False, True]), 0.7, False)
        mk("stop_entry_price", choice(rng, range(4)), 0.6, 3)
        mk("stop_exit_price", choice(rng, range(4)), 0.6, 0)
        mk("upon_stop_exit", choice(rng, range(4) if st != 2 else [0, 1]), 0.6, 0)
        mk("upon_stop_update", choice(rng, range(3)), 0.6, 1)
    else:
        for nm, v in (("sl_stop", NAN), ("tp_stop", NAN), ("sl_trail", False), ("stop_entry_price", 3), ("stop_exit_price", 0),
                      ("upon_stop_exit", 0), ("upon_stop_update", 1)):
            A[nm] = Arg(v, np.full((n, c), v), "scalar")
    if ohlc_arrays is not None:
        for nm, a in zip(("open", "high", "low"), ohlc_arrays):
            a = a.copy()
            if rng.random() < 0.3:
                a[rng.random(a.shape) < 0.2] = NAN
            if rng.random() < 0.15:
                A[nm] = Arg(NAN, np.full((n, c), NAN), "scalar")
            else:
                A[nm] = Arg(pd.DataFrame(a, index=index, columns=cols) if index is not None and rng.random() < 0.5 else a, a, "full")
    else:
        for nm in ("open", "high", "low"):
            A[nm] = Arg(NAN, np.full((n, c), NAN), "scalar")
    return A, ls


def omit(rng, kw, defaults):
    """Leave out (half of the time each) the arguments that equal their documented default."""
    return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and rng.random() < 0.5)}
