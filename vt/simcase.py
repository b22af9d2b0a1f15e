"""Whole simulations, reproducible from a seed in any process (compiled or interpreted)."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import NoOrder
from vt import gen
from vt.gen import pick

NAN, INF = np.nan, np.inf


@njit
def pre_sim(c, cnt):
    cnt[0] += 1
    return ()


@njit
def pre_group(c, cnt):
    cnt[1] += 1
    return ()


@njit
def pre_row(c, cnt):
    cnt[1] += 1
    return ()


@njit
def pre_segment(c, cnt, size, price, fees, st):
    cnt[2] += 1
    order_value = np.empty(c.group_len, dtype=np.float64)
    nb.sort_call_seq_nb(c, size, st, np.asarray(2), order_value)
    for col in range(c.from_col, c.to_col):
        c.last_val_price[col] = nb.get_col_elem_nb(c, col, price)
    return ()


@njit
def post_segment(c, cnt, size, price, fees, st):
    cnt[3] += 1
    cnt[4] += c.last_value[c.group] if c.cash_sharing else c.last_value[c.from_col]


@njit
def order(c, cnt, size, price, fees, st):
    cnt[5] += 1
    return nb.order_nb(size=nb.get_elem_nb(c, size), price=nb.get_elem_nb(c, price), size_type=nb.get_elem_nb(c, st), fees=nb.get_elem_nb(c, fees), log=True)


@njit
def post_order(c, cnt, size, price, fees, st):
    cnt[6] += c.order_result.size if c.order_result.status == 0 else 1.0
    cnt[7] += c.position_now


@njit
def flex(c, cnt, size, price, fees, st):
    if c.call_idx < c.group_len:
        cnt[5] += 1
        col = c.from_col + c.call_idx
        return col, nb.order_nb(size=nb.get_col_elem_nb(c, col, size), price=nb.get_col_elem_nb(c, col, price), size_type=nb.get_col_elem_nb(c, col, st),
                                fees=nb.get_col_elem_nb(c, col, fees), log=True)
    return -1, NoOrder


@njit
def flex_pre(c, cnt, size, price, fees, st):
    cnt[2] += 1
    for col in range(c.from_col, c.to_col):
        c.last_val_price[col] = nb.get_col_elem_nb(c, col, price)
    return ()


@njit
def signal(c, en, ex):
    return nb.get_elem_nb(c, en), nb.get_elem_nb(c, ex), False, False


@njit
def adjust_sl(c):
    if c.i - c.init_i >= 2:
        return c.curr_stop * 0.9, not c.curr_trail
    return c.curr_stop, c.curr_trail


@njit
def adjust_tp(c):
    return c.curr_stop * 1.1 if c.i > c.init_i else c.curr_stop


KINDS = ["orders", "signals", "stops", "func", "func_row", "flex", "flex_row", "signal_func", "adjust"]


def build(kind, seed, n=None, c=None):
    """(function running the simulation with extra keyword arguments, description)"""
    rng = np.random.default_rng(seed)
    n = int(rng.integers(1, 14)) if n is None else n
    c = int(rng.integers(1, 4)) if c is None else c
    close = gen.prices(rng, n, c)
    idx = pd.date_range("2020-01-01", periods=n, freq="D")
    cl = pd.DataFrame(close, index=idx, columns=list("abcdef")[:c])
    gl = gen.group_lens(rng, c)
    share = bool(rng.random() < 0.5)
    scale = 10.0 / float(np.nanmedian(close)) if np.isfinite(close).any() else 1.0
    kw = dict(init_cash=float(pick(rng, [50.0, 100.0, 1e4])), freq="D", update_value=bool(rng.random() < 0.4), ffill_val_price=bool(rng.random() < 0.8))
    if share:
        kw.update(group_by=gen.groups_from_lens(gl), cash_sharing=True)
    cnt = np.zeros(8)
    if kind == "orders":
        A = gen.raw(gen.order_args(rng, n, c, index=idx, cols=list(cl.columns), scale=scale))
        kw["call_seq"] = pick(rng, ["default", "reversed", "auto"]) if share else "default"
        run = lambda **k: vbt.Portfolio.from_orders(cl, **{**A, **kw, **k})
    elif kind in ("signals", "stops", "adjust"):
        o, h, l, cc = gen.ohlc(rng, n, c)
        cl = pd.DataFrame(cc, index=idx, columns=cl.columns)
        scale = 10.0 / float(np.nanmedian(cc)) if np.isfinite(cc).any() else 1.0
        A, ls = gen.signal_args(rng, n, c, idx, list(cl.columns), stops=kind != "signals", scale=scale, ohlc_arrays=(o, h, l))
        A = gen.raw(A)
        if kind == "adjust":
            A.update(adjust_sl_func_nb=adjust_sl, adjust_tp_func_nb=adjust_tp)
        kw["call_seq"] = pick(rng, ["default", "reversed", "auto"]) if share else "default"
        run = lambda **k: vbt.Portfolio.from_signals(cl, **{**A, **kw, **k})
    elif kind == "signal_func":
        en, ex = rng.random((n, c)) < 0.3, rng.random((n, c)) < 0.3
        run = lambda **k: vbt.Portfolio.from_signals(cl, signal_func_nb=signal, signal_args=(en, ex), size=1.0, log=True, **{**kw, **k})
    else:
        size = np.round(rng.normal(0, 3, (n, c)) * scale, 2)
        price = close * 1.01
        fees = rng.random((1, c)) * 0.01
        st = rng.integers(0, 2, (n, 1))
        fx, rw = kind.startswith("flex"), kind.endswith("row")
        mask = rng.random((n, len(gl) if share else c)) < 0.8
        pre = dict(pre_row_func_nb=pre_row, pre_row_args=(cnt,)) if rw else dict(pre_group_func_nb=pre_group, pre_group_args=(cnt,))
        def run(**k):
            cnt[:] = 0
            full = {"max_logs": n * c * 2, **kw, **pre, **k}
            p = vbt.Portfolio.from_order_func(
                cl, flex if fx else order, cnt, size, price, fees, st, flexible=fx, row_wise=rw, segment_mask=mask,
                pre_sim_func_nb=pre_sim, pre_sim_args=(cnt,), pre_segment_func_nb=flex_pre if fx else pre_segment, pre_segment_args=(cnt, size, price, fees, st),
                post_segment_func_nb=post_segment, post_segment_args=(cnt, size, price, fees, st), post_order_func_nb=post_order,
                post_order_args=(cnt, size, price, fees, st), **full)
            return p
        kw["init_cash"] = 100.0
    def full(**k):
        p = run(**k)
        return p
    return full, cnt, dict(kind=kind, n=n, c=c, share=share, gl=gl, kw=kw)


def observe(p, cnt):
    """Everything a simulation returns and what its callbacks saw."""
    out = dict(orders=p.order_records.copy(), logs=p.log_records.copy(), calls=cnt.copy(), init=np.asarray(p.init_cash))
    for f in ("cash", "value", "assets"):
        out[f] = np.asarray(getattr(p, f)())
    out["trades"] = p.exit_trades.values.copy()
    out["positions"] = p.positions.values.copy()
    return out
