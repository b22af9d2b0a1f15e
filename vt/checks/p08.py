"""P08: front-end equivalence, callback order and contexts."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.portfolio import enums, nb as pnb
from vt import gen, model as M, pf
from vt.core import monitor, Skip
from vt.gen import pick

NAN, INF = np.nan, np.inf


@monitor(weight=3)
def m_callbacks(ctx):
    """Every simulator variant: callback nesting, arguments passed down and context contents equal the account state."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 8)), int(rng.integers(1, 5))
    r = pf.run_from_func(ctx, rng, n, c)
    if r is None:
        return
    p, S, (got, exp, fl) = r
    pf.compare_events(ctx, got, exp, fl["init_temp_records"], fl["fill_pos_record"])
    pf.compare_orders(ctx, p.order_records, S.orders)
    pf.compare_logs(ctx, p.log_records, S.logs)


def same_records(ctx, a, b, msg, by_col=False):
    """Equal records; by_col drops ids and compares the per-column sequences."""
    if by_col:
        for k in ("id", "order_id"):
            if k in a.dtype.names:
                a, b = a.copy(), b.copy()
                a[k], b[k] = 0, 0
        a = a[np.lexsort((np.arange(len(a)), a["col"]))]
        b = b[np.lexsort((np.arange(len(b)), b["col"]))]
    ctx.eq(len(a), len(b), msg + ": number of records")
    for f in a.dtype.names:
        ctx.eq(a[f], b[f], f"{msg}.{f}", rtol=1e-9, atol=1e-9)


@monitor(weight=2)
def m_orders_vs_func(ctx):
    """from_orders equals every from_order_func variant fed with the same element of every argument."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 8)), int(rng.integers(1, 5))
    idx = gen.dt_index(rng, n, "D")
    cols = gen.columns(rng, c)
    close_a = gen.prices(rng, n, c)
    A = gen.order_args(rng, n, c, index=idx, cols=cols, directions=[2], scale=10.0 / float(np.nanmedian(close_a)))
    A["val_price"] = gen.Arg(-INF, np.full((n, c), -INF), "scalar")
    sharing = rng.random() < 0.6
    gl = gen.group_lens(rng, c) if sharing else [1] * c
    upd, ff = bool(rng.random() < 0.4), bool(rng.random() < 0.8)
    if any(np.isnan(close_a).ravel()) and not ff:
        ff = True       # val_price=-inf and a NaN close differ by definition when valuation prices are not filled
    raw_seq, seq = pf.call_seq_arg(rng, n, gl)
    init = rng.choice([50.0, 100.0, 1000.0], size=len(gl))
    cl = pd.DataFrame(close_a, index=idx, columns=cols)
    kw = dict(init_cash=init, update_value=upd, ffill_val_price=ff, freq="D")
    if sharing:
        kw.update(group_by=gen.groups_from_lens(gl), cash_sharing=True)
    ctx.desc = dict(close=close_a, args={k: a.full for k, a in A.items()}, gl=gl, init=init, seq=seq, upd=upd, ff=ff)

    def sim(f):
        try:
            return f()
        except ValueError as e:
            return "ValueError"
    ref = sim(lambda: vbt.Portfolio.from_orders(cl, **gen.raw(A), call_seq=raw_seq, **kw))
    get = gen.getter(A)

    def order(c_):
        return pnb.order_nb(**{k: get(k, int(c_.i), int(c_.col)) for k in M.ORDER_DEFAULTS})

    def flex(c_):
        if c_.call_idx >= c_.group_len:
            return -1, pnb.order_nothing_nb()
        col = c_.from_col + seq[c_.i][c_.from_col + c_.call_idx]
        return col, pnb.order_nb(**{k: get(k, int(c_.i), int(col)) for k in M.ORDER_DEFAULTS})
    outs = {}
    for fx in (False, True):
        for rw in (False, True):
            k2 = dict(kw, flexible=fx, row_wise=rw, fill_pos_record=bool(rng.random() < 0.5))
            if not fx:
                k2["call_seq"] = raw_seq
            outs[fx, rw] = sim(lambda: vbt.Portfolio.from_order_func(cl, flex if fx else order, **k2))
    k2 = dict(kw, flexible=False, row_wise=bool(rng.random() < 0.5), call_seq=raw_seq, use_numba=False)
    outs["py"] = sim(lambda: vbt.Portfolio.from_order_func(cl, order, **k2))
    for key, o in outs.items():
        if isinstance(ref, str) or isinstance(o, str):
            ctx.check(isinstance(ref, str) and isinstance(o, str), f"one front end raised, the other did not ({key})", ref=str(ref)[:40], other=str(o)[:40])
            continue
        rw = k2["row_wise"] if key == "py" else key[1]
        same_records(ctx, o.order_records, ref.order_records, f"orders of variant {key}", by_col=rw)
        same_records(ctx, o.log_records, ref.log_records, f"logs of variant {key}", by_col=rw)
        ctx.eq(o.value().to_numpy(), ref.value().to_numpy(), f"value of variant {key}", rtol=1e-9, atol=1e-7)
        ctx.eq(o.cash(group_by=False).to_numpy(), ref.cash(group_by=False).to_numpy(), f"cash of variant {key}", rtol=1e-9, atol=1e-7)
        ctx.seen("variant_pairs")
    if not isinstance(ref, str):
        ctx.nontrivial(n, c, gl, len(ref.order_records), close_a[0, 0])
        ctx.seen("orders_compared", len(ref.order_records))


@monitor(weight=1.5)
def m_orders_vs_signals(ctx):
    """Signals that encode the same trades as orders: from_signals == from_orders."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 5))
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    close_a = gen.prices(rng, n, c, nan=False)
    sharing = rng.random() < 0.5
    gl = gen.group_lens(rng, c) if sharing else [1] * c
    scale = 10.0 / float(np.nanmedian(close_a))
    d = rng.choice([-1, 0, 1], size=(n, c))
    size = np.abs(rng.normal(2, 1, (n, c))) * scale
    fees = gen.arg(rng, n, c, gen.choice(rng, [0.0, 0.01]))
    slip = gen.arg(rng, n, c, gen.choice(rng, [0.0, 0.02]))
    price = close_a * rng.uniform(0.9, 1.1, (n, c))
    vp = pick(rng, [INF, -INF])
    raw_seq, seq = pf.call_seq_arg(rng, n, gl)
    if sharing and rng.random() < 0.3:
        raw_seq = "auto"
    cl = pd.DataFrame(close_a, index=idx, columns=cols)
    kw = dict(init_cash=float(pick(rng, [50.0, 1000.0])), price=price, fees=fees.raw, slippage=slip.raw, val_price=vp, call_seq=raw_seq, log=True, freq="D",
              update_value=bool(rng.random() < 0.4), attach_call_seq=True)
    if sharing:
        kw.update(group_by=gen.groups_from_lens(gl), cash_sharing=True)
    ctx.desc = dict(close=close_a, d=d, size=size, price=price, kw={k: v for k, v in kw.items() if k not in ("price",)}, gl=gl)
    b = vbt.Portfolio.from_signals(cl, entries=d == 1, short_entries=d == -1, size=size, size_type="amount", accumulate=True, **kw)
    a = vbt.Portfolio.from_orders(cl, size=np.where(d == 0, NAN, d * size), **kw)
    # bars without signal produce an (ignored) order log only in from_orders
    ctx.nontrivial(n, c, gl, len(a.order_records), close_a[0, 0])
    same_records(ctx, b.order_records, a.order_records, "orders: signals vs orders")
    la = a.log_records[~np.isnan(a.log_records["req_size"])]
    lb = b.log_records
    ctx.eq(len(lb), len(la), "number of order requests")
    for f in la.dtype.names:
        if f in ("id", "req_size", "req_direction", "req_size_type"):
            continue
        ctx.eq(lb[f], la[f], f"logs: signals vs orders .{f}", rtol=1e-9, atol=1e-8)
    sgn = np.where(lb["req_direction"] == 1, -1, 1) * lb["req_size"]
    full = np.isfinite(sgn) & (lb["req_size_type"] == 0)
    ctx.eq(sgn[full], la["req_size"][full], "requested sizes", rtol=1e-9, atol=1e-9)
    ctx.eq(b.value().to_numpy(), a.value().to_numpy(), "value: signals vs orders", rtol=1e-9, atol=1e-7)
    ctx.seen("signal_order_pairs")


@monitor(weight=0.7)
def m_helpers(ctx):
    """from_holding / from_random_signals equal their expansion into signals."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 12)), int(rng.integers(1, 4))
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    cl = pd.DataFrame(gen.prices(rng, n, c, nan=False), index=idx, columns=cols)
    kw = dict(fees=0.01, init_cash=100.0, freq="D")
    ctx.desc = dict(close=cl)
    h = vbt.Portfolio.from_holding(cl, **kw)
    e = np.zeros((n, c), bool)
    e[0] = True
    s = vbt.Portfolio.from_signals(cl, e, False, **kw)
    same_records(ctx, h.order_records, s.order_records, "from_holding")
    seed = int(rng.integers(1000))
    if rng.random() < 0.5:
        k = int(rng.integers(1, max(2, n // 2)))
        r = vbt.Portfolio.from_random_signals(cl, n=k, seed=seed, **kw)
        g = vbt.RANDNX.run(n=k, input_shape=cl.shape, input_index=idx, input_columns=cols, seed=seed)
    else:
        pr = float(pick(rng, [0.2, 0.7]))
        r = vbt.Portfolio.from_random_signals(cl, prob=pr, seed=seed, **kw)
        g = vbt.RPROBNX.run(entry_prob=pr, exit_prob=pr, input_shape=cl.shape, input_index=idx, input_columns=cols, seed=seed)
    s = vbt.Portfolio.from_signals(cl, g.entries.to_numpy(), g.exits.to_numpy(), **kw)
    same_records(ctx, r.order_records, s.order_records, "from_random_signals")
    ctx.nontrivial(n, c, seed, len(r.order_records))
    ctx.seen("helper_runs")


_JIT = {}


def _jit_funcs():
    if not _JIT:
        from numba import njit

        @njit
        def order(c, size, price, st, fees, lock, cnt):
            cnt[0] += 1
            return pnb.order_nb(size=size[c.i, c.col], price=price[c.i, c.col], size_type=st[c.i, c.col], fees=fees[c.i, c.col], lock_cash=lock, log=True)

        @njit
        def flex(c, size, price, st, fees, lock, cnt):
            cnt[0] += 1
            if c.call_idx >= c.group_len:
                return -1, pnb.order_nothing_nb()
            col = c.from_col + c.call_idx
            return col, pnb.order_nb(size=size[c.i, col], price=price[c.i, col], size_type=st[c.i, col], fees=fees[c.i, col], lock_cash=lock, log=True)
        _JIT.update(order=order, flex=flex)
    return _JIT


@monitor(modes=("jit",))
def m_compiled(ctx):
    """Compiled simulators equal the interpreted ones (use_numba=False) and from_orders for the same order program."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 5))
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    close_a = gen.prices(rng, n, c, nan=False)
    A = gen.order_args(rng, n, c, directions=[2], scale=10.0 / float(np.nanmedian(close_a)))
    size, st, fees, price = (np.ascontiguousarray(A[k].full) for k in ("size", "size_type", "fees", "price"))
    st, fees, lock = st.astype(np.int64), fees.astype(float), bool(rng.random() < 0.5)
    size = np.where(np.isinf(size), 1.0, size).astype(float)
    sharing = bool(rng.random() < 0.6)
    gl = gen.group_lens(rng, c) if sharing else [1] * c
    cl = pd.DataFrame(close_a, index=idx, columns=cols)
    kw = dict(init_cash=float(pick(rng, [50.0, 1000.0])), freq="D", update_value=bool(rng.random() < 0.5))
    if sharing:
        kw.update(group_by=gen.groups_from_lens(gl), cash_sharing=True)
    ctx.desc = dict(close=close_a, size=size, st=st, fees=fees, price=price, gl=gl, kw=kw)
    variants = [(False, False), (True, True), (False, True), (True, False)]
    fx, rw = variants[int(ctx.case[1]) % 4] if ctx.tier == "thorough" else variants[int(ctx.case[0] // 1000003) % 2]
    f = _jit_funcs()["flex" if fx else "order"]
    raised = []

    def run(**k):
        cnt = np.zeros(1, dtype=np.int64)
        try:
            p = vbt.Portfolio.from_order_func(cl, f if k.get("use_numba", True) else f.py_func, size, price, st, fees, lock, cnt, flexible=fx, row_wise=rw, **kw, **k)
        except ValueError as e:
            return None, int(cnt[0])
        return p, int(cnt[0])
    a, na = run()
    b, nb_ = run(use_numba=False)
    try:
        r = vbt.Portfolio.from_orders(cl, size=size, price=price, size_type=st, fees=fees, lock_cash=lock, val_price=-INF, min_size=0.0, log=True, **kw)
    except ValueError:
        r = None
    ctx.check((a is None) == (b is None) == (r is None) or (a is None and b is None and r is None), "only one of compiled / interpreted / array simulation raised")
    if a is None:
        return
    ctx.eq(na, nb_, "number of order function calls")
    for k in ("order_records", "log_records"):
        same_records(ctx, getattr(a, k), getattr(b, k), f"compiled vs interpreted {k}")
        same_records(ctx, getattr(a, k), getattr(r, k), f"compiled vs array interface {k}", by_col=rw)
    ctx.nontrivial(n, c, gl, fx, rw, len(a.order_records), close_a[0, 0])
    ctx.seen("compiled_pairs")
