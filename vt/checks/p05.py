"""P05: signal resolution vs. the documented decision rules."""
import numpy as np
import vectorbt as vbt
from vectorbt.portfolio import nb, enums
from vt.core import monitor
from vt import gen, model as M
from vt.gen import pick
from vt.pf import compare_orders, compare_logs, run_from_signals

NAN, INF = np.nan, np.inf
BOOL4 = [(bool(a & 1), bool(a & 2), bool(a & 4), bool(a & 8)) for a in range(16)]


def observe(ctx, S):
    pos = {}
    for l in S.logs:
        ctx.seen("signal_orders")
        d = l["new_position"]
        before = l["position"]
        if l["res_status"] == 0:
            kind = ("open" if before == 0 else "close" if d == 0 else "reverse" if (before > 0) != (d > 0)
                    else "increase" if abs(d) > abs(before) else "reduce")
            ctx.seen("decision_" + kind)


@monitor(weight=4)
def m_sim(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 4))
    r = run_from_signals(ctx, rng, n, c, sharing=rng.random() < 0.2, stops=rng.random() < 0.1, via_func=rng.random() < 0.25)
    if r is None:
        return
    pf, S, used = r
    compare_orders(ctx, pf.order_records, S.orders)
    compare_logs(ctx, pf.log_records, S.logs)
    observe(ctx, S)


@monitor(weight=1.5)
def m_table(ctx):
    """One decision at a time: prepared position (long/short/flat) x all 16 signal combinations x random modes, one column each."""
    rng = ctx.rng
    combos = BOOL4
    pos = pick(rng, ["long", "short", "flat"])
    c = 16
    sig = np.zeros((2, c, 4), bool)
    if pos == "long":
        sig[0, :, 0] = True
    elif pos == "short":
        sig[0, :, 2] = True
    for k, b in enumerate(combos):
        sig[1, k] = b
    close = np.full((2, c), 10.0)
    close[1] = float(pick(rng, [10.0, 12.0, 7.5]))
    st = int(rng.choice([0, 1, 2]))
    one = lambda v: gen.Arg(v, np.full((2, c), v), "scalar")
    A = {k: one(v) for k, v in M.ORDER_DEFAULTS.items() if k not in ("direction",)}
    A.update({k: one(v) for k, v in M.SIGNAL_DEFAULTS.items()})
    A["val_price"] = one(float(pick(rng, [INF, -INF])))
    A["log"] = one(True)
    size = np.full((2, c), 2.0)
    st_arr = np.zeros((2, c), int)
    st_arr[1] = st
    size[1] = float(pick(rng, [1.0, 2.0, 3.0, NAN, INF, 0.0])) if st == 0 else float(pick(rng, [5.0, 40.0, NAN, INF])) if st == 1 else 0.5
    A["size"], A["size_type"] = gen.Arg(size, size, "full"), gen.Arg(st_arr, st_arr, "full")
    for nm, kk in (("accumulate", 4), ("upon_long_conflict", 5), ("upon_short_conflict", 5), ("upon_dir_conflict", 5), ("upon_opposite_entry", 5)):
        A[nm] = one(int(rng.integers(kk)))
    if st == 2 and A["accumulate"].raw not in (1, 3):
        A["upon_opposite_entry"] = one(int(rng.integers(3)))
    for nm in ("open", "high", "low"):
        A[nm] = one(NAN)
    for j, nm in enumerate(("entries", "exits", "short_entries", "short_exits")):
        A[nm] = gen.Arg(sig[:, :, j], sig[:, :, j], "full")
    r = run_from_signals(ctx, rng, 2, c, args=A, ls=True, ohlc=(close, close, close, close), init=100.0, sharing=False)
    if r is None:
        return
    pf, S, used = r
    compare_orders(ctx, pf.order_records, S.orders)
    compare_logs(ctx, pf.log_records, S.logs)
    observe(ctx, S)
    ctx.seen("table_cells", 16)
    ctx.seen("table_pos_" + pos)


@monitor(weight=1)
def m_dir_vs_ls(ctx):
    """entries/exits with a direction are the long/short form with the documented mapping."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 12)), int(rng.integers(1, 4))
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    o, h, l, cl = gen.ohlc(rng, n, c)
    scale = 10.0 / float(np.nanmedian(cl)) if np.isfinite(cl).any() else 1.0
    A, _ = gen.signal_args(rng, n, c, idx, cols, ls=False, scale=scale, ohlc_arrays=(o, h, l))
    kw = gen.raw(A)
    e, x, d = A["entries"].full, A["exits"].full, A["direction"].full
    kw2 = {k: v for k, v in kw.items() if k not in ("entries", "exits", "direction")}
    kw2.update(entries=e & (d != 1), exits=x & (d == 0), short_entries=np.where(d == 1, e, np.where(d == 2, x, False)).astype(bool),
               short_exits=x & (d == 1))
    import pandas as pd
    close = pd.DataFrame(cl, index=idx, columns=cols)
    out = []
    ctx.desc = dict(close=cl, args={k: a.full for k, a in A.items()})
    for k in (kw, kw2):
        try:
            pf = vbt.Portfolio.from_signals(close, freq="D", **k)
            out.append((pf.order_records, pf.log_records))
        except ValueError as err:
            out.append(str(err))
    if isinstance(out[0], str) or isinstance(out[1], str):
        ctx.check(isinstance(out[0], str) and isinstance(out[1], str), "only one form raised", got=[str(q)[:200] for q in out])
        return
    ctx.eq(out[0][0], out[1][0], "orders of the two forms")
    ctx.eq(out[0][1], out[1][1], "logs of the two forms")
    ctx.nontrivial(len(out[0][0]), n, c, e.tobytes(), x.tobytes())
    ctx.seen("form_pairs")


@monitor(weight=0.5)
def m_named_modes(ctx):
    """Enum names (and accumulate=True) select the same behaviour as their documented codes; defaults equal the explicit documented values."""
    rng = ctx.rng
    n = 12
    cl = gen.prices(rng, n, 2, kind="walk", nan=False)
    le, lx, se, sx = (gen.bools(rng, n, 2, 0.4) for _ in range(4))
    names = dict(accumulate=["disabled", "both", "addonly", "removeonly"], upon_long_conflict=["ignore", "entry", "exit", "adjacent", "opposite"],
                 upon_short_conflict=["ignore", "entry", "exit", "adjacent", "opposite"], upon_dir_conflict=["ignore", "long", "short", "adjacent", "opposite"],
                 upon_opposite_entry=["ignore", "close", "closereduce", "reverse", "reversereduce"], upon_stop_exit=["close", "closereduce", "reverse", "reversereduce"],
                 upon_stop_update=["keep", "override", "overridenan"], stop_entry_price=["valprice", "price", "fillprice", "close"],
                 stop_exit_price=["stoplimit", "stopmarket", "price", "close"], size_type=["amount", "value"])
    code = {k: int(rng.integers(len(v))) for k, v in names.items()}
    kw = dict(short_entries=se, short_exits=sx, size=1.0, sl_stop=0.03, tp_stop=0.04, freq="D", log=True)
    a = vbt.Portfolio.from_signals(cl, le, lx, **kw, **code)
    b = vbt.Portfolio.from_signals(cl, le, lx, **kw, **{k: names[k][v] for k, v in code.items()})
    ctx.eq(a.log_records, b.log_records, "named modes")
    a = vbt.Portfolio.from_signals(cl, le, lx, accumulate=True, **kw)
    b = vbt.Portfolio.from_signals(cl, le, lx, accumulate=1, **kw)
    ctx.eq(a.log_records, b.log_records, "accumulate=True")
    a = vbt.Portfolio.from_signals(cl, le, lx, **kw)
    b = vbt.Portfolio.from_signals(cl, le, lx, accumulate=0, upon_long_conflict="ignore", upon_short_conflict="ignore", upon_dir_conflict="ignore",
                                   upon_opposite_entry="reversereduce", upon_stop_exit="close", upon_stop_update="override",
                                   stop_entry_price="close", stop_exit_price="stoplimit", size_type="amount", **kw)
    ctx.eq(a.log_records, b.log_records, "defaults")
    a = vbt.Portfolio.from_signals(cl, le, lx, direction=["longonly", "shortonly"], freq="D", log=True)
    b = vbt.Portfolio.from_signals(cl, le, lx, direction=[0, 1], freq="D", log=True)
    ctx.eq(a.log_records, b.log_records, "direction names")
    ctx.nontrivial(sorted(code.items()))
    ctx.seen("named_mode_sets")
