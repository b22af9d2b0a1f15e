"""P01: order execution vs. an executable account model."""
import numpy as np
import vectorbt as vbt
from vectorbt.portfolio import nb, enums
from vt.core import monitor, Skip
from vt import gen, model as M
from vt.gen import pick
from vt.pf import compare_logs, compare_orders, run_from_orders, ValueErrorLike

NAN, INF = np.nan, np.inf


def rand_order(rng, scale=1.0, price=10.0):
    st = int(rng.integers(6))
    mag = [5 * scale, 5 * price * scale, 0.7, 5 * scale, 5 * price * scale, 0.7][st]
    size = float(pick(rng, [rng.normal() * mag, np.round(rng.normal() * mag, 1), rng.normal() * mag, mag * 1e-13, mag, -mag,
                            0.0, NAN, INF if st < 3 else mag, -INF if st < 3 else -mag, 1.0, -1.0, 1.5, -1.5, 0.5]))
    o = dict(M.ORDER_DEFAULTS)
    o.update(size=size, size_type=st, direction=int(rng.integers(3)),
             price=float(pick(rng, [price, price, price * rng.uniform(0.5, 2), 1.0, NAN]) if rng.random() < 0.97 else pick(rng, [0.0, -1.0, INF, -INF])),
             fees=float(pick(rng, [0.0, 0.0, 0.01, 0.1, 1.0, 2.0, -0.01])), fixed_fees=float(pick(rng, [0.0, 0.0, 0.1, 1.0, 10.0, 100.0, -0.1])),
             slippage=float(pick(rng, [0.0, 0.0, 0.01, 0.1, 0.5])), min_size=float(pick(rng, [0.0, 0.0, 0.1, scale, 5 * scale])),
             max_size=float(pick(rng, [INF, INF, 0.5, scale, 3 * scale, 100 * scale])),
             size_granularity=float(pick(rng, [NAN, NAN, 0.1, 0.25, 1.0, 3.0, 0.001])),
             reject_prob=float(pick(rng, [0.0] * 8 + [1.0])), lock_cash=bool(rng.random() < 0.4),
             allow_partial=bool(rng.random() < 0.65), raise_reject=bool(rng.random() < 0.05), log=bool(rng.random() < 0.5))
    if rng.random() < 0.02:
        k, v = pick(rng, [("size_type", 6), ("size_type", -1), ("direction", 3), ("direction", -1), ("fees", NAN), ("fixed_fees", INF),
                          ("fees", INF), ("fixed_fees", NAN), ("slippage", -0.1), ("slippage", INF), ("min_size", -1.0), ("min_size", INF),
                          ("min_size", NAN), ("max_size", 0.0), ("max_size", -1.0), ("max_size", NAN), ("size_granularity", 0.0),
                          ("size_granularity", INF), ("size_granularity", -1.0), ("reject_prob", -0.1), ("reject_prob", 1.1), ("reject_prob", NAN),
                          ("slippage", NAN)])
        o[k] = v
    return o


def rand_state(rng, price):
    k = rng.random()
    pos = float(pick(rng, [0.0, 0.0, 1.0, 10.0, rng.uniform(0, 20), -1.0, -10.0, -rng.uniform(0, 20), 1e-13, -1e-13]))
    cash = float(pick(rng, [0.0, 1e-13, 1.0, 10.0, 100.0, rng.uniform(0, 300), 1e4, 1e9]))
    debt = abs(pos) * price * float(pick(rng, [1.0, rng.uniform(0.3, 3)])) if pos < 0 else 0.0
    free = cash - 2 * debt
    if pos < 0 and rng.random() < 0.5:
        cash += debt * float(pick(rng, [1, 2, 3]))
        free = cash - 2 * debt
    vp = float(pick(rng, [price, price * rng.uniform(0.5, 2), price, NAN]) if rng.random() < 0.98 else pick(rng, [0.0, -1.0, INF]))
    value = cash + (pos * vp if pos != 0 else 0.0)
    if rng.random() < 0.1:
        value = float(pick(rng, [NAN, 0.0, -5.0, 1e5]))
    if rng.random() < 0.02:
        kk = rng.integers(4)
        if kk == 0:
            cash = float(pick(rng, [NAN, -1.0]))
        elif kk == 1:
            pos = float(pick(rng, [NAN, INF, -INF]))
        elif kk == 2:
            debt = float(pick(rng, [NAN, -1.0, INF]))
        else:
            free = NAN
    if rng.random() < 0.02:
        cash = free = INF
    return dict(cash=cash, position=pos, debt=debt, free_cash=free, val_price=vp, value=value)


def exec_both(ctx, st, o, update_value=True):
    """Returns (model outcome, real outcome)."""
    try:
        new, r = M.fill(st, o)
        if o["reject_prob"] > 0 and o["reject_prob"] >= 1 and r.status is not None and not pre_ignored(r):
            new = dict(cash=M.snap(st["cash"]), position=M.snap(st["position"]), debt=M.snap(st["debt"]), free_cash=M.snap(st["free_cash"]))
            r = M.no(M.REJECTED, M.I_RANDOM)
        exp = ("rejected-raise", r.info) if (r.status == M.REJECTED and o["raise_reject"]) else ("ok", new, r)
    except M.Bad:
        exp = ("error",)
    except ZeroDivisionError:
        raise Skip()
    return exp


def pre_ignored(r):
    # outcomes decided before the random rejection is drawn
    return r.info in (M.I_SIZE_NAN, M.I_PRICE_NAN, M.I_VALUE_NAN, M.I_VALUE_ZERO_NEG, M.I_VALPRICE_NAN)


ORDER_DT, LOG_DT = enums.order_dt, enums.log_dt


@monitor(weight=3, modes=("pure", "jit"))
def m_process_order(ctx):
    """Chains of random orders on a live account state; each step compared with the model."""
    rng = ctx.rng
    price = float(pick(rng, [10.0, 1.0, 0.37, 250.0]))
    scale = float(pick(rng, [1.0, 1.0, 10.0]))
    st = rand_state(rng, price) if rng.random() < 0.6 else None
    if st is None:
        c = float(pick(rng, [100.0, 1000.0, 50.0]))
        st = dict(cash=c, position=0.0, debt=0.0, free_cash=c, val_price=price, value=c)
    n = 12 if ctx.mode == "pure" else 60
    ords = np.zeros(n + 2, dtype=ORDER_DT)
    logs = np.zeros(n + 2, dtype=LOG_DT)
    oidx = lidx = 0
    dirn = int(rng.integers(4))
    for step in range(n):
        if rng.random() < (0.2 if ctx.mode == "pure" else 0.5):
            st = rand_state(rng, price)
        price = max(price * float(rng.uniform(0.7, 1.4)), 1e-3) if rng.random() < 0.7 else price
        o = rand_order(rng, scale, price)
        if dirn < 3 and rng.random() < 0.8:
            o["direction"] = dirn
        if (o["direction"] == 0 and st["position"] < 0 or o["direction"] == 1 and st["position"] > 0) and rng.random() < 0.95:
            o["direction"] = 2
        ctx.desc = dict(state=st, order=o)
        exp = exec_both(ctx, st, o)
        upd = bool(rng.random() < 0.5)
        order = enums.Order(**{k: (bool(v) if isinstance(M.ORDER_DEFAULTS[k], bool) else (int(v) if k in ("size_type", "direction") else float(v))) for k, v in o.items()})
        ps = enums.ProcessOrderState(oidx=oidx, lidx=lidx, **st)
        try:
            res, new = nb.process_order_nb(3, 2, 1, ps, upd, order, ords, logs)
            got = "ok"
        except enums.RejectedOrderError:
            got = "rejected-raise"
        except ValueError:
            got = "error"
        ctx.check(got == exp[0], f"outcome {got}, model says {exp[0]}", state=st, order=o)
        ctx.seen("orders_executed")
        ctx.seen("outcome_" + got)
        if got != "ok":
            ctx.nontrivial(o["direction"], o["size_type"], got, step)
            continue
        _, mnew, r = exp
        ctx.seen(f"status_{r.status}_{r.info}")
        ctx.nontrivial(sorted(o.items()), sorted(st.items()))
        ctx.eq(tuple(float(x) for x in res[:3]), tuple(float(x) for x in r[:3]), "result size/price/fees", state=st, order=o)
        ctx.eq(tuple(int(x) for x in res[3:]), tuple(r[3:]), "result side/status/info", state=st, order=o)
        for k in ("cash", "position", "debt", "free_cash"):
            ctx.eq(getattr(new, k), mnew[k], f"new {k}", atol=1e-9, state=st, order=o, status=(r.status, r.info))
        # invariants that do not rely on the model
        if r.status == M.FILLED:
            sign = 1 if r.side == 0 else -1
            ctx.check(res.size > 0, "filled size must be positive", order=o)
            if np.isfinite(st["cash"]):
                ctx.eq(new.cash, M.snap(st["cash"]) - sign * res.size * res.price - res.fees, "cash flow identity", rtol=1e-8, atol=1e-7 * max(1, abs(st["cash"])), state=st, order=o)
            ctx.eq(new.position, M.snap(st["position"]) + sign * res.size, "position identity", atol=1e-9 * max(1, abs(st["position"])), rtol=1e-8)
            if o["fees"] >= 0 and o["fixed_fees"] >= 0:
                ctx.check(new.cash >= -1e-7 * max(1.0, abs(st["cash"])) if np.isfinite(st["cash"]) else True, "cash went negative", state=st, order=o, cash=new.cash)
            if o["direction"] == 0:
                ctx.check(new.position >= -1e-9, "long-only went short", state=st, order=o)
            if o["direction"] == 1:
                ctx.check(new.position <= 1e-9, "short-only went long", state=st, order=o)
            ctx.check(M.leq(res.size, o["max_size"]) and not M.less(res.size, o["min_size"]), "size limits violated", order=o, size=res.size)
            if not np.isnan(o["size_granularity"]):
                q = res.size / o["size_granularity"]
                ctx.check(abs(q - round(q)) < 1e-6 * max(1, q), "granularity violated", size=res.size, order=o)
            rec = ords[oidx]
            ctx.eq([rec["id"], rec["col"], rec["idx"], rec["side"]], [oidx, 2, 3, r.side], "order record ids")
            ctx.eq([rec["size"], rec["price"], rec["fees"]], list(r[:3]), "order record")
            ctx.check(new.oidx == oidx + 1, "oidx not advanced")
            vp1, v1 = (r.price, st["value"] + (mnew["cash"] - st["cash"]) + (mnew["position"] * r.price if mnew["position"] != 0 else 0.0) - (st["position"] * st["val_price"] if st["position"] != 0 else 0.0)) if upd else (st["val_price"], st["value"])
            ctx.eq(new.val_price, vp1, "val_price after fill")
            ctx.eq(new.value, v1, "value after fill", atol=1e-7, rtol=1e-8)
        else:
            ctx.check(new.oidx == oidx, "order counted without a fill")
            ctx.eq([new.val_price, new.value], [st["val_price"], st["value"]], "valuation changed without fill")
        if o["log"]:
            lr = logs[lidx]
            ctx.check(new.lidx == lidx + 1, "log index")
            for k in M.ORDER_DEFAULTS:
                ctx.eq(float(lr["req_" + k]), float(o[k]), "logged request " + k)
            for k in ("cash", "position", "debt", "free_cash", "val_price", "value"):
                ctx.eq(float(lr[k]), float(st[k]), "logged state " + k)
                ctx.eq(float(lr["new_" + k]), float(getattr(new, k)), "logged new state " + k)
            ctx.eq([float(lr["res_size"]), float(lr["res_price"]), float(lr["res_fees"])], [float(x) for x in r[:3]], "logged result")
            ctx.eq([int(lr[k]) for k in ("res_side", "res_status", "res_status_info", "id", "group", "col", "idx", "order_id")],
                   [*r[3:], lidx, 1, 2, 3, oidx if r.status == 0 else -1], "logged ids/status")
        else:
            ctx.check(new.lidx == lidx, "unexpected log")
        oidx, lidx = int(new.oidx), int(new.lidx)
        st = {k: float(getattr(new, k)) for k in ("cash", "position", "debt", "free_cash", "val_price", "value")}
    ctx.sample(order=o, state=st)


@monitor(weight=3)
def m_from_orders(ctx):
    """Whole simulations through the public API; every log row is a (state, request, result) observation."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    r = run_from_orders(ctx, rng, n, c, directions=[int(rng.integers(3))])
    if r is None:
        return
    pf, S, used = r
    compare_orders(ctx, pf.order_records, S.orders)
    compare_logs(ctx, pf.log_records, S.logs)
    ctx.seen("api_logs", len(S.logs))
    ctx.seen("api_orders", len(S.orders))


@monitor(weight=0.5, modes=("pure",))
def m_reject_prob(ctx):
    """Random rejection: with probability p strictly between 0 and 1 the outcome is either the model fill or a clean rejection."""
    rng = ctx.rng
    n = 400
    p = float(pick(rng, [0.2, 0.5, 0.8]))
    close = np.full(n, 10.0)
    size = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
    kw = dict(init_cash=1e6, fees=0.01, reject_prob=p, log=True, freq="D")
    seed = int(rng.integers(1 << 30))
    pf = vbt.Portfolio.from_orders(close, size, seed=seed, **kw)
    pf2 = vbt.Portfolio.from_orders(close, size, seed=seed, **kw)
    lg = pf.log_records
    ctx.check(len(lg) == n, "one log per order")
    ctx.eq(lg, pf2.log_records, "same seed, different outcome")
    rej = lg["res_status"] == 2
    ctx.check(bool(np.all(lg["res_status_info"][rej] == 10)), "rejection reason")
    ctx.check(bool(np.all(lg["res_status"][~rej] == 0)), "others must fill")
    ctx.eq(lg["new_cash"][rej], lg["cash"][rej], "state changed by rejected order")
    ctx.eq(lg["new_position"][rej], lg["position"][rej], "state changed by rejected order")
    k = rej.sum()
    sd = np.sqrt(n * p * (1 - p))
    ctx.check(abs(k - n * p) < 6.5 * sd, f"rejection frequency {k}/{n} incompatible with probability {p}")
    ctx.seen("random_rejections", int(k))
    ctx.nontrivial(seed, p)
