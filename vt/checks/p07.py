"""P07: cash-sharing groups settle each bar in call order from one pot; automatic ordering sorts by approximated order value."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from types import SimpleNamespace as NS
from vectorbt.portfolio import nb, enums
from vt import gen, model as M, pf
from vt.core import monitor
from vt.gen import pick

NAN, INF = np.nan, np.inf


def order_value(size, st, d, cash, pos, free, vp, value):
    """Approximated order value, written from its documentation (independent of the model's)."""
    s = -size if d == 1 else size
    held = pos * vp
    return {0: lambda: s * vp, 1: lambda: s, 3: lambda: s * vp - held, 4: lambda: s - held, 5: lambda: s * value - held,
            2: lambda: s * cash if s >= 0 else (s * held if d == 0 else s * (2 * max(held, 0) + max(free, 0)))}[int(st)]()


def verify(ctx, p, v, S, used, auto):
    n, c = v["close"].shape
    gl = v["gl"]
    l = p.log_records
    cs = p.call_seq.to_numpy().reshape(n, c)
    ctx.eq(cs, np.array(used), "recorded call sequence")
    if not auto:
        ctx.eq(cs, np.array(v["seq"]), "recorded call sequence = the one asked for")
    c0 = 0
    for g, gln in enumerate(gl):
        cash, free = v["init"][g], v["init"][g]
        pos = np.zeros(gln)
        for i in range(n):
            row = [int(x) for x in cs[i, c0:c0 + gln]]
            ctx.check(sorted(row) == list(range(gln)), f"call sequence of group {g} at row {i} is no permutation", row=row)
            b = l[(l["idx"] == i) & (l["group"] == g)]
            got = [int(x) - c0 for x in b["col"]]
            exp = [k for k in row if k in got]
            ctx.check(got == exp, f"orders of group {g} at row {i} did not run in call order", got=got, call_seq=row)
            if len(b) == 0:
                continue
            ctx.check(b[0]["cash"] == cash and b[0]["free_cash"] == free, "first order of a bar does not start from the cash left by the last bar",
                      got=float(b[0]["cash"]), expected=cash)
            for a, z in zip(b[:-1], b[1:]):
                ctx.check(z["cash"] == a["new_cash"] and z["free_cash"] == a["new_free_cash"], "an order did not see the cash its predecessor left",
                          first=str(a), second=str(z))
                ctx.check(z["value"] == a["new_value"] or (np.isnan(z["value"]) and np.isnan(a["new_value"])), "group value not handed on", first=str(a), second=str(z))
            vp = {int(r["col"]) - c0: float(r["val_price"]) for r in b}
            if len(b) == gln:
                val = cash
                for k in range(gln):
                    if pos[k] != 0:
                        val += pos[k] * vp[k]
                ctx.eq(b[0]["value"], val, "group value = cash + every member's holdings", rtol=1e-9, atol=1e-6)
                if (pos != 0).sum() > 1:
                    ctx.seen("values_of_several_holdings")
                if auto:
                    ov = {int(r["col"]) - c0: order_value(float(r["req_size"]), r["req_size_type"], r["req_direction"], cash, pos[int(r["col"]) - c0], free,
                                                           float(r["val_price"]), float(b[0]["value"])) for r in b}
                    x = [ov[k] for k in row]
                    if not np.isnan(x).any():
                        ctx.check(all(y <= z or M.near(y, z) for y, z in zip(x, x[1:])), "automatic order is not ascending in approximated order value",
                                  values=x, row=row)
                        ctx.check(all(row[j] < row[j + 1] for j in range(gln - 1) if x[j] == x[j + 1]), "tied orders do not keep column order", values=x, row=row)
                        ctx.seen("auto_bars")
                        if row != sorted(row):
                            ctx.seen("auto_bars_reordered")
            fills = b[b["res_status"] == 0]
            if len(fills) > 1:
                ctx.seen("bars_with_several_fills")
                if (fills["res_side"] == 1).any() and (fills["res_side"] == 0).any():
                    ctx.seen("bars_selling_and_buying")
            for r in b:
                pos[int(r["col"]) - c0] = r["new_position"]
            cash, free = float(b[-1]["new_cash"]), float(b[-1]["new_free_cash"])
        c0 += gln
    pf.compare_orders(ctx, p.order_records, S.orders)
    pf.compare_logs(ctx, l, S.logs)


@monitor(weight=2.5)
def m_orders(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(2, 7))
    kind = pick(rng, ["auto", "auto", "default", "reversed", "custom"])
    gl = gen.group_lens(rng, c)
    if max(gl) == 1:
        gl = [c]
    r = pf.run_from_orders(ctx, rng, n, c, sharing=True, auto=kind, gl=gl)
    if r is not None:
        verify(ctx, r[0], r[0]._vt, r[1], r[2], kind == "auto")
        ctx.seen("seq_" + kind)


@monitor(weight=1.5)
def m_signals(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(2, 6))
    kind = pick(rng, ["auto", "auto", "default", "reversed", "custom"])
    gl = gen.group_lens(rng, c)
    if max(gl) == 1:
        gl = [c]
    r = pf.run_from_signals(ctx, rng, n, c, sharing=True, auto=kind, gl=gl)
    if r is not None:
        verify(ctx, r[0], r[0]._vt, r[1], r[2], kind == "auto")
        ctx.seen("signal_seq_" + kind)


@monitor(weight=1)
def m_random(ctx):
    """Random call sequence: a permutation per group and row, reproducible by seed, and the order in which orders are executed."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(2, 7))
    gl = gen.group_lens(rng, c)
    close = pd.DataFrame(gen.prices(rng, n, c, kind="walk"), index=gen.dt_index(rng, n, "D"), columns=gen.columns(rng, c))
    size = rng.normal(0, 3, (n, c))
    seed = int(rng.integers(0, 10000))
    kw = dict(size=size, group_by=gen.groups_from_lens(gl), cash_sharing=True, call_seq=pick(rng, ["random", "Random", 2]), seed=seed, log=True,
              attach_call_seq=True, freq="D")
    ctx.desc = dict(close=close, gl=gl, seed=seed)
    a = vbt.Portfolio.from_orders(close, **kw)
    b = vbt.Portfolio.from_orders(close, **kw)
    cs = a.call_seq.to_numpy()
    ctx.eq(b.call_seq.to_numpy(), cs, "random call sequence with the same seed")
    pf.exact(ctx, b.log_records, a.log_records, "logs with the same seed")
    l = a.log_records
    c0 = 0
    for g, gln in enumerate(gl):
        for i in range(n):
            row = list(cs[i, c0:c0 + gln])
            ctx.check(sorted(row) == list(range(gln)), "random call sequence is no permutation", row=row)
            ctx.check([x - c0 for x in l["col"][(l["idx"] == i) & (l["group"] == g)]] == row, "orders did not follow the random call sequence")
        c0 += gln
    c2 = dict(kw, call_seq=cs, seed=None)
    d = vbt.Portfolio.from_orders(close, **c2)
    pf.exact(ctx, d.log_records, a.log_records, "logs of the same sequence passed explicitly")
    ctx.nontrivial(n, c, gl, seed)
    if max(gl) > 1 and n > 3 and c > 3:
        ctx.seen("random_sequences_shuffled", (cs != nb.build_call_seq_nb((n, c), np.array(gl), 0)).any())


@monitor(weight=1.5)
def m_func_sort(ctx):
    """sort_call_seq_nb in pre_segment_func gives the same history as call_seq='auto' of the array interface."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 7)), int(rng.integers(2, 6))
    gl = gen.group_lens(rng, c)
    if max(gl) == 1:
        gl = [c]
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    close = gen.prices(rng, n, c, kind="walk")
    scale = 10.0 / float(np.nanmedian(close))
    A = gen.order_args(rng, n, c, price=False, hostile=False, scale=scale)
    vp = rng.uniform(0.5, 2.0, (n, c)) * 10 / scale
    A["val_price"] = gen.Arg(vp, vp, "full")
    price = rng.uniform(0.5, 2.0, (n, c)) * 10 / scale
    A["price"] = gen.Arg(price, price, "full")
    upd = bool(rng.random() < 0.5)
    sel = bool(rng.random() < 0.5)
    row_wise = bool(rng.random() < 0.5)
    raw = gen.raw(A)
    ctx.desc = dict(close=close, args={k: a.full if a.form != "scalar" else a.raw for k, a in A.items()}, gl=gl, ctx_select=sel, row_wise=row_wise)
    cl = pd.DataFrame(close, index=idx, columns=cols)
    kw = dict(group_by=gen.groups_from_lens(gl), cash_sharing=True, init_cash=float(pick(rng, [50.0, 1000.0])), update_value=upd, freq="D", attach_call_seq=True)
    try:
        a = vbt.Portfolio.from_orders(cl, call_seq="auto", **raw, **kw)
    except ValueError:
        return
    get = gen.getter(A)
    size, st, dr = A["size"].full, A["size_type"].full, A["direction"].full
    seen = []

    def pre(c_):
        for k in range(c_.from_col, c_.to_col):
            c_.last_val_price[k] = vp[c_.i, k]
        out = np.full(c_.group_len, NAN)
        before = c_.call_seq_now.copy()
        ctx.check((before == np.arange(c_.group_len)).all(), "call_seq_now does not start as the default order", got=before)
        if sel:
            nb.sort_call_seq_nb(c_, size, st, dr, out)
        else:
            s = slice(c_.from_col, c_.to_col)
            nb.sort_call_seq_nb(c_, size[c_.i, s], st[c_.i, s].astype(int), dr[c_.i, s].astype(int), out, ctx_select=False)
        gv = nb.get_group_value_ctx_nb(c_)
        ev = c_.last_cash[c_.group] + sum(c_.last_position[k] * c_.last_val_price[k] for k in range(c_.from_col, c_.to_col) if c_.last_position[k] != 0)
        ctx.eq(gv, ev, "get_group_value_ctx_nb", rtol=1e-9, atol=1e-8)
        exp = [order_value(size[c_.i, k], st[c_.i, k], dr[c_.i, k], c_.last_cash[c_.group], c_.last_position[k], c_.last_free_cash[c_.group],
                           c_.last_val_price[k], gv) for k in range(c_.from_col, c_.to_col)]
        if not np.isnan(exp).any():
            ctx.eq(out, np.sort(exp), "order values written back in ascending order", rtol=1e-9, atol=1e-8)
        seen.append(c_.call_seq_now.copy())
        return ()

    def order(c_):
        return nb.order_nb(**{k: get(k, int(c_.i), int(c_.col)) for k in M.ORDER_DEFAULTS})
    b = vbt.Portfolio.from_order_func(cl, order, pre_segment_func_nb=pre, row_wise=row_wise, max_logs=n * c, **kw)
    ctx.eq(b.call_seq.to_numpy(), a.call_seq.to_numpy(), "call sequence of sort_call_seq_nb = call_seq='auto'")
    pf.exact(ctx, pf.strip(b.order_records), pf.strip(a.order_records), "orders of sort_call_seq_nb vs call_seq='auto'")
    x, y = pf.strip(b.log_records), pf.strip(a.log_records)
    pf.exact(ctx, x, y, "logs of sort_call_seq_nb vs call_seq='auto'")
    ctx.nontrivial(n, c, gl, len(a.order_records), round(float(close[0, 0]), 6))
    ctx.seen("func_sorted_segments", len(seen))


@monitor(weight=0.7)
def m_helpers(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 6)), int(rng.integers(1, 9))
    gl = np.array(gen.group_lens(rng, c))
    for t in (0, 1, 2):
        exp = np.concatenate([np.arange(g) if t == 0 else np.arange(g)[::-1] for g in gl])
        for f in (nb.build_call_seq, nb.build_call_seq_nb):
            out = f((n, c), gl, t)
            ctx.check(out.shape == (n, c) and out.dtype.kind == "i", f"{f.__name__}: shape/type", got=out)
            if t < 2:
                ctx.eq(out, np.tile(exp, (n, 1)), f"{f.__name__} type {t} groups {gl.tolist()}")
            else:
                e = np.cumsum(gl)
                for g in range(len(gl)):
                    ctx.eq(np.sort(out[:, e[g] - gl[g]:e[g]], axis=1), np.tile(np.arange(gl[g]), (n, 1)), f"{f.__name__} random: no permutation")
            ctx.seen("sequences_built")
    q = nb.require_call_seq(rng.integers(0, 5, (n, c)))
    ctx.check(q.flags.writeable and q.flags.f_contiguous and q.dtype == np.int64 and q.flags.owndata, "require_call_seq flags")
    r = lambda: float(rng.normal() * 10)
    s, st, d, cash, pos, free, vp = r(), int(rng.integers(6)), int(rng.integers(3)), abs(r()), r(), r(), abs(r()) + 0.1
    val = cash + pos * vp
    ctx.eq(nb.approx_order_value_nb(s, st, d, cash, pos, free, vp, val), order_value(s, st, d, cash, pos, free, vp, val), "approx_order_value_nb",
           rtol=1e-9, atol=1e-9, args=(s, st, d, cash, pos, free, vp, val))
    ctx.seen(f"approx_type_{st}")
    # guards
    g = int(rng.integers(2, 5))
    base = dict(cash_sharing=True, last_cash=np.array([5.0, 100.0]), last_free_cash=np.array([5.0, 80.0]), last_position=rng.normal(0, 2, g + 2),
                last_val_price=rng.uniform(1, 5, g + 2), group=1, from_col=1, to_col=1 + g, group_len=g, i=0, flex_2d=True,
                call_seq_now=np.arange(g))
    size, sts, drs = rng.normal(0, 2, (1, g + 2)), rng.integers(0, 6, (1, g + 2)), rng.integers(0, 3, (1, g + 2))
    x = NS(**base)
    out = np.full(g, NAN)
    seq = np.arange(g)
    nb.sort_call_seq_out_nb(x, size, sts, drs, out, seq)
    gv = 100.0 + float((x.last_position[1:1 + g] * x.last_val_price[1:1 + g]).sum())
    ev = [order_value(size[0, k], sts[0, k], drs[0, k], 100.0, x.last_position[k], 80.0, x.last_val_price[k], gv) for k in range(1, 1 + g)]
    ctx.eq(seq, np.argsort(ev, kind="stable"), "sort_call_seq_out_nb", values=ev)
    ctx.eq(out, np.sort(ev), "sort_call_seq_out_nb values", rtol=1e-9, atol=1e-9)
    ctx.raises(ValueError, nb.sort_call_seq_out_nb, x, size, sts, drs, np.full(g, NAN), np.arange(g)[::-1].copy(), msg="non-default call_seq_out")
    ctx.raises(ValueError, nb.sort_call_seq_nb, NS(**dict(base, call_seq_now=None)), size, sts, drs, np.full(g, NAN), msg="no call_seq")
    ctx.raises(ValueError, nb.sort_call_seq_nb, NS(**dict(base, cash_sharing=False)), size, sts, drs, np.full(g, NAN), msg="no cash sharing")
    ctx.raises(ValueError, nb.get_group_value_ctx_nb, NS(**dict(base, cash_sharing=False)), msg="no cash sharing")
    ctx.nontrivial("h", gl.tolist(), st, d, round(s, 9))


@monitor(weight=0.6)
def m_misuse(ctx):
    """Sequences that leave the group are refused rather than crossing into other groups."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 5)), int(rng.integers(2, 6))
    gl = gen.group_lens(rng, c)
    if max(gl) == 1:
        gl = [c]
    cs, rows = pf.call_seq_arg(rng, n, gl)
    g = int(rng.integers(len(gl)))
    c0 = sum(gl[:g])
    cs = cs.copy()
    cs[int(rng.integers(n)), c0 + int(rng.integers(gl[g]))] = gl[g] + int(rng.integers(0, 3))
    close = pd.DataFrame(gen.prices(rng, n, c, kind="walk"))
    ctx.desc = dict(cs=cs, gl=gl)
    kw = dict(group_by=gen.groups_from_lens(gl), cash_sharing=True, call_seq=cs)
    ctx.raises(ValueError, vbt.Portfolio.from_orders, close, 1.0, msg="call index outside the group", **kw)
    ctx.raises(ValueError, vbt.Portfolio.from_signals, close, True, False, msg="call index outside the group", **kw)
    ctx.raises(ValueError, vbt.Portfolio.from_order_func, close, lambda c_: nb.order_nb(1.0, 1.0), msg="call index outside the group",
               row_wise=bool(rng.random() < 0.5), **kw)
    ctx.nontrivial("misuse", n, c, gl, cs.tolist())
    ctx.seen("sequences_refused")
