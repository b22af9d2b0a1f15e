"""S02: random signals honour counts, probabilities, bounds and seeds."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.s01 import table, wrap, v2, same_axes, ref_both, ref_exits, ref_generate, draw


def twice(ctx, f, seed, what):
    """Run with the same seed twice (with the global state disturbed in between)."""
    a = f(seed)
    np.random.random(int(ctx.rng.integers(1, 9)))
    b = f(seed)
    for x, y in zip(a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,)):
        ctx.eq(v2(x), v2(y), f"{what}: same seed, different signals")
    ctx.seen("reseeded")
    return a


def prob_arg(rng, n, c, values):
    """A probability given per element, per row, per column or as scalar, with its expanded form."""
    full = np.asarray([pick(rng, values) for _ in range(n * c)], float).reshape(n, c)
    form = pick(rng, ["scalar", "row", "col", "full"])
    if form == "scalar":
        return float(full[0, 0]), np.full((n, c), full[0, 0])
    if form == "row":
        return full[:1].copy(), np.repeat(full[:1], n, 0)
    if form == "col":
        return full[:, :1].copy(), np.repeat(full[:, :1], c, 1)
    return full, full


PV = [0.0, 0.0, 0.3, 0.6, 1.0, 1.0]
P01 = [0.0, 0.0, 1.0]


def check_prob(ctx, got, p, first, what):
    for col in range(p.shape[1]):
        rows = np.flatnonzero(got[:, col])
        ctx.check((p[rows, col] > 0).all(), f"{what}: signal where the probability is 0")
        sure = np.flatnonzero(p[:, col] == 1)
        if first:
            ctx.check(len(rows) <= 1, f"{what}: {len(rows)} signals with pick_first")
            if len(sure):
                ctx.check(len(rows) == 1 and rows[0] <= sure[0], f"{what}: passed over row {sure[0]} of probability 1")
        else:
            ctx.check(got[sure, col].all(), f"{what}: no signal where the probability is 1")
    ctx.seen("prob_cells", p.size)


def check_alt(ctx, en, ex, pe, px, ew, xw, what):
    """Signals drawn one at a time in turn: each in its window, never passing over a row of probability 1."""
    n = len(en)
    for col in range(en.shape[1]):
        lo, turn = 0, 0
        e, x = list(np.flatnonzero(en[:, col])), list(np.flatnonzero(ex[:, col]))
        while lo < n:
            q, p = (x, px) if turn else (e, pe)
            name = "exit" if turn else "entry"
            sure = [i for i in range(lo, n) if p[i, col] == 1]
            if not q:
                ctx.check(not sure, f"{what}: no {name} although row {sure[:1]} has probability 1")
                break
            r = q.pop(0)
            ctx.check(r >= lo, f"{what}: {name} at {r} before its window from {lo}")
            ctx.check(p[r, col] > 0, f"{what}: {name} at {r} where the probability is 0")
            ctx.check(not sure or sure[0] >= r, f"{what}: {name} at {r} passed over row {sure[:1]} of probability 1")
            ctx.seen("alternating")
            lo = r + (ew if turn else xw)
            turn = 1 - turn
        ctx.check(not e and not x, f"{what}: signals {e} {x} left over, they do not alternate")


def check_counts(ctx, en, ex, ns, ew, xw, what):
    n = len(en)
    for col in range(en.shape[1]):
        e, x = np.flatnonzero(en[:, col]), np.flatnonzero(ex[:, col])
        k = int(ns[col])
        if ew == 1 and xw == 1 and 2 * k > n:
            ctx.check(len(e) == (n + 1) // 2 and len(x) == n // 2, f"{what}: {len(e)} entries and {len(x)} exits, no room for {k}")
        else:
            ctx.check(len(e) == k and len(x) == k, f"{what}: {len(e)} entries and {len(x)} exits instead of {k}")
        for j in range(len(x)):
            ctx.check(x[j] - e[j] >= xw, f"{what}: exit {x[j]} less than {xw} after entry {e[j]}")
            if j + 1 < len(e):
                ctx.check(e[j + 1] - x[j] >= ew, f"{what}: entry {e[j + 1]} less than {ew} after exit {x[j]}")
        ctx.seen("counted_pairs", len(x))


def fits(n, k, ew, xw):
    return k == 0 or (ew == 1 and xw == 1) or n >= (ew + xw) * (k - 1) + xw + 1


def counts(rng, c, hi):
    form = pick(rng, ["scalar", "array"])
    if form == "scalar":
        k = int(rng.integers(0, hi))
        return k, np.full(c, k)
    ks = rng.integers(0, hi, c)
    return pick(rng, [ks, ks.tolist()]), ks


@monitor(weight=3, modes=("pure", "jit"))
def m_random(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    seed = int(rng.integers(0, 1 << 31))
    series = c == 1 and rng.random() < 0.5
    acc = pd.Series.vbt.signals if series else pd.DataFrame.vbt.signals
    shape = pick(rng, [n, (n,), (n, 1)]) if c == 1 else (n, c)
    idx = gen.dt_index(rng, n, "D")
    if rng.random() < 0.5:
        k, ks = counts(rng, c, n + 3)
        got = twice(ctx, lambda s: acc.generate_random(shape, n=k, seed=s, index=idx), seed, "generate_random(n)")
        ctx.check((v2(got).sum(0) == np.minimum(ks, n)).all(), f"{v2(got).sum(0)} signals instead of {np.minimum(ks, n)}")
        ctx.seen("counted", int(v2(got).sum()))
    else:
        p, full = prob_arg(rng, n, c, PV)
        if isinstance(shape, int) or len(shape) == 1:
            p = p if isinstance(p, float) else full[:, 0]
        first = bool(rng.random() < 0.5)
        kw = gen.omit(rng, dict(pick_first=first), dict(pick_first=False))
        got = twice(ctx, lambda s: acc.generate_random(shape, prob=p, seed=s, index=idx, **kw), seed, "generate_random(prob)")
        check_prob(ctx, v2(got), full, first, "generate_random(prob)")
    ctx.check(got.index.equals(idx) and isinstance(got, pd.Series) == series and v2(got).dtype == bool, "generate_random: axes")
    if rng.random() < 0.05:
        ctx.raises(ValueError, lambda: acc.generate_random(shape, n=1, prob=0.5), msg="n and prob")
        ctx.raises(ValueError, lambda: acc.generate_random(shape), msg="neither n nor prob")
    ctx.nontrivial(n, c, int(v2(got).sum()), seed % 97)


@monitor(weight=4, modes=("pure", "jit"))
def m_both(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 30)), int(rng.integers(1, 4))
    seed = int(rng.integers(0, 1 << 31))
    series = c == 1 and rng.random() < 0.5
    acc = pd.Series.vbt.signals if series else pd.DataFrame.vbt.signals
    shape = (n, c) if c > 1 or rng.random() < 0.5 else pick(rng, [n, (n,)])
    ew, xw = int(pick(rng, [0, 1, 1, 2, 3])), int(pick(rng, [0, 1, 1, 2, 3]))
    kw = gen.omit(rng, dict(entry_wait=ew, exit_wait=xw), dict(entry_wait=1, exit_wait=1))
    if rng.random() < 0.5:
        k, ks = counts(rng, c, max(2, n // max(1, ew + xw) + 2))
        f = lambda s: acc.generate_random_both(shape, n=k, seed=s, **kw)
        if ew == 0 and xw == 0:
            ctx.raises(ValueError, lambda: f(seed), msg="both waits zero")
            return
        if not all(fits(n, int(q), ew, xw) for q in ks):
            ctx.raises(ValueError, lambda: f(seed), msg=f"{ks} pairs with waits {ew}, {xw} in {n} rows")
            ctx.seen("no_room")
            return
        en, ex = twice(ctx, f, seed, "generate_random_both(n)")
        check_counts(ctx, v2(en), v2(ex), ks, ew, xw, f"generate_random_both(n={k}, waits={ew},{xw})")
    else:
        exact = rng.random() < 0.4
        pe, fe = prob_arg(rng, n, c, P01 if exact else PV)
        px, fx = prob_arg(rng, n, c, P01 if exact else PV)
        if not isinstance(shape, tuple) or len(shape) == 1:
            pe, px = (q if isinstance(q, float) else g[:, 0] for q, g in ((pe, fe), (px, fx)))
            ctx.seen("row_prob")
        ef, xf = (bool(rng.random() < 0.5), bool(rng.random() < 0.5)) if exact else (True, True)
        kw.update(gen.omit(rng, dict(entry_pick_first=ef, exit_pick_first=xf), dict(entry_pick_first=True, exit_pick_first=True)))
        f = lambda s: acc.generate_random_both(shape, entry_prob=pe, exit_prob=px, seed=s, **kw)
        if ew == 0 and xw == 0:
            ctx.raises(ValueError, lambda: f(seed), msg="both waits zero")
            return
        en, ex = twice(ctx, f, seed, "generate_random_both(prob)")
        if exact:
            a, b, _, _ = ref_both(n, fe == 1, fx == 1, ew, xw, ef, xf)
            ctx.eq(v2(en), a, "sure entries", waits=(ew, xw))
            ctx.eq(v2(ex), b, "sure exits", waits=(ew, xw))
            ctx.seen("sure")
        else:
            check_alt(ctx, v2(en), v2(ex), fe, fx, ew, xw, "generate_random_both(prob)")
    if rng.random() < 0.05:
        ctx.raises(ValueError, lambda: acc.generate_random_both(shape, n=1, entry_prob=0.5, exit_prob=0.5), msg="n and prob")
        ctx.raises(ValueError, lambda: acc.generate_random_both(shape, entry_prob=0.5), msg="one probability")
    ctx.nontrivial(n, c, ew, xw, int(v2(en).sum()))


def windows(e, n, wait):
    return [(r + wait, e[k + 1] if k + 1 < len(e) else n) for k, r in enumerate(e)]


def check_rand_exits(ctx, en, ex, wait, until, skip, what, p=None):
    """One exit per entry window (or, given probabilities, at most one, never passing over a sure row)."""
    n = len(en)
    for col in range(en.shape[1]):
        e, x = list(np.flatnonzero(en[:, col])), list(np.flatnonzero(ex[:, col]))
        if until or skip:
            last = -1
            used = []
            for k, r in enumerate(e):
                if skip and r <= last:
                    continue
                lo, hi = r + wait, (e[k + 1] if until and k + 1 < len(e) else n)
                if lo >= hi:
                    continue
                q = [i for i in x if lo <= i < hi and i not in used]
                if p is None:
                    ctx.check(len(q) >= 1, f"{what}: no exit between {lo} and {hi}")
                    if until:
                        ctx.check(len(q) == 1, f"{what}: {len(q)} exits between {lo} and {hi}")
                else:
                    sure = [i for i in range(lo, hi) if p[i, col] == 1]
                    if until:
                        ctx.check(len(q) <= 1, f"{what}: {len(q)} exits between {lo} and {hi}")
                    ctx.check(not sure or (q and q[0] <= sure[0]), f"{what}: passed over row {sure[:1]} of probability 1")
                if q:
                    last = q[0]
                    used.append(q[0])
                elif skip and not until:
                    last = n
                ctx.seen("windows")
            ctx.check(used == x, f"{what}: exits {x}, only {used} belong to an entry")
        else:
            los = [r + wait for r in e if r + wait < n]
            if p is None:
                for lo in los:
                    ctx.check(any(i >= lo for i in x), f"{what}: no exit from row {lo}")
                    ctx.seen("windows")
            else:
                for lo in los:
                    sure = [i for i in range(lo, n) if p[i, col] == 1]
                    ctx.check(not sure or any(lo <= i <= sure[0] for i in x), f"{what}: passed over row {sure[:1]} of probability 1")
                    ctx.seen("windows")
            for k, i in enumerate(x):
                ctx.check(sum(lo <= i for lo in los) >= k + 1, f"{what}: exits {x} for windows from {los}")
        if p is not None:
            ctx.check((p[x, col] > 0).all(), f"{what}: exit where the probability is 0")


@monitor(weight=4, modes=("pure", "jit"))
def m_exits(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    seed = int(rng.integers(0, 1 << 31))
    en = table(rng, n, c)
    o = wrap(rng, en)
    wait = int(pick(rng, [0, 1, 1, 2, 3]))
    until, skip = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    kw = gen.omit(rng, dict(wait=wait, until_next=until, skip_until_exit=skip), dict(wait=1, until_next=True, skip_until_exit=False))
    acc = o.vbt.signals(group_by=rng.integers(0, 2, c)) if isinstance(o, pd.DataFrame) and rng.random() < 0.2 else o.vbt.signals
    if rng.random() < 0.5:
        got = twice(ctx, lambda s: acc.generate_random_exits(seed=s, **kw), seed, "generate_random_exits")
        check_rand_exits(ctx, en, v2(got), wait, until, skip, "generate_random_exits")
    else:
        exact = rng.random() < 0.4
        p, full = prob_arg(rng, n, c, P01 if exact else PV)
        if isinstance(o, pd.Series) and not isinstance(p, float):
            p = full[:, 0]
        got = twice(ctx, lambda s: acc.generate_random_exits(prob=p, seed=s, **kw), seed, "generate_random_exits(prob)")
        if exact:
            ctx.eq(v2(got), ref_exits(en, full == 1, wait, until, skip, True)[0], "sure exits", wait=wait, until=until, skip=skip)
            ctx.seen("sure")
        else:
            check_rand_exits(ctx, en, v2(got), wait, until, skip, "generate_random_exits(prob)", full)
    same_axes(ctx, got, o, "generate_random_exits")
    ctx.nontrivial(n, c, wait, until, skip, int(v2(got).sum()))


def blocks(o, k, c):
    a = v2(o)
    return [a[:, i * c:(i + 1) * c] for i in range(k)]


@monitor(weight=4, modes=("pure", "jit"))
def m_generators(ctx):
    """Generator classes over several parameters."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 16)), int(rng.integers(1, 4))
    seed = int(rng.integers(0, 1 << 31))
    k = int(rng.integers(1, 4))
    idx = gen.dt_index(rng, n, "D")
    en = table(rng, n, c)
    o = pd.DataFrame(en, index=idx, columns=list("abc")[:c])
    wait = int(pick(rng, [0, 1, 1, 2]))
    until, skip = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    ew, xw = int(pick(rng, [0, 1, 1, 2])), int(pick(rng, [1, 1, 2]))
    D = dict(wait=1, until_next=True, skip_until_exit=False, entry_wait=1, exit_wait=1, pick_first=False)
    om = lambda **kw: gen.omit(rng, kw, D)
    shape = (n, c) if c > 1 or rng.random() < 0.5 else (n,)
    if len(shape) == 1:
        o = o.iloc[:, 0]
    which = pick(rng, ["RAND", "RANDX", "RANDNX", "RPROB", "RPROBX", "RPROBCX", "RPROBNX"])
    G = getattr(vbt, which)

    def per_param(mk):
        args, exp = [], []
        for _ in range(k):
            a, e = mk()
            args.append(a)
            exp.append(e)
        if k == 1 and rng.random() < 0.5 and not isinstance(args[0], (list, np.ndarray)):
            return args[0], exp
        return args, exp

    def mkn(hi):
        if rng.random() < 0.5:
            q = int(rng.integers(0, hi))
            return q, np.full(c, q)
        q = rng.integers(0, hi, c)
        return q, q

    def mkp(values=PV):
        a, e = prob_arg(rng, n, c, values)
        if len(shape) == 1 and isinstance(a, np.ndarray):
            a = e[:, 0]
        return a, e

    def names(ind, want):
        got = [x.split("_", 1)[1] for x in ind.wrapper.columns.names if x and "_" in str(x)]
        for w in want:
            ctx.check(w in got, f"{which}: no column level for {w}: {got}")

    if which == "RAND":
        a, e = per_param(lambda: mkn(n + 2))
        r = twice(ctx, lambda s: G.run(shape, a, seed=s).entries, seed, which)
        for b, q in zip(blocks(r, k, c), e):
            ctx.check((b.sum(0) == np.minimum(q, n)).all(), f"RAND: {b.sum(0)} signals instead of {np.minimum(q, n)}")
    elif which == "RANDNX":
        a, e = per_param(lambda: mkn(max(2, n // (ew + xw) + 1)))
        f = lambda s: (lambda z: (z.entries, z.exits))(G.run(shape, a, seed=s, **om(entry_wait=ew, exit_wait=xw)))
        if not all(fits(n, int(q), ew, xw) for qq in e for q in qq):
            ctx.raises(ValueError, lambda: f(seed), msg=f"{e} pairs with waits {ew}, {xw} in {n} rows")
            ctx.seen("no_room")
            return
        r = twice(ctx, f, seed, which)
        for b, b2, q in zip(blocks(r[0], k, c), blocks(r[1], k, c), e):
            check_counts(ctx, b, b2, q, ew, xw, which)
    elif which == "RANDX":
        r = twice(ctx, lambda s: G.run(o, seed=s, **om(wait=wait, until_next=until, skip_until_exit=skip)).exits, seed, which)
        check_rand_exits(ctx, en, v2(r), wait, until, skip, which)
    elif which == "RPROB":
        first = bool(rng.random() < 0.5)
        a, e = per_param(mkp)
        r = twice(ctx, lambda s: G.run(shape, a, seed=s, **om(pick_first=first)).entries, seed, which)
        for b, q in zip(blocks(r, k, c), e):
            check_prob(ctx, b, q, first, which)
    elif which == "RPROBX":
        a, e = per_param(mkp)
        r = twice(ctx, lambda s: G.run(o, a, seed=s, **om(wait=wait, until_next=until, skip_until_exit=skip)).exits, seed, which)
        for b, q in zip(blocks(r, k, c), e):
            check_rand_exits(ctx, en, b, wait, until, skip, which, q)
    elif which == "RPROBCX":
        a, e = per_param(mkp)
        r = twice(ctx, lambda s: (lambda z: (z.new_entries, z.exits))(G.run(o, a, seed=s, **om(wait=xw, entry_wait=ew))), seed, which)
        for b, b2, q in zip(blocks(r[0], k, c), blocks(r[1], k, c), e):
            check_alt(ctx, b, b2, en.astype(float), q, ew, xw, which)
    else:
        a, e = per_param(mkp)
        a2, e2 = per_param(mkp)
        r = twice(ctx, lambda s: (lambda z: (z.entries, z.exits))(G.run(shape, a, a2, seed=s, **om(entry_wait=ew, exit_wait=xw))), seed, which)
        for b, b2, q, q2 in zip(blocks(r[0], k, c), blocks(r[1], k, c), e, e2):
            check_alt(ctx, b, b2, q, q2, ew, xw, which)
    first = r[0] if isinstance(r, tuple) else r
    kk = 1 if which == "RANDX" else k
    ctx.check(v2(first).shape == (n, kk * c), f"{which}: shape {v2(first).shape}")
    ctx.seen("gen_" + which)
    ctx.nontrivial(which, n, c, k, int(v2(first).sum()))


@monitor(weight=0.3, modes=("pure", "jit"))
def m_spread(ctx):
    """Every admissible row is reachable, at the documented frequency."""
    rng = ctx.rng
    R, C = int(rng.integers(2, 6)), 400
    k = int(rng.integers(1, R + 1))
    seed = int(rng.integers(0, 1 << 31))

    def freq(a, p, what):
        m = np.asarray(a, float).mean(axis=1)
        sd = np.sqrt(np.maximum(p * (1 - p), 1e-12) / C)
        ctx.check((np.abs(m - p) <= 8 * sd + 1e-9).all(), f"{what}: frequency of signals per row {m}, expected {p}")

    freq(pd.DataFrame.vbt.signals.generate_random((R, C), n=k, seed=seed).values, np.full(R, k / R), "generate_random(n)")
    p = rng.random((R, 1))
    freq(pd.DataFrame.vbt.signals.generate_random((R, C), prob=p, seed=seed).values, p[:, 0], "generate_random(prob)")
    w = int(rng.integers(0, 2))
    if w < R:
        e = np.zeros((R, C), bool)
        e[0] = True
        q = np.array([0.0] * w + [1 / (R - w)] * (R - w))
        freq(pd.DataFrame(e).vbt.signals.generate_random_exits(seed=seed, wait=w).values, q, f"generate_random_exits(wait={w})")
    ew, xw = int(rng.integers(0, 3)), int(pick(rng, [0, 2]))
    if ew + xw > 0 and R > xw:
        en, ex = pd.DataFrame.vbt.signals.generate_random_both((R, C), n=1, entry_wait=ew, exit_wait=xw, seed=seed)
        q = np.array([1 / (R - xw) if i < R - xw else 0.0 for i in range(R)])
        freq(en.values, q, "generate_random_both(n=1) entries")
        q2 = np.array([sum(q[i] / (R - (i + xw)) for i in range(R) if i + xw <= j and i + xw < R) for j in range(R)])
        freq(ex.values, q2, "generate_random_both(n=1) exits")
    # several columns are drawn independently
    a = pd.DataFrame.vbt.signals.generate_random((8, C), n=4, seed=seed).values
    ctx.check(len({bytes(a[:, i]) for i in range(C)}) > 20, "columns repeat the same random signals")
    b = pd.DataFrame.vbt.signals.generate_random((8, C), n=4, seed=seed + 1).values
    ctx.check((a != b).any(), "another seed gives the same signals")
    ctx.seen("spread")
    ctx.nontrivial(R, k)
