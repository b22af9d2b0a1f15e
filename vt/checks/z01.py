"""Z01: kernels stay inside their arrays and return only defined values.

Interpreted executions run on arrays that watch every subscript (past the end: NumPy raises; before the start: reported unless
written as a literal), with two different fillings of fresh memory; compiled executions run with bounds checks and two fillings
of the C heap. A result that depends on the filling was never written."""
import ast
import ctypes
import sys
import types
import warnings

import numpy as np
import pandas as pd
import vectorbt as vbt

from vt import core, gen, kern, simcase
from vt.checks import e01, z03
from vt.core import Skip, monitor

NAN = np.nan


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


# ------------------------------------------------------------------------------------------------ watched arrays

class OutOfBounds(Exception):
    pass


class Watch:
    subscripts = 0
    on = False


_LITERAL = {}
# documented to count from the end, after checking the range
COUNTED_FROM_END = {"nth_reduce_nb", "nth_index_reduce_nb"}


def literal(frame):
    """Is the subscript executed by this frame written with a constant (`a[-1]`)?"""
    code, lasti = frame.f_code, frame.f_lasti
    key = (code, lasti)
    if key not in _LITERAL:
        res = False
        try:
            pos = list(code.co_positions())[lasti // 2]
            with open(code.co_filename) as f:
                lines = f.read().splitlines()
            l0, l1, c0, c1 = pos
            text = "\n".join(lines[l0 - 1:l1])
            b = "\n".join(lines[l0 - 1:l1]).encode().splitlines()
            b[-1] = b[-1][:c1]
            b[0] = b[0][c0:]
            node = ast.parse(b"\n".join(b).decode().strip()).body[0]
            if isinstance(node, ast.Expr):
                node = node.value
            elif isinstance(node, ast.Assign):
                node = node.targets[0]
            elif isinstance(node, ast.AugAssign):
                node = node.target
            if isinstance(node, ast.Subscript):
                parts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
                todo = []
                for p in parts:
                    todo += [p.lower, p.upper] if isinstance(p, ast.Slice) else [p]
                res = any(isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant) for x in todo)
        except Exception:
            res = True      # not attributable to a subscript in a source file
        _LITERAL[key] = res
    return _LITERAL[key]


def negative(k):
    if isinstance(k, (bool, np.bool_)):
        return False
    if isinstance(k, (int, np.integer)):
        return k < 0
    if isinstance(k, slice):
        return any(isinstance(x, (int, np.integer)) and x < 0 for x in (k.start, k.stop))
    if isinstance(k, np.ndarray) and k.dtype.kind in "iu":
        return bool(k.size) and int(k.min()) < 0
    if isinstance(k, tuple):
        return any(negative(x) for x in k)
    return False


class Guard(np.ndarray):
    def __getitem__(self, k):
        Watch.subscripts += 1
        if not isinstance(k, str) and negative(k):
            look(self, k)
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        Watch.subscripts += 1
        if not isinstance(k, str) and negative(k):
            look(self, k)
        super().__setitem__(k, v)


def look(a, k):
    f = sys._getframe(2)
    if "/vectorbt/" not in f.f_code.co_filename:
        return
    if f.f_code.co_name in COUNTED_FROM_END:
        return
    if not literal(f):
        raise OutOfBounds(f"negative position {k!r} of an array of shape {a.shape} at {f.f_code.co_filename.split('/vectorbt/')[-1]}:{f.f_lineno} in {f.f_code.co_name}")


def guard(v):
    if isinstance(v, np.ndarray) and v.dtype.kind in "fiubV" and v.ndim:
        return v.view(Guard)
    if isinstance(v, tuple) and not hasattr(v, "_fields"):
        return tuple(guard(x) for x in v)
    if isinstance(v, dict):
        return {k: guard(x) for k, x in v.items()}
    return v


def strip(v):
    if isinstance(v, Guard):
        return np.array(v)
    return v


class Fill:
    """Fresh arrays (np.empty) carry this content, and are watched when created inside the library."""

    def __init__(self, variant, watch=True):
        self.v = [dict(f=7.77e300, i=-77, b=0xA5), dict(f=-3.3e250, i=1234567, b=0x5A), dict(f=NAN, i=3, b=0xFF)][variant]
        self.watch = watch

    def __enter__(self):
        self.old = dict(core.POISON), np.empty, np.empty_like, np.zeros, np.full
        core.POISON.update(self.v)
        if self.watch:
            def wrap(f):
                def g(*a, **k):
                    r = f(*a, **k)
                    if isinstance(r, np.ndarray) and r.ndim and "/vectorbt/" in sys._getframe(1).f_code.co_filename:
                        return r.view(Guard)
                    return r
                return g
            np.empty, np.empty_like, np.zeros, np.full = wrap(np.empty), wrap(np.empty_like), wrap(np.zeros), wrap(np.full)
        return self

    def __exit__(self, *e):
        core.POISON.update(self.old[0])
        np.empty, np.empty_like, np.zeros, np.full = self.old[1:]


class Heap:
    """Fresh C memory carries this byte."""
    lib = ctypes.CDLL(None)

    def __init__(self, byte):
        self.byte = byte

    def __enter__(self):
        Heap.lib.mallopt(-6, self.byte)

    def __exit__(self, *e):
        Heap.lib.mallopt(-6, 0x33)


def outcome(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                return "ok", f()
            except OutOfBounds:
                raise
            except Exception as e:
                return "error", e


def identical(a, b):
    """Bit for bit."""
    return z03.unequal(a, b, rtol=0)


def judge(ctx, a, b, what, **info):
    for x in (a, b):
        if x[0] == "error" and isinstance(x[1], (IndexError, SystemError, MemoryError)):
            ctx.fail("access outside an array", operation=what, **info, error=repr(x[1])[:300], at=trace(x[1]))
    ctx.check(a[0] == b[0], "success depends on stale memory", operation=what, **info, first=str(a)[:300], second=str(b)[:300])
    if a[0] == "ok":
        d = same_bits(a[1], b[1])
        ctx.check(d is None, "result depends on stale memory", operation=what, **info, difference=d)
    return a[0] == "ok"


def same_bits(a, b):
    from vt.checks.u02 import unlike
    return unlike(a, b)


def trace(e):
    import traceback
    return [f"{f.filename.split('/vectorbt/')[-1]}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)][-3:]


# ------------------------------------------------------------------------------------------------ kernels

def extreme(rng):
    """Shapes at the edges, and ordinary ones."""
    return pick(rng, [(1, 1), (1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (5, 2), (9, 3)])


# invalid by contract: positions given by the caller
SKIPPED = set()


def call_kernel(k, seed, dtype, how, shape, watched):
    mod, name, f, ann, nd = kern_list()[k]
    args, d = kern.build(np.random.default_rng(seed), mod, name, ann, nd, dtype, how, shape=shape)
    if args is None:
        return None
    if watched:
        args = tuple(guard(a) for a in args)
    def run():
        r = f(*args)
        return norm(r), [np.array(a) for a in args if isinstance(a, np.ndarray)]
    return run


def norm(v):
    v = z03.norm(v)
    return unguard(v)


def unguard(v):
    if isinstance(v, dict):
        return {k: unguard(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unguard(x) for x in v]
    if isinstance(v, tuple):
        return tuple(unguard(x) for x in v) if not hasattr(v, "_fields") else v
    return np.array(v) if isinstance(v, Guard) else v


def kern_list():
    return z03.KERNELS


def typed(k):
    mod, name, f, ann, nd = kern_list()[k]
    return z03.has_generic_types(mod, name, ann)


@monitor(6, modes=("pure",))
def kernels(ctx):
    """Every kernel on watched arrays, at the edges of the accepted shapes, with two fillings of fresh memory."""
    rng = ctx.rng
    ks = [int(x) for x in rng.permutation(len(kern_list()))[:60]]
    for k in ks:
        mod, name, f, ann, nd = kern_list()[k]
        dtype = pick(rng, ["f", "f", "i", "b"]) if typed(k) else "f"
        how = pick(rng, ["C", "C", "F", "strided"])
        seed = [int(x) for x in rng.integers(0, 2 ** 31, 2)]
        shape = extreme(rng)
        info = dict(dtype=dtype, layout=how, shape=shape, seed=seed)
        out = []
        before = Watch.subscripts
        for v in (0, 1):
            with Fill(v):
                run = call_kernel(k, seed, dtype, how, shape, True)
                if run is None:
                    break
                try:
                    out.append(outcome(run))
                except OutOfBounds as e:
                    ctx.fail("access before the start of an array", kernel=f"{mod}.{name}", **info, error=str(e))
        if len(out) == 2 and judge(ctx, out[0], out[1], f"{mod}.{name}", **info):
            ctx.seen("kernels")
            ctx.nontrivial(name, shape, dtype)
        ctx.seen("subscripts", Watch.subscripts - before)


def wide(k):
    return np.array(k)


@monitor(3, modes=("jit",))
def compiled_kernels(ctx):
    """Compiled kernels with bounds checks and two fillings of the heap."""
    rng = ctx.rng
    k = int(rng.integers(len(kern_list())))
    mod, name, f, ann, nd = kern_list()[k]
    dtype = pick(rng, ["f", "f", "i"]) if typed(k) else "f"
    for _ in range(12):
        seed = [int(x) for x in rng.integers(0, 2 ** 31, 2)]
        shape = extreme(rng)
        out = []
        for byte in (0x11, 0xEE):
            run = call_kernel(k, seed, dtype, "C", shape, False)
            if run is None:
                raise Skip
            with Heap(byte):
                out.append(outcome(run))
        if judge(ctx, out[0], out[1], f"{mod}.{name}", dtype=dtype, shape=shape, seed=seed):
            ctx.seen("compiled_kernels")
            ctx.nontrivial(name, shape, dtype)


# ------------------------------------------------------------------------------------------------ whole operations

class Watched:
    """Every kernel of the library receives watched arrays."""

    def __enter__(self):
        import importlib
        self.undo = []
        self.depth = [0]
        for mod in kern.MODULES:
            for suffix in ("nb", "dispatch"):
                m = importlib.import_module(f"vectorbt.{mod}.{suffix}")
                for n in list(vars(m)):
                    f = getattr(m, n)
                    if n.endswith("_nb") and isinstance(f, types.FunctionType):
                        self.undo.append((m, n, f))
                        setattr(m, n, self.wrap(f))
        return self

    def wrap(self, f):
        depth = self.depth
        def g(*args, **kw):
            depth[0] += 1
            try:
                r = f(*[guard(a) for a in args], **{k: guard(a) for k, a in kw.items()})
            finally:
                depth[0] -= 1
            return unguard(r) if depth[0] == 0 else r
        g.__name__ = f.__name__
        return g

    def __exit__(self, *e):
        for m, n, f in self.undo:
            setattr(m, n, f)


OPS = [e01.op_generic, e01.op_returns, e01.op_signals, e01.op_ranges, e01.op_mapped, e01.op_indicator, e01.op_portfolio]


@monitor(4, modes=("pure",))
def operations(ctx):
    """Library operations with all their kernels on watched arrays and two fillings of fresh memory."""
    rng = ctx.rng
    for _ in range(6):
        f = pick(rng, OPS)
        seed = int(rng.integers(2 ** 31))
        out = []
        before = Watch.subscripts
        for v in (0, 1):
            name, run, _ = f(np.random.default_rng(seed))
            np.random.seed(seed % 1000)
            try:
                with Watched(), Fill(v):
                    out.append(outcome(lambda: e01.plain(run("numba"))))
            except OutOfBounds as e:
                ctx.fail("access before the start of an array", operation=name, seed=seed, error=str(e))
        ctx.seen("subscripts", Watch.subscripts - before)
        if judge(ctx, out[0], out[1], name, seed=seed):
            ctx.seen("operations")
            ctx.nontrivial(name)


@monitor(5, modes=("pure",))
def simulations(ctx):
    """Simulations with their callbacks on watched arrays; sizes of the record buffers around what is needed."""
    rng = ctx.rng
    kind = pick(rng, simcase.KINDS)
    seed = int(rng.integers(2 ** 31))
    n, c = pick(rng, [(1, 1), (1, 3), (2, 1), (3, 2), (8, 3), (12, 2)])
    out = []
    before = Watch.subscripts
    for v in (0, 1):
        run, cnt, desc = simcase.build(kind, seed, n, c)
        np.random.seed(seed % 1000)
        try:
            with Watched(), Fill(v):
                out.append(outcome(lambda: simcase.observe(run(), cnt)))
        except OutOfBounds as e:
            ctx.fail("access before the start of an array", simulator=kind, seed=seed, shape=(n, c), error=str(e))
    ctx.seen("subscripts", Watch.subscripts - before)
    if not judge(ctx, out[0], out[1], "simulate:" + kind, seed=seed, shape=(n, c)):
        return
    ctx.seen("simulations")
    limits(ctx, kind, seed, n, c, out[0][1])


def limits(ctx, kind, seed, n, c, full):
    """Exactly enough records suffice and change nothing; one too few is reported, never written past the end."""
    rng = ctx.rng
    for what, recs, par in (("orders", full["orders"], "max_orders"), ("logs", full["logs"], "max_logs")):
        m = len(recs)
        for size in {m, max(m - 1, 0), int(rng.integers(0, m + 1)), m + 3}:
            run, cnt, desc = simcase.build(kind, seed, n, c)
            np.random.seed(seed % 1000)
            kw = {par: size}
            try:
                with Watched(), Fill(0):
                    r = outcome(lambda: simcase.observe(run(**kw), cnt))
            except OutOfBounds as e:
                ctx.fail("access before the start of an array", simulator=kind, seed=seed, limit=kw, error=str(e))
            info = dict(simulator=kind, seed=seed, shape=(n, c), limit=kw, needed=m)
            room = 1 if par == "max_logs" and size == 0 else size     # there is always a log buffer
            if room >= m:
                ctx.check(r[0] == "ok", "a sufficient record buffer is refused", **info, error=str(r)[:300])
                d = same_bits(full, r[1])
                ctx.check(d is None, "the size of the record buffer changes the result", **info, difference=d)
                ctx.seen("enough")
            else:
                ctx.check(r[0] == "error" and isinstance(r[1], IndexError) and par in str(r[1]), "a record buffer too small is not reported",
                          **info, got=str(r)[:300])
                ctx.seen("too_small")


@monitor(1, modes=("jit",), once=True)
def compiled_limits(ctx):
    """The same limits in compiled simulations (bounds checks on, two fillings of the heap)."""
    rng = ctx.rng
    # each kind takes long to compile
    kinds = ["orders"] if ctx.tier == "quick" else ["orders", "signals", "flex"]
    for kind in [k for k in kinds for _ in range(20)]:
        seed = int(rng.integers(2 ** 31))
        n, c = pick(rng, [(1, 1), (1, 3), (2, 1), (3, 2), (8, 3), (12, 2)])
        out = []
        for byte in (0x11, 0xEE):
            run, cnt, desc = simcase.build(kind, seed, n, c)
            with Heap(byte):
                out.append(outcome(lambda: simcase.observe(run(), cnt)))
        if not judge(ctx, out[0], out[1], "simulate:" + kind, seed=seed, shape=(n, c)):
            continue
        m = len(out[0][1]["orders"])
        if m:
            run, cnt, desc = simcase.build(kind, seed, n, c)
            r = outcome(lambda: simcase.observe(run(max_orders=m - 1), cnt))
            ctx.check(r[0] == "error" and isinstance(r[1], IndexError) and "max_orders" in str(r[1]), "a record buffer too small is not reported (compiled)", seed=seed, kind=kind, got=str(r)[:200])
        ctx.seen("compiled_simulations")
        ctx.nontrivial(kind, n, c, m)


# ------------------------------------------------------------------------------------------------ edges of the accepted inputs

@monitor(2, modes=("pure",))
def edges(ctx):
    """Empty selections, no signals, no records, single rows: every member of the resulting objects."""
    rng = ctx.rng
    n, c = pick(rng, [(1, 1), (1, 2), (2, 1), (4, 3)])
    idx = pd.date_range("2020-01-01", periods=n, freq="D")
    close = pd.DataFrame(gen.prices(rng, n, c, nan=False), index=idx, columns=list("abc")[:c])
    kind = pick(rng, ["no_orders", "one_order", "all_nan", "no_signals", "all_signals", "empty_records", "drawdowns", "returns", "mapped", "generic"])
    def build():
        if kind == "no_orders":
            return vbt.Portfolio.from_orders(close, NAN, freq="1D")
        if kind == "one_order":
            s = np.zeros((n, c))
            s[n - 1, 0] = 1
            return vbt.Portfolio.from_orders(close, s, freq="1D")
        if kind == "all_nan":
            return vbt.Portfolio.from_orders(close * NAN, 1.0, freq="1D")
        if kind == "no_signals":
            return (close * 0 > 1).vbt.signals
        if kind == "all_signals":
            return (close > 0).vbt.signals
        if kind == "empty_records":
            o = vbt.Portfolio.from_orders(close, 1.0, freq="1D").orders
            return o.apply_mask(np.zeros(len(o.values), bool))
        if kind == "drawdowns":
            return vbt.Drawdowns.from_ts(close, freq="1D")
        if kind == "returns":
            return close.pct_change().vbt.returns(freq="1D", benchmark_rets=close.pct_change() * 0.5)
        if kind == "mapped":
            o = vbt.Portfolio.from_orders(close, 1.0, freq="1D").orders.size
            return o.apply_mask(np.zeros(len(o.values), bool))
        return close.vbt
    o = build()
    skip = ("plot", "save", "dumps", "config", "shuffle", "stats", "load")
    names = [x for x in sorted(dir(type(o))) if not x.startswith("_") and not any(y in x for y in skip)]
    done = 0
    for name in rng.permutation(names)[:12]:
        out = []
        for v in (0, 1):
            def run():
                r = getattr(build(), name)
                if callable(r) and not hasattr(r, "wrapper"):
                    r = r()
                return e01.plain(r)
            try:
                with Watched(), Fill(v):
                    out.append(outcome(run))
            except OutOfBounds as e:
                ctx.fail("access before the start of an array", object=kind, member=name, shape=(n, c), error=str(e))
        a, b = out
        if a[0] == "error":
            ctx.state.setdefault("z01_edge_errors", {})[f"{kind}.{name}"] = repr(a[1])[:150]
            inside = [t for t in trace(a[1]) if "nb.py" in t]
            ctx.check(not (isinstance(a[1], IndexError) and inside), "access outside an array", object=kind, member=name, shape=(n, c), error=repr(a[1])[:200], at=inside)
            continue
        ctx.check(b[0] == "ok", "success depends on stale memory", object=kind, member=name)
        if isinstance(a[1], (pd.Series, pd.DataFrame, np.ndarray, float, int, tuple, list)) and name not in ("iloc", "loc", "xs"):
            d = same_bits(a[1], b[1])
            ctx.check(d is None, "result depends on stale memory", object=kind, member=name, shape=(n, c), difference=d)
            done += 1
            ctx.seen("members")
            ctx.nontrivial(kind, name, n, c)
