"""Z03: compiled kernels compute what their Python source says.

A companion process runs the same source interpreted (NUMBA_DISABLE_JIT); both sides rebuild every call from its seed."""
import atexit
import os
import pickle
import struct
import subprocess
import sys
import warnings

import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from numba.typed import Dict as TypedDict, List as TypedList

from vt import kern, simcase
from vt.checks import e01
from vt.core import Skip, monitor

NAN = np.nan
SLOTS = 8


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


# ------------------------------------------------------------------------------------------------ small helpers

@njit
def twice(i, a, x):
    return a * (i + x)


@njit
def twice_many(i, a, x):
    return a * (i + x), a - x


@njit
def fill_none(i, out):
    out[i] = i * 2


@njit
def addc(a, b, x):
    return a + b * x


def misc(rng):
    """Numeric helpers outside the kernel modules: (name, function, arguments)."""
    from vectorbt.base import combine_fns as cf, index_fns as xf, reshape_fns as rf, column_grouper as cg
    from vectorbt.utils import math_ as mt, array_ as ar
    v = lambda: float(pick(rng, [0.0, 1.0, 1.0 + 1e-12, 1.0 + 1e-6, -1.0, 1e-13, 1e9, 1e9 + 1e-3, NAN, np.inf, -np.inf, float(rng.normal())]))
    n, c = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    a, b = rng.random((n, c)), rng.random((n, c))
    k = pick(rng, ["close", "less", "isless", "zero", "add", "sorted", "argsort", "rescale", "renorm", "lens", "choose", "select", "auto", "align",
                   "none", "one", "many", "to2", "to2m", "concat", "multiple", "sel"])
    x, y = v(), v()
    if rng.random() < 0.4:
        y = x * (1 + pick(rng, [1e-10, -1e-10, 1e-8, 0]))
    i, col = int(rng.integers(n)), int(rng.integers(c))
    fa = pick(rng, [a, a[:1], a[:, :1], a[:1, :1], a[0], a[:, 0], np.asarray(2.5)])
    f2 = bool(rng.integers(2))
    if fa.ndim == 1:
        f2 = fa.shape[0] == c and (fa.shape[0] != n or f2)
        if not f2 and fa.shape[0] not in (1, n):
            f2 = True
    table = dict(
        close=(mt.is_close_nb, (x, y)), less=(mt.is_close_or_less_nb, (x, y)), isless=(mt.is_less_nb, (x, y)), zero=(mt.is_addition_zero_nb, (x, -y)),
        add=(mt.add_nb, (x, -y)), sorted=(ar.is_sorted_nb, (np.sort(rng.integers(0, 5, n)) if rng.random() < 0.5 else rng.integers(0, 5, n),)),
        argsort=(ar.insert_argsort_nb, (rng.integers(0, 4, n).astype(float), np.arange(n))),
        rescale=(ar.rescale_float_to_int_nb, (np.full(3, 1 / 3), (1, 10), 12.0)), renorm=(ar.renormalize_nb, (float(rng.random()), (0.0, 1.0), (5.0, 9.0))),
        lens=(cg.get_group_lens_nb, (np.sort(rng.integers(0, 3, n)),)), choose=(rf.flex_choose_i_and_col_nb, (fa, f2)),
        select=(rf.flex_select_nb, (a, i, col, int(pick(rng, [i, -1])), int(pick(rng, [col, -1])), True)), auto=(rf.flex_select_auto_nb, (fa, i, col, f2)),
        align=(xf._align_index_to_nb, (np.array([[0], [1]]), np.array([[0], [1], [1]]))) if hasattr(xf, "_align_index_to_nb") else None,
        none=(cf.apply_and_concat_none_nb, (n, fill_none, np.zeros(n))), one=(cf.apply_and_concat_one_nb, (3, twice, a, 2.0)),
        many=(cf.apply_and_concat_multiple_nb, (2, twice_many, a, 2.0)), to2=(cf.to_2d_one_nb, (pick(rng, [a, a[0]]),)), to2m=(cf.to_2d_multiple_nb, ((a, b),)),
        concat=(cf.combine_and_concat_nb, (a, (b, a), addc, 1.5)), multiple=(cf.combine_multiple_nb, ((a, b, a), addc, 1.5)),
        sel=(cf.select_and_combine_nb, (0, a, (b, a), addc, 1.5)))
    if k == "align":
        base = np.arange(3)
        table["align"] = (xf._align_index_to_nb, (base, np.repeat(base, 2)))
    f, args = table[k]
    return "misc." + k, f, args


KERNELS = kern.kernels()
OPS = [(n, f) for n, f in (("generic", e01.op_generic), ("returns", e01.op_returns), ("signals", e01.op_signals), ("ranges", e01.op_ranges),
                           ("mapped", e01.op_mapped), ("indicator", e01.op_indicator))]


def interpreted(f):
    return f


def norm(v):
    """Results in a form that two processes can exchange and compare."""
    if isinstance(v, (TypedDict, dict)):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, TypedList)):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, (np.ndarray, np.void)):
        return np.array(v)
    return v


def evaluate(what, *spec):
    """("ok", result, arrays written) or ("error", class, text)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                if what == "kernel":
                    k, seed, dtype, how, drop = spec
                    mod, name, f, ann, nd = KERNELS[k]
                    args, d = kern.build(np.random.default_rng(seed), mod, name, ann, nd, dtype, how, drop_defaults=drop)
                    if args is None:
                        return "none", None, None
                    r = f(*args)
                    return "ok", norm(r), [np.array(a) for a in args if isinstance(a, np.ndarray)]
                if what == "misc":
                    name, f, args = misc(np.random.default_rng(spec[0]))
                    r = f(*args)
                    return "ok", norm(r), [np.array(a) for a in args if isinstance(a, np.ndarray)]
                if what == "op":
                    rng = np.random.default_rng(spec[1])
                    name, run, callback = OPS[spec[0]][1](rng)
                    if e01.is_random(name) or "@f4" in name or ":func" in name or callback:
                        return "none", None, None
                    return "ok", norm(e01.plain(run("numba"))), name
                if what == "sim":
                    run, cnt, desc = simcase.build(spec[0], spec[1])
                    np.random.seed(0)
                    p = run()
                    return "ok", simcase.observe(p, cnt), None
            except Exception as e:
                return "error", type(e).__name__, str(e)[:300]


class Companion:
    def __init__(self):
        env = dict(os.environ)
        for k in ("NUMBA_BOUNDSCHECK", "MALLOC_PERTURB_"):
            env.pop(k, None)
        env["NUMBA_DISABLE_JIT"] = "1"
        self.p = subprocess.Popen([sys.executable, "-m", "vt.pureserver"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        atexit.register(self.p.kill)

    def send(self, req):
        b = pickle.dumps(req)
        self.p.stdin.write(struct.pack("<q", len(b)) + b)
        self.p.stdin.flush()

    def recv(self):
        h = self.p.stdout.read(8)
        return pickle.loads(self.p.stdout.read(struct.unpack("<q", h)[0]))


def companion(ctx):
    if "companion" not in ctx.state.get("_obj", {}):
        _OBJ["companion"] = _OBJ.get("companion") or Companion()
    return _OBJ["companion"]


_OBJ = {}

# the interpreter cannot run these on such input (NumPy arrays are less permissive than the compiled code), or draws differ
ARTIFACT = {
    ("argmin_reduce_nb", "i"), ("argmax_reduce_nb", "i"), ("argmin_reduce_nb", "b"), ("argmax_reduce_nb", "b"),
}


def kind(x):
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return type(x).__name__


def unequal(a, b, rtol=1e-9, scale=None):
    """What differs between a compiled (a) and an interpreted (b) result."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(str, a)) != set(map(str, b)):
            return f"keys {list(a)[:5]} for {list(b)[:5]}"
        bb = {str(k): v for k, v in b.items()}
        for k, v in a.items():
            d = unequal(v, bb[str(k)], rtol)
            if d:
                return f"[{k}] {d}"
        return None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)):
            return f"{type(a).__name__} for {type(b).__name__}"
        if len(a) != len(b):
            return f"{len(a)} items for {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = unequal(x, y, rtol)
            if d:
                return f"[{i}] {d}"
        return None
    if a is None or b is None:
        return None if a is b else f"{a!r} for {b!r}"
    if isinstance(a, (pd.Series, pd.DataFrame)):
        if type(a) is not type(b):
            return f"{type(a).__name__} for {type(b).__name__}"
        if not a.index.equals(b.index):
            return f"index {a.index} for {b.index}"
        if isinstance(a, pd.DataFrame):
            if not a.columns.equals(b.columns):
                return f"columns {a.columns} for {b.columns}"
            if list(a.dtypes) != list(b.dtypes):
                return f"dtypes {list(a.dtypes)} for {list(b.dtypes)}"
        return unequal(a.to_numpy(), b.to_numpy(), rtol)
    if isinstance(a, pd.Index):
        return None if a.equals(b) else f"{a} for {b}"
    if isinstance(a, (np.ndarray, np.generic)) and (np.ndim(a) or np.asarray(a).dtype.names) or isinstance(b, np.ndarray) and b.ndim:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f"shape {x.shape} for {y.shape}"
        if x.dtype.names or y.dtype.names:
            if x.dtype.names != y.dtype.names:
                return f"fields {x.dtype.names} for {y.dtype.names}"
            for f in x.dtype.names:
                d = unequal(np.atleast_1d(x[f]), np.atleast_1d(y[f]), rtol)
                if d:
                    return f"field {f}: {d}"
            return None
        if x.dtype != y.dtype:
            return f"dtype {x.dtype} for {y.dtype}"
        if x.dtype.kind == "f":
            m = np.nanmax(np.abs(np.where(np.isfinite(y), y, 0))) if y.size else 0
            ok = np.isclose(x, y, rtol=rtol, atol=1e-12 + 1e-12 * m, equal_nan=True)
            with np.errstate(all="ignore"):
                ok |= (np.abs(x) > 1e10) & (np.abs(y) > 1e10)     # divisions by what is zero up to rounding
        elif x.dtype == object:
            for p, q in zip(x.ravel(), y.ravel()):
                d = unequal(p, q, rtol)
                if d:
                    return d
            return None
        else:
            ok = (x == y) | ((x != x) & (y != y))
        if ok.all():
            return None
        w = tuple(np.argwhere(~ok)[0])
        return f"{x[w]!r} for {y[w]!r} at {tuple(int(i) for i in w)}"
    ka, kb = kind(a), kind(b)
    if ka in "bif" and kb in "bif":
        if ka != kb and {ka, kb} != {"i", "f"}:
            return f"type {ka} for {kb}"
        x, y = float(a), float(b)
        if x == y or x != x and y != y or abs(x) > 1e10 and abs(y) > 1e10 or abs(x - y) <= 1e-12 + rtol * max(abs(x), abs(y)):
            return None
        return f"{a!r} for {b!r}"
    if hasattr(a, "_fields") or type(a).__name__ != type(b).__name__:
        return f"{type(a).__name__} for {type(b).__name__}"
    return None if str(a) == str(b) else f"{a!r} for {b!r}"


def compare(ctx, mine, ref, zero_div=True, **info):
    """True if the pair was decided."""
    if mine[0] == "none" or ref[0] == "none":
        ctx.check(mine[0] == ref[0], "harness: both sides build the same call", **info)
        return False
    if mine[0] == "error" or ref[0] == "error":
        if mine[0] == ref[0]:
            if {mine[1], ref[1]} == {"TypingError"}:
                return False
            same = mine[1] == ref[1] or {mine[1], ref[1]} <= {"ValueError", "TypingError", "TypeError", "AssertionError", "ZeroDivisionError"}
            ctx.check(same, "compiled and interpreted code fail differently", **info, compiled=mine, interpreted=ref)
            ctx.seen("same_error")
            return False
        err = mine if mine[0] == "error" else ref
        if mine[0] == "error" and mine[1] == "ZeroDivisionError":
            ctx.seen("scalar_division")   # NumPy scalars divide to inf/nan where compiled floats raise
            return False
        if mine[0] == "error" and mine[1] in ("TypingError", "UnsupportedError", "LoweringError"):
            ctx.seen("not_compilable")
            ctx.state.setdefault("z03_typing", {})[str(info.get("kernel"))] = mine[2][:100]
            return False
        if ref[0] == "error" and ref[1] == "TypeError" and "boolean subtract" in ref[2]:
            return False
        ctx.fail("only one of compiled and interpreted code fails", **info, compiled=str(mine)[:300], interpreted=str(ref)[:300])
    d = unequal(mine[1], ref[1])
    ctx.check(d is None, "compiled result differs from interpreted", **info, difference=d)
    if isinstance(mine[2], list):
        d = unequal(mine[2], ref[2])
        ctx.check(d is None, "compiled code writes its arguments differently", **info, difference=d)
    return True


def ask(ctx, reqs, label):
    """The companion works on its calls while this process compiles."""
    comp = companion(ctx)
    comp.send(reqs[0])
    out = []
    for i, r in enumerate(reqs):
        mine = evaluate(*r)
        ref = comp.recv()
        if i + 1 < len(reqs):
            comp.send(reqs[i + 1])
        out.append((r, mine, ref))
    return out


def has_generic_types(mod, name, ann):
    return mod == "generic" and any(p in ("a", "arr", "ts", "mask") for p in ann)


OVERLOADED = ["set_by_mask_1d_nb", "set_by_mask_nb", "set_by_mask_mult_1d_nb", "set_by_mask_mult_nb", "fshift_1d_nb", "fshift_nb", "bshift_1d_nb", "bshift_nb",
              "nanprod_nb", "nancumsum_nb", "nancumprod_nb", "nansum_nb", "expand_mapped_nb", "stack_expand_mapped_nb"]


def unusual(f):
    """Compiled with options that change semantics."""
    o = dict(getattr(f, "targetoptions", {}))
    return bool({k for k, v in o.items() if v} - {"nopython", "boundscheck", "cache"})


def tasks():
    """What the compiled workers execute, in order: first what is compiled in a special way, then everything, then other variants."""
    by = {x[1]: k for k, x in enumerate(KERNELS)}
    special = [(k, "f", "C", False) for k, x in enumerate(KERNELS) if unusual(x[2])]
    special += [(k, None, None, False) for k, *_ in special]
    first = []
    for n in OVERLOADED:
        if n in by:
            first += [(by[n], t, how, False) for t, how in (("f", "C"), ("i", "C"), ("b", "C"), ("f", "strided"), ("i", "strided"), ("b", "F"))]
    rest = [(k, None, None, False) for k in range(len(KERNELS))]
    # spread the expensive families
    rest = [r for i in range(7) for r in rest[i::7]]
    return special, first, rest


UNUSUAL, FIRST, REST = tasks()


@monitor(30, modes=("jit",))
def kernels(ctx):
    """Every kernel, a slice of them per process, on several data types and layouts."""
    rng = ctx.rng
    slot, pos = ctx.case[1] % SLOTS, ctx.case[1] % 500000 // SLOTS
    # kernels compiled with unusual options go to the processes that optimise fully
    queue = (UNUSUAL[slot::2] + UNUSUAL[1 - slot::2] if slot < 2 else []) + FIRST[slot::SLOTS] + REST[slot::SLOTS]
    if pos < len(queue):
        k, dtype, how, drop = queue[pos]
    else:
        k, dtype, how, drop = int(rng.integers(len(KERNELS))), None, None, bool(rng.random() < 0.4)
    mod, name, f, ann, nd = KERNELS[k]
    typed = has_generic_types(mod, name, ann)
    if dtype is None:
        dtype = pick(rng, ["f", "f", "i", "b"]) if typed else "f"
        how = pick(rng, ["C", "C", "F", "strided", "reversed"])
    reqs = [("kernel", k, [int(x) for x in rng.integers(0, 2 ** 31, 2)], dtype, how, drop) for _ in range(12)]
    ctx.desc = dict(kernel=name, dtype=dtype, layout=how)
    n = 0
    for r, a, b in ask(ctx, reqs, name):
        if (name, dtype) in ARTIFACT and "error" in (a[0], b[0]):
            continue
        if compare(ctx, a, b, kernel=f"{mod}.{name}", dtype=dtype, layout=how, call=r[2]):
            ctx.seen("kernel_calls")
            ctx.nontrivial(name, dtype, how)


@monitor(1, modes=("jit",))
def helpers(ctx):
    """Numeric helpers of the base and utils packages."""
    rng = ctx.rng
    reqs = [("misc", [int(x) for x in rng.integers(0, 2 ** 31, 2)]) for _ in range(12)]
    for r, a, b in ask(ctx, reqs, "misc"):
        if compare(ctx, a, b, kernel=misc(np.random.default_rng(r[1]))[0], call=r[1]):
            ctx.seen("helper_calls")


@monitor(1, modes=("jit",))
def operations(ctx):
    """Whole library operations in both worlds."""
    rng = ctx.rng
    reqs = [("op", int(rng.integers(len(OPS))), int(rng.integers(2 ** 31))) for _ in range(1)]
    for r, a, b in ask(ctx, reqs, "op"):
        if compare(ctx, a, b, operation=OPS[r[1]][0], call=r[2], name=a[2] if a[0] == "ok" else ""):
            ctx.seen("operations")
            ctx.nontrivial(a[2])


@monitor(3, modes=("jit",))
def simulators(ctx):
    """Whole simulations: every simulator with its callbacks, one kind per process."""
    rng = ctx.rng
    slot = ctx.case[1] % SLOTS
    if ctx.tier == "quick" and slot not in (2, 3):
        raise Skip      # compiling a simulator costs half a minute; the portfolio checks run them compiled as well
    # the last two kinds take turns by seed
    kinds = [simcase.KINDS[slot]] if slot < 7 else simcase.KINDS[7:]
    if ctx.tier == "quick":
        kinds = ["orders"] if slot == 2 else simcase.KINDS[1:]
    k = kinds[int(ctx.case[0]) % len(kinds)]
    reqs = [("sim", k, int(rng.integers(2 ** 31))) for _ in range(15)]
    for r, a, b in ask(ctx, reqs, k):
        if compare(ctx, a, b, simulator=k, seed=r[2]):
            ctx.seen("simulations")
            ctx.seen("sim_" + k)
            ctx.nontrivial(k, len(a[1]["orders"]))
