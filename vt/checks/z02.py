"""Z02: operations leave their arguments and earlier results alone; repeating a call gives the same result, bit for bit.

The deciding oracle is vt/purity.py: around every call from outside into the library, the content of everything passed and of
results returned earlier is compared. The workloads are those of all other checks, and the ones written here."""
import importlib
import warnings
import zlib

import numpy as np
import pandas as pd
import vectorbt as vbt

from vt import core, gen, kern, simcase
from vt.checks import e01, u02, z03
from vt.core import Skip, monitor
from vt.purity import Purity, Shot

NAN = np.nan
SOURCES = [s for s in "p01 p02 p03 p04 p05 p06 p07 p08 p09 p10 p11 p12 r01 r02 r03 g01 g02 g03 g04 g05 s01 s02 s03 s04 i01 i02 t01 t02 "
           "b01 b02 b03 d01 d02 u02 u04 a01 e01".split()]


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


def workloads():
    if not hasattr(workloads, "all"):
        for s in SOURCES:
            importlib.import_module("vt.checks." + s)
        workloads.all = sorted((mod, k) for (mod, k), m in core.MONITORS.items() if mod.split(".")[-1] in SOURCES and "pure" in m["modes"] and not m["once"])
    return workloads.all


# these workloads count in arrays handed to their callbacks
WRITING = {"s01": ("args", "entry_args", "exit_args"), "s04": ("args",)}


def watch(mod, ignore=()):
    return Purity(callback_args=WRITING.get(mod.split(".")[-1], ()), ignore=ignore)


def report(ctx, p, **info):
    ctx.seen("calls", p.calls)
    ctx.seen("values", p.args)
    ctx.seen("earlier", p.results)
    if p.found:
        where, what, keys, vals = p.found[0]
        ctx.fail(f"{what} changed by a call", function=where, changed=keys, before_after=str(vals)[:600], **info)


@monitor(14, modes=("pure",))
def borrowed(ctx):
    """The workloads of the other checks (whose own verdicts are ignored here)."""
    ws = workloads()
    # in turn, so that one run sees nearly all of them
    mod, name = ws[int(np.random.default_rng(ctx.case[0]).permutation(len(ws))[ctx.case[1] % len(ws)])]
    sub = core.Ctx(ctx.rng, "pure", ctx.tier, ctx.case, dict(counters={}, hashes=set(), samples=[], known={}, violations=[], errors=[], pid="Z02"))
    vbt.settings.numba["check_func_type"] = False
    with watch(mod) as p:
        try:
            core.MONITORS[(mod, name)]["f"](sub)
        except Exception:
            pass
    report(ctx, p, workload=f"{mod.split('.')[-1]}.{name}")
    if p.calls:
        ctx.seen("workload " + mod.split(".")[-1])
        ctx.nontrivial(mod, name, p.calls)


# ------------------------------------------------------------------------------------------------ repeated operations

def cells(f, depth=0, skip=()):
    """The inputs an operation closes over."""
    out = {}
    for k, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if k in skip:
            continue
        if callable(v) and hasattr(v, "__code__"):
            if depth < 3:
                out.update({f"{k}.{x}": y for x, y in cells(v, depth + 1, skip).items()})
        else:
            out[k] = v
    return out


def freeze(v, ignore, undo, depth=0):
    """Make every array reachable read-only (and remember it)."""
    if any(v is x for x in ignore):
        return
    if isinstance(v, np.ndarray) and v.flags.owndata and v.flags.writeable:
        v.flags.writeable = False
        undo.append(v)
    elif isinstance(v, (list, tuple)) and depth < 4:
        for x in v:
            freeze(x, ignore, undo, depth + 1)
    elif isinstance(v, dict) and depth < 4:
        for x in v.values():
            freeze(x, ignore, undo, depth + 1)


def quiet(f, *a):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return "ok", e01.plain(f(*a))
        except Exception as e:
            return "error", repr(e)[:300]


def unchanged(ctx, before, vals, msg, ignore=(), **info):
    ch = before.changes(Shot(vals, ignore=[id(x) for x in ignore]))
    ctx.check(not ch, msg, changed=ch[:5], **info)


def thrice(ctx, name, f, inputs, seed, ignore=()):
    """The operation three times on the same inputs, the last time on read-only ones: same result, nothing changed."""
    ids = [id(x) for x in ignore]
    before = Shot(inputs, ignore=ids)
    rs = []
    undo = []
    for k in range(3):
        np.random.seed(seed % 100000)
        if k == 2:
            freeze(inputs, ignore, undo)
            before = Shot(inputs, ignore=ids)
        with watch("z02", ignore) as p:
            rs.append(quiet(f))
        report(ctx, p, operation=name, seed=seed)
        unchanged(ctx, before, inputs, "input changed by an operation", ignore, operation=name, seed=seed)
    for v in undo:
        v.flags.writeable = True
    what = ("repetition", "read-only inputs")
    for k in (1, 2):
        ctx.check(rs[k][0] == rs[0][0], f"{what[k - 1]}: other outcome", operation=name, seed=seed, first=str(rs[0])[:300], now=str(rs[k])[:300])
        if rs[0][0] == "ok":
            d = u02.unlike(rs[0][1], rs[k][1])
            ctx.check(d is None, f"{what[k - 1]}: other result", operation=name, seed=seed, difference=d)
        else:
            ctx.check(rs[0][1] == rs[k][1] or k == 2, "repetition: other error", operation=name, first=rs[0][1], now=rs[k][1])
    return rs[0][0] == "ok"


@monitor(5, modes=("pure",))
def operations(ctx):
    rng = ctx.rng
    for _ in range(5):
        seed = int(rng.integers(2 ** 31))
        f = pick(rng, [e01.op_generic, e01.op_returns, e01.op_signals, e01.op_ranges, e01.op_mapped, e01.op_indicator, e01.op_portfolio, e01.op_member])
        name, run, _ = f(np.random.default_rng(seed))
        if name.endswith("to_doc"):      # shows addresses
            continue
        if thrice(ctx, name, lambda: run("numba"), cells(run), seed):
            ctx.seen("repeated")
            ctx.nontrivial(name)


@monitor(4, modes=("pure",))
def simulations(ctx):
    rng = ctx.rng
    kind = pick(rng, simcase.KINDS + ["func", "func_row"])
    seed = int(rng.integers(2 ** 31))
    run, cnt, desc = simcase.build(kind, seed, c=int(pick(rng, [1, 2, 3, 5])))
    more = {}
    if desc["share"] and kind in ("func", "func_row", "flex", "flex_row"):
        # a call sequence of one's own, which sorting callbacks reorder
        more["call_seq"] = np.array([np.concatenate([np.arange(k) for k in desc["gl"]]) for _ in range(desc["n"])], dtype=np.int64)
        if rng.random() < 0.5:
            more["call_seq"] = np.asfortranarray(more["call_seq"])
        ctx.seen("own_sequence")
    more["init_cash"] = np.full(len(desc["gl"]) if desc["share"] else desc["c"], 500.0)
    inputs = {**cells(run, skip=("cnt",)), **more}
    if not thrice(ctx, "simulate:" + kind, lambda: simcase.observe(run(**more), cnt), inputs, seed, ignore=(cnt,)):
        if "call_seq" in more:
            init = dict(init_cash=more["init_cash"])
            r = quiet(lambda: simcase.observe(run(**init), cnt))
            ctx.check(r[0] == "error", "an own (default) call sequence makes the simulation fail", kind=kind, seed=seed, got=quiet(lambda: run(**more))[1])
        return
    # a simulated portfolio is not changed by what is asked of it
    p = run(**more)
    names = [x for x in dir(type(p)) if not x.startswith("_") and not any(y in x for y in ("plot", "save", "dumps", "write", "load", "pickle", "from_", "config", "replace", "copy", "resolve"))]
    before = Shot((p, inputs), budget=20000, ignore=(id(cnt),))
    first = {}
    for k in range(2):
        for x in rng.permutation(names)[:25] if k == 0 else sorted(first, reverse=True):
            def get():
                v = getattr(p, x)
                return v() if callable(v) and not hasattr(v, "wrapper") else v
            r = quiet(get)
            if k == 0:
                first[x] = r
            else:
                ctx.check(r[0] == first[x][0], "second request of a member: other outcome", member=x, kind=kind, seed=seed, first=str(first[x])[:200], now=str(r)[:200])
                d = u02.unlike(first[x][1], r[1]) if r[0] == "ok" else None
                ctx.check(d is None, "second request of a member: other result", member=x, kind=kind, seed=seed, difference=d)
    ch = before.changes(Shot((p, inputs), budget=20000, ignore=(id(cnt),)))
    ctx.check(not ch, "portfolio or its inputs changed by requests of its members", changed=ch[:4], members=sorted(first), kind=kind, seed=seed)
    ctx.seen("simulations")
    ctx.nontrivial(kind, desc["n"], desc["c"])


# ------------------------------------------------------------------------------------------------ kernels

# documented to write in these arguments
KERNEL_OUT = {n: ("stop_price_out", "stop_type_out") for n in ("generate_ohlc_stop_ex_nb", "generate_ohlc_stop_enex_nb", "ohlc_stop_choice_nb")}


def args_of(k, seed, dtype, how, shape):
    mod, name, f, ann, nd = z03.KERNELS[k]
    args, d = kern.build(np.random.default_rng(seed), mod, name, ann, nd, dtype, how, shape=shape)
    return args


@monitor(4, modes=("pure",))
def kernels(ctx):
    """Numeric kernels leave their arguments alone, and repeat."""
    rng = ctx.rng
    for k in rng.permutation(len(z03.KERNELS))[:60]:
        mod, name, f, ann, nd = z03.KERNELS[int(k)]
        dtype = pick(rng, ["f", "f", "i", "b"]) if z03.has_generic_types(mod, name, ann) else "f"
        how = pick(rng, ["C", "F", "strided"])
        seed = [int(x) for x in rng.integers(0, 2 ** 31, 2)]
        args = args_of(k, seed, dtype, how, None)
        if args is None:
            continue
        names = list(ann)[:len(args)]
        skip = KERNEL_OUT.get(name, ())
        rs = []
        for _ in range(2):
            vals = {n: a for n, a in zip(names, args) if n not in skip}
            before = Shot(vals)
            np.random.seed(7)
            rs.append(quiet(lambda: z03.norm(f(*args))))
            unchanged(ctx, before, vals, "argument of a kernel changed", kernel=f"{mod}.{name}", dtype=dtype, layout=how, seed=seed)
            if skip:
                args = args_of(k, seed, dtype, how, None)
        ctx.check(rs[0][0] == rs[1][0], "repetition: other outcome", kernel=name, seed=seed, first=str(rs[0])[:200], now=str(rs[1])[:200])
        if rs[0][0] == "ok":
            d = u02.unlike(rs[0][1], rs[1][1])
            ctx.check(d is None, "repetition: other result", kernel=f"{mod}.{name}", dtype=dtype, layout=how, seed=seed, difference=d)
            ctx.seen("kernels")
            ctx.nontrivial(name, dtype)
