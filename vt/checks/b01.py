"""B01: broadcasting keeps every cell, combines labels by the documented rules, raw inputs select the same values."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.base import reshape_fns, index_fns
from vt import gen, idx
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


class A:
    """One argument: the object passed, its 2-d form under broadcasting to 2 dimensions and its labels."""

    def __init__(self, obj):
        self.obj = obj
        self.pd = isinstance(obj, (pd.Series, pd.DataFrame))
        self.sr = isinstance(obj, pd.Series)
        self.a = np.array(obj, dtype=object if False else None)
        self.index = idx.levels(obj.index) if self.pd else None
        if self.sr:
            self.cols = [(None, [obj.name if obj.name is not None else 0])]
        else:
            self.cols = idx.levels(obj.columns) if self.pd else None
        self.save = snapshot(obj)

    def two(self, is_2d):
        a = self.a
        if is_2d and self.sr:
            a = a[:, None]
        return a


def snapshot(x):
    if isinstance(x, pd.Series):
        return (x.index, list(x.index), x.index.names, x.name, x.values.tobytes(), x.dtype)
    if isinstance(x, pd.DataFrame):
        return (x.index, list(x.index), list(x.index.names), x.columns, list(x.columns), list(x.columns.names), x.values.tobytes(), list(x.dtypes))
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype, x.tobytes(), x.flags.writeable)
    return x


def unchanged(ctx, args, msg):
    for k, a in enumerate(args):
        now = snapshot(a.obj)
        same = len(a.save) == len(now) if isinstance(now, tuple) else True
        if isinstance(now, tuple):
            for u, v in zip(a.save, now):
                if isinstance(u, pd.Index):
                    same = same and u is v
                else:
                    same = same and u == v
        else:
            same = repr(a.save) == repr(now)
        ctx.check(same, f"{msg}: argument {k} was modified")


def values(rng, shape, dtype=None):
    dtype = dtype or pick(rng, ["f", "f", "f", "i", "b"])
    if dtype == "f":
        v = np.round(rng.normal(0, 5, shape), 2)
        return np.where(rng.random(shape) < 0.1, NAN, v)
    if dtype == "i":
        return rng.integers(-9, 10, shape)
    return rng.random(shape) < 0.5


def layout(rng, a):
    k = rng.random()
    if a.ndim == 2 and k < 0.25:
        return np.asfortranarray(a)
    if a.ndim >= 1 and k < 0.4:
        b = np.repeat(a, 2, axis=0)
        return b[::2]
    if a.ndim >= 1 and k < 0.5:
        return np.flip(np.flip(a, 0).copy(), 0)
    if a.ndim >= 1 and k < 0.6:
        a = a.copy()
        a.flags.writeable = False
    return a


def scalar(rng):
    v = pick(rng, [1, 2.5, True, NAN, -3, 0.0])
    return pick(rng, [v, v, np.asarray(v), np.float64(2.5)])


def make(rng, n, c, two_d, index, cols):
    """A random argument compatible with an (n, c) target (or (n,) when not two_d)."""
    if not two_d:
        kind = pick(rng, ["scalar", "1d", "one", "sr", "sr", "sr1"])
        if kind == "scalar":
            return scalar(rng)
        if kind in ("1d", "one"):
            return layout(rng, values(rng, (n if kind == "1d" else 1,)))
        m = n if kind == "sr" else 1
        return pd.Series(values(rng, m), index=index(m), name=pick(rng, [None, None, "x", "y", 0, 5]))
    kind = pick(rng, ["scalar", "row1", "row", "col", "one", "full", "full", "list", "sr", "sr1", "df", "df", "df", "dfcol", "dfrow", "df1"])
    if kind == "scalar":
        return scalar(rng)
    if kind == "list":
        v = values(rng, (1, c), "f")
        return v.tolist() if rng.random() < 0.5 else v[0].tolist()
    shape = {"row1": (c,), "row": (1, c), "col": (n, 1), "one": (1, 1), "full": (n, c)}.get(kind)
    if shape:
        return layout(rng, values(rng, shape))
    if kind in ("sr", "sr1"):
        m = n if kind == "sr" else 1
        return pd.Series(values(rng, m), index=index(m), name=pick(rng, [None, None, "x", "y", 0, 5]))
    m, k = {"df": (n, c), "dfcol": (n, 1), "dfrow": (1, c), "df1": (1, 1)}[kind]
    return pd.DataFrame(layout(rng, values(rng, (m, k))), index=index(m), columns=cols(k))


def label_source(rng, kinds):
    """Shared or differing labels per length."""
    pool = {}
    p = pick(rng, [0.0, 0.0, 0.15, 0.5])

    def f(m):
        if m not in pool or rng.random() < p:
            pool[m] = idx.rand_index(rng, m, kinds)
        return pool[m]
    return f


def ref_labels(args, maxlen, how, axis, strict_ok=True, ignore_sr=True, **stack_kw):
    """Labels of one axis by the documented rules; None = every argument keeps its own."""
    def lab(a):
        return a.index if axis == 0 else a.cols
    if how == "keep":
        return None
    new = None
    if isinstance(how, tuple):                    # explicit index
        new = how[1]
    elif isinstance(how, int):
        if not args[how].pd:
            raise TypeError
        new = lab(args[how])
    elif how == "reset":
        new = idx.rng_levels(maxlen)
    else:
        labs = [(lab(a), a.sr) for a in args if a.pd]
        if all(idx.same(l, labs[0][0]) for l, _ in labs[1:]) and labs:
            new = labs[0][0]
        else:
            for l, sr in labs:
                if (axis == 1 and sr and ignore_sr) or idx.is_default(l):
                    continue
                if new is None:
                    new = l
                elif not idx.same(l, new):
                    if how == "strict":
                        raise idx.Conflict("strict")
                    a, b = idx.size(l), idx.size(new)
                    if a != b and a > 1 and b > 1:
                        raise idx.Conflict("lengths")
                    if a > b:
                        new = idx.repeat(new, a)
                    elif b > a:
                        l = idx.repeat(l, b)
                    new = idx.stack([new, l], **stack_kw)
    if new is None:
        return idx.rng_levels(maxlen)
    if maxlen > idx.size(new):
        if how == "strict" or idx.size(new) > 1:
            raise idx.Conflict("extension")
        new = idx.repeat(new, maxlen)
    return new


def check_one(ctx, out, exp, want_pd, il, cl, msg):
    """Cells, type and labels of one broadcast argument."""
    ctx.check(isinstance(out, (pd.Series, pd.DataFrame)) == want_pd, f"{msg}: type {type(out).__name__}, pandas expected: {want_pd}")
    got = np.asarray(out)
    ctx.check(got.shape == exp.shape, f"{msg}: shape {got.shape} instead of {exp.shape}")
    ctx.check(got.dtype == exp.dtype, f"{msg}: dtype {got.dtype} instead of {exp.dtype}")
    ctx.check(np.array_equal(got, exp, equal_nan=exp.dtype.kind == "f"), f"{msg}: cells {got.tolist()} instead of {exp.tolist()}")
    if want_pd:
        idx.check(ctx, out.index, il, f"{msg} index")
        if exp.ndim == 2:
            ctx.check(isinstance(out, pd.DataFrame), f"{msg}: expected a frame")
            idx.check(ctx, out.columns, cl, f"{msg} columns")
        else:
            ctx.check(isinstance(out, pd.Series), f"{msg}: expected a series")
            nm = None
            if cl is not None and idx.size(cl) == 1:
                t = tuple(v[0] for _, v in cl)
                nm = t[0] if len(t) == 1 else t
                if idx.same_value(nm, 0) and not isinstance(nm, bool):
                    nm = None
            ctx.check(idx.same_value(out.name, nm) or (isinstance(nm, bool) and out.name is None), f"{msg}: name {out.name!r} instead of {nm!r}")


def draw_how(rng, args, m, default, allow_custom=True):
    how = pick(rng, [default, default, "stack", "stack", "strict", "reset", "keep", "int", "custom"])
    if how == "int":
        return int(rng.integers(0, len(args)))
    if how == "custom":
        i = idx.rand_index(rng, m, ["str", "int", "date", "multi"])
        return (i, idx.levels(i))
    return how


KINDS = ["range", "range", "str", "int", "named_range", "date", "const", "multi"]


@monitor(weight=6, modes=("pure", "jit"))
def mix(ctx):
    """Any mix of scalars, arrays, series and frames."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    two_d = rng.random() < 0.75
    isrc, csrc = label_source(rng, KINDS + ["tz"]), label_source(rng, KINDS)
    k = int(rng.integers(1, 5))
    objs = [make(rng, n, c, two_d, isrc, csrc) for _ in range(k)]
    args = [A(o) for o in objs]
    is_2d = any(a.a.ndim > 1 for a in args)
    kw = {}
    r = rng.random()
    shape = None
    if r < 0.2:
        kw["to_shape"] = shape = (n, c) if two_d else (n,)
        if not two_d and rng.random() < 0.3:
            kw["to_shape"] = n
        if len(shape) > 1:
            is_2d = True
    elif r < 0.35 and all(a.sr or a.a.ndim == 0 for a in args) and any(a.sr for a in args):
        kw["to_frame"] = True
        is_2d = True
    elif r < 0.4 and not is_2d:
        kw["to_frame"] = False
    is_pd = any(a.pd for a in args)
    want_pd = [is_pd] * k
    if rng.random() < 0.3:
        tp = bool(rng.random() < 0.5) if rng.random() < 0.5 else [bool(x) for x in rng.random(k) < 0.5]
        kw["to_pd"] = tp
        want_pd = tp if isinstance(tp, list) else [tp] * k
        is_pd = any(want_pd)
    keep_raw = [False] * k
    if rng.random() < 0.3:
        kr = bool(rng.random() < 0.5) if rng.random() < 0.3 else [bool(x) for x in rng.random(k) < 0.5]
        kw["keep_raw"] = kr
        keep_raw = kr if isinstance(kr, list) else [kr] * k
    twos = [a.two(is_2d) for a in args]
    if shape is None:
        try:
            shape = np.broadcast_shapes(*[t.shape for t in twos])
        except ValueError:
            ctx.raises(ValueError, reshape_fns.broadcast, *objs, msg="incompatible shapes")
            ctx.seen("shape conflicts raised")
            return
    if len(shape) == 0:
        if is_pd:
            return raise_only(ctx, objs, kw)
    exp = [np.broadcast_to(t, shape) for t in twos]
    nr = shape[0] if shape else 1
    nc = shape[1] if len(shape) == 2 else 1
    skw, rkw = {}, {}
    if rng.random() < 0.25:
        skw["keep"] = rkw["keep"] = pick(rng, ["first", "last"])
    if rng.random() < 0.2:
        skw["drop_duplicates"] = rkw["drop_duplicates"] = bool(rng.random() < 0.5)
    if rng.random() < 0.2:
        skw["drop_redundant"] = rng.random() < 0.5
        rkw["drop_redundant_"] = skw["drop_redundant"]
    ignore_sr = True
    if rng.random() < 0.2:
        skw["ignore_sr_names"] = ignore_sr = bool(rng.random() < 0.5)
    hi, hc = draw_how(rng, args, nr, "strict"), draw_how(rng, args, nc, "stack")
    for nm, h in (("index_from", hi), ("columns_from", hc)):
        if rng.random() < 0.75 or isinstance(h, tuple):
            kw[nm] = h[0] if isinstance(h, tuple) else h
    if "index_from" not in kw:
        hi = "strict"
    if "columns_from" not in kw:
        hc = "stack"
    meta = rng.random() < 0.3
    if meta:
        kw["return_meta"] = True
    req = None
    if rng.random() < 0.3:
        req = [pick(rng, [None, dict(requirements=["W", "C"]), dict(requirements=["F"]), dict(dtype=np.float64)]) for _ in range(k)]
        if rng.random() < 0.4:
            kw["require_kwargs"] = req[0]
            req = [req[0]] * k
        else:
            kw["require_kwargs"] = [r_ or {} for r_ in req]
    err = None
    il = cl = None
    if is_pd:
        try:
            il = ref_labels(args, nr, hi, 0, **rkw)
            cl = ref_labels(args, nc, hc, 1, ignore_sr=ignore_sr, **rkw)
        except idx.Conflict:
            err = ValueError
        except TypeError:
            err = TypeError
    desc = dict(args=[describe(o) for o in objs], kw=repr(kw))
    if err is not None:
        ctx.raises(err, reshape_fns.broadcast, *objs, **kw, **skw, msg=f"conflicting labels: {desc}")
        ctx.seen("label conflicts raised")
        unchanged(ctx, args, "after error")
        ctx.nontrivial("raise", type(err).__name__, k)
        return
    f = pick(rng, ["fn", "acc"])
    if f == "acc" and args[0].pd:
        out = objs[0].vbt.broadcast(*objs[1:], **kw, **skw)
    elif f == "acc":
        out = vbt.base.accessors.BaseAccessor.broadcast(*objs, **kw, **skw)
    else:
        out = reshape_fns.broadcast(*objs, **kw, **skw)
    if meta:
        out, sh, mi, mc = out
        ctx.check(tuple(sh) == tuple(shape), f"reported shape {sh} instead of {shape}")
        for nm, got, e in (("index", mi, il), ("columns", mc, cl)):
            if not is_pd or e is None:
                ctx.check(got is None, f"reported {nm} is not None")
            else:
                idx.check(ctx, got, e, f"reported {nm}")
    outs = list(out) if k > 1 else [out]
    ctx.check(len(outs) == k, "number of results")
    for j in range(k):
        e = exp[j]
        if req is not None and req[j] and "dtype" in req[j]:
            e = e.astype(np.float64)
        if keep_raw[j]:
            t = twos[j]
            raw = np.asarray(outs[j])
            ctx.check(isinstance(outs[j], np.ndarray), f"raw argument {j} is {type(outs[j]).__name__}")
            ctx.check(raw.shape == t.shape, f"raw argument {j} has shape {raw.shape} instead of {t.shape}")
            if len(shape) in (1, 2):
                flex(ctx, raw, e, len(shape) == 2, f"raw argument {j} {desc}")
            ctx.seen("raw arguments")
        else:
            li, lc = il, cl
            if want_pd[j] and args[j].pd:
                if li is None:
                    li = args[j].index if idx.size(args[j].index) == nr else idx.repeat(args[j].index, nr)
                if lc is None:
                    lc = args[j].cols if idx.size(args[j].cols) == nc else idx.repeat(args[j].cols, nc)
            elif want_pd[j]:
                li = idx.rng_levels(nr) if li is None else li
                if lc is None:
                    lc = idx.rng_levels(nc)
            check_one(ctx, outs[j], e, want_pd[j], li, lc, f"argument {j} {desc}")
            if req is not None and req[j] and not want_pd[j]:
                rq = req[j].get("requirements", [])
                fl = outs[j].flags
                ctx.check("W" not in rq or fl.writeable, f"argument {j} is not writeable")
                ctx.check("C" not in rq or fl.c_contiguous, f"argument {j} is not C-contiguous")
                ctx.check("F" not in rq or fl.f_contiguous, f"argument {j} is not F-contiguous")
        ctx.seen("arguments compared")
        ctx.seen("cells compared", int(np.prod(shape)) if shape else 1)
    unchanged(ctx, args, f"broadcast {desc}")
    ctx.nontrivial(k, len(shape), str(hi)[:6], str(hc)[:6], tuple(want_pd)[:2], is_2d)
    ctx.sample(args=str(desc)[:300])


def describe(o):
    if isinstance(o, (pd.Series, pd.DataFrame)):
        return f"{type(o).__name__}{o.shape} index={list(o.index)} " + (f"name={o.name}" if o.ndim == 1 else f"columns={list(o.columns)}")
    if isinstance(o, np.ndarray):
        return f"array{o.shape}"
    return repr(o)


def raise_only(ctx, objs, kw):
    raise Skip


def flex(ctx, raw, exp, flex_2d, msg):
    """Flexible selection at every cell."""
    n = exp.shape[0]
    c = exp.shape[1] if exp.ndim == 2 else 1
    fi, fc = reshape_fns.flex_choose_i_and_col_nb(raw, flex_2d)
    for i in range(n):
        for j in range(c):
            e = exp[i, j] if exp.ndim == 2 else exp[i]
            v = reshape_fns.flex_select_auto_nb(raw, i, j, flex_2d)
            w = reshape_fns.flex_select_nb(raw, i, j, fi, fc, flex_2d)
            ctx.check(idx.same_value(float(v), float(e)) and idx.same_value(float(w), float(e)), f"{msg}: cell ({i}, {j}) selects {v} / {w} instead of {e}")
    ctx.seen("flexible selections", n * c)


@monitor(weight=2, modes=("pure", "jit"))
def flexible(ctx):
    """Every shape that broadcasts to (n, c) or (n,), including a wider or single-row target."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    flex_2d = bool(rng.random() < 0.7)
    shapes = [(), (1,), (1, 1), (n, 1), (1, c), (n, c), (c,)] if flex_2d else [(), (1,), (n,), (n, 1), (1, 1)]
    for s in shapes:
        a = values(rng, s, "f")
        if a.ndim:
            a = layout(rng, a)
        if flex_2d:
            exp = np.broadcast_to(a, (n, c))
        else:
            exp = np.broadcast_to(a if a.ndim < 2 else a[:, 0], (n,))
        flex(ctx, np.asarray(a), exp, flex_2d, f"shape {s} in {(n, c)} flex_2d={flex_2d}")
    ctx.nontrivial(n, c, flex_2d)


@monitor(weight=3)
def aligned(ctx):
    """Frames with columns (or indexes) of different lengths are aligned by their labels."""
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    base = idx.rand_index(rng, int(rng.integers(2, 5)), ["str", "int", "date", "multi"], dup=rng.random() < 0.2)
    axis = int(rng.random() < 0.6)
    params = pd.Index([int(x) for x in rng.permutation(9)[:int(rng.integers(1, 4))]], name="w")
    if base.nlevels > 1 and rng.random() < 0.5:
        base = base.rename(["l%d" % i for i in range(base.nlevels)])
    elif base.nlevels == 1 and rng.random() < 0.7:
        base = base.rename("l0")
    lb, lp = idx.levels(base), idx.levels(params)
    order = rng.random()
    full = idx.combine([lp, lb], drop_redundant_=False) if order < 0.7 else idx.combine([lb, lp], drop_redundant_=False)
    m = idx.size(full)
    perm = np.arange(m)
    if rng.random() < 0.6:
        perm = rng.permutation(m)
    if rng.random() < 0.3:
        perm = perm[:int(rng.integers(2, m + 1))]
    full = [(nm, [v[p] for p in perm]) for nm, v in full]
    if rng.random() < 0.15:
        full[-1][1][0] = "missing"
    big = pd.MultiIndex.from_arrays([v for _, v in full], names=[nm for nm, _ in full]) if len(full) > 1 else pd.Index(full[0][1], name=full[0][0])
    if isinstance(big, pd.MultiIndex) and rng.random() < 0.4:      # leave unused levels behind
        big = pd.MultiIndex.from_arrays([v + [pick(rng, v)] if i else v + ["unused"] for i, (_, v) in enumerate(full)], names=big.names)[:-1]
    m = len(big)
    shapes = []
    if rng.random() < 0.3:
        sub = rng.permutation(len(base))[:int(rng.integers(1, len(base) + 1))]
        base = base[np.sort(sub)] if rng.random() < 0.5 else base[sub]
    objs = []
    for lab in (big, base) if rng.random() < 0.5 else (base, big):
        a = values(rng, (n, len(lab)), "f")
        objs.append(pd.DataFrame(a, index=None, columns=lab) if axis == 1 else pd.DataFrame(a.T, index=lab))
    if rng.random() < 0.3:
        objs.append(pd.DataFrame(values(rng, (n, 1) if axis else (1, n), "f")))
    if rng.random() < 0.3:
        objs.insert(0, scalar(rng))
    if rng.random() < 0.3:
        a = values(rng, (n, m), "f")
        objs.append(a if axis else a.T)
    args = [A(o) for o in objs]
    kw = dict(align_index=True) if axis == 0 else ({} if rng.random() < 0.5 else dict(align_columns=True))
    if rng.random() < 0.15:
        kw = {("align_columns" if axis else "align_index"): False}
    on = True
    if not kw.get("align_columns", True) or (axis == 0 and not kw.get("align_index", False)):
        on = False
    kw["index_from"] = kw["columns_from"] = "reset"

    def lab(a):
        return (a.cols if axis else a.index) if a.pd else None
    al = [a for a in args if lab(a) is not None and idx.size(lab(a)) > 1]
    lens = [idx.size(lab(a)) for a in al]
    expected, err = [], False
    mx = max(lens) if lens else 0
    top = [lab(a) for a in al if idx.size(lab(a)) == mx]
    for a in args:
        e = a.a
        if on and any(a is x for x in al) and len(set(lens)) > 1 and idx.size(lab(a)) != mx:
            pos = None
            for t in top:
                try:
                    pos = idx.align_positions(lab(a), t)
                    break
                except idx.Conflict:
                    pass
            if pos is None:
                err = True
                break
            e = e[:, pos] if axis else e[pos]
        expected.append(e)
    if not err:
        try:
            shape = np.broadcast_shapes(*[e.shape for e in expected])
        except ValueError:
            err = True
    desc = f"{[describe(o) for o in objs]} {kw}"
    if err:
        ctx.raises(ValueError, reshape_fns.broadcast, *objs, **kw, msg=f"labels that cannot be aligned: {desc}")
        ctx.seen("alignment refused")
        ctx.nontrivial("raise", axis, len(base))
        return
    kw["to_pd"] = True
    out = reshape_fns.broadcast(*objs, **kw)
    for k, (o, e) in enumerate(zip(out, expected)):
        check_one(ctx, o, np.broadcast_to(e, shape), True, idx.rng_levels(shape[0]), idx.rng_levels(shape[1]), f"argument {k} of {desc}")
    raw = reshape_fns.broadcast(*objs, **{**kw, "keep_raw": True})
    for k, (o, e) in enumerate(zip(raw, expected)):
        flex(ctx, np.asarray(o), np.broadcast_to(e, shape), True, f"raw argument {k} of {desc}")
    # explicit alignment of one object to another
    unchanged(ctx, args, "align")
    if on and len(set(lens)) > 1:
        ctx.seen("alignments")
        ctx.nontrivial(axis, len(base), m, len(objs))
    x, y = [a for a in args if a.pd and idx.size(lab(a)) > 1][:2] if len(al) > 1 else (None, None)
    if x is not None:
        try:
            px = idx.align_positions(idx.levels(x.obj.columns), idx.levels(y.obj.columns))
            pi = idx.align_positions(idx.levels(x.obj.index), idx.levels(y.obj.index))
        except idx.Conflict:
            ctx.raises(ValueError, x.obj.vbt.align_to, y.obj, msg=f"align_to {desc}")
        else:
            if x.obj.shape != (1, 1) and len(pi) == y.obj.shape[0] and len(px) == y.obj.shape[1]:
                got = x.obj.vbt.align_to(y.obj)
                check_one(ctx, got, x.a[pi][:, px], True, y.index, y.cols, f"align_to {desc}")
                ctx.seen("align_to")


@monitor(weight=2)
def to_target(ctx):
    """broadcast_to, broadcast_to_array_of, broadcast_to_axis_of."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    two_d = rng.random() < 0.7
    isrc, csrc = label_source(rng, KINDS), label_source(rng, KINDS)
    y = A(make(rng, n, c, two_d, isrc, csrc))
    x = A(make(rng, *(y.a.shape if y.a.ndim == 2 else (y.a.shape[0], 1) if y.a.ndim == 1 else (1, 1)), y.a.ndim == 2, isrc, csrc))
    if y.a.ndim == 0:
        raise Skip
    is_2d = y.a.ndim == 2 or x.a.ndim == 2
    try:
        exp = np.broadcast_to(x.two(y.a.ndim == 2), y.a.shape)
    except ValueError:
        raise Skip
    desc = f"{describe(x.obj)} to {describe(y.obj)}"
    kw = {}
    want = y.pd
    if rng.random() < 0.3:
        kw["to_pd"] = want = bool(rng.random() < 0.5)
    if want and not y.pd:
        raise Skip
    got = x.obj.vbt.broadcast_to(y.obj, **kw) if x.pd and rng.random() < 0.5 else reshape_fns.broadcast_to(x.obj, y.obj, **kw)
    check_one(ctx, got, exp, want, y.index, y.cols, f"broadcast_to {desc}")
    unchanged(ctx, [x, y], "broadcast_to")
    ctx.seen("targets")
    # one value or one array per element of the axis
    axis = int(rng.integers(0, 2))
    m = y.a.shape[axis] if y.a.ndim > axis else None
    v = pick(rng, [float(rng.integers(9)), values(rng, m if m else 1, "f"), values(rng, 1, "f")])
    got = reshape_fns.broadcast_to_axis_of(v, y.obj, axis)
    e = np.broadcast_to(v, (m,)) if m is not None else np.broadcast_to(v, (1,))[0]
    ctx.eq(got, e, f"broadcast_to_axis_of {v} axis {axis} of {y.a.shape}")
    # arrays of the shape of y
    t = int(rng.integers(1, 4))
    mode = pick(rng, ["scalar", "list", "ready"])
    p = {"scalar": float(rng.integers(9)), "list": values(rng, t, "f"), "ready": values(rng, (t, *y.a.shape), "f")}[mode]
    got = reshape_fns.broadcast_to_array_of(p, y.a)
    e = p if mode == "ready" else np.stack([np.full(y.a.shape, q) for q in np.atleast_1d(p)])
    ctx.check(np.asarray(got).shape == e.shape, f"broadcast_to_array_of {mode}: shape {np.asarray(got).shape} instead of {e.shape}")
    ctx.eq(got, e, f"broadcast_to_array_of {mode} {y.a.shape}")
    ctx.nontrivial(n, c, mode, axis, y.pd, x.pd)


@monitor(weight=1)
def defaults(ctx):
    """The broadcasting settings act exactly like the arguments of the same names."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    isrc, csrc = label_source(rng, KINDS), label_source(rng, KINDS)
    k = int(rng.integers(2, 4))
    objs = [make(rng, n, c, True, isrc, csrc) for _ in range(k)]
    opts = dict(index_from=pick(rng, ["strict", "stack", "reset", "keep"]), columns_from=pick(rng, ["strict", "stack", "reset", "keep"]),
                align_columns=bool(rng.random() < 0.5), align_index=bool(rng.random() < 0.5), ignore_sr_names=bool(rng.random() < 0.5),
                drop_duplicates=bool(rng.random() < 0.5), keep=pick(rng, ["first", "last"]), drop_redundant=bool(rng.random() < 0.5))
    opts = gen.omit(rng, opts, {}) if False else {k_: v for k_, v in opts.items() if rng.random() < 0.5}

    def call(**kw):
        try:
            return reshape_fns.broadcast(*objs, **kw)
        except (ValueError, TypeError) as e:
            return type(e)
    a = call(**opts)
    s = vbt.settings["broadcasting"]
    old = {k_: s[k_] for k_ in opts}
    try:
        for k_, v in opts.items():
            s[k_] = v
        b = call()
    finally:
        for k_, v in old.items():
            s[k_] = v
    if isinstance(a, type) or isinstance(b, type):
        ctx.check(a is b, f"settings {opts}: {a} with arguments, {b} with settings")
    else:
        for x, y in zip(a, b):
            ctx.check(type(x) is type(y), "type differs")
            if isinstance(x, pd.DataFrame):
                pd.testing.assert_frame_equal(x, y)
            elif isinstance(x, pd.Series):
                pd.testing.assert_series_equal(x, y)
            else:
                ctx.check(np.array_equal(x, y, equal_nan=x.dtype.kind == "f"), "cells differ")
    ctx.seen("settings compared")
    ctx.nontrivial(*sorted(opts.items()))
