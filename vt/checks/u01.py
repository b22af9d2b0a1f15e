"""U01: configs honour frozen, read-only, copy, merge and reset semantics."""
import copy
import inspect
import numpy as np
import vectorbt as vbt
from vectorbt.utils import config as C
from vectorbt.utils.config import Config, AtomicConfig, atomic_dict
from vt.core import monitor, Skip
from vt.gen import pick

KEYS = ["a", "b", "c", "d", "e"]


class MyConfig(Config):
    pass


class Leaf:
    """A mutable value with an identity; copies remember where they come from."""

    def __init__(self, v, inner=None):
        self.v, self.inner = v, inner if inner is not None else [v]

    def __eq__(self, other):
        return isinstance(other, Leaf) and self.v == other.v

    __hash__ = None

    def __repr__(self):
        return f"L{self.v}"


NEXT = [0]


def leaf(rng):
    NEXT[0] += 1
    return Leaf(NEXT[0]) if rng.random() < 0.5 else NEXT[0]


def draw_dict(rng, depth=0, p_child=0.35, classes=(dict,), keys=KEYS):
    d = pick(rng, classes)()
    for k in keys:
        if rng.random() < (0.55 if depth == 0 else 0.5):
            if depth < 3 and rng.random() < p_child:
                d[k] = draw_dict(rng, depth + 1, p_child, classes, keys)
            else:
                d[k] = leaf(rng)
    return d


def plain(d):
    """Content as nested tuples (types of dicts ignored)."""
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    return ("L", d.v) if isinstance(d, Leaf) else d


def freeze(d):
    """Content, key order, identities and types: anything that a source must keep."""
    if isinstance(d, dict):
        return (id(d), type(d), [(k, freeze(v)) for k, v in d.items()])
    return (id(d), d.v, id(d.inner), list(d.inner)) if isinstance(d, Leaf) else d


# ---------------------------------------------------------------- copies

def alias(ctx, a, b, mode, nested, path="", top=True, child=False, what=""):
    """b is a copy of a: the same content, shared exactly to the depth the mode allows."""
    ctx.check(isinstance(b, dict) and list(a) == list(b), f"{what}: keys at {path or '/'}: {list(b)}, expected {list(a)}")
    ctx.check(a is not b, f"{what}: the dict at {path or '/'} is not copied")
    for k in a:
        x, y = a[k], b[k]
        p = f"{path}/{k}"
        if isinstance(x, dict):
            ctx.check(type(x) is type(y) or what == "init", f"{what}: type at {p}: {type(y)}, expected {type(x)}")
            if mode == "deep" or nested:
                alias(ctx, x, y, mode, nested, p, False, what=what)
            elif mode == "hybrid" and top:
                ctx.check(x is not y, f"{what}: the dict at {p} is not copied")
                ctx.check(plain(x) == plain(y), f"{what}: content of {p}")
                for q in x:
                    ctx.check(x[q] is y[q], f"{what}: {p}/{q} is copied although nested is off")
            else:
                ctx.check(x is y, f"{what}: the dict at {p} is copied although nested is off")
        elif isinstance(x, Leaf):
            ctx.check(x == y, f"{what}: value at {p}: {y}, expected {x}")
            ctx.check((x is y) == (mode == "shallow"), f"{what}: value at {p} shared: {x is y} in mode {mode}")
            ctx.check((x.inner is y.inner) == (mode != "deep"), f"{what}: inner value at {p} shared: {x.inner is y.inner} in mode {mode}")
        else:
            ctx.check(x == y, f"{what}: value at {p}: {y!r}, expected {x!r}")


@monitor(weight=2)
def copies(ctx):
    """copy_dict on nested dicts and configs: sharing to exactly the depth of the mode, source untouched."""
    rng = ctx.rng
    mode = pick(rng, ["shallow", "hybrid", "deep"])
    nested = bool(rng.random() < 0.7)
    d = draw_dict(rng, classes=pick(rng, [(dict,), (dict, Config), (dict, atomic_dict), (Config, MyConfig, AtomicConfig, dict)]))
    before = freeze(d)
    spelled = pick(rng, [mode, mode.upper()])
    r = C.copy_dict(d, spelled, nested=nested)
    alias(ctx, d, r, mode, nested, what="copy_dict")
    ctx.check(type(r) is type(d), f"copy_dict made a {type(r)} of a {type(d)}")
    ctx.check(freeze(d) == before, "copy_dict changed its source")
    ctx.raises(ValueError, C.copy_dict, d, "medium", msg="unknown copy mode")
    ctx.check(C.copy_dict(None) == {}, "copy_dict(None)")
    cv = C.convert_to_dict(d, nested=nested)
    ctx.check(plain(cv) == plain(d) and cv is not d, "convert_to_dict changed the content", got=str(cv), expected=str(d))
    ctx.check(freeze(d) == before, "convert_to_dict changed its source")
    converted(ctx, d, cv, nested)
    ctx.nontrivial("copy", mode, nested, str(plain(d)))
    ctx.seen("copied dicts")


def converted(ctx, a, b, nested, top=True):
    if top or nested:
        ctx.check(type(b) is (atomic_dict if isinstance(a, atomic_dict) else dict), f"converted to {type(b)}")
        for k in a:
            if isinstance(a[k], dict):
                converted(ctx, a[k], b[k], nested, False)
            else:
                ctx.check(a[k] is b[k] or a[k] == b[k] and not isinstance(a[k], Leaf), "converted value")
    else:
        ctx.check(a is b, "a child dict was converted although nested is off")


# ---------------------------------------------------------------- merge and update

def atomic(d):
    return isinstance(d, atomic_dict)


def ref_update(x, y, nested, same):
    for k, v in y.items():
        if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not atomic(v):
            ref_update(x[k], v, nested, same)
        elif same and k not in x:
            continue
        else:
            x[k] = rcopy(v)
    return x


def rcopy(v):
    if isinstance(v, dict):
        r = atomic_dict() if atomic(v) else {}
        for k in v:
            r[k] = rcopy(v[k])
        return r
    return v


def ref_merge(ds, nested, same):
    x = rcopy(ds[0])
    for y in ds[1:]:
        if atomic(x) or atomic(y):
            x = rcopy(y)
        else:
            ref_update(x, y, nested, same)
    return x


def has_atomic_base(ds):
    """A plain dict merged into an atomic child: not specified."""
    def paths(d, p=()):
        for k, v in d.items():
            if isinstance(v, dict):
                yield p + (k,), atomic(v)
                yield from paths(v, p + (k,))
    seen = {}
    for d in ds:
        for p, at in paths(d):
            if seen.get(p) and not at:
                return True
            seen[p] = seen.get(p) or at
    return False


@monitor(weight=3)
def merges(ctx):
    """merge_dicts / update_dict / merge_with: key by key, later wins, sources untouched and not shared."""
    rng = ctx.rng
    n = int(pick(rng, [1, 2, 2, 3, 3, 4]))
    nested = bool(rng.random() < 0.75)
    same = bool(rng.random() < 0.3)
    kinds = pick(rng, [(dict,), (dict, Config), (dict, dict, atomic_dict), (dict, MyConfig, AtomicConfig)])
    ds = [draw_dict(rng, classes=kinds) if rng.random() < 0.9 else kinds[0]() for _ in range(n)]
    if any(atomic(d) for d in ds[1:]) and rng.random() < 0.7:
        ds = [dict(d) for d in ds]
    if has_atomic_base(ds):
        raise Skip
    none = rng.random() < 0.2
    args = [None if (none and not d and not atomic(d)) else d for d in ds]
    before = [freeze(d) for d in ds]
    mode = pick(rng, ["shallow", "shallow", "hybrid", "deep"])
    to_dict = bool(rng.random() < 0.75) or any(a is None for a in args)
    how = pick(rng, ["merge", "merge", "update"])
    info = dict(dicts=[str(d) for d in ds], nested=nested, same_keys=same, copy_mode=mode, to_dict=to_dict, how=how)
    exp = ref_merge(ds, nested, same)
    if how == "update":
        if n < 2 or any(atomic(d) for d in ds):
            raise Skip
        x = copy.deepcopy(ds[0])
        keep = x
        for y in ds[1:]:
            b = freeze(y)
            C.update_dict(x, copy.deepcopy(y), nested=nested, same_keys=same)
            ctx.check(freeze(y) == b, "update_dict changed its source", **info)
        ctx.check(C.update_dict(x, None) is None and C.update_dict(None, x) is None and x is keep, "update with None")
        r = x
    elif n == 2 and isinstance(ds[0], Config) and not same and rng.random() < 0.6:
        kw = {} if ds[0].nested_ == nested and rng.random() < 0.5 else dict(nested=nested)
        r = ds[0].merge_with(args[1], copy_mode=mode, to_dict=to_dict, **kw)
    else:
        r = C.merge_dicts(*args, copy_mode=mode, nested=nested, same_keys=same, to_dict=to_dict)
    ctx.check(plain(r) == plain(exp), f"{how}: {plain(r)}, expected {plain(exp)}", **info)
    ctx.check([freeze(d) for d in ds] == before, "a source changed", **info)
    if how == "merge":
        if to_dict:
            ctx.check(type(r) in (dict, atomic_dict), f"merged to {type(r)}", **info)
        own = {}

        def walk(d, f):
            f(d)
            for v in d.values():
                if isinstance(v, (dict, Leaf)):
                    if isinstance(v, dict):
                        walk(v, f)
                    else:
                        f(v)

        for d in ds:
            walk(d, lambda o: own.setdefault(id(o), o))

        def shared(o):
            if id(o) not in own:
                return False
            return True

        def see(o):
            if isinstance(o, dict):
                ctx.check(not shared(o) or not nested and o is not r, "the result shares a dict with a source", **info)
            else:
                if nested:
                    ctx.check(shared(o) == (mode == "shallow"), f"a value is shared: {shared(o)} in mode {mode}", **info)
        walk(r, see)
    ctx.nontrivial("merge", str(info))
    ctx.seen("merged dicts", n)
    if same:
        ctx.seen("same-key merges")


# ---------------------------------------------------------------- state machine

class Model:
    """Content, checkpoint and flags of one config."""

    def __init__(self, content, flags, reset):
        self.content, self.flags, self.reset = content, flags, reset

    def clone(self):
        return Model(copy.deepcopy(self.content), dict(self.flags), copy.deepcopy(self.reset))


def content(d):
    """Detached content: nested plain dicts of values."""
    return {k: content(v) if isinstance(v, dict) else v for k, v in d.items()}


def verify(ctx, c, m, what, trace):
    ctx.check(plain(c) == plain(m.content), f"{what}: content {plain(c)}, expected {plain(m.content)}", trace=trace)
    ctx.check(sorted(map(str, c)) == sorted(map(str, m.content)) and len(c) == len(m.content), f"{what}: keys", trace=trace)
    ctx.check(plain(c.reset_dct_) == plain(m.reset), f"{what}: checkpoint {plain(c.reset_dct_)}, expected {plain(m.reset)}", trace=trace)
    for f, v in m.flags.items():
        ctx.check(getattr(c, f + "_") == v, f"{what}: {f} is {getattr(c, f + '_')}, expected {v}", trace=trace)
    for k in KEYS + ["new", "x1"]:
        if m.flags["as_attrs"] and k in m.content:
            ctx.check(getattr(c, k) is c[k], f"{what}: attribute {k} is {getattr(c, k)}, item {c[k]}", trace=trace)
        else:
            ctx.check(not hasattr(c, k), f"{what}: attribute {k} of a missing key", trace=trace)
    if m.flags["convert_dicts"]:
        def walk(d):
            for v in d.values():
                if isinstance(v, dict):
                    walk(v)
        walk(c)


def may_fail(ctx, f, blocked, exc, what, trace):
    """Run an operation which must raise exactly when blocked; True if it went through."""
    try:
        r = f()
    except exc as e:
        if blocked:
            return False, None
        ctx.fail(f"{what} raised {type(e).__name__}: {e}", trace=trace)
    if blocked:
        ctx.fail(f"{what} was not refused", trace=trace)
    return True, r


@monitor(weight=5)
def machine(ctx):
    """Random operation sequences on a pool of configs against the dictionary model with flags."""
    rng = ctx.rng
    nested = bool(rng.random() < 0.7)
    fl = dict(readonly=bool(rng.random() < 0.25), frozen_keys=bool(rng.random() < 0.35), nested=nested, convert_dicts=bool(nested and rng.random() < 0.4))
    as_attrs = pick(rng, [None, True, False])
    kw = {k: v for k, v in fl.items() if v or rng.random() < 0.5}
    fl["as_attrs"] = as_attrs if as_attrs is not None else fl["frozen_keys"] or fl["readonly"]
    if as_attrs is not None:
        kw["as_attrs"] = as_attrs
    mode = None
    if rng.random() < 0.5:
        mode = pick(rng, ["shallow", "hybrid", "deep"])
        kw["copy_kwargs"] = dict(copy_mode=mode)
    rmode = None
    if rng.random() < 0.3:
        rmode = pick(rng, ["shallow", "hybrid", "deep"])
        kw["reset_dct_copy_kwargs"] = dict(copy_mode=rmode)
    src = draw_dict(rng)
    rs = None
    if rng.random() < 0.2:
        rs = draw_dict(rng)
        kw["reset_dct"] = rs
    sb, rb = freeze(src), freeze(rs) if rs is not None else None
    cls = pick(rng, [Config, Config, MyConfig])
    c = cls(src, **kw)
    trace = [f"{cls.__name__}({src}, {kw})"]
    dflt = "shallow" if fl["readonly"] else "hybrid"
    mode = mode or dflt
    rmode = rmode or mode
    ctx.check(freeze(src) == sb and (rs is None or freeze(rs) == rb), "the constructor changed its arguments", trace=trace)
    alias(ctx, src, c, mode, nested, what="init")
    if rs is None:
        alias(ctx, c, c.reset_dct_, rmode, nested, what="init")
    else:
        alias(ctx, rs, c.reset_dct_, rmode, nested, what="init")
    if fl["convert_dicts"]:
        def kids(d):
            for v in d.values():
                if isinstance(v, dict):
                    ctx.check(type(v) is cls and all(getattr(v, f + "_") == x for f, x in fl.items()), f"converted child is {type(v)} with other properties", trace=trace)
                    kids(v)
        kids(c)
    m = Model(content(src), fl, content(rs) if rs is not None else content(src))
    verify(ctx, c, m, "init", trace)
    pool = [(c, m)]
    steps = int(rng.integers(4, 22))
    for _ in range(steps):
        i = int(rng.integers(0, len(pool)))
        c, m = pool[i]
        ro, fz = m.flags["readonly"], m.flags["frozen_keys"]
        force = bool(rng.random() < 0.25)
        fkw = dict(force=True) if force else {}
        ro_, fz_ = ro and not force, fz and not force
        k = pick(rng, KEYS + ["new"])
        op = pick(rng, ["set", "set", "set", "attr", "del", "delattr", "pop", "popitem", "clear", "update", "update", "update", "setdefault", "ior", "copy", "copy", "copy.copy",
                        "deepcopy", "reset", "checkpoint", "child", "child", "todict", "again"])
        what = f"#{i}.{op}({k}, force={force})"
        trace.append(what)
        exc = (TypeError, KeyError)
        if op in ("set", "attr"):
            v = draw_dict(rng, 2) if rng.random() < 0.3 else leaf(rng)
            if op == "attr":
                if not m.flags["as_attrs"]:
                    continue
                ok, _ = may_fail(ctx, lambda: setattr(c, k, v), ro or fz and k not in m.content, exc, what, trace)
            elif force:
                ok, _ = may_fail(ctx, lambda: c.__setitem__(k, v, force=True), False, exc, what, trace)
            else:
                def put():
                    c[k] = v
                ok, _ = may_fail(ctx, put, ro or fz and k not in m.content, exc, what, trace)
            if ok:
                ctx.check(c[k] is v, f"{what}: the item is not the value set", trace=trace)
                m.content[k] = content(v) if isinstance(v, dict) else v
        elif op in ("del", "delattr"):
            if op == "delattr" and not m.flags["as_attrs"]:
                continue
            miss = k not in m.content
            if op == "delattr":
                ok, _ = may_fail(ctx, lambda: delattr(c, k), ro or fz or miss, exc + (AttributeError,), what, trace)
            elif force:
                ok, _ = may_fail(ctx, lambda: c.__delitem__(k, force=True), miss, exc, what, trace)
            else:
                def rem():
                    del c[k]
                ok, _ = may_fail(ctx, rem, ro or fz or miss, exc, what, trace)
            if ok:
                del m.content[k]
        elif op == "pop":
            d = rng.random() < 0.4
            ok, r = may_fail(ctx, lambda: c.pop(k, "dflt", **fkw) if d else c.pop(k, **fkw), ro_ or fz_ or k not in m.content and not d, exc, what, trace)
            if ok:
                e = m.content.pop(k, "dflt")
                ctx.check(plain(r) == plain(e), f"{what} gave {r}, expected {e}", trace=trace)
        elif op == "popitem":
            if not len(c):
                continue
            ok, r = may_fail(ctx, lambda: c.popitem(**fkw), ro_ or fz_, exc, what, trace)
            if ok:
                ctx.check(r[0] in m.content and plain(m.content.pop(r[0])) == plain(r[1]), f"{what} gave {r}", trace=trace)
        elif op == "clear":
            if rng.random() < 0.6:
                continue
            ok, _ = may_fail(ctx, lambda: c.clear(**fkw), ro_ or fz_, exc, what, trace)
            if ok:
                m.content.clear()
        elif op == "setdefault":
            v = leaf(rng)
            if ro or k not in m.content and fz:
                if k in m.content:
                    continue  # nothing to change: refusing is as good as returning
                ok, r = may_fail(ctx, lambda: c.setdefault(k, v), True, exc, what, trace)
            else:
                r = c.setdefault(k, v)
                m.content.setdefault(k, v)
                ctx.check(r is c[k], f"{what} gave {r}", trace=trace)
        elif op in ("update", "ior"):
            u = draw_dict(rng, 1, keys=KEYS[:3] + ["new"])
            if fz and rng.random() < 0.6:
                u = {q: v for q, v in u.items() if q in m.content}
            nst = m.flags["nested"]
            ukw = dict(fkw)
            if op == "ior":
                ukw, force = {}, False
                ro_, fz_, nst = ro, fz, False
            elif nst and rng.random() < 0.25:
                nst = False
                ukw["nested"] = False
            blocked = bool(u) and (ro_ or fz_ and any(q not in m.content for q in u))
            child_blocked = False
            if nst and not force and m.flags["convert_dicts"] and fz:
                def deeper(x, y):
                    for q, v in y.items():
                        if isinstance(v, dict) and isinstance(x.get(q), dict):
                            if isinstance(x[q], Config) and any(z not in x[q] for z in v):
                                return True
                            if deeper(x[q], v):
                                return True
                    return False
                child_blocked = deeper(c, u)
            ub = freeze(u)
            pos = rng.random() < 0.7
            if op == "ior":
                def go():
                    x = c
                    x |= u
                    ctx.check(x is c, "|= made another object", trace=trace)
                ok, _ = may_fail(ctx, go, blocked, exc, what, trace)
            else:
                ok, _ = may_fail(ctx, (lambda: c.update(u, **ukw)) if pos else (lambda: c.update(**u, **ukw)), blocked or child_blocked, exc, what + f" {u}", trace)
            ctx.check(freeze(u) == ub, f"{what} changed its argument {u}", trace=trace)
            if ok:
                ref_update(m.content, content(u), nst, False)
            else:
                ctx.check(set(c) == set(m.content), f"{what}: a refused update changed the keys", trace=trace)
                if ro:
                    verify(ctx, c, m, what, trace)
                new = content(c)
                best = ref_update(copy.deepcopy(m.content), content(u), nst, False)
                for q in new:
                    ctx.check(plain(new[q]) in (plain(m.content[q]), plain(best[q])) or isinstance(new[q], dict), f"{what}: item {q} after a refused update", trace=trace)
                m.content = new
        elif op in ("copy", "copy.copy", "deepcopy", "again"):
            if len(pool) > 4:
                continue
            before = freeze(c)
            rbefore = freeze(c.reset_dct_)
            nst = m.flags["nested"]
            if op == "copy":
                md = pick(rng, [None, "shallow", "hybrid", "deep"])
                ckw = {} if md is None else dict(copy_mode=md)
                r = c.copy(**ckw)
                md_ = md or mode
                alias(ctx, c, r, md_, nst, what=what)
                alias(ctx, c.reset_dct_, r.reset_dct_, md or rmode, nst, what=what + " checkpoint")
            elif op == "deepcopy":
                r = copy.deepcopy(c)
                alias(ctx, c, r, "deep", True, what=what)
                alias(ctx, c.reset_dct_, r.reset_dct_, "deep", True, what=what + " checkpoint")
            elif op == "again":
                r = type(c)(c)
                alias(ctx, c, r, mode, nst, what="init")
            else:
                r = copy.copy(c)
                alias(ctx, c, r, "shallow", False, what=what)
            ctx.check(type(r) is type(c), f"{what} made a {type(r)}", trace=trace)
            ctx.check(freeze(c) == before and freeze(c.reset_dct_) == rbefore, f"{what} changed the original", trace=trace)
            # constructing anew may convert child dicts, which makes them unequal by type
            ctx.check(op == "again" and m.flags["convert_dicts"] or r == c and not r != c, f"{what}: the copy does not equal the original", trace=trace)
            mm = m.clone()
            verify(ctx, r, mm, what, trace)
            if op != "copy.copy" or not nst:
                pool.append((r, mm))
        elif op == "reset":
            ok, _ = may_fail(ctx, lambda: c.reset(**fkw), ro_, exc, what, trace)
            if ok:
                m.content = copy.deepcopy(m.reset)
                if rmode == "deep" and nested:
                    alias(ctx, c, c.reset_dct_, "deep", True, what="init")
        elif op == "checkpoint":
            ok, _ = may_fail(ctx, lambda: c.make_checkpoint(**fkw), ro_, exc, what, trace)
            if ok:
                m.reset = copy.deepcopy(m.content)
                alias(ctx, c, c.reset_dct_, rmode, m.flags["nested"], what="init")
        elif op == "child":
            if not m.flags["nested"]:
                continue
            subs = [q for q, v in m.content.items() if isinstance(v, dict)]
            if not subs:
                continue
            q = pick(rng, subs)
            ch = c[q]
            isc = isinstance(ch, Config)
            v = leaf(rng)

            def put():
                ch[k] = v
            ok, _ = may_fail(ctx, put, isc and (ch.readonly_ or ch.frozen_keys_ and k not in ch), exc, what, trace)
            if ok:
                m.content[q][k] = v
        elif op == "todict":
            r = c.to_dict(nested=True)
            ctx.check(type(r) is dict and plain(r) == plain(m.content), f"to_dict gave {r}", trace=trace)
            r[k] = "changed"
        for cc, mm in pool:
            verify(ctx, cc, mm, f"after {what}", trace)
    ctx.nontrivial("machine", str(trace))
    ctx.seen("config operations", steps)
    ctx.seen("read-only configs", fl["readonly"])
    ctx.seen("frozen configs", fl["frozen_keys"])
    ctx.seen("attribute configs", fl["as_attrs"])
    ctx.seen("converted configs", fl["convert_dicts"])
    ctx.seen("copied configs", len(pool) - 1)


@monitor(weight=0.5)
def naming(ctx):
    """Name conflicts and wrong flags are refused; function signatures and dict selection."""
    rng = ctx.rng
    k = pick(rng, ["update", "copy", "reset", "keys", "dumps", "_readonly_"])
    ctx.raises(ValueError, Config, {k: 1}, as_attrs=True, msg=f"key {k} as attribute")
    c = Config({k: 1}, as_attrs=False)
    ctx.check(c[k] == 1 and callable(getattr(Config, "update")), "plain config with a method name")
    ctx.raises(ValueError, Config, {"a": {}}, nested=False, convert_dicts=True, msg="convert_dicts without nested")
    d = draw_dict(rng)
    over = dict(readonly=bool(rng.random() < 0.5), frozen_keys=bool(rng.random() < 0.5), nested=bool(rng.random() < 0.5), as_attrs=bool(rng.random() < 0.5))
    base = dict(readonly=bool(rng.random() < 0.5), frozen_keys=bool(rng.random() < 0.5), nested=bool(rng.random() < 0.5), as_attrs=bool(rng.random() < 0.5))
    some = {q: v for q, v in over.items() if rng.random() < 0.5}
    c1 = Config(d, **base)
    c2 = Config(c1, **some)
    for q in base:
        ctx.check(getattr(c2, q + "_") == some.get(q, base[q]), f"{q} of a config made from a config", base=base, override=some)
    ctx.check(plain(c2) == plain(d), "content of a config made from a config")
    x, y = pick(rng, ["shallow", "hybrid", "deep"]), pick(rng, [None, "shallow", "hybrid", "deep"])
    c3 = Config(d, copy_kwargs=dict(copy_mode=x), nested=True)
    c4 = Config(c3, copy_kwargs=dict(copy_mode=y)) if y else Config(c3)
    alias(ctx, c3, c4, y or x, True, what="init")
    alias(ctx, c3.reset_dct_, c4.reset_dct_, y or x, True, what="init")
    ctx.check(c4.copy_kwargs_ == dict(copy_mode=y or x, nested=True), f"copy arguments {c4.copy_kwargs_}")
    ctx.check(C.resolve_dict(None) == {} and C.resolve_dict(d) == d and C.resolve_dict(d) is not d, "resolve_dict")
    ctx.check(C.resolve_dict([d, None, {"q": 1}], i=2) == {"q": 1} and C.resolve_dict([d, None], i=1) == {}, "resolve_dict of a sequence")
    ctx.raises(ValueError, C.resolve_dict, [d], msg="sequence without position")

    def f(a, b=1, *args, c, d=2, **kwargs):
        pass
    ctx.check(C.get_func_kwargs(f) == {"b": 1, "d": 2} and C.get_func_arg_names(f) == ["a", "b", "c", "d"], "function arguments")
    ctx.check(C.get_func_arg_names(f, inspect.Parameter.KEYWORD_ONLY) == ["c", "d"] and C.get_func_arg_names(f, (inspect.Parameter.VAR_POSITIONAL,)) == ["args"], "argument kinds")
    ctx.seen("signatures and flags")
    ctx.nontrivial("naming", k, str(base), str(some))


@monitor(weight=0.3)
def settings(ctx):
    """The global settings: frozen keys, attribute access, and reset to the shipped content."""
    rng = ctx.rng
    s = vbt.settings
    st = ctx.state.setdefault("u01_settings", {})
    if "snap" not in st:
        s.reset()
        st["snap"] = plain_settings(s)
    ctx.raises(KeyError, s.__setitem__, "newsection", {}, msg="a new section")
    ctx.raises(KeyError, s.pop, "portfolio", msg="removing a section")
    for _ in range(int(rng.integers(1, 5))):
        kind = int(rng.integers(0, 5))
        v = float(rng.random())
        if kind == 0:
            s["portfolio"]["fees"] = v
            ctx.check(s.portfolio["fees"] == v and vbt.settings.portfolio["fees"] == v, "item set is not seen by attribute")
        elif kind == 1:
            s.returns["year_freq"] = f"{int(v * 100)} days"
            ctx.check(s["returns"]["year_freq"] == f"{int(v * 100)} days", "attribute set is not seen by item")
        elif kind == 2:
            s["plotting"]["layout"]["width"] = int(v * 1000)
        elif kind == 3:
            s["caching"]["enabled"] = v < 0.5
            ctx.raises(KeyError, s["caching"].__setitem__, "unknown_flag", 1, msg="a new caching flag") if isinstance(s["caching"], Config) and s["caching"].frozen_keys_ else None
        else:
            s.update({"array_wrapper": {"freq": "3D"}})
            ctx.check(s["array_wrapper"]["freq"] == "3D" and "column_only_select" in s["array_wrapper"], "nested update of the settings")
    s.reset()
    now = plain_settings(s)
    ctx.check(now == st["snap"], "reset does not restore the settings", differs=[k for k in now if now[k] != st["snap"].get(k)])
    for k in s:
        ctx.check(getattr(s, k) is s[k], f"settings.{k} is not settings['{k}']")
    ctx.seen("settings resets")
    ctx.nontrivial("settings", ctx.case)


def plain_settings(d):
    if isinstance(d, dict):
        return {str(k): plain_settings(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [plain_settings(v) for v in d]
    if isinstance(d, (int, float, str, bool, type(None))):
        return d
    return type(d).__name__
