"""Model of the numpy operations used by building3d, over the value domain."""
from __future__ import annotations

import math
import operator

import numpy as _np
import z3

from .values import *  # noqa: F401,F403
from .values import _tb, _csel


# --------------------------------------------------------------------------- construction
def from_nested(x, kind=None):
    """np.array(nested lists/tuples/arrays of values)"""
    if isinstance(x, (CArr,)):
        return x.copy() if kind is None else astype(x.copy(), kind)
    if isinstance(x, LArr):
        return astype(x.copy(), kind) if kind else x.copy()
    if isinstance(x, PyList):
        if x.items is None:
            return from_symlist(x, kind)
        x = x.items
    if isinstance(x, PySet) and not x.symbolic:
        x = x.items
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return CArr(_np.empty((0,), dtype=object), kind or "f")
        subs = [from_nested(e) if isinstance(e, (list, tuple, PyList, CArr, LArr)) else e for e in x]
        if any(isinstance(s, LArr) for s in subs):
            raise Unsupported("np.array of symbolic-shape arrays")
        if isinstance(subs[0], CArr):
            sh = subs[0].a.shape
            if any(not isinstance(s, CArr) or s.a.shape != sh for s in subs):
                raise Unsupported("ragged np.array")
            out = _np.empty((len(subs),) + sh, dtype=object)
            for i, s in enumerate(subs):
                out[i] = s.a
            k = kind or ("f" if any(s.kind == "f" for s in subs) else subs[0].kind)
            return astype(CArr(out, k), k)
        out = _np.empty((len(subs),), dtype=object)
        for i, s in enumerate(subs):
            out[i] = s
        k = kind or infer_kind(subs)
        return astype(CArr(out, k), k)
    if is_num(x):
        raise Unsupported("0-d array")
    raise Unsupported(f"np.array({type(x).__name__})")


def from_symlist(x, kind):
    n, g = x.n, x.get
    probe = g(SInt(z3.Int("bv!probe")))
    if isinstance(probe, tuple):
        w = len(probe)
        k = kind or infer_kind(list(probe))

        def get(idx):
            row = g(idx[0])
            j = idx[1]
            if isinstance(j, (int, _np.integer)):
                return cast_elem(row[j], k)
            r = row[-1]
            for q in range(w - 2, -1, -1):
                r = vite(it(j) == q, row[q], r)
            return cast_elem(r, k)

        return LArr((n, w), get, k)
    if isinstance(probe, CArr):
        sh = probe.a.shape
        return LArr((n,) + sh, lambda idx: g(idx[0]).elem(idx[1:]), kind or probe.kind)
    if is_num(probe):
        k = kind or infer_kind([probe])
        return LArr((n,), lambda idx: cast_elem(g(idx[0]), k), k)
    raise Unsupported("np.array of symbolic list")


def infer_kind(xs):
    if any(is_float(x) for x in xs):
        return "f"
    if all(isinstance(x, (bool, _np.bool_, SBool)) for x in xs):
        return "b"
    if all(is_num(x) for x in xs):
        return "i"
    return "o"


def cast_elem(x, kind):
    if kind == "f":
        if is_int(num(x)) or isinstance(x, (bool, SBool)):
            x = num(x)
            return as_sf(x) if is_symbolic(x) else float(x)
        return x
    if kind == "i":
        return to_int(x)
    if kind == "b":
        if isinstance(x, (bool, SBool)):
            return x
        return x != 0
    return x


def astype(a, kind):
    if a.kind == kind and isinstance(a, LArr):
        return a
    if isinstance(a, CArr):
        out = _np.empty(a.a.shape, dtype=object)
        for i in _np.ndindex(a.a.shape):
            out[i] = cast_elem(a.a[i], kind)
        return CArr(out, kind)
    g = a.snapshot()
    return LArr(a.shape, lambda idx: cast_elem(g(idx), kind), kind)


def full(shape, val, kind="f"):
    shape = norm_shape(shape)
    if isinstance(val, CArr) or isinstance(val, LArr):
        raise Unsupported("np.full with array")
    val = cast_elem(val, kind)
    if all(isinstance(d, int) for d in shape):
        out = _np.empty(shape, dtype=object)
        out[...] = val
        return CArr(out, kind)
    for d in shape:
        if not isinstance(d, int):
            ctx().side("array dimension is non-negative", it(d) >= 0)
    return LArr(shape, lambda idx: val, kind)


def norm_shape(shape):
    if isinstance(shape, PyList):
        shape = tuple(shape.items)
    if is_int(shape):
        shape = (shape,)
    out = []
    for d in shape:
        if isinstance(d, SInt):
            out.append(d)
        else:
            out.append(int(d))
    return tuple(out)


# --------------------------------------------------------------------------- indexing
def norm_index(i, n, check=True):
    """normalise a (possibly negative, possibly symbolic) index against length n"""
    c = ctx()
    if isinstance(i, (bool, SBool)):
        raise Unsupported("bool index")
    if isinstance(i, SF):
        raise Unsupported("float index")
    if isinstance(i, float):
        raise Unsupported("float index")
    if isinstance(i, (int, _np.integer)) and isinstance(n, int):
        i = int(i)
        if i < -n or i >= n:
            c.raise_exc("IndexError", f"index {i} out of range for length {n}")
        return i + n if i < 0 else i
    if c.spec_mode:
        if isinstance(i, (int, _np.integer)) and i < 0:
            return n + int(i)
        return i
    if isinstance(i, (int, _np.integer)):
        i = int(i)
        if i < 0:
            c.side("index in range", it(n) >= -i)
            return n + i
        c.side("index in range", it(n) > i)
        return i
    t = it(i)
    if c.entails(t >= 0):
        c.side("index in range", t < it(n))
        return i
    if c.entails(t < 0):
        c.side("index in range", -t <= it(n))
        return mkint(t + it(n))
    c.side("index in range", z3.And(t < it(n), -t <= it(n)))
    return mkint(z3.If(t >= 0, t, t + it(n)))


def slice_bounds(s, n):
    """(start, length, step) for a slice over length n"""
    step = s.step if s.step is not None else 1
    if not isinstance(step, int) or step == 0:
        raise Unsupported("symbolic slice step")
    conc = all(isinstance(x, (int, type(None), _np.integer)) for x in (s.start, s.stop)) and isinstance(n, int)
    if conc:
        st, sp, sp2 = slice(s.start, s.stop, step).indices(n)
        return st, len(range(st, sp, sp2)), step
    if step == -1:
        if s.start is None and s.stop is None:
            return n - 1, n, -1
        raise Unsupported("negative step slice with symbolic bounds")
    if step != 1:
        raise Unsupported("strided slice with symbolic bounds")

    def clip(x, dflt):
        if x is None:
            return dflt
        t, nn = it(x), it(n)
        c = ctx()
        if c.entails(z3.And(t >= 0, t <= nn)):
            return mkint(t)
        if c.entails(t >= 0):
            return mkint(z3.If(t > nn, nn, t))
        t2 = z3.If(t < 0, z3.If(t + nn < 0, z3.IntVal(0), t + nn), z3.If(t > nn, nn, t))
        return mkint(t2)

    a = clip(s.start, 0)
    b = clip(s.stop, n)
    ln = b - a
    if isinstance(ln, SInt):
        if not ctx().entails(ln.t >= 0):
            ln = mkint(z3.If(ln.t < 0, z3.IntVal(0), ln.t))
    else:
        ln = max(ln, 0)
    return a, ln, 1


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(k.items if False else k for k in key)
    if any(k is Ellipsis for k in key):
        raise Unsupported("ellipsis index")
    # fancy indexing with one index array
    if len(key) == 1 and isinstance(key[0], (CArr, LArr, PyList)):
        return fancy_get(a, key[0])
    if len(key) > a.ndim:
        ctx().raise_exc("IndexError", "too many indices")
    shape = a.shape
    plan = []  # per source dim: ('i', idx) or ('s', start, length, step)
    for d, n in enumerate(shape):
        if d < len(key):
            k = key[d]
            if isinstance(k, slice):
                st, ln, sp = slice_bounds(k, n)
                plan.append(("s", st, ln, sp))
            elif is_int(k):
                plan.append(("i", norm_index(k, n)))
            else:
                raise Unsupported(f"index of type {type(k).__name__}")
        else:
            plan.append(("s", 0, n, 1))
    out_dims = [p for p in plan if p[0] == "s"]
    if isinstance(a, CArr) and all(
        (p[0] == "i" and isinstance(p[1], int)) or (p[0] == "s" and isinstance(p[1], int) and isinstance(p[2], int))
        for p in plan
    ):
        nk = []
        for p in plan:
            if p[0] == "i":
                nk.append(p[1])
            else:
                st, ln, sp = p[1:]
                if sp > 0:
                    nk.append(slice(st, st + ln * sp, sp))
                else:
                    stop = st + ln * sp
                    nk.append(slice(st, stop if stop >= 0 else None, sp) if ln else slice(0, 0))
        r = a.a[tuple(nk)]
        if isinstance(r, _np.ndarray) and r.dtype == object and len(out_dims) > 0:
            return CArr(r, a.kind, a.ro)
        return r

    def imap(idx):
        res, j = [], 0
        for p in plan:
            if p[0] == "i":
                res.append(p[1])
            else:
                st, ln, sp = p[1:]
                x = idx[j]
                j += 1
                if sp == -1:
                    res.append(st - x)
                elif isinstance(st, int) and st == 0:
                    res.append(x)
                else:
                    res.append(x + st)
        return tuple(res)

    if not out_dims:
        return a.elem(imap(()))
    oshape = tuple(p[2] for p in out_dims)
    if all(isinstance(d, int) for d in oshape):
        out = _np.empty(oshape, dtype=object)
        for i in _np.ndindex(oshape):
            out[i] = a.elem(imap(i))
        return CArr(out, a.kind, ro=True)
    return LArr(oshape, None, a.kind, base=a, imap=imap)


def fancy_get(a, k):
    if isinstance(k, PyList):
        k = from_nested(k)
    if k.kind == "b":
        return mask_get(a, k)
    if k.ndim != 1:
        raise Unsupported("fancy index ndim")
    if isinstance(k, CArr) and isinstance(a, CArr) and all(isinstance(x, (int, _np.integer)) for x in k.a):
        rows = [norm_index(x, a.a.shape[0]) for x in k.a]
        return CArr(a.a[rows].copy() if rows else a.a[:0].copy(), a.kind)
    ga = a.snapshot() if isinstance(a, LArr) else (lambda b: (lambda idx: b.elem(idx)))(a.copy())
    gk = k.snapshot() if isinstance(k, LArr) else (lambda b: (lambda idx: b.elem(idx)))(k.copy())
    n = a.shape[0]
    c = ctx()
    if not c.spec_mode:
        i = bv("f")
        v = gk((SInt(i),))
        c.side(
            "fancy index in range",
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it(k.shape[0])), z3.And(it(v) >= 0, it(v) < it(n)))),
        )
    sh = (k.shape[0],) + tuple(a.shape[1:])
    return materialise(LArr(sh, lambda idx: ga((gk((idx[0],)),) + tuple(idx[1:])), a.kind))


def mask_get(a, k):
    if isinstance(k, CArr) and isinstance(a, CArr) and all(isinstance(x, (bool, _np.bool_)) for x in k.a.flat):
        return CArr(a.a[k.a.astype(bool)].copy(), a.kind)
    if isinstance(k, CArr) and isinstance(a, CArr) and k.ndim == 1:
        rows = [r for r in range(k.a.shape[0]) if ctx().decide(k.a[r])]
        return CArr(a.a[rows].copy() if rows else a.a[:0].copy(), a.kind)
    raise Unsupported("boolean mask of symbolic length")


def materialise(l):
    if all(isinstance(d, int) for d in l.shape):
        out = _np.empty(l.shape, dtype=object)
        for i in _np.ndindex(l.shape):
            out[i] = l.get(i)
        return CArr(out, l.kind)
    return l


def setitem(a, key, val):
    c = ctx()
    if getattr(a, "ro", False):
        raise Unsupported("write through a copy standing for a view")
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(val, PyList):
        val = from_nested(val)
    if isinstance(val, tuple):
        val = from_nested(val)
    if any(isinstance(k, (CArr, LArr, PyList)) for k in key):
        if len(key) == 1 and isinstance(a, CArr):
            k = key[0]
            if isinstance(k, CArr) and k.kind == "b" and k.a.shape == a.a.shape and is_num(val):
                c.note_write(a)
                for i in _np.ndindex(a.a.shape):
                    a.a[i] = vite(k.a[i], cast_elem(val, a.kind), a.a[i])
                return
        if len(key) == 1 and isinstance(a, LArr) and isinstance(key[0], LArr) and key[0].kind == "b" and is_num(val):
            gk = key[0].snapshot()
            v = cast_elem(val, a.kind)
            a.write(lambda idx: gk(idx), lambda idx: v)
            return
        raise Unsupported("fancy assignment")
    shape = a.shape
    plan = []
    for d, n in enumerate(shape):
        if d < len(key):
            k = key[d]
            if isinstance(k, slice):
                st, ln, sp = slice_bounds(k, n)
                if sp == -1:
                    raise Unsupported("assignment to reversed slice")
                plan.append(("s", st, ln, sp))
            elif is_int(k):
                plan.append(("i", norm_index(k, n)))
            else:
                raise Unsupported(f"index of type {type(k).__name__}")
        else:
            plan.append(("s", 0, n, 1))
    out = [p for p in plan if p[0] == "s"]
    conc = all(
        (p[0] == "i" and isinstance(p[1], int)) or (p[0] == "s" and isinstance(p[1], int) and isinstance(p[2], int))
        for p in plan
    )
    if isinstance(a, CArr) and conc:
        c.note_write(a)
        nk = tuple(p[1] if p[0] == "i" else slice(p[1], p[1] + p[2] * p[3], p[3]) for p in plan)
        if isinstance(val, (CArr,)):
            v = astype(val, a.kind) if val.kind != a.kind else val
            try:
                a.a[nk] = v.a.copy()
            except ValueError as e:
                c.raise_exc("ValueError", str(e))
        elif isinstance(val, LArr):
            raise Unsupported("assign symbolic array into concrete slice")
        else:
            v = cast_elem(val, a.kind)
            if out:
                tgt = a.a[nk]
                for i in _np.ndindex(tgt.shape):
                    tgt[i] = v
            else:
                a.a[nk] = v
        return
    if isinstance(a, CArr):
        # symbolic index into a concrete array
        c.note_write(a)
        if isinstance(val, LArr):
            raise Unsupported("assign symbolic array")
        for i in _np.ndindex(a.a.shape):
            cond = True
            j = []
            for p, x in zip(plan, i):
                if p[0] == "i":
                    cond = zand(cond, _tb(veq(p[1], x)))
                else:
                    if not (isinstance(p[1], int) and p[1] == 0 and p[3] == 1 and isinstance(p[2], int)):
                        raise Unsupported("mixed symbolic slice write")
                    j.append(x)
            v = _valat(val, tuple(j), out)
            a.a[i] = vite(mkbool(cond), cast_elem(v, a.kind), a.a[i])
        return
    # LArr
    if isinstance(val, CArr):
        vv = val.copy()
        vget = lambda idx: vv.elem(idx)
        vdim = vv.ndim
        vshape = vv.shape
    elif isinstance(val, LArr):
        vget = val.snapshot()
        vdim = val.ndim
        vshape = val.shape
    else:
        vget = None
        vdim = 0
        vshape = ()
    if vdim > len(out):
        raise Unsupported("setitem broadcasting to fewer dims")
    off = len(out) - vdim
    bc = []
    for p, d in zip(out[off:], vshape):
        if isinstance(d, int) and d == 1 and not (isinstance(p[2], int) and p[2] == 1):
            bc.append(True)
        else:
            bc.append(False)
            e = dim_eq(p[2], d)
            if e is not True:
                c.side("assigned array has the shape of the slice", zb(e))

    def pred(idx):
        cs = []
        for p, x in zip(plan, idx):
            if p[0] == "i":
                e = it(x) == it(p[1])
                cs.append(z3.simplify(e))
            else:
                st, ln, sp = p[1:]
                if sp != 1:
                    raise Unsupported("strided write")
                if not (isinstance(st, int) and st == 0):
                    cs.append(it(x) >= it(st))
                cs.append(it(x) < it(st) + it(ln))
        # whole-dimension conditions are true for in-range indices
        keep = []
        for (p, n), cnd in _zip_conds(plan, shape, cs):
            keep.append(cnd)
        return mkbool(zand(*keep)) if keep else True

    def _zip_conds(plan_, shape_, cs_):
        res, j = [], 0
        for p, n in zip(plan_, shape_):
            if p[0] == "i":
                res.append(((p, n), cs_[j]))
                j += 1
            else:
                st, ln, sp = p[1:]
                if not (isinstance(st, int) and st == 0):
                    res.append(((p, n), cs_[j]))
                    j += 1
                full_dim = isinstance(st, int) and st == 0 and (ln is n or dim_eq(ln, n) is True)
                if not full_dim:
                    res.append(((p, n), cs_[j]))
                j += 1
        return res

    def v(idx):
        if vget is None:
            return cast_elem(val, a.kind)
        rel = []
        for p, x in zip(plan, idx):
            if p[0] == "s":
                st = p[1]
                rel.append(x if isinstance(st, int) and st == 0 else x - st)
        rel = rel[off:]
        rel = tuple(0 if b else r for b, r in zip(bc, rel))
        return cast_elem(vget(rel), a.kind)

    a.write(pred, v)


def _valat(val, j, out):
    if isinstance(val, CArr):
        k = val.ndim
        return val.elem(j[len(j) - k :]) if k else val
    return val


# --------------------------------------------------------------------------- elementwise
def map1(f, a):
    if isinstance(a, CArr):
        out = _np.empty(a.a.shape, dtype=object)
        for i in _np.ndindex(a.a.shape):
            out[i] = f(a.a[i])
        k = infer_kind([out.flat[0]]) if out.size else a.kind
        return CArr(out, k)
    if isinstance(a, LArr):
        g = a.snapshot()
        probe = f(g(tuple(SInt(z3.Int(f"bv!p{d}")) for d in range(a.ndim))))
        return LArr(a.shape, lambda idx: f(g(idx)), infer_kind([probe]))
    if isinstance(a, (PyList, tuple, list)):
        return map1(f, from_nested(a))
    return f(a)


def elementwise(op, a, b):
    if isinstance(a, (PyList, list, tuple)):
        a = from_nested(a)
    if isinstance(b, (PyList, list, tuple)):
        b = from_nested(b)
    if not isinstance(a, (CArr, LArr)) and not isinstance(b, (CArr, LArr)):
        return op(a, b)
    if b is None or a is None:
        if op is operator.eq:
            return False
        if op is operator.ne:
            return True
    for x in (a, b):
        if not isinstance(x, (CArr, LArr)) and not is_num(x):
            raise Unsupported(f"array op with {type(x).__name__}")
    ca = not isinstance(a, LArr)
    cb = not isinstance(b, LArr)
    if ca and cb:
        xa = a.a if isinstance(a, CArr) else _scalar(a)
        xb = b.a if isinstance(b, CArr) else _scalar(b)
        try:
            ba, bb = _np.broadcast_arrays(xa, xb)
        except ValueError as e:
            ctx().raise_exc("ValueError", str(e))
        out = _np.empty(ba.shape, dtype=object)
        for i in _np.ndindex(ba.shape):
            out[i] = op(ba[i], bb[i])
        k = infer_kind([out.flat[0]]) if out.size else (a.kind if isinstance(a, CArr) else b.kind)
        return CArr(out, k)
    sa = a.shape if isinstance(a, (CArr, LArr)) else ()
    sb = b.shape if isinstance(b, (CArr, LArr)) else ()
    n = max(len(sa), len(sb))
    pa = (None,) * (n - len(sa)) + tuple(sa)
    pb = (None,) * (n - len(sb)) + tuple(sb)
    shape, ua, ub = [], [], []
    c = ctx()
    for x, y in zip(pa, pb):
        if x is None:
            shape.append(y)
            ua.append(None)
            ub.append(True)
        elif y is None:
            shape.append(x)
            ua.append(True)
            ub.append(None)
        elif isinstance(x, int) and x == 1 and not (isinstance(y, int) and y == 1):
            shape.append(y)
            ua.append(False)
            ub.append(True)
        elif isinstance(y, int) and y == 1 and not (isinstance(x, int) and x == 1):
            shape.append(x)
            ua.append(True)
            ub.append(False)
        else:
            e = dim_eq(x, y)
            if e is not True and not c.spec_mode:
                c.side("array shapes are compatible", zb(e))
            shape.append(x if isinstance(x, int) else (y if isinstance(y, int) else x))
            ua.append(True)
            ub.append(True)
    ga = _getter(a)
    gb = _getter(b)

    def pick(idx, u):
        return tuple(i if f else 0 for i, f in zip(idx, u) if f is not None)

    def get(idx):
        return op(ga(pick(idx, ua)), gb(pick(idx, ub)))

    probe = get(tuple(SInt(z3.Int(f"bv!p{d}")) for d in range(n)))
    return materialise(LArr(tuple(shape), get, infer_kind([probe])))


def _scalar(x):
    o = _np.empty((), dtype=object)
    o[()] = x
    return o


def _getter(a):
    if isinstance(a, LArr):
        return a.snapshot()
    if isinstance(a, CArr):
        b = a.copy()
        return lambda idx: b.elem(idx)
    return lambda idx: a


# --------------------------------------------------------------------------- reductions
def arr_all(a):
    if isinstance(a, (PyList, tuple, list)):
        a = from_nested(a)
    if isinstance(a, CArr):
        return mkbool(z3.simplify(zb(zand(*[_truth(x) for x in a.a.flat]))))
    if isinstance(a, LArr):
        return quant_arr(a, True)
    return a


def arr_any(a):
    if isinstance(a, (PyList, tuple, list)):
        a = from_nested(a)
    if isinstance(a, CArr):
        return mkbool(z3.simplify(zb(zor(*[_truth(x) for x in a.a.flat]))))
    if isinstance(a, LArr):
        return quant_arr(a, False)
    return a


def _truth(x):
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, SBool):
        return x.t
    r = x != 0
    return _tb(r)


def quant_arr(a, forall):
    vs, rng, idx, fixed = [], [], [], []
    for d in a.shape:
        if isinstance(d, int) and d <= 4:
            idx.append(range(d))
        else:
            v = bv("q")
            vs.append(v)
            rng += [v >= 0, v < it(d)]
            idx.append([SInt(v)])
    import itertools

    g = a.snapshot()
    parts = [_truth(g(i)) for i in itertools.product(*idx)]
    if forall:
        return mkbool(z3.ForAll(vs, z3.Implies(z3.And(*rng), zb(zand(*parts)))))
    return mkbool(z3.Exists(vs, z3.And(z3.And(*rng), zb(zor(*parts)))))


def arr_minmax(a, ismin, axis=None):
    if isinstance(a, (PyList, tuple, list)):
        a = from_nested(a)
    c = ctx()
    lt = (lambda x, y: x < y) if ismin else (lambda x, y: x > y)
    if axis is not None:
        if a.ndim == 2 and axis == 0:
            w = a.shape[1]
            if not isinstance(w, int):
                raise Unsupported("min over axis with symbolic width")
            return from_nested([arr_minmax(getitem(a, (slice(None), j)), ismin) for j in range(w)], a.kind)
        if a.ndim == 1 and axis == 0:
            return arr_minmax(a, ismin)
        if isinstance(a, CArr) and a.ndim == 2 and axis == 1:
            return from_nested([arr_minmax(CArr(a.a[i], a.kind), ismin) for i in range(a.a.shape[0])], a.kind)
        raise Unsupported("min/max axis")
    if isinstance(a, CArr):
        if a.a.size == 0:
            c.raise_exc("ValueError", "zero-size array to reduction operation")
        flat = list(a.a.flat)
        r = flat[0]
        for x in flat[1:]:
            r = minmax2(r, x, ismin)
        return r
    if a.ndim != 1:
        raise Unsupported("min/max over nd symbolic array")
    n = a.shape[0]
    c.side("reduction over a non-empty array", it(n) >= 1)
    g = a.snapshot()
    w = c.fresh_int("arg" + ("min" if ismin else "max"))
    c.assume(z3.And(w.t >= 0, w.t < it(n)))
    r = g((w,))
    i = bv("m")
    x = g((SInt(i),))
    if is_float(x) and not as_sf(x).plain:
        raise Unsupported("min/max over possibly-nan array")
    cond = (r <= x) if ismin else (r >= x)
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it(n)), zb(cond))))
    return r


def minmax2(a, b, ismin):
    cond = (b < a) if ismin else (b > a)
    if is_float(a) or is_float(b):
        x, y = as_sf(a), as_sf(b)
        r = vite(cond, b, a)
        n = zor(x.nan, y.nan)
        if n is not False:
            r = as_sf(r)
            return SF(r.t, n, r.inf)
        return r
    return vite(cond, b, a)


def arr_sum(a, axis=None):
    if isinstance(a, (PyList, tuple, list)):
        a = from_nested(a)
    if isinstance(a, CArr):
        if axis is None:
            r = 0
            for x in a.a.flat:
                r = num(x) + r if not (isinstance(r, int) and r == 0) else num(x)
            return r
        if a.ndim == 2 and axis == 0:
            return from_nested([arr_sum(CArr(a.a[:, j], a.kind)) for j in range(a.a.shape[1])], a.kind)
        if a.ndim == 2 and axis in (1, -1):
            return from_nested([arr_sum(CArr(a.a[i], a.kind)) for i in range(a.a.shape[0])], a.kind)
        if a.ndim == 1 and axis in (0, -1):
            return arr_sum(a)
        raise Unsupported("sum axis")
    if isinstance(a, LArr) and a.ndim == 1 and axis in (None, 0):
        g = a.snapshot()
        return ctx().psum_of(lambda k: g((k,)), a.shape[0], "f" if a.kind == "f" else "i")
    if isinstance(a, LArr) and a.ndim == 2 and axis == 0 and isinstance(a.shape[1], int):
        g = a.snapshot()
        return from_nested(
            [ctx().psum_of(lambda k, j=j: g((k, j)), a.shape[0], "f" if a.kind == "f" else "i") for j in range(a.shape[1])],
            a.kind,
        )
    if isinstance(a, LArr) and a.ndim == 2 and axis in (1, -1) and isinstance(a.shape[1], int) and a.shape[1]:
        g = a.snapshot()

        def row(idx):
            r = g((idx[0], 0))
            for j in range(1, a.shape[1]):
                r = r + g((idx[0], j))
            return r

        return LArr((a.shape[0],), row, a.kind)
    if isinstance(a, LArr) and a.ndim == 2 and axis == 0:
        # totals of columns: an unknown function of the column (contracts may say of which array)
        c = ctx()
        fn = c.fresh_fn("total", z3.IntSort(), z3.RealSort() if a.kind == "f" else z3.IntSort())
        mk = SF if a.kind == "f" else SInt
        T = lambda j: mk(fn(it(j)))
        c.ghost.setdefault("totals", []).append((tuple(a.shape), a.snapshot(), T))
        return LArr((a.shape[1],), lambda idx: T(idx[0]), a.kind)
    raise Unsupported("sum of symbolic array")


# --------------------------------------------------------------------------- numpy functions
def isclose1(a, b, rtol=1e-5, atol=1e-8):
    """np.isclose for scalars: |a-b| <= atol + rtol*|b| (finite), nan -> False"""
    if not is_symbolic(a) and not is_symbolic(b) and not is_symbolic(rtol) and not is_symbolic(atol):
        return bool(_np.isclose(a, b, rtol=rtol, atol=atol))
    a, b = as_sf(a), as_sf(b)
    if a.inf is not False or b.inf is not False:
        raise Unsupported("isclose(inf)")
    rhs = rt(atol) + rt(rtol) * abs(b).t if not _z(rtol) else rt(atol)
    d = a.t - b.t
    core = z3.And(d <= rhs, -d <= rhs)
    return mkbool(z3.simplify(zb(zand(znot(a.nan), znot(b.nan), core))))


def _z(x):
    return isinstance(x, (int, float)) and x == 0


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if equal_nan:
        raise Unsupported("equal_nan")
    return elementwise(lambda x, y: isclose1(x, y, rtol, atol), a, b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    return arr_all(r) if isinstance(r, (CArr, LArr)) else r


def np_dot(a, b):
    if isinstance(a, (PyList, tuple)):
        a = from_nested(a)
    if isinstance(b, (PyList, tuple)):
        b = from_nested(b)
    if not isinstance(a, (CArr, LArr)) or not isinstance(b, (CArr, LArr)):
        return a * b
    if isinstance(a, CArr) and isinstance(b, CArr):
        x, y = a.a, b.a
        if x.ndim == 1 and y.ndim == 1:
            if x.shape != y.shape:
                ctx().raise_exc("ValueError", "shapes not aligned")
            return _dot1(x, y)
        if x.ndim == 2 and y.ndim == 1:
            return from_nested([_dot1(x[i], y) for i in range(x.shape[0])], "f")
        if x.ndim == 1 and y.ndim == 2:
            return from_nested([_dot1(x, y[:, j]) for j in range(y.shape[1])], "f")
        if x.ndim == 2 and y.ndim == 2:
            if x.shape[1] != y.shape[0]:
                ctx().raise_exc("ValueError", "shapes not aligned")
            out = _np.empty((x.shape[0], y.shape[1]), dtype=object)
            for i in range(x.shape[0]):
                for j in range(y.shape[1]):
                    out[i, j] = _dot1(x[i], y[:, j])
            return CArr(out, "f")
    if isinstance(a, LArr) and a.ndim == 2 and isinstance(a.shape[1], int) and isinstance(b, CArr):
        g = a.snapshot()
        w = a.shape[1]
        y = b.copy().a
        if y.ndim == 1:
            return LArr((a.shape[0],), lambda idx: _sum([g((idx[0], k)) * y[k] for k in range(w)]), "f")
        if y.ndim == 2:
            yy = CArr(y)
            return LArr(
                (a.shape[0], y.shape[1]),
                lambda idx: _sum([g((idx[0], k)) * yy.elem((k, idx[1])) for k in range(w)]),
                "f",
            )
    raise Unsupported("dot of these shapes")


def _sum(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def _dot1(x, y):
    if len(x) == 0:
        return 0.0
    return _sum([x[k] * y[k] for k in range(len(x))])


def np_cross(a, b):
    if isinstance(a, (PyList, tuple)):
        a = from_nested(a)
    if isinstance(b, (PyList, tuple)):
        b = from_nested(b)
    if isinstance(a, CArr) and isinstance(b, CArr) and a.a.shape == (3,) and b.a.shape == (3,):
        x, y = a.a, b.a
        return from_nested([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]], "f")
    if isinstance(a, (CArr, LArr)) and isinstance(b, (CArr, LArr)) and a.ndim == 2 and b.ndim == 2:
        A, B = to_larr(a), to_larr(b)
        ga, gb = A.snapshot(), B.snapshot()

        def get(idx):
            i, j = idx
            x = [ga((i, k)) for k in range(3)]
            y = [gb((i, k)) for k in range(3)]
            v = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
            if isinstance(j, int):
                return v[j]
            return vite(it(j) == 0, v[0], vite(it(j) == 1, v[1], v[2]))

        return materialise(LArr(A.shape, get, "f"))
    raise Unsupported("cross of these shapes")


def np_norm(a, ord=None, axis=None):
    if isinstance(a, (PyList, tuple)):
        a = from_nested(a)
    if axis is not None:
        if isinstance(a, (LArr, CArr)) and a.ndim == 2 and axis in (1, -1) and isinstance(a.shape[1], int):
            A = to_larr(a)
            g = A.snapshot()
            w = a.shape[1]
            return materialise(
                LArr((a.shape[0],), lambda idx: sf_sqrt(_sum([g((idx[0], k)) * g((idx[0], k)) for k in range(w)]), True), "f")
            )
        raise Unsupported("norm axis")
    if isinstance(a, CArr) and a.ndim == 1:
        if not any(is_symbolic(x) for x in a.a):
            return float(_np.linalg.norm(_np.array(a.a, dtype=float)))
        s = _sum([x * x for x in a.a])
        return sf_sqrt(s, nonneg=True)
    raise Unsupported("norm of this array")


def np_vstack(seq):
    if isinstance(seq, PyList):
        if seq.items is None:
            probe = seq.get(SInt(z3.Int("bv!probe")))
            if isinstance(probe, CArr) and probe.ndim == 1:
                ctx().side("vstack of a non-empty list", it(seq.n) >= 1)
                return from_symlist(seq, None)
            raise Unsupported("vstack of symbolic list of matrices")
        seq = seq.items
    arrs = []
    for x in seq:
        if isinstance(x, (tuple, PyList, list)):
            x = from_nested(x)
        arrs.append(x)
    if not arrs:
        ctx().raise_exc("ValueError", "need at least one array to concatenate")
    if all(isinstance(x, CArr) for x in arrs):
        rows = [x.a if x.ndim == 2 else x.a[None, :] for x in arrs]
        k = "f" if any(x.kind == "f" for x in arrs) else arrs[0].kind
        return astype(CArr(_np.concatenate(rows, axis=0), k), k)
    parts = []
    for x in arrs:
        if isinstance(x, CArr) and x.ndim == 1:
            x = CArr(x.a[None, :], x.kind)
        parts.append(to_larr(x) if x.ndim == 2 else _row(x))
    return np_concat(parts)


def _row(x):
    raise Unsupported("row of symbolic width in vstack")


def np_concat(parts):
    offs, tot = [], 0
    gets = []
    parts = parts.items if isinstance(parts, PyList) and parts.items is not None else parts
    if all(isinstance(p, CArr) for p in parts):
        if len({p.a.shape[1:] for p in parts}) != 1:
            ctx().raise_exc("ValueError", "all the input array dimensions must match")
        return CArr(_np.concatenate([p.a for p in parts]), "f" if any(p.kind == "f" for p in parts) else parts[0].kind)
    for p in parts:
        offs.append(tot)
        tot = tot + p.shape[0]
        gets.append(_getter(p))

    def get(idx):
        i = idx[0]
        r = None
        for o, g in reversed(list(zip(offs, gets))):
            rel = i - o
            v = None
            if isinstance(rel, int) and rel < 0:
                continue
            v = g((rel,) + tuple(idx[1:]))
            r = v if r is None else vite(it(i) < it(_next(o)), v, r)
        return r

    bounds = offs[1:] + [tot]
    nxt = {id(o): b for o, b in zip(offs, bounds)}
    pos = list(zip(offs, bounds))

    def _next(o):
        for a, b in pos:
            if a is o:
                return b
        for a, b in pos:
            if isinstance(a, int) and isinstance(o, int) and a == o:
                return b
        raise Unsupported("concat")

    k = "f" if any(p.kind == "f" for p in parts) else parts[0].kind
    return materialise(LArr((tot,) + tuple(parts[0].shape[1:]), get, k))


TRIG = {}


def trig(phi, c=None):
    """(cos, sin) of an angle value: exact for concrete, else fresh pair on the unit circle"""
    phi = num(phi)
    if not is_symbolic(phi):
        return math.cos(phi), math.sin(phi)
    c = ctx()
    t = z3.simplify(as_sf(phi).t)
    key = ("trig", t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    # cos(-x) = cos x, sin(-x) = -sin x
    tn = z3.simplify(-t)
    kn = ("trig", tn.get_id())
    nan = phi.nan
    if kn in c.memo:
        cs, sn = c.memo[kn][0]
        r = (cs, -sn)
        c.memo[key] = (r, t)
        return r
    cs, sn = c.fresh_real("cos"), c.fresh_real("sin")
    c.assume(z3.And(cs.t * cs.t + sn.t * sn.t == 1, cs.t <= 1, cs.t >= -1, sn.t <= 1, sn.t >= -1))
    c.assume(z3.Implies(t == 0, z3.And(cs.t == 1, sn.t == 0)))
    r = (SF(cs.t, nan), SF(sn.t, nan))
    c.memo[key] = (r, t)
    # half angle relations with already known terms
    for k, v in list(c.memo.items()):
        if k[0] == "trig" and v[1] is not t:
            o = v[1]
            oc, os_ = as_sf(v[0][0]).t, as_sf(v[0][1]).t
            if z3.is_rational_value(z3.simplify(o / 1)) and False:
                pass
            if z3.simplify(o - 2 * t).eq(z3.RealVal(0)) or z3.simplify(o - 2 * t, som=True).eq(z3.RealVal(0)):
                c.assume(z3.And(oc == 1 - 2 * sn.t * sn.t, os_ == 2 * sn.t * cs.t))
            if z3.simplify(t - 2 * o, som=True).eq(z3.RealVal(0)):
                c.assume(z3.And(cs.t == 1 - 2 * os_ * os_, sn.t == 2 * os_ * oc))
    return r


def np_cos(x):
    if isinstance(x, (CArr, LArr)):
        return map1(np_cos, x)
    return trig(x)[0]


def np_sin(x):
    if isinstance(x, (CArr, LArr)):
        return map1(np_sin, x)
    return trig(x)[1]


def np_arccos(x):
    x = num(x)
    if not is_symbolic(x):
        return math.acos(x)
    c = ctx()
    x = as_sf(x)
    t = z3.simplify(x.t)
    key = ("acos", t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    a = c.fresh_real("acos")
    c.side("arccos argument within [-1, 1]", zb(zor(x.nan, zand(t <= 1, t >= -1))))
    sn = c.fresh_real("sin")
    pi_hi = z3.Q(31415926536, 10000000000)
    c.assume(z3.And(a.t >= 0, a.t <= pi_hi, sn.t >= 0, sn.t * sn.t + t * t == 1))
    c.assume((a.t == 0) == (t == 1))
    r = SF(a.t, x.nan)
    c.memo[key] = (r, t)
    at = z3.simplify(a.t)
    c.memo[("trig", at.get_id())] = ((SF(t, x.nan), SF(sn.t, x.nan)), at)
    return r


def np_abs(x):
    if isinstance(x, (CArr, LArr, PyList)):
        return map1(abs, x)
    return abs(x)


def np_floor(x):
    if isinstance(x, (CArr, LArr, PyList, tuple)):
        return map1(sf_floor, x)
    return sf_floor(x)


def np_isnan(x):
    if isinstance(x, (CArr, LArr)):
        return map1(np_isnan, x)
    if isinstance(x, SF):
        return mkbool(x.nan)
    return bool(_np.isnan(x)) if is_float(x) else False


def np_isfinite(x):
    if isinstance(x, (CArr, LArr)):
        return map1(np_isfinite, x)
    if isinstance(x, SF):
        return mkbool(znot(zor(x.nan, x.inf)))
    return bool(_np.isfinite(x)) if is_float(x) else True


def np_round(x, dec=0):
    if isinstance(x, (CArr, LArr)):
        return map1(lambda e: sf_round(e, dec), x)
    return sf_round(x, dec)


def np_eye(n):
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = 1.0 if i == j else 0.0
    return CArr(out, "f")


def np_linspace(a, b, n):
    if isinstance(n, (int, _np.integer)):
        n = int(n)
        if n == 1:
            return from_nested([a + 0.0 * b if is_symbolic(b) else a], "f")
        return from_nested([a + (b - a) * (i / (n - 1)) if not (is_symbolic(a) or is_symbolic(b)) else a + (b - a) * SF(z3.Q(i, n - 1)) for i in range(n)], "f")
    raise Unsupported("linspace with symbolic count")


def reshape(a, shape):
    if isinstance(a, CArr):
        return CArr(a.a.reshape(shape), a.kind, a.ro)
    if isinstance(a, LArr):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        # (n, k, w) -> (n*k, w) with concrete k, w
        if a.ndim == 3 and len(shape) == 2 and shape[0] == -1 and isinstance(a.shape[1], int) and shape[1] == a.shape[2]:
            k = a.shape[1]
            return LArr((a.shape[0] * k, a.shape[2]), None, a.kind, base=a, imap=lambda idx: (idx[0] // k, idx[0] % k, idx[1]))
    raise Unsupported("reshape of symbolic array")


def transpose(a):
    if isinstance(a, CArr):
        return CArr(a.a.T, a.kind, a.ro)
    if isinstance(a, LArr) and a.ndim == 2:
        return LArr((a.shape[1], a.shape[0]), None, a.kind, base=a, imap=lambda idx: (idx[1], idx[0]))
    raise Unsupported("transpose")


def np_arange(*args):
    if all(isinstance(x, (int, float, _np.number)) for x in args):
        r = _np.arange(*args)
        return from_nested([x.item() for x in r], "i" if r.dtype.kind == "i" else "f") if len(r) else CArr(_np.empty((0,), dtype=object), "i" if r.dtype.kind == "i" else "f")
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    if is_int(start) and is_int(stop) and isinstance(step, int) and step == 1:
        n = stop - start
        if isinstance(n, SInt):
            n = mkint(z3.If(n.t < 0, z3.IntVal(0), n.t))
        return materialise(LArr((n,), lambda idx: idx[0] + start, "i"))
    # float arange: length = ceil((stop-start)/step), value i = start + i*step
    c = ctx()
    st = as_sf(step)
    c.side("arange step is positive", z3.And(st.t > 0, zb(znot(st.nan))))
    q = (as_sf(stop) - as_sf(start)) / st
    ln = to_int(sf_ceil(q))
    if isinstance(ln, SInt):
        ln = mkint(z3.If(ln.t < 0, z3.IntVal(0), ln.t))
    s0 = as_sf(start)
    return materialise(LArr((ln,), lambda idx: s0 + as_sf(idx[0]) * st, "f"))
