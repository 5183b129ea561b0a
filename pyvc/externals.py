"""Python built-ins, numpy, math and the few other external names the repository uses."""
from __future__ import annotations

import math
import os
import operator

import numpy as _np
import z3

from . import containers as ct
from . import npmodel as npm
from . import tokens
from .values import *  # noqa
from .values import _tb


def B(name, fn):
    from .interp import Builtin

    return Builtin(name, fn)


# --------------------------------------------------------------------------- strings
def to_str(I, x, fs=None, conv=-1):
    if isinstance(x, (str, SStr)) and not fs:
        return x
    if isinstance(x, bool) or (not is_symbolic(x) and isinstance(x, (int, float, str))):
        return format(x, fs or "")
    if isinstance(x, (SInt, SF)) and tokens.table() is not None:
        return tokens.text(x, fs)
    if isinstance(x, SInt):
        f = z3.Function(f"str_of_int!{fs or ''}", z3.IntSort(), StrSort)
        return SStr(f(x.t))
    if isinstance(x, SF):
        f = z3.Function(f"str_of_float!{fs or ''}", z3.RealSort(), StrSort)
        return SStr(f(x.t))
    if isinstance(x, SBool):
        return ctx().fresh_str("strb")
    return ctx().fresh_str("repr")


def str_concat(I, parts):
    parts = [p for p in parts if not (isinstance(p, str) and p == "")]
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    # "a/b/c" shaped templates become joins
    if len(parts) == 1:
        return parts[0]
    if len(parts) % 2 == 1 and all(isinstance(p, str) and p == parts[1] and len(p) == 1 for p in parts[1::2]):
        return ct.st_join(I, parts[1], tuple(parts[0::2]))
    key = "concat!" + "!".join(f"{p!r}" if isinstance(p, str) else "_" for p in parts)
    args = [p for p in parts if not isinstance(p, str)]
    fn = z3.Function(key, *([StrSort] * len(args)), StrSort)
    return SStr(fn(*[p.t for p in args]))


# --------------------------------------------------------------------------- builtins
def b_len(I, v):
    if tokens.has(v):
        raise Unsupported("length of a text with unknown parts")
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, SStr):
        # length of an unknown string: zero exactly for the empty one; a joined one has at least its separators
        n = z3.Function("strlen", StrSort, z3.IntSort())(v.t)
        ctx().assume(z3.And(n >= ((len(v.parts[1]) - 1) * len(v.parts[0]) if v.parts else 0), (n == 0) == (v.t == str_const(""))))
        return SInt(n)
    if isinstance(v, (PyList, PyDict)):
        return v.length()
    if isinstance(v, PySet):
        if v.items is not None:
            return len(v.items)
        if v.n is not None:
            return v.n
        raise Unsupported("len of symbolic set")
    if isinstance(v, CArr):
        if v.ndim == 0:
            ctx().raise_exc("TypeError", "len() of unsized object")
        return v.a.shape[0]
    if isinstance(v, LArr):
        return v.shape[0]
    if isinstance(v, ct.Seq):
        return v.n
    if isinstance(v, Obj) and "__len__" in v.cls.methods:
        return I.call(v.cls.methods["__len__"], [v])
    h = getattr(v, "_vc_len", None)
    if h is not None:
        return h(I)
    if is_num(v) or v is None:
        ctx().raise_exc("TypeError", "object has no len()")
    raise Unsupported(f"len of {type(v).__name__}")


def b_enumerate(I, v, start=0):
    n, g = ct.iterate(I, v)
    return ct.Seq(n, lambda k: (k + start, g(k)))


def b_zip(I, *vs):
    its = [ct.iterate(I, v) for v in vs]
    ns = [n for n, _ in its]
    if not its:
        return ct.Seq(0, lambda k: ())
    if all(isinstance(n, int) for n in ns):
        n = min(ns)
    else:
        n = ns[0]
        for m in ns[1:]:
            if isinstance(m, type(n)) and not isinstance(m, int) and m.t.eq(n.t):
                continue
            if ctx().entails(it(m) == it(n)):
                continue
            n = mkint(z3.If(it(m) < it(n), it(m), it(n)))
    return ct.Seq(n, lambda k: tuple(g(k) for _, g in its))


def b_minmax(ismin):
    def f(I, *a, key=None, default=None):
        if key is not None:
            raise Unsupported("min/max key")
        if len(a) == 1:
            n, g = ct.iterate(I, a[0])
            if not isinstance(n, int):
                x = g(SInt(bv("k")))
                if not isinstance(x, (int, float, SInt, SF)):
                    raise Unsupported("min/max of symbolic sequence")
                kind = "f" if is_float(x) else "i"
                arr = LArr((n,), lambda ix: g(ix[0]), kind)
                if default is not None and not I.truth(it(n) > 0):
                    return default
                return npm.arr_minmax(arr, ismin)
            a = [g(k) for k in range(n)]
            if not a:
                if default is not None:
                    return default
                ctx().raise_exc("ValueError", "empty sequence")
        r = a[0]
        for x in a[1:]:
            if not is_symbolic(x) and not is_symbolic(r):
                r = min(r, x) if ismin else max(r, x)
            else:
                cond = (x < r) if ismin else (x > r)
                r = vite(_tb(cond), x, r)
        return r

    return f


def b_sum(I, v, start=0):
    n, g = ct.iterate(I, v)
    if isinstance(n, int):
        r = start
        for k in range(n):
            r = I.binop(operator.add, r, g(k))
        return r
    x = g(SInt(bv("k")))
    kind = "f" if is_float(x) else "i"
    return start + ctx().psum_of(g, n, kind)


def b_any(I, v):
    n, g = ct.iterate(I, v)
    if isinstance(n, int):
        r = False
        for k in range(n):
            r = zor(r, _tb(I.truth_term(g(k))))
        return mkbool(r)
    i = bv("any")
    return mkbool(z3.Exists([i], z3.And(i >= 0, i < it(n), zb(I.truth_term(g(SInt(i)))))))


def b_all(I, v):
    n, g = ct.iterate(I, v)
    if isinstance(n, int):
        r = True
        for k in range(n):
            r = zand(r, _tb(I.truth_term(g(k))))
        return mkbool(r)
    i = bv("all")
    return mkbool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it(n)), zb(I.truth_term(g(SInt(i)))))))


def b_int(I, x=0, base=None):
    if tokens.has(x):
        return tokens.number(x, SInt)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            ctx().raise_exc("ValueError", "int()")
    if isinstance(x, SStr):
        f = z3.Function("int_of_str", StrSort, z3.IntSort())
        return SInt(f(x.t))
    return to_int(x)


def b_float(I, x=0.0):
    if tokens.has(x):
        return as_sf(tokens.number(x, (SInt, SF)))
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            ctx().raise_exc("ValueError", "float()")
    if isinstance(x, SInt):
        return as_sf(x)
    if isinstance(x, SF):
        return x
    if isinstance(x, SBool):
        return as_sf(num(x))
    if isinstance(x, (CArr, LArr)):
        raise Unsupported("float of array")
    return float(x)


def b_bool(I, x=False):
    return I.truth_term(x)


def b_str(I, x=""):
    return to_str(I, x)


def b_abs(I, x):
    return npm.map1(abs, x) if isinstance(x, (CArr, LArr)) else abs(x)


def b_round(I, x, d=None):
    if d is None:
        r = sf_round(x, 0)
        return to_int(r)
    return sf_round(x, d)


def b_tuple(I, v=()):
    if isinstance(v, tuple):
        return v
    n, g = ct.iterate(I, v)
    if not isinstance(n, int):
        raise Unsupported("tuple of symbolic length")
    return tuple(g(k) for k in range(n))


def b_dict(I, v=None, **kw):
    d = PyDict({})
    if isinstance(v, PyDict):
        from .interp import snap

        d = snap(v)
        d.default = d.missing = None
    elif v is not None:
        n, g = ct.iterate(I, v)
        if not isinstance(n, int):
            raise Unsupported("dict of symbolic sequence")
        for k in range(n):
            ct.dict_set(I, d, *I.unpack(g(k), 2))
    for k, x in kw.items():
        ct.dict_set(I, d, k, x)
    return d


def b_isinstance(I, v, t):
    from .interp import UserClass, Builtin, ExcClass, DType

    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, UserClass):
            if isinstance(v, Obj) and (v.cls is x or x.name in v.cls.base_names(I.prog)):
                return True
            if isinstance(v, SRef) and v.cls == x.name:
                return True
        elif isinstance(x, Builtin):
            if x.name == "int" and (is_int(v) or isinstance(v, (bool, SBool))):
                return True
            if x.name == "float" and is_float(v):
                return True
            if x.name == "str" and isinstance(v, (str, SStr)):
                return True
            if x.name == "bool" and isinstance(v, (bool, SBool)):
                return True
            if x.name == "list" and isinstance(v, PyList):
                return True
            if x.name == "tuple" and isinstance(v, tuple):
                return True
            if x.name == "dict" and isinstance(v, PyDict):
                return True
            if x.name == "set" and isinstance(v, PySet):
                return True
            if x.name == "ndarray" and isinstance(v, (CArr, LArr)):
                return True
        elif isinstance(x, DType):
            pass
        elif isinstance(x, (ExcClass,)):
            pass
        else:
            raise Unsupported(f"isinstance with {x!r}")
    return False


def b_reversed(I, v):
    n, g = ct.iterate(I, v)
    return ct.Seq(n, lambda k: g(n - 1 - k))


def b_next(I, v, *d):
    raise Unsupported("next")


def b_hasattr(I, o, nm):
    if isinstance(o, Obj):
        if nm in o.f or nm in o.cls.methods or nm in o.cls.props or nm in o.cls.attrs:
            return True
        if not getattr(o, "partial", False):
            return False
    f = getattr(o, "_vc_hasattr", None)
    if f is not None:
        return f(nm)
    raise Unsupported("hasattr")


def b_map(I, f, *vs):
    z = b_zip(I, *vs)
    if isinstance(z.n, int):
        return PyList([I.call(f, list(z.get(k))) for k in range(z.n)])
    return ct.Seq(z.n, lambda k: I.call(f, list(z.get(k))))


def b_id(I, o):
    if isinstance(o, SRef):
        f = z3.Function("id_of", RefSort, z3.IntSort())
        return SInt(f(o.t))
    c = ctx()
    key = ("id", id(o))
    if key not in c.memo:
        x = c.fresh_int("id")
        for (kk, vv) in list(c.memo.items()):
            if isinstance(kk, tuple) and kk and kk[0] == "id":
                c.assume(vv[0].t != x.t)
        c.memo[key] = (x, o)
    return c.memo[key][0]


BUILTINS = {
    "len": b_len,
    "range": ct.make_range,
    "enumerate": b_enumerate,
    "zip": b_zip,
    "min": b_minmax(True),
    "max": b_minmax(False),
    "sum": b_sum,
    "any": b_any,
    "all": b_all,
    "int": b_int,
    "float": b_float,
    "bool": b_bool,
    "str": b_str,
    "repr": b_str,
    "abs": b_abs,
    "round": b_round,
    "tuple": b_tuple,
    "list": lambda I, v=None: ct.as_list(I, v),
    "set": ct.make_set,
    "frozenset": ct.make_set,
    "dict": b_dict,
    "isinstance": b_isinstance,
    "reversed": b_reversed,
    "sorted": lambda I, v, key=None, reverse=False: PyList(ct.sort_items(I, v, key, reverse)),
    "next": b_next,
    "hasattr": b_hasattr,
    "getattr": lambda I, o, nm, *d: d[0] if d and not b_hasattr(I, o, nm) else I.getattr(o, nm),
    "map": b_map,
    "filter": lambda I, f, v: PyList([x for x in I.unpack(v) if I.truth(I.call(f, [x]) if f is not None else x)]),
    "id": b_id,
    "print": lambda I, *a, **k: None,
    "divmod": lambda I, a, b: int_divmod(a, b),
    "iter": lambda I, v: v,
    "type": lambda I, o: o.cls if isinstance(o, Obj) else _bad("type()"),
    "callable": lambda I, o: b_callable(o),
    "pow": lambda I, a, b: a**b,
}


def b_callable(o):
    from .interp import BoundMethod, Builtin, UserFunc

    if isinstance(o, (UserFunc, BoundMethod, Builtin)):
        return True
    if o is None or isinstance(o, (bool, int, float, str, tuple, CArr, LArr, PyList, PyDict)):
        return False
    raise Unsupported("callable")


def _roll(a, shift, axis):
    if not isinstance(a, CArr) or type(shift) is not int or not (axis is None or type(axis) is int) or (axis is None and a.ndim != 1):
        raise Unsupported("numpy.roll")
    return CArr(_np.roll(a.a, shift, axis=axis), a.kind)


def _bad(x):
    raise Unsupported(x)


_BCACHE = {}


def builtin(I, nm):
    from .interp import ExcClass, BUILTIN_EXC

    h = I.ext_models.get("builtins." + nm)
    if h is not None:
        return B(nm, h)
    if nm in _BCACHE:
        return _BCACHE[nm]
    if nm in BUILTINS:
        _BCACHE[nm] = B(nm, BUILTINS[nm])
        return _BCACHE[nm]
    if nm in BUILTIN_EXC:
        return ExcClass(nm)
    if nm in ("property", "staticmethod", "object"):
        return B(nm, lambda I, *a: _bad(nm))
    if nm == "__name__":
        return "module"
    import builtins

    if hasattr(builtins, nm):
        raise Unsupported(f"builtin {nm}")
    ctx().raise_exc("NameError", nm)


# --------------------------------------------------------------------------- numpy
def _arr(I, x):
    if isinstance(x, (CArr, LArr)):
        return x
    return npm.from_nested(ct.as_list(I, x) if isinstance(x, ct.Seq) else x)


def np_array(I, x, dtype=None, copy=True):
    k = I.dtype_kind(dtype)
    if isinstance(x, ct.Seq):
        x = ct.as_list(I, x)
    if is_num(x):
        return npm.cast_elem(x, k) if k else x
    return npm.from_nested(x, k)


def _shape(I, s):
    if isinstance(s, PyList):
        s = tuple(s.items)
    return s


def np_full(I, shape, v, dtype=None):
    k = I.dtype_kind(dtype)
    if k is None:
        k = "f" if is_float(v) else ("b" if isinstance(v, (bool, SBool)) else "i")
    if isinstance(v, (CArr, LArr)):
        raise Unsupported("np.full with array value")
    return npm.full(_shape(I, shape), v, k)


def np_minmax(ismin):
    def f(I, a, axis=None):
        a = _arr(I, a)
        return npm.arr_minmax(a, ismin, axis)

    return f


def np_minimum(ismin):
    def f(I, a, b):
        if isinstance(a, (CArr, LArr)) or isinstance(b, (CArr, LArr)):
            return npm.elementwise(lambda x, y: npm.minmax2(x, y, ismin), a, b)
        return npm.minmax2(a, b, ismin)

    return f


def np_sqrt(I, x):
    return npm.map1(sf_sqrt, x) if isinstance(x, (CArr, LArr)) else sf_sqrt(x)


def np_clip(I, x, lo, hi):
    f = lambda v: npm.minmax2(npm.minmax2(v, lo, False), hi, True)
    return npm.map1(f, x) if isinstance(x, (CArr, LArr)) else f(x)


def _items(seq):
    return seq.items if isinstance(seq, PyList) and seq.items is not None else list(seq) if isinstance(seq, (tuple, list)) else _bad("sequence")


def _sign(x):
    return vite(x > 0, 1.0, vite(x < 0, -1.0, 0.0))


def np_where(I, c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where(mask)")
    if not isinstance(c, (CArr, LArr)):
        return vite(_tb(c), a, b)
    if not isinstance(c, CArr):
        raise Unsupported("np.where")
    at = lambda v, i: v.a[i] if isinstance(v, CArr) and v.a.shape == c.a.shape else v if not isinstance(v, (CArr, LArr)) else _bad("np.where shapes")
    out = c.a.copy()
    for i in _np.ndindex(out.shape):
        m = npm._truth(c.a[i])
        out[i] = vite(m, at(a, i), at(b, i)) if not isinstance(m, bool) else (at(a, i) if m else at(b, i))
    return CArr(out, npm.infer_kind(list(out.flat)))


def np_zeros_like(v):
    def f(I, a, dtype=None):
        k = I.dtype_kind(dtype) or a.kind
        return npm.full(tuple(a.shape), v if k != "f" else float(v), k)

    return f


def np_random_random(I, size=None):
    c = ctx()
    if size is None:
        x = c.fresh_real("rnd")
        c.assume(z3.And(x.t >= 0, x.t < 1))
        return x
    shape = size if isinstance(size, tuple) else (size,)
    if all(isinstance(s, int) for s in shape):
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(shape):
            out[i] = np_random_random(I)
        return CArr(out, "f")
    from .interp import fresh_larr

    a = fresh_larr(c, "rnd", shape, "f")
    vs = [bv("r") for _ in shape]
    t = a.get(tuple(SInt(v) for v in vs)).t
    c.assume(z3.ForAll(vs, z3.And(t >= 0, t < 1)))
    return a


def np_empty(I, shape, dtype=None):
    k = I.dtype_kind(dtype) or "f"
    c = ctx()
    shape = npm.norm_shape(_shape(I, shape))
    if all(isinstance(s, int) for s in shape):
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(shape):
            out[i] = c.fresh_real("empty") if k == "f" else (c.fresh_int("empty") if k == "i" else c.fresh_bool("empty"))
        return CArr(out, k)
    from .interp import fresh_larr

    return fresh_larr(c, "empty", shape, k)


def np_lstsq(I, a, b, rcond=None):
    """least squares of a matrix with two or three columns: what is known of the solution are the normal equations"""
    a, b = _arr(I, a), _arr(I, b)
    if not isinstance(a, CArr) or not isinstance(b, CArr) or a.ndim != 2 or b.ndim != 1 or a.shape[1] > 3:
        raise Unsupported("np.linalg.lstsq")
    c = ctx()
    m, n = a.shape
    x = [c.fresh_real("lstsq") for _ in range(n)]
    res = [sum((a.a[i, k] * x[k] for k in range(1, n)), a.a[i, 0] * x[0]) - b.a[i] for i in range(m)]
    eqs = [sum((a.a[i, j] * res[i] for i in range(1, m)), a.a[0, j] * res[0]) for j in range(n)]
    for e in eqs:
        c.assume(rt(e) == 0)
    c.ghost.setdefault("lstsq", []).append((x, eqs))
    other = lambda k: CArr(_np.array([c.fresh_real("lstsq") for _ in range(k)], dtype=object), "f")
    return CArr(_np.array(x, dtype=object), "f"), other(1), n, other(n)


def np_sum(I, a, axis=None):
    return npm.arr_sum(_arr(I, a), axis)


NP = {
    "array": np_array,
    "asarray": lambda I, x, dtype=None: x if isinstance(x, (CArr, LArr)) and (dtype is None or I.dtype_kind(dtype) == x.kind) else np_array(I, x, dtype),
    "ascontiguousarray": lambda I, x: x,
    "zeros": lambda I, s, dtype=None: npm.full(_shape(I, s), 0.0 if (I.dtype_kind(dtype) or "f") == "f" else (False if I.dtype_kind(dtype) == "b" else 0), I.dtype_kind(dtype) or "f"),
    "ones": lambda I, s, dtype=None: npm.full(_shape(I, s), 1.0 if (I.dtype_kind(dtype) or "f") == "f" else (True if I.dtype_kind(dtype) == "b" else 1), I.dtype_kind(dtype) or "f"),
    "full": np_full,
    "empty": np_empty,
    "zeros_like": np_zeros_like(0),
    "ones_like": np_zeros_like(1),
    "eye": lambda I, n, dtype=None: npm.np_eye(n),
    "identity": lambda I, n: npm.np_eye(n),
    "linspace": lambda I, a, b, n=50: npm.np_linspace(a, b, n),
    "arange": lambda I, *a, dtype=None: npm.np_arange(*a),
    "dot": lambda I, a, b: npm.np_dot(_arr(I, a), _arr(I, b)),
    "matmul": lambda I, a, b: npm.np_dot(a, b),
    "cross": lambda I, a, b: npm.np_cross(_arr(I, a), _arr(I, b)),
    "vstack": lambda I, seq, dtype=None: npm.astype(npm.np_vstack(seq), I.dtype_kind(dtype)) if dtype is not None else npm.np_vstack(seq),
    "roll": lambda I, a, shift, axis=None: _roll(a, shift, axis),
    "concatenate": lambda I, seq, axis=0: npm.np_concat(seq) if axis == 0 else _bad("axis"),
    "hstack": lambda I, seq: npm.np_concat(seq) if all(isinstance(p, (CArr, LArr)) and p.ndim == 1 for p in _items(seq)) else _bad("np.hstack"),
    "allclose": lambda I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False: npm.np_allclose(a, b, rtol, atol, equal_nan),
    "isclose": lambda I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False: npm.np_isclose(a, b, rtol, atol, equal_nan),
    "array_equal": lambda I, a, b: arr_eq(_arr(I, a), _arr(I, b)),
    "cos": lambda I, x: npm.np_cos(x),
    "sin": lambda I, x: npm.np_sin(x),
    "arccos": lambda I, x: npm.np_arccos(x),
    "abs": lambda I, x: npm.np_abs(x),
    "fabs": lambda I, x: npm.np_abs(x),
    "absolute": lambda I, x: npm.np_abs(x),
    "floor": lambda I, x: npm.np_floor(x),
    "ceil": lambda I, x: npm.map1(sf_ceil, x) if isinstance(x, (CArr, LArr)) else sf_ceil(x),
    "round": lambda I, x, d=0, decimals=None: npm.np_round(x, d if decimals is None else decimals),
    "around": lambda I, x, d=0: npm.np_round(x, d),
    "isnan": lambda I, x: npm.np_isnan(x),
    "isfinite": lambda I, x: npm.np_isfinite(x),
    "sqrt": np_sqrt,
    "square": lambda I, x: x * x,
    "sign": lambda I, x: npm.map1(_sign, x) if isinstance(x, (CArr, LArr)) else _sign(x),
    "sum": np_sum,
    "max": np_minmax(False),
    "min": np_minmax(True),
    "amax": np_minmax(False),
    "amin": np_minmax(True),
    "maximum": np_minimum(False),
    "minimum": np_minimum(True),
    "clip": np_clip,
    "all": lambda I, a, axis=None: I.arr_attr(_arr(I, a), "all").fn(I, axis) if not isinstance(a, (bool, SBool)) else a,
    "any": lambda I, a, axis=None: I.arr_attr(_arr(I, a), "any").fn(I, axis) if not isinstance(a, (bool, SBool)) else a,
    "where": np_where,
    "transpose": lambda I, a: npm.transpose(a),
    "reshape": lambda I, a, s: npm.reshape(a, s),
    "mean": lambda I, a, axis=None: I.arr_attr(_arr(I, a), "mean").fn(I, axis),
    "copy": lambda I, a: a.copy(),
}
NP_LINALG = {"norm": lambda I, a, ord=None, axis=None: npm.np_norm(_arr(I, a), ord, axis), "lstsq": np_lstsq}
NP_RANDOM = {"random": np_random_random, "rand": lambda I, *s: np_random_random(I, s if s else None)}
MATH = {
    "sqrt": lambda I, x: sf_sqrt(x),
    "floor": lambda I, x: to_int(sf_floor(x)),
    "ceil": lambda I, x: to_int(sf_ceil(x)),
    "cos": lambda I, x: npm.np_cos(x),
    "sin": lambda I, x: npm.np_sin(x),
    "isnan": lambda I, x: npm.np_isnan(x),
    "fabs": lambda I, x: abs(x),
}


def attr(I, mod, nm):
    from .interp import DType, ExtModule, Opaque, NTClass

    ov = I.prog.ext.get((mod, nm))
    if ov is not None:
        return ov
    if mod in ("numpy", "np"):
        if nm in NP:
            return B(nm, NP[nm])
        if nm == "linalg" or nm == "random":
            return ExtModule("numpy." + nm)
        if nm in ("float64", "float32"):
            return DType("f")
        if nm in ("int32", "int64", "intp", "int_", "uint32", "uint64"):
            return DType("i")
        if nm in ("bool_",):
            return DType("b")
        if nm == "nan":
            return float("nan")
        if nm == "inf":
            return float("inf")
        if nm == "pi":
            return PI()
        if nm == "ndarray":
            return B("ndarray", lambda I, *a: _bad("ndarray"))
        if nm == "newaxis":
            return None
    if mod == "numpy.linalg" and nm in NP_LINALG:
        return B(nm, NP_LINALG[nm])
    if mod == "numpy.random" and nm in NP_RANDOM:
        return B(nm, NP_RANDOM[nm])
    if mod == "math":
        if nm in MATH:
            return B(nm, MATH[nm])
        if nm == "pi":
            return PI()
        if nm == "inf":
            return float("inf")
        if nm == "nan":
            return float("nan")
    if mod == "numba":
        if nm == "prange":
            return B("range", ct.make_range)
        if nm == "typed":
            return TypedNumba()
        return Opaque("numba." + nm)
    if mod == "collections":
        if nm == "defaultdict":
            return B("defaultdict", b_defaultdict)
        if nm == "namedtuple":
            return B("namedtuple", lambda I, name, fields: NTClass(name, [f.strip() for f in fields.replace(",", " ").split()] if isinstance(fields, str) else I.unpack(fields)))
    if mod == "weakref" and nm == "WeakKeyDictionary":
        return B(nm, b_dict)  # entries of living keys
    if mod == "uuid":
        if nm in ("uuid4", "uuid1"):
            return B("uuid4", lambda I: ctx().fresh_str("uuid"))
    if mod == "copy":
        if nm == "deepcopy":
            return B("deepcopy", lambda I, v: deepcopy(v))
        if nm == "copy":
            return B("copy", lambda I, v: shallow(v))
    if mod == "os" and nm == "path":
        return ExtModule("os.path")
    if mod == "os.path" and nm == "join":
        return B("join", os_join)
    if mod in ("os.path", "typing", "logging", "numpy.typing", "collections.abc", "time", "pyvista", "scipy.spatial", "pandas", "dotbimpy", "re", "json", "os", "pathlib", "__future__", "types"):
        return Opaque(f"{mod}.{nm}")
    raise Unsupported(f"external {mod}.{nm}")


class TypedNumba:
    """numba.typed: typed lists behave as lists, typed dictionaries as dictionaries"""

    def _vc_attr(self, I, nm):
        from .interp import Builtin

        class Cls:
            def _vc_attr(self, I, what):
                if what in ("empty_list", "empty"):
                    return Builtin(what, lambda I, *a, **k: PyList([]) if nm == "List" else PyDict({}))
                raise Unsupported(f"numba.typed.{nm}.{what}")

        if nm in ("List", "Dict"):
            return Cls()
        raise Unsupported(f"numba.typed.{nm}")


def os_join(I, *parts):
    if all(isinstance(p, str) for p in parts):
        return os.path.join(*parts)
    raise Unsupported("os.path.join of symbolic strings")


def b_defaultdict(I, factory=None, *a):
    d = b_dict(I, *a)
    if factory is not None:
        d.default = lambda I2: I2.call(factory, [])
    return d


def PI():
    return math.pi


def deepcopy(v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, (CArr, LArr)):
        r = v.copy()
    elif isinstance(v, PyList):
        r = PyList([deepcopy(x, memo) for x in v.items]) if v.items is not None else PyList(None, v.n, v.get)
    elif isinstance(v, PyDict):
        if v.d is None:
            raise Unsupported("deepcopy of symbolic dict")
        r = PyDict({k: deepcopy(x, memo) for k, x in v.d.items()}, v.default)
        r.missing = v.missing
    elif isinstance(v, PySet):
        r = PySet(list(v.items))
    elif isinstance(v, Obj):
        r = Obj(v.cls, {})
        memo[id(v)] = (r, v)
        for k, x in v.f.items():
            r.f[k] = deepcopy(x, memo)
    elif isinstance(v, tuple):
        r = tuple(deepcopy(x, memo) for x in v)
    else:
        r = v
    memo[id(v)] = (r, v)
    return r


def shallow(v):
    from .interp import snap

    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.f))
    if isinstance(v, PyList) and v.items is not None:
        return PyList(list(v.items))
    return snap(v)
