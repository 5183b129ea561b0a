"""Built-in container semantics (list, dict, set, tuple, str, range, zip ...)."""
from __future__ import annotations

import operator

import numpy as _np
import z3

from . import npmodel as npm
from . import tokens
from .values import *  # noqa
from .values import _tb


class Seq:
    """iterable with known length and accessor (range, zip, dict views ...)"""

    def __init__(self, n, get, src=None):
        self.n, self.get, self.src = n, get, src


def iterate(I, v):
    from .interp import NTValue

    if isinstance(v, Seq):
        return v.n, v.get
    if isinstance(v, (tuple, list)):
        return len(v), lambda k: v[k]
    if isinstance(v, NTValue):
        return len(v.vals), lambda k: v.vals[k]
    if isinstance(v, PyList):
        if v.items is not None:
            return len(v.items), lambda k: v.items[k]
        return v.n, v.get
    if isinstance(v, CArr):
        return v.a.shape[0], lambda k: npm.getitem(v, k)
    if isinstance(v, LArr):
        n = v.shape[0]
        if isinstance(n, int):
            return n, lambda k: npm.getitem(v, k)
        return n, lambda k: npm.getitem(v, k)
    if isinstance(v, PyDict):
        s = dict_keys(v)
        return s.n, s.get
    if isinstance(v, PySet):
        if v.items is not None:
            xs = list(v.items)
            return len(xs), lambda k: xs[k]
        if v.n is not None:
            return v.n, v.at
        raise Unsupported("iteration over a symbolic set")
    if isinstance(v, str):
        if tokens.has(v):
            raise Unsupported("characters of a text with unknown parts")
        return len(v), lambda k: v[k]
    h = getattr(v, "_vc_iter", None)
    if h is not None:
        return h(I)
    if v is None or is_num(v):
        ctx().raise_exc("TypeError", "not iterable")
    raise Unsupported(f"iteration over {type(v).__name__}")


def dict_keys(d):
    if d.d is not None:
        ks = list(d.d.keys())
        return Seq(len(ks), lambda k: ks[k], d)
    return Seq(d.n, d.keyat, d)


def dict_values(d):
    if d.d is not None:
        ks = list(d.d.values())
        return Seq(len(ks), lambda k: ks[k])
    return Seq(d.n, lambda k: d.get(d.keyat(k)))


def dict_items(d):
    if d.d is not None:
        ks = list(d.d.items())
        return Seq(len(ks), lambda k: ks[k])
    return Seq(d.n, lambda k: (d.keyat(k), d.get(d.keyat(k))))


def make_range(I, *a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    lo, hi, st = (num(x) for x in (lo, hi, st))
    for x in (lo, hi, st):
        if not is_int(x):
            ctx().raise_exc("TypeError", "range() integer expected")
    if not isinstance(st, int):
        raise Unsupported("symbolic range step")
    lo, hi = (int(x) if not isinstance(x, SInt) else x for x in (lo, hi))
    if isinstance(lo, int) and isinstance(hi, int):
        r = range(lo, hi, st)
        return Seq(len(r), lambda k: r[k] if isinstance(k, int) else lo + k * st)
    if st == 1:
        n = hi - lo
    elif st == -1:
        n = lo - hi
    else:
        raise Unsupported("symbolic range with step")
    if isinstance(n, int):
        n = max(n, 0)
    elif not ctx().entails(n.t >= 0):
        n = mkint(z3.If(n.t > 0, n.t, z3.IntVal(0)))
    return Seq(n, lambda k: lo + k * st)


def as_list(I, v):
    if v is None:
        return PyList([])
    n, g = iterate(I, v)
    if isinstance(n, int):
        return PyList([g(k) for k in range(n)])
    return PyList(None, n, g)


# --------------------------------------------------------------------------- keys
def concrete_key(k):
    if isinstance(k, (tuple,)):
        return all(concrete_key(x) for x in k)
    return not isinstance(k, (SInt, SF, SBool, SStr, SRef)) and type(k).__name__ != "NTValue"


def find_key(I, d, k):
    """matching key of a concrete-structure dict/list of keys, or None"""
    keys = list(d)
    ck = concrete_key(k)
    if isinstance(k, (PyList, PyDict, PySet, CArr, LArr)):
        ctx().raise_exc("TypeError", "unhashable")
    if ck:
        for q in keys:
            if concrete_key(q) and type(q) is type(k) and (q is k or (not _isobj(q) and q == k)):
                return q
            if concrete_key(q) and is_num(q) and is_num(k) and q == k:
                return q
    for q in keys:
        if ck and concrete_key(q):
            if _isobj(q) and type(q) is type(k):
                r = I.equal(q, k)
                if I.truth(r):
                    return q
            continue
        r = key_eq(I, q, k)
        if I.truth(r):
            return q
    return NOKEY


NOKEY = object()


def _isobj(x):
    return isinstance(x, Obj) and "__eq__" in x.cls.methods


def key_eq(I, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = zand(r, _tb(key_eq(I, x, y)))
        return mkbool(r)
    return I.equal(a, b)


def dict_set(I, d, k, v):
    ctx().note_write(d)
    if d.d is not None:
        q = find_key(I, d.d, k)
        if q is NOKEY:
            d.d[k] = v
        else:
            d.d[q] = v
        return
    # symbolic dict: functional update
    has, get, n, keyat = d.has, d.get, d.n, d.keyat
    eq = lambda x: _tb(key_eq(I, x, k))
    present = has(k)
    d.get = lambda x: vite(eq(x), v, get(x))
    d.has = lambda x: mkbool(zor(eq(x), _tb(has(x))))
    if n is not None:
        if isinstance(present, bool):
            inc = 0 if present else 1
        else:
            inc = 0 if I.truth(present) else 1
        if inc:
            d.n = n + 1
            d.keyat = lambda i: k if isinstance(i, int) and isinstance(n, int) and i == n else vite(it(i) == it(n), k, keyat(i))


def dict_get(I, d, k, *dflt):
    if d.d is not None:
        q = find_key(I, d.d, k)
        if q is not NOKEY:
            return d.d[q]
        if dflt:
            return dflt[0]
        if d.missing is not None:
            return d.missing(I, d, k)
        if d.default is not None:
            v = d.default(I)
            dict_set(I, d, k, v)
            return v
        ctx().raise_exc("KeyError", k, bases=("LookupError", "Exception"))
    p = d.has(k)
    if I.truth(p):
        return d.get(k)
    if dflt:
        return dflt[0]
    if d.default is not None:
        v = d.default(I)
        dict_set(I, d, k, v)
        return v
    ctx().raise_exc("KeyError", k, bases=("LookupError", "Exception"))


def contains(I, cont, x):
    if isinstance(cont, Seq) and isinstance(cont.src, PyDict):
        cont = cont.src
    if isinstance(cont, PyDict):
        if cont.d is not None:
            return find_key(I, cont.d, x) is not NOKEY
        return cont.has(x)
    if isinstance(cont, PySet):
        if cont.items is not None:
            return find_key(I, cont.items, x) is not NOKEY
        return cont.has(x)
    if isinstance(cont, str) and isinstance(x, str):
        return x in cont
    if isinstance(cont, SStr):
        return str_contains(I, cont, x)
    if isinstance(cont, str) and isinstance(x, SStr):
        raise Unsupported("symbolic substring")
    n, g = iterate(I, cont)
    if isinstance(n, int):
        for k in range(n):
            y = g(k)
            if y is x:
                return True
            if I.truth(I.equal(y, x)):
                return True
        return False
    i = bv("in")
    e = I.equal(g(SInt(i)), x)
    return mkbool(z3.Exists([i], z3.And(i >= 0, i < it(n), zb(e))))


def str_contains(I, s, x):
    if isinstance(x, str):
        c = ctx()
        h = c.ghost.get("str_contains")
        if h is not None:
            return h(s, x)
        f = z3.Function(f"contains!{x}", StrSort, z3.BoolSort())
        if s.parts is not None and x == s.parts[0]:
            return len(s.parts[1]) > 1 or mkbool(zor(*[_tb(str_contains(I, p, x)) if isinstance(p, SStr) else (x in p) for p in s.parts[1]]))
        return mkbool(f(s.t))
    raise Unsupported("symbolic substring test")


def getitem(I, base, key):
    from .interp import NTValue

    if isinstance(base, PyDict):
        return dict_get(I, base, key)
    if isinstance(base, NTValue):
        base = base.vals
    if tokens.has(base):
        if not isinstance(key, (slice, int)):
            raise Unsupported("symbolic string index")
        return tokens.cut(base, key)
    if isinstance(base, (tuple, list, str)):
        if isinstance(key, slice):
            return base[key]
        key = num(key)
        if isinstance(key, (int, _np.integer)):
            if not -len(base) <= key < len(base):
                ctx().raise_exc("IndexError", bases=("LookupError", "Exception"))
            return base[int(key)]
        if isinstance(base, str):
            raise Unsupported("symbolic string index")
        n = len(base)
        ctx().side("index within sequence", z3.And(it(key) >= -n, it(key) < n))
        t = it(key)
        r = base[-1]
        for k in range(n - 2, -1, -1):
            r = vite(z3.Or(t == k, t == k - n), base[k], r)
        return r
    if isinstance(base, PyList):
        return list_get(I, base, key)
    if isinstance(base, Seq):
        return list_get(I, as_list(I, base), key)
    if isinstance(base, Obj) and "__getitem__" in base.cls.methods:
        return I.call(base.cls.methods["__getitem__"], [base, key])
    if isinstance(base, SRef):
        cls = I.find_class(base.cls)
        if cls is not None and "__getitem__" in cls.methods:
            return I.call(cls.methods["__getitem__"], [base, key])
    h = getattr(base, "_vc_getitem", None)
    if h is not None:
        return h(I, key)
    from .interp import Opaque

    if isinstance(base, Opaque):
        return Opaque(base.name + "[]")
    raise Unsupported(f"subscript of {type(base).__name__}")


def list_index(n, key):
    """normalised index (checked to be in range)"""
    key = num(key)
    if isinstance(key, _np.integer):
        key = int(key)
    if isinstance(n, int) and isinstance(key, int):
        if not -n <= key < n:
            ctx().raise_exc("IndexError", bases=("LookupError", "Exception"))
        return key % n
    c = ctx()
    if not is_int(key):
        raise Unsupported(f"list index {type(key).__name__}")
    t, nt = it(key), it(n)
    if isinstance(key, int):
        if key >= 0:
            c.side("index within list", nt > key)
            return key
        c.side("index within list", nt >= -key)
        return n + key
    c.side("index within list", z3.And(t >= -nt, t < nt))
    if has_bv(t) or c.entails(t >= 0):
        return key
    return mkint(z3.If(t < 0, t + nt, t))


def list_get(I, l, key):
    if isinstance(key, slice):
        n, g = l.to_symbolic()
        if l.items is not None and all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
            return PyList(l.items[key])
        lo, cnt, st = npm.slice_bounds(key, n)
        return PyList(None, cnt, lambda i: g(lo + i * st))
    i = list_index(l.length(), key)
    return l.at(i)


def setitem(I, base, key, v):
    if isinstance(base, PyDict):
        return dict_set(I, base, key, v)
    if isinstance(base, PyList):
        if isinstance(key, slice):
            raise Unsupported("list slice assignment")
        i = list_index(base.length(), key)
        ctx().note_write(base)
        if base.items is not None and isinstance(i, int):
            base.items[i] = v
            return
        n, g = base.to_symbolic()
        base.items = None
        base.n, base.get = n, (lambda j: vite(it(j) == it(i), v, g(j)))
        return
    if isinstance(base, Obj) and "__setitem__" in base.cls.methods:
        return I.call(base.cls.methods["__setitem__"], [base, key, v])
    h = getattr(base, "_vc_setitem", None)
    if h is not None:
        return h(I, key, v)
    if isinstance(base, tuple):
        ctx().raise_exc("TypeError", "tuple does not support item assignment")
    raise Unsupported(f"item assignment on {type(base).__name__}")


def delitem(I, base, key):
    if isinstance(base, PyDict):
        if base.d is not None:
            q = find_key(I, base.d, key)
            if q is NOKEY:
                ctx().raise_exc("KeyError", key, bases=("LookupError", "Exception"))
            ctx().note_write(base)
            del base.d[q]
            return
    if isinstance(base, PyList) and base.items is not None:
        i = list_index(len(base.items), key)
        if isinstance(i, int):
            ctx().note_write(base)
            del base.items[i]
            return
    raise Unsupported("del on symbolic container")


# --------------------------------------------------------------------------- methods
def method(I, o, nm):
    from .interp import Builtin

    fn = None
    if isinstance(o, PyList):
        fn = LIST.get(nm)
    elif isinstance(o, PyDict):
        fn = DICT.get(nm)
    elif isinstance(o, PySet):
        fn = SET.get(nm)
    elif isinstance(o, (str, SStr)):
        fn = STR.get(nm)
        if fn is None and isinstance(o, str) and hasattr(str, nm):
            def fn(I, s, *a, **k):
                if any(isinstance(x, (SStr, SInt, SF)) for x in a):
                    raise Unsupported(f"str.{nm} with symbolic argument")
                r = getattr(s, nm)(*a, **k)
                return PyList(list(r)) if isinstance(r, list) else r
    elif isinstance(o, tuple):
        fn = {"index": l_index, "count": l_count}.get(nm)
    elif isinstance(o, Seq):
        return method(I, as_list(I, o), nm)
    if fn is None:
        return None
    return Builtin(nm, lambda I2, *a, **k: fn(I2, o, *a, **k))


def l_append(I, l, x):
    ctx().note_write(l)
    if l.items is not None:
        l.items.append(x)
        return
    n, g = l.n, l.get
    l.n = n + 1
    l.get = lambda i: x if isinstance(i, int) and isinstance(n, int) and i == n else vite(it(i) == it(n), x, g(i))


def l_extend(I, l, xs):
    n2, g2 = iterate(I, xs)
    ctx().note_write(l)
    if l.items is not None and isinstance(n2, int):
        l.items.extend([g2(k) for k in range(n2)])
        return
    n1, g1 = l.to_symbolic()
    from .interp import _cat

    l.items = None
    l.n = n1 + n2
    l.get = lambda i: _cat(i, n1, g1, g2)


def l_insert(I, l, i, x):
    ctx().note_write(l)
    if l.items is not None and isinstance(i, int):
        l.items.insert(i, x)
        return
    n, g = l.to_symbolic()
    c = ctx()
    if not c.entails(z3.And(it(i) >= 0, it(i) <= it(n))):
        raise Unsupported("insert position")
    l.items = None
    l.n = n + 1
    l.get = lambda j: vite(it(j) < it(i), g(j), vite(it(j) == it(i), x, g(j - 1)))


def l_pop(I, l, i=-1):
    n = l.length()
    if isinstance(n, int) and n == 0:
        ctx().raise_exc("IndexError", bases=("LookupError", "Exception"))
    i = list_index(n, i)
    ctx().note_write(l)
    if l.items is not None and isinstance(i, int):
        return l.items.pop(i)
    n, g = l.to_symbolic()
    v = g(i)
    l.items = None
    l.n = n - 1
    l.get = lambda j: vite(it(j) < it(i), g(j), g(j + 1))
    return v


def l_index(I, l, x, *rest):
    if rest:
        raise Unsupported("list.index with bounds")
    n, g = iterate(I, l)
    if not isinstance(n, int):
        raise Unsupported("index in symbolic list")
    for k in range(n):
        if g(k) is x or I.truth(I.equal(g(k), x)):
            return k
    ctx().raise_exc("ValueError", "not in list")


def l_count(I, l, x):
    n, g = iterate(I, l)
    if not isinstance(n, int):
        raise Unsupported("count in symbolic list")
    return sum(1 for k in range(n) if I.truth(I.equal(g(k), x)))


def l_remove(I, l, x):
    k = l_index(I, l, x)
    ctx().note_write(l)
    l.items.pop(k)


def l_reverse(I, l):
    ctx().note_write(l)
    if l.items is not None:
        l.items.reverse()
        return
    n, g = l.n, l.get
    l.get = lambda i: g(n - 1 - i)


def l_sort(I, l, key=None, reverse=False):
    ctx().note_write(l)
    l.items[:] = sort_items(I, l, key, reverse)


def l_copy(I, l):
    return PyList(list(l.items)) if l.items is not None else PyList(None, l.n, l.get)


def l_clear(I, l):
    ctx().note_write(l)
    l.items = []


def sort_items(I, xs, key=None, reverse=False):
    n, g = iterate(I, xs)
    if not isinstance(n, int):
        raise Unsupported("sorting a symbolic sequence")
    items = [g(k) for k in range(n)]
    keys = [I.call(key, [x]) if key is not None else x for x in items]
    if all(isinstance(k, (str, int, float)) for k in keys) or all(isinstance(k, tuple) and concrete_key(k) for k in keys):
        ix = sorted(range(n), key=lambda i: keys[i], reverse=bool(reverse))
        return [items[i] for i in ix]
    if n > 4:
        raise Unsupported("sorting many symbolic keys")
    import ast as _ast

    out = []
    for i in range(n):
        j = len(out)
        while j > 0:
            a, b = keys[i], keys[out[j - 1]]
            lt = I.compare(_ast.Lt() if not reverse else _ast.Gt(), a, b)
            if I.truth(lt):
                j -= 1
            else:
                break
        out.insert(j, i)
    return [items[i] for i in out]


LIST = dict(append=l_append, extend=l_extend, insert=l_insert, pop=l_pop, index=l_index, count=l_count, remove=l_remove, reverse=l_reverse, sort=l_sort, copy=l_copy, clear=l_clear)


def d_get(I, d, k, default=None):
    return dict_get(I, d, k, default)


def d_pop(I, d, k, *df):
    if d.d is None:
        raise Unsupported("pop from symbolic dict")
    q = find_key(I, d.d, k)
    if q is NOKEY:
        if df:
            return df[0]
        ctx().raise_exc("KeyError", bases=("LookupError", "Exception"))
    ctx().note_write(d)
    return d.d.pop(q)


def d_setdefault(I, d, k, v=None):
    if d.d is None:
        raise Unsupported("setdefault on symbolic dict")
    q = find_key(I, d.d, k)
    if q is NOKEY:
        dict_set(I, d, k, v)
        return v
    return d.d[q]


def d_update(I, d, o):
    s = dict_items(o)
    if not isinstance(s.n, int):
        raise Unsupported("update from symbolic dict")
    for k in range(s.n):
        dict_set(I, d, *s.get(k))


def d_copy(I, d):
    from .interp import snap

    return snap(d)


def d_clear(I, d):
    ctx().note_write(d)
    d.d = {}


DICT = dict(
    get=d_get, pop=d_pop, setdefault=d_setdefault, update=d_update, copy=d_copy, clear=d_clear,
    keys=lambda I, d: dict_keys(d), values=lambda I, d: dict_values(d), items=lambda I, d: dict_items(d),
)


def s_add(I, s, x):
    ctx().note_write(s)
    if s.items is not None:
        if find_key(I, s.items, x) is NOKEY:
            s.items.append(x)
        return
    has = s.has
    s.has = lambda y: mkbool(zor(_tb(key_eq(I, y, x)), _tb(has(y))))
    s.n = s.at = None


def s_update(I, s, *others):
    for xs in others:
        if isinstance(xs, PySet) and xs.items is None:
            has1 = set_has(I, s)
            has2 = xs.has
            ctx().note_write(s)
            s.items = None
            s.has = lambda y, h1=has1, h2=has2: mkbool(zor(_tb(h1(y)), _tb(h2(y))))
            s.n = s.at = None
            continue
        n, g = iterate(I, xs)
        if not isinstance(n, int):
            raise Unsupported("set update from symbolic sequence")
        for k in range(n):
            s_add(I, s, g(k))


def set_has(I, s):
    if s.items is None:
        return s.has
    items = list(s.items)
    return lambda y: mkbool(zor(*[_tb(key_eq(I, x, y)) for x in items]))


def drop(I, s, x):
    """take x out of a symbolic set"""
    ctx().note_write(s)
    has = s.has
    s.has = lambda y: mkbool(zand(_tb(has(y)), znot(_tb(key_eq(I, y, x)))))
    s.n = s.at = None


def s_discard(I, s, x):
    if s.items is None:
        return drop(I, s, x)
    q = find_key(I, s.items, x)
    if q is not NOKEY:
        ctx().note_write(s)
        s.items = [y for y in s.items if y is not q]


def s_remove(I, s, x):
    if s.items is None:
        if not I.truth(s.has(x)):
            ctx().raise_exc("KeyError", bases=("LookupError", "Exception"))
        return drop(I, s, x)
    q = find_key(I, s.items, x)
    if q is NOKEY:
        ctx().raise_exc("KeyError", bases=("LookupError", "Exception"))
    ctx().note_write(s)
    s.items = [y for y in s.items if y is not q]


def s_pop(I, s):
    if s.items is None:
        raise Unsupported("pop from symbolic set")
    if not s.items:
        ctx().raise_exc("KeyError", bases=("LookupError", "Exception"))
    ctx().note_write(s)
    return s.items.pop(0)  # an arbitrary element; the model takes the oldest


def make_set(I, xs=None):
    s = PySet([])
    if xs is not None:
        if isinstance(xs, PySet):
            from .interp import snap

            return snap(xs)
        n, g = iterate(I, xs)
        if not isinstance(n, int):
            i = bv("m")
            return PySet(None, lambda y: mkbool(z3.Exists([i], z3.And(i >= 0, i < it(n), zb(key_eq(I, g(SInt(i)), y))))))
        for k in range(n):
            s_add(I, s, g(k))
    return s


def set_op(I, op, a, b):
    if not isinstance(a, PySet) or not isinstance(b, PySet):
        raise Unsupported("set operator on mixed types")
    if op is operator.or_:
        r = make_set(I, a)
        s_update(I, r, b)
        return r
    if a.items is not None and b.items is not None:
        if op is operator.and_:
            return PySet([x for x in a.items if find_key(I, b.items, x) is not NOKEY])
        if op is operator.sub:
            return PySet([x for x in a.items if find_key(I, b.items, x) is NOKEY])
    ha, hb = set_has(I, a), set_has(I, b)
    if op is operator.and_:
        return PySet(None, lambda y: mkbool(zand(_tb(ha(y)), _tb(hb(y)))))
    if op is operator.sub:
        return PySet(None, lambda y: mkbool(zand(_tb(ha(y)), znot(_tb(hb(y))))))
    raise Unsupported("set operator")


def set_cmp(I, f, a, b):
    if a.items is None or b.items is None:
        raise Unsupported("symbolic set comparison")
    sub = lambda x, y: all(find_key(I, y.items, k) is not NOKEY for k in x.items)
    la, lb = len(a.items), len(b.items)
    if f is operator.le:
        return sub(a, b)
    if f is operator.ge:
        return sub(b, a)
    if f is operator.lt:
        return la < lb and sub(a, b)
    return lb < la and sub(b, a)


SET = dict(
    add=s_add, update=s_update, discard=s_discard, remove=s_remove, pop=s_pop,
    union=lambda I, s, o: set_op(I, operator.or_, s, make_set(I, o)),
    intersection=lambda I, s, o: set_op(I, operator.and_, s, make_set(I, o)),
    difference=lambda I, s, o: set_op(I, operator.sub, s, make_set(I, o)),
    issubset=lambda I, s, o: set_cmp(I, operator.le, s, make_set(I, o)),
    copy=lambda I, s: make_set(I, s),
)


def equal(I, a, b):
    if type(a) is not type(b):
        if isinstance(a, Seq) or isinstance(b, Seq):
            return equal(I, as_list(I, a), as_list(I, b))
        return False
    if isinstance(a, PyList):
        n1, n2 = a.length(), b.length()
        if isinstance(n1, int) and isinstance(n2, int):
            if n1 != n2:
                return False
            r = True
            for k in range(n1):
                r = zand(r, _tb(I.truth_term(I.equal(a.at(k), b.at(k)))))
            return mkbool(r)
        raise Unsupported("equality of symbolic lists")
    if isinstance(a, PyDict) and a.d is not None and b.d is not None:
        if len(a.d) != len(b.d):
            return False
        r = True
        for k, v in a.d.items():
            q = find_key(I, b.d, k)
            if q is NOKEY:
                return False
            r = zand(r, _tb(I.truth_term(I.equal(v, b.d[q]))))
        return mkbool(r)
    if isinstance(a, PySet) and a.items is not None and b.items is not None:
        return len(a.items) == len(b.items) and all(find_key(I, b.items, x) is not NOKEY for x in a.items)
    raise Unsupported("container equality")


def tuple_less(I, f, a, b):
    """lexicographic comparison"""
    strict = f in (operator.lt, operator.gt)
    g = operator.lt if f in (operator.lt, operator.le) else operator.gt
    n = min(len(a), len(b))
    if len(a) == len(b):
        r = not strict
    else:
        r = g(len(a), len(b))
    for k in range(n - 1, -1, -1):
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str)):
                raise Unsupported("ordering of symbolic strings")
            lt, eq = g(x, y), x == y
        else:
            lt, eq = g(num(x), num(y)), I.equal(x, y)
        r = zor(_tb(lt), zand(_tb(eq), _tb(r)))
        r = mkbool(r) if not isinstance(r, bool) else r
    return r


# --------------------------------------------------------------------------- str
def st_join(I, sep, xs):
    n, g = iterate(I, xs)
    if not isinstance(n, int):
        raise Unsupported("join of a symbolic sequence")
    parts = [g(k) for k in range(n)]
    if all(isinstance(p, str) for p in parts):
        return sep.join(parts)
    if n == 1:
        return parts[0]
    flat = []
    for p in parts:
        if isinstance(p, SStr) and p.parts is not None and p.parts[0] == sep:
            flat += p.parts[1]
        elif isinstance(p, str):
            flat += p.split(sep)
        else:
            flat.append(p)
    fn = z3.Function(f"join!{len(flat)}!{sep}", *([StrSort] * len(flat)), StrSort)
    return SStr(fn(*[strt(p) for p in flat]), (sep, flat))


def st_split(I, s, sep=None, maxsplit=-1):
    if isinstance(s, str):
        return PyList(s.split(sep, maxsplit))
    if s.parts is not None and s.parts[0] == sep and maxsplit == -1:
        return PyList(list(s.parts[1]))
    if s.parts is None:
        p = str_contains(I, s, sep)
        if not I.truth(p):
            return PyList([s])
    raise Unsupported("split of a symbolic string")


def st_format(I, s, *a, **k):
    raise Unsupported("str.format")


STR = dict(join=st_join, split=st_split, format=st_format)
