"""Symbolic objects of the repository's classes: dictionaries of any size, references."""
from __future__ import annotations

import itertools

import z3

from .values import *  # noqa
from .values import RefSort, StrSort, _tb

_n = itertools.count()


def cls(I, fq):
    return I.prog.find(fq)


def symdict(S, nm, valcls):
    """ordered dict str -> object of any size"""
    c = S.c
    n = c.fresh_int(f"{nm}_n")
    c.assume(n.t >= 0)
    u = next(_n)
    keyat = z3.Function(f"{nm}_key!{u}", z3.IntSort(), StrSort)
    idx = z3.Function(f"{nm}_idx!{u}", StrSort, z3.IntSort())
    has = z3.Function(f"{nm}_has!{u}", StrSort, z3.BoolSort())
    get = z3.Function(f"{nm}_get!{u}", StrSort, RefSort)
    i = z3.Int(f"i!{u}")
    k = z3.Const(f"k!{u}", StrSort)
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.t), z3.And(has(keyat(i)), idx(keyat(i)) == i)), patterns=[keyat(i)]))
    c.assume(z3.ForAll([k], z3.Implies(has(k), z3.And(idx(k) >= 0, idx(k) < n.t, keyat(idx(k)) == k)), patterns=[has(k)]))
    d = PyDict({})
    d.d = None
    d.n = n
    d.keyat = lambda j: SStr(keyat(it(j)))
    d.has = lambda x: mkbool(has(strt(x)))
    d.get = lambda x: SRef(get(strt(x)), valcls)
    d.meta = dict(idx=lambda x: SInt(idx(strt(x))))
    return d


def heap_field(S, clsname, field, kind, valcls=None):
    """field of all objects of a class as an unknown function of the reference"""
    u = next(_n)
    if kind == "str":
        f = z3.Function(f"{clsname}.{field}!{u}", RefSort, StrSort)
        S.c.heap[(clsname, field)] = lambda t: SStr(f(t))
    elif kind == "ref":
        f = z3.Function(f"{clsname}.{field}!{u}", RefSort, RefSort)
        S.c.heap[(clsname, field)] = lambda t: SRef(f(t), valcls)
    elif kind == "int":
        f = z3.Function(f"{clsname}.{field}!{u}", RefSort, z3.IntSort())
        S.c.heap[(clsname, field)] = lambda t: SInt(f(t))
    elif kind == "real":
        f = z3.Function(f"{clsname}.{field}!{u}", RefSort, z3.RealSort())
        S.c.heap[(clsname, field)] = lambda t: SF(f(t))
    elif kind == "bool":
        f = z3.Function(f"{clsname}.{field}!{u}", RefSort, z3.BoolSort())
        S.c.heap[(clsname, field)] = lambda t: mkbool(f(t))
    else:
        raise Unsupported(kind)
    return S.c.heap[(clsname, field)]


def forall_ref(f):
    t = z3.Const(f"r!{next(_n)}", RefSort)
    return mkbool(z3.ForAll([t], zb(_tb(f(t)))))


def distinct(S, xs):
    out = []
    for i in range(len(xs)):
        for j in range(i):
            out.append(S.Not(S.eq(xs[i], xs[j])))
    return S.And(*out)


def obj(I, fq, **fields):
    """instance with the given fields only; asking for another one is outside the model"""
    o = Obj(cls(I, fq), fields)
    o.partial = True
    return o
