"""Function contracts: specification operators and the proof tasks built from them.

A contract's `pre`/`post` are written once over an operator object S; they are
evaluated symbolically (proof) and on concrete values of the real code (replay and
run-time checking).
"""
from __future__ import annotations

import importlib
import math
import random
import time

import numpy as np
import z3

from . import npmodel as npm
from . import solver
from .engine import Ctx, PyRaise, Run
from .interp import EnvView, LoopSpec, Program, fresh_larr, snap
from .values import *  # noqa
from .values import _tb


# --------------------------------------------------------------------------- symbolic operators
class SymOps:
    sym = True

    def __init__(self, c=None):
        self._c = c
        self.inputs = []  # (name, value) in creation order

    @property
    def c(self) -> Ctx:
        return self._c or ctx()

    # input constructors
    def int(self, nm, lo=None, hi=None):
        x = self.c.fresh_int(nm)
        if lo is not None:
            self.c.assume(x.t >= it(lo))
        if hi is not None:
            self.c.assume(x.t <= it(hi))
        self.inputs.append(x)
        return x

    def real(self, nm, lo=None, hi=None):
        x = self.c.fresh_real(nm)
        if lo is not None:
            self.c.assume(x.t >= rt(lo))
        if hi is not None:
            self.c.assume(x.t <= rt(hi))
        self.inputs.append(x)
        return x

    def bool(self, nm):
        return self.c.fresh_bool(nm)

    def str(self, nm):
        return self.c.fresh_str(nm)

    def ref(self, cls, nm):
        return self.c.fresh_ref(cls, nm)

    def arr(self, nm, shape, kind="f"):
        if not isinstance(shape, tuple):
            shape = (shape,)
        if all(isinstance(s, int) for s in shape):
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(shape):
                x = self.c.fresh_real(nm) if kind == "f" else (self.c.fresh_int(nm) if kind == "i" else self.c.fresh_bool(nm))
                if kind != "b":
                    self.inputs.append(x)
                out[i] = x
            return CArr(out, kind)
        return fresh_larr(self.c, nm, shape, kind)

    def vec(self, nm):
        return self.arr(nm, (3,))

    def points(self, nm, n):
        return self.arr(nm, (n, 3))

    def const(self, x):
        x = np.asarray(x)
        kind = {"f": "f", "i": "i", "b": "b"}[x.dtype.kind]
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = x[i].item()
        return CArr(out, kind)

    def list(self, items):
        return PyList(list(items))

    def symlist(self, n, get):
        return PyList(None, n, get)

    def case(self, cond):
        """case split (in lemmas)"""
        return self.c.decide(_tb(cond))

    # logic
    def And(self, *xs):
        return mkbool(zand(*[_tb(x) for x in xs]))

    def Or(self, *xs):
        return mkbool(zor(*[_tb(x) for x in xs]))

    def Not(self, x):
        return mkbool(znot(_tb(x)))

    def Implies(self, a, b):
        a = _tb(a)
        if a is False:
            return True
        if callable(b):
            b = b()
        b = _tb(b)
        if a is True:
            return mkbool(b)
        if b is True:
            return True
        return mkbool(z3.Implies(a, zb(b)))

    def Iff(self, a, b):
        a, b = _tb(a), _tb(b)
        return mkbool(z3.simplify(zb(a) == zb(b)))

    def forall(self, n, f, lo=0):
        if isinstance(n, int) and isinstance(lo, int):
            return self.And(*[f(i) for i in range(lo, n)])
        v = bv("q")
        b = f(SInt(v))
        b = _tb(b)
        if b is True:
            return True
        return mkbool(z3.ForAll([v], z3.Implies(z3.And(v >= it(lo), v < it(n)), zb(b))))

    def exists(self, n, f, lo=0):
        if isinstance(n, int) and isinstance(lo, int):
            return self.Or(*[f(i) for i in range(lo, n)])
        v = bv("q")
        b = _tb(f(SInt(v)))
        if b is False:
            return False
        return mkbool(z3.Exists([v], z3.And(v >= it(lo), v < it(n), zb(b))))

    # numbers
    def eq(self, a, b, tol=None):
        if isinstance(a, (CArr, LArr)) and isinstance(b, (CArr, LArr)):
            return arr_eq(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
        return veq(a, b)

    def le(self, a, b, tol=None):
        return as_sf(a) <= b if is_float(a) or is_float(b) else num(a) <= num(b)

    def lt(self, a, b, tol=None):
        return as_sf(a) < b if is_float(a) or is_float(b) else num(a) < num(b)

    def ge(self, a, b, tol=None):
        return self.le(b, a)

    def gt(self, a, b, tol=None):
        return self.lt(b, a)

    def ite(self, c, a, b):
        return vite(_tb(c), a() if callable(a) else a, b() if callable(b) else b)

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = vite(_tb(self.lt(x, r)), x, r)
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = vite(_tb(self.lt(r, x)), x, r)
        return r

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return sf_sqrt(x)

    def norm(self, v):
        """length of a vector"""
        return sf_sqrt(vn2(v), nonneg=True)

    def isnan(self, x):
        x = num(x)
        return mkbool(x.nan) if isinstance(x, SF) else (isinstance(x, float) and math.isnan(x))

    def finite(self, x):
        if isinstance(x, CArr):
            return self.And(*[self.finite(v) for v in x.a.flat])
        if isinstance(x, LArr):
            return npm.arr_all(npm.map1(lambda v: self.finite(v), x))
        if isinstance(x, SF):
            return mkbool(znot(zor(x.nan, x.inf)))
        if isinstance(x, float):
            return math.isfinite(x)
        return True

    def isinf(self, x):
        return mkbool(x.inf) if isinstance(x, SF) else (isinstance(x, float) and math.isinf(x))

    def len(self, x):
        from .externals import b_len

        return b_len(self.I, x)

    def at(self, l, i):
        if isinstance(l, PyList):
            if isinstance(i, int) and i < 0:
                i = l.length() + i
            return l.at(i)
        if isinstance(l, (tuple, list)):
            if isinstance(i, (int, np.integer)):
                return l[i]
            return PyList(list(l)).at(i)
        return npm.getitem(l, i)

    def el(self, a, *idx):
        """array element"""
        if isinstance(a, PyList):
            v = a.at(idx[0])
            return v if len(idx) == 1 else self.el(v, *idx[1:])
        if isinstance(a, tuple):
            v = a[idx[0]]
            return v if len(idx) == 1 else self.el(v, *idx[1:])
        return a.elem(tuple(idx))

    def sum(self, n, f, key=None):
        if isinstance(n, int):
            r = 0
            for k in range(n):
                r = r + f(k)
            return r
        if key is not None:
            return self.c.psum(key, f, "f" if is_float(f(SInt(bv("k")))) else "i")(n)
        return self.c.psum_of(f, n, "f" if is_float(f(SInt(bv("k")))) else "i")

    def psum(self, key, f, kind="f"):
        def at(n):
            return self.sum(n, f) if isinstance(n, int) and n <= 64 else self.c.psum(key, f, kind)(n)

        return at

    def real_of(self, x):
        return as_sf(x)

    def is_real(self, x):
        return is_float(x)

    def shape(self, a):
        return tuple(a.shape)

    def is_none(self, x):
        return x is None

    def truth(self, x):
        return x


# --------------------------------------------------------------------------- concrete operators
class ConcOps:
    sym = False
    ATOL = 1e-7
    RTOL = 1e-7

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        if not a:
            return True
        return bool(b() if callable(b) else b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def forall(self, n, f, lo=0):
        return all(bool(f(i)) for i in range(int(lo), int(n)))

    def exists(self, n, f, lo=0):
        return any(bool(f(i)) for i in range(int(lo), int(n)))

    def eq(self, a, b, tol=None):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y, tol) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            if a.size == 0:
                return True
            if a.dtype.kind in "fc" or b.dtype.kind in "fc":
                t = self.ATOL if tol is None else tol
                with np.errstate(all="ignore"):
                    ok = (np.abs(a - b) <= t * (1 + np.maximum(np.abs(a), np.abs(b)))) | (a == b) | (np.isnan(a) & np.isnan(b))
                return bool(np.all(ok))
            return bool(np.all(a == b))
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return a == b
            t = self.ATOL if tol is None else tol
            return abs(a - b) <= t * (1 + max(abs(a), abs(b)))
        r = a == b
        return bool(r)

    def le(self, a, b, tol=None):
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            t = self.ATOL if tol is None else tol
            if math.isinf(b) and b > 0:
                return not math.isnan(a)
            if math.isinf(a) and a < 0:
                return not math.isnan(b)
            if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
                return a <= b
            return a <= b + t * (1 + max(abs(a), abs(b)))
        return a <= b

    def lt(self, a, b, tol=None):
        """strict in the proof; in floating point only required up to rounding"""
        return self.le(a, b, tol)

    def ge(self, a, b, tol=None):
        return self.le(b, a, tol)

    def gt(self, a, b, tol=None):
        return self.lt(b, a, tol)

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def min(self, *xs):
        return min(xs)

    def max(self, *xs):
        return max(xs)

    def abs(self, x):
        return abs(x)

    def norm(self, v):
        return math.sqrt(vn2(v))

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def isnan(self, x):
        return isinstance(x, (float, np.floating)) and math.isnan(x)

    def isinf(self, x):
        return isinstance(x, (float, np.floating)) and math.isinf(x)

    def finite(self, x):
        return bool(np.all(np.isfinite(x)))

    def len(self, x):
        return len(x)

    def at(self, l, i):
        return l[i]

    def el(self, a, *idx):
        for i in idx:
            a = a[i]
        return a

    def sum(self, n, f, key=None):
        r = 0
        for k in range(int(n)):
            r = r + f(k)
        return r

    def psum(self, key, f, kind="f"):
        return lambda n: self.sum(n, f)

    def real_of(self, x):
        return float(x)

    def is_real(self, x):
        return isinstance(x, (float, np.floating))

    def shape(self, a):
        return tuple(a.shape)

    def is_none(self, x):
        return x is None

    def truth(self, x):
        return bool(x)


# --------------------------------------------------------------------------- vector helpers (both modes)
def vec(a):
    return (a[0], a[1], a[2])


def row(S, a, i):
    return (S.el(a, i, 0), S.el(a, i, 1), S.el(a, i, 2))


def vsub(u, v):
    return tuple(a - b for a, b in zip(u, v))


def vadd(u, v):
    return tuple(a + b for a, b in zip(u, v))


def vscale(s, u):
    return tuple(s * a for a in u)


def vdot(u, v):
    r = u[0] * v[0]
    for a, b in zip(u[1:], v[1:]):
        r = r + a * b
    return r


def vcross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def vn2(u):
    return vdot(u, u)


def det3(a, b, c):
    return vdot(a, vcross(b, c))


# --------------------------------------------------------------------------- contracts
REGISTRY = {}


class Scaled:
    """lemma a == b, to be used multiplied by t"""

    def __init__(self, a, b, t):
        self.a, self.b, self.t = a, b, t


class From:
    """lemma proved from the given facts only (each of them is proved first)"""

    def __init__(self, goal, *facts, general=None):
        self.goal, self.facts, self.general = goal, facts, general


def Instance(f, *terms):
    """lemma f(terms) = (goal, facts...), proved for variables in place of the terms"""
    return From(*f(*terms), general=f(*[SF(z3.FreshReal("gen")) for _ in terms]))


def use_lemma(S, nm, p):
    c = S.c
    if isinstance(p, Scaled):
        # from a == b follows t*a == t*b
        if c.lemma(f"lemma: {nm}", S.eq(p.a, p.b), count=False):
            c.assume(_tb(S.eq(p.t * p.a, p.t * p.b)))
    elif isinstance(p, From):
        fs = [_tb(f) for f in p.facts]
        if all([c.lemma(f"lemma: {nm} (premise {i})", f, count=False) for i, f in enumerate(fs)]):
            goal = _tb(p.goal)
            if p.general is None:
                c.lemma(f"lemma: {nm}", goal, using=fs)
            else:
                c.lemma(f"lemma: {nm}", goal, using=[_tb(f) for f in p.general[1:]], general=_tb(p.general[0]))
    else:
        c.lemma(f"lemma: {nm}", _tb(p))


class Contract:
    """
    name      unique name
    fq        "module:function" the contract is on (or None for a lemma over several)
    props     properties it serves
    inputs    S -> dict of arguments, sizes symbolic                     (unbounded proof)
    bounded   [(label, S -> dict)]  concrete sizes, symbolic contents     (bounded stand-in)
    pre/post  specification
    raises    (S, args, excname) -> proposition under which raising is allowed
    gen       rng, i -> dict of concrete arguments for the real function
    """

    def __init__(self, name, fq=None, props=(), inputs=None, bounded=(), pre=None, post=None, raises=None, gen=None, ngen=60,
                 modifies=(), uses=(), invoke=None, real=None, order=None, timeout=10.0, wall=60.0, max_paths=3000, setup=None,
                 prefer=None, to_real=None, note="", loops=None, mode=None, bounded_wall=40.0, proof=True, tol=None, functions=(), known=None, frame=True, lemmas=None, abstracts=()):
        self.name, self.fq, self.props = name, fq, list(props)
        self.inputs, self.bounded = inputs, list(bounded)
        self.pre, self.post, self.raises = pre, post, raises
        self.gen, self.ngen = gen, ngen
        self.modifies, self.uses = set(modifies), list(uses)
        self.invoke, self.real = invoke, real
        self.timeout, self.wall, self.max_paths = timeout, wall, max_paths
        self.setup = setup
        self.to_real = to_real
        self.note = note
        self.loops = loops
        self.bounded_wall = bounded_wall
        self.functions = list(functions) or ([fq] if fq else [])
        self.tol = tol
        self.frame = frame
        self.lemmas = lemmas
        self.abstracts = list(abstracts)  # functions replaced by unknown functions in `setup` (a tuple: at least one of them has to be called)
        self.known = known or []
        REGISTRY[name] = self

    def has_proof(self):
        return self.inputs is not None


LOOPS = {}  # fq -> (nloops, {ordinal: LoopSpec kwargs})
def abstract(I, fq, fn):
    """replace calls of fq by fn(arguments in order, defaults filled in)"""
    def app(I_, f, loc):
        g = f.node.args
        return fn(*[loc[x.arg] for x in g.posonlyargs + g.args + g.kwonlyargs])

    I.contracts[fq] = app


def expect(cond, what="call outside the abstraction"):
    if not cond:
        raise Unsupported(what)


MODULAR = {}  # fq -> fn(S, I, func, args) -> result  (assume-guarantee summary)


def loops(fq, n, **specs):
    """register loop invariants: loops('m:f', 2, l0=dict(inv=...), l1=dict(...))"""
    d = {"n": n}
    for k, v in specs.items():
        d[int(k[1:])] = v
    LOOPS[fq] = d


def build_interp(contract, unbounded, repo=None):
    prog = Program(repo) if repo else Program()
    I = prog.interp
    if unbounded:
        for fq, d in LOOPS.items():
            I.loop_specs[fq] = {k: (v if k == "n" else LoopSpec(**v)) for k, v in d.items()}
        for fq in contract.uses:
            ct = MODULAR[fq]

            def app(I_, f, loc, ct=ct):
                S = SymOps(ctx())
                S.I = I_
                return ct(S, I_, f, loc)

            I.contracts[fq] = app
    return prog


def make_task(contract, inputs, unbounded, repo=None):
    prog = build_interp(contract, unbounded, repo)
    I = prog.interp
    state = {"ends": 0, "vac_ok": False, "vac_checked": 0, "S": None}

    def body(c):
        S = SymOps(c)
        S.I = I
        for d in I.loop_specs.values():
            for k, v in d.items():
                if k != "n":
                    v.S = S
        state["S"] = S
        I.steps = 0
        if contract.setup:
            contract.setup(S, I)
        a = inputs(S)
        c.spec_mode = True
        for nm, p in contract.pre(S, a) if contract.pre else []:
            c.assume(_tb(p) if not isinstance(p, bool) else p)
        c.spec_mode = False
        c.inputs_ = a
        a = dict(a)
        old = {k: snap(v) for k, v in a.items()}
        c.old_ = old
        c.writes = []
        c.ops = S
        try:
            if contract.invoke:
                r = contract.invoke(S, I, a)
            else:
                r = I.call_inline(prog.find(contract.fq), [], a)
        except PyRaise as e:
            c.spec_mode = True
            ok = contract.raises(S, old, e.name) if contract.raises else False
            c.spec_mode = False
            c.prove(f"{e.name} raised only when the contract allows it", ok, kind="exc")
            vac(c)
            return
        if contract.lemmas:
            for nm, p in contract.lemmas(S, a, r, old):
                use_lemma(S, nm, p)
        c.spec_mode = True
        posts = list(contract.post(S, a, r, old))
        if contract.frame:
            for k in a:
                if k in contract.modifies:
                    continue
                v = a[k]
                if isinstance(v, (CArr, LArr)) and any(_same_root(w, v) for w in c.writes):
                    posts.append((f"frame: argument {k} is not modified", arr_eq(v, old[k])))
        c.spec_mode = False
        for nm, p in posts:
            c.prove(nm, p, kind="post")
        vac(c)

    def vac(c):
        """the assumptions along at least one complete path must be satisfiable"""
        state["ends"] += 1
        if state["vac_ok"] or state["vac_checked"] >= 6:
            return
        state["vac_checked"] += 1
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*c.all_hyps())
        if s.check() != z3.unsat:
            state["vac_ok"] = True

    return body, prog, state


def _same_root(w, v):
    from .interp import root_id

    try:
        return root_id(w) == root_id(v)
    except Exception:
        return False


def prove(contract, inputs, label, unbounded, timeout, wall, max_paths, repo=None):
    body, prog, state = make_task(contract, inputs, unbounded, repo)
    r = Run(f"{contract.name}{label}", body, timeout=timeout, max_paths=max_paths, wall=wall)
    if not unbounded:
        r.full_entails = False
    r.go()
    missing = lambda prog: any(not {fq} & prog.interp.used_contracts if isinstance(fq, str) else not set(fq) & prog.interp.used_contracts for fq in contract.abstracts)
    if r.failures and missing(prog):
        # perhaps only the paths explored before the failure do without them: look at the other paths
        body2, prog2, _ = make_task(contract, inputs, unbounded, repo)
        Run(f"{contract.name}{label}", body2, timeout=timeout, max_paths=max_paths, wall=min(wall, 30), solve=False).go()
        prog.interp.used_contracts |= prog2.interp.used_contracts
    if r.failures and missing(prog):
        # the code no longer goes through the functions the contract abstracts from: the abstraction says nothing
        r.unsupported.append(("functions abstracted by the contract are not called", ""))
        r.failures = []
    r.state = state
    r.prog = prog
    r.vacuous = state["ends"] == 0 or not state["vac_ok"]
    return r


# --------------------------------------------------------------------------- counter-models to inputs
def concretise(v, m, lim=64):
    def ev(t):
        return m.eval(t, model_completion=True)

    def real(t):
        x = ev(t)
        if z3.is_rational_value(x):
            return float(x.numerator_as_long()) / float(x.denominator_as_long())
        if z3.is_algebraic_value(x):
            return float(x.approx(20).as_fraction())
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        raise Unsupported("model value")

    if isinstance(v, SInt):
        return ev(v.t).as_long()
    if isinstance(v, SBool):
        return z3.is_true(ev(v.t))
    if isinstance(v, SF):
        if v.nan is not False and z3.is_true(ev(zb(v.nan))):
            return float("nan")
        if v.inf is not False and z3.is_true(ev(zb(v.inf))):
            return float("inf")
        return real(v.t)
    if isinstance(v, CArr):
        dt = {"f": float, "i": np.int32, "b": bool, "o": object}[v.kind]
        out = np.zeros(v.a.shape, dtype=dt)
        for i in np.ndindex(v.a.shape):
            out[i] = concretise(v.a[i], m)
        return out
    if isinstance(v, LArr):
        sh = tuple(concretise(s, m) if not isinstance(s, int) else s for s in v.shape)
        if any(s > lim or s < 0 for s in sh):
            raise Unsupported("model too large")
        dt = {"f": float, "i": np.int32, "b": bool, "o": object}[v.kind]
        out = np.zeros(sh, dtype=dt)
        for i in np.ndindex(sh):
            out[i] = concretise(v.get(tuple(int(k) for k in i)), m)
        return out
    if isinstance(v, PyList):
        n = concretise(v.length(), m) if not isinstance(v.length(), int) else v.length()
        if n > lim:
            raise Unsupported("model too large")
        return [concretise(v.at(i), m) for i in range(n)]
    if isinstance(v, tuple):
        return tuple(concretise(x, m) for x in v)
    if isinstance(v, PyDict) and v.d is not None:
        return {k: concretise(x, m) for k, x in v.d.items()}
    if isinstance(v, PySet) and v.items is not None:
        return set(concretise(x, m) for x in v.items)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Unsupported(f"concretise {type(v).__name__}")


def input_symbols(a):
    ints, reals = [], []

    def rec(v):
        if isinstance(v, SInt):
            ints.append(v.t)
        elif isinstance(v, SF):
            reals.append(v.t)
        elif isinstance(v, CArr):
            for x in v.a.flat:
                rec(x)
        elif isinstance(v, LArr):
            for s in v.shape:
                rec(s)
        elif isinstance(v, (tuple, list)):
            for x in v:
                rec(x)
        elif isinstance(v, PyList):
            rec(v.length())
            if v.items is not None:
                for x in v.items:
                    rec(x)
        elif isinstance(v, Obj):
            for x in v.f.values():
                rec(x)

    for v in a.values():
        rec(v)
    return ints, reals


def counter_inputs(o, c, tries=4):
    """concrete inputs from a refuted obligation, preferring small values"""
    a = getattr(c, "old_", None)
    if a is None:
        return
    ints, reals = input_symbols(a)
    neg = z3.Not(o.goal)
    cands = []
    for lim in ((4, 4), (6, 100), None):
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*o.hyps)
        s.add(neg)
        if lim is not None:
            for i in ints:
                s.add(i >= -lim[0], i <= lim[0])
            for x in reals:
                s.add(x >= -lim[1], x <= lim[1])
        if s.check() == z3.sat:
            try:
                cands.append({k: concretise(v, s.model()) for k, v in a.items()})
            except Unsupported:
                pass
    if o.model is not None:
        try:
            cands.append({k: concretise(v, o.model) for k, v in a.items()})
        except Unsupported:
            pass
    yield from cands


# --------------------------------------------------------------------------- running the real code
_CONC = ConcOps()


def real_function(fq):
    mod, qual = fq.split(":")
    o = importlib.import_module(mod)
    for p in qual.split("."):
        o = getattr(o, p)
    return o


def clone(v):
    import copy

    if isinstance(v, np.ndarray):
        return v.copy()
    try:
        return copy.deepcopy(v)
    except Exception:
        return v


def run_real(contract, args):
    """-> (ok, failures list, pre_ok)"""
    S = ConcOps()
    if contract.tol is not None:
        S.ATOL = contract.tol
    if contract.pre:
        for nm, p in contract.pre(S, args):
            if not p:
                return True, [], False
    old = {k: clone(v) for k, v in args.items()}
    a = dict(args)
    try:
        if contract.real:
            r = contract.real(a)
        else:
            r = real_function(contract.fq)(**a)
    except Exception as e:  # noqa
        ok = contract.raises(S, old, type(e).__name__) if contract.raises else False
        if ok:
            return True, [], True
        return False, [f"{type(e).__name__} raised: {str(e)[:200]}"], True
    bad = []
    try:
        for nm, p in contract.post(S, a, r, old):
            if not p:
                bad.append(nm)
    except Unsupported:
        raise
    except Exception as e:  # malformed result (e.g. wrong shape): the postcondition does not hold
        bad.append(f"postcondition cannot be evaluated on the result ({type(e).__name__}: {str(e)[:150]})")
    if contract.frame:
        for k in a:
            if k not in contract.modifies and isinstance(a[k], np.ndarray):
                if not (a[k].shape == old[k].shape and np.array_equal(a[k], old[k], equal_nan=a[k].dtype.kind == "f")):
                    bad.append(f"frame: argument {k} is not modified")
    return not bad, bad, True
