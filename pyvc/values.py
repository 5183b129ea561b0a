"""Value domain of the symbolic executor.

Python values that carry no unknowns stay ordinary Python values.  Unknown
numbers are wrappers around z3 terms:

* SInt  - mathematical integer
* SF    - float modelled as a mathematical real, plus a NaN and a +inf flag
* SBool - proposition

Arrays: CArr (concrete shape; numpy object array underneath, so views alias as
in numpy) and LArr (symbolic shape; closure from indices to elements).
Containers: PyList, PyDict, PySet (concrete or symbolic length).
"""
from __future__ import annotations

from fractions import Fraction
import itertools
import math

import numpy as _np
import z3


class Unsupported(Exception):
    """The construct is outside the verified subset (never a violation)."""


class PathEnd(Exception):
    """This symbolic path ends here (assumption false or loop step done)."""


_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise RuntimeError("no active context")
    return c


def set_ctx(c):
    _CTX[0] = c


# --------------------------------------------------------------------------- z3 helpers
def z3real(x):
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, _np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x.numerator) / z3.RealVal(x.denominator) if x.denominator != 1 else z3.RealVal(x.numerator)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan/inf as plain real")
        f = Fraction(repr(x))
        return z3.RealVal(str(f))
    raise Unsupported(f"z3real({type(x)})")


def zor(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.t
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def zand(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.t
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def znot(x):
    if isinstance(x, SBool):
        x = x.t
    if isinstance(x, (bool, _np.bool_)):
        return not x
    return z3.Not(x)


def zb(x):
    """Python bool / SBool / z3 Bool -> z3 Bool."""
    if isinstance(x, SBool):
        x = x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    return x


def mkbool(t):
    """z3 Bool or python bool -> python bool (if constant) or SBool."""
    if isinstance(t, (bool, _np.bool_)):
        return bool(t)
    if isinstance(t, SBool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        raise Unsupported("truth value of a symbolic proposition needed outside the interpreter")

    def __and__(self, o):
        return mkbool(zand(self, _tb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(zor(self, _tb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(znot(self))

    def __repr__(self):
        return f"SBool({self.t})"

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SBool)):
            return mkbool(z3.simplify(zb(self) == zb(o)))
        if isinstance(o, (int, SInt, float, SF)):
            return num(self) == o
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r


def _tb(o):
    if isinstance(o, SBool):
        return o.t
    if isinstance(o, (bool, _np.bool_)):
        return bool(o)
    if z3.is_expr(o):
        return o
    raise Unsupported(f"bool op with {type(o)}")


def num(x):
    """coerce bool-like to int-like"""
    if isinstance(x, SBool):
        return SInt(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, (bool, _np.bool_)):
        return int(x)
    return x


def is_int(x):
    return isinstance(x, (SInt, int, _np.integer)) and not isinstance(x, (bool, _np.bool_))


def is_float(x):
    return isinstance(x, (SF, float, _np.floating, Fraction))


def is_num(x):
    return is_int(x) or is_float(x) or isinstance(x, (bool, _np.bool_, SBool))


def is_symbolic(x):
    return isinstance(x, (SInt, SF, SBool))


def it(x):
    """-> z3 Int term"""
    x = num(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    raise Unsupported(f"int term from {type(x)}")


def rt(x):
    """-> z3 Real term (finite part)"""
    x = num(x)
    if isinstance(x, SF):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    return z3real(x)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic int")

    def __index__(self):
        raise Unsupported("symbolic int used as a concrete index")

    def _bin(self, o, fi, fr):
        o = num(o)
        if is_int(o):
            return mkint(fi(self.t, it(o)))
        if is_float(o):
            return fr(SF(z3.ToReal(self.t)), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a, lambda a, b: b * a)

    def __truediv__(self, o):
        return SF(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return as_sf(o) / SF(z3.ToReal(self.t))

    def __floordiv__(self, o):
        return int_divmod(self, o)[0]

    def __mod__(self, o):
        return int_divmod(self, o)[1]

    def __rmod__(self, o):
        return int_divmod(o, self)[1]

    def __rfloordiv__(self, o):
        return int_divmod(o, self)[0]

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("int pow")

    def _cmp(self, o, fi, fr):
        o = num(o)
        if is_int(o):
            return mkbool(z3.simplify(fi(self.t, it(o))))
        if is_float(o):
            return fr(SF(z3.ToReal(self.t)), o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if not is_num(o):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r


def int_divmod(a, b):
    """Python floor division / modulo of integers."""
    a, b = num(a), num(b)
    if not is_int(a) or not is_int(b):
        raise Unsupported("divmod on non-int")
    if isinstance(b, (int, _np.integer)):
        b = int(b)
        if b == 0:
            raise Unsupported("division by zero")
        if not isinstance(a, SInt):
            return divmod(int(a), b)
        if b > 0:
            return mkint(a.t / z3.IntVal(b)), mkint(a.t % z3.IntVal(b))
        raise Unsupported("negative modulus")
    # symbolic modulus: must be provably positive
    c = ctx()
    bt, at = it(b), it(a)
    if not c.entails(bt > 0):
        raise Unsupported("symbolic modulus not provably positive")
    # small quotient cases make the reasoning linear
    if c.entails(z3.And(at >= 0, at < bt)):
        return 0, mkint(at)
    if c.entails(z3.And(at >= 0, at < 2 * bt)):
        return mkint(z3.If(at < bt, z3.IntVal(0), z3.IntVal(1))), mkint(z3.If(at < bt, at, at - bt))
    if c.entails(z3.And(at >= -bt, at < bt)):
        return mkint(z3.If(at < 0, z3.IntVal(-1), z3.IntVal(0))), mkint(z3.If(at < 0, at + bt, at))
    key = ("divmod", at.get_id(), bt.get_id())
    if key in c.memo:
        return c.memo[key][0]
    q, r = c.fresh_int("q"), c.fresh_int("r")
    c.assume(z3.And(at == q.t * bt + r.t, r.t >= 0, r.t < bt))
    c.memo[key] = ((q, r), at, bt)
    return q, r


# --------------------------------------------------------------------------- floats
def as_sf(x):
    x = num(x)
    if isinstance(x, SF):
        return x
    if isinstance(x, SInt):
        return SF(z3.ToReal(x.t))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isnan(x):
            return SF(z3.RealVal(0), nan=True)
        if math.isinf(x):
            if x < 0:
                raise Unsupported("-inf")
            return SF(z3.RealVal(0), inf=True)
    return SF(z3real(x))


_HAS_BV = {}
_FREE_BV = {}


class SF:
    """float: value t if neither nan nor inf"""

    __slots__ = ("t", "nan", "inf")

    def __init__(self, t, nan=False, inf=False):
        self.t = t
        self.nan = nan
        self.inf = inf

    def __repr__(self):
        f = ""
        if self.nan is not False:
            f += f",nan={self.nan}"
        if self.inf is not False:
            f += f",inf={self.inf}"
        return f"SF({self.t}{f})"

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic float")

    @property
    def plain(self):
        return self.nan is False and self.inf is False

    def _ar(self, o, f):
        if isinstance(o, (CArr, LArr)):
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        o = as_sf(o)
        return f(self, o)

    def __add__(self, o):
        return self._ar(o, lambda a, b: SF(_add(a.t, b.t), zor(a.nan, b.nan), zor(a.inf, b.inf)))

    def __radd__(self, o):
        return self._ar(o, lambda a, b: SF(_add(b.t, a.t), zor(a.nan, b.nan), zor(a.inf, b.inf)))

    def __sub__(self, o):
        return self._ar(o, _sub)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: _sub(b, a))

    def __mul__(self, o):
        return self._ar(o, _mul)

    def __rmul__(self, o):
        return self._ar(o, lambda a, b: _mul(b, a))

    def __truediv__(self, o):
        return self._ar(o, _div)

    def __rtruediv__(self, o):
        return self._ar(o, lambda a, b: _div(b, a))

    def __floordiv__(self, o):
        return self._ar(o, lambda a, b: sf_floor(_div(a, b)))

    def __rfloordiv__(self, o):
        return self._ar(o, lambda a, b: sf_floor(_div(b, a)))

    def __mod__(self, o):
        return self._ar(o, lambda a, b: a - sf_floor(_div(a, b)) * b)

    def __rmod__(self, o):
        return self._ar(o, lambda a, b: b - sf_floor(_div(b, a)) * a)

    def __neg__(self):
        if self.inf is not False:
            raise Unsupported("-inf")
        return SF(-self.t, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SF(z3.If(self.t >= 0, self.t, -self.t), self.nan, self.inf)

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == int(o) and 0 <= o <= 4:
            r = SF(z3.RealVal(1), self.nan)
            for _ in range(int(o)):
                r = self * r
            return r
        if isinstance(o, (int, float)) and o == -1:
            return 1.0 / self
        if isinstance(o, (int, float)) and o == 0.5:
            return sf_sqrt(self)
        raise Unsupported(f"float pow {o}")

    def _cmp(self, o, fin, infcase):
        if isinstance(o, (CArr, LArr)):
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        b = as_sf(o)
        a = self
        ok = zand(znot(a.nan), znot(b.nan))
        if a.inf is False and b.inf is False:
            core = fin(a.t, b.t)
        else:
            core = infcase(a, b)
        return mkbool(z3.simplify(zb(zand(ok, core))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: zand(znot(a.inf), zor(b.inf, a.t < b.t)))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: zor(b.inf, zand(znot(a.inf), a.t <= b.t)))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: zand(znot(b.inf), zor(a.inf, a.t > b.t)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: zor(a.inf, zand(znot(b.inf), a.t >= b.t)))

    def __eq__(self, o):
        if not is_num(o):
            return False if not isinstance(o, (CArr, LArr)) else NotImplemented
        return self._cmp(
            o,
            lambda a, b: a == b,
            lambda a, b: zor(zand(a.inf, b.inf), zand(znot(a.inf), znot(b.inf), a.t == b.t)),
        )

    def __ne__(self, o):
        r = self == o
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r


def _is_zero(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == 0


def _is_one(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == t.denominator_as_long()


def _add(a, b):
    if _is_zero(a):
        return b
    if _is_zero(b):
        return a
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return z3.simplify(a + b)
    return a + b


def _sub(a, b):
    if b.inf is not False:
        raise Unsupported("x - inf")
    if _is_zero(b.t):
        return SF(a.t, zor(a.nan, b.nan), a.inf)
    t = a.t - b.t
    if z3.is_rational_value(a.t) and z3.is_rational_value(b.t):
        t = z3.simplify(t)
    elif a.t.eq(b.t):
        t = z3.RealVal(0)
    return SF(t, zor(a.nan, b.nan), a.inf)


def _mul(a, b):
    if a.inf is not False or b.inf is not False:
        raise Unsupported("inf * x")
    nan = zor(a.nan, b.nan)
    if _is_zero(a.t) or _is_zero(b.t):
        return SF(z3.RealVal(0), nan)
    if _is_one(a.t):
        return SF(b.t, nan)
    if _is_one(b.t):
        return SF(a.t, nan)
    t = a.t * b.t
    if z3.is_rational_value(a.t) and z3.is_rational_value(b.t):
        t = z3.simplify(t)
    return SF(t, nan)


def _div(a, b):
    if a.inf is not False or b.inf is not False:
        raise Unsupported("inf / x")
    nan = zor(a.nan, b.nan)
    if z3.is_rational_value(b.t):
        if _is_zero(b.t):
            c = ctx()
            c.side("division by literal zero", a.t == 0)
            return SF(z3.RealVal(0), True)
        if z3.is_rational_value(a.t):
            return SF(z3.simplify(a.t / b.t), nan)
        return SF(a.t / b.t, nan)
    c = ctx()
    if has_bv(b.t):
        # quotient under a quantifier: z3 division, zero denominator gives NaN
        return SF(a.t / b.t, zor(nan, b.t == 0))
    if has_bv(a.t):
        # only the reciprocal does not depend on the quantified variable
        one = z3.RealVal(1)
        if c.entails(b.t != 0, timeout=c.div_timeout):
            return SF(a.t * c.quot(one, b.t), nan)
        return SF(a.t * c.quot(one, b.t, guard=b.t != 0), zor(nan, b.t == 0))
    if c.entails(b.t != 0, timeout=c.div_timeout):
        return SF(c.quot(a.t, b.t), nan)
    # x/0 is nan in our model; +-inf (x != 0) must not occur
    c.side("division does not produce an infinity", z3.Implies(b.t == 0, a.t == 0))
    return SF(c.quot(a.t, b.t, guard=b.t != 0), zor(nan, b.t == 0))


def has_bv(t):
    """does the term mention a bound (quantified) variable of ours?"""
    k = t.get_id()
    r = _HAS_BV.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    stack, seen, res = [t], set(), False
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name().startswith("bv!"):
            res = True
            break
        if z3.is_var(u):
            res = True
            break
        if z3.is_quantifier(u):
            stack.append(u.body())
        else:
            stack.extend(u.children())
    _HAS_BV[k] = (t, res)
    return res


def free_bv(t):
    """does the term mention one of our quantified variables outside its quantifier? (probes of arrays are plain unknowns)"""
    k = t.get_id()
    r = _FREE_BV.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    stack, seen, res = [t], set(), False
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = u.decl().name()
            if nm.startswith("bv!") and not (nm == "bv!probe" or nm[3:4] == "p" and nm[4:].isdigit()):
                res = True
                break
        if z3.is_quantifier(u):
            stack.append(u.body())
        else:
            stack.extend(u.children())
    _FREE_BV[k] = (t, res)
    return res


SQRT = z3.Function("SQRT", z3.RealSort(), z3.RealSort())


def sf_sqrt(x, nonneg=False):
    x = num(x)
    if not is_symbolic(x):
        return math.sqrt(x) if x >= 0 else float("nan")
    x = as_sf(x)
    if x.inf is not False:
        raise Unsupported("sqrt(inf)")
    t = z3.simplify(x.t)
    c = ctx()
    if z3.is_rational_value(t):
        v = Fraction(t.numerator_as_long(), t.denominator_as_long())
        rn, rd = math.isqrt(abs(v.numerator)), math.isqrt(v.denominator)
        if v >= 0 and rn * rn == v.numerator and rd * rd == v.denominator:
            return SF(z3real(Fraction(rn, rd)), x.nan)
    if has_bv(t):
        s = SQRT(t)
        c.need_sqrt_axiom = True
        return SF(s, zor(x.nan, False if nonneg else t < 0))
    key = ("sqrt", t.get_id())
    if key in c.memo:
        s = c.memo[key][0]
    else:
        s = c.fresh_real("sqrt").t
        if nonneg:
            c.assume(z3.And(s >= 0, s * s == t))
        else:
            c.assume(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)))
        if getattr(c, "link_sqrt", False):
            c.assume(SQRT(t) == s)
        c.memo[key] = (s, t)
    return SF(s, zor(x.nan, False if nonneg else z3.simplify(t < 0)))


def sf_floor(x):
    if is_int(num(x)):
        return x
    if not is_symbolic(x):
        return float(math.floor(x))
    if x.inf is not False:
        raise Unsupported("floor(inf)")
    return SF(z3.ToReal(z3.ToInt(x.t)), x.nan)


def sf_ceil(x):
    if is_int(num(x)):
        return x
    if not is_symbolic(x):
        return float(math.ceil(x))
    return SF(-z3.ToReal(z3.ToInt(-x.t)), x.nan)


def to_int(x):
    """Python int(x)"""
    x = num(x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, SF):
        c = ctx()
        if x.nan is not False and not c.entails(z3.Not(zb(x.nan))):
            raise Unsupported("int(nan) possible")
        if x.inf is not False:
            raise Unsupported("int(inf) possible")
        t = z3.simplify(x.t)
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return mkint(t.arg(0))
        fl = z3.ToInt(x.t)
        if c.entails(x.t >= 0):
            return mkint(fl)
        return mkint(z3.If(x.t >= 0, fl, -z3.ToInt(-x.t)))
    return int(x)


def sf_round(x, dec=0):
    x = num(x)
    if is_int(x):
        return x
    if not is_symbolic(x):
        return float(_np.round(x, dec))
    c = ctx()
    t = z3.simplify(x.t)
    key = ("round", dec, t.get_id())
    if key in c.memo:
        y = c.memo[key][0]
    else:
        if has_bv(t):
            raise Unsupported("round under quantifier")
        k = c.fresh_int("rnd")
        sc = z3.RealVal(10**dec)
        c.assume(z3.And(z3.ToReal(k.t) - t * sc <= z3.Q(1, 2), t * sc - z3.ToReal(k.t) <= z3.Q(1, 2)))
        y = z3.ToReal(k.t) / sc
        # rounding keeps the order
        for o in [v for q, v in c.memo.items() if q[:2] == key[:2]][:12]:
            c.assume(z3.And(z3.Implies(t <= o[1], y <= o[0]), z3.Implies(o[1] <= t, o[0] <= y)))
        c.memo[key] = (y, t)
    return SF(y, x.nan, x.inf)


# --------------------------------------------------------------------------- strings
StrSort = z3.DeclareSort("Str")
_LITS = {}


def str_const(s):
    if s not in _LITS:
        _LITS[s] = z3.Const("lit!" + s, StrSort)
    return _LITS[s]


def lit_axioms():
    if len(_LITS) > 1:
        return [z3.Distinct(*_LITS.values())]
    return []


class SStr:
    """Symbolic string. parts: None for an atom, else ('join', sep, [parts])."""

    __slots__ = ("t", "parts")

    def __init__(self, t, parts=None):
        self.t = t
        self.parts = parts

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"SStr({self.t})"

    def __bool__(self):
        raise Unsupported("truth of symbolic string")

    def __eq__(self, o):
        if isinstance(o, str):
            if self.parts is not None:
                # as below: the parts do not contain the separator
                b = o.split(self.parts[0])
                if len(b) != len(self.parts[1]):
                    return False
                r = True
                for x, y in zip(self.parts[1], b):
                    r = zand(r, _tb(x == y))
                return mkbool(r)
            return mkbool(z3.simplify(self.t == str_const(o)))
        if isinstance(o, SStr):
            if self.parts is not None and o.parts is not None and self.parts[0] == o.parts[0]:
                # join(sep, xs) with sep-free xs is injective
                a, b = self.parts[1], o.parts[1]
                if len(a) != len(b):
                    return False
                r = True
                for x, y in zip(a, b):
                    r = zand(r, _tb(x == y))
                return mkbool(r)
            return mkbool(z3.simplify(self.t == o.t))
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r


def strt(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, str):
        return str_const(x)
    raise Unsupported(f"string term from {type(x)}")


# --------------------------------------------------------------------------- ite on values
def vite(c, a, b):
    """if c then a else b, on values (c: python bool / SBool / z3)."""
    if isinstance(c, SBool):
        c = c.t
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b):
        a_, b_ = a, b
        if isinstance(a, (bool, _np.bool_, SBool)) and isinstance(b, (bool, _np.bool_, SBool)):
            ta, tb_ = zb(a), zb(b)
            return mkbool(z3.simplify(z3.If(c, ta, tb_)))
        a_, b_ = num(a), num(b)
        if is_int(a_) and is_int(b_):
            return mkint(z3.If(c, it(a_), it(b_)))
        x, y = as_sf(a_), as_sf(b_)
        return SF(_zite(c, x.t, y.t), _fite(c, x.nan, y.nan), _fite(c, x.inf, y.inf))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr(z3.If(c, strt(a), strt(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, CArr) and isinstance(b, CArr) and a.a.shape == b.a.shape:
        out = _np.empty(a.a.shape, dtype=object)
        for i in _np.ndindex(a.a.shape):
            out[i] = vite(c, a.a[i], b.a[i])
        return CArr(out, a.kind if a.kind == b.kind else "f")
    if isinstance(a, SRef) and isinstance(b, SRef) and a.cls == b.cls:
        return SRef(z3.If(c, a.t, b.t), a.cls)
    if isinstance(a, (Obj, SRef)) and isinstance(b, (Obj, SRef)) and clsname(a) == clsname(b):
        return SRef(z3.If(c, reft(a), reft(b)), clsname(a))
    if a is None and b is None:
        return None
    if isinstance(a, LArr) and isinstance(b, LArr) and len(a.shape) == len(b.shape):
        ga, gb = a.snapshot(), b.snapshot()
        return LArr(
            tuple(vite(c, x, y) for x, y in zip(a.shape, b.shape)),
            lambda idx: vite(c, ga(idx), gb(idx)),
            a.kind,
        )
    if hasattr(a, "_vc_merge") and type(a) is type(b):
        return a._vc_merge(c, b)
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


def _zite(c, a, b):
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def _fite(c, a, b):
    if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b):
        return a
    return z3.simplify(z3.If(c, zb(a), zb(b)))


# --------------------------------------------------------------------------- references
RefSort = z3.DeclareSort("Ref")


def clsname(o):
    return o.cls if isinstance(o, SRef) else o.cls.name


def reft(o):
    """term standing for the identity of an object"""
    return o.t if isinstance(o, SRef) else z3.Const(f"obj!{o.oid}", RefSort)


class SRef:
    """Unknown object of a repository class; fields live in ctx().heap."""

    __slots__ = ("t", "cls")

    def __init__(self, t, cls):
        self.t = t
        self.cls = cls

    def __repr__(self):
        return f"SRef({self.t}:{self.cls})"

    def __hash__(self):
        return hash(self.t)


# --------------------------------------------------------------------------- arrays
def veq(a, b):
    """equality of two scalar values as proposition (SF: both finite equal, or both nan)"""
    if is_num(a) and is_num(b):
        if is_float(a) or is_float(b):
            x, y = as_sf(a), as_sf(b)
            if x.plain and y.plain:
                return mkbool(z3.simplify(x.t == y.t))
            return mkbool(
                z3.simplify(
                    zb(
                        zand(
                            zb(x.nan) == zb(y.nan),
                            zb(x.inf) == zb(y.inf),
                            zor(x.nan, x.inf, x.t == y.t),
                        )
                    )
                )
            )
        if isinstance(a, (bool, SBool, _np.bool_)) and isinstance(b, (bool, SBool, _np.bool_)):
            return mkbool(z3.simplify(zb(a) == zb(b)))
        return mkbool(z3.simplify(it(a) == it(b)))
    if isinstance(a, SRef) and isinstance(b, SRef):
        return mkbool(z3.simplify(a.t == b.t))
    if isinstance(a, (SRef, Obj)) and isinstance(b, (SRef, Obj)) and (isinstance(a, SRef) or isinstance(b, SRef)):
        return mkbool(z3.simplify(reft(a) == reft(b)))
    if isinstance(a, (SStr, str)) or isinstance(b, (SStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            if a != b and not (a.isascii() and b.isascii()):
                from . import tokens

                if tokens.has(a) or tokens.has(b):
                    return tokens.equal(a, b)
            return a == b
        return a == b if isinstance(a, SStr) else b == a
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = zand(r, _tb(veq(x, y)))
        return mkbool(r)
    if isinstance(a, (CArr, LArr)) and isinstance(b, (CArr, LArr)):
        return arr_eq(a, b)
    if a is None or b is None:
        return a is b
    if isinstance(a, SRef) or isinstance(b, SRef):
        return False
    if type(a) is type(b) and not isinstance(a, (PyList, PyDict, PySet)):
        return a is b if not isinstance(a, (str, int, float, bool)) else a == b
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


def bv(name="i"):
    c = ctx()
    c.bvn += 1
    return z3.Int(f"bv!{name}{c.bvn}")


def qforall(vars_, body):
    body = zb(body)
    if z3.is_true(body):
        return True
    return z3.ForAll(vars_, body)


def arr_eq(a, b):
    if isinstance(a, CArr) and isinstance(b, CArr):
        if a.a.shape != b.a.shape:
            return False
        r = True
        for i in _np.ndindex(a.a.shape):
            r = zand(r, _tb(veq(a.a[i], b.a[i])))
        return mkbool(r)
    A, B = to_larr(a), to_larr(b)
    if len(A.shape) != len(B.shape):
        return False
    conds = [zb(dim_eq(x, y)) for x, y in zip(A.shape, B.shape)]
    ga, gb = A.snapshot(), B.snapshot()
    idx, vs, rng = [], [], []
    for d in A.shape:
        v = bv("e")
        vs.append(v)
        idx.append(SInt(v))
        rng += [v >= 0, v < it(d)]
    idx = tuple(idx)
    body = z3.Implies(z3.And(*rng), zb(veq(ga(idx), gb(idx))))
    return mkbool(zand(*conds, z3.ForAll(vs, body)))


def dim_eq(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return mkbool(z3.simplify(it(x) == it(y)))


class CArr:
    """Array with a concrete shape. `a` is a numpy object array (aliasing views)."""

    __slots__ = ("a", "kind", "ro")

    def __init__(self, a, kind="f", ro=False):
        if not isinstance(a, _np.ndarray) or a.dtype != object:
            b = _np.empty(_np.shape(a), dtype=object)
            src = _np.asarray(a, dtype=object)
            b[...] = src
            a = b
        self.a = a
        self.kind = kind
        self.ro = ro

    def __repr__(self):
        return f"CArr{self.a.shape}({self.a.tolist()})"

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    def elem(self, idx):
        """element at concrete or symbolic index tuple"""
        idx = tuple(idx)
        if all(isinstance(i, (int, _np.integer)) for i in idx):
            return self.a[idx]
        return _csel(self.a, idx)

    def copy(self):
        return CArr(self.a.copy(), self.kind)

    def __getitem__(self, k):
        from . import npmodel

        return npmodel.getitem(self, k)

    def __bool__(self):
        raise Unsupported("truth of array")

    __hash__ = object.__hash__


def _csel(a, idx):
    """select with symbolic indices from an object array -> ite chain"""
    i, rest = idx[0], idx[1:]
    if isinstance(i, (int, _np.integer)):
        sub = a[i]
        return _csel(sub, rest) if rest else sub
    n = a.shape[0]
    if n == 0:
        raise Unsupported("symbolic index into empty array")
    t = it(i)
    res = _csel(a[n - 1], rest) if rest else a[n - 1]
    for k in range(n - 2, -1, -1):
        v = _csel(a[k], rest) if rest else a[k]
        res = vite(t == k, v, res)
    return res


class LArr:
    """Array with (partly) symbolic shape: closure index-tuple -> element.

    A basic view keeps a reference to its base and maps indices, so reads see
    later writes of the base; `snapshot` freezes the current content.
    """

    __slots__ = ("shape", "_get", "kind", "base", "imap", "ro", "tag")

    def __init__(self, shape, get, kind="f", base=None, imap=None):
        self.shape = tuple(shape)
        self._get = get
        self.kind = kind
        self.base = base
        self.imap = imap
        self.ro = False
        self.tag = None

    def __repr__(self):
        return f"LArr(shape={self.shape})"

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        idx = tuple(idx)
        if self.base is not None:
            return self.base.elem(self.imap(idx))
        return self._get(idx)

    elem = get

    def snapshot(self):
        if self.base is not None:
            im = self.imap
            if isinstance(self.base, CArr):
                a = self.base.a.copy()
                b = CArr(a, self.base.kind)
                return lambda idx: b.elem(im(tuple(idx)))
            g = self.base.snapshot()
            return lambda idx: g(im(tuple(idx)))
        g = self._get
        return g

    def write(self, pred, val):
        """element idx gets val(idx) where pred(idx) holds"""
        if self.base is not None:
            raise Unsupported("write through a view of a symbolic-shape array")
        ctx().note_write(self)
        g = self._get
        self._get = lambda idx: vite(pred(idx), val(idx), g(idx))

    def replace(self, get):
        if self.base is not None:
            raise Unsupported("replace through view")
        ctx().note_write(self)
        self._get = get

    def copy(self):
        return LArr(self.shape, self.snapshot(), self.kind)

    def __getitem__(self, k):
        from . import npmodel

        return npmodel.getitem(self, k)

    def __bool__(self):
        raise Unsupported("truth of array")

    __hash__ = object.__hash__


def to_larr(a):
    if isinstance(a, LArr):
        return a
    if isinstance(a, CArr):
        b = CArr(a.a, a.kind)
        return LArr(a.a.shape, lambda idx: b.elem(idx), a.kind)
    raise Unsupported(f"array expected, got {type(a).__name__}")


def _install_arith():
    import operator

    def mk(op):
        def f(self, o):
            from . import npmodel

            return npmodel.elementwise(op, self, o)

        def rf(self, o):
            from . import npmodel

            return npmodel.elementwise(op, o, self)

        return f, rf

    for nm, op in [
        ("add", operator.add),
        ("sub", operator.sub),
        ("mul", operator.mul),
        ("truediv", operator.truediv),
        ("floordiv", operator.floordiv),
        ("mod", operator.mod),
        ("and", operator.and_),
        ("or", operator.or_),
        ("pow", operator.pow),
    ]:
        f, rf = mk(op)
        for cls in (CArr, LArr):
            setattr(cls, f"__{nm}__", f)
            setattr(cls, f"__r{nm}__", rf)
    for nm, op in [
        ("lt", operator.lt),
        ("le", operator.le),
        ("gt", operator.gt),
        ("ge", operator.ge),
        ("eq", operator.eq),
        ("ne", operator.ne),
    ]:
        f, _ = mk(op)
        for cls in (CArr, LArr):
            setattr(cls, f"__{nm}__", f)

    def neg(self):
        from . import npmodel

        return npmodel.map1(lambda x: -x, self)

    def absf(self):
        from . import npmodel

        return npmodel.map1(abs, self)

    for cls in (CArr, LArr):
        cls.__neg__ = neg
        cls.__abs__ = absf
        cls.__invert__ = lambda self: __import__("pyvc.npmodel", fromlist=["map1"]).map1(
            lambda x: (not x) if isinstance(x, bool) else ~x, self
        )
        cls.__hash__ = object.__hash__


_install_arith()


# --------------------------------------------------------------------------- containers
class PyList:
    """list: concrete (`items`) or symbolic (`n`, `get`)."""

    __slots__ = ("items", "n", "get", "meta")

    def __init__(self, items=None, n=None, get=None):
        self.items = items
        self.n = n
        self.get = get
        self.meta = None

    @property
    def symbolic(self):
        return self.items is None

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def to_symbolic(self):
        if self.items is not None:
            its = list(self.items)
            n = len(its)

            def get(i):
                if isinstance(i, (int, _np.integer)):
                    return its[i]
                if not its:
                    raise Unsupported("symbolic index into an empty list")
                r = its[-1]
                for k in range(n - 2, -1, -1):
                    r = vite(it(i) == k, its[k], r)
                return r

            return n, get
        return self.n, self.get

    def at(self, i):
        if self.items is not None and isinstance(i, (int, _np.integer)):
            return self.items[int(i)]
        n, g = self.to_symbolic()
        return g(i)

    def become(self, n, get):
        ctx().note_write(self)
        self.items = None
        self.n = n
        self.get = get

    def __repr__(self):
        return f"PyList({self.items if self.items is not None else self.n})"

    __hash__ = object.__hash__


class PyDict:
    """dict with insertion order: concrete `d` or symbolic.

    Symbolic: keys is (n, keyat) enumeration of distinct keys, has(k) -> prop,
    get(k) -> value.
    """

    __slots__ = ("d", "n", "keyat", "has", "get", "default", "meta", "owner", "missing")

    def __init__(self, d=None, default=None):
        self.d = d if d is not None else {}
        self.n = None
        self.keyat = None
        self.has = None
        self.get = None
        self.default = default
        self.missing = None  # __missing__ of a subclass
        self.meta = None
        self.owner = None

    @property
    def symbolic(self):
        return self.d is None

    def length(self):
        return len(self.d) if self.d is not None else self.n

    def __repr__(self):
        return f"PyDict({self.d if self.d is not None else 'sym'})"

    __hash__ = object.__hash__


class PySet:
    """set: concrete `s` (python set/dict-ordered list) or symbolic membership `has`."""

    __slots__ = ("items", "has", "meta", "n", "at")

    def __init__(self, items=None, has=None):
        self.items = items if items is not None or has is not None else []
        self.has = has
        self.meta = None
        self.n = None
        self.at = None

    @property
    def symbolic(self):
        return self.items is None

    def __repr__(self):
        return f"PySet({self.items if self.items is not None else 'sym'})"

    __hash__ = object.__hash__


class Obj:
    """Instance of a repository class created during the symbolic run (or given as input)."""

    _ids = itertools.count()

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.f = fields if fields is not None else {}
        self.oid = next(Obj._ids)

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}#{self.oid}>"
