"""Polynomial normal forms: a small decision aid for algebraic obligations.

Goals `A == B` (over the reals) are proved by clearing denominators and reducing the
difference to the zero polynomial modulo the defining equations s*s == e of square
roots.  Goals `A <= B` are proved by linear arithmetic over monomials from the
hypotheses in normal form.  Everything it claims is re-checkable: it only uses the
hypotheses it is given, exact rational arithmetic and (for the linear step) z3.
"""
from __future__ import annotations

from fractions import Fraction

import z3

LIMIT = 6000  # monomials


class TooBig(Exception):
    pass


# a polynomial: {monomial: Fraction}, a monomial: tuple of (var index, exponent) sorted
def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 400000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mentions(e, x):
    stack, seen = [e], set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(x):
            return True
        stack.extend(u.children())
    return False


def key(p):
    return tuple(sorted(p.items()))


class Norm:
    def __init__(self, hyps=()):
        self.vars = {}  # term id -> index
        self.terms = []
        self.cache = {}
        self.frac = {}  # (num,den) key -> opaque variable index
        self.fdef = []  # (var poly, num, den)
        self.sq = {}  # var index -> polynomial of its square
        self.sqkey = {}
        self.alias = {}
        self.subst = {}
        self.dens = []
        self.clear = False
        self.quot = {}
        for h in hyps:
            self.scan(h)

    def scan(self, h):
        """square-root definitions"""
        if z3.is_and(h):
            for x in h.children():
                self.scan(x)
            return
        if z3.is_eq(h) and z3.is_real(h.arg(0)):
            l, r = h.arg(0), h.arg(1)
            if z3.is_mul(l) and l.num_args() >= 2 and z3.is_const(l.arg(0)) and l.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and l.arg(0).decl().name().startswith("quot"):
                q = l.arg(0)
                d = l.arg(1) if l.num_args() == 2 else z3.Product(l.children()[1:])
                if not mentions(d, q) and not mentions(r, q):
                    self.quot.setdefault(q.get_id(), (q, r, d))
                return
            for a, b in ((l, r), (r, l)):
                if z3.is_mul(a) and a.num_args() == 2 and a.arg(0).eq(a.arg(1)) and z3.is_const(a.arg(0)) and a.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s = a.arg(0)
                    if s.decl().name().startswith("sqrt"):
                        self.pending = getattr(self, "pending", {})
                        self.pending[s.get_id()] = (s, b)
                        return

    def var(self, t):
        i = t.get_id()
        if i in self.vars:
            return self.vars[i]
        k = len(self.terms)
        self.terms.append(t)
        self.vars[i] = k
        pend = getattr(self, "pending", {})
        if i in pend:
            s, e = pend[i]
            try:
                n, d = self.fr(e)
                if len(d) == 1 and () in d:
                    p = {m: c / d[()] for m, c in n.items()}
                    kk = key(p)
                    if kk in self.sqkey:
                        self.vars[i] = self.sqkey[kk]
                        return self.vars[i]
                    self.sqkey[kk] = k
                    self.sq[k] = p
            except TooBig:
                pass
        return self.vars[i]

    def reduce(self, p):
        """replace squares of square roots"""
        while True:
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in self.sq:
                        hit = (m, v, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            v = hit[1]
            r = {}
            for m, c in p.items():
                e = dict(m).get(v, 0)
                if e >= 2:
                    rest = tuple(x for x in m if x[0] != v)
                    if e % 2:
                        rest = m_mul(rest, ((v, 1),))
                    q = {rest: c}
                    for _ in range(e // 2):
                        q = p_mul(q, self.sq[v])
                    r = p_add(r, q)
                else:
                    r = p_add(r, {m: c})
            p = r

    def mul(self, a, b):
        return self.reduce(p_mul(a, b))

    def fr(self, t):
        """term -> (num, den)"""
        i = t.get_id()
        if i in self.cache:
            return self.cache[i][1]
        r = self._fr(t)
        self.cache[i] = (t, r)
        return r

    def _fr(self, t):
        one = {(): Fraction(1)}
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return p_const(f), one
        if z3.is_add(t):
            n, d = {}, one
            for x in t.children():
                n2, d2 = self.fr(x)
                n, d = self.addf((n, d), (n2, d2))
            return n, d
        if z3.is_sub(t):
            ch = t.children()
            n, d = self.fr(ch[0])
            for x in ch[1:]:
                n2, d2 = self.fr(x)
                n, d = self.addf((n, d), ({m: -c for m, c in n2.items()}, d2))
            return n, d
        if z3.is_mul(t):
            n, d = one, one
            for x in t.children():
                n2, d2 = self.fr(x)
                n = self.mul(n, n2)
                d = d if d2 is one else self.mul(d, d2)
            return n, d
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            n, d = self.fr(t.arg(0))
            return {m: -c for m, c in n.items()}, d
        if z3.is_div(t):
            n, d = self.fr(t.arg(0))
            n2, d2 = self.fr(t.arg(1))
            if len(n2) == 1 and () in n2:
                c = n2[()]
                return {m: v / c for m, v in self.mul(n, d2).items()}, d
            if not n2:
                return {((self.var(t), 1),): Fraction(1)}, one
            self.dens.append(t.arg(1))
            if self.clear:
                return self.mul(n, d2), self.mul(d, n2)
            nn, dd = self.mul(n, d2), self.mul(d, n2)
            k = (key(nn), key(dd))
            if k not in self.frac:
                v = self.var(t)
                self.frac[k] = v
                self.fdef.append(({((v, 1),): Fraction(1)}, nn, dd))
            return {((self.frac[k], 1),): Fraction(1)}, one
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(t.arg(1))):
            e = z3.simplify(t.arg(1)).as_long()
            if 0 <= e <= 6:
                n, d = self.fr(t.arg(0))
                rn, rd = one, one
                for _ in range(e):
                    rn, rd = self.mul(rn, n), self.mul(rd, d)
                return rn, rd
        if z3.is_to_real(t):
            # push through integer + - *
            a = t.arg(0)
            if z3.is_int_value(a):
                return p_const(a.as_long()), one
            if z3.is_add(a) or z3.is_mul(a) or z3.is_sub(a) or (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS):
                ch = [z3.ToReal(x) for x in a.children()]
                if z3.is_add(a):
                    return self.fr(z3.Sum(ch)) if len(ch) > 1 else self.fr(ch[0])
                if z3.is_mul(a):
                    e = ch[0]
                    for x in ch[1:]:
                        e = e * x
                    return self.fr(e)
                if z3.is_sub(a):
                    e = ch[0]
                    for x in ch[1:]:
                        e = e - x
                    return self.fr(e)
                return self.fr(-ch[0])
            return {((self.var(a), 1),): Fraction(1)}, one
        if self.clear and t.get_id() in self.quot:
            _, a, b = self.quot[t.get_id()]
            n, d = self.fr(a)
            n2, d2 = self.fr(b)
            self.dens.append(b)
            return self.mul(n, d2), self.mul(d, n2)
        return {((self.var(t), 1),): Fraction(1)}, one

    def addf(self, a, b):
        (n, d), (n2, d2) = a, b
        if d is d2 or d == d2:
            return p_add(n, n2), d
        return p_add(self.mul(n, d2), self.mul(n2, d)), self.mul(d, d2)


def split(hs):
    out = []
    for h in hs:
        if z3.is_and(h):
            out += split(h.children())
        else:
            out.append(h)
    return out


def prove_eq(hyps, goal, nonzero):
    """goal: real equality. nonzero(term) -> bool decides the side conditions"""
    if not (z3.is_eq(goal) and goal.arg(0).sort_kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT)):
        return False
    try:
        N = Norm(hyps)
        N.clear = True
        n1, d1 = N.fr(goal.arg(0))
        n2, d2 = N.fr(goal.arg(1))
        z = N.reduce(p_add(N.mul(n1, d2), N.mul(n2, d1), -1))
        if z:
            # equalities between plain variables / definitions in the hypotheses
            z = N.reduce(_by_defs(N, hyps, z))
        if z:
            z = _by_rules(N, hyps, z)
        if z:
            return False
        return all(nonzero(d) for d in N.dens)
    except (TooBig, ZeroDivisionError, RecursionError):
        return False


def _by_rules(N, hyps, z):
    """use polynomial equalities of the hypotheses over the variables of z, highest monomial (graded
    lexicographic order) rewritten to the rest"""
    N.clear = False
    have = {v for m in z for v, _ in m}
    rules = []
    for h in split(hyps):
        if not (z3.is_eq(h) and z3.is_real(h.arg(0))):
            continue
        n0 = len(N.dens)
        n1, d1 = N.fr(h.arg(0))
        n2, d2 = N.fr(h.arg(1))
        del N.dens[n0:]
        if not (len(d1) == 1 and () in d1 and len(d2) == 1 and () in d2):
            continue
        p = N.reduce(p_add({m: c / d1[()] for m, c in n1.items()}, {m: c / d2[()] for m, c in n2.items()}, -1))
        if p and () not in (p if len(p) == 1 else {}) and {v for m in p for v, _ in m} <= have:
            rules.append(p)

    def order(m):
        e = dict(m)
        return (sum(e.values()), tuple(e.get(v, 0) for v in sorted(have)))

    rules = [(max(p, key=order), p) for p in rules]
    for _ in range(2000):
        hit = None
        for m in z:
            e = dict(m)
            for lead, p in rules:
                if all(e.get(v, 0) >= k for v, k in lead):
                    hit = (m, e, lead, p)
                    break
            if hit:
                break
        if not hit:
            return z
        m, e, lead, p = hit
        for v, k in lead:
            e[v] -= k
        rest = tuple(sorted((v, k) for v, k in e.items() if k))
        f = -z[m] / p[lead]
        z = N.reduce(p_add(z, {m_mul(rest, q): f * c for q, c in p.items()}))
        if not z or len(z) > 3000:
            return z
    return z


def _by_defs(N, hyps, z):
    """use hypotheses x == e (x a constant not in e) as rewrite rules"""
    for h in split(hyps):
        if not (z3.is_eq(h) and h.arg(0).sort_kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT)):
            continue
        for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.get_id() in N.vars:
                v = N.vars[a.get_id()]
                if not any(v == x for m in z for x, _ in m):
                    break
                try:
                    n, d = N.fr(b)
                except TooBig:
                    break
                if any(v == x for m in n for x, _ in m) or any(v == x for m in d for x, _ in m):
                    continue
                # multiply out the highest power
                top = max(dict(m).get(v, 0) for m in z)
                r = {}
                for m, c in z.items():
                    e = dict(m).get(v, 0)
                    q = {tuple(x for x in m if x[0] != v): c}
                    for _ in range(e):
                        q = N.mul(q, n)
                    for _ in range(top - e):
                        q = N.mul(q, d)
                    r = p_add(r, q)
                z = N.reduce(r)
                break
        if not z:
            return z
    return z


ARITH = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}


def prove_lin(hyps, goal, nonzero, timeout_ms=2000):
    """linear arithmetic over monomials"""
    N = Norm(hyps)
    mono = {}

    def mv(m):
        if m not in mono:
            mono[m] = z3.Real(f"m{len(mono)}")
            # even monomials are not negative
        return mono[m]

    def lin(p):
        ts = [z3real(c) * mv(m) if m else z3real(c) for m, c in p.items()]
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def z3real(c):
        return z3.Q(c.numerator, c.denominator)

    def conv(h):
        """formula -> LRA formula or None"""
        if z3.is_and(h) or z3.is_or(h):
            cs = [conv(x) for x in h.children()]
            if z3.is_and(h):
                cs = [x for x in cs if x is not None]
                return z3.And(cs) if cs else None
            return None if any(x is None for x in cs) else z3.Or(cs)
        if z3.is_not(h):
            a = h.arg(0)
            if z3.is_app(a) and a.decl().kind() in ARITH and a.num_args() == 2 and a.arg(0).sort_kind() == z3.Z3_REAL_SORT:
                x = conv(a)
                return None if x is None else z3.Not(x)
            return None
        if z3.is_app(h) and h.decl().kind() in ARITH and h.num_args() == 2 and h.arg(0).sort_kind() == z3.Z3_REAL_SORT:
            n1, d1 = N.fr(h.arg(0))
            n2, d2 = N.fr(h.arg(1))
            p = N.reduce(p_add(N.mul(n1, d2), N.mul(n2, d1), -1))
            if len(p) > 800:
                return None
            e = lin(p)
            k = ARITH[h.decl().kind()]
            return {"<=": e <= 0, ">=": e >= 0, "<": e < 0, ">": e > 0, "==": e == 0}[k]
        return None

    try:
        g = conv(goal)
        if g is None:
            return False
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.add(z3.Not(g))
        for h in split(hyps):
            try:
                x = conv(h)
            except TooBig:
                x = None
            if x is not None:
                s.add(x)
        for v, n, d in N.fdef:
            s.add(lin(N.reduce(p_add(N.mul(v, d), n, -1))) == 0)
        for m, x in list(mono.items()):
            if m and all(e % 2 == 0 for _, e in m):
                s.add(x >= 0)
        if s.check() != z3.unsat:
            return False
        return all(nonzero(d) for d in N.dens)
    except (TooBig, ZeroDivisionError, RecursionError):
        return False
