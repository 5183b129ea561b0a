"""Discharging proof obligations: z3 (several configurations), cvc5 as fallback."""
from __future__ import annotations

import os
import subprocess
import tempfile
import time

import z3

from . import ring

STATS = {"z3": 0, "nlsat": 0, "cvc5": 0, "simplify": 0, "time": 0.0}
CVC5 = "/usr/bin/cvc5"


def symbols(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out, stack, seen = set(), [e], set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
            continue
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            stack.extend(u.children())
    cache[k] = (e, out)
    return out


def has_quant(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    stack, seen, res = [e], set(), False
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            res = True
            break
        stack.extend(u.children())
    cache[k] = (e, res)
    return res


def nonlinear(e):
    stack, seen = [e], set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_mul(u) and sum(1 for c in u.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1 or z3.is_div(u):
            return True
        stack.extend(u.children())
    return False


def cone(hyps, goal, rounds=None):
    """hypotheses connected to the goal through shared symbols"""
    want = set(symbols(goal))
    rest = [(h, symbols(h)) for h in hyps]
    picked = []
    r = 0
    changed = True
    while changed and (rounds is None or r < rounds):
        changed = False
        r += 1
        nrest = []
        add = set()
        for h, s in rest:
            if s & want or not s:
                picked.append(h)
                add |= s
                changed = True
            else:
                nrest.append((h, s))
        want |= add
        rest = nrest
    return picked


def _check(hyps, neg, timeout_ms, params=None):
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for k, v in (params or {}).items():
        s.set(k, v)
    s.add(*hyps)
    s.add(neg)
    r = s.check()
    return r, s


def _nlsat(hyps, neg, timeout_ms):
    t = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", z3.Tactic("qfnra-nlsat"))
    s = z3.TryFor(t, int(timeout_ms)).solver()
    s.add(*hyps)
    s.add(neg)
    r = s.check()
    return r, s


def _cvc5(hyps, neg, timeout_ms):
    s = z3.Solver()
    s.add(*hyps)
    s.add(neg)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        p = subprocess.run(
            [CVC5, f"--tlimit={int(timeout_ms)}", "--nl-ext-tplanes", fn],
            capture_output=True,
            text=True,
            timeout=timeout_ms / 1000 + 5,
        )
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(fn)


def discharge(hyps, goal, timeout=10.0, want_model=True):
    """-> (status, backend, model_or_None); status in proved/refuted/unknown"""
    t0 = time.time()
    try:
        return _discharge(list(hyps), goal, timeout, want_model)
    finally:
        STATS["time"] += time.time() - t0


_PREM = {}


def _premise(qf, p, nonzero):
    k = (p.get_id(), tuple(h.get_id() for h in qf))
    if k not in _PREM:
        r = ring.prove_lin(qf, p, nonzero)
        if not r:
            r = _check(cone(qf, p, 1), z3.Not(p), 700)[0] == z3.unsat
        _PREM[k] = (r, p, qf)
    return _PREM[k][0]


def known_literals(hyps, g):
    """rewrite goal and hypotheses with the literals among the hypotheses, until nothing new is found"""
    for _ in range(4):
        old = {h.get_id() for h in hyps}
        h2, g2 = _known_literals(ring.split(hyps), g)
        new = {h.get_id() for h in h2}
        if new == old and g2.eq(g):
            break
        hyps, g = h2, g2
        if z3.is_true(g):
            break
    return hyps, g


def _known_literals(hyps, g):
    """rewrite goal and hypotheses with the literals among the hypotheses (conditions of if-then-else, equal integers)"""
    sub = []
    for h in hyps:
        neg = z3.is_not(h)
        a = h.arg(0) if neg else h
        if z3.is_and(a) or z3.is_or(a) or z3.is_quantifier(a) or not z3.is_app(a):
            continue
        if z3.is_eq(a) and z3.is_int(a.arg(0)):
            x, y = a.arg(0), a.arg(1)
            if neg:
                sub += [(x == y, z3.BoolVal(False)), (y == x, z3.BoolVal(False))]
            elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub.append((x, y))
            elif z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub.append((y, x))
        elif z3.is_bool(a) and not z3.is_eq(a):
            sub.append((a, z3.BoolVal(not neg)))
    if not sub:
        return hyps, g
    g2 = z3.simplify(z3.substitute(g, *sub))
    out = []
    for h in hyps:
        h2 = z3.simplify(z3.substitute(h, *sub))
        out.append(h if z3.is_true(h2) else h2)
    return out, g2


def _algebra(qf, g):
    """polynomial identities and linear arithmetic over monomials"""
    if "(ite " in g.sexpr():
        qf, g = known_literals(qf, g)
        if z3.is_true(g):
            return True

    def nonzero(d):
        r, _ = _check(cone(qf, d == 0, 2), d == 0, 1500)
        if r == z3.unsat:
            return True
        try:
            return _nlsat(cone(qf, d == 0, 2), d == 0, 1500)[0] == z3.unsat
        except z3.Z3Exception:
            return False

    try:
        extra = []
        for h in qf:
            # square roots of terms that are not negative
            if z3.is_implies(h) and "sqrt" in str(h.arg(1).decl() if h.arg(1).num_args() == 0 else symbols(h.arg(1))):
                if symbols(h.arg(1)) & symbols(g) and _premise(qf, h.arg(0), nonzero):
                    extra += [h.arg(1)]
        qf = qf + extra
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            return ring.prove_eq(qf, g, nonzero) or (z3.is_real(g.arg(0)) and ring.prove_lin(qf, g, nonzero))
        if z3.is_app(g) and g.decl().kind() in ring.ARITH and z3.is_real(g.arg(0)) or z3.is_not(g):
            return ring.prove_lin(qf, g, nonzero)
    except z3.Z3Exception:
        pass
    return False


_MONO = {}
_ABS = {}


def _products(e):
    """e with every product of non-constants replaced by a variable of its own (the same for the same product): what
    follows from the result follows from e"""
    i = e.get_id()
    if i in _ABS:
        return _ABS[i][1]
    if not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        ch = [_products(x) for x in e.children()]
        k = e.decl().kind()
        fac = [x for x in ch if not (z3.is_rational_value(x) or z3.is_int_value(x))] if k == z3.Z3_OP_MUL else []
        if len(fac) > 1 or k == z3.Z3_OP_POWER:
            fs = sorted(fac if fac else ch, key=lambda x: x.get_id())
            kk = (k,) + tuple(x.get_id() for x in fs)
            if kk not in _MONO:
                _MONO[kk] = (z3.Const(f"mono!{len(_MONO)}", e.sort()), fs)
            r = _MONO[kk][0]
            for x in ch:
                if k == z3.Z3_OP_MUL and (z3.is_rational_value(x) or z3.is_int_value(x)):
                    r = x * r
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        else:
            r = e.decl()(*ch) if k not in (z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_MUL) else {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_MUL: z3.Product}[k](*ch)
    _ABS[i] = (e, r)
    return r


def _condition(g):
    """condition of an if-then-else in g: a comparison of integers"""
    todo, seen = [g], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE:
            c = e.arg(0)
            if z3.is_app(c) and c.num_args() == 2 and z3.is_int(c.arg(0)):
                return c
        todo += e.children()
    return None


def _linear(hyps, neg, ms):
    """linear arithmetic with products as variables"""
    if len(_ABS) > 200000:
        _ABS.clear()
        _MONO.clear()
    try:
        f = [_products(z3.simplify(h, som=True)) for h in hyps] + [_products(z3.simplify(neg, som=True))]
    except (z3.Z3Exception, RecursionError):
        return False
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*f)
    return s.check() == z3.unsat


def _discharge(hyps, goal, timeout, want_model):
    if not isinstance(goal, bool):
        g = z3.simplify(goal)
    else:
        g = z3.BoolVal(goal)
    if z3.is_true(g):
        STATS["simplify"] += 1
        return "proved", "simplify", None
    gid = goal.get_id() if not isinstance(goal, bool) else -1
    if any(h.get_id() == gid for h in hyps):
        STATS["simplify"] += 1
        return "proved", "simplify", None
    if not z3.is_false(g) and not has_quant(g):
        g2 = z3.simplify(g, som=True, arith_lhs=True, expand_power=True) if False else g
    neg = z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(not goal)
    # conjunctive goals are split
    if z3.is_and(g) and g.num_args() > 1:
        be = set()
        for ch in g.children():
            st, b, m = _discharge(hyps, ch, timeout, want_model)
            if st != "proved":
                return st, b, m
            be.add(b)
        return "proved", "+".join(sorted(be)), None
    if z3.is_implies(g):
        return _discharge(hyps + [g.arg(0)], g.arg(1), timeout, want_model)
    if z3.is_or(g):
        neg_ = [x.arg(0) for x in g.children() if z3.is_not(x)]
        rest = [x for x in g.children() if not z3.is_not(x)]
        if neg_ and rest:
            return _discharge(hyps + ring.split(neg_), z3.Or(rest) if len(rest) > 1 else rest[0], timeout, want_model)
    allq = any(has_quant(h) for h in hyps) or has_quant(g)
    refuted = None
    c1 = cone(hyps, g, 1)
    ccone = cone(hyps, g)
    tms = timeout * 1000
    # quick: near cone
    if len(c1) < len(ccone):
        r, s = _check(c1, neg, min(1000, tms))
        if r == z3.unsat:
            STATS["z3"] += 1
            return "proved", "z3", None
    tried = False
    if not has_quant(g) and nonlinear(g):
        r, s = _check(ccone, neg, min(300, tms))
        if r == z3.unknown:
            tried = True
            qf = [h for h in ccone if not has_quant(h)]
            q2, g2 = known_literals(qf, g)
            if z3.is_true(g2) or _linear(q2, z3.Not(g2), 500):
                STATS["z3"] += 1
                return "proved", "z3", None
            if _algebra(qf, g):
                STATS["ring"] = STATS.get("ring", 0) + 1
                return "proved", "ring", None
            c = _condition(g2) if timeout > 1.5 else None
            if c is not None:
                # a condition inside the goal is settled first
                be = set()
                for h in (c, z3.Not(c)):
                    st, b, _ = _discharge(hyps + [h], goal, timeout / 2, False)
                    if st != "proved":
                        break
                    be.add(b)
                else:
                    return "proved", "+".join(sorted(be)), None
            if z3.is_or(g) and g.num_args() > 1 and timeout > 1.5:
                for ch in reversed(g.children()):
                    st, b, m = _discharge(hyps, ch, 1.0, False)
                    if st == "proved":
                        return "proved", b, None
    r, s = _check(ccone, neg, min(3000, tms))
    if r == z3.unsat:
        STATS["z3"] += 1
        return "proved", "z3", None
    if r == z3.sat:
        # the full hypothesis set decides whether this is a counterexample
        if len(ccone) == len(hyps):
            return "refuted", "z3", s.model()
        r2, s2 = _check(hyps, neg, min(4000, tms))
        if r2 == z3.unsat:
            STATS["z3"] += 1
            return "proved", "z3", None
        if r2 == z3.sat:
            return "refuted", "z3", s2.model()
        # undecided: the other hypotheses may exclude the path
        ccone = hyps
    qf = [h for h in ccone if not has_quant(h)]
    if not has_quant(g):
        if not tried and _algebra(qf, goal if not isinstance(goal, bool) else g):
            STATS["ring"] = STATS.get("ring", 0) + 1
            return "proved", "ring", None
        for hs in (([h for h in c1 if not has_quant(h)]), qf):
            try:
                r, s = _nlsat(hs, neg, min(6000, tms))
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                STATS["nlsat"] += 1
                return "proved", "z3-nlsat", None
            if r == z3.sat and not allq and len(hs) == len(hyps):
                return "refuted", "z3-nlsat", s.model()
    out = _cvc5(ccone, neg, min(tms, 10000))
    if out == "unsat":
        STATS["cvc5"] += 1
        return "proved", "cvc5", None
    r, s = _check(hyps, neg, tms, {"random_seed": 7})
    if r == z3.unsat:
        STATS["z3"] += 1
        return "proved", "z3", None
    if r == z3.sat:
        return "refuted", "z3", s.model()
    return "unknown", "all", None
