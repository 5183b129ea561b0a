"""Context of one symbolic path, path exploration, obligations."""
from __future__ import annotations

import os
import time

import z3

from . import solver
from .values import *  # noqa
from .values import _tb


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, name, args=(), bases=()):
        super().__init__(name)
        self.name = name
        self.args_ = args
        self.bases = tuple(bases)

    def __str__(self):
        return f"PyRaise({self.name}, {self.args_})"


class Obligation:
    pass

    def __init__(self, name, kind, hyps, goal, where, path):
        self.name, self.kind, self.hyps, self.goal, self.where = name, kind, hyps, goal, where
        self.path = path
        self.status = None
        self.backend = None
        self.model = None
        self.time = 0.0


class Ctx:
    def __init__(self, run, prefix=()):
        self.run = run
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.light = z3.Solver()
        self.nquant = 0
        self.counter = {}
        self.memo = {}
        self.bvn = 0
        self.spec_mode = False
        self.binders = []  # (variable, range) of comprehensions being evaluated
        self.speculative = False
        self.writes = []
        self.where = ""
        self.need_sqrt_axiom = False
        self.heap = {}
        self.psums = {}
        self.div_timeout = 300
        self.ghost = {}
        self.exit_kind = None
        self.dead = False
        self.inputs_ = None
        self.old_ = None

    # ---- fresh symbols (deterministic names along a path)
    def _name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    def fresh_int(self, base="i"):
        return SInt(z3.Int(self._name(base)))

    def fresh_real(self, base="x"):
        return SF(z3.Real(self._name(base)))

    def fresh_bool(self, base="b"):
        return SBool(z3.Bool(self._name(base)))

    def fresh_fn(self, base, *sorts):
        return z3.Function(self._name(base), *sorts)

    def fresh_ref(self, cls, base="ref"):
        return SRef(z3.Const(self._name(base), RefSort), cls)

    def fresh_str(self, base="str"):
        return SStr(z3.Const(self._name(base), StrSort))

    # ---- assumptions
    def assume(self, p):
        p = zb(p)
        p = p if z3.is_quantifier(p) else z3.simplify(p)
        if z3.is_true(p):
            return
        if free_bv(p):
            raise Unsupported("a fact about a quantified variable would leave its quantifier")
        if z3.is_and(p):
            for ch in p.children():
                self.assume(ch)
            return
        self.pc.append(p)
        if z3.is_false(p):
            self.dead = True
        if solver.has_quant(p):
            self.nquant += 1
        else:
            self.light.add(p)

    def all_hyps(self):
        h = list(self.pc) + lit_axioms()
        if self.need_sqrt_axiom:
            x = z3.Real("sq!x")
            h.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(SQRT(x) >= 0, SQRT(x) * SQRT(x) == x)), patterns=[SQRT(x)]))
        return h

    def _light_check(self, *extra, timeout=300):
        key = ("lc", tuple(e.get_id() for e in extra), len(self.pc))
        if key in self.memo:
            return self.memo[key][0]
        self.light.set("timeout", timeout)
        t0 = time.time()
        la = lit_axioms()
        r = self.light.check(*extra, *la)
        self.run.feas_time += time.time() - t0
        self.memo[key] = (r, extra)
        return r

    def entails(self, p, timeout=300):
        p = z3.simplify(zb(p))
        if z3.is_true(p):
            return True
        if z3.is_false(p):
            return self.dead
        if has_bv(p):
            return False
        r = self._light_check(z3.Not(p), timeout=timeout)
        if r == z3.unsat:
            return True
        if self.nquant and r == z3.unknown and False:
            pass
        if self.nquant and self.run.full_entails:
            key = ("full", p.get_id(), len(self.pc))
            if key in self.memo:
                return self.memo[key][0]
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*self.all_hyps(), z3.Not(p))
            res = s.check() == z3.unsat
            self.memo[key] = (res, p)
            return res
        return False

    def quot(self, a, b, guard=None):
        key = ("quot", a.get_id(), b.get_id())
        if key in self.memo:
            return self.memo[key][0]
        q = self.fresh_real("quot").t
        eq = q * b == a
        self.assume(eq if guard is None else z3.Implies(guard, eq))
        self.memo[key] = (q, a, b)
        return q

    # ---- obligations
    def side(self, name, goal):
        """safety obligation met while executing (index in range, ...)"""
        if self.spec_mode:
            return
        if isinstance(goal, bool):
            if goal:
                return
            goal = z3.BoolVal(False)
        goal = zb(goal)
        for v, rng in reversed(self.binders):
            goal = z3.ForAll([v], z3.Implies(rng, goal))
        if has_bv(goal) and not z3.is_quantifier(goal):
            return
        if self.speculative:
            if not self.entails(goal):
                raise Speculation()
            return
        self.prove(name, goal, kind="safety")

    def prove(self, name, goal, kind="post"):
        goal = zb(goal)
        live = len(self.trace) >= len(self.prefix)
        if live:
            self.run.emit(self, name, goal, kind)
        # an established fact may be used afterwards
        if kind in ("safety", "pre", "lemma"):
            self.assume(goal)

    def lemma(self, name, goal, using=None, count=True, general=None):
        """prove an auxiliary fact and use it afterwards; without a proof it is just not used.
        `general`: a goal (with the facts `using`) of which the fact is an instance, proved instead"""
        goal = zb(goal)
        key = (name, tuple(d for d, _ in self.trace))
        if key not in self.run.lemmas:
            t0 = time.time()
            st, be, _ = solver.discharge(self.all_hyps() if using is None else [zb(h) for h in using], goal if general is None else zb(general), self.run.timeout, False)
            dt = time.time() - t0
            self.run.solver_time += dt
            if DEBUG:
                print(f"  [lemma] {name} @{self.where}: {st} by {be} {dt:.2f}s", flush=True)
            if st == "proved" and count:
                self.run.proved += 1
                self.run.by_backend[be] = self.run.by_backend.get(be, 0) + 1
                k = f"{self.run.name}: {name}"
                self.run.names[k] = self.run.names.get(k, 0) + 1
            self.run.lemmas[key] = st == "proved"
        if self.run.lemmas[key] and not any(h.get_id() == goal.get_id() for h in self.all_hyps()):
            self.assume(goal)
        return self.run.lemmas[key]

    # ---- branching by re-execution
    def choose(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for alt in range(1, n):
                self.run.push(self.prefix[:0] + [x for x, _ in self.trace] + [alt])
        self.trace.append((d, n))
        return d

    def decide(self, cond):
        """truth value of a proposition; forks when both are possible"""
        if isinstance(cond, (bool,)):
            return cond
        t = zb(cond)
        t = t if z3.is_quantifier(t) else z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.run.nofork and has_bv(t):
            raise Unsupported("branch on a bound variable")
        if self.speculative:
            raise Speculation()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append((d, 2))
        else:
            q = solver.has_quant(t)
            ct = z3.unknown if q else self._light_check(t)
            cf = z3.unknown if q else self._light_check(z3.Not(t))
            if ct == z3.unsat and cf == z3.unsat:
                raise PathEnd()
            if ct == z3.unsat:
                d = 0
                self.trace.append((d, 1))
                self.assume(z3.Not(t))
                return False
            if cf == z3.unsat:
                d = 1
                self.trace.append((d, 1))
                self.assume(t)
                return True
            self.run.push([x for x, _ in self.trace] + [0])
            d = 1
            self.trace.append((d, 2))
        self.assume(t if d else z3.Not(t))
        return bool(d)

    def raise_exc(self, name, *args, bases=()):
        raise PyRaise(name, args, bases)

    def note_write(self, obj):
        self.writes.append(obj)

    # ---- prefix sums (ghost functions)
    def psum(self, key, f, kind="f"):
        """ghost prefix sum: P(0)=0, P(k+1)=P(k)+f(k); unfolded around every mentioned k"""
        if key not in self.psums:
            sort = z3.RealSort() if kind == "f" else z3.IntSort()
            fn = z3.Function(f"psum!{key}", z3.IntSort(), sort)
            self.psums[key] = (fn, f, set())
            self.assume(fn(0) == (0 if kind != "f" else z3.RealVal(0)))
        fn, f0, seen = self.psums[key]

        def at(k):
            kt = z3.simplify(it(k))
            if not has_bv(kt) and kt.get_id() not in seen:
                seen.add(kt.get_id())
                self.memo[("keep", kt.get_id())] = kt
                v = f0(mkint(kt))
                w = f0(mkint(kt - 1))
                cv = (lambda x: rt(x)) if kind == "f" else (lambda x: it(x))
                self.assume(z3.Implies(kt >= 0, fn(z3.simplify(kt + 1)) == fn(kt) + cv(v)))
                self.assume(z3.Implies(kt >= 1, fn(kt) == fn(z3.simplify(kt - 1)) + cv(w)))
            r = fn(kt)
            return SF(r) if kind == "f" else mkint(r)

        return at

    def psum_of(self, f, n, kind):
        """sum of f(0..n-1) met in code; pointwise equal summands give equal sums"""
        if isinstance(n, int):
            r = 0
            for k in range(n):
                r = r + f(k)
            return r
        key = f"code{len(self.psums)}"
        P = self.psum(key, f, kind)
        val = P(n)
        for k2, (fn2, f2, _) in list(self.psums.items()):
            if k2 == key or fn2.range() != self.psums[key][0].range():
                continue
            i = bv("s")
            try:
                same = zb(veq(f(SInt(i)), f2(SInt(i))))
            except Unsupported:
                continue
            # pointwise equality below n implies equality of the sums (induction)
            self.assume(
                z3.Implies(
                    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it(n)), same)),
                    fn2(it(n)) == self.psums[key][0](it(n)),
                )
            )
        return val


DEBUG = bool(os.environ.get("VERIF_DEBUG"))


class Run:
    """Explores all paths of one verification task and collects obligations."""

    def __init__(self, name, body, timeout=10.0, max_paths=4000, wall=300.0, full_entails=True, stop_on_fail=True, solve=True):
        self.solve = solve
        self.name = name
        self.body = body
        self.timeout = timeout
        self.max_paths = max_paths
        self.wall = wall
        self.work = [[]]
        self.obls = []
        self.npaths = 0
        self.ended = 0
        self.feas_time = 0.0
        self.nofork = True
        self.full_entails = full_entails
        self.failures = []
        self.unknowns = []
        self.unsupported = []
        self.proved = 0
        self.by_backend = {}
        self.stop_on_fail = stop_on_fail
        self.reached = set()
        self.truncated = False
        self.solver_time = 0.0
        self.lemmas = {}
        self.names = {}
        self.vac = None

    def push(self, prefix):
        self.work.append(prefix)

    def emit(self, c, name, goal, kind):
        if not self.solve:
            return
        hyps = c.all_hyps()
        t0 = time.time()
        st, be, model = solver.discharge(hyps, goal, self.timeout)
        dt = time.time() - t0
        self.solver_time += dt
        if DEBUG:
            print(f"  [{kind}] {name} @{c.where}: {st} by {be} {dt:.2f}s", flush=True)
        key = f"{self.name}: {name}"
        self.names[key] = self.names.get(key, 0) + 1
        if st == "proved":
            self.proved += 1
            self.by_backend[be] = self.by_backend.get(be, 0) + 1
            return
        o = Obligation(name, kind, hyps, goal, c.where, [d for d, _ in c.trace])
        o.status, o.backend, o.model, o.time = st, be, model, dt
        o_ctx = c
        if st == "refuted":
            o.inputs = None
            self.failures.append((o, o_ctx))
            if self.stop_on_fail:
                raise StopRun()
        else:
            self.unknowns.append((o, o_ctx))

    def go(self):
        t0 = time.time()
        while self.work:
            if self.npaths >= self.max_paths or time.time() - t0 > self.wall:
                self.truncated = True
                break
            prefix = self.work.pop()
            c = Ctx(self, prefix)
            set_ctx(c)
            self.npaths += 1
            try:
                self.body(c)
                self.ended += 1
            except PathEnd:
                pass
            except StopRun:
                break
            except Unsupported as e:
                self.unsupported.append((str(e), c.where))
                break
            finally:
                set_ctx(None)
        self.wall_used = time.time() - t0
        return self

    @property
    def status(self):
        if self.failures:
            return "refuted"
        if self.unsupported:
            return "unsupported"
        if self.unknowns or self.truncated:
            return "unknown"
        return "proved"


class StopRun(Exception):
    pass


class Speculation(Exception):
    """an expression cannot be evaluated without a fork or an obligation"""
