"""Cross-check of the verifier itself:  check.py --selftest

1. language and numpy model: the functions of selftest_code.py are run by CPython and by the interpreter, the inputs symbolic
   and constrained to the numbers CPython gets; the one feasible path must give CPython's result or exception.
2. the same for functions of the repository with inputs of the contracts' generators.
3. broken bodies: contracts on small functions must be proved for the right body and refuted for each wrong one.
4. the polynomial back end must not prove false equalities.
An operation the interpreter does not support is listed; a different result is a failure."""
import ast
import importlib.util
import inspect
import os
import random
import shutil
import sys
import tempfile

import numpy as np
import z3

from . import contract as C
from .engine import PyRaise, Run
from .interp import Program
from .values import zb, CArr, LArr, Obj, PyDict, PyList, PySet, SBool, SF, SInt, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))


def arguments(rng):
    num = lambda: rng.choice([-2.0, -0.5, 0.0, 0.25, 1.0, 1.5, 3.0]) + rng.choice([0.0, 0.125])
    vec = lambda: np.array([num() for _ in range(3)])
    return dict(a=vec(), b=vec(), m=np.array([vec() for _ in range(4)]), k=np.array([vec() for _ in range(4)]), i=rng.randrange(4), j=rng.randrange(4), x=num(), y=num(),
                f=np.array([rng.random() < 0.5 for _ in range(4)]), n=np.array([rng.randrange(4) for _ in range(4)]))


def lift(S, v, nm="v"):
    """the value as symbolic value constrained to it"""
    if isinstance(v, (bool, np.bool_)):
        b = S.bool(nm)
        S.c.assume(b.t == bool(v))
        return b
    if isinstance(v, (int, np.integer)):
        x = S.int(nm)
        S.c.assume(x.t == int(v))
        return x
    if isinstance(v, (float, np.floating)):
        if not np.isfinite(v):
            return float(v)
        x = S.real(nm)
        S.c.assume(x.t == z3.RealVal(float(v).as_integer_ratio()[0]) / z3.RealVal(float(v).as_integer_ratio()[1]))
        return x
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = lift(S, v[i], nm)
        return CArr(out, {"f": "f", "i": "i", "b": "b"}[v.dtype.kind])
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, tuple):
        return tuple(lift(S, x, nm) for x in v)
    if isinstance(v, list):
        return PyList([lift(S, x, nm) for x in v])
    raise Unsupported(f"argument {type(v).__name__}")


def low(v, m):
    """value of the result in the model"""
    if isinstance(v, (SInt, SBool, SF, CArr, LArr)):
        return C.concretise(v, m)
    if isinstance(v, PyList):
        n = v.length() if isinstance(v.length(), int) else C.concretise(v.length(), m)
        return [low(v.at(i), m) for i in range(n)]
    if isinstance(v, tuple):
        return tuple(low(x, m) for x in v)
    if isinstance(v, PyDict) and v.d is not None:
        return {k: low(x, m) for k, x in v.d.items()}
    if isinstance(v, PySet) and v.items is not None:
        return {low(x, m) for x in v.items}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Unsupported(f"result {type(v).__name__}")


def agree(x, y, tol=1e-7):
    if isinstance(y, np.ndarray):
        if not isinstance(x, np.ndarray) or x.shape != y.shape:
            return False
        if y.dtype.kind == "f":
            return x.dtype.kind == "f" and np.allclose(x, y, atol=tol, rtol=tol, equal_nan=True)
        return x.dtype.kind == y.dtype.kind and np.array_equal(x, y)
    if isinstance(y, (bool, np.bool_)):
        return isinstance(x, (bool, np.bool_)) and bool(x) == bool(y)
    if isinstance(y, (int, np.integer)):
        return not isinstance(x, bool) and isinstance(x, (int, np.integer)) and int(x) == int(y)
    if isinstance(y, (float, np.floating)):
        return isinstance(x, (float, int, np.floating)) and not isinstance(x, bool) and (np.isclose(x, y, atol=tol, rtol=tol) or x == y or (np.isnan(x) and np.isnan(y)))
    if isinstance(y, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(agree(p, q, tol) for p, q in zip(x, y))
    if isinstance(y, dict):
        return isinstance(x, dict) and list(x) == list(y) and all(agree(x[k], y[k], tol) for k in y)
    if isinstance(y, set):
        return x == y
    return x == y


def interpret(prog, fq, args, wall=20):
    """-> list of (hypotheses, result or ('raises', name)) of all complete paths, list of unsupported operations"""
    ends = []

    def body(c):
        S = C.SymOps(c)
        S.I = prog.interp
        prog.interp.steps = 0
        a = {k: lift(S, v, k) for k, v in args.items()}
        try:
            r = prog.interp.call_inline(prog.find(fq), [], a)
        except PyRaise as e:
            r = ("raises", e.name)
        ends.append((list(c.all_hyps()), r, a))

    run = Run(f"selftest {fq}", body, timeout=4, max_paths=400, wall=wall)
    run.go()
    return ends, run


def raised(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "raises"


def same(r, want, tol=1e-6):
    """formula (or truth value) saying that the symbolic result is the given one"""
    if isinstance(r, SBool):
        return r.t == bool(want) if isinstance(want, (bool, np.bool_)) else False
    if isinstance(r, SInt):
        return r.t == int(want) if isinstance(want, (int, np.integer)) and not isinstance(want, bool) else False
    if isinstance(r, SF):
        if isinstance(want, (bool, np.bool_, str)) or want is None:
            return False
        if not np.isfinite(want):
            return zb(r.nan) if np.isnan(want) else z3.And(zb(r.inf), z3.Not(zb(r.nan)))
        w = z3.RealVal(str(float(want).as_integer_ratio()[0])) / z3.RealVal(str(float(want).as_integer_ratio()[1]))
        e = tol * (1 + abs(float(want)))
        return z3.And(z3.Not(zb(r.nan)), z3.Not(zb(r.inf)), r.t <= w + e, r.t >= w - e)
    if isinstance(r, CArr):
        if not isinstance(want, np.ndarray) or want.shape != r.a.shape or want.dtype.kind != r.kind:
            return False
        return conj([same(r.a[i], want[i]) for i in np.ndindex(want.shape)])
    if isinstance(r, LArr):
        if not isinstance(want, np.ndarray) or len(r.shape) != want.ndim or want.dtype.kind != r.kind:
            return False
        return conj([same(n, k) for n, k in zip(r.shape, want.shape)] + [same(r.get(tuple(int(k) for k in i)), want[i]) for i in np.ndindex(want.shape)])
    if isinstance(r, PyList):
        return isinstance(want, list) and conj([same(r.length(), len(want))] + [same(r.at(i), want[i]) for i in range(len(want)) if not isinstance(r.length(), int) or i < r.length()])
    if isinstance(r, tuple):
        return isinstance(want, tuple) and len(r) == len(want) and conj([same(x, y) for x, y in zip(r, want)])
    if isinstance(r, PyDict) and r.d is not None:
        return isinstance(want, dict) and list(r.d) == list(want) and conj([same(r.d[k], want[k]) for k in want])
    if isinstance(r, PySet) and r.items is not None:
        if any(isinstance(x, (SInt, SF, SBool)) for x in r.items):
            raise Unsupported("set of symbolic values")
        return set(r.items) == want
    if r is None or isinstance(r, (bool, int, float, str)):
        return bool(agree(r, want))
    raise Unsupported(f"result {type(r).__name__}")


def conj(xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return z3.And(*xs) if xs else True


def compare(prog, fq, args, f):
    """-> (verdict, text). ok: some path has exactly CPython's outcome and no other is possible; loose: CPython's outcome is
    among those the model allows (sound, but undetermined); differs: the model excludes what CPython does"""
    mine = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in args.items()}
    try:
        want = f(**mine)
    except Exception as e:
        want = ("raises", type(e).__name__)
    try:
        ends, run = interpret(prog, fq, args)
        if run.unsupported:
            return "unsupported", str(run.unsupported[0][0])
        if run.failures:  # a safety obligation fails: the contract would be reported as violated
            return ("ok", "") if raised(want) else ("differs", f"obligation fails: {run.failures[0][0].name}")
        if run.truncated:
            return "unsupported", "too many paths"
        got, allowed = [], False
        for hyps, r, a in ends:
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*hyps)
            ck = s.check()
            if ck == z3.unsat:
                continue
            if raised(r) or raised(want):
                eq = raised(r) and raised(want) and r[1] == want[1]
            else:
                eq = conj([same(r, want)] + [same(v, mine[k]) for k, v in a.items() if isinstance(v, CArr)])
            s.push()
            s.add(z3.BoolVal(eq) if isinstance(eq, bool) else eq)
            c1 = s.check()
            s.pop()
            s.add(z3.Not(z3.BoolVal(eq) if isinstance(eq, bool) else eq))
            c2 = s.check()
            allowed |= c1 != z3.unsat
            if c2 != z3.unsat or c1 != z3.sat:
                try:
                    got.append(str(low(r, s.model())) if c2 == z3.sat else "undecided")
                except Exception:
                    got.append("undecided")
    except Unsupported as e:
        return "unsupported", str(e)
    except (KeyError, TypeError, AttributeError, IndexError, AssertionError, ValueError, NotImplementedError, z3.Z3Exception) as e:
        return "unsupported", f"{type(e).__name__}: {e}"  # an engine error is never a verdict
    if not allowed:
        return "differs", f"{got} instead of {want}"
    return ("loose", f"also {got[0]}") if got else ("ok", "")


def one_by_one(text):
    """a function for each element of a returned tuple, so that an operation not supported does not hide the others"""
    t = ast.parse(text)
    body = []
    for st in t.body:
        last = st.body[-1] if isinstance(st, ast.FunctionDef) else None
        if isinstance(last, ast.Return) and isinstance(last.value, ast.Tuple):
            for k, e in enumerate(last.value.elts):
                body.append(ast.FunctionDef(name=f"{st.name}__{k}", args=st.args, body=st.body[:-1] + [ast.Return(value=e)], decorator_list=[], type_params=[]))
        else:
            body.append(st)
    return ast.unparse(ast.fix_missing_locations(ast.Module(body=body, type_ignores=[])))


def in_processes(items, work, limit=40, jobs=8):
    """work(item) for each, each in its own process with a time limit"""
    import multiprocessing as mp
    import time

    cx = mp.get_context("fork")
    todo, live, out = list(items), [], {}

    def child(w, it):
        try:
            w.send(work(it))
        except Exception as e:
            w.send(("unsupported", f"{type(e).__name__}: {e}"))

    while todo or live:
        while todo and len(live) < jobs:
            it = todo.pop(0)
            r, w = cx.Pipe(False)
            p = cx.Process(target=child, args=(w, it), daemon=True)
            p.start()
            w.close()
            live.append((it, p, r, time.time()))
        for x in list(live):
            it, p, r, t0 = x
            if r.poll(0.005):
                try:
                    out[it] = r.recv()
                except EOFError:
                    out[it] = ("unsupported", "process ended")
            elif time.time() - t0 > limit:
                out[it] = ("unsupported", "time limit")
            else:
                continue
            p.kill()
            p.join()
            live.remove(x)
    return {k: out[k] for k in sorted(out)}


RANK = ("unsupported", "ok", "loose", "differs")


def part_language(rng, rounds):
    d = tempfile.mkdtemp(prefix="pyvc-selftest-")
    try:
        os.makedirs(os.path.join(d, "building3d"))
        open(os.path.join(d, "building3d", "__init__.py"), "w").close()
        src = os.path.join(d, "building3d", "st.py")
        with open(os.path.join(HERE, "selftest_code.py")) as f, open(src, "w") as g:
            g.write(one_by_one(f.read()))
        spec = importlib.util.spec_from_file_location("selftest_code_run", src)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        fs = {nm: f for nm, f in vars(mod).items() if inspect.isfunction(f) and f.__module__ == mod.__name__}

        def work(nm):
            r, got = random.Random(f"{seed} {nm}"), None
            ps = list(inspect.signature(fs[nm]).parameters)
            for k in range(rounds):
                v = compare(Program(d), f"building3d.st:{nm}", {q: x for q, x in arguments(r).items() if q in ps}, fs[nm])
                got = v if got is None or RANK.index(v[0]) > RANK.index(got[0]) else got
            return got

        seed = rng.random()
        return in_processes(fs, work)
    finally:
        shutil.rmtree(d)


def part_repo(rng, rounds, reg):
    """functions of the repository on the inputs of their contracts"""
    seed = rng.random()

    def work(n):
        ct, got = reg[n], None
        f = C.real_function(ct.fq)
        names = list(inspect.signature(f).parameters)
        for k in range(rounds):
            args = {q: v for q, v in ct.gen(random.Random(f"{seed} {n} {k}"), k).items() if q in names}
            if any(isinstance(v, np.ndarray) and v.size > 40 for v in args.values()):
                continue
            v = compare(Program(), ct.fq, args, f)
            got = v if got is None or RANK.index(v[0]) > RANK.index(got[0]) else got
        return got or ("unsupported", "inputs too large")

    return in_processes([n for n, ct in reg.items() if ct.fq and ct.gen is not None and ct.setup is None and ct.real is None], work)


BODIES = [  # header, right body, wrong bodies, inputs, postcondition
    ("def f(xs, n):", "s = 0.0\n    for i in range(n):\n        s += xs[i]\n    return s", ["s = 0.0\n    for i in range(n):\n        s = xs[i]\n    return s", "s = 0.0\n    for i in range(1, n):\n        s += xs[i]\n    return s", "s = 1.0\n    for i in range(n):\n        s += xs[i]\n    return s", "s = 0.0\n    for i in range(n - 1):\n        s += xs[i]\n    return s"],
     lambda S: dict(xs=S.arr("xs", (4,)), n=4), lambda S, a, r, old: [("sum", S.eq(r, S.el(old["xs"], 0) + S.el(old["xs"], 1) + S.el(old["xs"], 2) + S.el(old["xs"], 3)))]),
    ("def f(a, b):", "if a > b:\n        return a\n    return b", ["if a < b:\n        return a\n    return b", "return a", "return a + b - b", "if a > b + 1:\n        return a\n    return b"],
     lambda S: dict(a=S.real("a"), b=S.real("b")), lambda S, a, r, old: [("largest", S.And(S.le(old["a"], r), S.le(old["b"], r), S.Or(S.eq(r, old["a"]), S.eq(r, old["b"]))))]),
    ("def f(a, b):", "return (a - b) * (a + b)", ["return (a - b) * (a - b)", "return a * a + b * b", "return (a - b) * (a + b) + a * 0.001", "return a * a - b * b * b"],
     lambda S: dict(a=S.real("a"), b=S.real("b")), lambda S, a, r, old: [("difference of squares", S.eq(r, old["a"] * old["a"] - old["b"] * old["b"]))]),
    ("def f(xs, v):", "for i in range(xs.shape[0]):\n        if xs[i] == v:\n            return i\n    return -1", ["for i in range(xs.shape[0]):\n        if xs[i] == v:\n            return i + 1\n    return -1", "for i in range(xs.shape[0] - 1):\n        if xs[i] == v:\n            return i\n    return -1", "return -1", "for i in range(xs.shape[0]):\n        if xs[i] >= v:\n            return i\n    return -1"],
     lambda S: dict(xs=S.arr("xs", (3,)), v=S.real("v")), lambda S, a, r, old: [("found where it is", S.Implies(S.le(0, r), S.exists(3, lambda i: S.And(S.eq(i, r), S.eq(S.el(old["xs"], i), old["v"]))))), ("not found only when absent", S.Implies(r < 0, S.forall(3, lambda i: S.Not(S.eq(S.el(old["xs"], i), old["v"])))))]),
    ("def f(xs):", "ys = xs.copy()\n    ys[0] = 0.0\n    return ys", ["ys = xs\n    ys[0] = 0.0\n    return ys", "ys = xs.copy()\n    return ys", "ys = xs[:]\n    ys[0] = 0.0\n    return ys"],
     lambda S: dict(xs=S.arr("xs", (3,))), lambda S, a, r, old: [("first is zero, the rest kept", S.And(S.eq(S.el(r, 0), 0.0), S.eq(S.el(r, 1), S.el(old["xs"], 1)), S.eq(S.el(r, 2), S.el(old["xs"], 2))))]),
    ("def f(k):", "d = {'a': 1, 'b': 2}\n    if k in d:\n        return d[k]\n    return 0", ["d = {'a': 1, 'b': 2}\n    return d[k]", "d = {'a': 1, 'b': 3}\n    if k in d:\n        return d[k]\n    return 0", "d = {'a': 1, 'b': 2}\n    if k in d:\n        return d[k]\n    raise ValueError('x')"],
     lambda S: dict(k=S.str("k")), lambda S, a, r, old: [("looked up", S.And(S.Implies(S.eq(old["k"], "a"), S.eq(r, 1)), S.Implies(S.eq(old["k"], "b"), S.eq(r, 2)), S.Or(S.eq(old["k"], "a"), S.eq(old["k"], "b"), S.eq(r, 0))))]),
]


def part_bodies():
    out = {}
    for k, (head, good, bad, inp, post) in enumerate(BODIES):
        for j, body in enumerate([good] + bad):
            d = tempfile.mkdtemp(prefix="pyvc-selftest-")
            try:
                os.makedirs(os.path.join(d, "building3d"))
                open(os.path.join(d, "building3d", "__init__.py"), "w").close()
                with open(os.path.join(d, "building3d", "st.py"), "w") as f:
                    f.write(f"{head}\n    {body}\n")
                ct = C.Contract(f"_selftest_{k}_{j}", "building3d.st:f", [], inputs=inp, post=post)
                C.REGISTRY.pop(ct.name, None)
                r = C.prove(ct, inp, "", True, 5, 20, 200, repo=d)
                want = "proved" if j == 0 else "refuted"
                out[f"body {k}.{j}"] = ("ok", "") if r.status == want and (j or r.proved) else ("differs", f"{r.status} instead of {want}: {body!r} {r.unsupported}")
            finally:
                shutil.rmtree(d)
    return out


def part_ring(rng):
    """random polynomial equalities, true ones by expansion and false ones by a changed coefficient, under equations as hypotheses"""
    out = {}
    xs = z3.Reals("x y z w")

    def poly(depth=3):
        if depth == 0 or rng.random() < 0.2:
            return rng.choice(xs) if rng.random() < 0.7 else z3.RealVal(rng.randint(-3, 3))
        p, q = poly(depth - 1), poly(depth - 1)
        return rng.choice([lambda: p + q, lambda: p - q, lambda: p * q])()

    for k in range(30):
        p, q = poly(), poly()
        lhs, rhs = (p + q) * (p - q), p * p - q * q
        extra = rng.choice(xs) * rng.choice(xs) * z3.RealVal(1)
        for nm, goal, true in ((f"ring true {k}", lhs == rhs, True), (f"ring false {k}", lhs == rhs + extra, False)):
            res = []

            def body(c):
                c.prove(nm, C_mkbool(goal), kind="post")

            r = Run(nm, body, timeout=5, max_paths=4, wall=20)
            r.go()
            got = r.status == "proved"
            out[nm] = ("ok", "") if got == true else (("unsupported", "true equality not proved") if true else ("differs", f"false equality proved: {goal}"))
    return out


def C_mkbool(t):
    from .values import mkbool

    return mkbool(t)


def main(here, rounds=6):
    from . import driver

    reg = driver.load_contracts(here)
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    bad = 0
    for title, part in (("language and numpy", lambda: part_language(rng, rounds)), ("functions of the repository", lambda: part_repo(rng, 4, reg)), ("broken bodies", part_bodies), ("polynomial equalities", lambda: part_ring(rng))):
        res = part()
        n = {v: sum(1 for x in res.values() if x[0] == v) for v in ("ok", "loose", "unsupported", "differs")}
        print(f"{title}: {n['ok']} agree, {n['loose']} allowed but not determined, {n['unsupported']} not supported, {n['differs']} differ")
        for k, (v, t) in res.items():
            if v != "ok":
                print(f"  {v}: {k}: {t[:300]}", flush=True)
        bad += n["differs"]
        if not n["ok"]:
            bad += 1
    return 1 if bad else 0
