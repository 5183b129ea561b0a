"""Impulse responses from recorded hits."""
import z3
from contracts import rays as R

from pyvc import symobj as so
from pyvc.contract import Contract, loops
from pyvc.values import CArr, LArr, PyDict, SF, Unsupported, it, vite

F = f"{R.IR}:impulse_response"


class Index:
    def __init__(self, arr):
        self.arr = arr


class Frame:
    """pandas.DataFrame(index=Index): columns added one after another, labels 0, 1, ..."""

    def __init__(self, index):
        self.index, self.n, self.at = index, 0, None

    def _vc_setitem(self, I, key, v):
        if not isinstance(v, (CArr, LArr)) or v.ndim != 1:
            raise Unsupported("column")
        if not (key == self.n if isinstance(key, int) and isinstance(self.n, int) else I.truth(I.equal(key, self.n))):
            raise Unsupported("columns in another order")
        # as pandas: a column of another length is an error
        I.c.side("column as long as the index", it(v.shape[0]) == it(self.index.arr.shape[0]))
        I.c.note_write(self)
        old, n, g = self.at, self.n, v.copy()
        self.at = lambda i, j: g.elem((i,)) if old is None else vite(it(j) == it(n), g.elem((i,)), old(i, j))
        self.n = n + 1


def setup(S, I):
    I.ext_models["pandas.Index"] = lambda I, arr, name=None: Index(arr)
    I.ext_models["pandas.DataFrame"] = lambda I, index=None: Frame(index)


def inputs(n, m):
    def f(S):
        n_ = n if n is not None else S.int("n")
        m_ = m if m is not None else S.int("m")
        for x, lo in ((n_, 1), (m_, 1)):
            if not isinstance(x, int):
                S.c.assume(x.t >= lo)
        h = S.arr("hit", (n_, m_))
        dt = S.real("dt")
        return dict(h=h, dt=dt, n=n_, m=m_, cfg=so.obj(S.I, "building3d.sim.rays.simulation_config:SimulationConfig", engine=PyDict({"time_step": dt})))

    return f


def invoke(S, I, a):
    return I.call_fq(F, [a["h"], a["cfg"]])


def totals(S, a, old):
    """(facts, largest total M of an absorber)"""
    h, n, m = old["h"], a["n"], a["m"]
    M = SF(z3.Real("largest total"))
    if isinstance(m, int):
        ts = [S.psum(h, j) if not isinstance(n, int) else sum(S.el(h, i, j) for i in range(n)) for j in range(m)]
        return [S.Or(*[S.eq(M, t) for t in ts])] + [M >= t for t in ts], M
    rec = S.c.ghost.get("totals", [])
    if len(rec) != 1:
        raise Unsupported("totals of columns taken several times")
    shape, g, T = rec[0]
    S.same = S.And(S.eq(shape[0], n), S.eq(shape[1], m), S.forall(n, lambda i: S.forall(m, lambda j: S.eq(g((i, j)), S.el(h, i, j)))))
    return [S.exists(m, lambda j: S.eq(T(j), M)), S.forall(m, lambda j: T(j) <= M)], M


def no_hits(S, old, e):
    if e != "AssertionError":
        return False
    if not S.sym:
        return float(old["h"].sum(axis=0).max()) <= 0
    facts, M = totals(S, old, old)
    return S.Implies(S.And(*facts), M <= 0)


def post(S, a, r, old):
    if not S.sym:
        yield from R.ir_post(S, a, r, old)
        return
    n, m, h = a["n"], a["m"], old["h"]
    facts, M = totals(S, a, old)
    if not isinstance(m, int):
        yield "totals are those of the recorded hits", S.same
    t = r.index.arr
    yield "one row per recorded step", S.eq(t.shape[0], n)
    yield "at its time", S.forall(n, lambda i: S.eq(S.el(t, i), i * a["dt"]))
    yield "one column per absorber", S.eq(r.n, m)
    yield "values are the hits divided by the largest total of an absorber", S.Implies(S.And(*facts), S.forall(n, lambda i: S.forall(m, lambda j: S.eq(r.at(i, j) * M, S.el(h, i, j)))))


def fresh_frame(S, f):
    fn = S.c.fresh_fn("column", z3.IntSort(), z3.IntSort(), z3.RealSort())
    f.n = S.c.fresh_int("columns")
    f.at = lambda i, j: SF(fn(it(i), it(j)))


def l0_inv(S, e, k, o):
    ir, h = e.ir, e.hit_inst
    yield "columns so far", S.eq(ir.n, k)
    yield "their values", S.forall(h.shape[0], lambda i: S.forall(k, lambda j: S.eq(ir.at(i, j), S.el(h, i, j))))


loops(F, 1, l0=dict(inv=l0_inv, fresh=dict(ir=fresh_frame)))
Contract("impulse_response_proof", None, ["P27"], inputs=inputs(None, None), bounded=[(f"{n} steps, {m} absorbers", inputs(n, m)) for n, m in ((1, 1), (2, 2), (3, 2), (2, 3))], setup=setup, invoke=invoke, post=post,
         raises=no_hits, gen=R.ir_gen, ngen=5, real=R.ir_real, functions=[F], frame=False)
