"""Proofs about the intersection of lines and segments, and about points of a triangle."""
import numpy as np
import z3
from contracts.location import B, R, fn, v3
from contracts.solids import skey

from pyvc.contract import Contract, abstract, expect, row, vadd, vcross, vdot, vscale, vsub
from pyvc.values import CArr, SF, _tb

IX = "building3d.geom.points.intersections"
LI, LSI = f"{IX}:line_intersection", f"{IX}:line_segment_intersection"
SEG = "building3d.geom.points:is_point_on_segment"


def arr(v):
    return CArr(np.array(list(v), dtype=object), "f")


# ------------------------------------------------------------------ the common point of two lines
def li_inputs(S):
    """lines through p and p + off * u1 x u2, with directions u1 and u2 of any length"""
    p, u1, u2 = (tuple(S.real(f"{k}{c}", lo=-100, hi=100) for c in range(3)) for k in ("p", "u", "w"))
    l1, l2 = S.real("l1", lo=0.01, hi=100), S.real("l2", lo=0.01, hi=100)
    t, s, off = S.real("t", lo=-100, hi=100), S.real("s", lo=-100, hi=100), S.real("off", lo=-100, hi=100)
    d1, d2 = vscale(l1, u1), vscale(l2, u2)
    n = vcross(u1, u2)
    S.c.ghost["li"] = dict(p=p, u1=u1, u2=u2, gap=vscale(off, n), l1=l1, l2=l2, t=t, s=s, d1=d1, d2=d2)
    return dict(pt1=arr(vsub(p, vscale(t, d1))), d1=arr(d1), pt2=arr(vsub(vadd(p, vscale(off, n)), vscale(s, d2))), d2=arr(d2))


def li_pre(S, a):
    if S.sym:
        g = S.c.ghost["li"]
        yield "unit directions", S.And(S.eq(vdot(g["u1"], g["u1"]), 1.0), S.eq(vdot(g["u2"], g["u2"]), 1.0))
        c = vdot(g["u1"], g["u2"])
        yield "not parallel", S.gt(1 - 1e-6, c * c)
        return
    d1, d2 = a["d1"], a["d2"]
    l1, l2 = np.linalg.norm(d1), np.linalg.norm(d2)
    yield "directions of moderate length, not parallel", 0.005 < l1 < 200 and 0.005 < l2 < 200 and np.linalg.norm(np.cross(d1 / l1, d2 / l2)) > 1e-3


def li_lemmas(S, a, r, old):
    try:
        li_steps(S, a)
    except Unproved:
        pass
    return []


class Unproved(Exception):
    pass


def li_steps(S, a):
    """each step uses steps before it, so the first one without a proof ends them"""
    def fact(*x, **kw):
        if not S.c.lemma(*x, **kw):
            raise Unproved

    g = S.c.ghost["li"]
    u1, u2, l1, l2, t, s = (g[k] for k in ("u1", "u2", "l1", "l2", "t", "s"))
    c = vdot(u1, u2)
    unit = [_tb(S.eq(vdot(u, u), 1.0)) for u in (u1, u2)]
    pos = [_tb(S.gt(l1, 0.0)), _tb(S.gt(l2, 0.0))]
    apart = _tb(S.gt(1 - 1e-6, c * c))
    for x, u, d, l, e in ((1, u1, g["d1"], l1, unit[0]), (2, u2, g["d2"], l2, unit[1])):
        n = S.norm(d)
        fact(f"square of length {x}", _tb(S.eq(vdot(d, d), l * l)), using=[e])
        fact(f"length {x}", _tb(S.eq(n, l)), using=[*pos, _tb(S.eq(n * n, vdot(d, d))), _tb(S.ge(n, 0.0)), _tb(S.eq(vdot(d, d), l * l))])
        for k in range(3):
            for nm, y, w in (("unit vector", d[k], u[k]), ("opposite unit vector", -1 * d[k], -u[k])):
                q = y / n
                fact(f"{nm} {x}{k}", _tb(S.eq(q, w)), using=[*pos, _tb(S.eq(n, l)), _tb(S.eq(q * n, y))])
            fact(f"small component {x}{k}", _tb(S.And(S.le(u[k], 1.0), S.ge(u[k], -1.0))), using=[e])
    for nm, w, sg in (("same", u2, 1), ("opposite", vscale(-1, u2), -1)):
        near = [_tb(S.le(S.abs(u1[k] - w[k]), 1e-8 + 1e-5 * S.abs(w[k]))) for k in range(3)]
        sq = [(u1[k] - w[k]) * (u1[k] - w[k]) for k in range(3)]
        for k in range(3):
            fact(f"{nm}: square {k}", z3.Implies(near[k], _tb(S.le(sq[k], 1.3e-10))), using=[_tb(S.And(S.le(u2[k], 1.0), S.ge(u2[k], -1.0)))])
        fact(f"{nm}: sum of squares", _tb(S.eq(sq[0] + sq[1] + sq[2], 2 - 2 * sg * c)), using=unit)
        b, e, y = z3.Bools("b0 b1 b2"), z3.Reals("e0 e1 e2"), z3.Real("y")
        fact(f"not {nm} directions", z3.Not(z3.And(*near)), general=z3.Not(z3.And(*b)),
                  using=[*[z3.Implies(b[k], e[k] <= z3.Q(13, 10**11)) for k in range(3)], e[0] + e[1] + e[2] == 2 - 2 * sg * y, 1 - z3.Q(1, 10**6) > y * y])
    for x, eqs in S.c.ghost.get("lstsq", []):
        e, f = x[0] - t, x[1] - s
        eq1, eq2 = _tb(S.eq(l1 * e, c * l2 * f)), _tb(S.eq(l2 * f, c * l1 * e))
        L, U, K, y, z = z3.Reals("L U K y z")
        gen = dict(using=[L == 0, U == 1, L == y * (y * z * U - K)], general=y * (y * z - K) == 0)
        fact("first normal equation, expanded", _tb(S.eq(eqs[0], l1 * (l1 * e * vdot(u1, u1) - c * l2 * f))), using=[])
        fact("second normal equation, expanded", _tb(S.eq(eqs[1], l2 * (l2 * f * vdot(u2, u2) - c * l1 * e))), using=[])
        fact("first normal equation", _tb(S.eq(l1 * (l1 * e - c * l2 * f), 0.0)), **gen)
        fact("second normal equation", _tb(S.eq(l2 * (l2 * f - c * l1 * e), 0.0)), **gen)
        fact("first", eq1, using=[*pos, _tb(S.eq(l1 * (l1 * e - c * l2 * f), 0.0))])
        fact("second", eq2, using=[*pos, _tb(S.eq(l2 * (l2 * f - c * l1 * e), 0.0))])
        fact("product", _tb(S.eq((1 - c * c) * (l1 * e), 0.0)), using=[eq1, eq2])
        fact("on the first line", _tb(S.eq(x[0], t)), using=[*pos, apart, _tb(S.eq((1 - c * c) * (l1 * e), 0.0))])
        fact("on the second line", _tb(S.eq(x[1], s)), using=[*pos, eq2, _tb(S.eq(x[0], t))])
        for k in range(3):
            fact(f"point {k}", _tb(S.eq(S.el(a["pt1"], k) + x[0] * g["d1"][k], g["p"][k])), using=[_tb(S.eq(x[0], t))])
            fact(f"other point {k}", _tb(S.eq(S.el(a["pt2"], k) + x[1] * g["d2"][k], g["p"][k] + g["gap"][k])), using=[_tb(S.eq(x[1], s))])


def closest(a):
    A = np.array([a["d1"], -a["d2"]]).T
    t, s = np.linalg.solve(A.T @ A, A.T @ (a["pt2"] - a["pt1"]))
    return a["pt1"] + t * a["d1"], a["pt2"] + s * a["d2"]


def li_post(S, a, r, old):
    if not S.sym:
        p, q = closest(old)
        if np.abs(p - q).max() < 1e-12:
            yield "the common point", bool(np.allclose(r, p, atol=1e-6, rtol=1e-6))
        elif np.abs(p - q).max() > 1e-7 + 2e-5 * max(np.abs(p).max(), np.abs(q).max()):
            yield "no intersection: nan", bool(np.isnan(r).all())
        return
    g = S.c.ghost["li"]
    p, gap = g["p"], g["gap"]
    nan = [S.isnan(S.el(r, k)) for k in range(3)]
    yield "all or no coordinates", S.And(S.eq(nan[0], nan[1]), S.eq(nan[0], nan[2]))
    yield "lines that meet: their common point", S.Implies(S.And(*[S.eq(x, 0.0) for x in gap]), S.And(S.Not(nan[0]), *[S.eq(S.el(r, k), p[k]) for k in range(3)]))
    yield "a point is a common point up to the tolerance", S.Implies(S.Not(nan[0]), S.And(*[S.And(S.eq(S.el(r, k), p[k]), S.le(S.abs(gap[k]), 1e-8 + 1e-5 * S.abs(p[k] + gap[k]))) for k in range(3)]))


Contract("line_intersection_proof", LI, ["P09"], inputs=li_inputs, bounded=[("any lines", li_inputs)], pre=li_pre, post=li_post, lemmas=li_lemmas, timeout=10, wall=120,
         note="np.linalg.lstsq is known to satisfy the normal equations; directions at more than a thousandth of a radian")


def lp_inputs(S):
    u = tuple(S.real(f"u{c}", lo=-1, hi=1) for c in range(3))
    l1, l2 = S.real("l1", lo=0.01, hi=100), S.real("l2", lo=-100, hi=100)
    S.c.ghost["lp"] = (u, l1, l2)
    return dict(pt1=S.vec("p"), d1=arr(vscale(l1, u)), pt2=S.vec("q"), d2=arr(vscale(l2, u)))


def lp_pre(S, a):
    if S.sym:
        u, _, l2 = S.c.ghost["lp"]
        yield "unit direction", S.eq(vdot(u, u), 1.0)
        yield "second direction not zero", S.Or(S.gt(l2, 0.01), S.gt(-0.01, l2))


def lp_lemmas(S, a, r, old):
    u, l1, l2 = S.c.ghost["lp"]
    sg = 1 if S.case(S.gt(l2, 0.0)) else -1
    unit = _tb(S.eq(vdot(u, u), 1.0))
    for x, l, w in ((1, l1, u), (2, sg * l2, vscale(sg, u))):
        d = v3(a[f"d{x}"])
        n = S.norm(d)
        pos = _tb(S.gt(l, 0.0))
        if not (S.c.lemma(f"square of length {x}", _tb(S.eq(vdot(d, d), l * l)), using=[unit])
                and S.c.lemma(f"length {x}", _tb(S.eq(n, l)), using=[pos, _tb(S.eq(n * n, vdot(d, d))), _tb(S.ge(n, 0.0)), _tb(S.eq(vdot(d, d), l * l))])):
            return []
        for k in range(3):
            for nm, y, z in (("unit vector", d[k], w[k]), ("opposite unit vector", -1 * d[k], -w[k])):
                q = y / n
                S.c.lemma(f"{nm} {x}{k}", _tb(S.eq(q, z)), using=[pos, _tb(S.eq(n, l)), _tb(S.eq(q * n, y))])
    return []


def lp_post(S, a, r, old):
    yield "parallel lines: nan", S.And(*[S.isnan(S.el(r, k)) for k in range(3)])


Contract("line_intersection_parallel", LI, ["P09"], inputs=lp_inputs, bounded=[("any parallel lines", lp_inputs)], pre=lp_pre, post=lp_post, lemmas=lp_lemmas, timeout=10, wall=60)


# ------------------------------------------------------------------ the common point of two segments
def ls_inputs(S):
    return dict(pa1=S.vec("a1"), pb1=S.vec("b1"), pa2=S.vec("a2"), pb2=S.vec("b2"))


def ls_setup(S, I):
    nowhere = I.prog.import_from("building3d.geom.types", "INVALID_PT")

    def meet(pt1, d1, pt2, d2):
        x = (v3(pt1), v3(d1), v3(pt2), v3(d2))
        if S.case(fn("meet", B, *x)):
            return arr(fn(f"at{k}", R, *x) for k in range(3))
        return nowhere

    def on(p, q1, q2, atol):
        if any(isinstance(x, SF) and x.nan is True for x in v3(p)):
            return False
        return fn("on", B, v3(p), v3(q1), v3(q2))

    abstract(I, LI, meet)
    abstract(I, SEG, on)


def ls_post(S, a, r, old):
    if not S.sym:
        return
    a1, b1, a2, b2 = (v3(old[k]) for k in ("pa1", "pb1", "pa2", "pb2"))
    x = (a1, vsub(b1, a1), a2, vsub(b2, a2))
    at = tuple(fn(f"at{k}", R, *x) for k in range(3))
    ok = S.And(fn("meet", B, *x), fn("on", B, at, a1, b1), fn("on", B, at, a2, b2))
    yield "a point exactly when the lines meet on both segments", S.And(*[S.eq(S.Not(S.isnan(S.el(r, k))), ok) for k in range(3)])
    yield "it is the common point of the lines", S.Implies(ok, S.And(*[S.eq(S.el(r, k), at[k]) for k in range(3)]))


Contract("line_segment_intersection_proof", LSI, ["P09"], inputs=ls_inputs, bounded=[("any segments", ls_inputs)], post=ls_post, setup=ls_setup, abstracts=[LI, SEG],
         note="line_intersection and is_point_on_segment by their contracts")


# ------------------------------------------------------------------ points of a triangle
TR = "building3d.geom.triangles"
INS, COL, SIDE = f"{TR}:is_point_inside", "building3d.geom.points:are_points_collinear", f"{TR}:is_point_on_same_side"


def tr_inputs(S):
    """the point with barycentric coordinates b of any triangle"""
    p = [tuple(S.real(f"p{i}{c}", lo=-100, hi=100) for c in range(3)) for i in range(3)]
    b2, b3 = S.real("b1"), S.real("b2")
    b = (1 - b2 - b3, b2, b3)
    t = vadd(p[0], vadd(vscale(b2, vsub(p[1], p[0])), vscale(b3, vsub(p[2], p[0]))))
    S.c.ghost["tr"] = dict(p=p, b=b, t=t, at={skey(q): i for i, q in enumerate(p)}, test=skey(t))
    tr_facts(S, p, b, t)
    return dict(ptest=arr(t), pt1=arr(p[0]), pt2=arr(p[1]), pt3=arr(p[2]), atol=1e-13)


def tr_setup(S, I):
    def third(p, q):
        at = S.c.ghost["tr"]["at"]
        i, j = at.get(skey(p)), at.get(skey(q))
        expect(i is not None and j is not None and i != j)
        return 3 - i - j

    def collinear(pts, atol):
        rows = [pts.a[i] for i in range(S.shape(pts)[0])]
        rest = [x for x in rows if skey(x) != S.c.ghost["tr"]["test"]]
        expect(len(rows) == 3 and len(rest) == 2)
        return S.eq(S.c.ghost["tr"]["b"][third(*rest)], 0.0)

    def same_side(p, q, t, ref, atol):
        k = third(p, q)
        expect(skey(t) == S.c.ghost["tr"]["test"] and S.c.ghost["tr"]["at"].get(skey(ref)) == k)
        return S.gt(S.c.ghost["tr"]["b"][k], 0.0)

    abstract(I, COL, collinear)
    abstract(I, SIDE, same_side)


def tr_facts(S, p, b, t):
    """where the coordinates of the point lie, proved once"""
    for k in range(3):
        x = [q[k] for q in p]
        inside = S.And(*[S.ge(y, 0.0) for y in b])
        S.c.lemma(f"within the extent {k}", _tb(S.Implies(inside, S.And(S.Or(*[S.le(t[k], y) for y in x]), S.Or(*[S.ge(t[k], y) for y in x])))), using=[])
        for i in range(3):
            u, v = (i + 1) % 3, (i + 2) % 3
            S.c.lemma(f"on edge {i}, {k}", _tb(S.Implies(S.And(inside, S.eq(b[i], 0.0)), S.And(S.Or(S.le(t[k], x[u]), S.le(t[k], x[v])), S.Or(S.ge(t[k], x[u]), S.ge(t[k], x[v]))))), using=[])
            for w, z in ((u, v), (v, u)):
                beyond = S.And(S.eq(b[i], 0.0), S.gt(0.0, b[w]))
                S.c.lemma(f"beyond corner {z} on edge {i}, {k}", _tb(S.Implies(beyond, S.Or(S.And(S.le(t[k], x[z]), S.le(x[z], x[w])), S.And(S.ge(t[k], x[z]), S.ge(x[z], x[w]))))), using=[])


def tr_post(S, a, r, old):
    if not S.sym:
        return
    g = S.c.ghost["tr"]
    b, t = g["b"], g["t"]
    yield "a point of the triangle is inside", S.Implies(S.And(*[S.ge(x, 0.0) for x in b]), r)
    far = S.And(*[S.Or(*[S.gt(S.abs(t[k] - q[k]), 0.01) for k in range(3)]) for q in g["p"]])
    yield "any other point of the plane, not close to a corner, is not", S.Implies(S.And(far, S.Or(*[S.gt(0.0, x) for x in b])), S.Not(r))


Contract("is_point_inside_triangle_proof", INS, ["P09", "P07"], inputs=tr_inputs, bounded=[("any triangle", tr_inputs)], post=tr_post, setup=tr_setup, abstracts=[COL, SIDE], timeout=20, wall=120,
         note="are_points_collinear and is_point_on_same_side by their contracts, without their tolerances")


# ------------------------------------------------------------------ rotation onto a plane
RO = "building3d.geom.rotation"
NRM, MAT, ANG = "building3d.geom.vectors:normal", f"{RO}:rotation_matrix", "building3d.geom.vectors:angle"


def pl_inputs(n=None):
    def f(S):
        m = S.int("n", lo=3) if n is None else n
        pts = S.points("pts", m)
        nrm = tuple(S.real(f"nrm{k}") for k in range(3))
        S.c.ghost["pl"] = dict(nrm=nrm, corner=[row(S, pts, i) for i in (m - 1, 0, 1)])
        return dict(pts=pts, anchor=S.vec("anchor"), u=S.vec("u"), d=S.real("d"))

    return f


def pl_pre(S, a):
    if S.sym:
        n = S.c.ghost["pl"]["nrm"]
        yield "the points have a unit normal", S.eq(vdot(n, n), 1.0)
        yield "unit normal of the plane", S.eq(vdot(v3(a["u"]), v3(a["u"])), 1.0)


def matrix(axis, phi):
    return CArr(np.array([[fn(f"rot{i}{j}", R, axis, phi) for j in range(3)] for i in range(3)], dtype=object), "f")


def pl_setup(S, I):
    def nrm(p, q, r):
        g = S.c.ghost["pl"]
        k = [skey(v3(x)) for x in (p, q, r)]
        want = [skey(x) for x in g["corner"]]
        expect(k in (want, want[1:] + want[:1], want[2:] + want[:2]))
        return arr(g["nrm"])

    abstract(I, NRM, nrm)
    abstract(I, ANG, lambda v, w: fn("angle", R, *sorted((v3(v), v3(w)), key=skey)))
    abstract(I, MAT, lambda axis, phi: matrix(v3(axis), phi))


def pl_post(S, a, r, old):
    if not S.sym:
        return
    out, axis, phi = r
    pts, c, u, d = old["pts"], v3(old["anchor"]), v3(old["u"]), old["d"]
    n = S.c.ghost["pl"]["nrm"]
    x = vcross(n, u)
    m = S.shape(pts)[0]
    yield "as many points", S.eq(S.shape(out)[0], m)
    small = S.And(*[S.gt(1e-13, S.abs(x[k])) for k in range(3)])
    if S.case(small):
        yield "no rotation", S.eq(phi, 0.0)
        turned = lambda v: v
    else:
        l = S.norm(x)
        yield "the axis is perpendicular to both normals", S.And(*[S.eq(S.el(axis, k) * l, x[k]) for k in range(3)])
        ang = fn("angle", R, *sorted((n, u), key=skey))
        yield "the angle between the normals", S.eq(phi, ang)
        M = matrix(v3(axis), ang).a
        turned = lambda v: tuple(vdot(tuple(M[i]), v) for i in range(3))
    # an anchor that counts as the origin is not used
    used = S.case(S.Or(*[S.gt(S.abs(c[k]), 1e-6) for k in range(3)]))
    unused = False if used else S.And(*[S.eq(c[k], 0.0) for k in range(3)])
    for k in range(3):
        ok = lambda i, k=k: S.eq(S.el(out, i, k), vadd(vadd(turned(vsub(row(S, pts, i), c)), c), vscale(d, u))[k])
        yield f"turned about the anchor, then shifted along the normal (coordinate {k})", S.forall(m, ok) if used else S.Implies(unused, S.forall(m, ok))


Contract("rotate_points_to_plane_proof", f"{RO}:rotate_points_to_plane", ["P11"], inputs=pl_inputs(), bounded=[("3 points", pl_inputs(3)), ("5 points", pl_inputs(5))], pre=pl_pre, post=pl_post, setup=pl_setup,
         abstracts=[NRM, MAT], timeout=15, wall=60, note="normal, angle and rotation_matrix by their contracts")


# ------------------------------------------------------------------ the angle between two vectors
def an_inputs(S):
    return dict(v1=S.vec("v"), v2=S.vec("w"))


def an_pre(S, a):
    for k in ("v1", "v2"):
        yield "not zero", S.gt(vdot(v3(a[k]), v3(a[k])), 1e-6)


def an_lemmas(S, a, r, old):
    v, w = v3(old["v1"]), v3(old["v2"])
    m, n = S.norm(v), S.norm(w)
    x, y, d, c = vdot(v, v), vdot(w, w), vdot(v, w), vcross(v, w)
    f = sum(((v[k] / m) * (w[k] / n) for k in (1, 2)), (v[0] / m) * (w[0] / n))
    lagrange = _tb(S.eq(x * y - d * d, vdot(c, c)))
    pos = [_tb(S.gt(m, 0.0)), _tb(S.gt(n, 0.0))]
    A, D, F, X, Y, C, M, N = z3.Reals("A D F X Y C M N")
    ok = S.c.lemma("Lagrange", lagrange, using=[]) and S.c.lemma("lengths", z3.And(*pos), using=[_tb(S.eq(m * m, x)), _tb(S.eq(n * n, y)), _tb(S.gt(x, 1e-6)), _tb(S.gt(y, 1e-6)), _tb(S.ge(m, 0.0)), _tb(S.ge(n, 0.0))])
    for k in range(3):
        q, p = v[k] / m, w[k] / n
        ok = ok and S.c.lemma(f"component {k}", _tb(S.eq((q * p) * (m * n), v[k] * w[k])), using=[*pos, _tb(S.eq(q * m, v[k])), _tb(S.eq(p * n, w[k]))])
    qs = z3.Reals("q0 q1 q2")
    ps = z3.Reals("p0 p1 p2")
    ok = ok and S.c.lemma("cosine", _tb(S.eq(f * (m * n), d)), general=(qs[0] + qs[1] + qs[2]) * A == ps[0] + ps[1] + ps[2], using=[qs[k] * A == ps[k] for k in range(3)])
    if ok:
        S.c.lemma("not above one", _tb(S.And(S.le(f, 1.0), S.ge(f, -1.0))), general=z3.And(F <= 1, F >= -1), using=[F * (M * N) == D, M > 0, N > 0, M * M == X, N * N == Y, X * Y - D * D == C, C >= 0])
    return []


def an_post(S, a, r, old):
    from contracts.measures import trig
    v, w = v3(old["v1"]), v3(old["v2"])
    cs, sn = trig(S, r)
    yield "between 0 and pi", S.And(S.ge(r, 0.0), S.le(r, 3.1415926536))
    yield "its cosine", S.eq(cs * (S.norm(v) * S.norm(w)), vdot(v, w))


def an_gen(rng, i):
    from pyvc import gen as G
    v, w = G.rvec(rng), G.rvec(rng) if i % 2 else G.gvec(rng)
    if i % 5 == 0 or np.linalg.norm(w) < 0.1:
        w = rng.choice([1.0, -1.0, 0.5, -3.0]) * v
    return dict(v1=v, v2=w)


Contract("angle", ANG, ["P11"], inputs=an_inputs, bounded=[("any", an_inputs)], pre=an_pre, post=an_post, lemmas=an_lemmas, gen=an_gen, ngen=100, timeout=15)


# ------------------------------------------------------------------ rotating one normal onto another
def rn_inputs(S):
    """the axis e and the angle of two unit vectors n and w: e sin = n x w, cos = n . w"""
    n, w, e = (tuple(S.real(f"{k}{c}") for c in range(3)) for k in "nwe")
    S.c.ghost["rn"] = (n, w)
    return dict(u=arr(e), phi=S.real("phi"))


def rn_pre(S, a):
    from contracts.measures import trig
    e = v3(a["u"])
    yield "unit axis", S.eq(vdot(e, e), 1.0)
    if S.sym:
        n, w = S.c.ghost["rn"]
        cs, sn = trig(S, a["phi"])
        yield "unit normals", S.And(S.eq(vdot(n, n), 1.0), S.eq(vdot(w, w), 1.0))
        yield "the angle between them, not parallel", S.And(S.eq(cs, vdot(n, w)), S.gt(sn, 0.0))
        yield "the axis is perpendicular to both", S.And(*[S.eq(e[k] * sn, vcross(n, w)[k]) for k in range(3)])


def rn_lemmas(S, a, r, old):
    from contracts.measures import trig
    n, w = S.c.ghost["rn"]
    e = v3(old["u"])
    cs, sn = trig(S, old["phi"])
    x = vcross(n, w)
    axis = [_tb(S.eq(e[k] * sn, x[k])) for k in range(3)]
    nn, pos, co, ee = _tb(S.eq(vdot(n, n), 1.0)), _tb(S.gt(sn, 0.0)), _tb(S.eq(cs, vdot(n, w))), _tb(S.eq(vdot(e, e), 1.0))
    c = vcross(e, n)
    en = _tb(S.eq(vdot(e, n), 0.0))
    A, B_, C_, D, X, Y, Z = z3.Reals("A B C D X Y Z")
    ok = S.c.lemma("n x w is perpendicular to n", _tb(S.eq(vdot(x, n), 0.0)), using=[])
    ok = ok and S.c.lemma("axis and normal", _tb(S.eq(vdot(e, n) * sn, 0.0)), using=axis + [_tb(S.eq(vdot(x, n), 0.0))])
    ok = ok and S.c.lemma("perpendicular", en, general=A == 0, using=[A * B_ == 0, B_ > 0])
    for k in range(3):
        ok = ok and S.c.lemma(f"triple product {k}", _tb(S.eq(c[k] * sn, w[k] * vdot(n, n) - n[k] * vdot(n, w))), using=axis)
        ok = ok and S.c.lemma(f"turned by a right angle {k}", _tb(S.eq(c[k] * sn, w[k] - n[k] * cs)), general=A == X - Y * C_, using=[A == X * Z - Y * B_, Z == 1, C_ == B_])
        ok = ok and S.c.lemma(f"twice {k}", _tb(S.eq(vcross(e, c)[k], e[k] * vdot(e, n) - n[k] * vdot(e, e))), using=[])
        ok = ok and S.c.lemma(f"opposite {k}", _tb(S.eq(vcross(e, c)[k], -n[k])), general=A == -Y, using=[A == X * B_ - Y * Z, B_ == 0, Z == 1])
    if ok:
        for k in range(3):
            got = vdot(tuple(S.el(r, k, j) for j in range(3)), n)
            if S.c.lemma(f"Rodrigues {k}", _tb(S.eq(got, n[k] + sn * c[k] + (1 - cs) * vcross(e, c)[k]))):
                S.c.lemma(f"sum {k}", _tb(S.eq(got, w[k])), general=A == X, using=[A == Y + B_ * C_ + (1 - Z) * D, D == -Y, C_ * B_ == X - Y * Z])
    return []


def rn_post(S, a, r, old):
    if S.sym:
        n, w = S.c.ghost["rn"]
        for k in range(3):
            yield f"the normal is turned onto the other one (coordinate {k})", S.eq(vdot(tuple(S.el(r, k, j) for j in range(3)), n), w[k])


Contract("rotation_takes_normal", MAT, ["P11"], inputs=rn_inputs, bounded=[("any", rn_inputs)], pre=rn_pre, post=rn_post, lemmas=rn_lemmas, timeout=20)


# ------------------------------------------------------------------ points on one line
def on_line(S, n, zero=()):
    """n points p + l * u; those numbered in zero equal the first one"""
    p, u = (tuple(S.real(f"{k}{c}", lo=-100, hi=100) for c in range(3)) for k in "pu")
    S.c.ghost["cl"] = dict(u=u)
    ls = [0.0 if i in zero else S.real(f"l{i}", lo=-100, hi=100) for i in range(1, n)]
    pts = [p] + [p if i + 1 in zero else vadd(p, vscale(l, u)) for i, l in enumerate(ls)]
    S.c.ghost["cl"]["ls"] = [l for i, l in enumerate(ls) if i + 1 not in zero]
    return p, u, pts, ls


def unit_facts(S, d, l, u, nm, unit):
    """d = l * u with a unit vector u and l not zero: length and direction"""
    s = 1 if S.case(S.gt(l, 0.0)) else -1
    n, l = S.norm(d), s * l
    pos, sq = _tb(S.gt(l, 1e-3)), _tb(S.eq(vdot(d, d), l * l))
    ok = S.c.lemma(f"{nm}: square of the length", sq, using=[unit]) and S.c.lemma(f"{nm}: length", _tb(S.eq(n, l)), using=[pos, _tb(S.eq(n * n, vdot(d, d))), _tb(S.ge(n, 0.0)), sq])
    for k in range(3):
        q = d[k] / n
        ok = ok and S.c.lemma(f"{nm}: direction {k}", _tb(S.eq(q, s * u[k])), using=[pos, _tb(S.eq(n, l)), _tb(S.eq(q * n, d[k]))])
    return s


def cl_inputs(n, zero=()):
    def f(S):
        p, u, pts, ls = on_line(S, n, zero)
        unit = S.eq(vdot(u, u), 1.0)
        S.c.assume(unit.t)
        for i in range(1, n):
            if i not in zero:
                S.c.assume(S.gt(S.abs(ls[i - 1]), 1e-3).t)
                unit_facts(S, vsub(pts[i], p), ls[i - 1], u, f"point {i}", _tb(unit))
        return dict(pts=CArr(np.array(pts, dtype=object), "f"), atol=1e-13)

    return f


def cl_post(S, a, r, old):
    yield "points on one line are collinear", r


Contract("are_points_collinear_line", COL, ["P09"], bounded=[("3 points", cl_inputs(3)), ("4 points", cl_inputs(4)), ("5 points, two of them as the first", cl_inputs(5, (1, 3))), ("3 points, one as the first", cl_inputs(3, (2,)))], post=cl_post, timeout=10)


def nc_inputs(n, k):
    """all points but one on a line, the other one in a direction at more than a thousandth of a radian"""
    def f(S):
        p, u, pts, ls = on_line(S, n)
        w = tuple(S.real(f"w{c}", lo=-1, hi=1) for c in range(3))
        c = vdot(u, w)
        uu, ww, far = _tb(S.eq(vdot(u, u), 1.0)), _tb(S.eq(vdot(w, w), 1.0)), _tb(S.gt(1 - 1e-6, c * c))
        for x in (uu, ww, far):
            S.c.assume(x)
        pts[k] = vadd(p, vscale(ls[k - 1], w))
        for i in range(1, n):
            S.c.assume(S.gt(S.abs(ls[i - 1]), 1e-3).t)
            unit_facts(S, vsub(pts[i], p), ls[i - 1], w if i == k else u, f"point {i}", ww if i == k else uu)
        for nm, x, y in (("off, same", u, w), ("off, opposite", u, vscale(-1, w)), ("on, same", w, u), ("on, opposite", w, vscale(-1, u))):
            near = [_tb(S.le(S.abs(x[j] - y[j]), 1e-13 + 1e-5 * S.abs(y[j]))) for j in range(3)]
            other = [_tb(S.le(S.abs(-x[j] + y[j]), 1e-13 + 1e-5 * S.abs(y[j]))) for j in range(3)]
            sg = -1 if "opposite" in nm else 1
            sq = [(x[j] - y[j]) * (x[j] - y[j]) for j in range(3)]
            small = [_tb(S.And(S.le(y[j], 1.0), S.ge(y[j], -1.0))) for j in range(3)]
            ok = all([S.c.lemma(f"{nm}: component {j}", small[j], using=[uu if y[0] is u[0] or "on" in nm else ww]) for j in range(3)])
            ok = ok and all([S.c.lemma(f"{nm}: square {j}", z3.Implies(near[j], _tb(S.le(sq[j], 1.3e-10))), using=[small[j]]) for j in range(3)])
            ok = ok and S.c.lemma(f"{nm}: sum of squares", _tb(S.eq(sq[0] + sq[1] + sq[2], 2 - 2 * sg * c)), using=[uu, ww])
            b, e, z = z3.Bools("b0 b1 b2"), z3.Reals("e0 e1 e2"), z3.Real("z")
            if ok:
                S.c.lemma(f"{nm}: not close", z3.Not(z3.And(*near)), general=z3.Not(z3.And(*b)),
                          using=[*[z3.Implies(b[j], e[j] <= z3.Q(13, 10**11)) for j in range(3)], e[0] + e[1] + e[2] == 2 - 2 * sg * z, 1 - z3.Q(1, 10**6) > z * z])
        return dict(pts=CArr(np.array(pts, dtype=object), "f"), atol=1e-13)

    return f


def nc_post(S, a, r, old):
    yield "points not on one line are not collinear", S.Not(r)


Contract("are_points_collinear_off", COL, ["P09"], bounded=[(f"{n} points, number {k} off the line", nc_inputs(n, k)) for n, k in ((3, 1), (3, 2), (4, 3))], post=nc_post, timeout=10, bounded_wall=60)


# ------------------------------------------------------------------ points in one plane
COPL = "building3d.geom.points:are_points_coplanar"


def cp_inputs(n, off=None):
    """n points of the plane through the first one with unit normal w; number off is at a distance of more than 1e-3"""
    def f(S):
        w = tuple(S.real(f"w{c}", lo=-1, hi=1) for c in range(3))
        pts = [tuple(S.real(f"p{i}{c}", lo=-100, hi=100) for c in range(3)) for i in range(n)]
        h = S.real("h", lo=-100, hi=100)
        hs = [h if i == off else 0.0 for i in range(n)]
        S.c.assume(_tb(S.eq(vdot(w, w), 1.0)))
        S.c.assume(_tb(S.gt(S.abs(h), 1e-3)))
        for i in range(1, n):
            S.c.assume(_tb(S.eq(vdot(w, vsub(pts[i], pts[0])), hs[i])))
        S.c.ghost["cp"] = dict(w=w, pts=pts, hs=hs, off=off, col=S.bool("col"))
        return dict(pts=CArr(np.array(pts, dtype=object), "f"), atol=1e-13)

    return f


def cp_setup(S, I):
    def collinear(pts, atol):
        g = S.c.ghost["cp"]
        expect([skey(v3(pts[i])) for i in range(S.shape(pts)[0])] == [skey(p) for p in g["pts"]])
        return False if g["off"] is not None else S.case(g["col"])

    def nrm(p, q, r):
        g = S.c.ghost["cp"]
        w, pts, hs = g["w"], g["pts"], g["hs"]
        at = {skey(x): i for i, x in enumerate(pts)}
        idx = [at.get(skey(v3(x))) for x in (p, q, r)]
        expect(None not in idx and len(set(idx)) == 3 and g["off"] not in idx)
        nm = f"normal at {idx[0]}{idx[1]}{idx[2]}"
        x, y = vsub(pts[idx[1]], pts[idx[0]]), vsub(pts[idx[2]], pts[idx[0]])
        c = vcross(x, y)
        if g["off"] is None and S.case(S.bool(f"no {nm}")):
            from pyvc import npmodel as npm
            for k in range(3):
                S.c.assume(_tb(S.le(S.abs(c[k]), 1e-8)))
            return npm.full((3,), float("nan"), "f")
        L = S.real(f"length of {nm}")
        n = tuple(S.real(f"{nm}, {k}") for k in range(3))
        # the contract of normal
        pos, nn, ww = _tb(S.gt(L, 0.0)), _tb(S.eq(vdot(n, n), 1.0)), _tb(S.eq(vdot(w, w), 1.0))
        par = [_tb(S.eq(n[k] * L, c[k])) for k in range(3)]
        for z in (pos, nn, *par):
            S.c.assume(z)
        # it is the unit normal of the plane, one way or the other
        s = vdot(n, w)
        wx, wy = _tb(S.eq(vdot(w, x), 0.0)), _tb(S.eq(vdot(w, y), 0.0))
        A, D, X, Y, Z = z3.Reals("A D X Y Z")
        ok = S.c.lemma(f"{nm}: first side", wx) and S.c.lemma(f"{nm}: second side", wy)
        wc = vcross(w, c)
        wn = vcross(w, n)
        for k in range(3):
            ok = ok and S.c.lemma(f"{nm}: double product {k}", _tb(S.eq(wc[k], x[k] * vdot(w, y) - y[k] * vdot(w, x))), using=[])
            ok = ok and S.c.lemma(f"{nm}: product zero {k}", _tb(S.eq(wc[k], 0.0)), general=A == 0, using=[A == X * Y - Z * D, Y == 0, D == 0])
            ok = ok and S.c.lemma(f"{nm}: times length {k}", _tb(S.eq(wn[k] * L, wc[k])), using=par)
            ok = ok and S.c.lemma(f"{nm}: parallel {k}", _tb(S.eq(wn[k], 0.0)), general=A == 0, using=[A * X == Y, Y == 0, X > 0])
        zero = [_tb(S.eq(wn[k], 0.0)) for k in range(3)]
        for k in range(3):
            ok = ok and S.c.lemma(f"{nm}: identity {k}", _tb(S.eq(w[k] * s - n[k] * vdot(w, w), vcross(w, wn)[k])), using=[])
            ok = ok and S.c.lemma(f"{nm}: nothing left {k}", _tb(S.eq(vcross(w, wn)[k], 0.0)), using=zero)
            ok = ok and S.c.lemma(f"{nm}: multiple {k}", _tb(S.eq(n[k], s * w[k])), general=X == A * Y, using=[Y * A - X * Z == D, D == 0, Z == 1])
        if not ok:
            return arr(n)
        mult = [_tb(S.eq(n[k], s * w[k])) for k in range(3)]
        ok = S.c.lemma(f"{nm}: one", _tb(S.eq(s * s, 1.0)), using=[*mult, nn, ww])
        sg = 1.0 if S.case(S.gt(s, 0.0)) else -1.0
        ok = ok and S.c.lemma(f"{nm}: sign", _tb(S.eq(s, sg)), using=[_tb(S.eq(s * s, 1.0)), _tb(S.gt(sg * s, 0.0)) if sg > 0 else _tb(S.le(s, 0.0))])
        for k in range(3):
            ok = ok and S.c.lemma(f"{nm}: component {k}", _tb(S.eq(n[k], sg * w[k])), general=X == int(sg) * Y, using=[X == A * Y, A == int(sg)])
        if ok:
            # any of its values at the points may be written with the normal of the plane
            return arr(vscale(sg, w))
        return arr(n)

    abstract(I, COL, collinear)
    abstract(I, NRM, nrm)


def cp_post(S, a, r, old):
    flat, off = "points of one plane are coplanar", "points not in one plane are not coplanar"
    if S.sym:
        yield (flat, r) if S.c.ghost["cp"]["off"] is None else (off, S.Not(r))
        return
    p = old["pts"]
    s = np.linalg.svd(p - p[0])[1][2]
    if s > 1e-6:
        yield off, not r
    elif s == 0.0:
        yield flat, bool(r)


Contract("are_points_coplanar_symbolic", COPL, ["P09"], bounded=[("4 points of a plane", cp_inputs(4)), ("5 points of a plane", cp_inputs(5)), ("4 points, the last one off", cp_inputs(4, 3)), ("5 points, number 3 off", cp_inputs(5, 3)), ("5 points, the last one off", cp_inputs(5, 4))],
         post=cp_post, setup=cp_setup, abstracts=[NRM], timeout=10, note="are_points_collinear and normal by their contracts")
