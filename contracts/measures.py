"""Normals, areas, centroids, planes, volumes and rotations."""
import math

import numpy as np

from pyvc import gen as G
from pyvc.contract import MODULAR, Contract, det3, loops, row, vadd, vcross, vdot, vn2, vscale, vsub

V = "building3d.geom.vectors"
T = "building3d.geom.triangles"
PA = "building3d.geom.polygon.area"
PC = "building3d.geom.polygon.centroid"
PL = "building3d.geom.polygon.plane"
R = "building3d.geom.rotation"
TH = "building3d.geom.tetrahedrons"


def v3(a):
    return (a[0], a[1], a[2])


# ------------------------------------------------------------------ normal
def tri_in(S):
    return dict(pt0=S.vec("a"), pt1=S.vec("b"), pt2=S.vec("c"))


def no_cross(old):
    p, q, s = v3(old["pt0"]), v3(old["pt1"]), v3(old["pt2"])
    return vcross(vsub(q, p), vsub(s, p))


def no_lemmas(S, a, r, old):
    c = no_cross(old)
    n = S.norm(c)
    if S.case(n > 1e-8):
        for k in range(3):
            yield f"scaled component {k}", S.eq(r[k] * n, c[k])
        yield "dot", S.eq(vdot(v3(r), c), n)


def no_post(S, a, r, old):
    c = no_cross(old)
    p, q, s = v3(old["pt0"]), v3(old["pt1"]), v3(old["pt2"])
    n = S.norm(c)
    big = n > 1e-8 if S.sym else n > 2e-8
    small = n <= 1e-8 if S.sym else n < 5e-9
    yield "unit length", S.Implies(big, lambda: S.eq(vn2(v3(r)), 1.0))
    yield "perpendicular to both edges", S.Implies(big, lambda: S.And(S.eq(vdot(v3(r), vsub(q, p)), 0.0), S.eq(vdot(v3(r), vsub(s, p)), 0.0)))
    yield "right-hand rule", S.Implies(big, lambda: S.gt(vdot(v3(r), c), 0.0))
    yield "parallel to the cross product", S.Implies(big, lambda: S.And(*[S.eq(r[k] * n, c[k]) for k in range(3)]))
    yield "undefined for collinear points", S.Implies(small, lambda: S.And(*[S.isnan(r[k]) for k in range(3)]))


def no_gen(rng, i):
    a, b = G.rvec(rng), G.gvec(rng)
    c = G.rvec(rng) if i % 3 else a + rng.choice([0, 1, 2, -1.5]) * (b - a)
    return dict(pt0=a, pt1=b, pt2=c)


Contract("normal", f"{V}:normal", ["P08"], inputs=tri_in, bounded=[("any", tri_in)], post=no_post, lemmas=no_lemmas, gen=no_gen, ngen=150, timeout=20)


# ------------------------------------------------------------------ plane
def pr_post(S, a, r, old):
    vn, p = v3(old["vn"]), v3(old["pt"])
    yield "normal components", S.And(*[S.eq(S.at(r, k), vn[k]) for k in range(3)])
    yield "the point satisfies the equation", S.eq(vdot(vn, p) + S.at(r, 3), 0.0)


Contract("projection_coefficients", f"{PL}:projection_coefficients", ["P08"], inputs=lambda S: dict(pt=S.vec("p"), vn=S.vec("vn")),
         bounded=[("any", lambda S: dict(pt=S.vec("p"), vn=S.vec("vn")))], post=pr_post, gen=lambda rng, i: dict(pt=G.rvec(rng), vn=G.frame(rng)[2]))


def m_normal(S, I, f, a):
    """summary of normal(): the contract above"""
    p, q, s = v3(a["pt0"]), v3(a["pt1"]), v3(a["pt2"])
    c = vcross(vsub(q, p), vsub(s, p))
    n = S.norm(c)
    if not S.case(n > 1e-8):
        from pyvc import npmodel as npm

        return npm.full((3,), float("nan"), "f")
    r = S.vec("normal")
    for k in range(3):
        S.c.assume(S.eq(r[k] * n, c[k]).t)
    S.c.assume(S.eq(vn2(v3(r)), 1.0).t)
    return r


MODULAR[f"{V}:normal"] = m_normal


def pl_inputs(S):
    return dict(pts=S.points("pts", S.int("n", lo=3)))


def pl_b(n):
    return lambda S: dict(pts=S.points("pts", n))


def first_cross(S, pts):
    n = S.shape(pts)[0]
    a, b, c = row(S, pts, n - 1), row(S, pts, 0), row(S, pts, 1)
    return vcross(vsub(b, a), vsub(c, a))


def pl_post(S, a, r, old):
    """every point coplanar with the first corner satisfies the equation"""
    pts = old["pts"]
    n = S.shape(pts)[0]
    c = first_cross(S, pts)
    ln = S.norm(c)
    co = [S.at(r, k) for k in range(4)]
    ok = ln > 1e-8
    yield "unit normal of the first corner", S.Implies(ok, lambda: S.And(S.eq(vn2(tuple(co[:3])), 1.0), *[S.eq(co[k] * ln, c[k]) for k in range(3)]))
    for nm, i in (("last", n - 1), ("first", 0), ("second", 1)):
        yield f"the {nm} point satisfies the equation", S.Implies(ok, lambda i=i: S.eq(vdot(tuple(co[:3]), row(S, pts, i)) + co[3], 0.0))
    if not S.sym:
        yield "all points satisfy the equation", S.Implies(ok, lambda: S.forall(n, lambda i: S.eq(vdot(tuple(co[:3]), row(S, pts, i)) + co[3], 0.0)))


def pl_lemmas(S, a, r, old):
    pts = old["pts"]
    n = S.shape(pts)[0]
    c = first_cross(S, pts)
    ln = S.norm(c)
    co = [S.at(r, k) for k in range(4)]
    if S.case(ln > 1e-8):
        for k in range(3):
            yield f"scaled component {k}", S.eq(co[k] * ln, c[k])
        yield "offset", S.eq(co[3] * ln, -vdot(c, row(S, pts, 0)))
        for i in (0, 1, n - 1):
            yield f"scaled equation", S.eq(ln * (vdot(tuple(co[:3]), row(S, pts, i)) + co[3]), 0.0)


def pl_gen(rng, i):
    return dict(pts=G.polygon3d(rng, first_convex=bool(i % 2))[0])


Contract("plane_coefficients", f"{PL}:plane_coefficients", ["P08"], inputs=pl_inputs, bounded=[("3 points", pl_b(3)), ("5 points", pl_b(5))], post=pl_post, lemmas=pl_lemmas, gen=pl_gen, timeout=20)


# ------------------------------------------------------------------ polygon area
def nxt(S, i, n):
    return S.ite(S.eq(i, n - 1), 0, i + 1)


def shoe(S, pts, k):
    """ghost prefix sums of the cross products of consecutive points"""
    n = S.shape(pts)[0]
    def comp(c):
        return lambda i: vcross(row(S, pts, i), row(S, pts, nxt(S, i, n)))[c]
    return [S.psum(f"shoe{c}", comp(c)) for c in range(3)]


loops(f"{PA}:polygon_area", 1, l0=dict(inv=lambda S, e, k, o: [(f"partial sum {c}", S.eq(e.total[c], shoe(S, e.pts, k)[c](k))) for c in range(3)]))


def ar_post(S, a, r, old):
    pts, vn = old["pts"], v3(old["vn"])
    n = S.shape(pts)[0]
    sh = shoe(S, pts, n)
    s = vdot(tuple(sh[c](n) for c in range(3)), vn)
    yield "not negative", S.le(0.0, r)
    yield "half the projected sum of cross products", S.Or(S.eq(2 * r, s), S.eq(2 * r, -s))


def ar_gen(rng, i):
    pts, n = G.polygon3d(rng)
    return dict(pts=pts, vn=n * rng.choice([1, -1]))


Contract("polygon_area", f"{PA}:polygon_area", ["P08"], inputs=lambda S: dict(pts=S.points("pts", S.int("n", lo=3)), vn=S.vec("vn")),
         bounded=[(f"{n} points", (lambda n: lambda S: dict(pts=S.points("pts", n), vn=S.vec("vn")))(n)) for n in (3, 4, 6)], post=ar_post, gen=ar_gen)


# area is the same for any starting vertex, direction of the list and position
def ai_b(n):
    return lambda S: dict(pts=S.points("pts", n), vn=S.vec("vn"), shift=S.vec("shift"), k=1)


def ai_arrays(S, a):
    pts, sh = a["pts"], v3(a["shift"])
    n = S.shape(pts)[0]
    k = a["k"]
    rows = [row(S, pts, (i + k) % n) for i in range(n)]
    return [rows, rows[::-1], [vadd(x, sh) for x in rows]]


def ai_invoke(S, I, a):
    from pyvc.npmodel import from_nested

    out = [I.call_fq(f"{PA}:polygon_area", [a["pts"], a["vn"]])]
    for v in ai_arrays(S, a):
        out.append(I.call_fq(f"{PA}:polygon_area", [from_nested([list(x) for x in v]), a["vn"]]))
    return tuple(out)


def ai_real(a):
    from building3d.geom.polygon.area import polygon_area
    from pyvc.contract import ConcOps

    return (polygon_area(a["pts"], a["vn"]),) + tuple(polygon_area(np.array(v, dtype=float), a["vn"]) for v in ai_arrays(ConcOps(), a))


def ai_post(S, a, r, old):
    for k, nm in ((1, "rotating the vertex list"), (2, "reversing the vertex list"), (3, "translation")):
        yield f"unchanged by {nm}", S.eq(S.at(r, 0), S.at(r, k))


def ai_gen(rng, i):
    pts, n = G.polygon3d(rng)
    return dict(pts=pts, vn=n, shift=10 * G.rvec(rng), k=rng.randrange(len(pts)))


Contract("polygon_area_invariance", None, ["P08"], bounded=[(f"{n} points", ai_b(n)) for n in (3, 4, 5)], invoke=ai_invoke, real=ai_real, post=ai_post, gen=ai_gen,
         functions=[f"{PA}:polygon_area"])


# ------------------------------------------------------------------ polygon centroid
def tri_pts(S, pts, tri, i):
    return [row(S, pts, S.el(tri, i, j)) for j in range(3)]


def tri_area(S, p, q, s):
    """the value triangle_area() returns (contract triangle_area); a function symbol in proofs"""
    c = vcross(vsub(q, p), vsub(s, p))
    if S.sym and S.I.contracts:
        import z3
        from pyvc.values import SF, has_bv, rt

        f = z3.Function("triangle_area", *([z3.RealSort()] * 10))
        t = f(*[rt(x) for v in (p, q, s) for x in v])
        if not has_bv(t):
            S.c.assume(t > 0)
        return SF(t)
    return S.sqrt(vn2(c) / 4 + 1e-12)


def weight(S, pts, tri, i):
    return tri_area(S, *tri_pts(S, pts, tri, i))


def m_area(S, I, f, a):
    """summary of triangle_area(): proved by the contract triangle_area"""
    return tri_area(S, v3(a["pt1"]), v3(a["pt2"]), v3(a["pt3"]))


MODULAR[f"{T}:triangle_area"] = m_area


def ce_sums(S, pts, tri):
    W = S.psum("cw", lambda i: weight(S, pts, tri, i))
    C = [S.psum(f"cc{c}", lambda i, c=c: weight(S, pts, tri, i) * ((tri_pts(S, pts, tri, i)[0][c] + tri_pts(S, pts, tri, i)[1][c] + tri_pts(S, pts, tri, i)[2][c]) / 3.0)) for c in range(3)]
    return W, C


def ce_inv0(S, e, k, o):
    for c in range(3):
        yield f"triangle centres {c}", S.forall(k, lambda i, c=c: S.eq(S.el(e.tri_ctr, i, c), (tri_pts(S, e.pts, e.tri, i)[0][c] + tri_pts(S, e.pts, e.tri, i)[1][c] + tri_pts(S, e.pts, e.tri, i)[2][c]) / 3.0))
    yield "weights", S.forall(k, lambda i: S.eq(S.el(e.weights, i), weight(S, e.pts, e.tri, i)))


def ce_inv1(S, e, k, o):
    W, C = ce_sums(S, e.pts, e.tri)
    for c in range(3):
        yield f"partial sum {c}", S.eq(e.poly_ctr[c], C[c](k))
    yield "positive weight", S.And(W(k) >= 0, S.Implies(k >= 1, W(k) > 0))


loops(f"{PC}:polygon_centroid", 2, l0=dict(inv=lambda S, e, k, o: list(ce_inv0(S, e, k, o))), l1=dict(inv=lambda S, e, k, o: list(ce_inv1(S, e, k, o))))


def ce_inputs(S):
    n, m = S.int("n", lo=3), S.int("m", lo=1)
    return dict(pts=S.points("pts", n), tri=S.arr("tri", (m, 3), "i"))


def ce_pre(S, a):
    n, m = S.shape(a["pts"])[0], S.shape(a["tri"])[0]
    yield "triangles refer to existing points", S.forall(m, lambda i: S.And(*[S.And(0 <= S.el(a["tri"], i, j), S.el(a["tri"], i, j) < n) for j in range(3)]))


def ce_post(S, a, r, old):
    m = S.shape(old["tri"])[0]
    W, C = ce_sums(S, old["pts"], old["tri"])
    for c in range(3):
        yield f"weighted mean of the triangles (coordinate {c})", S.eq(r[c] * W(m), C[c](m))


def ce_gen(rng, i):
    from building3d.geom.polygon import Polygon

    pts, n = G.polygon3d(rng)
    p = Polygon(pts, vn=n)
    return dict(pts=p.pts, tri=p.tri)


def ce_setup(S, I):
    # the summary of triangle_area also serves the bounded stand-in
    def app(I_, f, loc):
        return m_area(S, I_, f, loc)

    I.contracts[f"{T}:triangle_area"] = app


def ce_b(n, tri):
    return lambda S: dict(pts=S.points("pts", n), tri=S.const(np.array(tri)))


Contract("polygon_centroid", f"{PC}:polygon_centroid", ["P08"], inputs=ce_inputs, pre=ce_pre, post=ce_post, gen=ce_gen, uses=[f"{T}:triangle_area"],
         bounded=[("one triangle", ce_b(3, [[0, 1, 2]])), ("two triangles", ce_b(4, [[3, 0, 1], [3, 1, 2]]))], setup=ce_setup)


# ------------------------------------------------------------------ volumes
def tv_in(S):
    return dict(pt0=S.vec("a"), pt1=S.vec("b"), pt2=S.vec("c"), pt3=S.vec("d"))


def tv_d(old):
    p = [v3(old[f"pt{k}"]) for k in range(4)]
    return det3(vsub(p[1], p[0]), vsub(p[2], p[0]), vsub(p[3], p[0]))


def tv_post(S, a, r, old):
    d = tv_d(old)
    yield "not negative", S.le(0.0, r)
    yield "a sixth of the determinant", S.And(S.le(d * d, 36 * (r * r)), S.le(36 * (r * r), d * d + 1e-11))


Contract("tetrahedron_volume", f"{TH}:tetrahedron_volume", ["P13"], inputs=tv_in, bounded=[("any", tv_in)], post=tv_post, gen=lambda rng, i: dict(pt0=G.gvec(rng), pt1=G.rvec(rng), pt2=G.gvec(rng), pt3=G.rvec(rng)), timeout=30)


def tcn_post(S, a, r, old):
    yield "mean of the vertices", S.And(*[S.eq(4 * r[k], sum_(old, k)) for k in range(3)])


def sum_(old, k):
    return old["pt0"][k] + old["pt1"][k] + old["pt2"][k] + old["pt3"][k]


Contract("tetrahedron_centroid", f"{TH}:tetrahedron_centroid", ["P13"], inputs=tv_in, bounded=[("any", tv_in)], post=tcn_post, gen=lambda rng, i: dict(pt0=G.gvec(rng), pt1=G.rvec(rng), pt2=G.gvec(rng), pt3=G.rvec(rng)))


# ------------------------------------------------------------------ rotations
def mat(S, r):
    return [[S.el(r, i, j) for j in range(3)] for i in range(3)]


def rigid(S, m):
    """orthogonal with determinant one"""
    for i in range(3):
        for j in range(i, 3):
            yield f"rows {i} and {j} are orthonormal", S.eq(vdot(tuple(m[i]), tuple(m[j])), 1.0 if i == j else 0.0)
    yield "orientation is kept", S.eq(det3(tuple(m[0]), tuple(m[1]), tuple(m[2])), 1.0)


def rm_pre(S, a):
    yield "unit axis", S.eq(vn2(v3(a["u"])), 1.0)


def rm_post(S, a, r, old):
    m, u = mat(S, r), v3(old["u"])
    yield from rigid(S, m)
    yield "the axis is fixed", S.And(*[S.eq(vdot(tuple(m[i]), u), u[i]) for i in range(3)])
    cs, sn = trig(S, old["phi"])
    yield "the angle is the requested one", S.And(
        S.eq(m[0][0] + m[1][1] + m[2][2], 1.0 + 2 * cs),
        *[S.eq(m[(k + 2) % 3][(k + 1) % 3] - m[(k + 1) % 3][(k + 2) % 3], 2 * u[k] * sn) for k in range(3)],
    )


def trig(S, phi):
    if S.sym:
        from pyvc import npmodel as npm

        return npm.np_cos(phi), npm.np_sin(phi)
    return math.cos(phi), math.sin(phi)


def unit(rng):
    k = rng.randrange(4)
    if k == 0:
        return np.eye(3)[rng.randrange(3)] * rng.choice([1, -1])
    v = G.rvec(rng)
    return v / np.linalg.norm(v)


def ang(rng):
    return rng.choice([0.5, 1.0, -1.0, math.pi / 2, math.pi, -math.pi / 2, 2.5, 4.0, rng.uniform(-7, 7)])


RMIN = lambda S: dict(u=S.vec("u"), phi=S.real("phi"))
Contract("rotation_matrix", f"{R}:rotation_matrix", ["P11"], inputs=RMIN, bounded=[("any", RMIN)], pre=rm_pre, post=rm_post, gen=lambda rng, i: dict(u=unit(rng), phi=ang(rng)), ngen=100, timeout=20)


def rp_in(n):
    def f(S):
        nn = S.int("n", lo=1) if n is None else n
        return dict(pts=S.points("pts", nn), R=S.arr("R", (3, 3)))

    return f


def rp_post(S, a, r, old):
    m = mat(S, old["R"])
    n = S.shape(old["pts"])[0]
    for k in range(3):
        yield f"matrix times point (coordinate {k})", S.forall(n, lambda i, k=k: S.eq(S.el(r, i, k), vdot(tuple(m[k]), row(S, old["pts"], i))))


Contract("rotate_points", f"{R}:rotate_points", ["P11"], inputs=rp_in(None), bounded=[("3 points", rp_in(3))], post=rp_post,
         gen=lambda rng, i: dict(pts=np.array([G.rvec(rng) for _ in range(rng.randint(1, 5))]), R=np.array([G.rvec(rng) for _ in range(3)])))


def m_rotmat(S, I, f, a):
    """summary of rotation_matrix(): proved by the contract rotation_matrix"""
    u = v3(a["u"])
    S.c.prove("rotation_matrix is given a unit vector", S.eq(vn2(u), 1.0), kind="pre")
    r = S.arr("rot", (3, 3))
    for nm, p in rm_post(S, a, r, a):
        S.c.assume(S.And(p).t)
    return r


MODULAR[f"{R}:rotation_matrix"] = m_rotmat


def ra_in(n):
    def f(S):
        nn = S.int("n", lo=1) if n is None else n
        return dict(pts=S.points("pts", nn), u=S.vec("u"), phi=S.real("phi"))

    return f


def ra_post(S, a, r, old):
    out, M = S.at(r, 0), S.at(r, 1)
    m, u, pts = mat(S, M), v3(old["u"]), old["pts"]
    n = S.shape(pts)[0]
    yield from rigid(S, m)
    yield "the axis is fixed", S.And(*[S.eq(vdot(tuple(m[i]), u), u[i]) for i in range(3)])
    yield "number of points", S.eq(S.shape(out)[0], n)
    for k in range(3):
        yield f"the returned matrix was applied (coordinate {k})", S.forall(n, lambda i, k=k: S.eq(S.el(out, i, k), vdot(tuple(m[k]), row(S, pts, i))))
    cs, sn = trig(S, old["phi"])
    turn = S.abs(old["phi"]) > 1e-12
    yield "the angle is the requested one", S.Implies(turn, lambda: S.And(
        S.eq(m[0][0] + m[1][1] + m[2][2], 1.0 + 2 * cs),
        *[S.eq(m[(k + 2) % 3][(k + 1) % 3] - m[(k + 1) % 3][(k + 2) % 3], 2 * u[k] * sn) for k in range(3)]))


def ra_gen(rng, i):
    return dict(pts=np.array([G.rvec(rng) for _ in range(rng.randint(1, 5))]), u=unit(rng), phi=0.0 if i % 12 == 0 else ang(rng))


Contract("rotate_points_around_vector", f"{R}:rotate_points_around_vector", ["P11"], inputs=ra_in(None), bounded=[("2 points", ra_in(2))], pre=rm_pre, post=ra_post, gen=ra_gen, ngen=100,
         uses=[f"{R}:rotation_matrix"], timeout=20)
