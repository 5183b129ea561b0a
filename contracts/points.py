"""Point, segment and triangle primitives."""
import numpy as np

from pyvc import gen as G
from pyvc.contract import Contract, row, vadd, vcross, vdot, vn2, vscale, vsub

P = "building3d.geom.points"
D = "building3d.geom.points.distance"
T = "building3d.geom.triangles"


def v3(a):
    return (a[0], a[1], a[2])


def le_mul(S, a, b, m):
    """a <= b, possibly after multiplication with a positive m"""
    return S.Or(S.le(a, b), S.And(S.gt(m, 0.0), S.le(m * a, m * b))) if S.sym else S.le(a, b)


# ------------------------------------------------------------------ distance to an edge
def de_inputs(S):
    return dict(ptest=S.vec("p"), pt1=S.vec("a"), pt2=S.vec("b"), t=S.real("t", lo=0, hi=1))


def de_post(S, a, r, old):
    p, q1, q2, t = v3(old["ptest"]), v3(old["pt1"]), v3(old["pt2"]), old["t"]
    q = vadd(q1, vscale(t, vsub(q2, q1)))
    d = vsub(q2, q1)
    dd = vdot(d, d)
    if not S.sym:
        A, B, X = (np.array(old[k], dtype=float) for k in ("pt1", "pt2", "ptest"))
        u = min(1.0, max(0.0, float(np.dot(X - A, B - A)) / float(dd))) if dd > 0 else 0.0
        yield "attained at a point of the edge", abs(float(r) - float(np.linalg.norm(A + u * (B - A) - X))) <= 1e-9 * (1 + float(np.abs([A, B, X]).max()))
    yield "not negative", S.le(0.0, r)
    yield "not larger than the distance to any point of the edge", le_mul(S, r * r, vn2(vsub(p, q)), dd)
    pr = vdot(vsub(p, q1), d)
    perp = dd * vn2(vsub(p, q1)) - pr * pr
    yield "attained at a point of the edge", S.Or(
        S.eq(r * r, vn2(vsub(p, q1))), S.eq(r * r, vn2(vsub(p, q2))), S.And(S.le(0.0, pr), S.le(pr, dd), S.gt(dd, 0.0), S.eq(r * r * dd, perp))
    )


def de_lemmas(S, a, r, old):
    p, q1, q2, t = v3(old["ptest"]), v3(old["pt1"]), v3(old["pt2"]), old["t"]
    d, w = vsub(q2, q1), vsub(p, q1)
    dd, pr = vdot(d, d), vdot(w, d)
    e = pr - t * dd
    if S.case(S.And(dd > 0, pr >= 0, pr <= dd)):
        yield "distance from the line", S.eq(r * r * dd, dd * vn2(w) - pr * pr)
        yield "square", e * e >= 0


def de_invoke(S, I, a):
    return I.call_fq(f"{D}:distance_point_to_edge", [a["ptest"], a["pt1"], a["pt2"]])


def de_real(a):
    from building3d.geom.points.distance import distance_point_to_edge as f

    return f(a["ptest"], a["pt1"], a["pt2"])


def de_gen(rng, i):
    g = G.gvec if rng.random() < 0.5 else G.rvec
    a, b = g(rng), g(rng)
    if i % 10 == 0:
        b = a.copy()
    p = g(rng)
    if i % 4 == 1:
        p = a + rng.choice([0, 1, 0.5, -0.5, 1.5]) * (b - a)
    if i % 8 == 3:  # just beyond an end
        p = a + rng.choice([1 + 3e-5, -3e-5, 1 + 2e-3, -2e-3]) * (b - a)
    t = rng.choice([0.0, 1.0, rng.random()])
    dd = float(np.dot(b - a, b - a))
    if dd > 0 and i % 2:
        t = min(1.0, max(0.0, float(np.dot(p - a, b - a)) / dd))
    return dict(ptest=p, pt1=a, pt2=b, t=t)


Contract("distance_point_to_edge", None, ["P09"], inputs=de_inputs, bounded=[("any", de_inputs)], post=de_post, gen=de_gen, ngen=200, invoke=de_invoke, real=de_real,
         functions=[f"{D}:distance_point_to_edge"], timeout=20, lemmas=de_lemmas)


# ------------------------------------------------------------------ point on a segment
RT, AT = 1e-5, 1e-13


def near(S, p, q, f=1.0):
    return S.And(*[S.abs(p[k] - q[k]) <= f * (AT + RT * S.abs(q[k])) for k in range(3)])


def os_inputs(S):
    return dict(ptest=S.vec("p"), pt1=S.vec("a"), pt2=S.vec("b"), t=S.real("t", lo=0, hi=1), on=S.bool("on"))


def os_pre(S, a):
    p, q1, q2, t = v3(a["ptest"]), v3(a["pt1"]), v3(a["pt2"]), a["t"]
    q = vadd(q1, vscale(t, vsub(q2, q1)))
    yield "the point is at parameter t when on", S.Implies(a["on"], S.And(*[S.eq(p[k], q[k]) for k in range(3)]))


def os_post(S, a, r, old):
    p, q1, q2, t = v3(old["ptest"]), v3(old["pt1"]), v3(old["pt2"]), old["t"]
    d = vsub(q2, q1)
    w = vsub(p, q1)
    c = vcross(w, d)
    yield "points of the segment are accepted", S.Implies(old["on"], r)
    ok = S.Or(
        near(S, p, q1, 2.0), near(S, p, q2, 2.0),
        S.And(*[S.abs(c[k]) <= 2 * AT for k in range(3)], -2 * AT <= vdot(w, d), vdot(w, d) <= vdot(d, d) + 2 * AT),
    )
    yield "accepted points are within tolerance of the segment", S.Implies(r, ok)


def os_gen(rng, i):
    a, b = G.gvec(rng), G.gvec(rng)
    on = i % 2 == 0
    t = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0])
    p = a + t * (b - a)
    if not on:
        k = rng.randrange(3)
        if k == 0:
            p = a + rng.choice([-0.5, 1.5, -1.0, 2.0, -0.01, 1.01]) * (b - a)
        elif k == 1:
            p = p + G.gvec(rng)
        else:
            p = p + 1e-3 * G.gvec(rng)
    return dict(ptest=p, pt1=a, pt2=b, t=t, on=on)


def os_real(a):
    from building3d.geom.points import is_point_on_segment as f

    return f(a["ptest"], a["pt1"], a["pt2"])


Contract("is_point_on_segment", None, ["P09"], inputs=os_inputs, bounded=[("any", os_inputs)], pre=os_pre, post=os_post, gen=os_gen, ngen=200,
         invoke=lambda S, I, a: I.call_fq(f"{P}:is_point_on_segment", [a["ptest"], a["pt1"], a["pt2"]]), real=os_real, functions=[f"{P}:is_point_on_segment"])


# ------------------------------------------------------------------ intermediate points
def nb_inputs(S):
    return dict(pt1=S.vec("a"), pt2=S.vec("b"), rel_d=S.real("t"))


def nb_post(S, a, r, old):
    p, q, t = v3(old["pt1"]), v3(old["pt2"]), old["rel_d"]
    yield "shape", S.eq(S.shape(r), (3,))
    yield "point at the relative distance", S.And(*[S.eq(r[k], p[k] + t * (q[k] - p[k])) for k in range(3)])


Contract("new_point_between_2_points", f"{P}:new_point_between_2_points", ["P09"], inputs=nb_inputs, bounded=[("any", nb_inputs)], post=nb_post,
         gen=lambda rng, i: dict(pt1=G.rvec(rng), pt2=G.rvec(rng), rel_d=rng.uniform(-1, 2)))


def mb_inputs(S):
    return dict(pt1=S.vec("a"), pt2=S.vec("b"), num=S.int("num", lo=0))


def mb_post(S, a, r, old):
    p, q, m = v3(old["pt1"]), v3(old["pt2"]), old["num"]
    yield "number of points", S.eq(S.shape(r)[0], m + 2)
    for k in range(3):
        yield f"evenly spaced (coordinate {k})", S.forall(m + 2, lambda i: S.eq(S.real_of(m + 1) * S.el(r, i, k), S.real_of(m + 1 - i) * p[k] + S.real_of(i) * q[k]))


from pyvc.contract import loops  # noqa: E402

loops(
    f"{P}:many_new_points_between_2_points", 1,
    l0=dict(
        inv=lambda S, e, k, o: [
            (f"rows filled {c}", S.forall(k + 1, lambda i, c=c: S.eq(S.real_of(e.num + 1) * S.el(e.pts, i, c), S.real_of(e.num + 1 - i) * e.pt1[c] + S.real_of(i) * e.pt2[c])))
            for c in range(3)
        ]
    ),
)
Contract(
    "many_new_points_between_2_points", f"{P}:many_new_points_between_2_points", ["P09"], inputs=mb_inputs,
    bounded=[(f"num={n}", (lambda n: lambda S: dict(pt1=S.vec("a"), pt2=S.vec("b"), num=n))(n)) for n in (0, 1, 3)],
    post=mb_post, gen=lambda rng, i: dict(pt1=G.rvec(rng), pt2=G.rvec(rng), num=rng.randint(0, 7)),
)


# ------------------------------------------------------------------ rolling
def rf_post(S, a, r, old):
    pts = old["pts"]
    n = S.shape(pts)[0]
    yield "shape", S.And(S.eq(S.shape(r)[0], n), S.eq(S.shape(r)[1], 3))
    yield "last point first", S.And(*[S.eq(S.el(r, 0, k), S.el(pts, n - 1, k)) for k in range(3)])
    yield "other points shifted by one", S.forall(n, lambda i: S.And(*[S.eq(S.el(r, i, k), S.el(pts, i - 1, k)) for k in range(3)]), lo=1)


loops(
    f"{P}:roll_forward", 1,
    l0=dict(inv=lambda S, e, k, o: [
        ("first", S.Implies(k >= 1, S.And(*[S.eq(S.el(e.new_pts, 0, c), S.el(e.pts, e.num_pts - 1, c)) for c in range(3)]))),
        ("others", S.forall(k, lambda i: S.And(*[S.eq(S.el(e.new_pts, i, c), S.el(e.pts, i - 1, c)) for c in range(3)]), lo=1)),
    ]),
)
Contract("roll_forward", f"{P}:roll_forward", ["P07"], inputs=lambda S: dict(pts=S.points("pts", S.int("n", lo=1))),
         bounded=[(f"{n} points", (lambda n: lambda S: dict(pts=S.points("pts", n)))(n)) for n in (1, 2, 4)], post=rf_post,
         gen=lambda rng, i: dict(pts=np.array([G.rvec(rng) for _ in range(rng.randint(1, 6))])))


# ------------------------------------------------------------------ point in array
def ia_post(S, a, r, old):
    n = S.shape(old["arr"])[0]
    p = v3(old["ptest"])
    yield "an equal point is found", S.Implies(S.exists(n, lambda i: S.And(*[S.el(old["arr"], i, k) == p[k] for k in range(3)])), r)
    yield "a found point is within tolerance", S.Implies(r, S.exists(n, lambda i: near(S, p, row(S, old["arr"], i), 2.0)))


loops(f"{P}:is_point_in_array", 1, l0=dict(inv=lambda S, e, k, o: [("none of the earlier points is equal", S.forall(k, lambda i: S.Not(S.And(*[S.el(e.arr, i, c) == e.ptest[c] for c in range(3)]))))]))


def ia_gen(rng, i):
    arr = np.array([G.gvec(rng) for _ in range(rng.randint(1, 5))])
    p = arr[rng.randrange(len(arr))].copy() if i % 2 else G.gvec(rng)
    if i % 5 == 0:
        p = p + np.array([0, 0, 1e-3])
    return dict(ptest=p, arr=arr)


Contract("is_point_in_array", f"{P}:is_point_in_array", ["P09"], inputs=lambda S: dict(ptest=S.vec("p"), arr=S.points("arr", S.int("n", lo=0))),
         bounded=[(f"{n} points", (lambda n: lambda S: dict(ptest=S.vec("p"), arr=S.points("arr", n)))(n)) for n in (1, 2)], post=ia_post, gen=ia_gen, ngen=100)


# ------------------------------------------------------------------ triangle
def tri_in(S):
    return dict(pt1=S.vec("a"), pt2=S.vec("b"), pt3=S.vec("c"))


def ta_post(S, a, r, old):
    p, q, s = v3(old["pt1"]), v3(old["pt2"]), v3(old["pt3"])
    c = vcross(vsub(q, p), vsub(s, p))
    yield "not negative", S.le(0.0, r)
    yield "half the length of the cross product, up to a regularisation of 1e-12 under the root", S.And(S.le(vn2(c), 4 * (r * r)), S.le(4 * (r * r), vn2(c) + 1e-11))


def ta_lemmas(S, a, r, old):
    p, q, s = v3(old["pt1"]), v3(old["pt2"]), v3(old["pt3"])
    l1, l2, l3 = S.norm(vsub(q, p)), S.norm(vsub(s, q)), S.norm(vsub(s, p))
    h = 0.5 * (l1 + l2 + l3)
    c = vcross(vsub(q, p), vsub(s, p))
    x, y, z = S.real("x"), S.real("y"), S.real("z")
    yield "squares", vn2((x, y, z)) >= 0
    yield "squared area", S.eq(4 * (h * (h - l1) * (h - l2) * (h - l3)), vn2(c))
    for k in range(3):
        yield f"square {k}", c[k] * c[k] >= 0
    pr = h * (h - l1) * (h - l2) * (h - l3)
    yield "product of the formula is not negative", pr >= 0
    yield "root", S.Or(S.eq(r * r, pr), S.eq(r * r, pr + 1e-12))
    yield "root of the squared area", S.Or(S.eq(4 * (r * r), vn2(c)), S.eq(4 * (r * r), vn2(c) + 4e-12))


Contract("triangle_area", f"{T}:triangle_area", ["P08"], inputs=tri_in, bounded=[("any", tri_in)], post=ta_post, gen=lambda rng, i: dict(pt1=G.gvec(rng), pt2=G.rvec(rng), pt3=G.rvec(rng)), timeout=30, lemmas=ta_lemmas)


def tc_post(S, a, r, old):
    yield "mean of the vertices", S.And(*[S.eq(3 * r[k], old["pt1"][k] + old["pt2"][k] + old["pt3"][k]) for k in range(3)])


Contract("triangle_centroid", f"{T}:triangle_centroid", ["P08"], inputs=tri_in, bounded=[("any", tri_in)], post=tc_post, gen=lambda rng, i: dict(pt1=G.rvec(rng), pt2=G.rvec(rng), pt3=G.rvec(rng)))
