"""Point predicates, triangulation, polygon objects, rotation onto a plane."""
import math

import numpy as np

from pyvc import gen as G
from pyvc.contract import MODULAR, Contract, From, Scaled, det3, loops, row, vadd, vcross, vdot, vn2, vscale, vsub
from pyvc.values import CArr, LArr

P = "building3d.geom.points"
T = "building3d.geom.triangles"
I2 = "building3d.geom.points.intersections"
IP = "building3d.geom.polygon.ispointinside"
PE = "building3d.geom.polygon.edges"
PD = "building3d.geom.polygon.distance"
R = "building3d.geom.rotation"
AT = 1e-13


def v3(a):
    return (a[0], a[1], a[2])


# ------------------------------------------------------------------ convex corners
def cc_inputs(S):
    return dict(pt1=S.vec("a"), pt2=S.vec("b"), pt3=S.vec("c"), vn=S.vec("vn"), s=S.real("s"))


def cc_pre(S, a):
    vn = v3(a["vn"])
    c = vcross(vsub(v3(a["pt2"]), v3(a["pt1"])), vsub(v3(a["pt3"]), v3(a["pt2"])))
    yield "unit normal", S.eq(vn2(vn), 1.0)
    yield "the corner lies in the plane of the polygon: its cross product is s times the normal", S.And(*[S.eq(c[k], a["s"] * vn[k]) for k in range(3)])


def cc_post(S, a, r, old):
    s = old["s"]
    yield "counter-clockwise corners are convex", S.Implies(s > 1e-12, r)
    yield "clockwise and straight corners are not", S.Implies(s <= (0.0 if S.sym else 1e-14), S.Not(r))


def cc_lemmas(S, a, r, old):
    vn, s = v3(old["vn"]), old["s"]
    c = vcross(vsub(v3(old["pt2"]), v3(old["pt1"])), vsub(v3(old["pt3"]), v3(old["pt2"])))
    yield from length(S, c, s, vn)


def length(S, c, s, vn, nm=""):
    """c == s * vn with a unit vector vn: the length of c is the absolute value of s"""
    for k in range(3):
        yield f"component{nm} {k}", Scaled(c[k], s * vn[k], c[k])
        yield f"component{nm} {k}", Scaled(c[k], s * vn[k], s * vn[k])
    yield f"unit normal{nm}", Scaled(vn2(vn), 1.0, s * s)
    n = S.norm(c)
    yield f"squared length{nm}", S.eq(n * n, s * s)
    if S.case(s > 0):
        yield f"length{nm}", From(S.eq(n, s), S.eq(n * n, s * s), n >= 0, s > 0)
        sg = 1.0
    elif S.case(s < 0):
        yield f"length{nm}", From(S.eq(n, -s), S.eq(n * n, s * s), n >= 0, s < 0)
        sg = -1.0
    else:
        yield f"length{nm}", From(S.eq(n, 0.0), S.eq(n * n, s * s), n >= 0, S.eq(s, 0.0))
        return
    for k in range(3):
        q = c[k] / n
        yield f"quotient{nm} {k}", From(S.eq(q * n, s * vn[k]), S.eq(q * n, c[k]), S.eq(c[k], s * vn[k]))
        yield f"direction{nm} {k}", From(S.eq(q, sg * vn[k]), S.eq(q * n, s * vn[k]), S.eq(n, sg * s), n > 0)


def cc_gen(rng, i):
    u, v, n = G.frame(rng)
    while True:
        p = [np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)]) for _ in range(3)]
        if i % 5 == 0:
            p[2] = p[1] + rng.choice([0.5, 1.0, -0.5]) * (p[1] - p[0])
        if i % 11 == 0:
            p[2] = p[1].copy()
        s = float((p[1] - p[0])[0] * (p[2] - p[1])[1] - (p[1] - p[0])[1] * (p[2] - p[1])[0])
        if abs(s) > 1e-3 or (i % 5 == 0 or i % 11 == 0):
            break
    if abs(s) < 1e-9:
        s = 0.0
    if s == 0.0:
        # straight corners exactly: on a grid along an axis
        e = np.eye(3)[rng.randrange(3)]
        w = np.eye(3)[rng.randrange(3)]
        o = G.gvec(rng)
        if abs(np.dot(e, w)) > 0.5:
            w = np.roll(e, 1)
        return dict(pt1=o, pt2=o + e, pt3=o + rng.choice([0.5, 2.0, 1.0, -1.0]) * e, vn=w, s=0.0)
    q = [x * u + y * v for x, y in p]
    return dict(pt1=q[0], pt2=q[1], pt3=q[2], vn=n, s=s)


def cc_call(S, I, a):
    return I.call_fq(f"{T}:is_corner_convex", [a["pt1"], a["pt2"], a["pt3"], a["vn"]])


def cc_real(a):
    from building3d.geom.triangles import is_corner_convex as f

    return f(a["pt1"], a["pt2"], a["pt3"], a["vn"])


Contract("is_corner_convex", None, ["P07"], inputs=cc_inputs, bounded=[("any", cc_inputs)], pre=cc_pre, post=cc_post, gen=cc_gen, ngen=120, invoke=cc_call, real=cc_real,
         functions=[f"{T}:is_corner_convex"], lemmas=cc_lemmas, timeout=20)


# ------------------------------------------------------------------ same side of a line
def ss_inputs(S):
    return dict(pt1=S.vec("a"), pt2=S.vec("b"), ptest=S.vec("t"), ptref=S.vec("r"), n=S.vec("n"), st=S.real("st"), sr=S.real("sr"))


def ss_pre(S, a):
    d = vsub(v3(a["pt2"]), v3(a["pt1"]))
    n = v3(a["n"])
    yield "unit normal of the common plane", S.eq(vn2(n), 1.0)
    for k, s in (("ptest", "st"), ("ptref", "sr")):
        c = vcross(d, vsub(v3(a[k]), v3(a["pt1"])))
        yield f"{k} is in the plane, at signed (scaled) distance {s} from the line", S.And(*[S.eq(c[j], a[s] * n[j]) for j in range(3)])
    yield "the reference point is not on the line", S.Or(a["sr"] > 1e-12, a["sr"] < -1e-12)


def ss_post(S, a, r, old):
    st, sr = old["st"], old["sr"]
    yield "points on the same side are accepted", S.Implies(S.Or(S.And(sr > 0, st > 1e-12), S.And(sr < 0, st < -1e-12)), r)
    yield "points on the other side and on the line are rejected", S.Implies(S.Or(S.And(sr > 0, st <= (0.0 if S.sym else 1e-14)), S.And(sr < 0, st >= (0.0 if S.sym else -1e-14))), S.Not(r))


def ss_lemmas(S, a, r, old):
    d = vsub(v3(old["pt2"]), v3(old["pt1"]))
    for k, s in (("ptest", "st"), ("ptref", "sr")):
        c = vcross(d, vsub(v3(old[k]), v3(old["pt1"])))
        yield from length(S, c, old[s], v3(old["n"]), " " + k)


def ss_gen(rng, i):
    u, v, n = G.frame(rng)
    while True:
        p = [np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)]) for _ in range(4)]
        if i % 6 == 0:
            p[2] = p[rng.randrange(2)].copy()
        d = p[1] - p[0]
        cr = lambda x: float(d[0] * (x - p[0])[1] - d[1] * (x - p[0])[0])
        st, sr = cr(p[2]), cr(p[3])
        if i % 6 == 0:
            st = 0.0
        if abs(sr) > 1e-3 and (st == 0.0 or abs(st) > 1e-3):
            break
    q = [x * u + y * v for x, y in p]
    if i % 6 == 0:
        q[2] = q[0].copy() if np.array_equal(p[2], p[0]) else q[1].copy()
    return dict(pt1=q[0], pt2=q[1], ptest=q[2], ptref=q[3], n=n, st=st, sr=sr)


def ss_real(a):
    from building3d.geom.triangles import is_point_on_same_side as f

    return f(a["pt1"], a["pt2"], a["ptest"], a["ptref"])


Contract("is_point_on_same_side", None, ["P09"], inputs=ss_inputs, bounded=[("any", ss_inputs)], pre=ss_pre, post=ss_post, gen=ss_gen, ngen=120, real=ss_real,
         invoke=lambda S, I, a: I.call_fq(f"{T}:is_point_on_same_side", [a["pt1"], a["pt2"], a["ptest"], a["ptref"]]), functions=[f"{T}:is_point_on_same_side"], lemmas=ss_lemmas, timeout=20)


# ------------------------------------------------------------------ point in triangle
def pit_gen(rng, i):
    g = G.gvec if i % 2 else G.rvec
    while True:
        p = [g(rng) for _ in range(3)]
        if np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])) > 0.5:
            break
    if i % 6 == 5:  # beyond the end of an edge along an axis, within the extent of the triangle
        j, s = rng.randrange(3), rng.choice([1.0, -1.0])
        e, x, y = g(rng), s * np.eye(3)[j], np.eye(3)[(j + rng.choice([1, 2])) % 3]
        l = rng.uniform(0.1, 1.9)
        p = [e, e + rng.choice([1.0, 2.0]) * x, e - 2 * x + rng.choice([1.0, -1.5]) * y]
        h = l / np.linalg.norm(p[1] - e)
        o = rng.sample(range(3), 3)
        return dict(ptest=e - l * x, pt1=p[o[0]], pt2=p[o[1]], pt3=p[o[2]], b=[[1 + h, -h, 0.0][m] for m in o])
    k = rng.randrange(5)
    if k == 0:  # corner
        b = [0.0, 0.0, 0.0]
        b[rng.randrange(3)] = 1.0
    elif k == 1:  # on an edge
        t = rng.choice([0.25, 0.5, 0.75])
        b = [t, 1 - t, 0.0]
        rng.shuffle(b)
    elif k == 2:  # on the line through an edge, outside
        t = rng.choice([-0.25, 1.25, 2.0, -1.0])
        b = [t, 1 - t, 0.0]
        rng.shuffle(b)
    elif k == 3:  # interior
        b = [rng.uniform(0.02, 1) for _ in range(3)]
        b = [x / sum(b) for x in b]
    else:
        while True:
            b = [rng.uniform(-1, 2), rng.uniform(-1, 2)]
            b.append(1 - b[0] - b[1])
            if min(b) < -0.01:
                break
    t = p[0] + b[1] * (p[1] - p[0]) + b[2] * (p[2] - p[0]) if k != 0 else p[b.index(1.0)].copy()
    if k in (1, 2):
        z = b.index(0.0)
        x, y = (z + 1) % 3, (z + 2) % 3
        t = p[x] + b[y] * (p[y] - p[x])
    return dict(ptest=t, pt1=p[0], pt2=p[1], pt3=p[2], b=b)


def pit_post(S, a, r, old):
    b = old["b"]
    yield "a point of the triangle is inside", S.Implies(S.And(*[x >= 0 for x in b]), r)
    yield "any other point of its plane is not", S.Implies(S.Or(*[x < -1e-3 for x in b]), S.Not(r))


def pit_real(a):
    from building3d.geom.triangles import is_point_inside as f

    return f(a["ptest"], a["pt1"], a["pt2"], a["pt3"])


Contract("is_point_inside_triangle", None, ["P09", "P07"], post=pit_post, gen=pit_gen, ngen=300, real=pit_real, functions=[f"{T}:is_point_inside"])


# ------------------------------------------------------------------ collinear, coplanar
def col_gen(rng, i):
    n = rng.randint(3, 6)
    o = G.gvec(rng)
    d = G.gvec(rng) if rng.random() < 0.7 else np.eye(3)[rng.randrange(3)]
    if not d.any():
        d = np.array([1.0, 0, 0])
    pts = [o + rng.randint(-4, 4) / 2 * d for _ in range(n)]
    if i % 7 == 0:
        pts = [o.copy() for _ in range(n)]
    want = True
    if i % 2:
        k = rng.randrange(n)
        for _ in range(20):
            q = G.gvec(rng) if rng.random() < 0.5 else pts[k] + 0.01 * G.rvec(rng)
            z = pts[:k] + [q] + pts[k + 1:]
            s = max(np.linalg.norm(np.cross(y - x, w - x)) for x in z for y in z for w in z)
            if s > 1e-2:
                pts, want = z, False
                break
            if s == 0.0:
                pts = z
                break
    return dict(pts=np.array(pts), want=want)


Contract("are_points_collinear", None, ["P09"], gen=col_gen, ngen=200, real=lambda a: __import__("building3d.geom.points", fromlist=["x"]).are_points_collinear(a["pts"]),
         post=lambda S, a, r, old: [("collinear exactly when all points are on one line", bool(r) == old["want"])], functions=[f"{P}:are_points_collinear"])


def cop_gen(rng, i):
    n = rng.randint(3, 8)
    u, v, w = G.frame(rng, rng.choice(["xy", "xz", "yz", "rand"]))
    o = G.gvec(rng)
    pts = [o + rng.randint(-4, 4) / 2 * u + rng.randint(-4, 4) / 2 * v for _ in range(n)]
    if i % 5 == 0:
        k = rng.randint(2, n)
        for j in range(k):
            pts[j] = o + j * u  # many collinear points first
    if i % 7 == 0:
        pts[1] = pts[0].copy()
    want = True
    if i % 2 and n > 3:
        z = [q.copy() for q in pts]
        k = rng.randrange(n)
        z[k] = z[k] + rng.choice([0.01, -0.5, 1.0]) * w
        m = np.array(z) - z[0]
        s = np.linalg.svd(m, compute_uv=False)
        if s[2] > 1e-3 * 1:
            pts, want = z, False
    return dict(pts=np.array(pts), want=want)


Contract("are_points_coplanar", None, ["P09"], gen=cop_gen, ngen=200, real=lambda a: __import__("building3d.geom.points", fromlist=["x"]).are_points_coplanar(a["pts"]),
         post=lambda S, a, r, old: [("coplanar exactly when all points are in one plane", bool(r) == old["want"])], functions=[f"{P}:are_points_coplanar"])


# ------------------------------------------------------------------ intersections
def li_gen(seg):
    def gen(rng, i):
        g = G.gvec if i % 2 else G.rvec
        while True:
            q, d1, d2 = g(rng), g(rng), g(rng)
            c = np.linalg.norm(np.cross(d1, d2))
            if np.linalg.norm(d1) > 0.3 and np.linalg.norm(d2) > 0.3 and c > 0.3:
                break
        t, s = rng.choice([0.0, 0.25, 0.5, 1.0, 0.7]), rng.choice([0.0, 0.25, 0.5, 1.0, 0.3])
        k = rng.randrange(5)
        want = q
        if k == 0:  # beyond an end
            t = rng.choice([-0.5, 1.5, -2.0, -0.01, 1.01])
            want = None if seg else q
        elif k == 4:
            s = rng.choice([-0.5, 1.5, -2.0, -0.01, 1.01])
            want = None if seg else q
        a, b = q - t * d1, q - s * d2
        if k == 1:  # skew
            b = b + rng.choice([0.1, -0.5]) * np.cross(d1, d2) / c
            want = None
        elif k == 2:  # parallel or coincident
            d2 = rng.choice([1.0, -1.0, 0.5, -2.0]) * d1
            want = None
        if seg:
            return dict(pa1=a, pb1=a + d1, pa2=b, pb2=b + d2, want=want)
        return dict(pt1=a, d1=d1, pt2=b, d2=d2, want=want)

    return gen


def li_post(S, a, r, old):
    w = old["want"]
    if w is None:
        yield "no intersection: nan", bool(np.isnan(r).all())
    else:
        yield "the common point", bool(np.allclose(r, w, atol=1e-9, rtol=0))


def li_real(nm, keys):
    def f(a):
        m = __import__(I2, fromlist=["x"])
        return getattr(m, nm)(*[a[k] for k in keys])

    return f


Contract("line_intersection", None, ["P09"], gen=li_gen(False), ngen=150, real=li_real("line_intersection", ["pt1", "d1", "pt2", "d2"]), post=li_post, functions=[f"{I2}:line_intersection"])
Contract("line_segment_intersection", None, ["P09"], gen=li_gen(True), ngen=200, real=li_real("line_segment_intersection", ["pa1", "pb1", "pa2", "pb2"]), post=li_post, functions=[f"{I2}:line_segment_intersection"])


# ------------------------------------------------------------------ edges of a polygon
def pe_post(S, a, r, old):
    pts = old["pts"]
    n = S.shape(pts)[0]
    yield "as many edges as points", S.And(S.eq(S.shape(r)[0], n), S.eq(S.shape(r)[1], 2), S.eq(S.shape(r)[2], 3))
    yield "edge i starts at point i", S.forall(n, lambda i: S.And(*[S.eq(S.el(r, i, 0, k), S.el(pts, i, k)) for k in range(3)]))
    yield "edge i ends at the next point", S.forall(n, lambda i: S.Implies(i < n - 1, lambda: S.And(*[S.eq(S.el(r, i, 1, k), S.el(pts, i + 1, k)) for k in range(3)])))
    yield "the last edge closes the ring", S.And(*[S.eq(S.el(r, n - 1, 1, k), S.el(pts, 0, k)) for k in range(3)])


def pe_list(S, l):
    """list of edges of unknown length and content (in place)"""
    import z3
    from pyvc import symobj as so
    from pyvc.values import SF, it

    Z = z3.IntSort()
    f = z3.Function(f"edge!{next(so._n)}", Z, Z, Z, z3.RealSort())
    l.items, l.n = None, S.int("nedges", lo=0)
    l.get = lambda k: CArr(np.array([[SF(f(it(k), z3.IntVal(i), z3.IntVal(j))) for j in range(3)] for i in range(2)], dtype=object), "f")


def pe_inv(S, e, k, o):
    n, m = S.shape(e.pts)[0], S.len(e.edges_list)
    yield "position in the edge", S.And(S.le(0, e.j), S.le(e.j, 1), S.le(e.j, e.i), S.le(e.i, n), S.Implies(S.eq(e.j, 0), e.i < n))
    yield "one edge per pair of points", S.eq(m, e.i - e.j)
    yield "edges so far", S.forall(m, lambda t: S.And(*[S.And(S.eq(S.el(S.at(e.edges_list, t), 0, c), S.el(e.pts, t, c)), S.eq(S.el(S.at(e.edges_list, t), 1, c), S.el(e.pts, t + 1, c))) for c in range(3)]))
    yield "start of the next edge", S.Implies(S.eq(e.j, 1), lambda: S.And(*[S.eq(S.el(e.edge, 0, c), S.el(e.pts, e.i - 1, c)) for c in range(3)]))


def pe_copy(S, e, k, o):
    yield "edges copied so far", S.forall(k, lambda t: S.And(*[S.eq(S.el(e.edges_arr, t, q, c), S.el(S.at(e.edges_list, t), q, c)) for q in range(2) for c in range(3)]))


loops(f"{PE}:polygon_edges", 2, l0=dict(inv=pe_inv, fresh=dict(edges_list=pe_list), decreases=lambda S, e, k: 2 * (S.shape(e.pts)[0] - e.i) + e.j), l1=dict(inv=pe_copy))
Contract("polygon_edges", f"{PE}:polygon_edges", ["P09", "P26"], inputs=lambda S: dict(pts=S.points("pts", S.int("n", lo=2))), bounded=[(f"{n} points", (lambda n: lambda S: dict(pts=S.points("pts", n)))(n)) for n in (3, 4, 5, 7)], post=pe_post,
         gen=lambda rng, i: dict(pts=np.array([G.rvec(rng) for _ in range(rng.randint(3, 9))])))


def m_edges(S, I, f, a):
    """summary of polygon_edges(): proved by the contract polygon_edges"""
    pts = a["pts"]
    n = S.shape(pts)[0]
    return LArr((n, 2, 3), lambda i: S.el(pts, S.ite(S.And(S.eq(i[1], 1), S.eq(i[0], n - 1)), 0, i[0] + i[1]), i[2]), "f")


MODULAR[f"{PE}:polygon_edges"] = m_edges


# ------------------------------------------------------------------ point in polygon
def in2d(p, q):
    """-1 outside, 0 on the border (1e-9), 1 inside of the 2D polygon p (any orientation), and distance to the border"""
    x, y = q
    n, ins, dmin = len(p), False, math.inf
    for i in range(n):
        (x1, y1), (x2, y2) = p[i], p[(i + 1) % n]
        dx, dy = x2 - x1, y2 - y1
        t = max(0.0, min(1.0, ((x - x1) * dx + (y - y1) * dy) / (dx * dx + dy * dy)))
        dmin = min(dmin, math.hypot(x - x1 - t * dx, y - y1 - t * dy))
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            ins = not ins
    return (0 if dmin < 1e-9 else 1 if ins else -1), dmin


def poly_and_point(rng, i, kind=None, dz=None, convex=False, minb=0.01):
    """polygon with a point: 2D shape, embedding, point above/in/below the plane"""
    while True:
        p2 = G.shape2d(rng, convex=convex)
        if G.reflex(p2, 0):
            continue
        k = rng.randrange(5)
        if k == 0:
            q = p2[rng.randrange(len(p2))]
        elif k == 1:
            j = rng.randrange(len(p2))
            t = rng.choice([0.25, 0.5, 0.75])
            a, b = p2[j], p2[(j + 1) % len(p2)]
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        elif k == 2:  # on the line through an edge
            j = rng.randrange(len(p2))
            t = rng.choice([-0.25, 1.25, 1.5, -0.5])
            a, b = p2[j], p2[(j + 1) % len(p2)]
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        else:
            q = (rng.uniform(-2, 3), rng.uniform(-2, 3))
        c, d = in2d(p2, q)
        if c != 0 and d < minb:
            continue
        break
    u, v, n = G.frame(rng, kind)
    o = G.gvec(rng)
    s = rng.choice([1.0, 1.0, 0.5, 2.0])
    pts = np.array([o + s * (x * u + y * v) for x, y in p2])
    z = rng.choice([0.0, 0.0, 0.5, -1.0, 0.01]) if dz is None else dz
    pt = o + s * (q[0] * u + q[1] * v)
    if k == 0 and z == 0.0:
        pt = pts[p2.index(q)].copy()
    return dict(pts=pts, n=n, pt=pt + z * n, z=z, cls=c, d2=s * d, s=s)


def tri_of(a):
    from building3d.geom.triangles import triangulate

    return triangulate(a["pts"], a["n"])


def pip_real(a):
    from building3d.geom.polygon.ispointinside import is_point_at_boundary, is_point_inside, is_point_inside_margin, is_point_inside_ortho_projection, is_point_inside_projection

    pts, tri = tri_of(a)
    v, pt = a["v"], a["pt"]
    return dict(
        inside=is_point_inside(pt, pts, tri), strict=is_point_inside(pt, pts, tri, False), border=is_point_at_boundary(pt, pts), margin=is_point_inside_margin(pt, a["m"], pts, tri),
        ortho=is_point_inside_ortho_projection(pt, pts, tri), fwd=is_point_inside_projection(pt - a["l"] * v, v, pts, tri), both=is_point_inside_projection(pt - a["l"] * v, v, pts, tri, False),
    )


def pip_gen(rng, i):
    a = poly_and_point(rng, i)
    while True:
        v = G.rvec(rng)
        if abs(np.dot(v, a["n"])) > 0.5:
            break
    a["v"], a["l"] = v, rng.choice([0.5, 1.0, -1.0, 2.0])
    a["m"] = a["d2"] * rng.choice([0.5, 1.5]) if a["d2"] > 1e-6 else 0.1
    return a


def pip_post(S, a, r, old):
    c, flat = old["cls"], old["z"] == 0.0
    yield "inside exactly when on the surface or border", bool(r["inside"]) == (flat and c >= 0)
    yield "inside without the border", bool(r["strict"]) == (flat and c > 0)
    yield "on the border", bool(r["border"]) == (flat and c == 0)
    yield "inside with a margin", bool(r["margin"]) == (flat and c > 0 and old["d2"] > old["m"])
    yield "orthogonal projection", bool(r["ortho"]) == (c >= 0)
    if flat:
        yield "projection along a vector, both directions", bool(r["both"]) == (c >= 0)
        yield "projection along a vector, forwards", bool(r["fwd"]) == (c >= 0 and old["l"] > 0)


Contract("point_in_polygon", None, ["P09", "P25"], gen=pip_gen, ngen=150, real=pip_real, post=pip_post,
         functions=[f"{IP}:{f}" for f in ("is_point_at_boundary", "is_point_inside", "is_point_inside_margin", "is_point_inside_ortho_projection", "is_point_inside_projection")])


# ------------------------------------------------------------------ distance to a polygon
def dp_real(a):
    from building3d.geom.polygon.distance import distance_point_to_polygon as f

    pts, tri = tri_of(a)
    return f(a["pt"], pts, tri, a["n"])


def dp_post(S, a, r, old):
    want = math.hypot(old["z"], 0.0 if old["cls"] >= 0 else old["d2"])
    yield "smallest distance to a point of the polygon", abs(r - want) <= 1e-9 * max(1.0, want)
    yield "not negative", r >= 0


Contract("distance_point_to_polygon", None, ["P09"], gen=poly_and_point, ngen=120, real=dp_real, post=dp_post, functions=[f"{PD}:distance_point_to_polygon"])


# ------------------------------------------------------------------ triangulation
def comb(k):
    p = [(0, 0), (2 * k - 1, 0)]
    for i in range(k - 1, -1, -1):
        p += [(2 * i + 1, 3), (2 * i, 3)] if i == 0 else [(2 * i + 1, 3), (2 * i, 3), (2 * i, 1), (2 * i - 1, 1)]
    return p


def spiral(n):
    out, inn = [], []
    for i in range(n):
        a, r = i * math.pi / 4, 1 + 0.3 * i
        out.append((r * math.cos(a), r * math.sin(a)))
        inn.append(((r - 0.15) * math.cos(a), (r - 0.15) * math.sin(a)))
    return out + inn[::-1]


def zigzag(rng, n):
    r = [rng.uniform(0.4, 2) for _ in range(n)]
    return [(r[i] * math.cos(2 * math.pi * i / n), r[i] * math.sin(2 * math.pi * i / n)) for i in range(n)]


def tg_gen(rng, i):
    k = i % 5
    if k == 0:
        p = comb(rng.randint(2, 6))
    elif k == 1:
        p = spiral(rng.randint(5, 10))
    elif k == 2:
        p = zigzag(rng, rng.randint(5, 14))
    else:
        p = G.shape2d(rng)
    j = rng.randrange(len(p))
    p = p[j:] + p[:j]
    if rng.random() < 0.3:
        p = p[::-1]
    u, v, n = G.frame(rng)
    o = G.gvec(rng)
    return dict(pts=np.array([o + x * u + y * v for x, y in p]), vn=n)


def tg_post(S, a, r, old):
    pts, vn = old["pts"], old["vn"]
    out, tri = r
    n = len(pts)
    rolls = [np.roll(q, k, axis=0) for q in (pts, pts[::-1]) for k in range(n)]
    yield "the same ring of points", out.shape == pts.shape and any(np.array_equal(out, q) for q in rolls)
    yield "n-2 triangles", tri.shape == (n - 2, 3)
    yield "valid and different vertices", bool(((tri >= 0) & (tri < n)).all()) and all(len(set(t)) == 3 for t in tri.tolist())
    yield "every vertex is used", set(tri.ravel().tolist()) == set(range(n))
    ar = [np.cross(out[t[1]] - out[t[0]], out[t[2]] - out[t[0]]) / 2 for t in tri]
    yield "triangles turn with the normal", all(np.dot(x, vn) > 0 for x in ar)
    va = G.vec_area(pts - pts[0])
    va = va if np.dot(va, vn) > 0 else -va
    yield "areas sum up to that of the polygon", bool(np.allclose(sum(ar), va, atol=1e-9, rtol=1e-9))
    # with equal signed area and the same border, triangles that do not leave the ring cannot overlap: directed edges pair up
    e = {}
    for t in tri.tolist():
        for i in range(3):
            e[(t[i], t[(i + 1) % 3])] = e.get((t[i], t[(i + 1) % 3]), 0) + 1
    ring = {(i, (i + 1) % n) for i in range(n)}
    yield "triangle edges are ring edges or shared by two triangles", all(c == 1 for c in e.values()) and all((k in ring) != ((k[1], k[0]) in e) for k in e) and all(k in e for k in ring)


Contract("triangulate", f"{T}:triangulate", ["P07"], gen=tg_gen, ngen=60, post=tg_post)


def te_gen(rng, i):
    a = tg_gen(rng, i)
    k = i % 2
    a["vn"] = np.zeros(3) if k else a["vn"]
    if not k:  # all points on a line
        d = G.gvec(rng) + np.array([0.1, 0, 0])
        a["pts"] = np.array([j * d for j in range(rng.randint(3, 6))])
        a["vn"] = np.cross(d, np.array([0.3, 0.2, 0.9]))
        a["vn"] /= np.linalg.norm(a["vn"])
    return a


Contract("triangulate_rejects", f"{T}:triangulate", ["P07"], gen=te_gen, ngen=20, raises=lambda S, old, e: e == "TriangulationError", post=lambda S, a, r, old: [("degenerate input is rejected", False)])


# ------------------------------------------------------------------ polygon objects
def po_gen(rng, i):
    while True:
        p2 = G.shape2d(rng)
        with_vn = rng.random() < 0.5
        if not with_vn and G.reflex(p2, 0):
            continue
        a, b, c = p2[-1], p2[0], p2[1]
        if not with_vn and abs((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])) < 1e-3:
            continue  # the normal is taken from the first corner
        break
    if i % 8 == 3:  # several reflex corners in a row, the first corner among them as often as not
        m = rng.randint(3, 8)
        p2 = [(0.0, 1.6), (0.0, 0.0), (4.0, 0.0), (4.0, 1.6)] + [(2 + math.cos(math.pi * j / (m + 1)), 1.5 - math.sin(math.pi * j / (m + 1))) for j in range(1, m + 1)]
        j = rng.randrange(len(p2))
        p2, with_vn = p2[j:] + p2[:j], True
    if rng.random() < 0.4:  # a vertex on an edge, the first or the last one as often as not
        j = rng.choice([0, len(p2) - 1, rng.randrange(len(p2))])
        a, b = p2[j], p2[(j + 1) % len(p2)]
        p2 = p2[: j + 1] + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)] + p2[j + 1 :]
        if with_vn and rng.random() < 0.5:
            p2 = p2[j + 1 :] + p2[: j + 1]
    pts, n = G.to3d(rng, p2)
    return dict(pts=pts, n=n, vn=n if with_vn else None, name=rng.choice(["p", None]), t=G.rvec(rng), k=rng.randrange(len(pts)), nn=rng.choice(["q", None]))


def po_real(a):
    from building3d.geom.polygon import Polygon

    p = Polygon(a["pts"].copy(), name=a["name"], vn=None if a["vn"] is None else a["vn"].copy())
    before = (p.pts.copy(), p.vn.copy(), p.area, p.ctr.copy(), p.tri.copy())
    f = p.flip(a["nn"])
    m = Polygon(a["pts"] + a["t"], vn=a["n"])
    r = Polygon(np.roll(a["pts"], a["k"], axis=0), vn=a["n"])
    same = all(np.array_equal(x, y) for x, y in zip(before, (p.pts, p.vn, p.area, p.ctr, p.tri)))
    return dict(p=p, f=f, m=m, r=r, same=same, ip=p.get_some_interior_point())


def cyclic(x, y):
    return len(x) == len(y) and any(np.array_equal(np.roll(x, k, axis=0), y) for k in range(len(x)))


def first_normal(pts):
    c = np.cross(pts[0] - pts[-1], pts[1] - pts[0])
    l = np.linalg.norm(c)
    return c / l if l > 1e-9 else np.zeros(3)


def po_post(S, a, r, old):
    p, f, m, q = r["p"], r["f"], r["m"], r["r"]
    n = old["n"]
    cl = lambda x, y: bool(np.allclose(x, y, atol=1e-6, rtol=1e-6))
    va = G.vec_area(old["pts"] - old["pts"][0])
    area = float(np.linalg.norm(va))
    yield "unit normal of the polygon", cl(p.vn, n)
    yield "area", cl(p.area, area)
    # centroid of the region
    o = old["pts"][0]
    c, s = np.zeros(3), 0.0
    for i in range(1, len(old["pts"]) - 1):
        x, y, z = o, old["pts"][i], old["pts"][i + 1]
        w = float(np.dot(np.cross(y - x, z - x), n)) / 2
        c, s = c + w * (x + y + z) / 3, s + w
    yield "centroid", cl(p.ctr, c / s)
    yield "plane equation", all(abs(np.dot(p.plane_coefficients[:3], x) + p.plane_coefficients[3]) < 1e-8 for x in p.pts) and abs(np.linalg.norm(p.plane_coefficients[:3]) - 1) < 1e-9
    yield "flipping: opposite normal, same area and centroid, other vertex order", cl(f.vn, -n) and cl(f.area, area) and cl(f.ctr, p.ctr) and cyclic(f.pts, p.pts[::-1])
    for nm, x, w in (("polygon", p, n), ("flipped polygon", f, -n), ("polygon with another starting vertex", q, n)):
        yield f"{nm}: same outline, its first corner shows the normal", cyclic(x.pts, old["pts"][::-1] if x is f else old["pts"]) and cl(first_normal(x.pts), w)
        yield f"{nm}: plane", cl(x.plane_coefficients[:3], w) and all(abs(np.dot(x.plane_coefficients[:3], y) + x.plane_coefficients[3]) < 1e-8 for y in x.pts)
        yield f"{nm}: triangles of its own points", cl(sum(np.cross(x.pts[t[1]] - x.pts[t[0]], x.pts[t[2]] - x.pts[t[0]]) / 2 for t in x.tri), area * w)
    yield "flipping: triangles turn with the new normal", all(np.dot(np.cross(f.pts[t[1]] - f.pts[t[0]], f.pts[t[2]] - f.pts[t[0]]), f.vn) > 0 for t in f.tri)
    yield "flipping: name", f.name == old["nn"] if old["nn"] is not None else f.name != p.name and len(f.name) > 0
    yield "flipping leaves the polygon alone", r["same"]
    yield "translation", cl(m.ctr, p.ctr + old["t"]) and cl(m.area, area) and cl(m.vn, n)
    yield "starting vertex does not matter", cl(q.ctr, p.ctr) and cl(q.area, area) and cl(q.vn, n)
    yield "identity", len(p.uid) > 0 and p.uid != f.uid and (p.name == old["name"] if old["name"] is not None else len(p.name) > 0)
    u = (old["pts"][1] - o) / np.linalg.norm(old["pts"][1] - o)
    v = np.cross(n, u)
    to2 = lambda x: (float(np.dot(x - o, u)), float(np.dot(x - o, v)))
    yield "the interior point is inside", in2d([to2(x) for x in old["pts"]], to2(r["ip"]))[0] == 1


Contract("polygon_object", None, ["P08"], gen=po_gen, ngen=80, real=po_real, post=po_post, functions=["building3d.geom.polygon:Polygon.__init__", "building3d.geom.polygon:Polygon.flip", "building3d.geom.polygon:Polygon.get_some_interior_point"])


# ------------------------------------------------------------------ rotation onto a plane
def rtp_gen(rng, i):
    pts, n = G.polygon3d(rng, first_convex=True)
    k = rng.randrange(5)
    if k == 0:
        u = n.copy()
    elif k == 1:
        u = -n
    elif k == 2:
        u = np.eye(3)[rng.randrange(3)]
    else:
        u = G.frame(rng, "rand")[2]
    anchor = rng.choice([np.zeros(3), pts[0].copy(), G.rvec(rng)])
    return dict(pts=pts, n=n, anchor=anchor, u=u, d=rng.choice([0.0, 1.5, -2.0]))


def rtp_post(S, a, r, old):
    out, ax, phi = r
    pts, n, u, c, d = old["pts"], old["n"], old["u"], old["anchor"], old["d"]
    m = len(pts)
    cl = lambda x, y: bool(np.allclose(x, y, atol=1e-7))
    yield "distances are kept", out.shape == pts.shape and cl([np.linalg.norm(out[i] - out[j]) for i in range(m) for j in range(i)], [np.linalg.norm(pts[i] - pts[j]) for i in range(m) for j in range(i)])
    w = np.cross(out[0] - out[-1], out[1] - out[0])
    w = w / np.linalg.norm(w)
    anti = np.dot(n, u) < -1 + 1e-9
    yield "the points are parallel to the requested plane, facing the requested way unless opposite before", cl(w, -u if anti else u)
    sg = -1.0 if anti else 1.0
    yield "turned about the anchor, then shifted along the normal", cl([np.dot(x - c, u) - d for x in out], [sg * np.dot(x - c, n) for x in pts])
    yield "distances to the anchor are kept", cl([np.linalg.norm(x - u * d - c) for x in out], [np.linalg.norm(x - c) for x in pts])
    # the returned axis and angle describe the rotation
    ang = math.acos(max(-1.0, min(1.0, float(np.dot(n, u)))))
    yield "angle", abs(phi - (0.0 if anti else ang)) < 1e-6
    if 1e-3 < ang < math.pi - 1e-3:
        e = np.cross(n, u)
        yield "axis", cl(ax, e / np.linalg.norm(e))


Contract("rotate_points_to_plane", f"{R}:rotate_points_to_plane", ["P11"], gen=rtp_gen, ngen=120, post=rtp_post,
         real=lambda a: __import__(R, fromlist=["x"]).rotate_points_to_plane(a["pts"], a["anchor"], a["u"], a["d"]))
