"""Segments, cubes and polygons; visibility and close pairs of points; neighbouring solids."""
import importlib
import itertools
import math

import numpy as np
import z3
from contracts import graphs as GR, location as LO, predicates as PR, relations as RE
from contracts.location import B, R, fn, v3

from pyvc import gen as G, npmodel as npm, symobj as so
from pyvc.contract import Contract, Instance, abstract, expect, loops, row, vdot, vsub
from pyvc.values import CArr, mkbool

CX = "building3d.geom.polygon.crossing"
SEG, CUB = f"{CX}:is_line_segment_crossing_polygon", f"{CX}:is_polygon_crossing_cube"
VI, CP = "building3d.geom.points.visibility", "building3d.geom.points.find_close_pairs"
SLD = "building3d.geom.solid:Solid"
INS = f"{PR.IP}:is_point_inside"
LSI, EQ = "building3d.geom.points.intersections:line_segment_intersection", "building3d.geom.points:points_equal"


def real(fq):
    m, f = fq.split(":")
    return getattr(importlib.import_module(m), f)


# ------------------------------------------------------------------ segment and polygon
def sg_inputs(n=None, m=None):
    def f(S):
        a = LO.poly_inputs(S, n, m)
        a = dict(s=S.vec("s"), e=S.vec("e"), pts=a["pts"], tri=a["tri"], eps=S.real("eps", lo=0))
        S.c.ghost["loc"] = a
        return a

    return f


def sg_meets(S, old):
    s, e = v3(old["s"]), v3(old["e"])
    return LO.meets(S, dict(pts=old["pts"], ptest=s, v=vsub(e, s), atol=old["eps"])) + (s, vsub(e, s))


def sg_lemmas(S, a, r, old):
    par, ok, den, h, p, v = sg_meets(S, old)
    if S.case(ok):
        q = S.c.ghost["meet"] = v3(S.vec("q"))
        for c in range(3):
            S.c.assume(S.eq(den * (q[c] - p[c]), h * v[c]).t)
        for i, t in enumerate(S.c.ghost.get("tested", [])):
            for c in range(3):
                yield f"tested point {i}{c}", S.eq(den * (t[c] - p[c]), h * v[c])
                yield f"tested point is the meeting point {i}{c}", Instance(lambda t, q, p, den, hv: (S.eq(t, q), S.eq(den * (t - p), hv), S.eq(den * (q - p), hv), S.Not(S.eq(den, 0.0))), t[c], q[c], p[c], den, h * v[c])


def sg_post(S, a, r, old):
    if not S.sym:
        want = old["cls"] >= 0 and old["z"] == 0.0 and old["t0"] <= 0 <= old["t1"]
        yield "crossing exactly when the segment meets the polygon", all(bool(x) == want for x in r["same"])
        yield "segments along the plane do not cross", not any(r["par"])
        return
    par, ok, den, h, p, v = sg_meets(S, old)
    yield "along the plane: no crossing", S.Implies(par, S.Not(r))
    if not S.case(ok):
        return
    on = S.Or(S.And(den > 0, h >= 0, h <= den), S.And(den < 0, h <= 0, h >= den))
    yield "the plane is met before the start or behind the end: no crossing", S.Implies(S.Not(on), S.Not(r))
    yield "otherwise crossing exactly when that point is inside", S.Implies(on, S.Iff(r, LO.inside_at(S, old["pts"], S.c.ghost["meet"])))


def sg_exact(rng):
    """segments ending in an axis-parallel square with whole coordinates, where the arithmetic is exact"""
    ax, s = rng.randrange(3), rng.randrange(1, 5)
    o = np.array([float(rng.randrange(-4, 5)) for _ in range(3)])
    u, w, n = (np.eye(3)[(ax + k) % 3] for k in range(3))
    pts = np.array([o, o + s * u, o + s * u + s * w, o + s * w])
    x, y = rng.choice([0.25, 0.5, 0.75]), rng.choice([0.25, 0.5, 0.75])
    t = [(0.0, 2.0), (-1.0, 0.0), (0.0, 0.5), (-2.0, 0.0)][rng.randrange(4)]
    return dict(pts=np.roll(pts, rng.randrange(4), axis=0), n=n, pt=o + s * x * u + s * y * w, cls=1, z=0.0, v=rng.choice([-1.0, 1.0]) * n + rng.choice([0.0, 0.5]) * u, t0=t[0], t1=t[1])


def sg_gen(rng, i):
    if i % 6 == 5:
        return sg_exact(rng)
    a = PR.poly_and_point(rng, i, dz=0.0)
    while True:
        v = G.rvec(rng)
        if abs(np.dot(v, a["n"])) > 0.4:
            break
    t = [(-1.0, 1.0), (-0.3, 2.0), (0.2, 1.5), (-2.0, -0.4), (-0.05, 0.05)][rng.randrange(5)]
    a.update(v=v, t0=t[0], t1=t[1])
    return a


def sg_real(a):
    f = real(SEG)
    Pg = real("building3d.geom.polygon:Polygon")
    p, q = Pg(a["pts"], vn=a["n"]), Pg(a["pts"][::-1].copy(), vn=-a["n"])
    pts, tri = p.pts, p.tri
    s, e = a["pt"] + a["t0"] * a["v"], a["pt"] + a["t1"] * a["v"]
    back = q.pts, q.tri
    w = pts[1] - pts[0]
    return dict(same=[f(s, e, pts, tri), f(e, s, pts, tri), f(s, e, *back)], par=[f(p, p + k * w, pts, tri) for p in (a["pt"], a["pt"] + 0.5 * a["n"]) for k in (1.0, -2.0)])


Contract("segment_crossing_polygon", None, ["P29"], inputs=sg_inputs(), bounded=[(f"{n} points, {m} triangle(s)", sg_inputs(n, m)) for n, m in ((3, 1), (4, 2))], setup=LO.pj_setup, abstracts=[INS, LO.NRM], lemmas=sg_lemmas, post=sg_post,
         invoke=lambda S, I, a: I.call_fq(SEG, [a[k] for k in ("s", "e", "pts", "tri", "eps")]), pre=lambda S, a: [("positive tolerance", a["eps"] > 0)] if S.sym else [], gen=sg_gen, ngen=120, real=sg_real, functions=[SEG], frame=False)


# ------------------------------------------------------------------ polygon and cube
def cu_setup(S, I):
    g = S.c.ghost

    def cross(s, e, pts, tri, eps):
        if pts is g["cube"]["pts"]:
            expect(tri is g["cube"]["tri"])
            return hits(S, "polygon", v3(s), v3(e))
        P = [v3(pts[i]) for i in range(4)]
        lo, hi = (v3(g["cube"][k]) for k in ("lo", "hi"))
        same = lambda x, y: x is y or x.t.eq(y.t)
        for ax, (k, w) in itertools.product(range(3), (("lo", lo), ("hi", hi))):
            if all(same(p[ax], w[ax]) for p in P):
                other = [c for c in range(3) if c != ax]
                side = [tuple(int(same(p[c], hi[c])) for c in other) for p in P]
                expect(sorted(side) == [(0, 0), (0, 1), (1, 0), (1, 1)] and all(sum(x != y for x, y in zip(side[i], side[i - 1])) == 1 for i in range(4)), "corners of a side of the cube")
                return hits(S, f"side{ax}{k}", v3(s), v3(e))
        expect(False, "a side of the cube")

    abstract(I, SEG, cross)


def hits(S, what, s, e):
    """the segment crosses: unknown, the same in both directions"""
    return S.Or(fn(f"hits_{what}", B, s, e), fn(f"hits_{what}", B, e, s))


def cu_inputs(n, case=None):
    """n points; beside the cube in one direction, or the first or last one in the cube"""

    def f(S):
        tri = CArr(np.array([[0, 1, 2], [0, 2, 3]][: n - 2], dtype=object), "i")
        lo, hi = (tuple(S.real(f"{k}{c}") for c in "xyz") for k in ("lo", "hi"))
        for x, y in zip(lo, hi):
            S.c.assume((x < y).t)
        a = dict(pts=S.points("pts", n), tri=tri, lo=lo, hi=hi, eps=S.real("eps", lo=0))
        S.c.ghost["cube"] = a
        for i in range(n):
            p = row(S, a["pts"], i)
            if isinstance(case, int):
                w = p[case] > hi[case] + a["eps"] if i % 2 else p[case] < lo[case] - a["eps"]
            elif i == (0 if case == "first" else n - 1):
                w = S.And(*[S.And(lo[c] <= p[c], p[c] <= hi[c]) for c in range(3)])
            else:
                w = p[0] > hi[0] + a["eps"]
            S.c.assume(w.t)
        return a

    return f


def cu_proof(S):
    n, m = S.int("n", lo=3), S.int("m", lo=1)
    a = LO.poly_inputs(S, n, m)
    lo, hi = (tuple(S.real(f"{k}{c}") for c in "xyz") for k in ("lo", "hi"))
    for x, y in zip(lo, hi):
        S.c.assume((x < y).t)
    a = dict(pts=a["pts"], tri=a["tri"], lo=lo, hi=hi, eps=S.real("eps", lo=0))
    S.c.ghost["cube"] = a
    return a


SIDES = [f"side{ax}{k}" for ax in range(3) for k in ("lo", "hi")]


def in_cube(S, a, p, eps):
    return S.And(*[S.And(a["lo"][c] - eps <= p[c], p[c] <= a["hi"][c] + eps) for c in range(3)])


def tri_hits(S, a, i):
    """an edge of triangle i crosses a side of the cube"""
    P = [row(S, a["pts"], S.el(a["tri"], i, c)) for c in range(3)]
    return S.Or(*[hits(S, w, P[c], P[(c + 1) % 3]) for c in range(3) for w in SIDES])


def cu_edges(S, a):
    lo, hi, ed = a["lo"], a["hi"], []
    for ax in range(3):
        o = [c for c in range(3) if c != ax]
        for x, y in itertools.product((lo, hi), repeat=2):
            s, e = [None] * 3, [None] * 3
            s[o[0]] = e[o[0]] = x[o[0]]
            s[o[1]] = e[o[1]] = y[o[1]]
            s[ax], e[ax] = lo[ax], hi[ax]
            ed.append(hits(S, "polygon", tuple(s), tuple(e)))
    return S.Or(*ed)


loops(CUB, 5, l0=dict(inv=lambda S, e, k, o: [("no earlier vertex in the cube", S.forall(k, lambda i: S.Not(in_cube(S, S.c.ghost["cube"], row(S, e.pts, i), e.eps))))]),
      l1=dict(inv=lambda S, e, k, o: [("no earlier triangle crosses a side", S.forall(k, lambda i: S.Not(tri_hits(S, S.c.ghost["cube"], i))))], fresh=dict({v: (lambda S, o: S.vec("edge")) for v in ("edge_start", "edge_end")}, face=lambda S, o: S.points("face", 4))))


def cu_post(S, a, r, old):
    if not S.sym:
        yield "crossing exactly when polygon and cube have a point in common", all(bool(x) == old["want"] for x in r)
        return
    n, m = S.shape(old["pts"])[0], S.shape(old["tri"])[0]
    edges = cu_edges(S, old)
    inside = lambda eps: S.exists(n, lambda i: in_cube(S, old, row(S, old["pts"], i), eps))
    inner, close = inside(0.0), inside(old["eps"])
    outline = diag = S.exists(m, lambda i: tri_hits(S, old, i))
    if isinstance(n, int):
        P = [row(S, old["pts"], i) for i in range(n)]
        pair = lambda i, j: S.Or(*[hits(S, w, P[i], P[j]) for w in SIDES])
        outline = S.Or(*[pair(i, (i + 1) % n) for i in range(n)])
    yield "a vertex in the cube, an edge through a side or a cube edge through the polygon: crossing", S.Implies(S.Or(inner, outline, edges), r)
    yield "none of them: no crossing", S.Implies(r, S.Or(close, outline, diag, edges))


def sat(T, lo, hi):
    """least overlap of a triangle and a box over the separating directions (negative: apart)"""
    ax = [np.eye(3)[k] for k in range(3)]
    ed = [T[1] - T[0], T[2] - T[1], T[0] - T[2]]
    ax.append(np.cross(ed[0], ed[1]))
    ax += [np.cross(x, y) for x in np.eye(3) for y in ed]
    c = np.array(list(itertools.product(*zip(lo, hi))))
    best = math.inf
    for d in ax:
        l = np.linalg.norm(d)
        if l < 1e-6:
            continue
        p, q = T @ d / l, c @ d / l
        best = min(best, min(p.max(), q.max()) - max(p.min(), q.min()) if np.ptp(p) > 1e-9 else min(p.max() - q.min(), q.max() - p.min()))
    return best


def cu_gen(rng, i):
    while True:
        a = PR.poly_and_point(rng, i, dz=0.0)
        c = a["pt"] + np.array([rng.uniform(-1, 1) for _ in range(3)]) * rng.choice([0.2, 1.0, 2.0])
        h = np.array([rng.choice([0.1, 0.3, 1.0, 3.0]) for _ in range(3)])
        lo, hi = c - h, c + h
        pts, tri = PR.tri_of(a)
        d = max(sat(pts[t], lo, hi) for t in tri)
        if abs(d) > 0.02:
            return dict(pts=a["pts"], n=a["n"], lo=lo, hi=hi, want=bool(d > 0))


def cu_real(a):
    f, Pg = real(CUB), real("building3d.geom.polygon:Polygon")
    ps = Pg(a["pts"], vn=a["n"]), Pg(a["pts"][::-1].copy(), vn=-a["n"])
    return [f(p.pts, p.tri, tuple(a["lo"]), tuple(a["hi"])) for p in ps]


Contract("polygon_crossing_cube", None, ["P29"], inputs=cu_proof, bounded=[(f"{n} points, {c if isinstance(c, str) else f'all beside the cube along axis {c}'}{'' if isinstance(c, int) else ' in the cube'}", cu_inputs(n, c)) for n, c in ((3, 0), (4, 0), (3, "first"), (4, "last"))], setup=cu_setup, abstracts=[SEG], invoke=lambda S, I, a: I.call_fq(CUB, [a[k] for k in ("pts", "tri", "lo", "hi", "eps")]), post=cu_post,
         gen=cu_gen, ngen=40, real=cu_real, functions=[CUB, "building3d.geom.bboxes:cube_edges", "building3d.geom.bboxes:cube_polygons"], frame=False)


# ------------------------------------------------------------------ visibility
def lsi(S):
    def f(a1, b1, a2, b2, *rest):
        if S.case(meet(S, v3(a1), v3(b1), v3(a2), v3(b2))):
            return S.vec("meet")
        return npm.full((3,), float("nan"), "f")

    return f


def meet(S, p, q, s, t):
    """two segments meet: unknown, the same for all orders of the ends"""
    f = lambda *x: fn("meet", B, *x)
    return S.Or(*[f(*x, *y) for x in ((p, q), (q, p)) for y in ((s, t), (t, s))], *[f(*y, *x) for x in ((p, q), (q, p)) for y in ((s, t), (t, s))])


def same_pt(S, p, q):
    return S.Or(fn("peq", B, p, q), fn("peq", B, q, p))


def vs_setup(S, I):
    abstract(I, LSI, lsi(S))
    abstract(I, EQ, lambda p, q, atol: same_pt(S, v3(p), v3(q)))


def blocks(S, p, q, s, t):
    return S.And(S.Not(S.Or(*[same_pt(S, x, y) for x in (s, t) for y in (p, q)])), meet(S, p, q, s, t))


def vs_inputs(*ns):
    def f(S):
        n = [S.int(f"n{k}", lo=0) for k in range(-ns[0])] if ns[0] < 0 else ns
        a = dict(p=S.vec("p"), q=S.vec("q"), edges=tuple(S.arr(f"e{k}", (x, 2, 3)) for k, x in enumerate(n)))
        S.c.ghost["vis"] = a
        return a

    return f


def any_block(S, a, k, upto=None):
    e = a["edges"][k]
    n = S.shape(e)[0] if upto is None else upto
    pt = lambda i, w: tuple(S.el(e, i, w, c) for c in range(3))
    return S.exists(n, lambda i: blocks(S, v3(a["p"]), v3(a["q"]), pt(i, 0), pt(i, 1)))


def vs_inv(S, e, k, o):
    a = S.c.ghost["vis"]
    ks = [i for i, x in enumerate(a["edges"]) if x is e.bed]
    expect(len(ks) == 1)
    pt = lambda i, w: tuple(S.el(e.bed, i, w, c) for c in range(3))
    yield "no earlier edge blocks the view", S.forall(k, lambda i: S.Not(blocks(S, v3(a["p"]), v3(a["q"]), pt(i, 0), pt(i, 1))))


loops(f"{VI}:are_points_visible", 2, l1=dict(inv=vs_inv))


def vs_post(S, a, r, old):
    if not S.sym:
        yield from cl_post(S, a, r, old)
        return
    blocked = S.Or(*[any_block(S, old, k) for k in range(len(old["edges"]))])
    yield "visible exactly when no edge away from the points meets the line between them", S.Iff(S.eq(r, 1), S.Not(blocked))
    yield "0 or 1", S.Or(S.eq(r, 0), S.eq(r, 1))


def vm_inputs(n):
    def f(S):
        return dict(pts=S.points("pts", n), edges=S.arr("edges", (1, 2, 3)))

    return f


def vm_setup(S, I):
    abstract(I, "building3d.geom.points:are_points_coplanar", lambda *a: True)
    abstract(I, f"{VI}:are_points_visible", lambda p, q, *e: S.ite(sees(S, v3(p), v3(q)), 1, 0))


def sees(S, p, q):
    return S.Or(fn("sees", B, p, q), fn("sees", B, q, p))


def vm_post(S, a, r, old):
    if not S.sym:
        yield from cl_post(S, a, r, old)
        return
    n = len(old["pts"].a)
    yield "square", tuple(S.shape(r)) == (n, n)
    P = [row(S, old["pts"], i) for i in range(n)]
    for i in range(n):
        for j in range(n):
            yield "a point sees itself, two points see each other in both directions", S.eq(S.el(r, i, j), 1 if i == j else S.ite(sees(S, P[i], P[j]), 1, 0))


# ------------------------------------------------------------------ close pairs
def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def meet2(p, q, s, t):
    """segments in the plane with integer coordinates have one point in common (not parallel)"""
    if orient((0, 0), (q[0] - p[0], q[1] - p[1]), (t[0] - s[0], t[1] - s[1])) == 0:
        return False
    return orient(p, q, s) * orient(p, q, t) <= 0 and orient(s, t, p) * orient(s, t, q) <= 0


def vis2(p, q, edges):
    if p == q:
        return None
    return not any(meet2(p, q, s, t) for s, t in edges if not {s, t} & {p, q})


def cl_gen(rng, i):
    def poly(dx):
        while True:
            k = rng.randint(3, 5)
            c = [(rng.randint(-3, 3) + dx, rng.randint(-3, 3)) for _ in range(k)]
            m = (sum(x for x, _ in c) / k, sum(y for _, y in c) / k)
            c.sort(key=lambda p: math.atan2(p[1] - m[1], p[0] - m[0]))
            if len(set(c)) == k and all(orient(c[j - 1], c[j], c[(j + 1) % k]) > 0 for j in range(k)):
                return c

    while True:
        a, b = poly(0), poly(rng.choice([0, 3, 7]))
        if not set(a) & set(b):
            break
    u, v, n = G.frame(rng)
    o = G.gvec(rng)
    up = lambda c: np.array([o + x * u + y * v for x, y in c])
    return dict(a=a, b=b, A=up(a), B=up(b), n=rng.randint(1, 3), vis=rng.random() < 0.7)


def cl_real(a):
    f = real(f"{CP}:find_close_pairs")
    edges = real("building3d.geom.polygon.edges:polygon_edges")
    E = (edges(a["A"]), edges(a["B"]))
    out = dict(vm=real(f"{VI}:visibility_matrix")(np.vstack([a["A"], a["B"]]), *E))
    out["v"] = {(i, j): real(f"{VI}:are_points_visible")(p, q, *E) for i, p in enumerate(a["A"]) for j, q in enumerate(a["B"])}
    for k, vis in (("pairs", a["vis"]), ("all", False)):
        try:
            out[k] = f(a["A"], a["B"], a["n"], vis)
        except ValueError:
            out[k] = None
    try:
        f(a["A"], a["B"], min(len(a["A"]), len(a["B"])) + 1, False)
        out["many"] = False
    except ValueError:
        out["many"] = True
    return out


def cl_post(S, a, r, old):
    A, Bp = old["a"], old["b"]
    edges = [(p[k - 1], p[k]) for p in (A, Bp) for k in range(len(p))]
    P = A + Bp
    want = {(i, j): vis2(p, q, edges) for i, p in enumerate(P) for j, q in enumerate(P)}
    n = len(P)
    yield "visible exactly when no edge away from the points meets the line between them", all(bool(r["v"][i, j]) == want[i, len(A) + j] for i, j in r["v"])
    yield "matrix of all pairs, ones on the diagonal", r["vm"].shape == (n, n) and all(r["vm"][i, j] == (1 if i == j else want[i, j]) for i in range(n) for j in range(n))
    yield "more pairs than points are refused", r["many"]
    for k, vis in (("pairs", old["vis"]), ("all", False)):
        if r[k] is None:
            yield "pairs are found", vis
            continue
        yield "as many pairs as asked for", np.shape(r[k]) == (old["n"], 2, 3)
        free0, free1 = set(range(len(A))), set(range(len(Bp)))
        dist = lambda i, j: math.hypot(A[i][0] - Bp[j][0], A[i][1] - Bp[j][1])
        for x, y in r[k]:
            i = [t for t in range(len(A)) if np.allclose(old["A"][t], x)]
            j = [t for t in range(len(Bp)) if np.allclose(old["B"][t], y)]
            ok = len(i) == 1 and len(j) == 1 and i[0] in free0 and j[0] in free1
            yield "one point of each polygon, not used before", ok
            if not ok:
                return
            c = [dist(s, t) for s in free0 for t in free1 if not vis or want[s, len(A) + t]]
            yield "the closest pair of the points left", bool(c) and dist(i[0], j[0]) <= min(c) + 1e-9 and (not vis or want[i[0], len(A) + j[0]])
            free0 -= set(i)
            free1 -= set(j)


Contract("are_points_visible", None, ["P30"], inputs=vs_inputs(-2), bounded=[(f"edges {ns}", vs_inputs(*ns)) for ns in ((1,), (2,), (1, 1))], setup=vs_setup, abstracts=[LSI, EQ], invoke=lambda S, I, a: I.call_fq(f"{VI}:are_points_visible", [a["p"], a["q"], *a["edges"]]),
         post=vs_post, gen=cl_gen, ngen=10, real=cl_real, functions=[f"{VI}:are_points_visible"], frame=False)
Contract("visibility_matrix", None, ["P30"], bounded=[(f"{n} points", vm_inputs(n)) for n in (1, 2, 3)], setup=vm_setup, abstracts=[f"{VI}:are_points_visible"], invoke=lambda S, I, a: I.call_fq(f"{VI}:visibility_matrix", [a["pts"], a["edges"]]),
         post=vm_post, gen=cl_gen, ngen=5, real=cl_real, functions=[f"{VI}:visibility_matrix"], frame=False)


def fp_inputs(n, m, k, vis):
    def f(S):
        a = dict(A=S.points("A", n), B=S.points("B", m), n=k, vis=vis)
        S.c.ghost["cl"] = a
        return a

    return f


def fp_setup(S, I):
    g = S.c.ghost

    def sees_(p, q, *e):
        return S.ite(sees(S, v3(p), v3(q)), 1, 0)

    abstract(I, f"{VI}:are_points_visible", sees_)
    abstract(I, "building3d.geom.polygon.edges:polygon_edges", lambda pts: pts)
    I.ext_models["numpy.linalg.norm"] = lambda I, v: g["len"](v3(v))

    def length(v):
        # distances are not negative and grow with the sum of squares; only compared with each other
        d = fn("length", R, v)
        S.c.assume((d >= 0).t)
        return d

    g["len"] = length


def fp_post(S, a, r, old):
    if not S.sym:
        yield from cl_post(S, a, r, old)
        return
    A, Bp = ([row(S, old[k], i) for i in range(len(old[k].a))] for k in ("A", "B"))
    yield "shape", tuple(S.shape(r)) == (old["n"], 2, 3)
    free = [(i, j) for i in range(len(A)) for j in range(len(Bp))]
    d = {ij: fn("length", R, vsub(Bp[ij[1]], A[ij[0]])) for ij in free}
    ok = {ij: S.Or(not old["vis"], sees(S, A[ij[0]], Bp[ij[1]])) for ij in free}
    g = S.c.ghost
    got = [tuple(tuple(S.el(r, k, w, c) for c in range(3)) for w in range(2)) for k in range(old["n"])]
    is_ = lambda k, ij: S.And(*[S.eq(got[k][0][c], A[ij[0]][c]) for c in range(3)], *[S.eq(got[k][1][c], Bp[ij[1]][c]) for c in range(3)])

    def best(k, ij, left):
        return S.And(is_(k, ij), ok[ij], *[S.Implies(ok[o], d[ij] <= d[o]) for o in left if o != ij])

    def chain(k, left):
        if k == old["n"]:
            return True
        return S.Or(*[S.And(best(k, ij, left), chain(k + 1, [o for o in left if o[0] != ij[0] and o[1] != ij[1]])) for ij in left])

    yield "each pair is the closest visible one among the points left", chain(0, free)


def fp_raises(S, old, exc):
    if exc != "ValueError":
        return False
    if not S.sym:
        return False
    if old["n"] > min(len(old["A"].a), len(old["B"].a)):
        return True
    return old["vis"]


Contract("find_close_pairs", None, ["P30", "P24"], bounded=[(f"{n} and {m} points, {k} pairs{', visible only' if v else ''}", fp_inputs(n, m, k, v)) for n, m, k, v in ((2, 2, 1, False), (2, 2, 2, False), (2, 1, 1, True), (2, 2, 2, True), (2, 2, 3, False))], setup=fp_setup,
         invoke=lambda S, I, a: I.call_fq(f"{CP}:find_close_pairs", [a["A"], a["B"], a["n"], a["vis"]]), post=fp_post, raises=fp_raises, gen=cl_gen, ngen=60, real=cl_real, functions=[f"{CP}:find_close_pairs", f"{VI}:visibility_matrix", f"{VI}:are_points_visible"], frame=False)


# ------------------------------------------------------------------ neighbouring solids
def nb_inputs(sh1, sh2):
    def f(S):
        s, p = LO.sym_solid(S, sh1)
        t, q = LO.sym_solid(S, sh2)
        for x in p + q:
            x.f["vn"] = S.vec("vn")
        S.c.ghost["nb"] = dict(s=s, t=t, p=p, q=q)
        return S.c.ghost["nb"]

    return f


def nb_setup(S, I):
    g = S.c.ghost

    def who(pts, tri=None, vn=None):
        al = g["nb"]["p"] + g["nb"]["q"]
        k = LO.poly_no(al, pts, tri)
        expect(vn is None or al[k].f["vn"] is vn)
        return k

    pair = lambda nm, i, j: mkbool(z3.Bool(f"{nm}{min(i, j)}_{max(i, j)}"))
    abstract(I, RE.CRO, lambda p1, t1, p2, t2, *r: pair("crossing", who(p1, t1), who(p2, t2)))
    abstract(I, RE.FAC, lambda p1, n1, p2, n2, *r: pair("facing", who(p1, None, n1), who(p2, None, n2)))


def nb_invoke(S, I, a):
    f = lambda m, x, y: I.call_fq(f"{SLD}.{m}", [a[x], a[y]])
    return dict(adj=f("is_adjacent_to_solid", "s", "t"), adj2=f("is_adjacent_to_solid", "t", "s"), int=f("has_correct_interface", "s", "t"), int2=f("has_correct_interface", "t", "s"))


def nb_post(S, a, r, old):
    if not S.sym:
        for k, w in (("adj", old["adj"]), ("int", old["int"])):
            yield f"{'adjacent' if k == 'adj' else 'correct interface'}: as the boxes lie, in both orders", bool(r[k]) == w and bool(r[k + "2"]) == w
        return
    n, m = len(old["p"]), len(old["q"])
    al = lambda nm: S.Or(*[mkbool(z3.Bool(f"{nm}{i}_{n + j}")) for i in range(n) for j in range(m)])
    cr, fc = al("crossing"), al("facing")
    for k in ("", "2"):
        yield "adjacent exactly when polygons of the two face or cross each other", S.Iff(r["adj" + k], S.Or(cr, fc))
        yield "a correct interface needs polygons that face each other", S.Implies(r["int" + k], fc)
        yield "facing polygons without crossing ones are a correct interface", S.Implies(S.And(fc, S.Not(cr)), r["int" + k])


def nb_gen(rng, i):
    """two boxes side by side along one axis"""
    ax = rng.randrange(3)
    s1 = [float(rng.randint(2, 4)) for _ in range(3)]
    kind = ("equal", "partial", "apart", "edge", "gap")[rng.randrange(5)]
    s2 = list(s1)
    s2[ax] = float(rng.randint(1, 3))
    off = [0.0] * 3
    off[ax] = s1[ax] if rng.random() < 0.5 else -s2[ax]
    o = [c for c in range(3) if c != ax]
    if kind == "partial":
        for c in o:
            off[c] = rng.choice([-1.0, 1.0, 0.5])
    elif kind == "apart":
        off[o[0]] = s1[o[0]] + 1.0
    elif kind == "edge":
        off[o[0]] = rng.choice([s1[o[0]], -s2[o[0]]])
    elif kind == "gap":
        off[ax] += math.copysign(0.5, off[ax])
    org = [float(rng.randint(-5, 5)) for _ in range(3)]
    return dict(org=org, s1=s1, s2=s2, off=off, adj=kind in ("equal", "partial"), int=kind == "equal")


def nb_real(a):
    box = real("building3d.geom.solid.box:box")
    s = box(*a["s1"], tuple(a["org"]), name="s")
    t = box(*a["s2"], tuple(x + y for x, y in zip(a["org"], a["off"])), name="t")
    return dict(adj=s.is_adjacent_to_solid(t), adj2=t.is_adjacent_to_solid(s), int=s.has_correct_interface(t), int2=t.has_correct_interface(s))


Contract("neighbouring_solids", None, ["P26"], bounded=[(f"walls {x} and {y} (points of each polygon)", nb_inputs(x, y)) for x, y in (([[3]], [[3]]), ([[3], [4]], [[3]]), ([[3, 3]], [[3], [3]]))], setup=nb_setup, abstracts=[RE.CRO, RE.FAC], invoke=nb_invoke, post=nb_post,
         gen=nb_gen, ngen=12, real=nb_real, functions=[f"{SLD}.is_adjacent_to_solid", f"{SLD}.has_correct_interface"], frame=False)
