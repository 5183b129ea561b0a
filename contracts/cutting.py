"""The steps of slicing a polygon: which points, which parts, which names."""
import importlib
import itertools
import random

import numpy as np
import z3
from contracts import location as LO, predicates as PR, slicing as SC
from contracts.location import B, R, Z, fn, v3
from contracts.solids import polygon_model

from pyvc import gen as G, symobj as so
from pyvc.contract import Contract, abstract, expect, loops, row, vadd, vcross, vscale, vsub
from pyvc.values import CArr, PyList, SF, SInt, mkbool, rt

SL = SC.SL
LSP, LOC1 = f"{SL}.locate_slicing_points:locate_slicing_points", f"{SL}.locate_slicing_points:locate_point_on_polygon"
GPA, ADD, RED = f"{SL}.get_point_arrays:get_point_arrays", f"{SL}.add_intersection_points:add_intersection_points", f"{SL}.remove_redundant_points:remove_redundant_points"
EQ = "building3d.geom.points:points_equal"
EXT, INT, VTX, EDG, NOIX = 0, 1, 2, 3, -9999


def key(p):
    return tuple(z3.simplify(rt(x)).sexpr() for x in v3(p))


# ------------------------------------------------------------------ the points of both parts
def chain(S, pts, n, ends, m):
    """m slicing points: the ends at a vertex ("v", j) or inside an edge ("e", j, t), the rest inside the polygon"""
    rows, loc = [], []
    for x in (0, 1):
        e = ends[x]
        if e[0] == "v":
            rows.append(row(S, pts, e[1]))
            loc.append((VTX, e[1]))
        else:
            p, q = row(S, pts, e[1]), row(S, pts, (e[1] + 1) % n)
            rows.append(vadd(p, vscale(e[2], vsub(q, p))))
            loc.append((EDG, e[1]))
    mid = [tuple(S.real(f"s{i}{c}") for c in range(3)) for i in range(m - 2)]
    return CArr(np.array([rows[0]] + mid + [rows[1]], dtype=object), "f"), [loc[0]] + [(INT, NOIX)] * (m - 2) + [loc[1]]


def ga_inputs(n, m, k0, k1, order=False):
    def f(S):
        pts = S.points("pts", n)
        t = [S.real(f"t{x}", lo=0, hi=1) for x in (0, 1)]
        if k0 == k1 and k0[0] == "e":
            a, b = (t[1], t[0]) if order else (t[0], t[1])
            S.c.assume((a < b).t)
        sl, loc = chain(S, pts, n, [k + ((t[x],) if k[0] == "e" else ()) for x, k in enumerate((k0, k1))], m)
        S.c.ghost["cut"] = dict(loc=loc, sl=sl, pts=pts)
        return dict(pts=pts, tri=S.arr("tri", (n - 2, 3), "i"), sl=sl)

    return f


def ga_setup(S, I):
    def loc(sl, pts, tri, edges):
        d = S.c.ghost["cut"]
        expect([key(r) for r in sl.a] == [key(r) for r in d["sl"].a])
        return PyList([tuple(x) for x in d["loc"]])

    def same(p, q, atol):
        d = S.c.ghost["cut"]
        known = {key(r) for r in list(d["sl"].a) + list(d["pts"].a)}
        expect(key(v3(p)) in known and key(v3(q)) in known)
        return key(v3(p)) == key(v3(q))

    abstract(I, LSP, loc)
    abstract(I, EQ, same)


def vec_area2(rows):
    s = (0.0, 0.0, 0.0)
    for i in range(1, len(rows) - 1):
        s = vadd(s, vcross(vsub(rows[i], rows[0]), vsub(rows[i + 1], rows[0])))
    return s


def number(t, rng, env):
    """value of a polynomial at a random point"""
    t = rt(t)
    todo, vs = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs.add(x)
        todo += x.children()
    for x in vs:
        if x not in env:
            env[x] = z3.RealVal(rng.randrange(-99, 100))
    return z3.simplify(z3.substitute(t, *[(x, env[x]) for x in vs]))


def ga_post(S, a, r, old):
    if not S.sym:
        A = G.vec_area(old["pts"])
        x, y = (G.vec_area(q) for q in r)
        n = old["n"]
        ax, ay, aa = abs(np.dot(x, n)), abs(np.dot(y, n)), abs(np.dot(A, n))
        yield "the areas of both parts add up", abs(ax + ay - aa) < 1e-7 * aa and min(ax, ay) > 1e-6 * aa
        for i, q in enumerate(r):
            yield f"part {i}: has every slicing point", all(SC.near_any(p, q) for p in old["sl"])
        return
    rows = [[tuple(q.a[i]) for i in range(q.a.shape[0])] for q in r]
    A = vec_area2([row(S, old["pts"], i) for i in range(S.shape(old["pts"])[0])])
    X, Y = vec_area2(rows[0]), vec_area2(rows[1])
    rng, env = random.Random(1), {}
    vals = [number(v[0], rng, env) for v in (A, X, Y)]
    sx, sy = next(((p, q) for p in (1, -1) for q in (1, -1) if z3.is_true(z3.simplify(vals[0] == p * vals[1] + q * vals[2]))), (1, 1))
    for c in range(3):
        yield f"the areas of both parts add up ({'xyz'[c]})", S.eq(A[c], sx * X[c] + sy * Y[c])
    for i, q in enumerate(rows):
        for k in range(S.shape(old["sl"])[0]):
            yield f"part {i}: has slicing point {k}", S.Or(*[S.And(*[S.eq(p[c], S.el(old["sl"], k, c)) for c in range(3)]) for p in q])


def ga_real(a):
    pts = a["pts"]
    tri = importlib.import_module("building3d.geom.triangles").triangulate(pts, a["n"])[1]
    return importlib.import_module(f"{SL}.get_point_arrays").get_point_arrays(pts, tri, a["sl"])


def ga_cases():
    for n, m in ((3, 3), (4, 2), (4, 3), (5, 4)):
        some = (lambda xs: xs) if n < 5 else (lambda xs: xs[::5])
        V, E = [("v", j) for j in range(n)], [("e", j) for j in range(n)]
        yield from some([(n, m, a, b) for a, b in itertools.permutations(E, 2)])
        if m > 2:
            yield from some([(n, m, a, a, o) for a in E for o in (False, True)])
        apart = lambda i, j: m > 2 or (i - j) % n not in (1, n - 1)
        yield from some([(n, m) + x for v, e in itertools.product(V, E) if m > 2 or v[1] not in (e[1], (e[1] + 1) % n) for x in ((v, e), (e, v))])
        yield from some([(n, m, a, b) for a, b in itertools.permutations(V, 2) if apart(a[1], b[1])])


def ga_label(c):
    w = lambda k: ("vertex " if k[0] == "v" else "edge ") + str(k[1])
    return f"{c[0]} points, {c[1]} slicing points from {w(c[2])} to {w(c[3])}" + (", against the edge" if len(c) > 4 and c[4] else "")


Contract("get_point_arrays", None, ["P23"], bounded=[(ga_label(c), ga_inputs(*c)) for c in ga_cases()], setup=ga_setup, abstracts=[LSP, EQ], invoke=lambda S, I, a: I.call_fq(GPA, [a["pts"], a["tri"], a["sl"]]),
         post=ga_post, gen=SC.cut_gen(["vv", "ve", "ee", "same"]), ngen=60, real=ga_real, functions=[GPA], bounded_wall=20)


# ------------------------------------------------------------------ where the slicing points are
def touches(S, p, edges, i):
    return fn("to_edge", R, v3(p), row3(S, edges, i, 0), row3(S, edges, i, 1))


def row3(S, a, i, j):
    return tuple(S.el(a, i, j, c) for c in range(3))


def same_pt(S, p, pts, i):
    return fn("same_point", B, v3(p), row(S, pts, i))


def lp_setup(S, I):
    d = S.c.ghost

    def inside(p, pts, tri, bnd, atol):
        expect(pts is d["lp"]["pts"] and bnd is True)
        return fn("inside", B, v3(p))

    abstract(I, f"{PR.IP}:is_point_inside", inside)
    abstract(I, EQ, lambda p, q, atol: fn("same_point", B, v3(p), v3(q)))
    abstract(I, LO.EDG, lambda p, a, b: fn("to_edge", R, v3(p), v3(a), v3(b)))


def lp_inputs(n=None, k=None):
    def f(S):
        N = S.int("n", lo=3) if n is None else n
        a = dict(pts=S.points("pts", N), tri=S.arr("tri", (S.int("m", lo=1) if n is None else n - 2, 3), "i"), edges=S.arr("edges", (N, 2, 3)))
        a["sl"] = S.points("sl", (S.int("k", lo=0) if n is None else k))
        a["p"] = S.vec("p")
        S.c.assume(S.forall(N, lambda i: S.le(0.0, touches(S, a["p"], a["edges"], i))).t)
        S.c.ghost["lp"] = a
        return a

    return f


def at_place(S, a, p, kind, ix):
    """the place is right for the point: what it says is true, and nothing closer is true"""
    n = S.shape(a["pts"])[0]
    ins = fn("inside", B, v3(p))
    vertex = S.exists(n, lambda i: same_pt(S, p, a["pts"], i))
    zero = S.exists(n, lambda i: S.eq(touches(S, p, a["edges"], i), 0.0))
    return [("outside exactly when not inside or on the border", S.Iff(S.eq(kind, EXT), S.Not(ins))),
            ("at a vertex exactly when equal to one", S.Iff(S.eq(kind, VTX), S.And(ins, vertex))),
            ("equal to the vertex of the number", S.Implies(S.eq(kind, VTX), S.exists(n, lambda i: S.And(S.eq(i, ix), same_pt(S, p, a["pts"], i))))),
            ("on an edge when there is no distance to it", S.Implies(S.And(ins, S.Not(vertex), zero), S.eq(kind, EDG))),
            ("close to the edge of the number", S.Implies(S.eq(kind, EDG), S.And(ins, S.Not(vertex), S.exists(n, lambda i: S.And(S.eq(i, ix), touches(S, p, a["edges"], i) < 1e-3))))),
            ("otherwise inside", S.Or(*[S.eq(kind, x) for x in (EXT, INT, VTX, EDG)]))]


def lp_inv0(S, e, k, o):
    yield "not an earlier vertex", S.forall(k, lambda i: S.Not(same_pt(S, e.ptest, e.pts, i)))


def lp_inv1(S, e, k, o):
    yield "not near an earlier edge", S.forall(k, lambda i: S.Not(S.eq(touches(S, e.ptest, e.edges, i), 0.0)))


loops(LOC1, 2, l0=dict(inv=lp_inv0), l1=dict(inv=lp_inv1))


def lp_post(S, a, r, old):
    if S.sym:
        yield from at_place(S, old, old["p"], r[0], r[1])
        return
    p2, fr = old["p2"], old["frame"]
    n = len(p2)
    for q, (kind, ix) in zip(old["where"], r):
        c, d = PR.in2d(p2, q[1])
        if q[0] == "v":
            yield "a vertex is at a vertex", (kind, ix) == (VTX, q[2])
        elif q[0] == "e":
            yield "a point of an edge is on the edge", (kind, ix) == (EDG, q[2])
        elif d > 1e-3:
            yield "other points are inside or outside", kind == (INT if c > 0 else EXT)


def lp_gen(rng, i):
    p2 = G.shape2d(rng)
    n = len(p2)
    w = []
    for _ in range(8):
        k = rng.choice("veff")
        j = rng.randrange(n)
        w.append(("v", p2[j], j) if k == "v" else ("e", SC.on_edge(rng, p2, j), j) if k == "e" else ("f", (rng.uniform(-2, 3), rng.uniform(-2, 3)), 0))
    u, v, nn = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg"]))
    o, s = G.gvec(rng), rng.choice([1.0, 0.5, 2.0])
    em = lambda q: o + s * (q[0] * u + q[1] * v)
    return dict(pts=np.array([em(q) for q in p2]), n=nn, sl=np.array([em(q[1]) for q in w]), p2=p2, where=w, frame=(o, s, u, v))


def lp_real(a):
    tri = importlib.import_module("building3d.geom.triangles").triangulate(a["pts"], a["n"])[1]
    ed = importlib.import_module("building3d.geom.polygon.edges").polygon_edges(a["pts"])
    return importlib.import_module(LSP.split(":")[0]).locate_slicing_points(a["sl"], a["pts"], tri, ed)


Contract("locate_point_on_polygon", None, ["P23"], inputs=lp_inputs(), bounded=[(f"{n} points", lp_inputs(n, 1)) for n in (3, 4)], setup=lp_setup, abstracts=[f"{PR.IP}:is_point_inside", EQ, LO.EDG],
         invoke=lambda S, I, a: I.call_fq(LOC1, [a["p"], a["pts"], a["tri"], a["edges"]]), post=lp_post, gen=lp_gen, ngen=40, real=lp_real, functions=[LOC1])


def ls_setup(S, I):
    def loc(p, pts, tri, edges):
        d = S.c.ghost["lp"]
        expect(pts is d["pts"] and edges is d["edges"])
        return (SInt(z3.Function("kind", R, R, R, Z)(*[rt(x) for x in v3(p)])), SInt(z3.Function("number", R, R, R, Z)(*[rt(x) for x in v3(p)])))

    abstract(I, LOC1, loc)


def ls_post(S, a, r, old):
    if not S.sym:
        yield from lp_post(S, a, r, old)
        return
    k = S.shape(old["sl"])[0]
    yield "one place for each point", len(r.items) == k
    for i in range(min(k, len(r.items))):
        p = [rt(x) for x in row(S, old["sl"], i)]
        yield f"place of point {i}", S.And(S.eq(r.items[i][0], SInt(z3.Function("kind", R, R, R, Z)(*p))), S.eq(r.items[i][1], SInt(z3.Function("number", R, R, R, Z)(*p))))


Contract("locate_slicing_points", None, ["P23"], bounded=[(f"4 points, {k} slicing points", lp_inputs(4, k)) for k in range(4)], setup=ls_setup, abstracts=[LOC1], invoke=lambda S, I, a: I.call_fq(LSP, [a["sl"], a["pts"], a["tri"], a["edges"]]),
         raises=lambda S, old, e: e == "GeometryError" and len(old["sl"]) == 0 if not S.sym else e == "GeometryError" and S.shape(old["sl"])[0] == 0, post=ls_post, gen=lp_gen, ngen=20, real=lp_real, functions=[LSP])


# ------------------------------------------------------------------ names of the parts
MKP = f"{SL}:make_polygons"


def part_model(I, cls, args, kwargs):
    """summary of the Polygon constructor: the ring of points (whose first vertex may change) and the normal given"""
    o = polygon_model(I, cls, args, kwargs)
    o.f["tri"] = I_tri(o.f["pts"])
    return o


def I_tri(pts):
    return CArr(np.array([[0, k, k + 1] for k in range(1, pts.shape[0] - 1)], dtype=object), "i")


def in_part(S, i, p):
    return fn(f"in_part{i}", B, v3(p))


def mp_setup(S, I):
    I.class_models["Polygon"] = part_model

    def inside(p, pts, tri, bnd, atol):
        d = S.c.ghost["mp"]
        k = [key(r) for r in pts.a]
        for i in (1, 2):
            if k == [key(r) for r in d[f"pts{i}"].a]:
                return in_part(S, i, p)
        expect(False)

    abstract(I, f"{PR.IP}:is_point_inside", inside)

    def rid(size):
        s = S.c.fresh_str("random")
        for o in [x for x in (S.c.ghost["mp"][k] for k in ("name1", "name2")) if x is not None] + S.c.ghost.setdefault("ids", []):
            S.c.assume(S.Not(S.eq(s, o)).t)
        S.c.ghost["ids"].append(s)
        return s

    abstract(I, "building3d.random:random_id", rid)


def mp_inputs(p1, p2, n1, n2):
    def f(S):
        a = dict(vn=S.vec("vn"), pts1=S.points("a", 3), pts2=S.points("b", 4), pt1=S.vec("p") if p1 else None, name1=S.str("n1") if n1 else None, pt2=S.vec("q") if p2 else None, name2=S.str("n2") if n2 else None)
        if n1 and n2:
            S.c.assume(S.Not(S.eq(a["name1"], a["name2"])).t)
        S.c.ghost["mp"] = a
        return a

    return f


def placed(S, old, x, y):
    """each given point is in the right part only: the first in x, the second in y"""
    c = []
    for k, (i, j) in (("pt1", (x, y)), ("pt2", (y, x))):
        if old[k] is not None:
            c.append(S.And(in_part(S, i, old[k]), S.Not(in_part(S, j, old[k]))))
    return S.And(*c)


def mp_raises(S, old, e):
    return S.sym and e in ("GeometryError", "RuntimeError") and (old["pt1"] is not None or old["pt2"] is not None) and S.Not(S.Or(placed(S, old, 1, 2), placed(S, old, 2, 1)))


def mp_post(S, a, r, old):
    if not S.sym:
        yield "the part around the first point gets the first name, the other the second name", r["skip"] or all(o == [("one", True, False), ("two", False, True)] for o in r["out"].values())
        return
    x, y = r
    which = [1 if [key(q) for q in p.f["pts"].a] == [key(q) for q in old["pts1"].a] else 2 if [key(q) for q in p.f["pts"].a] == [key(q) for q in old["pts2"].a] else 0 for p in (x, y)]
    yield "both parts are returned", sorted(which) == [1, 2]
    for k, p in (("name1", x), ("name2", y)):
        if old[k] is not None:
            yield f"{k} is given to its part", S.eq(p.f["name"], old[k])
    yield "the names differ", S.Not(S.eq(x.f["name"], y.f["name"]))
    for p in r:
        yield "normal", S.And(*[S.eq(p.f["vn"].a[c], S.el(old["vn"], c)) for c in range(3)])
    if old["pt1"] is not None or old["pt2"] is not None:
        if sorted(which) == [1, 2]:
            yield "the first part is the one around the first point", S.Not(placed(S, old, *which[::-1]))


MPC = [c for c in itertools.product((0, 1), repeat=4)]
Contract("make_polygons", None, ["P23"], bounded=[("given: " + (", ".join(k for k, g in zip(("pt1", "pt2", "name1", "name2"), c) if g) or "no points, no names"), mp_inputs(*c)) for c in MPC], setup=mp_setup,
         invoke=lambda S, I, a: I.call_fq(MKP, [a[k] for k in ("vn", "pts1", "pts2", "pt1", "name1", "pt2", "name2")]), raises=mp_raises, post=mp_post, gen=SC.names_gen, ngen=20, real=SC.names_real, functions=[MKP, "building3d.geom.polygon:Polygon.is_point_inside"], frame=False)


# ------------------------------------------------------------------ points where the lines cross
LSI = "building3d.geom.points.intersections:line_segment_intersection"


def ai_inputs(n1, n2, crossings, ends=()):
    """edges crossing in one point strictly inside both (crossings) or meeting in an end point of one of them (ends: pair -> which)"""
    def f(S):
        a = dict(pts1=S.points("a", n1), pts2=S.points("b", n2))
        S.c.ghost["ai"] = dict(a, at={c: S.vec("x") for c in crossings}, ends=dict(ends))
        return a

    return f


def ai_setup(S, I):
    def edge_of(p, q, pts, n):
        for i in range(n):
            if key(p) == key(pts.a[i]) and key(q) == key(pts.a[(i + 1) % n]):
                return i
        expect(False)

    def meet(pa1, pb1, pa2, pb2):
        d = S.c.ghost["ai"]
        n1, n2 = (S.shape(d[k])[0] for k in ("pts1", "pts2"))
        c = (edge_of(pa1, pb1, d["pts1"], n1), edge_of(pa2, pb2, d["pts2"], n2))
        if c in d["at"]:
            return d["at"][c]
        if c in d["ends"]:
            return CArr((pa1, pb1, pa2, pb2)[d["ends"][c]].a.copy(), "f")
        return CArr(np.array([SF(z3.RealVal(0), nan=True)] * 3, dtype=object), "f")

    def same(p, q, atol):
        d = S.c.ghost["ai"]
        known = {key(r) for r in list(d["pts1"].a) + list(d["pts2"].a) + [x.a for x in d["at"].values()]}
        expect(key(p) in known and key(q) in known)
        return key(p) == key(q)

    abstract(I, LSI, meet)
    abstract(I, EQ, same)


def ai_post(S, a, r, old):
    if not S.sym:
        yield from ai_real_post(old, r)
        return
    at = S.c.ghost["ai"]["at"]
    for k, nm in ((0, "pts1"), (1, "pts2")):
        n = S.shape(old[nm])[0]
        got = [key(q) for q in r[k].a]
        j = 0
        for i in range(n):
            want = sorted(key(x.a) for c, x in at.items() if c[k] == i)
            yield f"{nm}: point {i} kept in place", got[j:j + 1] == [key(old[nm].a[i])]
            yield f"{nm}: crossings of edge {i} follow it", sorted(got[j + 1:j + 1 + len(want)]) == want
            j += 1 + len(want)
        yield f"{nm}: nothing else", len(got) == j


def ai_real_post(old, r):
    for k, (nm, other) in enumerate((("p2", "q2"), ("q2", "p2"))):
        want = []
        got = SC.to2d(r[k], old["frame"])
        n = len(old[nm])
        ok, j = True, 0
        for i in range(n):
            hits = SC.cross2(old[other], old[nm][i], old[nm][(i + 1) % n])
            ok = ok and j < len(got) and SC.math.dist(got[j], old[nm][i]) < 1e-6
            seg = got[j + 1:j + 1 + len(hits)]
            ok = ok and len(seg) == len(hits) and all(any(SC.math.dist(h, g) < 1e-6 for g in seg) for h in hits)
            j += 1 + len(hits)
        yield f"points {k}: the given ones in order, the crossings of each edge behind its first point", ok and len(got) == j


def ai_gen(rng, i):
    for _ in range(500):
        p2, q2 = G.shape2d(rng), [(rng.uniform(-2, 3), rng.uniform(-2, 3)) for _ in range(rng.choice([2, 3, 4]))]
        if any(SC.cross2(x, y[k], y[(k + 1) % len(y)]) is None for x, y in ((p2, q2), (q2, p2)) for k in range(len(y))):
            continue
        u, v, nn = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg"]))
        o, s = G.gvec(rng), rng.choice([1.0, 2.0])
        em = lambda q: o + s * (q[0] * u + q[1] * v)
        return dict(pts1=np.array([em(q) for q in p2]), pts2=np.array([em(q) for q in q2]), p2=p2, q2=q2, frame=(o, s, u, v))
    raise StopIteration


def ai_real(a):
    return importlib.import_module(ADD.split(":")[0]).add_intersection_points(a["pts1"], a["pts2"])


def ai_cases():
    for n1, n2 in ((3, 2), (3, 3)):
        pairs = list(itertools.product(range(n1), range(n2)))
        for k in (0, 1, 2):
            for c in itertools.combinations(pairs, k):
                yield f"{n1} and {n2} points, crossing edges {list(c)}", ai_inputs(n1, n2, c)
        for w in range(4):
            yield f"{n1} and {n2} points, edges (0, 1) meeting in an end point ({w}), crossing edges (2, 0)", ai_inputs(n1, n2, [(2, 0)], [((0, 1), w)])
    yield "4 and 3 points, crossing edges (0, 1), (1, 1), (2, 0), (0, 2)", ai_inputs(4, 3, [(0, 1), (1, 1), (2, 0), (0, 2)])


Contract("add_intersection_points", None, ["P23"], bounded=list(ai_cases()), setup=ai_setup, abstracts=[LSI, EQ], invoke=lambda S, I, a: I.call_fq(ADD, [a["pts1"], a["pts2"]]), post=ai_post, gen=ai_gen, ngen=60, real=ai_real, functions=[ADD])


# ------------------------------------------------------------------ slicing points that matter
INA = "building3d.geom.points:is_point_in_array"


def rr_inputs(n, places, turn):
    """slicing points at the given places (v j, e j, i inside, x outside), starting from number `turn`"""
    def f(S):
        pts = S.points("pts", n)
        rows, loc = [], []
        for k, w in enumerate(places):
            if w[0] == "v":
                rows.append(row(S, pts, w[1]))
                loc.append((VTX, w[1]))
            else:
                rows.append(tuple(S.real(f"s{k}{c}") for c in range(3)))
                loc.append({"e": (EDG, w[-1 - ("drop" in w)]), "i": (INT, NOIX), "x": (EXT, NOIX)}[w[0]])
        order = [(k + turn) % len(places) for k in range(len(places))]
        S.c.ghost["rr"] = dict(pts=pts, loc=dict(zip(map(key, rows), loc)), want=[key(r) for r, w in zip(rows, places) if w[0] != "x" and "drop" not in w] if len({w[0] for w in places}) > 1 or places[0][0] != "x" else [])
        return dict(pts=pts, tri=S.arr("tri", (n - 2, 3), "i"), sl=CArr(np.array([rows[k] for k in order], dtype=object), "f"))

    return f


def rr_setup(S, I):
    def loc(sl, pts, tri, edges):
        d = S.c.ghost["rr"]
        expect(all(key(r) in d["loc"] for r in sl.a))
        return PyList([d["loc"][key(r)] for r in sl.a])

    def among(p, arr, atol=None):
        d = S.c.ghost["rr"]
        known = set(d["loc"]) | {key(r) for r in d["pts"].a}
        expect(key(p) in known and all(key(r) in known for r in arr.a))
        return key(p) in [key(r) for r in arr.a]

    abstract(I, LSP, loc)
    abstract(I, INA, lambda *a: among(*a))


def rr_post(S, a, r, old):
    if not S.sym:
        got, want = SC.to2d(r, old["frame"]), SC.to2d(old["sl"], old["frame"])
        ok = len(got) == len(want) and any(all(SC.math.dist(g, w) < 1e-6 for g, w in zip(got, d)) for d in (want, want[::-1]))
        yield "the points of the line inside the polygon remain, in order", ok
        return
    got, want = [key(q) for q in r.a], S.c.ghost["rr"]["want"]
    yield "the points of the line inside the polygon remain, in order", got in (want, want[::-1])


def rr_real(a):
    tri = importlib.import_module("building3d.geom.triangles").triangulate(a["pts"], a["n"])[1]
    _, sl = importlib.import_module(ADD.split(":")[0]).add_intersection_points(a["pts"], a["given"])
    return importlib.import_module(RED.split(":")[0]).remove_redundant_points(sl, a["pts"], tri)


def rr_cases():
    x, i = ("x",), ("i",)
    for n in (4, 5):
        V, E = [("v", j) for j in range(n)], [("e", j) for j in range(n)]
        on = lambda w: {w[1]} if w[0] == "e" else {w[1], (w[1] - 1) % n}
        for p, q in itertools.permutations(V + E, 2):
            if n == 5 and (p[1] + 2 * q[1]) % 3:
                continue
            cuts = not on(p) & on(q)
            lines = [(0, [p, i, q]), (0, [p, i, i, q]), (0, [x, p, i, q, x])]
            lines += [(2, [p, i, q, x]), (1, [p, i, q])]
            if cuts:
                lines += [(0, [p, q]), (0, [x, p, q]), (0, [x, p, q, x])]
            for w in V + E:  # along the border first
                if w not in (p, q) and on(w) & on(p) and (p[1] + w[1]) % 2 == 0:
                    lines += [(0, [w + ("drop",), p, i, q]), (0, [w + ("drop",), p, i, i, q]), (0, [p, i, q, x, w + ("drop",)]), (0, [x, w + ("drop",), p, i, q])]
            for t, l in lines:
                yield n, l, t
    for j in range(4):  # a polygon over one part of a quadrangle
        for t in range(4):
            yield 4, [("v", j, "drop"), ("e", j), ("e", (j + 2) % 4), ("v", (j + 3) % 4, "drop")], t
    yield 4, [x, x], 0
    yield 4, [x, x, x], 0


def rr_label(c):
    w = lambda p: {"v": "vertex ", "e": "edge ", "i": "inside", "x": "outside"}[p[0]] + (str(p[1]) if len(p) > 1 else "")
    return f"{c[0]} points, slicing points: " + ", ".join(w(c[1][(k + c[2]) % len(c[1])]) for k in range(len(c[1])))


Contract("remove_redundant_points", None, ["P23"], bounded=[(rr_label(c), rr_inputs(*c)) for c in rr_cases()], setup=rr_setup, abstracts=[LSP], invoke=lambda S, I, a: I.call_fq(RED, [a["sl"], a["pts"], a["tri"]]),
         post=rr_post, gen=SC.through_gen, ngen=40, real=rr_real, functions=[RED], frame=False)
