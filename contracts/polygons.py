"""Bounded proofs about the Polygon class: what is stored belongs together, for any coordinates."""
import numpy as np
from contracts.formats import TRIS
from contracts.lines import COL, COPL, NRM  # noqa: F401
from contracts.location import R, fn, v3
from contracts.predicates import po_gen, po_post, po_real
from contracts.solids import skey

from pyvc import symobj as so
from pyvc.contract import Contract, abstract, expect
from pyvc.values import CArr

POLY = "building3d.geom.polygon"


def rows(x):
    return [tuple(x.elem((i, k)) for k in range(3)) for i in range(x.shape[0])]


def turned(ps):
    """the same corners from a canonical first one"""
    i = min(range(len(ps)), key=lambda j: skey(ps[j]))
    return ps[i:] + ps[:i]


def corner_normal(ps):
    q = turned(list(ps))
    return CArr(np.array([fn(f"normal_{k}", R, *q) for k in range(3)], dtype=object), "f")


def tri_points(pts, tri):
    """the triangles as points, in no particular order"""
    n = len(pts)
    idx = [[tri.elem((i, k)) for k in range(3)] for i in range(tri.shape[0])]
    expect(all(type(v) is int for t in idx for v in t), "symbolic triangle")
    if not all(0 <= v < n for t in idx for v in t):
        return None
    return sorted((turned([pts[v] for v in t]) for t in idx), key=lambda t: [skey(p) for p in t])


def po_setup(S, I):
    def triangulate(pts, vn, *a):
        g = S.c.ghost["po"]
        p = rows(pts)
        expect(len(p) == g["n"] and [skey(x) for x in turned(p)] in ([skey(x) for x in turned(q)] for q in (g["pts"], g["pts"][::-1])))
        k = g["shift"]
        q = p[-k:] + p[:-k] if k else p
        t = CArr(np.array(TRIS[g["n"]], dtype=object), "i")
        g["made"].append((q, tri_points(q, t)))
        return CArr(np.array(q, dtype=object), "f"), t

    def centroid(pts, tri):
        t = tri_points(rows(pts), tri)
        expect(t is not None)
        return CArr(np.array([fn(f"centroid_{len(t)}_{k}", R, *[p for x in t for p in x]) for k in range(3)], dtype=object), "f")

    abstract(I, COPL, lambda *a: True)
    abstract(I, NRM, lambda p, q, r: corner_normal([v3(p), v3(q), v3(r)]))
    abstract(I, "building3d.geom.triangles:triangulate", triangulate)
    abstract(I, f"{POLY}.centroid:polygon_centroid", centroid)
    abstract(I, f"{POLY}.area:polygon_area", lambda pts, vn: fn("area", R, *turned(rows(pts)), v3(vn)))


def po_inputs(n, shift, given, flip):
    def f(S):
        pts = S.points("pts", n)
        vn = S.vec("vn") if given else None
        S.c.ghost["po"] = dict(n=n, shift=shift, pts=rows(pts), made=[], flip=flip)
        return dict(pts=pts, vn=vn)

    return f


def po_invoke(S, I, a):
    p = I.instantiate(so.cls(I, f"{POLY}:Polygon"), [a["pts"]], dict(name="a", vn=a["vn"]))
    if S.c.ghost["po"]["flip"]:
        S.c.ghost["po"]["first"] = p, rows(p.f["pts"]), p.f["vn"]
        return I.call(I.getattr(p, "flip"), ["b"], {})
    return p


def po_sym(S, a, r, old):
    if not S.sym:
        yield from po_post(S, a, r, old)
        return
    g = S.c.ghost["po"]
    given = rows(old["pts"])
    ps, vn = rows(r.f["pts"]), v3(r.f["vn"])
    same = lambda x, y: [skey(p) for p in turned(list(x))] == [skey(p) for p in turned(list(y))]
    corners = [corner_normal([given[i - 1], given[i], given[(i + 1) % g["n"]]]) for i in range(g["n"])]
    want = v3(old["vn"]) if old["vn"] is not None else v3(corners[0])
    if g["flip"]:
        p, before, bvn = g["first"]
        yield "flipping leaves the polygon alone", same(rows(p.f["pts"]), before) and rows(p.f["pts"])[0] == before[0] and p.f["vn"] is bvn
        given = given[::-1]
        want = tuple(-x for x in want)
        corners = [corner_normal([given[i - 1], given[i], given[(i + 1) % g["n"]]]) for i in range(g["n"])]
    yield "the outline is the given one", same(ps, given)
    yield "the normal", S.And(*[S.eq(vn[k], want[k]) for k in range(3)])
    made = g["made"][-1][1]
    tri = tri_points(ps, r.f["tri"])
    key = lambda t: [[skey(p) for p in x] for x in t]
    yield "the triangles are those of the triangulation, in the points as stored", tri is not None and key(tri) == key(made)
    yield "centroid of the triangles", S.And(*[S.eq(S.el(r.f["ctr"], k), fn(f"centroid_{len(made)}_{k}", R, *[p for x in made for p in x])) for k in range(3)])
    yield "area of the outline", S.eq(r.f["area"], fn("area", R, *turned(ps), vn))
    close = lambda c: S.And(*[S.le(S.abs(S.el(c, k) - vn[k]), 1e-8 + 1e-5 * S.abs(vn[k])) for k in range(3)])
    first = corner_normal([ps[-1], ps[0], ps[1]])
    yield "the first corner shows the normal if some corner does", S.Implies(S.Or(*[close(c) for c in corners]), close(first))
    co = r.f["plane_coefficients"]
    yield "plane of the first corner", S.And(*[S.eq(co[k], S.el(first, k)) for k in range(3)])
    yield "plane through the first corner", S.eq(co[3] + sum(co[k] * ps[0][k] for k in range(3)), 0.0)


Contract("polygon_object_symbolic", None, ["P08"],
         bounded=[(f"{n} corners, the triangulation turns the points by {s}, normal {'given' if v else 'of the first corner'}{', flipped' if f else ''}", po_inputs(n, s, v, f))
                  for n, s, v, f in ((3, 0, False, False), (3, 1, True, False), (4, 0, True, False), (4, 2, True, False), (4, 1, False, True), (3, 2, True, True), (5, 3, True, False))],
         setup=po_setup, invoke=po_invoke, post=po_sym, gen=po_gen, ngen=10, real=po_real, frame=False, timeout=10, bounded_wall=60,
         abstracts=[NRM, "building3d.geom.triangles:triangulate"], functions=[f"{POLY}:Polygon.__init__", f"{POLY}:Polygon.flip", f"{POLY}.plane:plane_coefficients", "building3d.geom.points:roll_forward"],
         note="triangulate, normal, polygon_centroid and polygon_area as unknown functions of the points; are_points_coplanar holds")
