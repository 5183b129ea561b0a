"""Proofs about point location: polygons, solids, buildings."""
import z3
from contracts import graphs as GR, hierarchy as H, predicates as PR

from pyvc import symobj as so
from pyvc.contract import Contract, Instance, abstract, expect, loops, row, vadd, vdot, vscale, vsub
from pyvc.values import LArr, PyDict, SF, SInt, it, mkbool, rt

Z, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
IP, PE, PD = PR.IP, PR.PE, PR.PD
PT = "building3d.geom.points"
SEG, COP, EDG = f"{PT}:is_point_on_segment", f"{PT}:are_points_coplanar", f"{PT}.distance:distance_point_to_edge"
TRI, BBX = "building3d.geom.triangles:is_point_inside", "building3d.geom.bboxes:is_point_inside_bbox"
NRM = "building3d.geom.vectors:normal"
EDGES = f"{PE}:polygon_edges"


def v3(a):
    return (a[0], a[1], a[2])


def fn(nm, sort, *vs):
    """uninterpreted function of points and numbers"""
    ts = [rt(x) for v in vs for x in (v if isinstance(v, tuple) else (v,))]
    f = z3.Function(nm, *([R] * len(ts)), sort)
    return mkbool(f(*ts)) if sort == B else SF(f(*ts))


def edge(S, pts, i):
    n = S.shape(pts)[0]
    return row(S, pts, i), row(S, pts, S.ite(S.eq(i, n - 1), 0, i + 1))


def poly_inputs(S, n=None, m=None):
    """any polygon with any triangles (n points, m triangles when given)"""
    n, m = S.int("n", lo=3) if n is None else n, S.int("m", lo=1) if m is None else m
    tri = S.arr("tri", (m, 3), "i")
    ok = S.forall(m, lambda i: S.And(*[S.And(S.le(0, S.el(tri, i, c)), S.el(tri, i, c) < n) for c in range(3)]))
    S.c.assume(ok.t)
    return dict(ptest=S.vec("p"), pts=S.points("pts", n), tri=tri, boundary_in=S.bool("b"), atol=S.real("atol", lo=0), margin=S.real("margin"), v=S.vec("v"), fwd_only=S.bool("fwd"), vn=S.vec("vn"))


def inputs(names, n=None, m=None):
    def f(S):
        a = poly_inputs(S, n, m)
        a = {k: a[k] for k in names}
        S.c.ghost["loc"] = a
        return a

    return f


def proof(fq, *names):
    """inputs, bounded inputs and call of a function with the given arguments"""
    return dict(inputs=inputs(names), bounded=[(f"{n} points, {m} triangle(s)", inputs(names, n, m)) for n, m in ((3, 1), (4, 2))], invoke=lambda S, I, a: I.call_fq(fq, [a[k] for k in names]), functions=[fq])


# ------------------------------------------------------------------ border
def bd_setup(S, I):
    abstract(I, SEG, lambda p, a, b, atol: fn("on_segment", B, v3(p), v3(a), v3(b), atol))


def on_edge(S, a, i):
    p, q = edge(S, a["pts"], i)
    return fn("on_segment", B, v3(a["ptest"]), p, q, a["atol"])


loops(f"{IP}:is_point_at_boundary", 1, l0=dict(inv=lambda S, e, k, o: [("not on an earlier edge", S.forall(k, lambda i: S.Not(on_edge(S, dict(ptest=e.ptest, pts=e.pts, atol=e.atol), i))))]))


def bd_post(S, a, r, old):
    if S.sym:
        yield "on the border exactly when on an edge", S.Iff(r, S.exists(S.shape(old["pts"])[0], lambda i: on_edge(S, old, i)))
    else:
        yield "on the border", bool(r) == (old["z"] == 0.0 and old["cls"] == 0)


def bd_real(a):
    from building3d.geom.polygon.ispointinside import is_point_at_boundary

    return is_point_at_boundary(a["pt"], a["pts"])


Contract("is_point_at_boundary", None, ["P09", "P25", "P26"], **proof(f"{IP}:is_point_at_boundary", "ptest", "pts", "atol"), setup=bd_setup, abstracts=[SEG], uses=[EDGES], post=bd_post, gen=PR.poly_and_point, ngen=40, real=bd_real)


# ------------------------------------------------------------------ inside of a polygon
def in_setup(S, I):
    """coplanarity of the points of the polygon and the point, box test, triangles and border: unknown functions"""
    d = S.c.ghost

    def cop(arr, atol):
        a = d["loc"]
        pts, p = a["pts"], a["ptest"]
        n = S.shape(pts)[0]
        same = S.And(S.eq(S.shape(arr)[0], n + 1), S.eq(atol, a["atol"]), S.forall(n, lambda i: S.And(*[S.eq(S.el(arr, i, c), S.el(pts, i, c)) for c in range(3)])), *[S.eq(S.el(arr, n, c), p[c]) for c in range(3)])
        r = S.bool("coplanar_other")
        S.c.assume(S.Implies(same, S.Iff(r, mkbool(z3.Bool("coplanar")))).t)
        return r

    def box(p, pts, atol):
        expect(pts is d["loc"]["pts"])
        r = S.bool("in_box")
        # only a point near the polygon matters
        S.c.assume(S.Implies(S.Not(r), S.Not(mkbool(z3.Bool("near")))).t)
        return r

    def bd(p, pts, atol):
        expect(pts is d["loc"]["pts"])
        return fn("at_border", B, v3(p), atol)

    abstract(I, COP, cop)
    abstract(I, BBX, box)
    abstract(I, TRI, lambda p, a, b, c, atol: fn("in_triangle", B, v3(p), v3(a), v3(b), v3(c)))
    abstract(I, f"{IP}:is_point_at_boundary", bd)


def in_tri(S, a, i):
    q = [row(S, a["pts"], S.el(a["tri"], i, c)) for c in range(3)]
    return fn("in_triangle", B, v3(a["ptest"]), *q)


def in_inv(S, e, k, o):
    yield "not in an earlier triangle", S.forall(k, lambda i: S.Not(in_tri(S, dict(ptest=e.ptest, pts=e.pts, tri=e.tri), i)))


loops(f"{IP}:is_point_inside", 2, l0=dict(inv=in_inv, maybe_inf=[]))


def in_post(S, a, r, old):
    if not S.sym:
        flat, c = old["z"] == 0.0, old["cls"]
        yield "inside exactly when on the surface or border", bool(r[0]) == (flat and c >= 0)
        yield "inside without the border", bool(r[1]) == (flat and c > 0)
        return
    m = S.shape(old["tri"])[0]
    near, cop = mkbool(z3.Bool("near")), mkbool(z3.Bool("coplanar"))
    S.c.assume(S.forall(m, lambda i: S.Implies(in_tri(S, old, i), near)).t)
    found = S.And(cop, S.exists(m, lambda i: in_tri(S, old, i)))
    border = fn("at_border", B, v3(old["ptest"]), old["atol"])
    yield "with the border: coplanar and in a triangle", S.Implies(old["boundary_in"], S.Iff(r, found))
    yield "without the border: coplanar, in a triangle and not on the border", S.Implies(S.Not(old["boundary_in"]), S.Iff(r, S.And(found, S.Not(border))))


def in_real(a):
    from building3d.geom.polygon.ispointinside import is_point_inside

    pts, tri = PR.tri_of(a)
    return is_point_inside(a["pt"], pts, tri), is_point_inside(a["pt"], pts, tri, False)


Contract("is_point_inside_polygon", None, ["P09", "P25", "P26"], **proof(f"{IP}:is_point_inside", "ptest", "pts", "tri", "boundary_in", "atol"), setup=in_setup, abstracts=[COP, TRI], post=in_post, gen=PR.poly_and_point, ngen=60, real=in_real)


# ------------------------------------------------------------------ margin
def inside_at(S, pts, p, atol=None):
    """is_point_inside(p, pts, tri) of the polygon under test: unknown, the same after a common translation"""
    base = S.c.ghost["loc"]
    if pts is base["pts"]:
        return fn("inside", B, v3(p))
    n = S.shape(base["pts"])[0]
    w = [S.el(pts, 0, c) - S.el(base["pts"], 0, c) for c in range(3)]
    moved = S.And(S.eq(S.shape(pts)[0], n), S.forall(n, lambda i: S.And(*[S.eq(S.el(pts, i, c), S.el(base["pts"], i, c) + w[c]) for c in range(3)])))
    r = S.bool("inside_other")
    S.c.assume(S.Implies(moved, S.Iff(r, fn("inside", B, tuple(p[c] - w[c] for c in range(3))))).t)
    return r


def ab_inside(S, I):
    def f(p, pts, tri, boundary_in, atol):
        expect(tri is S.c.ghost["loc"]["tri"] and boundary_in is True)
        S.c.ghost.setdefault("tested", []).append(v3(p))
        return inside_at(S, pts, p)

    abstract(I, f"{IP}:is_point_inside", f)


def mg_setup(S, I):
    ab_inside(S, I)
    abstract(I, EDG, lambda p, a, b: fn("edge_distance", R, v3(p), v3(a), v3(b)))


def edist(S, a, i):
    p, q = edge(S, a["pts"], i)
    return fn("edge_distance", R, v3(a["ptest"]), p, q)


def mg_post(S, a, r, old):
    if not S.sym:
        yield "inside with a margin", bool(r) == (old["z"] == 0.0 and old["cls"] > 0 and old["d2"] > old["m"])
        return
    n = S.shape(old["pts"])[0]
    yield "inside and no edge closer than the margin", S.Iff(r, S.And(inside_at(S, old["pts"], old["ptest"]), S.forall(n, lambda i: S.le(old["margin"], edist(S, old, i)))))


loops(f"{IP}:is_point_inside_margin", 1, l0=dict(inv=lambda S, e, k, o: [("no earlier edge is closer", S.forall(k, lambda i: S.le(e.margin, edist(S, dict(ptest=e.ptest, pts=e.pts), i))))]))


def mg_real(a):
    from building3d.geom.polygon.ispointinside import is_point_inside_margin

    return is_point_inside_margin(a["pt"], a["m"], *PR.tri_of(a))


Contract("is_point_inside_margin", None, ["P09"], **proof(f"{IP}:is_point_inside_margin", "ptest", "margin", "pts", "tri"), setup=mg_setup, abstracts=[f"{IP}:is_point_inside", EDG], uses=[EDGES], post=mg_post, gen=PR.pip_gen, ngen=60, real=mg_real)


# ------------------------------------------------------------------ projections
def pj_setup(S, I):
    """the normal of the first corner is a unit vector; its other properties are not needed"""
    ab_inside(S, I)

    def nrm(p, q, r):
        pts = S.c.ghost["loc"]["pts"]
        n = S.shape(pts)[0]
        ws = (row(S, pts, n - 1), row(S, pts, 0), row(S, pts, 1))
        t = tuple(fn(f"normal{c}", R, v3(p), v3(q), v3(r)) for c in range(3))
        S.c.assume(S.eq(vdot(t, t), 1.0).t)
        from pyvc import npmodel as npm

        o = S.vec("nrm")
        for c in range(3):
            S.c.assume(S.eq(o[c], t[c]).t)
        return o

    abstract(I, NRM, nrm)


def first_normal(S, pts):
    n = S.shape(pts)[0]
    return tuple(fn(f"normal{c}", R, row(S, pts, n - 1), row(S, pts, 0), row(S, pts, 1)) for c in range(3))


def op_post(S, a, r, old):
    if not S.sym:
        yield "orthogonal projection", bool(r) == (old["cls"] >= 0)
        return
    pts, p = old["pts"], v3(old["ptest"])
    vn = first_normal(S, pts)
    h = vdot(vn, vsub(p, row(S, pts, 0)))
    yield "the foot of the perpendicular is inside", S.Iff(r, inside_at(S, pts, vsub(p, vscale(h, vn))))


def op_real(a):
    from building3d.geom.polygon.ispointinside import is_point_inside_ortho_projection

    return is_point_inside_ortho_projection(a["pt"], *PR.tri_of(a))


Contract("is_point_inside_ortho_projection", None, ["P09"], **proof(f"{IP}:is_point_inside_ortho_projection", "ptest", "pts", "tri"), setup=pj_setup, abstracts=[f"{IP}:is_point_inside", NRM], post=op_post, gen=PR.poly_and_point, ngen=60, real=op_real)


def meets(S, old):
    """parallel, crossing, the parameter and the point where the line meets the plane"""
    pts, p, v = old["pts"], v3(old["ptest"]), v3(old["v"])
    vn = first_normal(S, pts)
    den, h = vdot(vn, v), vdot(vn, vsub(row(S, pts, 0), p))
    par = S.abs(den) < old["atol"]
    return par, S.And(S.Not(par), S.Not(S.eq(den, 0.0))), den, h


def vp_lemmas(S, a, r, old):
    par, ok, den, h = meets(S, old)
    if S.case(ok):
        p, v = v3(old["ptest"]), v3(old["v"])
        q = S.c.ghost["meet"] = v3(S.vec("q"))
        for c in range(3):
            S.c.assume(S.eq(den * (q[c] - p[c]), h * v[c]).t)
        for i, t in enumerate(S.c.ghost.get("tested", [])):
            for c in range(3):
                yield f"tested point {i}{c}", S.eq(den * (t[c] - p[c]), h * v[c])
                yield f"tested point is the meeting point {i}{c}", Instance(lambda t, q, p, den, hv: (S.eq(t, q), S.eq(den * (t - p), hv), S.eq(den * (q - p), hv), S.Not(S.eq(den, 0.0))), t[c], q[c], p[c], den, h * v[c])


def vp_post(S, a, r, old):
    if not S.sym:
        if old["z"] == 0.0:
            yield "projection along a vector, both directions", bool(r[1]) == (old["cls"] >= 0)
            yield "projection along a vector, forwards", bool(r[0]) == (old["cls"] >= 0 and old["l"] > 0)
        return
    par, ok, den, h = meets(S, old)
    pts, p, v = old["pts"], v3(old["ptest"]), v3(old["v"])
    yield "along the plane: inside itself", S.Implies(par, S.Iff(r, inside_at(S, pts, p)))
    if not S.case(ok):
        return
    ahead = S.Or(S.Not(old["fwd_only"]), S.And(den > 0, h >= 0), S.And(den < 0, h <= 0))
    q = S.c.ghost["meet"]
    yield "never behind when only looking ahead", S.Implies(S.Not(ahead), S.Not(r))
    yield "the point where the line meets the plane is inside", S.Implies(ahead, S.Iff(r, inside_at(S, pts, q)))


def vp_real(a):
    from building3d.geom.polygon.ispointinside import is_point_inside_projection

    pts, tri = PR.tri_of(a)
    p = a["pt"] - a["l"] * a["v"]
    return is_point_inside_projection(p, a["v"], pts, tri), is_point_inside_projection(p, a["v"], pts, tri, False)


Contract("is_point_inside_projection", None, ["P09", "P25"], **proof(f"{IP}:is_point_inside_projection", "ptest", "v", "pts", "tri", "fwd_only", "atol"), setup=pj_setup, abstracts=[f"{IP}:is_point_inside", NRM], post=vp_post, lemmas=vp_lemmas, gen=PR.pip_gen, ngen=60, real=vp_real,
         pre=lambda S, a: [("positive tolerance", a["atol"] > 0)] if S.sym else [])


# ------------------------------------------------------------------ distance
ORT = f"{IP}:is_point_inside_ortho_projection"


def dp_setup(S, I):
    def ortho(p, pts, tri):
        a = S.c.ghost["loc"]
        expect(p is a["ptest"] and pts is a["pts"] and tri is a["tri"])
        return mkbool(z3.Bool("above"))

    abstract(I, ORT, ortho)
    abstract(I, EDG, lambda p, a, b: fn("edge_distance", R, v3(p), v3(a), v3(b)))


def dp_inv(S, e, k, o):
    a = dict(ptest=e.ptest, pts=e.pts)
    yield "not more than the distance to the earlier edges", S.forall(k, lambda i: S.le(e.min_dist, edist(S, a, i)))
    yield "infinite before the first edge", S.Iff(S.eq(k, 0), S.isinf(e.min_dist))
    yield "the distance to one of the earlier edges", S.Implies(S.lt(0, k), S.exists(k, lambda i: S.eq(e.min_dist, edist(S, a, i))))


loops(f"{PD}:distance_point_to_polygon", 1, l0=dict(inv=dp_inv, maybe_inf=["min_dist"]))


def dpo_post(S, a, r, old):
    if not S.sym:
        yield from PR.dp_post(S, a, r, old)
        return
    pts, p, vn = old["pts"], v3(old["ptest"]), v3(old["vn"])
    n = S.shape(pts)[0]
    h = vdot(vn, vsub(p, row(S, pts, 0)))
    above = mkbool(z3.Bool("above"))
    yield "above the polygon: distance from its plane", S.Implies(above, S.And(S.le(0.0, r), S.Or(S.eq(r, h), S.eq(r, -h))))
    yield "else: not more than the distance to any edge", S.Implies(S.Not(above), S.forall(n, lambda i: S.le(r, edist(S, old, i))))
    yield "else: the distance to one of the edges", S.Implies(S.Not(above), S.exists(n, lambda i: S.eq(r, edist(S, old, i))))


Contract("distance_point_to_polygon_proof", None, ["P09"], **proof(f"{PD}:distance_point_to_polygon", "ptest", "pts", "tri", "vn"), setup=dp_setup, abstracts=[ORT, EDG], uses=[EDGES], post=dpo_post, gen=PR.poly_and_point, ngen=20, real=PR.dp_real,
         pre=lambda S, a: [("unit normal", S.eq(vdot(v3(a["vn"]), v3(a["vn"])), 1.0))] if S.sym else [])


# ------------------------------------------------------------------ solids
PJQ = f"{IP}:is_point_inside_projection"
INQ = f"{IP}:is_point_inside"
LV = {"wall": "building3d.geom.wall:Wall", "solid": "building3d.geom.solid:Solid", "zone": "building3d.geom.zone:Zone", "building": "building3d.geom.building:Building"}
PG = "building3d.geom.polygon:Polygon"


def sym_solid(S, shape):
    """walls -> number of points of each polygon"""
    polys, ws = [], []
    for i, sh in enumerate(shape):
        ps = []
        for j, n in enumerate(sh):
            p = so.obj(S.I, PG, name=f"p{j}", pts=S.points("pts", n), tri=S.arr("tri", (n - 2, 3), "i"))
            polys.append(p)
            ps.append(p)
        ws.append(so.obj(S.I, LV["wall"], name=f"w{i}", polygons=PyDict({f"p{j}": p for j, p in enumerate(ps)})))
    return so.obj(S.I, LV["solid"], name="s", walls=PyDict({f"w{i}": w for i, w in enumerate(ws)})), polys


def poly_no(polys, pts, tri=None):
    """which of the polygons has these arrays"""
    ks = [k for k, p in enumerate(polys) if p.f["pts"] is pts and (tri is None or p.f["tri"] is tri)]
    expect(len(ks) == 1)
    return ks[0]


def so_setup(S, I):
    """a polygon is hit by the test ray or not, and contains the point or not: unknown"""
    d = S.c.ghost

    def proj(p, v, pts, tri, fwd_only, atol):
        k = poly_no(d["so"]["polys"], pts, tri)
        expect(p is d["so"]["p"] and fwd_only is True)
        if "dir" not in d:
            d["dir"] = v3(v)
        expect(S.case(S.And(*[S.eq(v[c], d["dir"][c]) for c in range(3)])))
        return mkbool(z3.Bool(f"hit{k}"))

    def ins(p, pts, tri, boundary_in, atol):
        k = poly_no(d["so"]["polys"], pts, tri)
        expect(p is d["so"]["p"] and boundary_in is True)
        return mkbool(z3.Bool(f"on{k}"))

    abstract(I, PJQ, proj)
    abstract(I, INQ, ins)


def so_inputs(shape):
    def f(S):
        s, polys = sym_solid(S, shape)
        S.c.ghost["so"] = dict(p=S.vec("p"), sld=s, polys=polys)
        return S.c.ghost["so"]

    return f


def so_invoke(S, I, a):
    return dict(i=I.call_fq("building3d.geom.solid:Solid.is_point_inside", [a["sld"], a["p"]]), b=I.call_fq("building3d.geom.solid:Solid.is_point_at_boundary", [a["sld"], a["p"]]))


def so_post(S, a, r, old):
    if not S.sym:
        yield from GR.pl_post(S, a, r, old)
        return
    hits = [mkbool(z3.Bool(f"hit{k}")) for k in range(len(old["polys"]))]
    on = S.Or(*[mkbool(z3.Bool(f"on{k}")) for k in range(len(old["polys"]))])
    odd = False
    for h in hits:
        odd = S.Or(S.And(odd, S.Not(h)), S.And(S.Not(odd), h))
    pts = [row(S, p.f["pts"], i) for p in old["polys"] for i in range(p.f["pts"].a.shape[0])]
    box = S.And(*[S.And(S.Or(*[S.le(q[c], old["p"][c]) for q in pts]), S.Or(*[S.le(old["p"][c], q[c]) for q in pts])) for c in range(3)])
    yield "at the boundary exactly when on a polygon", S.Iff(r["b"], on)
    yield "outside the box of the vertices: not inside", S.Implies(S.Not(box), S.Not(r["i"]))
    yield "in the box: inside exactly when an odd number of polygons is hit or on a polygon", S.Implies(box, S.Iff(r["i"], S.Or(odd, on)))


SOF = ["building3d.geom.solid:Solid.is_point_inside", "building3d.geom.solid:Solid.is_point_at_boundary"]
Contract("point_in_solid_symbolic", None, ["P25"], bounded=[(f"walls {sh} (points of each polygon)", so_inputs(sh)) for sh in ([[3]], [[3], [4]], [[3, 3], [3]], [[3], [3], [3, 3]])], setup=so_setup, abstracts=[PJQ, INQ], invoke=so_invoke,
         post=so_post, gen=GR.pl_gen, ngen=15, real=GR.pl_real, frame=False, functions=SOF, bounded_wall=60)


# ------------------------------------------------------------------ location in a building
SIN = "building3d.geom.solid:Solid.is_point_inside"
FLQ = "building3d.geom.building.find_location:find_location"


def lo_setup(S, I):
    def ins(self, pt):
        a = S.c.ghost["lo"]
        ks = [k for k, s in enumerate(a["solids"]) if s is self]
        expect(len(ks) == 1 and pt is a["p"])
        return mkbool(z3.Bool(f"in{ks[0]}"))

    abstract(I, SIN, ins)


def lo_inputs(shape, hints):
    def f(S):
        b, objs = H.sym_building(S, shape)
        ss = [(names, o) for names, o in objs if len(names) == 3]
        paths = [S.I.getattr(o, "path") for _, o in ss]
        S.c.ghost["lo"] = dict(b=b, p=S.vec("p"), solids=[o for _, o in ss], paths=paths, hints=[paths[h] for h in hints], hk=hints)
        return S.c.ghost["lo"]

    return f


def lo_invoke(S, I, a):
    from pyvc.engine import PyRaise

    try:
        return dict(exc=None, r=I.call_fq(FLQ, [a["p"], a["b"]] + a["hints"]))
    except PyRaise as e:
        return dict(exc=e.name)


def lo_post(S, a, r, old):
    if not S.sym:
        yield from GR.lo_post(S, a, r, old)
        return
    n = len(a["paths"])
    ins = [mkbool(z3.Bool(f"in{k}")) for k in range(n)]
    if r["exc"] is not None:
        yield "no location only when no solid contains the point", S.Not(S.Or(*ins))
        yield "kind of error", r["exc"] == "RuntimeError"
    else:
        yield "the path found is that of a solid with the point", S.Or(*[S.And(S.eq(r["r"], p), i) for p, i in zip(a["paths"], ins)])
        hs = S.Or(*[ins[k] for k in a["hk"]]) if a["hk"] else False
        yield "a solid named by the caller is preferred", S.Implies(hs, S.Or(*[S.And(S.eq(r["r"], a["paths"][k]), ins[k]) for k in a["hk"]]))


LSH = [[[], []], [[]]]  # three solids in two zones
Contract("find_location_symbolic", None, ["P25"], bounded=[(f"any names, zones -> solids {LSH}, looked at first: {h}", lo_inputs(LSH, h)) for h in ([], [1], [2, 0])], setup=lo_setup, abstracts=[SIN], invoke=lo_invoke, post=lo_post,
         gen=GR.lo_gen, ngen=10, real=GR.lo_real, frame=False, functions=[FLQ], bounded_wall=60)
