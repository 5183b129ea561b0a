"""Proofs about the relations between polygons."""
import z3
from contracts import graphs as GR, predicates as PR
from contracts.location import B, R, Z, fn, v3

from pyvc import symobj as so
from pyvc.contract import Contract, abstract, expect, loops, row
from pyvc.values import PyDict, SF, SInt, mkbool, rt

PO = "building3d.geom.polygon"
BB = "building3d.geom.bboxes"
EQ = "building3d.geom.points:points_equal"
AREA = f"{PO}.area:polygon_area"
FAC, CRO, TOU = f"{PO}.facing:are_polygons_facing", f"{PO}.crossing:are_polygons_crossing", f"{PO}.touching:are_polygons_touching"


def ident(*p):
    """class of equal points: equality of points is an equivalence in these proofs"""
    return SInt(z3.Function("ident", R, R, R, Z)(*[rt(x) for x in p]))


def which(a, pts):
    for k in ("1", "2"):
        if a["pts" + k] is pts:
            return k
    expect(False)


def ab_boxes(S, I):
    """boxes overlap or not, the same for both orders"""
    g = S.c.ghost

    def box(pts):
        k = which(g["rel"], pts)
        g.setdefault("boxes", {})
        if k not in g["boxes"]:
            g["boxes"][k] = (S.vec("lo"), S.vec("hi"))
        return g["boxes"][k]

    def over(b1, b2, *rest):
        bs = g.get("boxes", {})
        ks = [k for b in (b1, b2) for k, v in bs.items() if all(x is y for x, y in zip(b, v))]
        expect(len(ks) == 2 and ks[0] != ks[1])
        return mkbool(z3.Bool("overlap"))

    abstract(I, f"{BB}:bounding_box", box)
    abstract(I, f"{BB}:are_bboxes_overlapping", over)
    abstract(I, f"{PO}.touching:are_bboxes_overlapping", over)


# ------------------------------------------------------------------ facing
def fc_setup(S, I):
    ab_boxes(S, I)
    abstract(I, EQ, lambda p, q, atol: S.eq(ident(*v3(p)), ident(*v3(q))))

    def area(pts, vn):
        return SF(z3.Real("area" + which(S.c.ghost["rel"], pts)))

    abstract(I, AREA, area)


def fc_inputs(n, m):
    def f(S):
        a = dict(pts1=S.points("p", n), vn1=S.vec("vn1"), pts2=S.points("q", m), vn2=S.vec("vn2"))
        for k in ("pts1", "pts2"):
            ids = [ident(*row(S, a[k], i)) for i in range(S.shape(a[k])[0])]
            S.c.assume(so.distinct(S, ids).t)
        S.c.ghost["rel"] = a
        same, cyc, opp = fc_spec(S, a)
        S.c.assume(S.Implies(same, mkbool(z3.Bool("overlap"))).t)
        if n == m:
            S.c.assume(S.Implies(cyc, S.eq(SF(z3.Real("area1")), SF(z3.Real("area2")))).t)
        return a

    return f


def fc_spec(S, a):
    """same vertices; the same ring run in the opposite direction; opposite normals"""
    p = [ident(*row(S, a["pts1"], i)) for i in range(S.shape(a["pts1"])[0])]
    q = [ident(*row(S, a["pts2"], i)) for i in range(S.shape(a["pts2"])[0])]
    n = len(p)
    same = S.And(*[S.Or(*[S.eq(x, y) for y in q]) for x in p], *[S.Or(*[S.eq(x, y) for y in p]) for x in q])
    cyc = S.Or(*[S.And(*[S.eq(p[i], q[(s - i) % n]) for i in range(n)]) for s in range(n)]) if n == len(q) else False
    return same, cyc, S.And(*[S.eq(a["vn1"][c], -a["vn2"][c]) for c in range(3)])


def fc_invoke(S, I, a):
    return I.call_fq(FAC, [a[k] for k in ("pts1", "vn1", "pts2", "vn2")]), I.call_fq(FAC, [a[k] for k in ("pts2", "vn2", "pts1", "vn1")])


def fc_post(S, a, r, old):
    if not S.sym:
        yield "facing is having the same vertices and opposite normals, for any order and starting vertex", r == (old["same"] and old["opp"],) * 3
        return
    same, cyc, opp = fc_spec(S, old)
    close = S.And(*[S.le(S.abs(old["vn1"][c] + old["vn2"][c]), 1e-3 * (1 + S.abs(old["vn2"][c]))) for c in range(3)])
    yield "facing polygons have the same vertices", S.Implies(S.Or(*r), same)
    yield "facing polygons have opposite normals", S.Implies(S.Or(*r), close)
    yield "the same ring run in the opposite direction is facing", S.Implies(S.And(cyc, opp), S.And(*r))


Contract("are_polygons_facing", None, ["P26"], bounded=[(f"{n} and {m} points", fc_inputs(n, m)) for n, m in ((3, 3), (3, 4), (4, 3))], setup=fc_setup, abstracts=[EQ], invoke=fc_invoke, post=fc_post,
         gen=GR.rg_gen, ngen=20, real=GR.rg_real, functions=[FAC], bounded_wall=60)


# ------------------------------------------------------------------ touching
CHK, SAME = f"{PO}.touching:check_poly_a_against_b", f"{PO}.touching:are_all_points_same"


def to_setup(S, I):
    """vertices inside or on the border of the other polygon, crossing, same vertices: unknown; the last two do not depend on the order"""
    ab_boxes(S, I)

    def chk(pa, ta, pb):
        a = S.c.ghost["rel"]
        k, l = which(a, pa), which(a, pb)
        expect(k != l and ta is a["tri" + k])
        return mkbool(z3.Bool(f"touch{k}{l}")), mkbool(z3.Bool(f"inside{k}{l}"))

    def sym(nm):
        def f(*args):
            a = S.c.ghost["rel"]
            ks = {which(a, x) for x in args if x is a["pts1"] or x is a["pts2"]}
            expect(len(ks) == 2)
            return mkbool(z3.Bool(nm))

        return f

    abstract(I, CHK, chk)
    abstract(I, SAME, sym("same"))
    abstract(I, CRO, sym("crossing"))


def to_inputs(S):
    n, m = S.int("n", lo=3), S.int("m", lo=3)
    a = dict(pts1=S.points("p", n), tri1=S.arr("t1", (n - 2, 3), "i"), pts2=S.points("q", m), tri2=S.arr("t2", (m - 2, 3), "i"))
    S.c.ghost["rel"] = a
    return a


def to_invoke(S, I, a):
    return I.call_fq(TOU, [a[k] for k in ("pts1", "tri1", "pts2", "tri2")]), I.call_fq(TOU, [a[k] for k in ("pts2", "tri2", "pts1", "tri1")])


def to_post(S, a, r, old):
    if not S.sym:
        yield from GR.rp_post(S, a, r, old)
        return
    b = lambda nm: mkbool(z3.Bool(nm))
    yield "touching does not depend on the order", S.Iff(r[0], r[1])
    yield "touching excludes crossing, overlap, identity and distance", S.Implies(r[0], S.Not(S.Or(b("crossing"), b("inside12"), b("inside21"), b("same"), S.Not(b("overlap")))))
    yield "a touching vertex makes polygons touch unless they overlap", S.Implies(S.And(S.Or(b("touch12"), b("touch21")), b("overlap"), S.Not(S.Or(b("crossing"), b("inside12"), b("inside21"), b("same")))), r[0])
    yield "without a touching vertex they do not touch", S.Implies(S.Not(S.Or(b("touch12"), b("touch21"))), S.Not(r[0]))


Contract("are_polygons_touching", None, ["P26"], inputs=to_inputs, bounded=[("any", to_inputs)], setup=to_setup, abstracts=[CHK], invoke=to_invoke, post=to_post, gen=GR.rp_gen, ngen=20, real=GR.rp_real, functions=[TOU], frame=False)


# ------------------------------------------------------------------ vertices against the other polygon
INS, BRD = f"{PO}.ispointinside:is_point_inside", f"{PO}.ispointinside:is_point_at_boundary"


def ab_strict(S, I):
    """strictly inside / on the border of polygon k: unknown functions of the point, not both"""
    def ins(p, pts, tri, boundary_in, atol):
        a = S.c.ghost["rel"]
        k = which(a, pts)
        expect(boundary_in is False and tri is a["tri" + k])
        return fn(f"strict{k}", B, v3(p))

    def brd(p, pts, atol):
        return fn("border" + which(S.c.ghost["rel"], pts), B, v3(p))

    abstract(I, INS, ins)
    abstract(I, BRD, brd)


def ck_inputs(m=None):
    def f(S):
        n, m_ = S.int("n", lo=3), S.int("m", lo=3) if m is None else m
        a = dict(pts1=S.points("p", n), tri1=S.arr("t1", (n - 2, 3), "i"), pts2=S.points("q", m_))
        S.c.ghost["rel"] = a
        return a

    return f


def ck_inv(S, e, k, o):
    b = lambda nm, i: fn(nm, B, row(S, e.pts_b, i))
    n = S.shape(e.pts_b)[0]
    prev = S.ite(S.eq(k, 0), n - 1, k - 1)
    yield "a border vertex was seen", S.Iff(e.at_least_one_boundary, S.exists(k, lambda i: b("border1", i)))
    yield "an inner vertex was seen", S.Implies(S.exists(k, lambda i: b("strict1", i)), e.at_least_one_inside)
    yield "the previous vertex", S.And(S.eq(S.len(e.edge), 1), *[S.eq(S.at(e.edge, 0)[c], S.el(e.pts_b, prev, c)) for c in range(3)])


def ck_fresh(S, l):
    l.items = [S.vec("prev")]


loops(CHK, 2, l0=dict(inv=ck_inv, fresh=dict(edge=ck_fresh)))


def ck_post(S, a, r, old):
    if not S.sym:
        yield from GR.rp_post(S, a, r, old)
        return
    n = S.shape(old["pts2"])[0]
    b = lambda nm, i: fn(nm, B, row(S, old["pts2"], i))
    yield "touching exactly when a vertex is on the border", S.Iff(r[0], S.exists(n, lambda i: b("border1", i)))
    yield "a vertex inside is noticed", S.Implies(S.exists(n, lambda i: b("strict1", i)), r[1])


Contract("check_poly_a_against_b", None, ["P26"], inputs=ck_inputs(), bounded=[(f"{m} points", ck_inputs(m)) for m in (1, 2)], setup=ab_strict, abstracts=[INS, BRD], invoke=lambda S, I, a: I.call_fq(CHK, [a["pts1"], a["tri1"], a["pts2"]]), post=ck_post,
         gen=GR.rp_gen, ngen=10, real=GR.rp_real, functions=[CHK], frame=False)


def sm_post(S, a, r, old):
    if not S.sym:
        yield from GR.rp_post(S, a, r, old)
        return
    yield "same vertices in any order", S.And(*[S.Iff(x, fc_spec(S, old)[0]) for x in r])


def sm_setup(S, I):
    abstract(I, EQ, lambda p, q, atol: S.eq(ident(*v3(p)), ident(*v3(q))))


Contract("are_all_points_same", None, ["P26"], bounded=[(f"{n} and {m} points", fc_inputs(n, m)) for n, m in ((3, 3), (3, 4), (4, 3))], setup=sm_setup, abstracts=[EQ], invoke=lambda S, I, a: (I.call_fq(SAME, [a["pts1"], a["pts2"]]), I.call_fq(SAME, [a["pts2"], a["pts1"]])),
         post=sm_post, gen=GR.rp_gen, ngen=10, real=GR.rp_real, functions=[SAME], frame=False, bounded_wall=60)


# ------------------------------------------------------------------ crossing
LSI, COP = "building3d.geom.points.intersections:line_segment_intersection", "building3d.geom.points:are_points_coplanar"
DPE, EDG = "building3d.geom.points.distance:distance_point_to_edge", f"{PO}.edges:polygon_edges"


def cr_setup(S, I):
    ab_boxes(S, I)
    ab_strict(S, I)
    abstract(I, EQ, lambda p, q, atol: fn("peq", B, v3(p), v3(q)))

    def lsi(a1, b1, a2, b2, *rest):
        if S.case(fn("meet", B, v3(a1), v3(b1), v3(a2), v3(b2))):
            return S.vec("meet")
        from pyvc import npmodel as npm

        return npm.full((3,), float("nan"), "f")

    def cop(pts, atol):
        return mkbool(z3.Bool("coplanar"))

    abstract(I, LSI, lsi)
    abstract(I, COP, cop)
    abstract(I, DPE, lambda p, a, b: fn("edist", R, v3(p), v3(a), v3(b)))


def cr_inputs(S):
    a = to_inputs(S)
    a.update(g1=S.int("g1", lo=0), g2=S.int("g2", lo=0))
    return a


def cr_edge(S, pts, i):
    n = S.shape(pts)[0]
    return row(S, pts, i), row(S, pts, S.ite(S.eq(i, n - 1), 0, i + 1))


def cr_pair(S, a, i, j):
    """edges i and j: no common vertex and crossing lines"""
    (p, q), (s, t) = cr_edge(S, a["pts1"], i), cr_edge(S, a["pts2"], j)
    share = S.Or(*[fn("peq", B, x, y) for x, y in ((p, s), (p, t), (q, t), (q, s))])
    return S.And(S.Not(share), fn("meet", B, p, q, s, t)), S.Or(fn("strict2", B, p), fn("strict1", B, s))


def cr_inv(S, e, k1, k2):
    a = S.c.ghost["rel"]
    meet, inner = cr_pair(S, a, a["g1"], a["g2"])
    n, m = S.shape(a["pts1"])[0], S.shape(a["pts2"])[0]
    seen = S.And(a["g1"] < n, a["g2"] < m, S.Or(a["g1"] < k1, S.And(S.eq(a["g1"], k1), a["g2"] < k2)))
    yield "a pair seen before does not show a crossing", S.Not(S.And(seen, meet, inner))


loops(CRO, 3, l0=dict(inv=lambda S, e, k, o: (S.c.ghost.update(k1=k), cr_inv(S, e, k, 0))[1], fresh=dict(p_cross=lambda S, o: S.vec("pc"), p_mid=lambda S, o: S.vec("pm"))),
      l1=dict(inv=lambda S, e, k, o: cr_inv(S, e, S.c.ghost["k1"], k), fresh=dict(p_cross=lambda S, o: S.vec("pc"), p_mid=lambda S, o: S.vec("pm"))))


def cr_post(S, a, r, old):
    if not S.sym:
        yield from GR.rp_post(S, a, r, old)
        return
    n, m = S.shape(old["pts1"])[0], S.shape(old["pts2"])[0]
    b = lambda nm: mkbool(z3.Bool(nm))
    yield "crossing polygons have overlapping boxes and lie in one plane", S.Implies(r, S.And(b("overlap"), b("coplanar")))
    meet, inner = cr_pair(S, old, old["g1"], old["g2"])
    yield "edges that meet and a vertex of one of them inside the other polygon: crossing", S.Implies(S.And(b("overlap"), b("coplanar"), old["g1"] < n, old["g2"] < m, meet, inner), r)
    yield "crossing polygons have edges without common vertex that meet", S.Implies(r, S.exists(n, lambda i: S.exists(m, lambda j: cr_pair(S, old, i, j)[0])))


Contract("are_polygons_crossing", None, ["P26"], inputs=cr_inputs, setup=cr_setup, uses=[EDG], abstracts=[LSI, INS, EQ], invoke=lambda S, I, a: I.call_fq(CRO, [a[k] for k in ("pts1", "tri1", "pts2", "tri2")]), post=cr_post,
         gen=GR.rp_gen, ngen=10, real=GR.rp_real, functions=[CRO], frame=False)
