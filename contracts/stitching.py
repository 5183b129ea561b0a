"""The steps of stitching solids: which polygons, which points, what is replaced."""
import importlib

import numpy as np
import z3
from contracts import location as LO, predicates as PR, slicing as SC
from contracts.cutting import key
from contracts.location import B, fn, v3

from pyvc import symobj as so
from pyvc.contract import Contract, abstract, expect, loops, row
from pyvc.values import CArr, PyDict, mkbool

ST, PG = SC.ST, LO.PG
CON, CRO = f"{PG}.contains_polygon", f"{PG}.is_crossing_polygon"
MAR, INS = f"{PR.IP}:is_point_inside_margin", f"{PR.IP}:is_point_inside"
S1, RO, SUP, RP = f"{ST}:slice_one_and_replace", f"{ST}:remove_outside_points", f"{ST}:get_sup_cut", f"{ST}:replace_polygon"
FCP = "building3d.geom.points.find_close_pairs:find_close_pairs"
T3 = dict(gen=SC.good_gen, ngen=4, real=SC.stitch_real, frame=False)


def solids(S, shapes):
    """solids with walls of the given numbers of polygons; all names and normals unknown, names of one wall differ"""
    out = []
    for k, sh in enumerate(shapes):
        ws = PyDict({})
        for i, n in enumerate(sh):
            d = PyDict({})
            w = so.obj(S.I, LO.LV["wall"], name=f"w{i}", polygons=d, _parent=None)
            for j in range(n):
                d.d[f"p{j}"] = so.obj(S.I, PG, name=f"p{j}", pts=S.points("pts", 3), tri=S.arr("tri", (1, 3), "i"), vn=S.vec("vn"), _parent=w)
            ws.d[f"w{i}"] = w
        out.append(so.obj(S.I, LO.LV["solid"], name=f"s{k}", walls=ws))
    return out


def polys(s):
    return [p for w in s.f["walls"].d.values() for p in w.f["polygons"].d.values()]


# ------------------------------------------------------------------ polygon inside a polygon
def cp_inputs(n=None, k=3):
    def f(S):
        a = LO.poly_inputs(S, n, None if n is None else n - 2)
        N = S.int("k", lo=1) if n is None else k
        x = so.obj(S.I, PG, name="x", pts=a["pts"], tri=a["tri"])
        y = so.obj(S.I, PG, name="y", pts=S.points("other", N), tri=S.arr("otri", (N - 2 if n else S.int("om", lo=1), 3), "i"))
        S.c.ghost["cp"] = dict(x=x, y=y, margin=a["margin"])
        return S.c.ghost["cp"]

    return f


def cp_setup(S, I):
    def inside(p, margin, pts, tri):
        x = S.c.ghost["cp"]["x"]
        expect(pts is x.f["pts"] and tri is x.f["tri"])
        return fn("well_inside", B, v3(p), margin)

    abstract(I, MAR, inside)


def well(S, a, i, y=None, margin=None):
    return fn("well_inside", B, row(S, (y or a["y"]).f["pts"], i), a["margin"] if margin is None else margin)


def cp_post(S, a, r, old):
    if not S.sym:
        yield from cp_real_post(old, r)
        return
    n = S.shape(old["y"].f["pts"])[0]
    yield "contained exactly when every vertex is inside by the margin", S.Iff(r, S.forall(n, lambda i: well(S, old, i)))


def cp_inv(S, e, k, o):
    yield "earlier vertices are inside", S.forall(k, lambda i: well(S, None, i, e.other, e.margin))


loops(CON, 1, l0=dict(inv=cp_inv))


def cp_gen(rng, i):
    from pyvc import gen as G
    for _ in range(300):
        p2 = G.shape2d(rng)
        q = (rng.uniform(-2, 3), rng.uniform(-2, 3))
        q2 = [(q[0] + dx, q[1] + dy) for dx, dy in ((0, 0), (rng.uniform(0.2, 1.5), 0.1), (0.1, rng.uniform(0.2, 1.5)))]
        if rng.random() < 0.3:
            q2[rng.randrange(3)] = p2[rng.randrange(len(p2))]
            if abs((q2[1][0] - q2[0][0]) * (q2[2][1] - q2[0][1]) - (q2[1][1] - q2[0][1]) * (q2[2][0] - q2[0][0])) < 0.02:
                continue
        w = [PR.in2d(p2, x) for x in q2]
        if any(1e-9 < d < 0.02 for _, d in w) or not (any(c > 0 for c, _ in w) or rng.random() < 0.2):
            continue
        u, v, nn = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg"]))
        o = G.gvec(rng)
        em = lambda x: o + x[0] * u + x[1] * v
        ar = (q2[1][0] - q2[0][0]) * (q2[2][1] - q2[0][1]) - (q2[1][1] - q2[0][1]) * (q2[2][0] - q2[0][0])
        return dict(pts=np.array([em(x) for x in p2]), n=nn, other=np.array([em(x) for x in q2]), on=nn if ar > 0 else -nn, want=all(c > 0 and d > 0.02 for c, d in w))
    raise StopIteration


def cp_real(a):
    P = importlib.import_module(SC.PO).Polygon
    return P(a["pts"], vn=a["n"]).contains_polygon(P(a["other"], vn=a["on"]))


def cp_real_post(old, r):
    yield "contained exactly when every vertex is inside", bool(r) == old["want"]


Contract("contains_polygon", None, ["P24", "P26"], inputs=cp_inputs(), bounded=[(f"{n} and {k} points", cp_inputs(n, k)) for n, k in ((3, 3), (4, 3))], setup=cp_setup, abstracts=[MAR], invoke=lambda S, I, a: I.call_fq(CON, [a["x"], a["y"], a["margin"]]),
         post=cp_post, gen=cp_gen, ngen=80, real=cp_real, frame=False, functions=[CON])


# ------------------------------------------------------------------ which pair comes next
def rel(nm, x, y, d):
    ids = {id(p): f"{i}.{j}" for i, s in enumerate(d["s"]) for j, p in enumerate(polys(s))}
    expect(id(x) in ids and id(y) in ids)
    a, b = ids[id(x)], ids[id(y)]
    if nm == "cross":
        a, b = sorted((a, b))
    return mkbool(z3.Bool(f"{nm}_{a}_{b}"))


def na_setup(S, I):
    d = S.c.ghost
    abstract(I, CRO, lambda x, y: rel("cross", x, y, d["st"]))
    abstract(I, CON, lambda x, y, margin: rel("in", y, x, d["st"]))


def na_inputs(a, b):
    def f(S):
        S.c.ghost["st"] = dict(s=solids(S, (a, b)))
        return dict(s1=S.c.ghost["st"]["s"][0], s2=S.c.ghost["st"]["s"][1])

    return f


def na_post(S, a, r, old):
    if not S.sym:
        yield from SC.stitch_post(S, a, r, old)
        return
    d = S.c.ghost["st"]
    s1, s2 = d["s"]
    act = lambda p, q: S.Or(rel("cross", p, q, d), rel("in", p, q, d), rel("in", q, p, d))
    if r is None:
        yield "nothing only when no polygons overlap or contain each other", S.Not(S.Or(*[act(p, q) for p in polys(s1) for q in polys(s2)]))
    else:
        yield "one polygon of each solid", any(r[0] is p for p in polys(s1)) and any(r[1] is p for p in polys(s2))
        yield "they overlap or one contains the other", act(r[0], r[1])


Contract("next_adjacent_polygons", None, ["P24"], bounded=[(f"walls with {a} and {b} polygons", na_inputs(a, b)) for a, b in (([1], [1]), ([2], [1]), ([1, 1], [2]), ([1], [0, 1]))], setup=na_setup,
         invoke=lambda S, I, a: I.call_fq(f"{ST}:next_adjacent_polygons", [a["s1"], a["s2"]]), post=na_post, functions=[f"{ST}:next_adjacent_polygons", f"{ST}:get_walls_and_polygons"], **T3)


# ------------------------------------------------------------------ only the points inside
def ro_inputs(k):
    def f(S):
        p = so.obj(S.I, PG, name="x", pts=S.points("pts", 4), tri=S.arr("tri", (2, 3), "i"))
        S.c.ghost["ro"] = p
        return dict(p=p, sl=S.points("sl", k))

    return f


def ro_setup(S, I):
    def inside(p, pts, tri, bnd, atol):
        x = S.c.ghost["ro"]
        expect(pts is x.f["pts"] and tri is x.f["tri"])
        return S.And(fn("inside", B, v3(p)), S.Or(bnd, S.Not(fn("at_border", B, v3(p)))))

    abstract(I, INS, inside)


def ro_post(S, a, r, old):
    if not S.sym:
        yield from SC.stitch_post(S, a, r, old)
        return
    keep = [row(S, old["sl"], i) for i in range(S.shape(old["sl"])[0])]
    want = [q for q in keep if S.case(fn("inside", B, q))]
    yield "one row for each point inside or on the border", S.shape(r)[0] == len(want)
    for i, q in enumerate(want[:S.shape(r)[0]]):
        yield f"point {i}", S.And(*[S.eq(S.el(r, i, c), q[c]) for c in range(3)])


Contract("remove_outside_points", None, ["P24"], bounded=[(f"{k} points", ro_inputs(k)) for k in range(5)], setup=ro_setup, invoke=lambda S, I, a: I.call_fq(RO, [a["p"], a["sl"]]), post=ro_post, functions=[RO, f"{PG}.is_point_inside"], **T3)


# ------------------------------------------------------------------ the line around the smaller polygon
def sc_post(S, a, r, old):
    if not S.sym:
        yield from SC.stitch_post(S, a, r, old)
        return
    want = [old["pairs"].a[i] for i in ((0, 1), (0, 0), (1, 0), (1, 1))]
    got = [r.a[i] for i in range(r.a.shape[0])]
    same = lambda seq: S.And(len(seq) == len(got), *[S.eq(g[c], w[c]) for g, w in zip(got, seq) for c in range(3)])
    yield "from the inner polygon out, along the outer one and back in", S.Or(same(want), same(want[::-1]))


Contract("get_sup_cut", None, ["P24"], bounded=[("two pairs", lambda S: dict(pairs=S.arr("pairs", (2, 2, 3))))], invoke=lambda S, I, a: I.call_fq(SUP, [a["pairs"]]), post=sc_post, functions=[SUP], **T3)


# ------------------------------------------------------------------ one polygon replaced by its parts
def so_inputs(shape, which, left=3):
    def f(S):
        s = solids(S, [shape])[0]
        p = polys(s)[which]
        S.c.ghost["so"] = dict(s=s, p=p, left=left, before=[(w, list(w.f["polygons"].d.items())) for w in s.f["walls"].d.values()])
        return dict(s=s, p=p, sl=S.points("sl", 3))

    return f


def so_setup(S, I):
    d = S.c.ghost
    d.pop("parts", None)

    def cut(poly, sl, pt1, name1, pt2, name2):
        expect(poly is d["so"]["p"])
        if S.case(mkbool(z3.Bool("impossible"))):
            S.c.raise_exc("GeometryError", "slicing not possible")
        mk = lambda nm, vn: so.obj(S.I, PG, name=nm, pts=S.points("part", 3), tri=S.arr("t", (1, 3), "i"), vn=vn, _parent=None)
        vn = poly.f["vn"]
        d["parts"] = (mk(name1 if name1 is not None else "n1", CArr(vn.a.copy(), "f")), mk(name2 if name2 is not None else "n2", CArr(vn.a.copy(), "f")))
        return d["parts"]

    abstract(I, f"{SC.SL}:slice_polygon", cut)
    abstract(I, f"{SC.SL}.add_intersection_points:add_intersection_points", lambda p, q: (p, S.points("more", 4)))
    abstract(I, RO, lambda p, q: S.points("inside", d["so"]["left"]))


def so_post(S, a, r, old):
    if not S.sym:
        yield from SC.stitch_post(S, a, r, old)
        return
    d, parts = S.c.ghost["so"], S.c.ghost.get("parts")
    for w, items in d["before"]:
        now = list(w.f["polygons"].d.items())
        own = any(p is d["p"] for _, p in items)
        kept = [(k, p) for k, p in items if p is not d["p"] or parts is None]
        yield "the other polygons stay", all(any(k == k2 and p is p2 for k2, p2 in now) for k, p in kept)
        new = [(k, p) for k, p in now if not any(p is q for _, q in kept)]
        want = list(parts) if own and parts is not None else []
        yield "the sliced polygon is replaced by its two parts, the other walls get none", len(new) == len(want) and all(any(p is q for _, p in new) for q in want)
        yield "parts are found by their names and know their wall", all(k == p.f["name"] and p.f["_parent"] is w for k, p in new)
    if parts is None:
        yield "nothing to return when not sliced", r[0] is None and r[1] is None
        yield "not sliced only when impossible or when less than two points are left", S.Or(mkbool(z3.Bool("impossible")), d["left"] < 2)
    else:
        yield "the parts are returned", {id(x) for x in r} == {id(x) for x in parts}


Contract("slice_one_and_replace", None, ["P24"], bounded=[(f"walls with {sh} polygons, the one number {k} sliced", so_inputs(sh, k)) for sh, k in (([1], 0), ([2], 1), ([1, 2], 1), ([2, 1, 1], 0))] + [(f"a wall with 2 polygons, {n} points inside", so_inputs([2], 0, n)) for n in (1, 2)], setup=so_setup, abstracts=[f"{SC.SL}:slice_polygon"],
         invoke=lambda S, I, a: I.call_fq(S1, [a["s"], a["p"], a["sl"]]), post=so_post, functions=[S1, RP, "building3d.geom.wall:Wall.replace_polygon"], **T3)


# ------------------------------------------------------------------ which of the two is sliced
def sb_inputs(S):
    s = solids(S, ([1, 1], [1, 1]))
    p1, p2 = polys(s[0])[0], polys(s[1])[1]
    S.c.ghost["sb"] = dict(s=s, p=(p1, p2), cuts=[])
    return dict(s1=s[0], p1=p1, s2=s[1], p2=p2)


def sb_in(S, k, margin):
    """is polygon k inside the other one, by how much (the border counts when the margin is negative)"""
    strict, touch = (mkbool(z3.Bool(f"{w}{k}")) for w in ("within", "within_or_touching"))
    S.c.assume(S.Implies(strict, touch).t)
    if isinstance(margin, (int, float)):
        return strict if margin > 0 else touch
    raise_unsupported()


def raise_unsupported():
    expect(False, "margin of an unknown size")


def sb_setup(S, I):
    d = S.c.ghost
    S.c.assume(S.Not(S.And(mkbool(z3.Bool("within0")), mkbool(z3.Bool("within1")))).t)

    def con(x, y, margin):
        p = d["sb"]["p"]
        for k in (0, 1):
            if x is p[1 - k] and y is p[k]:
                return sb_in(S, k, margin)
        expect(False)

    def cut(s, p, sl):
        g = d["sb"]
        main = so.obj(S.I, PG, name="main", pts=S.points("m", 3), tri=S.arr("t", (1, 3), "i"), vn=S.vec("vn"))
        g["cuts"].append((s, p, sl, main))
        return (main, so.obj(S.I, PG, name="sup"))

    abstract(I, CON, con)
    abstract(I, S1, cut)
    abstract(I, FCP, lambda a, b, n, vis_only: S.arr("pairs", (2, 2, 3)))


def sb_post(S, a, r, old):
    if not S.sym:
        yield from SC.stitch_post(S, a, r, old)
        return
    g = S.c.ghost["sb"]
    p, s, cuts = g["p"], g["s"], g["cuts"]
    yield "polygons are sliced in their own solid", all(any(c[0] is s[k] for k in (0, 1)) and (c[1] is p[0] and c[0] is s[0] or c[1] is p[1] and c[0] is s[1] or any(c[1] is e[3] and c[0] is e[0] for e in cuts)) for c in cuts)
    for k in (0, 1):
        strict, touch, t2 = (mkbool(z3.Bool(w)) for w in (f"within{k}", f"within_or_touching{k}", f"within_or_touching{1 - k}"))
        own = [c for c in cuts if c[0] is s[k]]
        outer = [c for c in cuts if c[0] is s[1 - k]]
        by = lambda c, q: key_rows(c[2]) == key_rows(q.f["pts"])
        yield f"polygon {k} lies in the other one: it is not sliced unless both are the same size", S.Implies(S.And(touch, S.Not(t2)), not own)
        yield f"polygon {k} lies in the other one: that one is sliced, at last along its outline", S.Implies(S.And(touch, S.Not(t2)), bool(outer) and by(outer[-1], p[k]))
        yield f"polygon {k} strictly inside: first a part around it is cut off, then the outline in the rest", S.Implies(S.And(strict, S.Not(t2)), len(outer) == 2 and outer[0][1] is p[1 - k] and outer[1][1] is outer[0][3])
        yield f"overlapping: polygon {k} is sliced along the outline of the other one", S.Implies(S.And(S.Not(touch), S.Not(t2)), len(own) == 1 and own[0][1] is p[k] and by(own[0], p[1 - k]))


def key_rows(x):
    return [key(q) for q in x.a]


Contract("slice_both_and_replace", None, ["P24"], bounded=[("polygons of two walls each", sb_inputs)], setup=sb_setup, abstracts=[S1], invoke=lambda S, I, a: I.call_fq(f"{ST}:slice_both_and_replace", [a[k] for k in ("s1", "p1", "s2", "p2")]), post=sb_post,
         functions=[f"{ST}:slice_both_and_replace"], **T3)
