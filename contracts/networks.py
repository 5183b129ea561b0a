"""Bounded proofs about graphs, transparent surfaces and surface parameters on small buildings with any names."""
import itertools

import z3
from contracts import graphs as GR, hierarchy as H
from contracts.location import B, v3

from pyvc import symobj as so
from pyvc.contract import Contract, abstract, expect
from pyvc.engine import PyRaise
from pyvc.values import PyDict, PyList, PySet, SF, mkbool

PO = "building3d.geom.polygon:Polygon"
RELS = {"facing": f"{PO}.is_facing_polygon", "overlapping": f"{PO}.is_crossing_polygon", "touching": f"{PO}.is_touching_polygon"}
FUN = {"facing": "building3d.geom.polygon.facing:are_polygons_facing", "overlapping": "building3d.geom.polygon.crossing:are_polygons_crossing", "touching": "building3d.geom.polygon.touching:are_polygons_touching"}
BB = "building3d.geom.bboxes"
GRAPH = "building3d.geom.building:Building.get_graph"


def pair(nm, i, j):
    return mkbool(z3.Bool(f"{nm}{min(i, j)}{max(i, j)}"))


def gr_setup(S, I):
    """facing, crossing, touching of two polygons: unknown symmetric relations; related polygons have overlapping boxes"""
    g = S.c.ghost

    def no(pts):
        ks = [k for k, p in enumerate(g["net"]["polys"]) if p.f["pts"] is pts]
        expect(len(ks) == 1)
        return ks[0]

    def box(pts):
        k = no(pts)
        bs = g.setdefault("boxes", {})
        if k not in bs:
            bs[k] = (S.vec("lo"), S.vec("hi"))
        return bs[k]

    def over(b1, b2, *rest):
        ks = [k for b in (b1, b2) for k, v in g.get("boxes", {}).items() if all(x is y for x, y in zip(b, v))]
        expect(len(ks) == 2)
        return True if ks[0] == ks[1] else pair("overlap", *ks)

    abstract(I, f"{BB}:bounding_box", box)
    abstract(I, f"{BB}:are_bboxes_overlapping", over)
    abstract(I, FUN["facing"], lambda p, n, q, m: pair("facing", no(p), no(q)))
    abstract(I, FUN["overlapping"], lambda p, t, q, u: pair("overlapping", no(p), no(q)))
    abstract(I, FUN["touching"], lambda p, t, q, u: pair("touching", no(p), no(q)))


def gr_inputs(shape, level, flags=None):
    def f(S):
        b, objs = H.sym_building(S, shape)
        b.f.update(graph=PyDict({}), graph_wall=PyDict({}), graph_solid=PyDict({}), graph_zone=PyDict({}))
        ps = [(names, o) for names, o in objs if len(names) == 5]
        for _, o in ps:
            o.f.update(vn=S.vec("vn"), tri=S.arr("tri", (1, 3), "i"))
        for i, j in itertools.combinations(range(len(ps)), 2):
            S.c.assume(S.Implies(S.Or(*[pair(r, i, j) for r in RELS]), pair("overlap", i, j)).t)
        fl = {r: S.bool(r) if flags is None else r in flags for r in RELS}
        a = S.c.ghost["net"] = dict(b=b, polys=[o for _, o in ps], names=[n for n, _ in ps], level=level, flags=fl)
        return a

    return f


def gr_invoke(S, I, a):
    return I.call_fq(GRAPH, [a["b"]], dict(new=True, level=a["level"], **a["flags"]))


def gr_post(S, a, r, old):
    if not S.sym:
        yield from GR.gr_post(S, a, r, old)
        return
    from pyvc import containers as ct

    cut = {"polygon": 5, "wall": 4, "solid": 3, "zone": 2}[a["level"]]
    paths = [ct.st_join(S.I, "/", list(n[:cut])) for n in a["names"]]
    rel = lambda i, j: S.Or(*[S.And(a["flags"][x], pair(x, i, j)) for x in RELS])
    keys = list(r.d)
    n = len(paths)
    yield "every object is a key", S.And(*[S.Or(*[S.eq(k, p) for k in keys]) for p in paths])
    yield "every key is an object", S.And(*[S.Or(*[S.eq(k, p) for p in paths]) for k in keys])
    yield "keys are different", so.distinct(S, keys)
    for k in keys:
        vs = r.d[k].items
        yield "no duplicates", so.distinct(S, vs)
        # the pairs of polygons that connect k with x
        links = lambda x: S.Or(*[S.And(S.eq(paths[i], k), S.eq(paths[j], x), rel(i, j)) for i in range(n) for j in range(n) if i != j])
        yield "only related objects are connected", S.And(*[S.And(S.Not(S.eq(x, k)), links(x)) for x in vs])
        for x in paths:
            yield "related objects are connected", S.Implies(S.And(S.Not(S.eq(x, k)), links(x)), S.Or(*[S.eq(x, v) for v in vs]))


GFN = [f"{GR.GR}:{n}" for n in ("graph_polygon", "graph_wall", "graph_solid", "graph_zone", "strip_graph", "remove_last", "iter_polygons")] + [GRAPH]
CASES = [([[[1], [1]], [[1]]], "polygon", ["facing"]), ([[[1], [1]], [[1]]], "polygon", ["overlapping"]), ([[[2, 1]]], "polygon", ["touching"]), ([[[1, 1]]], "polygon", None), ([[[2], [1]]], "wall", ["facing"]),
         ([[[2], [1]]], "wall", ["overlapping"]), ([[[1, 1], [1]]], "solid", ["facing"]), ([[[1], [1]], [[1]]], "zone", ["facing"]), ([[[1]], [[1]]], "zone", ["facing", "touching"])]
Contract("graphs_symbolic", None, ["P14"], bounded=[(f"any names, zones -> solids -> polygons per wall {sh}, level {lv}, {fl or 'any flags'}", gr_inputs(sh, lv, fl)) for sh, lv, fl in CASES], setup=gr_setup, invoke=gr_invoke, post=gr_post,
         abstracts=[tuple(FUN.values()), f"{BB}:bounding_box"], gen=GR.gr_gen, ngen=3, real=GR.gr_real, frame=False, functions=GFN, bounded_wall=100)


# ------------------------------------------------------------------ transparent surfaces
FTQ, GPQ = f"{GR.FT}:find_transparent", f"{GR.GR}:graph_polygon"


def tr_setup(S, I):
    """the graph of facing polygons: any matching; each polygon faces at most one other"""
    g = S.c.ghost

    def graph(bdg, facing, overlapping, touching):
        a = g["net"]
        expect(bdg is a["b"] and facing is True and overlapping is False and touching is False)
        n = len(a["polys"])
        d = {}
        paths = [S.I.getattr(p, "path") for p in a["polys"]]
        for i in range(n):
            d[paths[i]] = PyList([paths[j] for j in range(n) if j != i and S.case(pair(f"facing{a['turn']}", i, j))])
        return PyDict(d)

    abstract(I, GPQ, graph)


def tr_inputs(shape):
    def f(S):
        b, objs = H.sym_building(S, shape)
        ps = [(names, o) for names, o in objs if len(names) == 5]
        n = len(ps)
        for _, o in ps:
            o.f.update(vn=S.vec("vn"))
        for t in (0, 1):
            for i, j, k in itertools.permutations(range(n), 3):
                S.c.assume(S.Not(S.And(pair(f"facing{t}", i, j), pair(f"facing{t}", i, k))).t)
        # faces of one solid do not face each other
        for t in (0, 1):
            for i, j in itertools.combinations(range(n), 2):
                if all(x is y for x, y in zip(ps[i][0][:3], ps[j][0][:3])):
                    S.c.assume(S.Not(pair(f"facing{t}", i, j)).t)
        S.c.ghost["net"] = dict(b=b, polys=[o for _, o in ps], names=[x for x, _ in ps], turn=0)
        return S.c.ghost["net"]

    return f


def tr_invoke(S, I, a):
    """asked twice; in between a polygon moves and the faces that match may be others"""
    out = [I.call_fq(FTQ, [a["b"]])]
    first = list(out[0].items)
    out[0].items.append("spoiled by the caller")
    again = I.call_fq(FTQ, [a["b"]])
    p = a["polys"][0]
    pts = S.points("pts", 3)
    S.c.assume(S.Not(S.eq(S.el(pts, 0, 0), S.el(p.f["pts"], 0, 0))).t)
    p.f["pts"] = pts
    S.c.ghost["net"]["turn"] = 1
    return first, list(again.items), list(I.call_fq(FTQ, [a["b"]]).items)


def tr_post(S, a, r, old):
    if not S.sym:
        yield from GR.tr_post(S, a, r, old)
        return
    paths = [S.I.getattr(p, "path") for p in a["polys"]]
    n = len(paths)
    for turn, got, what in ((0, r[0], "first time"), (0, r[1], "asked again"), (1, r[2], "after a change")):
        ok = [S.Or(*[S.And(pair(f"facing{turn}", i, j), S.eq(a["names"][i][1], a["names"][j][1])) for j in range(n) if j != i]) for i in range(n)]
        yield f"only interfaces within a zone ({what})", S.And(*[S.Or(*[S.And(S.eq(x, paths[i]), ok[i]) for i in range(n)]) for x in got])
        yield f"all interfaces within a zone ({what})", S.And(*[S.Implies(ok[i], S.Or(*[S.eq(x, paths[i]) for x in got])) for i in range(n)])


Contract("find_transparent_symbolic", None, ["P15"], bounded=[(f"any names, zones -> solids -> polygons per wall {sh}", tr_inputs(sh)) for sh in ([[[1], [1]]], [[[1], [1]], [[1]]])], setup=tr_setup, invoke=tr_invoke, post=tr_post, abstracts=[GPQ],
         gen=GR.tr_gen, ngen=3, real=GR.tr_real, frame=False, functions=[FTQ], bounded_wall=60)


# ------------------------------------------------------------------ surface parameters
CFG = f"{GR.SC}:SimulationConfig"


def sp_inputs(shape, ks):
    """settings on paths of ks components, any names; polygons numbered in any way"""
    def f(S):
        from pyvc import containers as ct

        b, objs = H.sym_building(S, shape)
        ps = [(names, o) for names, o in objs if len(names) == 5]
        nums = [S.int("num") for _ in ps]
        S.c.assume(S.And(*[S.And(x >= 0, x < len(ps)) for x in nums]).t)
        if len(ps) > 1:
            S.c.assume(z3.Distinct(*[x.t for x in nums]))
        for (_, o), x in zip(ps, nums):
            o.f["num"] = x
        qs = []
        for j, k in enumerate(ks):
            q = [S.str(f"q{j}{i}") for i in range(k)]
            for s in q:
                S.c.assume(S.Not(ct.str_contains(S.I, s, "/")).t)
            qs.append(q)
        vals = [S.real(f"value{j}") for j in range(len(ks))]
        return dict(b=b, objs=objs, ps=ps, qs=qs, vals=vals, default=S.real("default"), other=S.real("other"))

    return f


def sp_invoke(S, I, a):
    from pyvc import containers as ct

    so.cls(I, CFG)
    cfg = I.instantiate(so.cls(I, CFG), [a["b"]], {})
    sf = I.getattr(cfg, "surfaces")
    mine = ct.getitem(I, sf, "absorption")
    ct.dict_set(I, mine, "default", a["default"])
    sp = I.instantiate(so.cls(I, f"{GR.SC}:SurfaceParam"), [], dict(default=a["other"]))
    ct.dict_set(I, sf, "other", sp)
    excs = []
    for q, v in zip(a["qs"], a["vals"]):
        try:
            I.call_fq(f"{CFG}.set_surface_param", [cfg, "absorption", ct.st_join(I, "/", q), v, a["b"]])
            excs.append(None)
        except PyRaise as e:
            excs.append(e.name)
    look = lambda d: [ct.getitem(I, d, ct.st_join(I, "/", list(n))) for n, _ in a["ps"]]
    return dict(excs=excs, mine=look(mine), other=look(sp), arr=I.call_fq(f"{CFG}.surface_params_to_array", [cfg, "absorption", a["b"]]), arr2=I.call_fq(f"{CFG}.surface_params_to_array", [cfg, "other", a["b"]]))


def sp_post(S, a, r, old):
    if not S.sym:
        yield from GR.sp_post(S, a, r, old)
        return
    hit = lambda names, q: S.And(*[S.eq(x, y) for x, y in zip(names, q)])
    for q, exc in zip(a["qs"], r["excs"]):
        found = S.Or(*[hit(names, q) for names, _ in a["objs"] if len(names) == len(q)])
        yield "a path of nothing is rejected, a path of something is not", S.Not(found) if exc else found
    n = len(a["ps"])
    yield "array length", S.And(S.eq(r["arr"].shape[0], n), S.eq(r["arr2"].shape[0], n))
    for k, (names, p) in enumerate(a["ps"]):
        want = a["default"]
        for q, v in zip(a["qs"], a["vals"]):
            want = S.ite(hit(names, q) if len(q) <= 5 else S.Or(), v, want)
        yield "exactly the polygons below the path get the value", S.eq(r["mine"][k], want)
        yield "other parameters are not changed", S.eq(r["other"][k], a["other"])
        yield "the array holds the value of each polygon at its number", S.And(*[S.Implies(S.eq(p.f["num"], j), S.And(S.eq(S.el(r["arr"], j), want), S.eq(S.el(r["arr2"], j), a["other"]))) for j in range(n)])


SPC = [([[[2], [1]]], (3, 5)), ([[[1], [1]]], (5, 3)), ([[[1, 1]]], (4, 4)), ([[[1]], [[1]]], (2, 1)), ([[[1]], [[1]]], (1, 2)), ([[[2]]], (5, 5))]
Contract("surface_params_symbolic", None, ["P16"], bounded=[(f"any names, values, numbers; zones -> solids -> polygons per wall {sh}, two settings on paths of {ks} names", sp_inputs(sh, ks)) for sh, ks in SPC], invoke=sp_invoke, post=sp_post,
         gen=GR.sp_gen, ngen=3, real=GR.sp_real, frame=False, functions=[f"{CFG}.set_surface_param", f"{CFG}.surface_params_to_array", f"{CFG}.__init__", f"{GR.SC}:SurfaceParam.__missing__"], bounded_wall=60)
