"""Stacking of meshes and the meshes of containers."""
import numpy as np
import z3

from pyvc import gen as G
from pyvc import symobj as so
from pyvc.contract import Contract, loops
from pyvc.values import LArr, PyDict, PyList, SF, SInt, it, mkbool, mkint

F = "building3d.geom.mesh:vstack_mesh"


def ints_to_dict(S, d):
    """dict with integer keys, unknown content (in place)"""
    c = S.c
    u = next(so._n)
    has = z3.Function(f"dhas!{u}", z3.IntSort(), z3.BoolSort())
    get = z3.Function(f"dget!{u}", z3.IntSort(), z3.IntSort())
    d.d, d.n, d.keyat = None, None, None
    d.has = lambda x: mkbool(has(it(x)))
    d.get = lambda x: SInt(get(it(x)))


def ghosts(S):
    g = S.c.ghost
    if "vm" not in g:
        npf = z3.Function("vm_np", z3.IntSort(), z3.IntSort())
        ntf = z3.Function("vm_nt", z3.IntSort(), z3.IntSort())
        g["vm"] = dict(
            np=lambda i: mkint(npf(it(i))), nt=lambda i: mkint(ntf(it(i))),
            P=z3.Function("vm_P", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort()),
            T=z3.Function("vm_T", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort()),
            ownp=z3.Function("vm_ownp", z3.IntSort(), z3.IntSort()), ownt=z3.Function("vm_ownt", z3.IntSort(), z3.IntSort()),
        )
    v = g["vm"]
    NP = S.psum("vm_NP", v["np"], "i")
    NT = S.psum("vm_NT", v["nt"], "i")
    return v, NP, NT


def vm_inputs(S):
    n = S.int("n", lo=0)
    v, NP, NT = ghosts(S)
    c = S.c
    o, r, a, b = z3.Ints("vo vr va vb")
    nz = it(n)
    c.assume(z3.ForAll([o], z3.And(it(v["np"](SInt(o))) >= 0, it(v["nt"](SInt(o))) >= 0)))
    for N, own, cnt, nm in ((NP, v["ownp"], v["np"], "vm_NP"), (NT, v["ownt"], v["nt"], "vm_NT")):
        N(n)
        fn = c.psums[nm][0]
        # facts about prefix sums of non-negative numbers (by induction): monotone, and every row belongs to one part
        c.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), fn(a) <= fn(b)), patterns=[z3.MultiPattern(fn(a), fn(b))]))
        c.assume(z3.ForAll([r, o], z3.Implies(z3.And(0 <= o, fn(o) <= r, r < fn(o) + it(cnt(SInt(o)))), own(r) == o), patterns=[z3.MultiPattern(own(r), fn(o))]))
    tp = PyList(None, n, lambda i: LArr((v["np"](i), 3), lambda idx, i=i: SF(v["P"](it(i), it(idx[0]), it(idx[1]))), "f"))
    tt = PyList(None, n, lambda i: LArr((v["nt"](i), 3), lambda idx, i=i: SInt(v["T"](it(i), it(idx[0]), it(idx[1]))), "i"))
    return dict(t_pts=tp, t_tri=tt, o=S.int("o", lo=0), j=S.int("j", lo=0))


def vm_pre(S, a):
    yield "same number of parts", S.eq(S.len(a["t_pts"]), S.len(a["t_tri"]))


def vm_invoke(S, I, a):
    return I.call_fq(F, [a["t_pts"], a["t_tri"]])


def vm_post(S, a, r, old):
    tp, tt = old["t_pts"], old["t_tri"]
    n = S.len(tp)
    verts, faces = r
    if S.sym and not isinstance(n, int):
        v, NP, NT = ghosts(S)
        o, j = old["o"], old["j"]
        NP(o), NT(o)
        yield "number of vertices and faces", S.And(S.eq(S.shape(verts)[0], NP(n)), S.eq(S.shape(faces)[0], NT(n)), S.eq(S.shape(verts)[1], 3), S.eq(S.shape(faces)[1], 3))
        for c in range(3):
            yield f"vertices of every part in order (axis {c})", S.Implies(S.And(o < n, j < v["np"](o)), lambda: S.eq(S.el(verts, NP(o) + j, c), SF(v["P"](it(o), it(j), c))))
            yield f"triangles of every part refer to its own points (corner {c})", S.Implies(
                S.And(o < n, j < v["nt"](o)), lambda: S.eq(S.el(faces, NT(o) + j, c), SInt(v["T"](it(o), it(j), c)) + NP(o)))
        return
    cp = [S.shape(S.at(tp, i))[0] for i in range(n)]
    ct = [S.shape(S.at(tt, i))[0] for i in range(n)]
    yield "number of vertices and faces", S.And(S.eq(S.shape(verts)[0], sum(cp)), S.eq(S.shape(faces)[0], sum(ct)), S.eq(S.shape(verts)[1], 3), S.eq(S.shape(faces)[1], 3))
    po = to = 0
    for i in range(n):
        yield "vertices of every part in order", S.And(*[S.eq(S.el(verts, po + j, c), S.el(S.at(tp, i), j, c), 1e-12) for j in range(cp[i]) for c in range(3)])
        yield "triangles of every part refer to its own points", S.And(*[S.eq(S.el(faces, to + j, c), S.el(S.at(tt, i), j, c) + po) for j in range(ct[i]) for c in range(3)])
        po += cp[i]
        to += ct[i]


def vm_bounded(sizes):
    return lambda S: dict(t_pts=S.list([S.arr("p", (p, 3)) for p, t in sizes]), t_tri=S.list([S.arr("t", (t, 3), "i") for p, t in sizes]), o=0, j=0)


def vm_gen(rng, i):
    n = rng.choice([0, 1, 2, 3, 5])
    tp, tt = [], []
    for _ in range(n):
        p = rng.choice([0, 3, 4, 6])
        t = 0 if p == 0 else rng.randint(0, p)
        tp.append(np.array([[rng.uniform(-9, 9) for _ in range(3)] for _ in range(p)]).reshape(p, 3))
        tt.append(np.array([[rng.randrange(p) for _ in range(3)] for _ in range(t)], dtype=np.int32).reshape(t, 3))
    return dict(t_pts=tuple(tp), t_tri=tuple(tt), o=0, j=0)


def vm_real(a):
    from building3d.geom.mesh import vstack_mesh

    return vstack_mesh(a["t_pts"], a["t_tri"])


def l0_inv(S, e, k, o):
    v, NP, NT = ghosts(S)
    yield "points so far", S.eq(e.num_pts_tot, NP(k))
    yield "triangles so far", S.eq(e.num_tri_tot, NT(k))
    dp, dt = e.num_pts_per_obj, e.num_tri_per_obj
    if dp.d is not None:
        return
    yield "sizes noted", S.forall(k, lambda j: S.And(dp.has(j), S.eq(dp.get(j), v["np"](j)), dt.has(j), S.eq(dt.get(j), v["nt"](j))))


def filled(S, e, v, NP, NT, kp, kt):
    fn_p, fn_t = S.c.psums["vm_NP"][0], S.c.psums["vm_NT"][0]
    for c in range(3):
        yield f"vertex rows filled ({c})", S.forall(kp, lambda r: S.eq(S.el(e.verts, r, c), SF(v["P"](v["ownp"](it(r)), it(r) - fn_p(v["ownp"](it(r))), c))))
        yield f"face rows filled ({c})", S.forall(kt, lambda r: S.eq(S.el(e.faces, r, c), mkint(v["T"](v["ownt"](it(r)), it(r) - fn_t(v["ownt"](it(r))), c) + fn_p(v["ownt"](it(r))))))


def l1_inv(S, e, k, o):
    v, NP, NT = ghosts(S)
    NP(k), NT(k), NP(e.num_objects), NT(e.num_objects)
    yield "points added", S.eq(e.num_pts_added, NP(k))
    yield "triangle offset", S.eq(e.tri_offset, S.ite(S.eq(k, 0), 0, NT(k - 1)))
    yield "point offset", S.eq(e.pts_offset, S.ite(S.eq(k, 0), 0, NP(k - 1)))
    yield from filled(S, e, v, NP, NT, NP(k), NT(k))


def l2_inv(S, e, k, o):
    v, NP, NT = ghosts(S)
    i = e.i
    for c in range(3):
        yield f"earlier faces kept ({c})", S.forall(e.tri_offset, lambda r: S.eq(S.el(e.faces, r, c), S.el(o.faces, r, c)))
        yield f"faces of this part ({c})", S.forall(e.tri_offset + k, lambda r: S.eq(S.el(e.faces, r, c), mkint(v["T"](it(i), it(r) - it(e.tri_offset), c)) + e.num_pts_added), lo=e.tri_offset)


def l3_inv(S, e, k, o):
    v, NP, NT = ghosts(S)
    i = e.i
    yield "points added", S.eq(e.num_pts_added, o.num_pts_added + k)
    for c in range(3):
        yield f"earlier vertices kept ({c})", S.forall(e.pts_offset, lambda r: S.eq(S.el(e.verts, r, c), S.el(o.verts, r, c)))
        yield f"vertices of this part ({c})", S.forall(e.pts_offset + k, lambda r: S.eq(S.el(e.verts, r, c), SF(v["P"](it(i), it(r) - it(e.pts_offset), c))), lo=e.pts_offset)


loops(F, 4, l0=dict(inv=l0_inv, fresh=dict(num_pts_per_obj=ints_to_dict, num_tri_per_obj=ints_to_dict)), l1=dict(inv=l1_inv), l2=dict(inv=l2_inv), l3=dict(inv=l3_inv))

Contract(
    "vstack_mesh", None, ["P03"], inputs=vm_inputs, bounded=[(f"parts with {s} (points, triangles)", vm_bounded(s)) for s in ([], [(3, 1)], [(0, 0), (3, 1)], [(3, 1), (4, 2)], [(3, 1), (0, 0), (3, 2), (4, 2)])],
    pre=vm_pre, post=vm_post, gen=vm_gen, ngen=80, invoke=vm_invoke, real=vm_real, functions=[F], timeout=20,
    note="facts about prefix sums of non-negative numbers (monotone; each row belongs to one part) are assumed as lemmas",
)


# ------------------------------------------------------------------ meshes of containers (real buildings)
def cm_gen(rng, i):
    b = G.building(rng, maxz=3, maxs=3, empty=True)
    objs = [b] + list(b.zones.values()) + [s for z in b.zones.values() for s in z.solids.values()]
    objs += [w for s in objs if type(s).__name__ == "Solid" for w in s.walls.values()]
    o = b if rng.random() < 0.4 else rng.choice(objs)
    if rng.random() < 0.3:
        from building3d.geom.solid import Solid
        from building3d.geom.wall import Wall
        from building3d.geom.zone import Zone

        b.add_zone(Zone([Solid([Wall([], name="ew")], name="es"), Solid([], name="es2")], name="ez"))
        o = b
    return dict(o=o)


def below(o):
    if type(o).__name__ == "Polygon":
        return [o]
    return [p for c in o.children.values() for p in below(c)]


def cm_post(S, a, r, old):
    verts, faces = r
    ps = below(a["o"])
    yield "shapes", verts.ndim == 2 and faces.ndim == 2 and verts.shape == (sum(len(p.pts) for p in ps), 3) and faces.shape == (sum(len(p.tri) for p in ps), 3)
    po = to = 0
    ok = okt = True
    for p in ps:
        n, m = len(p.pts), len(p.tri)
        ok = ok and np.array_equal(verts[po : po + n], p.pts)
        okt = okt and np.array_equal(faces[to : to + m] - po, p.tri)
        po, to = po + n, to + m
    yield "vertices of the polygons in hierarchy order", ok
    yield "triangles refer to the points of their own polygon", okt


MODS = ["wall", "solid", "zone", "building"]
Contract(
    "container_mesh", None, ["P03"], post=cm_post, gen=cm_gen, ngen=40, real=lambda a: a["o"].get_mesh(), frame=False,
    functions=["building3d.geom.wall.get_mesh:get_mesh_from_polygons", "building3d.geom.solid.get_mesh:get_mesh_from_walls", "building3d.geom.zone.get_mesh:get_mesh_from_solids",
               "building3d.geom.building.get_mesh:get_mesh_from_zones", "building3d.geom.polygon:Polygon.get_mesh"] + [f"building3d.geom.{m}:{m.capitalize()}.get_mesh" for m in MODS],
)


# bounding boxes of containers
def cb_post(S, a, r, old):
    pts = np.vstack([p.pts for p in below(a["o"])])
    yield "box of exactly the points below", np.array_equal(r[0], pts.min(axis=0)) and np.array_equal(r[1], pts.max(axis=0))


def cb_gen(rng, i):
    while True:
        b = G.building(rng)
        objs = real(b)
        return dict(o=rng.choice(objs))


def real(o):
    return [o] + ([x for c in o.children.values() for x in real(c)] if isinstance(o.children, dict) else [])


Contract("container_bbox", None, ["P10"], post=cb_post, gen=cb_gen, ngen=40, real=lambda a: a["o"].bbox(), frame=False,
         functions=[f"building3d.geom.{m}:{m.capitalize()}.bbox" for m in MODS + ["polygon"]])


# bounded symbolic: containers with symbolic meshes
def sc_inputs(shape):
    """shape: zones -> solids -> walls -> polygons (points, triangles)"""
    def inputs(S):
        I = S.I
        L = {"wall": "building3d.geom.wall:Wall", "solid": "building3d.geom.solid:Solid", "zone": "building3d.geom.zone:Zone", "building": "building3d.geom.building:Building"}
        polys = []

        def mk(level, sh, nm):
            if level == "polygon":
                p = so.obj(I, "building3d.geom.polygon:Polygon", name=nm, pts=S.arr("pts", (sh[0], 3)), tri=S.arr("tri", (sh[1], 3), "i"))
                polys.append(p)
                return p
            field, ch = {"building": ("zones", "zone"), "zone": ("solids", "solid"), "solid": ("walls", "wall"), "wall": ("polygons", "polygon")}[level]
            d = PyDict({f"{ch}{i}": mk(ch, x, f"{ch}{i}") for i, x in enumerate(sh)})
            return so.obj(I, L[level], name=nm, **{field: d})

        b = mk("building", shape, "b")
        return dict(o=b, polys=polys)

    return inputs


def sc_invoke(S, I, a):
    return I.call(I.getattr(a["o"], "get_mesh"), [])


def sc_post(S, a, r, old):
    if not S.sym:
        yield from cm_post(S, a, r, old)
        return
    verts, faces = r
    ps = a["polys"]
    po = to = 0
    for k, p in enumerate(ps):
        pts, tri = p.f["pts"], p.f["tri"]
        n, m = pts.a.shape[0], tri.a.shape[0]
        yield f"vertices of polygon {k}", S.And(*[S.eq(S.el(verts, po + i, c), S.el(pts, i, c)) for i in range(n) for c in range(3)])
        yield f"triangles of polygon {k}", S.And(*[S.eq(S.el(faces, to + i, c), S.el(tri, i, c) + po) for i in range(m) for c in range(3)])
        po, to = po + n, to + m
    yield "nothing else", S.And(S.eq(S.shape(verts)[0], po), S.eq(S.shape(faces)[0], to))


SH = [[[[(3, 1)], [(4, 2), (3, 1)]], []], [], [[[(5, 3)]]]]
Contract("building_mesh_symbolic", None, ["P03"], bounded=[(f"hierarchy {SH} (points, triangles)", sc_inputs(SH)), ("empty building", sc_inputs([]))], post=sc_post, invoke=sc_invoke, frame=False,
         gen=lambda rng, i: cm_gen(rng, i), ngen=5, real=lambda a: a["o"].get_mesh(), functions=[f"building3d.geom.{m}:{m.capitalize()}.get_mesh" for m in MODS])


def sb_inputs(level, shape):
    def f(S):
        a = sc_inputs(shape)(S)
        o = a["o"]
        for k in ("zones", "solids", "walls", "polygons")[: ("building", "zone", "solid", "wall", "polygon").index(level)]:
            o = list(o.f[k].d.values())[0]
        mine = [o] if level == "polygon" else [p for p in a["polys"] if inside(o, p)]
        return dict(o=o, polys=mine)

    return f


def inside(o, p):
    return o is p or any(inside(c, p) for k in ("zones", "solids", "walls", "polygons") if k in o.f for c in o.f[k].d.values())


def sb_post(S, a, r, old):
    if not S.sym:
        yield from cb_post(S, a, r, old)
        return
    pts = [[S.el(p.f["pts"], i, k) for k in range(3)] for p in a["polys"] for i in range(p.f["pts"].a.shape[0])]
    for e, le in ((0, S.le), (1, S.ge)):
        for k in range(3):
            x = S.el(r[e], k)
            yield "box of exactly the points below", S.And(*[le(x, p[k]) for p in pts], S.Or(*[S.eq(x, p[k]) for p in pts]))


SB = [[[[(3, 1), (4, 2)], [(3, 1)]], [[(3, 1)]]], [[[(3, 1)]]]]
Contract("container_bbox_symbolic", None, ["P10"], bounded=[(f"{k} of the hierarchy {SB} (points, triangles)", sb_inputs(k, SB)) for k in ["polygon"] + MODS], post=sb_post,
         invoke=lambda S, I, a: I.call(I.getattr(a["o"], "bbox"), []), gen=cb_gen, ngen=2, real=lambda a: a["o"].bbox(), frame=False,
         functions=[f"building3d.geom.{m}:{m.capitalize()}.bbox" for m in MODS + ["polygon"]])
