"""Proofs about ray tracing: nearby polygons, target surface."""
import itertools

import z3
from contracts import rays as RA

from pyvc import symobj as so
from pyvc.contract import Contract, abstract, expect, loops
from pyvc.values import LArr, PyDict, PyList, PySet, SF, SInt, it, mkbool

Z, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


def fresh_set(S, s, n=None, at=None):
    """set of integers with unknown content (in place)"""
    h = z3.Function(f"set!{next(so._n)}", Z, B)
    s.items, s.n, s.at = None, n, at
    s.has = lambda y: mkbool(h(it(y)))


# ------------------------------------------------------------------ polygons of the cell and its neighbours
def nb_inputs(S):
    """grid: any set of cells, any arrays. `y` is an arbitrary number; first(c) is its first position in the array of cell c"""
    c = S.c
    has, n, arr, first = z3.Function("g_has", Z, Z, Z, B), z3.Function("g_n", Z, Z, Z, Z), z3.Function("g_arr", Z, Z, Z, Z, Z), z3.Function("g_first", Z, Z, Z, Z)
    y = S.int("y")
    p, q, r, t = z3.Ints("gp gq gr gt")
    f = first(p, q, r)
    c.assume(z3.ForAll([p, q, r], z3.And(n(p, q, r) >= 0, f >= 0, f <= n(p, q, r), z3.Implies(f < n(p, q, r), arr(p, q, r, f) == y.t)), patterns=[f]))
    c.assume(z3.ForAll([p, q, r, t], z3.Implies(z3.And(0 <= t, t < f), arr(p, q, r, t) != y.t), patterns=[z3.MultiPattern(f, arr(p, q, r, t))]))
    c.assume(z3.ForAll([p, q, r], n(p, q, r) >= 0, patterns=[n(p, q, r)]))
    g = PyDict({})
    g.d = None
    k3 = lambda k: tuple(it(x) for x in k)
    g.has = lambda k: mkbool(has(*k3(k)))

    def get(k):
        k = k3(k)
        return LArr((SInt(n(*k)),), lambda idx: SInt(arr(*k, it(idx[0]))), "i")

    g.get = get
    c.ghost["nb"] = dict(y=y, first=lambda *k: SInt(first(*[it(x) for x in k])), n=lambda *k: SInt(n(*[it(x) for x in k])))
    return dict(x=S.int("x"), y=S.int("yc"), z=S.int("z"), grid=g)


def listed(S, e, k):
    """is the ghost number listed in cell k"""
    g = S.c.ghost["nb"]
    return S.And(e["grid"].has(k), g["first"](*k) < g["n"](*k))


def nb_cells(e):
    return {(i, j, k): (e["x"] + i, e["y"] + j, e["z"] + k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)}


def nb_inv(level):
    def inv(S, e, k, o):
        y = S.c.ghost["nb"]["y"]
        a = dict(x=e.x, y=e.y, z=e.z, grid=e.grid)
        out = []
        for (di, dj, dk), cell in nb_cells(a).items():
            d = [di, dj, dk]
            cur = [e.i if level > 0 else None, e.j if level > 1 else None]
            done, eq = [], True
            for l in range(level):
                done.append(S.And(eq, d[l] < cur[l]))
                eq = S.And(eq, S.eq(d[l], cur[l]))
            done.append(S.And(eq, d[level] + 1 < k))
            out.append(S.And(S.Or(*done), listed(S, a, cell)))
        yield "the set holds the polygons of the cells visited so far", S.Iff(RA_has(e.nearby_indices, y), S.Or(*out))

    return inv


def RA_has(s, y):
    from pyvc import containers as ct

    return s.has(y) if s.items is None else ct.set_has(None, s)(y) if s.items else False


def nb_in(S, e, k, o):
    g = S.c.ghost["nb"]
    cell = (e.x + e.i, e.y + e.j, e.z + e.k)
    yield "the set holds the indices visited so far", S.Iff(RA_has(e.nearby_indices, g["y"]), S.Or(RA_has(o.nearby_indices, g["y"]), g["first"](*cell) < k))


fs = dict(nearby_indices=lambda S, s: fresh_set(S, s))
loops(f"{RA.FN}:find_nearby_polygons", 4, l0=dict(inv=nb_inv(0), fresh=fs, cut=True), l1=dict(inv=nb_inv(1), fresh=fs, cut=True), l2=dict(inv=nb_inv(2), fresh=fs, cut=True), l3=dict(inv=nb_in, fresh=fs))


def nb_post(S, a, r, old):
    if not S.sym:
        yield from RA.nb_post(S, a, r, old)
        return
    g = S.c.ghost.get("nb")
    if g is not None:
        yield "exactly the polygons of the cell and its neighbours", S.Iff(RA_has(r, g["y"]), S.Or(*[listed(S, old, c) for c in nb_cells(old).values()]))
        return
    want = []
    for k, v in old["grid"].d.items():
        near = S.And(*[S.And(S.le(k[i] - 1, old[n]), S.le(old[n], k[i] + 1)) for i, n in enumerate("xyz")])
        want += [(near, S.el(v, t)) for t in range(v.shape[0])]
    from pyvc import containers as ct

    for near, y in want:
        yield "polygons of near cells are found", S.Implies(near, S.Or(*[S.eq(x, y) for x in r.items]))
    for x in r.items:
        yield "nothing else is found", S.Or(*[S.And(near, S.eq(x, y)) for near, y in want])


def nb_bounded(sizes):
    def f(S):
        d = {}
        for m, n in enumerate(sizes):
            d[(2 * m, 0, -m)] = S.arr("cell", (n,), "i")
        return dict(x=S.int("x"), y=S.int("y"), z=S.int("z"), grid=PyDict(d))

    return f


Contract("find_nearby_polygons", f"{RA.FN}:find_nearby_polygons", ["P17"], inputs=nb_inputs, bounded=[("one cell of two polygons", nb_bounded([2])), ("two cells of one polygon", nb_bounded([1, 1]))],
         post=nb_post, gen=RA.nb_gen, ngen=60, bounded_wall=40)


# ------------------------------------------------------------------ target surface
PJ = "building3d.geom.polygon.ispointinside:is_point_inside_projection"
DP = "building3d.geom.polygon.distance:distance_point_to_polygon"
NO = "building3d.geom.vectors:normal"


def same_arr(x, y):
    return x is y or getattr(x, "tag", None) is not None and getattr(x, "tag", None) == getattr(y, "tag", 0)


def ft_setup(S, I):
    """hit(pn, forward) and dist(pn): unknown functions of the polygon, for the given position and direction"""
    g = S.c.ghost
    hf, df = z3.Function("ft_hit", Z, B), z3.Function("ft_dist", Z, R)
    g["ft"] = dict(hit=lambda k: mkbool(hf(it(k))), dist=lambda k: SF(df(it(k))))
    d = g["ft"]

    def proj(p, v, pts, tri, fwd_only, atol):
        a = d["args"]
        expect(p is a["pos"] and v is a["direction"] and fwd_only is True and pts.tag[0] == "pts" and tri.tag == ("tri", pts.tag[1]) and atol is a["atol"])
        return d["hit"](pts.tag[1])

    def dist(p, pts, tri, vn):
        a = d["args"]
        expect(p is a["pos"] and pts.tag[0] == "pts" and tri.tag == ("tri", pts.tag[1]))
        return d["dist"](pts.tag[1])

    def nrm(pt0, pt1, pt2):
        return S.vec("vn")

    abstract(I, PJ, proj)
    abstract(I, DP, dist)
    abstract(I, NO, nrm)


def arrays(S, n, kind, nm):
    m = z3.Function(f"{nm}_n", Z, Z)
    f = z3.Function(f"{nm}_el", Z, Z, Z, R if kind == "f" else Z)
    c = S.c
    i = z3.Int(f"{nm}_i")
    c.assume(z3.ForAll([i], m(i) >= 3, patterns=[m(i)]))

    def get(k):
        a = LArr((SInt(m(it(k))), 3), lambda idx: (SF if kind == "f" else SInt)(f(it(k), it(idx[0]), it(idx[1]))), kind)
        a.tag = (nm, k)
        return a

    return PyList(None, n, get) if not isinstance(n, int) else PyList([get(k) for k in range(n)])


def ft_inputs(S):
    n = S.int("n", lo=0)
    m = S.int("m", lo=0)
    at = z3.Function("chk_at", Z, Z)
    chk = PySet(None, lambda y: False)
    chk.n, chk.at = m, lambda k: SInt(at(it(k)))
    fresh_set(S, chk, chk.n, chk.at)
    tr = PySet([])
    fresh_set(S, tr)
    i = z3.Int("chk_i")
    S.c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m.t), z3.And(chk.has(SInt(at(i))).t if hasattr(chk.has(SInt(at(i))), "t") else True)), patterns=[at(i)]))
    a = dict(pos=S.vec("pos"), direction=S.vec("dir"), poly_pts=arrays(S, n, "f", "pts"), poly_tri=arrays(S, n, "i", "tri"), transparent_polygons=tr, polygons_to_check=chk, atol=S.real("atol"), j=S.int("j", lo=0))
    S.c.ghost["ft"]["args"] = a
    S.c.ghost["ft"]["j"] = a["j"]
    return a


def ft_bounded(check, trans, n):
    def f(S):
        a = dict(pos=S.vec("pos"), direction=S.vec("dir"), poly_pts=arrays(S, n, "f", "pts"), poly_tri=arrays(S, n, "i", "tri"),
                 transparent_polygons=PySet(list(trans)), polygons_to_check=PySet(list(check)), atol=S.real("atol"), j=0)
        S.c.ghost["ft"]["args"] = a
        return a

    return f


def ft_pre(S, a):
    if S.sym and a["polygons_to_check"].items is None:
        n = S.len(a["poly_pts"])
        chk, tr = a["polygons_to_check"], a["transparent_polygons"]
        yield "numbers of polygons, or numbers to be ignored", S.forall(chk.n, lambda i: S.Or(tr.has(chk.at(i)), S.And(S.le(0, chk.at(i)), chk.at(i) < n)))


def ft_invoke(S, I, a):
    return I.call_fq(f"{RA.FT}:find_target_surface", [a[k] for k in ("pos", "direction", "poly_pts", "poly_tri", "transparent_polygons", "polygons_to_check", "atol")])


def ft_best(S, r, chk, tr, elems):
    g = S.c.ghost["ft"]
    ok = lambda q: S.And(S.Not(tr(q)), g["hit"](q))
    yield "no target, or an eligible polygon that is hit", S.Or(S.eq(r, -1), S.And(S.le(0, r), chk(r), ok(r)))
    for q, there in elems:
        yield "an eligible polygon that is hit is not closer than the target", S.Implies(S.And(there, ok(q)), lambda: S.And(S.Not(S.eq(r, -1)), S.le(g["dist"](r), g["dist"](q))))


def ft_inv(S, e, k, o):
    g = S.c.ghost["ft"]
    chk, tr = e.polygons_to_check, e.transparent_polygons
    q = chk.at(g["j"])
    m = e.min_dist_index
    from pyvc import containers as ct

    yield from ft_best(S, m, chk.has, tr.has, [(q, S.lt(g["j"], k))])
    tc = e.target_candidates
    if tc.d is None:
        yield "the distance of the best one is stored", S.Or(S.eq(m, -1), S.And(tc.has(m), S.eq(tc.get(m), g["dist"](m))))
    else:
        yield "the distance of the best one is stored", S.eq(m, -1)


def fresh_dict(S, d):
    u = next(so._n)
    has, get = z3.Function(f"tc_has!{u}", Z, B), z3.Function(f"tc_get!{u}", Z, R)
    d.d, d.n, d.keyat = None, None, None
    d.has = lambda x: mkbool(has(it(x)))
    d.get = lambda x: SF(get(it(x)))


loops(f"{RA.FT}:find_target_surface", 1, l0=dict(inv=ft_inv, fresh=dict(target_candidates=fresh_dict)))


def ft_post(S, a, r, old):
    if not S.sym:
        yield from RA.ft_post(S, a, r, old)
        return
    chk, tr = old["polygons_to_check"], old["transparent_polygons"]
    if chk.items is None:
        q = chk.at(old["j"])
        yield from ft_best(S, r, chk.has, tr.has, [(q, old["j"] < chk.n)])
    else:
        yield from ft_best(S, r, lambda y: S.Or(*[S.eq(y, x) for x in chk.items]), lambda y: S.Or(*[S.eq(y, x) for x in tr.items]), [(x, True) for x in chk.items])


Contract("find_target_surface", None, ["P18"], inputs=ft_inputs, bounded=[("three polygons", ft_bounded([0, 1, 2], [], 3)), ("a transparent one", ft_bounded([2, 0, 1], [1], 3)), ("none", ft_bounded([0], [0, -1], 1))],
         setup=ft_setup, abstracts=[PJ, DP], pre=ft_pre, post=ft_post, invoke=ft_invoke, real=RA.ft_real, gen=RA.ft_gen, ngen=60, functions=[f"{RA.FT}:find_target_surface"], frame=False)


# ------------------------------------------------------------------ the simulation loop, for one arbitrary ray and step
SLQ = f"{RA.SL}:simulation_loop"
GP = "building3d.io.arrayformat:get_polygon_points_and_faces"
FNQ, FTQ = f"{RA.FN}:find_nearby_polygons", f"{RA.FT}:find_target_surface"


def sl_setup(S, I):
    """callees: any nearby set, any target (or none), any unit normal, any distance"""
    I.merge_bool = True
    abstract(I, GP, lambda *a: (S.points("ppts", S.int("pn", lo=3)), S.arr("ptri", (S.int("tn", lo=1), 3), "i")))
    abstract(I, FNQ, lambda *a: PySet(None, lambda y: False))

    def target(pos, direction, poly_pts, poly_tri, transparent, check, atol):
        r = S.int("target", lo=-1)
        S.c.assume(r < S.len(poly_pts))
        return r

    def nrm(*a):
        v = S.vec("vn")
        S.c.assume(S.eq(v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 1.0))
        return v

    abstract(I, FTQ, target)
    abstract(I, NO, nrm)
    abstract(I, DP, lambda *a: S.real("dist", lo=0.0))


def sl_inputs(S):
    n, nr, na, npoly, npt, nf = S.int("num_steps", lo=0), S.int("num_rays", lo=0), S.int("num_abs", lo=0), S.int("num_polys", lo=0), S.int("num_points", lo=1), S.int("num_faces", lo=1)
    tr = PySet([])
    fresh_set(S, tr, S.int("ntr", lo=0))
    a = dict(init_step=S.int("init_step"), num_steps=n, num_rays=nr, ray_speed=S.real("speed"), time_step=S.real("dt"), grid_step=S.real("grid_step"), grid=PyDict({}),
             position=S.points("position", nr), velocity=S.points("velocity", nr), energy=S.arr("energy", (nr,)), hits=S.arr("hits", (na,)),
             absorbers=S.points("absorbers", na), absorber_radius=S.real("rad"), points=S.points("points", npt), faces=S.arr("faces", (nf, 3), "i"), polygons=S.arr("polygons", (nf,), "i"),
             walls=S.arr("walls", (npoly,), "i"), transparent_polygons=tr, surf_absorption=S.arr("absn", (npoly,)), g=S.int("g", lo=0), s=S.int("s", lo=0))
    S.c.ghost["sl"] = dict(g=a["g"], s=a["s"], a=a)
    return a


EPS = 1e-6


def sl_pre(S, a):
    if not S.sym:
        return
    g, V, dt = a["g"], a["ray_speed"], a["time_step"]
    yield "positive speed, time step and cells", S.And(V > 0.0, dt > 0.0, a["grid_step"] > 0.0)
    yield "a ray and a step", S.And(g < a["num_rays"], a["s"] < a["num_steps"])
    yield "the ray has the given speed", S.eq(vn2r(S, a["velocity"], g), V * V)
    yield "energy is not negative", S.forall(a["num_rays"], lambda k: S.le(0.0, S.el(a["energy"], k)))
    yield "absorption is not negative", S.forall(S.len_arr(a["surf_absorption"]) if hasattr(S, "len_arr") else a["surf_absorption"].shape[0], lambda k: S.le(0.0, S.el(a["surf_absorption"], k)))


def vn2r(S, arr, k):
    return S.el(arr, k, 0) * S.el(arr, k, 0) + S.el(arr, k, 1) * S.el(arr, k, 1) + S.el(arr, k, 2) * S.el(arr, k, 2)


def same_row(S, A, i, B, j):
    return S.And(*[S.eq(S.el(A, *(i + (c,))), S.el(B, *(j + (c,)))) for c in range(3)])


def step_rel(S, e0, e1, stay, moved):
    """what one step may do to a ray: energies before/after, does it stay or move"""
    yield "energy stays between zero and its previous value", S.And(S.le(0.0, e1), S.le(e1, e0))
    yield "a ray without energy keeps its state", S.Implies(S.le(e0, EPS), S.And(stay, S.eq(e1, e0)))
    yield "a ray that runs out of energy stays and ends at zero", S.Implies(S.And(e0 > EPS, S.le(e1, EPS)), S.And(stay, S.eq(e1, 0.0)))
    yield "a ray with energy moves by its speed times the time step", S.Implies(e1 > EPS, moved)


def rel(S, a, e0, e1, P0, i0, P1, i1):
    d = [S.el(P1, *(i1 + (c,))) - S.el(P0, *(i0 + (c,))) for c in range(3)]
    d2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    L = a["ray_speed"] * a["time_step"]
    return step_rel(S, e0, e1, same_row(S, P0, i0, P1, i1), S.eq(d2, L * L))


def sl_vel(S, e):
    G_ = S.c.ghost["sl"]
    g, a = G_["g"], G_["a"]
    yield "the ray's speed is kept", S.eq(vn2r(S, e.velocity, g), a["ray_speed"] * a["ray_speed"])
    yield "displacement is velocity times the time step", S.And(*[S.eq(S.el(e.delta_pos, g, c), S.el(e.velocity, g, c) * a["time_step"]) for c in range(3)])


def sl_steps(S, e, k, o):
    G_ = S.c.ghost["sl"]
    g, s, a = G_["g"], G_["s"], G_["a"]
    yield "current state is the last recorded one", S.And(S.eq(S.el(e.energy, g), S.el(e.enr_buf, k, g)), same_row(S, e.position, (g,), e.pos_buf, (k, g)))
    yield "energy is not negative", S.le(0.0, S.el(e.energy, g))
    yield from sl_vel(S, e)
    for nm, p in rel(S, a, S.el(e.enr_buf, s, g), S.el(e.enr_buf, s + 1, g), e.pos_buf, (s, g), e.pos_buf, (s + 1, g)):
        yield nm, S.Implies(s < k, p)
    yield "recorded initial state", S.And(S.eq(S.el(e.enr_buf, 0, g), S.el(G_["old_energy"], g)), same_row(S, e.pos_buf, (0, g), G_["old_position"], (g,)))


def sl_absorb(S, e, k, o):
    g = S.c.ghost["sl"]["g"]
    e0, e1 = S.el(o.energy, g), S.el(e.energy, g)
    yield "not yet looked at: unchanged; else unchanged or absorbed", S.And(S.Or(S.eq(e1, e0), S.And(S.eq(e1, 0.0), g < k, e0 > EPS)))


def sl_absorb1(S, e, k, o):
    g = S.c.ghost["sl"]["g"]
    e0, e1 = S.el(o.energy, g), S.el(e.energy, g)
    yield "other rays are left alone; this one keeps its energy or is absorbed", S.Or(S.eq(e1, e0), S.And(S.eq(e1, 0.0), S.eq(g, e.rn)))


def sl_rays(S, e, k, o):
    G_ = S.c.ghost["sl"]
    g, a = G_["g"], G_["a"]
    yield from sl_vel(S, e)
    yield "rays not yet moved are unchanged", S.Implies(S.le(k, g), S.And(S.eq(S.el(e.energy, g), S.el(o.energy, g)), same_row(S, e.position, (g,), o.position, (g,))))
    moved = S.And(*[S.eq(S.el(e.position, g, c), S.el(o.position, g, c) + S.el(e.delta_pos, g, c)) for c in range(3)])
    yield "a ray with energy is moved by its displacement", S.Implies(S.And(g < k, S.el(e.energy, g) > EPS), moved)
    for nm, p in rel(S, a, S.el(o.energy, g), S.el(e.energy, g), o.position, (g,), e.position, (g,)):
        yield nm, S.Implies(g < k, p)


def sl_refl(S, e, k, o):
    g = S.c.ghost["sl"]["g"]
    yield from sl_vel(S, e)
    e0, e1 = S.el(o.energy, g), S.el(e.energy, g)
    yield "other rays are left alone", S.Implies(S.Not(S.eq(e.rn, g)), S.And(S.eq(e1, e0), same_row(S, e.delta_pos, (g,), o.delta_pos, (g,))))
    yield "energy does not grow", S.And(S.le(0.0, e1), S.le(e1, e0))
    yield "an exhausted ray is at zero", S.Or(e1 > EPS, S.eq(e1, e0))
    t = S.el(e.target_surfs, e.rn)
    yield "target is a polygon or unknown", S.And(S.le(-1, t), t < S.len(e.poly_pts))
    yield "no target means no distance", S.Implies(t < 0, S.isinf(e.dist))
    yield "normal of the target", S.Implies(S.le(0, t), S.eq(e.vn[0] * e.vn[0] + e.vn[1] * e.vn[1] + e.vn[2] * e.vn[2], 1.0))


def fresh_polys(kind):
    def f(S, l):
        n = S.int("npolys", lo=0)
        l.items, l.n = None, n
        l.get = (lambda k: S.points("ppts", S.int("pn", lo=3))) if kind == "f" else (lambda k: S.arr("ptri", (S.int("tn", lo=1), 3), "i"))

    return f


loops(SLQ, 7,
      l0=dict(inv=lambda S, e, k, o: [("one entry per polygon", S.And(S.eq(S.len(e.poly_pts), k), S.eq(S.len(e.poly_tri), k)))], fresh=dict(poly_pts=fresh_polys("f"), poly_tri=fresh_polys("i"))),
      l1=dict(inv=lambda S, e, k, o: []), l2=dict(inv=sl_steps), l3=dict(inv=sl_absorb), l4=dict(inv=sl_absorb1), l5=dict(inv=sl_rays, start=lambda S, e, k: S.case(S.eq(k, S.c.ghost["sl"]["g"]))), l6=dict(inv=sl_refl, maybe_inf=["dist"], fresh=dict(polygons_to_check=lambda S, o: PySet(None, lambda y: False), pts=lambda S, o: S.points("ppts", S.int("pn", lo=3)), tri=lambda S, o: S.arr("ptri", (S.int("tn", lo=1), 3), "i"))))


def sl_invoke(S, I, a):
    from pyvc.interp import snap

    S.c.ghost["sl"].update(old_energy=snap(a["energy"]), old_position=snap(a["position"]))
    return I.call_fq(SLQ, [], {k: v for k, v in a.items() if k not in ("g", "s")} | {"verbose": False})


def sl_post(S, a, r, old):
    if not S.sym:
        yield from RA.sl_post(S, a, r, old)
        return
    P, E, H = r
    g, s, n, nr = old["g"], old["s"], old["num_steps"], old["num_rays"]
    yield "one state per step and the initial one", S.And(S.eq(P.shape[0], n + 1), S.eq(P.shape[1], nr), S.eq(E.shape[0], n + 1), S.eq(H.shape[0], n + 1))
    yield "the initial state is recorded", S.And(S.eq(S.el(E, 0, g), S.el(old["energy"], g)), same_row(S, P, (0, g), old["position"], (g,)))
    yield from rel(S, old, S.el(E, s, g), S.el(E, s + 1, g), P, (s, g), P, (s + 1, g))
    yield "the speed is kept", S.eq(vn2r(S, a["velocity"], g), old["ray_speed"] * old["ray_speed"])


Contract("simulation_loop", None, ["P19"], inputs=sl_inputs, setup=sl_setup, abstracts=[FTQ, DP, NO], pre=sl_pre, post=sl_post, invoke=sl_invoke, real=RA.sl_real, gen=RA.sl_gen, ngen=20, functions=[SLQ], frame=False, wall=300)
