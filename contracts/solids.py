"""Solid generators, volumes of solids, zones and buildings."""
import math

import numpy as np
import z3

from pyvc import gen as G
from pyvc import symobj as so
from pyvc.contract import Contract, abstract, det3, expect, row, vadd, vcross, vdot, vscale, vsub
from pyvc.values import CArr, Obj, PyDict, PyList, SF, mkbool, rt

BOX = "building3d.geom.solid.box:box"
FP = "building3d.geom.solid.floor_plan:floor_plan"
V = "building3d.geom.solid:Solid.volume"


def key(p):
    return tuple(round(float(x) * 1e6) for x in p)


def polys_of(s):
    return [p for w in s.walls.values() for p in w.polygons.values()]


def closed(s):
    """every directed triangle edge occurs once and its reverse occurs once"""
    e = {}
    for p in polys_of(s):
        for t in p.tri:
            c = [key(p.pts[i]) for i in t]
            for i in range(3):
                k = (c[i], c[(i + 1) % 3])
                e[k] = e.get(k, 0) + 1
    return all(n == 1 and e.get((b, a)) == 1 for (a, b), n in e.items())


def div_volume(s):
    v = 0.0
    o = polys_of(s)[0].pts[0]
    for p in polys_of(s):
        for t in p.tri:
            a, b, c = p.pts[t] - o
            v += np.dot(a, np.cross(b, c)) / 6
    return v


def outward(s):
    """triangles turn the same way as the normals (with positive enclosed volume: outwards)"""
    for p in polys_of(s):
        if abs(np.linalg.norm(p.vn) - 1) > 1e-9:
            return False
        for t in p.tri:
            a, b, c = p.pts[t]
            n = np.cross(b - a, c - a)
            if np.dot(n, p.vn) < (1 - 1e-6) * np.linalg.norm(n):
                return False
    return True


def solid_ok(s, vol, lo, hi):
    yield "closed: every edge is shared by two triangles in opposite directions", closed(s)
    yield "triangles and normals agree", outward(s)
    scale = max(1.0, abs(vol))
    yield "normals point outwards and the enclosed volume is base area times height", abs(div_volume(s) - vol) <= 1e-6 * scale
    pts = np.vstack([p.pts for p in polys_of(s)])
    yield "bounding box", np.allclose(pts.min(axis=0), lo, atol=1e-7) and np.allclose(pts.max(axis=0), hi, atol=1e-7)


# ------------------------------------------------------------------ box
def box_inputs(S):
    return dict(x=S.real("x"), y=S.real("y"), z=S.real("z"), move=(S.real("mx"), S.real("my"), S.real("mz")), name="sld")


def box_pre(S, a):
    for k in "xyz":
        yield "positive dimension", a[k] > 0


def polygon_model(I, cls, args, kwargs):
    """summary of the Polygon constructor: keeps the ring of points and the name (contracts triangulate and polygon_object)"""
    names = ["pts", "name", "uid", "tri", "vn", "parent"]
    a = dict(zip(names, args))
    a.update(kwargs)
    return Obj(cls, dict(pts=a["pts"], name=a.get("name"), uid=a.get("uid") or "u", _parent=a.get("parent"), num=None, vn=a.get("vn")))


def model_setup(S, I):
    I.class_models["Polygon"] = polygon_model


BOX_NAMES = [("floor", "floor"), ("wall_0", "poly_0"), ("wall_1", "poly_1"), ("wall_2", "poly_2"), ("wall_3", "poly_3"), ("ceiling", "ceiling")]


def box_post(S, a, r, old):
    if not S.sym:
        d = np.array([old["x"], old["y"], old["z"]])
        m = np.array(old["move"])
        yield from solid_ok(r, float(np.prod(d)), m, m + d)
        yield "names", [(w.name, p.name) for w in r.walls.values() for p in w.polygons.values()] == BOX_NAMES and [list(w.polygons) for w in r.walls.values()] == [[q] for _, q in BOX_NAMES] \
            and list(r.walls) == [w for w, _ in BOX_NAMES]
        yield "solid name", r.name == old["name"] if old["name"] is not None else len(r.name) > 0
        # documented positions of the walls
        side = {"floor": (2, 0), "wall_0": (1, 0), "wall_1": (0, 1), "wall_2": (1, 1), "wall_3": (0, 0), "ceiling": (2, 1)}
        yield "walls are where they are documented to be", all(np.allclose([q for p in r.walls[w].polygons.values() for q in p.pts[:, k]], m[k] + h * d[k]) for w, (k, h) in side.items())
        return
    walls = r.f["walls"].d
    yield "names", [(k, list(w.f["polygons"].d)) for k, w in walls.items()] == [(w, [p]) for w, p in BOX_NAMES]
    yield "solid name", r.f["name"] == old["name"]
    rings = [[row(S, p.f["pts"], i) for i in range(p.f["pts"].a.shape[0])] for w in walls.values() for p in w.f["polygons"].d.values()]
    edges = [(q[i], q[(i + 1) % len(q)]) for q in rings for i in range(len(q))]
    same = lambda p, q: S.And(*[S.eq(p[k], q[k]) for k in range(3)])
    for i, (p, q) in enumerate(edges):
        yield f"edge {i} occurs once in each direction", S.And(
            S.Or(*[S.And(same(p, v), same(q, u)) for j, (u, v) in enumerate(edges) if j != i]),
            *[S.Not(S.And(same(p, u), same(q, v))) for j, (u, v) in enumerate(edges) if j != i],
        )
    m, d = old["move"], (old["x"], old["y"], old["z"])
    mid = tuple(m[k] + d[k] / 2 for k in range(3))
    for i, q in enumerate(rings):
        n = vcross(vsub(q[1], q[0]), vsub(q[2], q[0]))
        yield f"face {i} is planar", S.And(*[S.eq(vdot(n, vsub(p, q[0])), 0.0) for p in q])
        yield f"face {i} faces outwards", S.gt(vdot(n, vsub(q[0], mid)), 0.0)
        yield f"face {i} has corners at the box", S.And(*[S.Or(S.eq(p[k], m[k]), S.eq(p[k], m[k] + d[k])) for p in q for k in range(3)])
    for k in range(3):
        for v in (m[k], m[k] + d[k]):
            yield f"the box reaches both ends of axis {k}", S.Or(*[S.eq(p[k], v) for q in rings for p in q])


def box_gen(rng, i):
    g = lambda lo, hi: rng.choice([rng.uniform(lo, hi), float(rng.randint(1, int(hi)))])
    m = tuple(rng.choice([0.0, rng.uniform(-5, 5), float(rng.randint(-3, 3))]) for _ in range(3))
    return dict(x=g(0.2, 6), y=g(0.2, 6), z=g(0.2, 6), move=m, name=rng.choice(["sld", "x", None]))


Contract("box", BOX, ["P12"], inputs=box_inputs, pre=box_pre, post=box_post, gen=box_gen, ngen=60, setup=model_setup,
         note="the Polygon constructor is applied by its summary (keeps points and name; contracts triangulate, polygon_object)")


# ------------------------------------------------------------------ floor plan
def fp_gen(rng, i):
    while True:
        p2 = G.shape2d(rng, rev=True)
        cc = p2 if G.area2d(p2) > 0 else p2[::-1]
        a, b, c = p2[-1], p2[0], p2[1]
        if abs((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])) > 1e-3:
            break
    n = len(p2)
    wn = None
    r = rng.random()
    if r < 0.4:
        wn = [f"n{k}" for k in rng.sample(range(20), n)]
    elif r < 0.5:
        wn = [f"n{k}" for k in range(n + 1)]
    elif r < 0.6:
        wn = ["a"] * n
    t = tuple(rng.choice([0.0, float(rng.randint(-3, 3)), rng.uniform(-4, 4)]) for _ in range(3))
    if rng.random() < 0.3:
        t = (0.0, 0.0, 0.0)
    return dict(
        plan=p2, height=rng.choice([1.0, 2.5, rng.uniform(0.3, 4)]), translate=t, rot_angle=rng.choice([0.0, 0.0, math.pi / 2, math.pi, rng.uniform(-4, 4)]),
        name=rng.choice(["sld", "q", None]), wall_names=wn, floor_name=rng.choice(["floor", "F"]), ceiling_name=rng.choice(["ceiling", "C"]),
    )


def fp_raises(S, old, e):
    wn = old["wall_names"]
    return e == "ValueError" and wn is not None and (len(wn) != len(old["plan"]) or len(set(wn)) < len(wn))


def fp_post(S, a, r, old):
    p2 = np.array(old["plan"])
    wn = old["wall_names"]
    yield "wrong wall names are rejected", wn is None or (len(wn) == len(p2) and len(set(wn)) == len(wn))
    phi = old["rot_angle"]
    c, s = math.cos(phi), math.sin(phi)
    q = np.array([[c * x - s * y, s * x + c * y] for x, y in p2])
    t = np.array(old["translate"])
    h = old["height"]
    lo = np.array([q[:, 0].min(), q[:, 1].min(), 0]) + t
    hi = np.array([q[:, 0].max(), q[:, 1].max(), h]) + t
    yield from solid_ok(r, abs(G.area2d(old["plan"])) * h, lo, hi)
    want = wn if wn is not None else [f"wall-{i}" for i in range(len(p2))]
    yield "wall names", list(r.walls) == list(want) + [old["floor_name"], old["ceiling_name"]] and all(list(w.polygons) == [k] for k, w in r.walls.items())
    yield "solid name", r.name == old["name"] if old["name"] is not None else len(r.name) > 0
    # wall i stands on plan edge i
    ok = True
    for i, k in enumerate(want):
        pts = list(r.walls[k].polygons.values())[0].pts
        exp = {key((q[j, 0] + t[0], q[j, 1] + t[1], z + t[2])) for j in (i, (i + 1) % len(q)) for z in (0.0, h)}
        got = [key(p) for p in pts]
        ok = ok and len(got) == 4 and all(any(max(abs(x - y) for x, y in zip(g, e)) <= 2 for e in exp) for g in got) and len({g for g in got}) == 4
    yield "wall i stands on edge i of the plan", ok
    for nm, z, up in ((old["floor_name"], 0.0, -1.0), (old["ceiling_name"], h, 1.0)):
        p = list(r.walls[nm].polygons.values())[0]
        yield f"floor and ceiling are horizontal, at the right height, facing out", np.allclose(p.pts[:, 2], z + t[2], atol=1e-7) and np.allclose(p.vn, [0, 0, up], atol=1e-7) and len(p.pts) == len(p2)


Contract("floor_plan", FP, ["P12"], post=fp_post, raises=fp_raises, gen=fp_gen, ngen=70, functions=[FP, "building3d.geom.polygon:Polygon.flip"])


EQ, ROT = "building3d.geom.points:points_equal", "building3d.geom.rotation:rotate_points_around_vector"
CCW = z3.Bool("plan!ccw")  # the plan is given counter-clockwise


def skey(p):
    return tuple(z3.simplify(rt(x), som=True).sexpr() for x in (p[0], p[1], p[2]))


def fps_inputs(n, moved=True, turned=False, names=None):
    def f(S):
        t = (S.real("t0", lo=1, hi=100), S.real("t1", lo=-100, hi=100), S.real("t2", lo=-100, hi=100)) if moved else (0.0, 0.0, 0.0)
        plan = [(S.real(f"x{i}"), S.real(f"y{i}")) for i in range(n)]
        h = S.real("h", lo=0.01, hi=100)
        phi = S.real("phi", lo=1, hi=3) if turned else 0.0
        S.c.ghost["fp"] = {skey(p): (i, l) for i, xy in enumerate(plan) for l, z in enumerate((0.0, h)) for p in [vadd((*spin(xy, phi), z), t)]}
        return dict(plan=PyList(plan), height=h, translate=t, rot_angle=phi, name="s", wall_names=PyList(list(names)) if names else None, floor_name="floor", ceiling_name="ceiling")

    return f


def spin(xy, phi):
    """the point turned around the z axis: an unknown function of point and angle"""
    if isinstance(phi, float):
        return xy
    g = lambda nm: SF(z3.Function(nm, *[z3.RealSort()] * 4)(*[rt(x) for x in (*xy, phi)]))
    return g("turned_x"), g("turned_y")


def fps_setup(S, I):
    tab = lambda p: S.c.ghost["fp"].get(skey(p))

    def equal(p, q, atol):
        if skey(p) == skey(q) or tab(p) is not None and tab(q) is not None:
            return skey(p) == skey(q)
        return mkbool(z3.Function("same_point", *[z3.RealSort()] * 6, z3.BoolSort())(*[rt(x[k]) for x in sorted((p, q), key=skey) for k in range(3)]))

    def rotate(pts, u, phi):
        expect([z3.simplify(rt(x)).as_fraction() if z3.is_rational_value(z3.simplify(rt(x))) else None for x in (u[0], u[1], u[2])] == [0, 0, 1])
        rows = [row(S, pts, i) for i in range(S.shape(pts)[0])]
        return CArr(np.array([(*spin(p[:2], phi), p[2]) for p in rows], dtype=object), "f"), None

    def model(I_, cls, args, kwargs):
        o = polygon_model(I_, cls, args, kwargs)
        if o.f["vn"] is None:
            ids = [tab(row(S, o.f["pts"], i)) for i in range(S.shape(o.f["pts"])[0])]
            k = sense(ids)
            if k is not None:
                o.f["vn"] = CArr(np.array([0.0, 0.0, SF(z3.If(CCW, z3.RealVal(k), z3.RealVal(-k)))], dtype=object), "f")
            else:
                m = S.c.ghost["normals"] = S.c.ghost.get("normals", 0) + 1
                o.f["vn"] = S.vec(f"normal{m}")
        return o

    abstract(I, EQ, equal)
    abstract(I, ROT, rotate)
    I.class_models["Polygon"] = model


def fps_pre(S, a):
    if S.sym:
        return
    p = a["plan"]
    far = all(math.dist(x, y) > 1e-3 for i, x in enumerate(p) for y in p[:i])
    turn = lambda x, y, z: (y[0] - x[0]) * (z[1] - x[1]) - (y[1] - x[1]) * (z[0] - x[0])
    edges = [(p[i - 1], p[i]) for i in range(len(p))]
    apart = all(x in f or y in f or turn(x, y, f[0]) * turn(x, y, f[1]) > 0 or turn(*f, x) * turn(*f, y) > 0 for x, y in edges for f in edges)
    yield "a simple polygon without straight corners", far and apart and all(abs(turn(p[i - 2], p[i - 1], p[i])) > 1e-3 for i in range(len(p)))


def sense(ids):
    """1 for the points of one level in the order of the plan, -1 for the opposite order"""
    n = len(ids)
    if None in ids or len({l for _, l in ids}) > 1 or sorted(i for i, _ in ids) != list(range(n)):
        return None
    d = {(ids[i][0] - ids[i - 1][0]) % n for i in range(n)}
    return 1 if d == {1} else -1 if d == {n - 1} else None


def fps_post(S, a, r, old):
    if not S.sym:
        yield from fp_post(S, a, r, old)
        return
    n = len(old["plan"].items)
    walls = r.f["walls"].d
    want = list(old["wall_names"].items) if old["wall_names"] else [f"wall-{i}" for i in range(n)]
    yield "names", [(k, list(w.f["polygons"].d), w.f["name"]) for k, w in walls.items()] == [(k, [k], k) for k in want + ["floor", "ceiling"]]
    poly = {k: p for k, w in walls.items() for p in w.f["polygons"].d.values()}
    ring = {k: [S.c.ghost["fp"].get(skey(row(S, p.f["pts"], i))) for i in range(S.shape(p.f["pts"])[0])] for k, p in poly.items()}
    ok = all(None not in q for q in ring.values())
    yield "all corners are corners of the plan, turned and moved, at the height of the floor or the ceiling", ok
    if not ok:
        return
    edges = [(q[i - 1], q[i]) for q in ring.values() for i in range(len(q))]
    yield "every edge occurs once in each direction", len(set(edges)) == len(edges) and all((q, p) in edges for p, q in edges)
    for i, k in enumerate(want):
        yield "wall i stands on edge i of the plan", sorted(ring[k]) == sorted((j % n, l) for j in (i, i + 1) for l in (0, 1))
    for l, k in enumerate(("floor", "ceiling")):
        q, up = ring[k], 2 * l - 1
        yield f"{k}: the points of the plan", sorted(q) == [(i, l) for i in range(n)]
        s = sense(q)
        yield f"the {k} faces outwards", s is not None and S.And(mkbool(CCW if s == up else z3.Not(CCW)), *[S.eq(S.el(poly[k].f["vn"], c), (0.0, 0.0, float(up))[c]) for c in range(3)])


Contract("floor_plan_symbolic", FP, ["P12"], pre=fps_pre, post=fps_post, setup=fps_setup, timeout=10, bounded_wall=60, functions=[FP], abstracts=[EQ],
         bounded=[(f"{n} corners{', moved' * m}{', turned' * u}{', own names' * bool(w)}", fps_inputs(n, m, u, w)) for n, m, u, w in ((3, True, False, None), (4, False, False, "abcd"), (5, True, True, None), (6, False, True, None))],
         note="points of the plan are taken to be distinct (points_equal by its contract); the turn around the z axis is an unknown function keeping heights (contract rotate_points_around_vector)")


# ------------------------------------------------------------------ volume: sum over all triangles of signed tetrahedra
def sv_inputs(shape):
    """shape: walls -> polygons -> (points, triangles)"""
    def inputs(S):
        I = S.I
        tris = []
        walls = {}
        for wi, w in enumerate(shape):
            ps = {}
            for pi, (n, tri) in enumerate(w):
                pts = S.points("p", n)
                vn = S.vec("vn")
                ps[f"p{pi}"] = so.obj(I, "building3d.geom.polygon:Polygon", name=f"p{pi}", pts=pts, vn=vn, tri=S.const(np.array(tri)))
                for t in tri:
                    tris.append((tuple(row(S, pts, k) for k in t), (vn[0], vn[1], vn[2])))
            walls[f"w{wi}"] = so.obj(I, "building3d.geom.wall:Wall", name=f"w{wi}", polygons=PyDict(ps))
        return dict(s=so.obj(I, "building3d.geom.solid:Solid", name="s", walls=PyDict(walls)), tris=tris)

    return inputs


def sv_pre(S, a):
    if not S.sym:
        return
    # normals on the side to which the triangles turn (vn is a positive multiple of the triangle normal):
    # seen from any reference point the signed distance of the plane has the sign of the determinant
    for k, ((p, q, r), vn) in enumerate(a["tris"]):
        d = det3(p, q, r)
        for x in (p, q, r):
            yield f"normal of triangle {k} agrees with its orientation", S.And(S.Iff(vdot(vn, x) > 0, d > 0), S.Iff(S.eq(vdot(vn, x), 0.0), S.eq(d, 0.0)))


def sv_invoke(S, I, a):
    return I.getattr(a["s"], "volume")


def sv_post(S, a, r, old):
    if S.sym:
        d = [det3(*t) for t, _ in a["tris"]]
        tot = d[0]
        for x in d[1:]:
            tot = tot + x
        yield "absolute sum of the signed tetrahedra", S.And(S.le(S.abs(tot) / 6 - 1e-6, r), S.le(r, S.abs(tot) / 6 + 1e-6))
    else:
        yield "enclosed volume", abs(r - a["vol"]) <= 1e-6 * (a["vol"] if a["vol"] < 1e-3 else max(1.0, a["vol"]))
        yield "not negative", r >= 0


def sv_gen(rng, i):
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall

    k = rng.random()
    if k < 0.3:
        a = box_gen(rng, i)
        from building3d.geom.solid.box import box

        sc = 0.01 if k < 0.08 else 1.0  # small solids too
        s, vol = box(sc * a["x"], sc * a["y"], sc * a["z"], a["move"] if sc == 1.0 else (0.0, 0.0, 0.0)), sc**3 * a["x"] * a["y"] * a["z"]
    elif k < 0.6:
        from building3d.geom.solid.floor_plan import floor_plan

        a = fp_gen(rng, i)
        s, vol = floor_plan(a["plan"], a["height"], a["translate"], a["rot_angle"]), abs(G.area2d(a["plan"])) * a["height"]
    else:
        while True:
            p = [G.rvec(rng) for _ in range(4)]
            d = float(np.dot(p[1] - p[0], np.cross(p[2] - p[0], p[3] - p[0])))
            if abs(d) > 0.5:
                break
        if d < 0:
            p[2], p[3] = p[3], p[2]
        f = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]
        s = Solid([Wall([Polygon(np.array([p[j] for j in t]), name=f"t{n}") for n, t in enumerate(f)], name="w")], name="s")
        vol = abs(d) / 6
    # move it anywhere
    t = (0.0 if vol < 1e-3 else rng.choice([0.0, 1.0, 5.0, 40.0])) * G.rvec(rng, -1, 1)
    walls = [Wall([Polygon(p.pts + t, name=p.name, tri=p.tri, vn=p.vn) for p in w.polygons.values()], name=w.name) for w in s.walls.values()]
    if rng.random() < 0.5:
        rng.shuffle(walls)
    return dict(s=Solid(walls, name="s"), tris=None, vol=vol)


QUAD = [[(4, [[3, 0, 1], [3, 1, 2]])]]
Contract("solid_volume", None, ["P13"], bounded=[("one triangle", sv_inputs([[(3, [[2, 0, 1]])]])), ("a quadrilateral of two triangles", sv_inputs(QUAD))],
         pre=sv_pre, post=sv_post, gen=sv_gen, ngen=60, invoke=sv_invoke, real=lambda a: a["s"].volume, functions=[V], frame=False, bounded_wall=60, timeout=10)


# ------------------------------------------------------------------ sums
def sum_inputs(level):
    def inputs(S):
        I = S.I
        n = S.int("n", lo=0)
        cn = {"zone": "Solid", "building": "Zone"}[level]
        fq = {"zone": "building3d.geom.zone:Zone", "building": "building3d.geom.building:Building"}[level]
        so.cls(I, {"zone": "building3d.geom.solid:Solid", "building": "building3d.geom.zone:Zone"}[level])
        d = so.symdict(S, "parts", cn)
        vol = so.heap_field(S, cn, "volume" if level == "zone" else "ghost_volume", "real")
        if level == "building":
            from pyvc.interp import Builtin

            S.c.heap[("Zone", "volume")] = lambda t: Builtin("volume", lambda I_: vol(t))
        return dict(o=so.obj(I, fq, name="x", **{"solids" if level == "zone" else "zones": d}))

    return inputs


def parts(S, a):
    d = a["o"].f.get("solids") or a["o"].f["zones"]
    f = S.c.heap.get(("Solid", "volume")) if "solids" in a["o"].f else S.c.heap[("Zone", "ghost_volume")]
    return d, (lambda k: f(d.get(d.keyat(k)).t))


def sum_invoke(S, I, a):
    return I.call(I.getattr(a["o"], "volume"), [])


def sum_post(S, a, r, old):
    if S.sym:
        d, f = parts(S, a)
        yield "sum of the parts", S.eq(r, S.psum("vols", f)(d.n))
    else:
        kids = list(a["o"].children.values())
        tot = sum(k.volume if not callable(k.volume) else k.volume() for k in kids)
        yield "sum of the parts", abs(r - tot) <= 1e-9 * max(1, abs(tot))
        sol = [s for s in (kids if a["zone"] else [s for z in kids for s in z.solids.values()])]
        tot = sum(abs(div_volume(s)) for s in sol)
        yield "sum of the enclosed volumes", abs(r - tot) <= 1e-6 * max(1, abs(tot))


def sum_inv(S, e, k, o):
    d, f = parts(S, {"o": e.self})
    yield "sum so far", S.eq(e.volume, S.psum("vols", f)(k))


from pyvc.contract import loops  # noqa: E402

loops("building3d.geom.zone:Zone.volume", 1, l0=dict(inv=sum_inv))
loops("building3d.geom.building:Building.volume", 1, l0=dict(inv=sum_inv))


def sum_gen(zone):
    def gen(rng, i):
        b = G.building(rng, maxz=3, maxs=3, empty=True)
        if zone:
            z = list(b.zones.values())
            if not z:
                from building3d.geom.zone import Zone

                z = [Zone([], name="e")]
            return dict(o=rng.choice(z), zone=True)
        return dict(o=b, zone=False)

    return gen


for lv in ("zone", "building"):
    Contract(f"{lv}_volume", None, ["P13"], inputs=sum_inputs(lv), post=sum_post, gen=sum_gen(lv == "zone"), ngen=25, invoke=sum_invoke, real=lambda a: a["o"].volume(), frame=False,
             functions=[f"building3d.geom.{lv}:{lv.capitalize()}.volume"])
