"""Adjacency graphs, transparent surfaces, surface parameters, point location, polygon relations."""
import importlib
import itertools

from contracts import predicates as PR
import numpy as np

from pyvc import gen as G
from pyvc.contract import Contract

GR = "building3d.geom.building.graph"
BD = "building3d.geom.building"
FT = "building3d.sim.rays.find_transparent"
SC = "building3d.sim.rays.simulation_config"
SO = "building3d.geom.solid"
FL = "building3d.geom.building.find_location"
PO = "building3d.geom.polygon"


def boxes(rng, nz=(1, 2), ns=(1, 3), partial=True):
    """boxes on a grid that never overlap; some share a face, some part of a face, some only an edge"""
    from building3d.geom.building import Building
    from building3d.geom.solid.box import box
    from building3d.geom.zone import Zone

    taken = set()
    zones = []
    zn = G.names(rng, nz[1])
    for zi in range(rng.randint(*nz)):
        sol = []
        sn = G.names(rng, ns[1])
        for si in range(rng.randint(*ns)):
            for _ in range(30):
                w, d, h = (rng.choice([1, 1, 1, 2] if partial else [1]) for _ in range(3))
                x, y, z = rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 1)
                cells = set(itertools.product(range(x, x + w), range(y, y + d), range(z, z + h)))
                if not cells & taken:
                    taken |= cells
                    sol.append(box(float(w), float(d), float(h), (float(x), float(y), float(z)), name=sn[si]))
                    break
        if sol:
            zones.append(Zone(sol, name=zn[zi]))
    return Building(zones, name="b")


def faces(p, q):
    """independent of the code: same vertices, opposite normals"""
    if len(p.pts) != len(q.pts) or not np.allclose(p.vn, -np.array(q.vn), atol=1e-9):
        return False
    return {tuple(np.round(x, 9) + 0.0) for x in p.pts} == {tuple(np.round(x, 9) + 0.0) for x in q.pts}


# ------------------------------------------------------------------ graphs
def gr_gen(rng, i):
    b = boxes(rng)
    if len(G.polys(b)) > 18:
        return gr_gen(rng, i)
    ops = []
    for _ in range(rng.randint(1, 3)):
        fl = dict(facing=rng.random() < 0.7, overlapping=rng.random() < 0.4, touching=rng.random() < 0.25)
        ops.append(("get", rng.choice(["polygon", "wall", "solid", "zone"]), fl))
        if rng.random() < 0.4:
            ops.append(("remove", rng.randrange(100)))
        if rng.random() < 0.3:
            ops.append(("add", rng.randrange(100)))
    return dict(b=b, ops=ops)


def relation(b, fl):
    ps = G.polys(b)
    out = set()
    for p, q in itertools.combinations(ps, 2):
        r = (fl["facing"] and faces(p, q)) or (fl["overlapping"] and (p.is_crossing_polygon(q) or q.is_crossing_polygon(p))) or (fl["touching"] and (p.is_touching_polygon(q) or q.is_touching_polygon(p)))
        if r:
            out |= {(p.path, q.path), (q.path, p.path)}
    return out, [p.path for p in ps]


def gr_real(a):
    from building3d.geom.solid.box import box

    b, out = a["b"], []
    for op in a["ops"]:
        if op[0] == "get":
            g = b.get_graph(new=True, level=op[1], **op[2])
            lv = {l: {k: list(v) for k, v in b.get_graph(level=l).items()} for l in ("polygon", "wall", "solid", "zone")}
            rel, paths = relation(b, op[2])
            out.append(dict(level=op[1], g={k: list(v) for k, v in g.items()}, levels=lv, rel=rel, paths=paths))
            # callers may do anything with the answer
            for k in list(g):
                g[k].append("x")
        elif op[0] == "remove":
            z = list(b.zones.values())[op[1] % len(b.zones)]
            if len(z.solids) > 1:
                z.solids.pop(list(z.solids)[-1])
        else:
            z = list(b.zones.values())[0]
            if "new" not in z.solids:
                z.add_solid(box(1.0, 1.0, 1.0, (0.0, -1.0, 0.0), name="new"))
    return out


def cutn(p, n):
    return "/".join(p.split("/")[: 5 - n])


def gr_post(S, a, r, old):
    for x in r:
        lev = {"polygon": 0, "wall": 1, "solid": 2, "zone": 3}
        yield "the graph asked for is the one of that level", x["g"] == x["levels"][x["level"]]
        for l, n in lev.items():
            g = x["levels"][l]
            keys = {cutn(p, n) for p in x["paths"]} if len(x["paths"]) > 1 else set()
            yield f"every object is a key ({l})", set(g) == keys
            yield f"no duplicates ({l})", all(len(v) == len(set(v)) for v in g.values())
            want = {(cutn(p, n), cutn(q, n)) for p, q in x["rel"]}
            want = {(p, q) for p, q in want if p != q}
            got = {(k, q) for k, v in g.items() for q in v}
            yield f"connected exactly when related ({l})", got == want


Contract("graphs", None, ["P14"], gen=gr_gen, ngen=25, real=gr_real, post=gr_post, frame=False,
         functions=[f"{GR}:{n}" for n in ("graph_polygon", "graph_wall", "graph_solid", "graph_zone", "strip_graph", "remove_last", "iter_polygons")] + [f"{BD}:Building.get_graph"])


# strip_graph on arbitrary path graphs
def st_gen(rng, i):
    n = rng.randint(2, 7)
    names = set()
    while len(names) < n:
        names.add("/".join(["b"] + [rng.choice(["x", "y", "xy"]) for _ in range(4)]))
    names = sorted(names)
    rng.shuffle(names)
    g = {p: [] for p in names}
    for p, q in itertools.combinations(names, 2):
        if rng.random() < 0.35:
            g[p].append(q)
            g[q].append(p)
    return dict(g=g, n=rng.randint(0, 3))


def st_post(S, a, r, old):
    n, g = old["n"], old["g"]
    want = {(cutn(p, n), cutn(q, n)) for p in g for q in g[p]}
    yield "keys are the owners", set(r) == {cutn(p, n) for p in g}
    yield "owners are connected exactly when some of their polygons are", {(k, q) for k, v in r.items() for q in v} == {(p, q) for p, q in want if p != q}
    yield "no duplicates", all(len(v) == len(set(v)) for v in r.values())
    yield "the given graph is not changed", a["g"] == old["g"]


Contract("strip_graph", f"{GR}:strip_graph", ["P14"], gen=st_gen, ngen=80, post=st_post)


# ------------------------------------------------------------------ transparent surfaces
def tr_gen(rng, i):
    b = boxes(rng, nz=(1, 3), ns=(1, 3), partial=rng.random() < 0.3)
    ops = [rng.choice(["ask", "ask", "spoil", "add", "remove", "flip", "other", "rename"]) for _ in range(rng.randint(1, 5))] + ["ask"]
    return dict(b=b, ops=ops, k=rng.randrange(100))


def tr_real(a):
    from building3d.geom.solid.box import box

    f = importlib.import_module(FT).find_transparent
    Sim = importlib.import_module("building3d.sim.rays.simulation").Simulation
    conv = importlib.import_module("building3d.io.arrayformat").to_array_format
    b, out = a["b"], []
    for n, op in enumerate(a["ops"]):
        zs = list(b.zones.values())
        z = zs[a["k"] % len(zs)]
        if op == "ask":
            got = f(b)
            want = set()
            for p in G.polys(b):
                for q in G.polys(b):
                    pz, qz = p.path.split("/"), q.path.split("/")
                    if pz[1] == qz[1] and pz[2] != qz[2] and faces(p, q):
                        want.add(p.path)
            conv(b)
            nums = Sim.get_transparent_polygon_numbers(b)
            out.append((set(got), want, set(nums), {p.num for p in G.polys(b) if p.path in want} | {-1}))
        elif op == "spoil":
            s = f(b)
            s.add("x")
            s.discard(next(iter(s)))
        elif op == "add":
            if f"n{n}" not in z.solids:
                z.add_solid(box(1.0, 1.0, 1.0, (0.0, -1.0 - n, 0.0), name=f"n{n}"))
        elif op == "remove" and len(z.solids) > 1:
            z.solids.pop(list(z.solids)[-1])
        elif op == "flip":
            s = list(z.solids.values())[0]
            for w in s.walls.values():
                for k, p in list(w.polygons.items()):
                    w.polygons[k] = p.flip(p.name)
                    w.polygons[k].parent = w
        elif op == "other":
            f(boxes(__import__("random").Random(a["k"]), partial=False))
        elif op == "rename" and len(zs) > 1 and "moved" not in zs[0].solids:
            # a solid moves to another zone
            s = list(zs[-1].solids.values())
            if len(s) > 1:
                x = zs[-1].solids.pop(s[-1].name)
                x.name = "moved"
                zs[0].add_solid(x)
    return out


def tr_post(S, a, r, old):
    for got, want, nums, wn in r:
        yield "exactly the interfaces between solids of one zone", got == want
        yield "their numbers", nums == wn


Contract("find_transparent", None, ["P15"], gen=tr_gen, ngen=30, real=tr_real, post=tr_post, frame=False, functions=[f"{FT}:find_transparent", "building3d.sim.rays.simulation:Simulation.get_transparent_polygon_numbers"])


# ------------------------------------------------------------------ surface parameters
def sp_gen(rng, i):
    b = G.building(rng, 2, 3)
    big = [b] + list(b.zones.values()) + [s for z in b.zones.values() for s in z.solids.values()]
    objs = [b] + list(b.zones.values()) + [s for z in b.zones.values() for s in z.solids.values()]
    objs += [w for s in objs if hasattr(s, "walls") for w in s.walls.values()] + G.polys(b)
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.random()
        o = rng.choice(big) if k < 0.4 else rng.choice(objs) if k < 0.6 else rng.choice(G.polys(b))
        p = o.path
        if rng.random() < 0.25:
            p = rng.choice([p + "/nothing", p + "x", "b/nothing", p + "/0/0", "c" + p[1:], p[: max(1, len(p) - 1)]])
        ops.append((p, rng.choice([0.0, 0.1, 0.5, 0.93])))
    return dict(b=b, ops=ops, default=rng.choice([0.2, 0.35]), preset=rng.random() < 0.3, num=rng.random() < 0.9)


def sp_real(a):
    b = a["b"]
    cfg = importlib.import_module(SC).SimulationConfig(b)
    cfg.verbose = False
    cfg.surfaces["absorption"]["default"] = a["default"]
    cfg.surfaces["other"] = type(cfg.surfaces["absorption"])(default=0.77)
    if a["preset"]:
        cfg.set_default_surface_paths(b)
    paths = [p.path for p in G.polys(b)]
    want = {p: a["default"] for p in paths}
    log = []
    for path, val in a["ops"]:
        try:
            cfg.set_surface_param("absorption", path, val, b)
            exc = None
        except Exception as e:
            exc = type(e).__name__
        below = [p for p in paths if p == path or p.startswith(path + "/")]
        log.append((exc, bool(below), path))
        for p in below:
            want[p] = val
        log[-1] += ({p: cfg.surfaces["absorption"][p] for p in paths} == want, {p: cfg.surfaces["other"][p] for p in paths} == {p: 0.77 for p in paths}, set(cfg.surfaces["absorption"]) <= set(paths) | {"default"} and cfg.surfaces["absorption"]["default"] == a["default"])
    arr = None
    importlib.import_module("building3d.io.arrayformat").to_array_format(b)
    arr = cfg.surface_params_to_array("absorption", b)
    arr2 = cfg.surface_params_to_array("other", b)
    return dict(log=log, arr=arr, arr2=arr2, want=[want[p.path] for p in sorted(G.polys(b), key=lambda p: p.num)])


def sp_post(S, a, r, old):
    for exc, found, path, ok, ok2, ok3 in r["log"]:
        yield "a path of nothing is rejected, a path of something is not", (exc is None) == found
        yield "exactly the polygons below the path get the value", ok
        yield "other parameters are not changed", ok2
        yield "nothing but polygons is set", ok3
    yield "the array holds the value of each polygon at its number", np.array_equal(r["arr"], np.array(r["want"]))
    yield "or the default", np.array_equal(r["arr2"], np.full(len(r["want"]), 0.77))


Contract("surface_params", None, ["P16"], gen=sp_gen, ngen=40, real=sp_real, post=sp_post, frame=False,
         functions=[f"{SC}:SimulationConfig.{n}" for n in ("set_surface_param", "surface_params_to_array", "set_default_surface_paths")] + [f"{SC}:SurfaceParam.__missing__"])


# ------------------------------------------------------------------ point location
VEC = np.array([0.739, 0.239, 0.113])


def pl_gen(rng, i):
    from building3d.geom.solid.floor_plan import floor_plan

    while True:
        p2 = G.shape2d(rng, rng.choice([None, ["L", "U", "T", "square", "Z", "arrow", "star"]]))
        if not G.reflex(p2, 0):
            break
    h = rng.choice([1.0, 2.5])
    o = G.gvec(rng)
    sc = rng.choice([1.0, 0.5, 2.0])
    p2 = [(x * sc, y * sc) for x, y in p2]
    k = rng.randrange(6)
    while True:
        if k == 0:  # on a vertical edge or a corner
            x, y = p2[rng.randrange(len(p2))]
            z = rng.choice([0.0, h, 0.3 * h])
        elif k == 1:  # on a wall
            j = rng.randrange(len(p2))
            t = rng.choice([0.25, 0.5, 0.75])
            (x1, y1), (x2, y2) = p2[j], p2[(j + 1) % len(p2)]
            x, y = x1 + t * (x2 - x1), y1 + t * (y2 - y1)
            z = rng.choice([0.0, h, 0.3 * h])
        else:
            x, y = rng.uniform(-3, 4) * sc, rng.uniform(-3, 4) * sc
            z = rng.choice([0.0, h]) if k == 2 else rng.uniform(0.02, h - 0.02) if k < 5 else rng.choice([-0.5, h + 0.5])
        c, d = PR.in2d(p2, (x, y))
        if k >= 2 and d < 0.01:
            continue
        break
    if k < 2:
        c = 0
    inz = 0 if z in (0.0, h) else 1 if 0 < z < h else -1
    cls = -1 if c < 0 or inz < 0 else (1 if c > 0 and inz > 0 else 0)
    p = o + np.array([x, y, z])
    if k < 2 and i % 2:
        o = np.zeros(3)
        p = np.array([x, y, z])
    sld = floor_plan([(float(x), float(y)) for x, y in p2], h, tuple(float(x) for x in o))
    if k >= 2 and rng.random() < 0.35:
        sld = cut_walls(rng, sld)
    return dict(sld=sld, p=p, cls=cls, k=k)


def cut_walls(rng, sld):
    """vertical walls made of two polygons"""
    Pg = importlib.import_module(PO).Polygon
    for w in list(sld.walls.values()):
        p = next(iter(w.polygons.values()))
        if len(p.pts) == 4 and abs(p.vn[2]) < 1e-9 and rng.random() < 0.8:
            a, b, c, d = (np.array(x) for x in p.pts)
            m1, m2 = (a + b) / 2, (c + d) / 2
            w.replace_polygon(p.name, Pg(np.array([a, m1, m2, d]), name=p.name + "-l"), Pg(np.array([m1, b, c, m2]), name=p.name + "-r"))
    return sld


def pl_real(a):
    return dict(i=a["sld"].is_point_inside(a["p"]), b=a["sld"].is_point_at_boundary(a["p"]))


def pl_exact(a):
    """surface points given by rounded coordinates may be a rounding error away from the surface"""
    return a["cls"] != 0 or min(np.abs(np.dot(np.array(p.vn), a["p"] - p.pts[0])) for w in a["sld"].walls.values() for p in w.polygons.values()) < 2e-14


def pl_post(S, a, r, old):
    c = old["cls"]
    yield "a point strictly inside is inside", c != 1 or bool(r["i"])
    yield "a point outside is not inside", c != -1 or not r["i"]
    if pl_exact(old):
        yield "a point of the surface counts as inside", c != 0 or bool(r["i"])
        yield "exactly the points of the surface are at the boundary", bool(r["b"]) == (c == 0)


Contract("point_in_solid", None, ["P25"], gen=pl_gen, ngen=120, real=pl_real, post=pl_post, frame=False, functions=[f"{SO}:Solid.is_point_inside", f"{SO}:Solid.is_point_at_boundary"])


def lo_gen(rng, i):
    b = boxes(rng, nz=(1, 3), ns=(1, 3))
    ss = [s for z in b.zones.values() for s in z.solids.values()]
    k = i % 3
    s = rng.choice(ss)
    lo, hi = s.bbox()
    if k == 0:
        p = np.array(lo) + (np.array(hi) - np.array(lo)) * np.array([rng.uniform(0.05, 0.95) for _ in range(3)])
    elif k == 1:
        p = np.array([rng.uniform(-0.5, 4.5), rng.uniform(-0.5, 3.5), rng.uniform(-0.5, 3.5)])
    else:
        p = np.array([float(lo[0]), rng.uniform(lo[1], hi[1]), rng.uniform(lo[2], hi[2])])
    hints = [x.path for x in rng.sample(ss, rng.randint(0, len(ss)))] if rng.random() < 0.5 else []
    return dict(b=b, p=p, hints=hints)


def lo_real(a):
    f = importlib.import_module(FL).find_location
    try:
        return f(a["p"], a["b"], *a["hints"])
    except RuntimeError:
        return None


def lo_post(S, a, r, old):
    p = old["p"]

    def cls(s):
        lo, hi = (np.array(x) for x in s.bbox())
        return (p >= lo - 1e-9).all() and (p <= hi + 1e-9).all()

    ss = [s for z in old["b"].zones.values() for s in z.solids.values()]
    cont = [s.path for s in ss if cls(s)]
    yield "a location is found exactly when a solid contains the point", (r is not None) == bool(cont)
    yield "the solid found contains the point", r is None or r in cont


Contract("find_location", None, ["P25"], gen=lo_gen, ngen=50, real=lo_real, post=lo_post, frame=False, functions=[f"{FL}:find_location"])


# the fixed test direction can run through an edge
def le_gen(rng, i):
    from building3d.geom.solid.box import box

    s = box(1.0, 1.0, 1.0)
    v = VEC / np.linalg.norm(VEC)
    e = np.array([1.0, 1.0, rng.choice([0.3, 0.5, 0.75])]) if i % 2 else np.array([1.0, rng.choice([0.4, 0.7]), 1.0])
    p = e - rng.choice([0.25, 0.5]) * v
    return dict(sld=s, p=p, cls=1, k=9)


Contract("point_in_solid_edge", None, ["P25"], gen=le_gen, ngen=8, real=pl_real, post=pl_post, frame=False, functions=[f"{SO}:Solid.is_point_inside"],
         known=[dict(when=lambda a, bad: bad == ["a point strictly inside is inside"], text="a point strictly inside a solid is reported outside when the fixed test direction runs through an edge of the solid (two faces are counted there)")])


# ------------------------------------------------------------------ relations between polygons
def rect(rng, x0, y0, x1, y1, z, n, u, v, o, s, flip):
    p2 = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    k = rng.randrange(4)
    p2 = p2[k:] + p2[:k]
    if flip:
        p2 = p2[::-1]
    return np.array([o + s * (x * u + y * v + z * n) for x, y in p2]), (-n if flip else n)


def rp_gen(rng, i):
    """two rectangles on a grid: same plane, parallel planes or a common edge line"""
    u, v, n = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg"]))
    o, s = G.gvec(rng), rng.choice([1.0, 0.5, 2.0])

    def r():
        x, y = rng.randint(0, 3), rng.randint(0, 3)
        return x, y, x + rng.randint(1, 3), y + rng.randint(1, 3)

    a = r()
    k = rng.randrange(6)
    b = a if k == 0 else r()
    if k == 1 and rng.random() < 0.5:
        # side by side, one of them longer at both ends
        b = (a[0] - rng.randint(1, 2), a[3], a[2] + rng.randint(1, 2), a[3] + rng.randint(1, 2))
        if rng.random() < 0.5:
            a, b = b, a
    z = 0
    f1, f2 = False, rng.random() < 0.5
    p1, n1 = rect(rng, *a, 0, n, u, v, o, s, f1)
    perp = k == 5
    if perp:
        p2, n2 = rect(rng, *b, rng.randint(0, 4), v, n, u, o, s, f2)
    else:
        z = 1 if k == 4 else 0
        p2, n2 = rect(rng, *b, z, n, u, v, o, s, f2)
    return dict(p1=p1, n1=n1, p2=p2, n2=n2, a=a, b=b, z=z, perp=perp, r1=rng.randrange(4), r2=rng.randrange(4))


def rp_real(a):
    Pg = importlib.import_module(PO).Polygon
    x, y = Pg(a["p1"], vn=a["n1"]), Pg(a["p2"], vn=a["n2"])
    x2, y2 = Pg(np.roll(a["p1"], a["r1"], axis=0), vn=a["n1"]), Pg(np.roll(a["p2"], a["r2"], axis=0), vn=a["n2"])
    out = {}
    for nm in ("facing", "crossing", "touching"):
        f = lambda p, q: bool(getattr(p, f"is_{nm}_polygon")(q))
        out[nm] = (f(x, y), f(y, x), f(x2, y2), f(y2, x2))
    return out


def rp_post(S, a, r, old):
    for nm in r:
        yield f"{nm} does not depend on the order", r[nm][0] == r[nm][1] and r[nm][2] == r[nm][3]
        yield f"{nm} does not depend on the starting vertex", r[nm][0] == r[nm][2]
    fc, cr, to = (r[k][0] for k in ("facing", "crossing", "touching"))
    yield "touching excludes crossing", not (to and cr)
    same = {tuple(np.round(x, 9) + 0.0) for x in old["p1"]} == {tuple(np.round(x, 9) + 0.0) for x in old["p2"]}
    yield "facing is having the same vertices and opposite normals", fc == (same and np.allclose(old["n1"], -old["n2"]))
    if not old["perp"]:
        (x0, y0, x1, y1), (X0, Y0, X1, Y1) = old["a"], old["b"]
        ox, oy = min(x1, X1) - max(x0, X0), min(y1, Y1) - max(y0, Y0)
        if old["z"]:
            yield "polygons in parallel planes are not related", not (fc or cr or to)
        elif ox < 0 or oy < 0:
            yield "separate polygons are not related", not (fc or cr or to)
        elif ox == 0 or oy == 0:
            yield "polygons with only border points in common touch and do not cross", to and not cr
        elif same:
            yield "identical polygons do not cross", not cr and not to
        else:
            yield "overlapping polygons do not touch", not to
            inside = lambda p, q: p[0] <= q[0] and p[1] <= q[1] and p[2] >= q[2] and p[3] >= q[3]
            if not inside(old["a"], old["b"]) and not inside(old["b"], old["a"]):
                share = lambda p: {(p[0], p[1]), (p[2], p[1]), (p[2], p[3]), (p[0], p[3])}
                if not share(old["a"]) & share(old["b"]):
                    yield "partly overlapping polygons cross", cr
            if (x0 < X0 and y0 < Y0 and x1 > X1 and y1 > Y1) or (X0 < x0 and Y0 < y0 and X1 > x1 and Y1 > y1):
                yield "a polygon completely inside another one does not cross it", not cr
    else:
        yield "polygons in different planes do not cross", not cr and not fc


Contract("polygon_relations", None, ["P26"], gen=rp_gen, ngen=200, real=rp_real, post=rp_post, frame=False,
         functions=[f"{PO}.facing:are_polygons_facing", f"{PO}.crossing:are_polygons_crossing", f"{PO}.touching:are_polygons_touching", f"{PO}:Polygon.is_facing_polygon", f"{PO}:Polygon.is_crossing_polygon", f"{PO}:Polygon.is_touching_polygon"])


def rg_gen(rng, i):
    """polygons of any shape: rolled, reversed, shifted copies"""
    while True:
        p2 = G.shape2d(rng)
        if not G.reflex(p2, 0):
            break
    u, v, n = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg"]))
    k = rng.randrange(5)
    m = len(p2)
    q2 = list(p2)
    same = True
    if k == 1:
        j = rng.randrange(m)
        q2[j] = (q2[j][0] + 5.25, q2[j][1] + 0.1)
        same = False
    elif k == 2:
        q2 = [(x + 11.0, y) for x, y in q2]
        same = False
    elif k == 3:  # the same outline with one vertex more
        j = rng.randrange(1, m)
        q2[j:j] = [((q2[j - 1][0] + q2[j][0]) / 2, (q2[j - 1][1] + q2[j][1]) / 2)]
        same = False
    if i % 5 == 2:  # the same points in another order, the areas a few percent apart or less
        x, d, h = rng.uniform(4, 6), rng.uniform(0.1, 0.4), rng.uniform(0.3, 0.6)
        b1, b2, sq = (x, 10 - h), (x + d, 10 - rng.uniform(0.9, 1.3)), [(0.0, 0.0), (10.0, 0.0), (10.0, 10.0)]
        p2, q2, same = sq + [b1, b2, (0.0, 10.0)], sq + [b2, b1, (0.0, 10.0)], False
        m = 6
    r1, r2 = rng.randrange(m), rng.randrange(len(q2))
    if rng.random() < 0.5:
        p2, q2 = q2, p2
    P1 = np.array([x * u + y * v for x, y in p2])
    P2 = np.array([x * u + y * v for x, y in q2])
    opp = rng.random() < 0.6
    return dict(p1=P1, n1=n, p2=P2[::-1] if opp else P2, n2=-n if opp else n, same=same, opp=opp, r1=r1, r2=r2)


def rg_real(a):
    f = importlib.import_module(PO + ".facing").are_polygons_facing
    A, B = np.ascontiguousarray(np.roll(a["p1"], a["r1"], axis=0)), np.ascontiguousarray(np.roll(a["p2"], a["r2"], axis=0))
    return bool(f(a["p1"], a["n1"], np.ascontiguousarray(a["p2"]), a["n2"])), bool(f(A, a["n1"], B, a["n2"])), bool(f(B, a["n2"], A, a["n1"]))


Contract("facing_any_shape", None, ["P26"], gen=rg_gen, ngen=100, real=rg_real, functions=[f"{PO}.facing:are_polygons_facing"],
         post=lambda S, a, r, old: [("facing is having the same outline and opposite normals, for any order and starting vertex", r == (old["same"] and old["opp"],) * 3)])
