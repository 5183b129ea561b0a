"""Voxel grid, ray targets, ray steps, simulations, impulse response."""
import importlib
import math
import os

from contracts import files as CF
from contracts import predicates as PR
import numpy as np

from pyvc import gen as G
from pyvc.contract import Contract

VG = "building3d.sim.rays.voxel_grid"
FN = "building3d.sim.rays.find_nearby_polygons"
FT = "building3d.sim.rays.find_target"
SL = "building3d.sim.rays.simulation_loop"
SI = "building3d.sim.rays.simulation"
SC = "building3d.sim.rays.simulation_config"
IR = "building3d.sim.rays.impulse_response"


# ------------------------------------------------------------------ voxel grid
def vg_gen(rng, i):
    step = rng.choice([0.3, 0.5, 1.0, 0.7, 2.0])
    off = rng.choice([0.0, 0.0, -3.0, 2.0, -1.3])
    if i % 3 == 0:
        w, d, h = (rng.choice([0.5, 1.0, 1.7, 2.0]) for _ in range(3))
        from building3d.geom.solid.box import box

        s = box(w, d, h, (off, off, rng.choice([0.0, -0.5])))
        ps = [p.pts for x in s.walls.values() for p in x.polygons.values()]
    else:
        ps = [G.polygon3d(rng, scale=rng.choice([0.3, 0.5, 1.0]), origin=G.gvec(rng, 2) + off)[0] for _ in range(rng.randint(1, 5))]
    a = np.vstack(ps)
    lo, hi = a.min(axis=0), a.max(axis=0)
    if np.prod((hi - lo) / step + 3) > 3000:
        step = 1.0
    q = [tuple(lo + (hi - lo) * np.array([rng.random() for _ in range(3)])) for _ in range(10)] + [tuple(lo), tuple(hi)]
    q += [tuple(p[rng.randrange(len(p))]) for p in ps]
    return dict(poly_pts=ps, lo=tuple(float(x) for x in lo), hi=tuple(float(x) for x in hi), step=step, q=q)


def vg_real(a):
    m = importlib.import_module(VG)
    return m.make_voxel_grid(min_xyz=a["lo"], max_xyz=a["hi"], poly_pts=a["poly_pts"], step=a["step"], verbose=False)


def vg_post(S, a, r, old):
    st = old["step"]
    bb = [(p.min(axis=0), p.max(axis=0)) for p in old["poly_pts"]]
    ok = okn = okf = True
    for key, nums in r.items():
        lo = np.array(key) * st
        nums = [int(x) for x in nums]
        okn = okn and len(set(nums)) == len(nums) and all(0 <= x < len(bb) for x in nums)
        for k, (bl, bh) in enumerate(bb):
            if (bh >= lo + 1e-9).all() and (bl <= lo + st - 1e-9).all():
                ok = ok and k in nums
            if (bh < lo - 2 * st).any() or (bl > lo + 3 * st).any():
                okf = okf and k not in nums
    yield "a polygon is listed in every cell its bounding box meets", ok
    yield "no invalid or repeated numbers", okn
    yield "far polygons are not listed", okf
    yield "every cell of the extent exists", all(tuple(int(math.floor(x / st)) for x in q) in r for q in old["q"])
    yield "keys are cells", all(isinstance(k, tuple) and len(k) == 3 for k in r)


Contract("make_voxel_grid", None, ["P17"], gen=vg_gen, ngen=40, real=vg_real, post=vg_post, functions=[f"{VG}:make_voxel_grid"], frame=False)


def vx_gen(rng, i):
    a = vg_gen(rng, i)
    del a["q"]
    a["poly_pts"][-1] = a["poly_pts"][-1] + (np.array(a["hi"]) - np.array(a["lo"])) + 10 * a["step"] + 5
    return a


Contract("make_voxel_grid_rejects", None, ["P17"], gen=vx_gen, ngen=8, real=vg_real, raises=lambda S, old, e: e == "ValueError",
         post=lambda S, a, r, old: [("a polygon outside the extent is rejected", False)], functions=[f"{VG}:make_voxel_grid"], frame=False)


def nb_gen(rng, i):
    grid = {}
    for x in range(-2, 3):
        for y in range(-2, 3):
            for z in range(-2, 3):
                if rng.random() < 0.6:
                    grid[(x, y, z)] = np.array(sorted(rng.sample(range(400), rng.choice([0, 1, 2, 3]))), dtype=np.int32)
    return dict(x=rng.randint(-3, 3), y=rng.randint(-3, 3), z=rng.randint(-3, 3), grid=grid)


def nb_post(S, a, r, old):
    want = set()
    for (x, y, z), v in old["grid"].items():
        if abs(x - old["x"]) <= 1 and abs(y - old["y"]) <= 1 and abs(z - old["z"]) <= 1:
            want |= {int(k) for k in v}
    yield "exactly the polygons of the cell and its neighbours", {int(k) for k in r} == want
    yield "the grid is not changed", set(a["grid"]) == set(old["grid"]) and all(np.array_equal(a["grid"][k], old["grid"][k]) for k in old["grid"])


Contract("find_nearby_polygons_runtime", f"{FN}:find_nearby_polygons", ["P17"], gen=nb_gen, ngen=60, post=nb_post)


# ------------------------------------------------------------------ targets
def hit(pos, d, pts, n):
    """does the half line meet the polygon: True/False, None when too close to call"""
    den = float(np.dot(n, d)) / np.linalg.norm(d)
    h = float(np.dot(n, pts[0] - pos))
    if abs(den) < 0.02:
        return None
    s = h / den
    if abs(s) < 1e-6:
        return None
    if s < 0:
        return False
    x = pos + s * d / np.linalg.norm(d)
    u = pts[1] - pts[0]
    u = u / np.linalg.norm(u)
    v = np.cross(n, u)
    c, dm = PR.in2d([(float(np.dot(p - pts[0], u)), float(np.dot(p - pts[0], v))) for p in pts], (float(np.dot(x - pts[0], u)), float(np.dot(x - pts[0], v))))
    if dm < 2e-3:
        return None
    return c > 0


def dist_pp(pos, pts, n):
    h = float(np.dot(n, pos - pts[0]))
    u = pts[1] - pts[0]
    u = u / np.linalg.norm(u)
    v = np.cross(n, u)
    c, dm = PR.in2d([(float(np.dot(p - pts[0], u)), float(np.dot(p - pts[0], v))) for p in pts], (float(np.dot(pos - pts[0], u)), float(np.dot(pos - pts[0], v))))
    return abs(h) if c >= 0 else math.hypot(h, dm)


def ft_gen(rng, i):
    from building3d.geom.triangles import triangulate

    while True:
        if i % 2 == 0:  # parallel surfaces in front and behind
            u, v, n = G.frame(rng)
            ps = []
            for k in range(rng.randint(2, 5)):
                p2 = [(-1.5, -1.5), (1.5, -1.5), (1.5, 1.5), (-1.5, 1.5)]
                j = rng.randrange(4)
                p2 = p2[j:] + p2[:j]
                z = rng.choice([-2.0, -1.0, 0.5, 1.0, 1.5, 2.5, 3.0]) + 0.01 * k
                sg = rng.choice([1, -1])
                ps.append((np.array([x * u + sg * y * v + z * n for x, y in p2]), sg * n))
            pos = rng.uniform(-0.3, 0.3) * u + rng.uniform(-0.3, 0.3) * v
            d = n + rng.uniform(-0.3, 0.3) * u + rng.uniform(-0.3, 0.3) * v
        else:
            ps = [G.polygon3d(rng, first_convex=True, origin=G.rvec(rng, -1, 1)) for _ in range(rng.randint(1, 6))]
            pos, d = G.rvec(rng, -2, 2), G.rvec(rng, -1, 1)
        if np.linalg.norm(d) < 0.2:
            continue
        hits = [hit(pos, d, p, n) for p, n in ps]
        ds = sorted(dist_pp(pos, p, n) for (p, n), h in zip(ps, hits) if h)
        if any(h is None for h in hits) or any(b - a < 1e-3 for a, b in zip(ds, ds[1:])):
            continue
        break
    k = len(ps)
    trans = set(rng.sample(range(k), rng.choice([0, 0, 1, min(2, k)]))) | (set() if rng.random() < 0.5 else {-1})
    check = [j for j in range(k) if rng.random() < 0.9]
    rng.shuffle(check)
    return dict(pos=pos, direction=d * rng.choice([1.0, 343.0]), poly_pts=[p for p, n in ps], poly_tri=[triangulate(p, n)[1] for p, n in ps], transparent_polygons=trans, polygons_to_check=set(check), normals=[n for p, n in ps], hits=hits, perm=rng.sample(range(k), k))


def ft_real(a):
    f = importlib.import_module(FT).find_target_surface
    r = f(a["pos"], a["direction"], a["poly_pts"], a["poly_tri"], a["transparent_polygons"], a["polygons_to_check"])
    # the same surfaces with other numbers
    p = a["perm"]
    inv = {x: j for j, x in enumerate(p)}
    r2 = f(a["pos"], a["direction"], [a["poly_pts"][x] for x in p], [a["poly_tri"][x] for x in p], {inv.get(x, -1) for x in a["transparent_polygons"]}, {inv[x] for x in a["polygons_to_check"]})
    return int(r), (p[int(r2)] if r2 >= 0 else -1)


def ft_post(S, a, r, old):
    el = [k for k in old["polygons_to_check"] if k not in old["transparent_polygons"] and old["hits"][k]]
    for nm, x in (("", r[0]), (" (renumbered)", r[1])):
        yield f"no target exactly when no eligible polygon is hit{nm}", (x == -1) == (not el)
        if x != -1 and el:
            yield f"the target is an eligible polygon that is hit{nm}", x in el
            if x in el:
                dd = [dist_pp(old["pos"], old["poly_pts"][k], old["normals"][k]) for k in el]
                yield f"no eligible polygon that is hit is closer{nm}", dist_pp(old["pos"], old["poly_pts"][x], old["normals"][x]) <= min(dd) + 1e-9
    yield "the given sets are not changed", a["transparent_polygons"] == old["transparent_polygons"] and a["polygons_to_check"] == old["polygons_to_check"]


Contract("find_target_runtime", None, ["P18"], gen=ft_gen, ngen=120, real=ft_real, post=ft_post, functions=[f"{FT}:find_target_surface"])


# ------------------------------------------------------------------ ray steps
def room(rng):
    """a closed room, possibly of several solids / zones; walls parallel to the axes"""
    from building3d.geom.building import Building
    from building3d.geom.solid.box import box
    from building3d.geom.solid.floor_plan import floor_plan
    from building3d.geom.zone import Zone

    k = rng.randrange(4)
    o = (rng.choice([0.0, -0.5, 1.0]), rng.choice([0.0, -0.25]), rng.choice([0.0, -1.0]))
    if k == 0:
        w, d, h = rng.choice([0.5, 1.0]), rng.choice([0.6, 1.0]), rng.choice([0.5, 1.0])
        sol, zones = [box(w, d, h, o)], None
        src = (o[0] + 0.4 * w, o[1] + 0.45 * d, o[2] + 0.55 * h)
    elif k == 1:
        sol = [floor_plan([(0, 0), (1, 0), (1, 0.5), (0.5, 0.5), (0.5, 1), (0, 1)], 0.5, o)]
        src, zones = (o[0] + 0.3, o[1] + 0.3, o[2] + 0.2), None
    else:
        a, b = box(0.5, 0.5, 0.5, o, name="a"), box(0.5, 0.5, 0.5, (o[0] + 0.5, o[1], o[2]), name="b")
        src = (o[0] + 0.2, o[1] + 0.3, o[2] + 0.25)
        zones = [Zone([a, b], name="z")] if k == 2 else [Zone([a], name="z"), Zone([b], name="y")]
    b = Building(zones or [Zone(sol, name="z")], name="b")
    return b, np.array(src)


def sl_gen(rng, i):
    b, src = room(rng)
    nr = rng.randint(1, 4)
    speed, dt = rng.choice([(343.0, 2.5e-4), (10.0, 0.01), (1.0, 0.05)])
    pos = np.array([src + 0.05 * G.rvec(rng, -1, 1) for _ in range(nr)])
    if rng.random() < 0.3:
        pos[0] = src + np.array([50.0, 0, 0])  # outside
    vel = np.array([G.rvec(rng, -1, 1) for _ in range(nr)])
    vel *= speed / np.linalg.norm(vel, axis=1)[:, None]
    en = np.array([rng.choice([1.0, 1.0, 0.35, 0.0, 1e-8, 0.8]) for _ in range(nr)])
    na = rng.randint(0, 2)
    ab = np.array([src + np.array([0.12 * (k + 1), 0.1, 0.05 * k]) for k in range(na)]).reshape(na, 3)
    npoly = len(G.polys(b))
    absn = np.array([rng.choice([0.0, 0.05, 0.1, 0.013 * (k % 7 + 1), 0.3]) for k in range(npoly)])
    return dict(b=b, nr=nr, speed=speed, dt=dt, pos=pos, vel=vel, en=en, ab=ab, rad=0.07, absn=absn, steps=rng.randint(1, 14), step=rng.choice([0.1, 0.25]), split=rng.random() < 0.5)


def sl_run(b, a, steps, pos, vel, en, hits, grid=None):
    from building3d.io.arrayformat import to_array_format

    sl = importlib.import_module(SL)
    from building3d.sim.rays.simulation import Simulation

    pts, faces, polygons, walls, _, _ = to_array_format(b)
    poly_pts = [p.pts for p in G.polys(b)]
    if grid is None:
        grid = importlib.import_module(VG).make_voxel_grid(min_xyz=tuple(pts.min(axis=0)), max_xyz=tuple(pts.max(axis=0)), poly_pts=poly_pts, step=a["step"], verbose=False)
    tr = Simulation.get_transparent_polygon_numbers(b)
    return sl.simulation_loop(init_step=0, num_steps=steps, num_rays=a["nr"], ray_speed=a["speed"], time_step=a["dt"], grid_step=a["step"], grid=grid, position=pos, velocity=vel, energy=en, hits=hits,
                              absorbers=a["ab"], absorber_radius=a["rad"], points=pts, faces=faces, polygons=polygons, walls=walls, transparent_polygons=tr, surf_absorption=a["absn"].copy(), verbose=False), tr


def sl_real(a):
    vel = a["vel"].copy()
    (p, e, h), tr = sl_run(a["b"], a, a["steps"], a["pos"].copy(), vel, a["en"].copy(), np.zeros(len(a["ab"])))
    return dict(p=p, e=e, h=h, v=vel, tr=tr)


def sl_post(S, a, r, old):
    P, E, H = r["p"], r["e"], r["h"]
    n, nr, eps = a["steps"], a["nr"], 1e-6
    L = a["speed"] * a["dt"]
    polys = G.polys(a["b"])
    allp = np.vstack([p.pts for p in polys])
    lo, hi = allp.min(axis=0), allp.max(axis=0)
    yield "one state per step and the initial one", P.shape == (n + 1, nr, 3) and E.shape == (n + 1, nr) and H.shape == (n + 1, len(a["ab"]))
    yield "the initial state is recorded", np.array_equal(P[0], old["pos"]) and np.array_equal(E[0], old["en"]) and not H[0].any()
    yield "energy never grows and never becomes negative", bool((E[1:] <= E[:-1]).all() and (E >= 0).all())
    v = old["vel"].copy()
    okm = okd = oke = oks = okb = okr = True
    for i in range(n):
        want = np.zeros(len(a["ab"]))
        for k in range(nr):
            e0, e1, p0, p1 = E[i, k], E[i + 1, k], P[i, k], P[i + 1, k]
            d = p1 - p0
            if e0 <= eps:
                okd = okd and not d.any() and e1 == e0
                continue
            dab = [np.linalg.norm(p0 - x) for x in a["ab"]]
            near = [j for j, x in enumerate(dab) if x < a["rad"]]
            if near:
                want[near[0]] += e0
                okb = okb and e1 == 0.0 and not d.any()
                continue
            if (p0 < lo - 1e-3).any() or (p0 > hi + 1e-3).any():
                oks = oks and e1 == 0.0 and not d.any()
                continue
            if e1 <= eps:
                okm = okm and not d.any()
                oke = oke and (e1 == 0.0)
                # exhausted by surfaces in reach
                cand = [a["absn"][j] for j, p in enumerate(polys) if j not in r["tr"] and dist_pp(p0, p.pts, np.array(p.vn)) < 1.02 * L]
                oke = oke and sum(cand) >= e0 - 2 * eps
                continue
            okm = okm and abs(np.linalg.norm(d) - L) <= 1e-6 * L
            # mirrored directions
            dn = d / a["dt"]
            flips = [x for x in range(3) if abs(dn[x] + v[k][x]) < 1e-5 * a["speed"] and abs(v[k][x]) > 1e-4 * a["speed"]]
            keep = [x for x in range(3) if x not in flips]
            okr = okr and all(abs(dn[x] - v[k][x]) < 1e-5 * a["speed"] for x in keep)
            # the loss is what the mirroring surfaces take
            losses = {0.0}
            okf = True
            for x in flips:
                c = {float(a["absn"][j]) for j, p in enumerate(polys) if j not in r["tr"] and abs(abs(p.vn[x]) - 1) < 1e-9 and (p.pts[0][x] - p0[x]) * v[k][x] >= -1e-9 and dist_pp(p0, p.pts, np.array(p.vn)) < 1.02 * L}
                okf = okf and bool(c)
                losses = {s + t for s in losses for t in c}
            okr = okr and okf
            oke = oke and any(abs(e0 - e1 - s) < 1e-9 for s in losses)
            v[k] = dn
        okb = okb and np.allclose(H[i + 1], want, atol=1e-9)
    yield "a ray with energy moves by its speed times the time step", okm
    yield "a ray without energy keeps its state", okd
    yield "the lost energy is the absorption of the surfaces reflected from", oke
    yield "escaped rays end at zero and stay", oks
    yield "absorbers are credited with the energy of the rays they end", okb
    yield "directions change only by mirror reflection at opaque surfaces within reach", okr
    yield "the speed is kept", np.allclose(np.linalg.norm(r["v"], axis=1), a["speed"], rtol=1e-9)


Contract("simulation_loop_runtime", None, ["P19"], gen=sl_gen, ngen=80, real=sl_real, post=sl_post, functions=[f"{SL}:simulation_loop"], frame=False)


# ------------------------------------------------------------------ simulations in batches
def sm_gen(rng, i):
    b, src = room(rng)
    n = rng.choice([4, 6, 12])
    sizes = rng.sample([k for k in range(1, n + 1) if n % k == 0], 2)
    return dict(b=b, src=tuple(float(x) for x in src), n=n, sizes=sizes, seed=rng.randrange(10**6), nr=rng.randint(1, 6), rad=rng.choice([0.05, 0.15, 0.3]),
                ab=[tuple(float(c) for c in src + rng.choice([0.12, 0.2, 0.3]) * G.runit(rng)) for _ in range(rng.randint(1, 2))] if rng.random() < 0.7 else [], transp=rng.random() < 0.8, dt=rng.choice([2.5e-4, 4e-4]), speed=rng.choice([343.0, 343.0, 250.0]), spread=i % 6 == 0, empty=rng.random() < 0.3)


def sm_real(a):
    Sim = importlib.import_module(SI).Simulation
    Cfg = importlib.import_module(SC).SimulationConfig
    read = importlib.import_module("building3d.sim.rays.dump_buffers").read_buffers

    def go(d):
        out = []
        for k in a["sizes"]:
            cfg = Cfg(a["b"])
            cfg.verbose = False
            cfg.engine.update(time_step=a["dt"], num_steps=a["n"], batch_size=k, voxel_size=0.25, search_transparent=a["transp"])
            cfg.rays.update(num_rays=a["nr"], ray_speed=a["speed"], source=a["src"], absorbers=a["ab"], absorber_radius=a["rad"])
            cfg.paths["project_dir"] = os.path.join(d, str(k))
            cfg.paths["buffer_dir"] = os.path.join(d, str(k), "states")
            if a["empty"]:
                os.makedirs(cfg.paths["buffer_dir"])
            sim = Sim(a["b"], cfg)
            np.random.seed(a["seed"])
            last = sim.run()
            names = sorted(os.listdir(cfg.paths["buffer_dir"]))
            rec = read(cfg.paths["buffer_dir"], cfg)
            before = {f: open(os.path.join(cfg.paths["buffer_dir"], f), "rb").read() for f in names}
            try:
                Sim(a["b"], cfg)
                again = None
            except Exception as e:
                again = type(e).__name__
            after = {f: open(os.path.join(cfg.paths["buffer_dir"], f), "rb").read() for f in sorted(os.listdir(cfg.paths["buffer_dir"]))}
            out.append(dict(last=last, names=names, rec=rec, again=again, kept=before == after, k=k))
        if a["spread"]:
            # many rays for one step
            cfg.engine.update(num_steps=1, batch_size=1)
            cfg.rays.update(num_rays=160, absorbers=[])
            cfg.paths["buffer_dir"] = os.path.join(d, "spread")
            p = Sim(a["b"], cfg).run()[0]
            out[0]["octants"] = len({tuple(x) for x in np.sign(p[1] - p[0])} - {(0.0, 0.0, 0.0)})
        return out

    return CF.scratch(go)


def sm_post(S, a, r, old):
    want = sorted(f"{q}_{k}.npy" for q in ("energy", "hits", "position") for k in range(a["n"] + 1))
    for x in r:
        yield "one file per state and quantity", x["names"] == want
        yield "a simulation refuses to start over existing records", x["again"] == "RuntimeError" and x["kept"]
        p, e, h = x["rec"]
        yield "shapes of the history", p.shape == (a["n"] + 1, a["nr"], 3) and e.shape == (a["n"] + 1, a["nr"]) and h.shape == (a["n"] + 1, len(a["ab"]))
        k = x["k"]
        yield "the returned buffers are the last batch", np.array_equal(x["last"][0], p[-k - 1 :]) and np.array_equal(x["last"][1], e[-k - 1 :]) and np.array_equal(x["last"][2], h[-k - 1 :])
        yield "rays start at the source with full energy", np.allclose(p[0], a["src"]) and (e[0] == 1.0).all()
        d = np.linalg.norm(p[1:] - p[:-1], axis=2)
        live = e[1:] > 1e-6
        yield "every live ray moves by speed times time step in every step", np.allclose(d[live], a["speed"] * a["dt"], rtol=1e-6) and not d[~live].any()
    if "octants" in r[0]:
        yield "rays leave the source to all sides", r[0]["octants"] == 8
    for nm, j in (("positions", 0), ("energies", 1), ("hits", 2)):
        yield f"{nm} do not depend on the batch size", np.allclose(r[0]["rec"][j], r[1]["rec"][j], atol=1e-7)


Contract("simulation_batches", None, ["P20"], gen=sm_gen, ngen=24, real=sm_real, post=sm_post, functions=[f"{SI}:Simulation.__init__", f"{SI}:Simulation.run", f"{SI}:Simulation.make_dirs", f"{SL}:simulation_loop"], frame=False)


# ------------------------------------------------------------------ impulse response
def ir_gen(rng, i):
    n, m = rng.randint(1, 12), rng.randint(1, 3)
    h = np.array([[rng.choice([0.0, rng.uniform(0, 5)]) for _ in range(m)] for _ in range(n)])
    h[rng.randrange(n), rng.randrange(m)] += 1.0
    return dict(h=h, dt=rng.choice([2.5e-5, 1e-3, 0.1]))


def ir_real(a):
    class C:
        engine = {"time_step": a["dt"]}

    r = importlib.import_module(IR).impulse_response(a["h"], C())
    return dict(t=np.array(r.index, dtype=float), v=r.to_numpy(dtype=float), cols=list(r.columns))


def ir_post(S, a, r, old):
    h = old["h"]
    yield "one row per recorded step, at its time", np.allclose(r["t"], np.arange(len(h)) * old["dt"], rtol=1e-9, atol=0)
    yield "one column per absorber", r["cols"] == list(range(h.shape[1])) and r["v"].shape == h.shape
    yield "values are the hits divided by the largest total of an absorber", np.allclose(r["v"], h / h.sum(axis=0).max(), rtol=1e-12)


Contract("impulse_response", None, ["P27"], gen=ir_gen, ngen=40, real=ir_real, post=ir_post, functions=[f"{IR}:impulse_response"])
