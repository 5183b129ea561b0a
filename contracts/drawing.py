"""Drawings: trails of rays, frames of movies, plotted objects."""
import random
from pathlib import PurePath

import numpy as np
from contracts import graphs as GR

from pyvc import symobj as so
from pyvc.contract import Contract, expect
from pyvc.interp import Builtin
from pyvc.values import CArr, PyDict, PyList, Unsupported

MV = "building3d.sim.rays.movie_from_buffer"
RB = "building3d.sim.rays.ray_buff_plotter"
PO = "building3d.display.plot_objects"


def nums(x):
    """nested lists of the entries"""
    if isinstance(x, CArr):
        return x.a.tolist()
    if isinstance(x, PyList):
        return [nums(y) for y in x.items]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [nums(y) for y in x]
    return x


def near(S, x, y, tol):
    return S.eq(x, y) if S.sym else abs(x - y) <= tol


# ------------------------------------------------------------------ stand-in for the drawing library
class SymMesh:
    """pyvista.PolyData: points, faces, lines and values at the points"""

    def __init__(self, points=None, faces=None, lines=None):
        self.d = dict(points=points, faces=faces, lines=lines)
        self.at = {}

    def _vc_attr(self, I, nm):
        if nm in self.d:
            return self.d[nm]
        if nm == "set_active_scalars":
            return Builtin(nm, lambda I, *a, **k: None)
        if nm == "point_data":
            return self
        raise Unsupported(f"PolyData.{nm}")

    def _vc_setattr(self, I, nm, v):
        expect(nm in self.d, f"PolyData.{nm}")
        self.d[nm] = v

    def _vc_setitem(self, I, k, v):
        self.at[k] = v

    def _vc_getitem(self, I, k):
        return self.at[k]

    def shot(self):
        f = lambda x: None if x is None else nums(x)
        return dict(points=f(self.d["points"]), faces=f(self.d["faces"]), lines=f(self.d["lines"]), energy=f(self.at.get("energy")))


class FilePath:
    _vc_immutable = True

    def __init__(self, p):
        expect(isinstance(p, str))
        self.p = p

    def _vc_attr(self, I, nm):
        if nm in ("suffix", "name", "stem"):
            return getattr(PurePath(self.p), nm)
        if nm == "parent":
            return FilePath(str(PurePath(self.p).parent))
        if nm in ("exists", "is_dir"):
            return Builtin(nm, lambda I: True)
        if nm == "mkdir":
            return Builtin(nm, lambda I, **k: None)
        raise Unsupported(f"Path.{nm}")


class SymPlotter:
    QUIET = ("open_gif", "open_movie", "close", "show", "set_background", "reset_camera", "add_axes")

    def __init__(self, log):
        self.meshes, self.log = [], log

    def _vc_attr(self, I, nm):
        if nm == "add_mesh":
            return Builtin(nm, lambda I, m, **k: self.meshes.append((m, k.get("color"))))
        if nm == "write_frame":
            return Builtin(nm, lambda I: self.log["frames"].append([(m.shot(), c) for m, c in self.meshes]))
        if nm in self.QUIET:
            return Builtin(nm, lambda I, *a, **k: None)
        raise Unsupported(f"Plotter.{nm}")


def setup(S, I):
    log = S.c.ghost["drawn"] = dict(frames=[], plotters=[])

    def plotter(I, *a, **k):
        p = SymPlotter(log)
        log["plotters"].append(p)
        return p

    I.ext_models["pyvista.Plotter"] = plotter
    I.ext_models["pathlib.Path"] = lambda I, p: FilePath(p)
    I.ext_models["pyvista.PolyData"] = lambda I, points=None, faces=None, lines=None: SymMesh(points, faces, lines)


class RealPlotter:
    """records what it is asked to draw"""

    log = None

    def __init__(self, *a, **k):
        self.meshes = []
        self.log["plotters"].append(self)

    def add_mesh(self, m, **k):
        self.meshes.append((m, k.get("color")))

    def write_frame(self):
        self.log["frames"].append([(real_shot(m), c) for m, c in self.meshes])

    def __getattr__(self, nm):
        return lambda *a, **k: None


def real_shot(m):
    e = m.point_data["energy"] if "energy" in m.point_data else None
    cells = lambda x: None if x is None or not len(x) else [int(i) for i in x]
    return dict(points=np.array(m.points, float), faces=cells(m.faces), lines=cells(m.lines), energy=None if e is None else np.array(e, float))


class drawing:
    """the real drawing library with a plotter that only records"""

    def __enter__(self):
        import pyvista as pv

        self.pv, self.old = pv, pv.Plotter
        log = dict(frames=[], plotters=[])
        pv.Plotter = type("Recorder", (RealPlotter,), {"log": log})
        return log

    def __exit__(self, *a):
        self.pv.Plotter = self.old


# ------------------------------------------------------------------ reading the connectivity
def split(cells):
    """[n, i, j, ..., m, ...] -> lists of indices"""
    out, k = [], 0
    while k < len(cells):
        n = int(cells[k])
        ix = [int(i) for i in cells[k + 1 : k + 1 + n]]
        if n < 1 or len(ix) != n:
            return None
        out.append(ix)
        k += 1 + n
    return out


def trails(S, verts, lines, P, lo, hi, E=None, energy=None):
    """the lines are the positions of the rays in states lo..hi-1, ray by ray in some order"""
    rays = range(len(P[0]))
    if lines is None or verts is None or len(lines) != len(rays) or any(len(ix) != hi - lo or not all(0 <= i < len(verts) for i in ix) for ix in lines):
        return False
    if energy is not None and len(energy) != len(verts):
        return False

    def same(ix, r):
        out = [near(S, verts[ix[k]][d], P[lo + k][r][d], 1e-5) for k in range(hi - lo) for d in range(3)]
        if energy is not None:
            out += [near(S, energy[ix[k]], E[lo + k][r], 1e-5) for k in range(hi - lo)]
        return S.And(*out)

    return S.And(*[S.Or(*[same(ix, r) for ix in lines]) for r in rays])


def rec(S, T, n):
    return S.arr("pos", (T, n, 3)), S.arr("enr", (T, n))


# ------------------------------------------------------------------ trails
def tr_inputs(T, n):
    def f(S):
        p, e = rec(S, T, n)
        return dict(p=p, e=e)

    return f


def tr_gen(rng, i):
    T, n = rng.randint(1, 6), rng.randint(1, 5)
    r = np.random.RandomState(rng.randrange(1 << 30))
    return dict(p=r.uniform(-5, 5, (T, n, 3)), e=r.uniform(0, 1, (T, n)))


def tr_invoke(S, I, a):
    f = I.call(so.cls(I, f"{MV}:position_buffer_to_lines"), [a["p"]])
    q = I.call(so.cls(I, f"{RB}:RayBuffPlotter"), [None, a["p"], a["e"]])
    return dict(f=f, lines=I.call(I.getattr(q, "get_lines"), []), points=I.call(I.getattr(q, "get_points"), []))


def tr_real(a):
    from building3d.sim.rays.movie_from_buffer import position_buffer_to_lines
    from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter

    q = RayBuffPlotter(None, a["p"], a["e"])
    return dict(f=position_buffer_to_lines(a["p"]), lines=q.get_lines(), points=q.get_points())


def tr_post(S, a, r, old):
    P = nums(old["p"])
    T = len(P)
    v, c = (nums(x) for x in r["f"])
    yield "one line per ray through its positions in order", trails(S, v, split(c), P, 0, T)
    v, c = (nums(x) for x in r["lines"])
    yield "plotted lines join the positions of one ray in order", trails(S, v, [[int(i) for i in l] for l in c], P, 0, T)
    q = nums(r["points"])
    yield "points are the last positions", S.And(len(q) == len(P[0]), *[near(S, x, y, 1e-5) for u, w in zip(q, P[-1]) for x, y in zip(u, w)])


Contract("ray_trails", None, ["P28"], bounded=[(f"{T} states of {n} rays", tr_inputs(T, n)) for T, n in ((1, 1), (1, 3), (2, 3), (3, 2), (4, 1))], invoke=tr_invoke, post=tr_post, gen=tr_gen, ngen=40, real=tr_real, frame=False,
         functions=[f"{MV}:position_buffer_to_lines", f"{RB}:RayBuffPlotter.__init__", f"{RB}:RayBuffPlotter.get_lines", f"{RB}:RayBuffPlotter.get_points"])


# ------------------------------------------------------------------ movies
def mv_inputs(T, n, trail):
    def f(S):
        p, e = rec(S, T, n)
        V = S.arr("v", (4, 3))
        S.c.ghost["mesh"] = (V, [[0, 1, 2], [0, 2, 3]])
        return dict(p=p, e=e, trail=trail, V=V)

    return f


class SymBuilding:
    def __init__(self, S):
        self.S = S

    def _vc_attr(self, I, nm):
        expect(nm == "get_mesh", f"Building.{nm}")
        v, f = self.S.c.ghost["mesh"]
        return Builtin(nm, lambda I: (v, CArr(np.array(f, dtype=object), "i")))


LOOK = dict(ray_opacity=0.5, ray_trail_opacity=0.3, ray_point_size=3.0, building_opacity=0.1, building_color=(0.8, 0.8, 0.8), movie_fps=30, movie_colormap="RdPu")


def mv_invoke(S, I, a):
    cfg = so.obj(I, "building3d.sim.rays.simulation_config:SimulationConfig", visualization=PyDict(dict(LOOK, ray_trail_length=a["trail"])))
    I.call(so.cls(I, f"{MV}:make_movie_from_buffer"), ["out.gif", SymBuilding(S), a["p"], a["e"], cfg], {"verbose": False})
    return dict(frames=S.c.ghost["drawn"]["frames"], verts=nums(a["V"]), faces=S.c.ghost["mesh"][1])


def mv_gen(rng, i):
    a = tr_gen(rng, i)
    while len(a["p"]) < 3:
        a = tr_gen(rng, i)
    a["trail"] = rng.choice([1, 2, 3, 16])
    a["ext"] = rng.choice([".gif", ".mp4"])
    return a


def mv_real(a):
    import os
    import tempfile

    from building3d.sim.rays.movie_from_buffer import make_movie_from_buffer

    b = GR.boxes(random.Random(len(a["p"])))
    verts, faces = b.get_mesh()
    cfg = type("Cfg", (), {"visualization": dict(LOOK, ray_trail_length=a["trail"])})()
    with tempfile.TemporaryDirectory() as d, drawing() as log:
        make_movie_from_buffer(os.path.join(d, "m" + a.get("ext", ".gif")), b, a["p"], a["e"], cfg, verbose=False)
    return dict(frames=log["frames"], verts=verts, faces=faces)


def mv_post(S, a, r, old):
    P, E = nums(old["p"]), nums(old["e"])
    T, n = len(P), len(P[0])
    frames = r["frames"]
    yield "all states but the first and last have a frame", len(frames) >= T - 2
    V = nums(r["verts"])
    F = [[int(i) for i in f] for f in r["faces"]]

    def building(shots):
        for s, _ in shots:
            c = split(s["faces"]) if s["faces"] is not None else None
            if c and not s["lines"] and s["energy"] is None:
                return S.And(c == F, len(s["points"]) == len(V), *[near(S, x, y, 1e-4) for u, w in zip(s["points"], V) for x, y in zip(u, w)])
        return False

    def rays(shots, t):
        for s, _ in shots:
            if s["energy"] is not None and not s["lines"] and len(s["points"]) == n and len(s["energy"]) == n:
                return S.And(*[near(S, x, y, 1e-5) for u, w in zip(s["points"], P[t]) for x, y in zip(u, w)], *[near(S, x, y, 1e-5) for x, y in zip(s["energy"], E[t])])
        return False

    def lines(shots, t):
        for s, _ in shots:
            if s["energy"] is not None and s["lines"]:
                return trails(S, s["points"], split(s["lines"]), P, max(0, t + 1 - a["trail"]), t + 1, E, s["energy"])
        return False

    yield "the building is in every frame", S.And(*[building(x) for x in frames])
    for nm, f in (("rays of a frame: positions and energies of one state, state after state", rays), ("trails of a frame: the latest positions of each ray with the energies it had there", lines)):
        first = [t for t in (0, 1) if t + len(frames) <= T]
        yield nm, S.Or(*[S.And(*[f(x, t + k) for k, x in enumerate(frames)]) for t in first])


Contract("movie_frames", None, ["P28"], bounded=[(f"{T} states of {n} rays, trails of {k}", mv_inputs(T, n, k)) for T, n, k in ((3, 2, 16), (4, 2, 2), (4, 3, 1), (5, 1, 3))], setup=setup, invoke=mv_invoke, post=mv_post, gen=mv_gen, ngen=12, real=mv_real, frame=False,
         functions=[f"{MV}:make_movie_from_buffer", f"{MV}:position_buffer_to_lines"])


# ------------------------------------------------------------------ plots of several objects
class Thing:
    """object with some of the methods get_mesh, get_lines, get_points"""

    _vc_immutable = True

    def __init__(self, has, mesh=None, lines=None, points=None):
        self.has, self.vals = has, dict(get_mesh=mesh, get_lines=lines, get_points=points)

    def _vc_attr(self, I, nm):
        expect(nm in self.has, f"attribute {nm}")
        return Builtin(nm, lambda I: self.vals[nm])

    def _vc_hasattr(self, nm):
        return nm in self.has

    def _vc_str(self):
        return "thing"


def real_thing(has, vals):
    return type("Thing", (), {m: (lambda self, m=m: vals[m]) for m in has})()


KINDS = (("get_mesh",), ("get_lines", "get_points"), ("get_points",), ("get_lines",))


def po_inputs(kinds, coloured):
    def f(S):
        out = []
        for k, has in enumerate(kinds):
            V, L, P = S.arr(f"v{k}", (4, 3)), S.arr(f"l{k}", (4, 3)), S.arr(f"p{k}", (2, 3))
            arr = lambda x: CArr(np.array(x, dtype=object), "i")
            out.append(Thing(has, (V, arr([[0, 1, 2], [2 - k % 2, 3, 1]])), (L, arr([[0, 1], [3, 2]])), P))
        cols = tuple(tuple(S.real(f"c{k}{d}") for d in range(3)) for k in range(len(kinds))) if coloured else ()
        return dict(objs=tuple(out), cols=cols)

    return f


def po_invoke(S, I, a):
    I.call(so.cls(I, f"{PO}:plot_objects"), [a["objs"]], {"output_file": "x.png", "colors": a["cols"]})
    pl = S.c.ghost["drawn"]["plotters"]
    return [[(m.shot(), c) for m, c in p.meshes] for p in pl]


def po_gen(rng, i):
    r = np.random.RandomState(rng.randrange(1 << 30))
    out = []
    for k in range(rng.randint(1, 4)):
        has = rng.choice(KINDS)
        nv = rng.randint(3, 6)
        n = rng.randint(2, 4)
        m = rng.randint(1, 3)
        out.append(dict(has=has, get_mesh=(r.uniform(-2, 2, (nv, 3)), np.array([r.permutation(nv)[:3] for _ in range(rng.randint(1, 4))])), get_lines=(r.uniform(-2, 2, (n * m, 3)), r.permutation(n * m).reshape(m, n)),
                        get_points=r.uniform(-2, 2, (rng.randint(1, 4), 3))))
    cols = tuple(tuple(float(x) for x in r.randint(0, 2, 3)) for _ in out) if rng.random() < 0.7 else ()
    return dict(objs=out, cols=cols)


def po_real(a):
    import os
    import tempfile

    from building3d.display.plot_objects import plot_objects

    with tempfile.TemporaryDirectory() as d, drawing() as log:
        plot_objects(tuple(real_thing(o["has"], o) for o in a["objs"]), output_file=os.path.join(d, "new", "x.png"), colors=a["cols"])
    return [[(real_shot(m), c) for m, c in p.meshes] for p in log["plotters"]]


def po_post(S, a, r, old):
    yield "one plot", len(r) == 1
    shots = r[0] if r else []
    objs = [(o.has, o.vals) if isinstance(o, Thing) else (o["has"], o) for o in old["objs"]]
    cols = old["cols"]
    same = lambda p, q: S.And(len(p) == len(q), *[near(S, x, y, 1e-5) for u, w in zip(p, q) for x, y in zip(u, w)])

    def cells(c, want, n, tri):
        got = split(c) if c is not None else None
        return got is not None and got == [[int(i) for i in nums(w)] for w in want]

    used = [0] * len(shots)
    for k, (has, v) in enumerate(objs):
        for m in has:
            pts = nums(v[m][0] if m != "get_points" else v[m])
            found = []
            for s, c in shots:
                if m == "get_mesh":
                    ok = not s["lines"] and cells(s["faces"], nums(v[m][1]), len(pts), True)
                elif m == "get_lines":
                    ok = bool(s["lines"]) and cells(s["lines"], nums(v[m][1]), len(pts), False)
                else:
                    ok = not s["lines"]
                col = True
                if len(objs) > 1 and len(cols):
                    col = S.And(c is not None and len(nums(c)) == 3, *[near(S, x, y, 1e-6) for x, y in zip(nums(c) if c is not None else [], nums(cols[k]))])
                found.append(S.And(ok, same(nums(s["points"]), pts), col))
            yield "every object is drawn as it is, in its colour", S.Or(*found) if found else False
    yield "nothing else is drawn", len(shots) == sum(len(h) for h, _ in objs)


Contract("plot_objects", None, ["P28"], bounded=[(f"objects with {', '.join('/'.join(h) for h in ks)}{', colours' if c else ''}", po_inputs(ks, c)) for ks, c in ((KINDS[:1], False), (KINDS[1:2], False), (KINDS[:2], True), ((KINDS[0], KINDS[0], KINDS[2]), True), (KINDS[2:], True))],
         setup=setup, invoke=po_invoke, post=po_post, gen=po_gen, ngen=40, real=po_real, frame=False, functions=[f"{PO}:plot_objects"])
