"""Recorded states: writing, reading, batches of a simulation."""
import numpy as np
import z3
from contracts import files as FI, rays as RA
from contracts.location import R

from pyvc import npmodel as npm, symobj as so
from pyvc.contract import Contract, abstract, expect, loops
from pyvc.engine import PyRaise
from pyvc.interp import Builtin, fresh_larr
from pyvc.values import CArr, LArr, Obj, PyDict, PyList, SF, SInt, Unsupported, is_float, it, mkbool, vite

PATS = ("P<step>", "E<step>", "H<step>")
KEYS = ("position_file", "energy_file", "hits_file")
I_ = z3.IntSort()
REC = "building3d.sim.rays.dump_buffers"


# ------------------------------------------------------------------ files of states: pattern -> step -> array
class States:
    """files of one quantity in one directory: has(step), at(step, index); all arrays of one shape"""

    def __init__(self, has, at, dims):
        self.has, self.at, self.dims = has, at, dims


class WPath:
    """summary of WildcardPath: a pattern with a step number (contracts wildcard_*)"""

    _vc_immutable = True

    def __init__(self, S, pat):
        self.S, self.pat = S, pat

    def _vc_attr(self, I, nm):
        S = self.S
        if nm == "fill":
            return Builtin(nm, lambda I, parent=None, step=None: FPath(self.pat, parent, step))
        if nm == "get_matching_paths_dict_values":
            return Builtin(nm, lambda I, parent=None: Matching(S, self.pat, parent))
        raise Unsupported(f"WildcardPath.{nm}")


class FPath:
    def __init__(self, pat, parent, step):
        self.pat, self.parent, self.step = pat, parent, step


class Matching:
    """paths and step numbers of the files that exist, in any order"""

    def __init__(self, S, pat, parent):
        expect(parent == "dir" and pat in PATS)
        self.S = S
        self.n = S.c.ghost["recorded"]
        if isinstance(self.n, int):
            return
        u = pat[0]
        self.step = z3.Function(f"step_of_{u}", I_, I_)
        inv = z3.Function(f"entry_of_{u}", I_, I_)
        S.c.assume(S.forall(self.n, lambda i: S.And(SInt(self.step(it(i))) >= 0, SInt(self.step(it(i))) < self.n)))
        S.c.assume(S.forall(self.n, lambda t: S.And(SInt(inv(it(t))) >= 0, SInt(inv(it(t))) < self.n, S.eq(SInt(self.step(inv(it(t)))), t))))

    def _vc_len(self, I):
        return self.n

    def _vc_attr(self, I, nm):
        if nm == "values":
            if isinstance(self.n, int):
                return Builtin(nm, lambda I: PyList([PyDict({"step": (i + 1) % self.n}) for i in range(self.n)]))
            return Builtin(nm, lambda I: PyList(None, self.n, lambda i: PyDict({"step": SInt(self.step(it(i)))})))
        raise Unsupported(f"matching paths: {nm}")


def save(S):
    def f(I, path, data):
        expect(isinstance(path, FPath) and path.parent == "dir" and path.pat in PATS and isinstance(data, (CArr, LArr)))
        key = ("states", path.pat)
        st = I.c.heap[key]
        expect(data.ndim == len(st.dims), "rank of a recorded state")
        I.c.side("shape of a recorded state", S.And(*[S.eq(x, y) for x, y in zip(data.shape, st.dims)]))
        I.c.note_write(key)
        t, d = path.step, data.copy()
        I.c.heap[key] = States(lambda s: S.Or(S.eq(s, t), st.has(s)), lambda s, ix: vite(it(s) == it(t), d.elem(ix), st.at(s, ix)), st.dims)

    return f


def load(S):
    def f(I, path):
        expect(isinstance(path, FPath) and path.parent == "dir" and path.pat in PATS)
        st = I.c.heap[("states", path.pat)]
        if not I.truth(st.has(path.step)):
            I.c.raise_exc("FileNotFoundError", bases=("OSError", "Exception"))
        t = path.step
        return mk(st.dims, lambda ix: st.at(t, ix))

    return f


def mk(dims, get):
    if all(isinstance(d, int) for d in dims):
        out = np.empty(dims, dtype=object)
        for ix in np.ndindex(*dims):
            out[ix] = get(ix)
        return CArr(out, "f")
    return LArr(dims, get, "f")


def unknown(S, nm, dims, has=None):
    f = S.c.fresh_fn(nm, *([I_] * (1 + len(dims))), R)
    h = S.c.fresh_fn(nm + "_exists", I_, z3.BoolSort()) if has is None else None
    return States(has or (lambda t: mkbool(h(it(t)))), lambda t, ix: SF(f(it(t), *[it(i) for i in ix])), dims)


def setup(S, I):
    I.class_models["WildcardPath"] = lambda I, cls, args, kw: WPath(S, args[0])
    I.ext_models["numpy.save"] = save(S)
    I.ext_models["numpy.load"] = load(S)


def config(S):
    return so.obj(S.I, "building3d.sim.rays.simulation_config:SimulationConfig", paths=PyDict(dict(zip(KEYS, PATS))))


def dims_of(a):
    return ((a["k"], 3), (a["k"],), (a["m"],))


def every(S, dims, f):
    """f(index) for all indices of an array of that shape"""
    if not dims:
        return f(())
    return S.forall(dims[0], lambda i: every(S, dims[1:], lambda ix: f((i,) + ix)))


# ------------------------------------------------------------------ dump_buffers
def sizes(S, n, k, m):
    out = []
    for nm, x, lo in (("n", n, 1), ("k", k, 0), ("m", m, 0)):
        if x is None:
            x = S.int(nm)
            S.c.assume(x >= lo)
        out.append(x)
    return out


def du_inputs(n=None, k=None, m=None):
    def f(S):
        a = dict(zip("nkm", sizes(S, n, k, m)))
        a["first"] = S.int("first")
        S.c.assume(a["first"] >= 0)
        a["bufs"] = tuple(S.arr(nm, (a["n"],) + d) for nm, d in zip(("pos", "enr", "hit"), dims_of(a)))
        for pat, d in zip(PATS, dims_of(a)):
            S.c.heap[("states", pat)] = unknown(S, "file" + pat[0], d)
        S.c.ghost["before"] = {pat: S.c.heap[("states", pat)] for pat in PATS}
        a["cfg"] = config(S)
        return a

    return f


def du_invoke(S, I, a):
    I.call_fq(f"{REC}:dump_buffers", [*a["bufs"], "dir", a["cfg"]], dict(init_step=a["first"]))
    return {pat: S.c.heap[("states", pat)] for pat in PATS}


def written(S, st, pre, buf, first, n):
    """states first .. first + n - 1 are the rows of buf, others are as before"""
    d = st.dims
    inside = lambda t: S.And(t >= first, t < first + n)
    t = SInt(z3.Int("some step"))
    yield "one file per state", S.eq(st.has(t), S.Or(inside(t), pre.has(t)))
    j = SInt(z3.Int("some row"))
    ok = S.And(j >= 0, j < n)
    if isinstance(n, int):
        yield "it holds the state", S.And(*[every(S, d, lambda ix: S.eq(st.at(first + q, ix), buf.elem((q,) + ix))) for q in range(n)])
    else:
        yield "it holds the state", S.Implies(ok, every(S, d, lambda ix: S.eq(st.at(first + j, ix), buf.elem((j,) + ix))))
    yield "other files are not touched", S.Implies(S.Not(inside(t)), every(S, d, lambda ix: S.eq(st.at(t, ix), pre.at(t, ix))))


def du_post(S, a, r, old):
    if not S.sym:
        yield from FI.du_post(S, a, r, old)
        return
    for pat, buf in zip(PATS, old["bufs"]):
        for nm, p in written(S, r[pat], S.c.ghost["before"][pat], buf, a["first"], a["n"]):
            yield f"{nm} ({pat[0]})", p


def fresh_states(pat):
    return lambda S: unknown(S, "file" + pat[0], S.c.heap[("states", pat)].dims)


def du_inv(S, e, k, o):
    yield "step", S.eq(e.step, k)
    yield "not beyond the buffer", k <= e.num_steps
    for pat, buf in zip(PATS, (e.pos_buf, e.enr_buf, e.hit_buf)):
        st, pre = S.c.heap[("states", pat)], S.c.ghost["before"][pat]
        d = st.dims
        t = SInt(z3.Int("some step"))
        inside = S.And(t >= e.init_step, t < e.init_step + k)
        yield f"files {pat[0]}", S.eq(st.has(t), S.Or(inside, pre.has(t)))
        j = SInt(z3.Int("some row"))
        yield f"contents {pat[0]}", S.Implies(S.And(j >= 0, j < k), every(S, d, lambda ix: S.eq(st.at(e.init_step + j, ix), buf.elem((j,) + ix))))
        yield f"others {pat[0]}", S.Implies(S.Not(inside), every(S, d, lambda ix: S.eq(st.at(t, ix), pre.at(t, ix))))


loops(f"{REC}:dump_buffers", 2, l0=dict(inv=du_inv, heap_fresh={("states", p): fresh_states(p) for p in PATS}, decreases=lambda S, e, k: e.num_steps - e.step))
Contract("dump_buffers_proof", None, ["P20"], inputs=du_inputs(), bounded=[(f"{n} states, {k} rays, {m} absorbers", du_inputs(n, k, m)) for n, k, m in ((1, 1, 0), (2, 1, 1), (3, 2, 1))], setup=setup, invoke=du_invoke, post=du_post,
         gen=FI.du_gen, ngen=4, real=FI.du_real, functions=[f"{REC}:dump_buffers"], frame=False)


# ------------------------------------------------------------------ read_buffers
def rd_inputs(n=None, k=None, m=None):
    def f(S):
        a = dict(zip("nkm", sizes(S, n, k, m)))
        for pat, d in zip(PATS, dims_of(a)):
            S.c.heap[("states", pat)] = unknown(S, "file" + pat[0], d, has=lambda t: S.And(t >= 0, t < a["n"]))
        S.c.ghost["recorded"] = a["n"]
        a["cfg"] = config(S)
        return a

    return f


def rd_invoke(S, I, a):
    return I.call_fq(f"{REC}:read_buffers", ["dir", a["cfg"]])


def rd_post(S, a, r, old):
    if not S.sym:
        yield from FI.du_post(S, a, r, old)
        return
    for pat, d, buf in zip(PATS, dims_of(a), r):
        st = S.c.heap[("states", pat)]
        yield f"one state per file ({pat[0]})", S.And(buf.ndim == 1 + len(d), *[S.eq(x, y) for x, y in zip(buf.shape, (a["n"],) + d)])
        if buf.ndim == 1 + len(d):
            yield f"in step order ({pat[0]})", every(S, (a["n"],) + d, lambda ix: S.eq(buf.elem(ix), st.at(ix[0], ix[1:])))


def rd_dims(S):
    return [S.c.heap[("states", p)].dims for p in PATS]


def rd_fresh(q, nm):
    return lambda S, _: fresh_larr(S.c, nm, (S.c.ghost["recorded"],) + S.c.heap[("states", PATS[q])].dims, "f")


def rd_inv(S, e, k, o):
    n = S.c.ghost["recorded"]
    yield "steps", S.eq(e.max_step, n)
    if isinstance(k, int) and k == 0:
        return
    for pat, buf in zip(PATS, (e.pos_buf, e.enr_buf, e.hit_buf)):
        st = S.c.heap[("states", pat)]
        d = (n,) + st.dims
        if buf.ndim != len(d):
            yield f"shape {pat[0]}", S.eq(k, 0)
            continue
        yield f"shape {pat[0]}", S.Implies(k >= 1, S.And(*[S.eq(x, y) for x, y in zip(buf.shape, d)]))
        yield f"states so far {pat[0]}", S.forall(k, lambda t: every(S, st.dims, lambda ix: S.eq(buf.elem((t,) + ix), st.at(t, ix))))


BUFS = ("pos_buf", "enr_buf", "hit_buf")
loops(f"{REC}:read_buffers", 1, l0=dict(inv=rd_inv, fresh={nm: rd_fresh(q, nm) for q, nm in enumerate(BUFS)}, first=BUFS))
Contract("read_buffers_proof", None, ["P20"], inputs=rd_inputs(), bounded=[(f"{n} states, {k} rays, {m} absorbers", rd_inputs(n, k, m)) for n, k, m in ((1, 1, 0), (2, 1, 1), (3, 2, 1))], setup=setup, invoke=rd_invoke, post=rd_post,
         gen=FI.du_gen, ngen=4, real=FI.du_real, functions=[f"{REC}:read_buffers"], frame=False)


# ------------------------------------------------------------------ Simulation.run: batches continue each other
RUN = f"{RA.SI}:Simulation.run"
SLQ, DUQ = f"{RA.SL}:simulation_loop", f"{REC}:dump_buffers"
GPQ, VGQ = "building3d.io.arrayformat:get_polygon_points_and_faces", "building3d.sim.rays.voxel_grid:make_voxel_grid"


def history(S):
    """the states of an unbroken simulation: position, energy and hits at every step; velocity is the last displacement over the time step"""
    fs = [z3.Function(nm, *([I_] * q), R) for nm, q in (("true_position", 3), ("true_energy", 2), ("true_hits", 2))]
    return [lambda t, ix, f=f: SF(f(it(t), *[it(i) for i in ix])) for f in fs]


def run_inputs(batches=None, size=None, k=None, m=None, polys=None):
    def f(S):
        c = S.c
        a = dict(zip(("q", "k", "m"), sizes(S, batches, k, m)))
        a["b"] = S.int("batch", lo=1) if size is None else size
        a["polys"] = S.int("polys", lo=0) if polys is None else polys
        n = a["q"] * a["b"]
        npt, nf = (S.int("npt", lo=1), S.int("nf", lo=1)) if polys is None else (3, 1)
        own = dict(num_steps=n, time_step=S.real("dt"), batch_size=a["b"], voxel_size=S.real("cell"), num_rays=a["k"], ray_speed=S.real("speed"), source=S.vec("source"), absorbers=S.arr("absorbers", (a["m"], 3)),
                   absorber_radius=S.real("radius"), points=S.arr("points", (npt, 3)), faces=S.arr("faces", (nf, 3), "i"), polygons=S.arr("polygons", (nf,), "i"), walls=S.arr("walls", (a["polys"],), "i"),
                   trans_poly_nums=so.obj(S.I, RUN.rsplit(".", 1)[0]), surf_absorption=S.arr("absn", (a["polys"],)), verbose=False, buffer_dir="dir", sim_cfg=config(S))
        c.assume(S.And(own["time_step"] > 0.0, own["ray_speed"] > 0.0, own["voxel_size"] > 0.0))
        a["sim"] = so.obj(S.I, RUN.rsplit(".", 1)[0], **own)
        H = history(S)
        for pat, d in zip(PATS, dims_of(a)):
            c.heap[("states", pat)] = unknown(S, "file" + pat[0], d, has=lambda t: False)
        c.ghost["run"] = dict(a=a, own=own, H=H, n=n, polygons=[], calls=0)
        src = own["source"]
        dP, dE, dH = dims_of(a)
        c.assume(every(S, dP, lambda ix: S.eq(H[0](0, ix), S.el(src, ix[1]))))
        c.assume(every(S, dE, lambda ix: S.eq(H[1](0, ix), 1.0)))
        c.assume(every(S, dH, lambda ix: S.eq(H[2](0, ix), 0.0)))
        return a

    return f


def run_setup(S, I):
    setup(S, I)
    c = S.c
    g = lambda: c.ghost["run"]

    def rand(I, *dims):
        r = S.arr("random", dims)
        c.assume(S.forall(dims[0], lambda i: S.And(*[S.And(S.el(r, i, x) >= 0.0, S.el(r, i, x) < 1.0) for x in range(3)], S.Or(*[S.Not(S.eq(S.el(r, i, x), 0.5)) for x in range(3)]))))
        return r

    I.ext_models["numpy.random.rand"] = rand

    def polygon(points, faces, polygons, pn):
        own = g()["own"]
        c.side("geometry of a polygon of the building", S.And(points is own["points"], faces is own["faces"], polygons is own["polygons"]))
        return OfPolygon("points", pn), OfPolygon("faces", pn)

    def grid(min_xyz, max_xyz, poly_pts, step, eps=None, verbose=None):
        own = g()["own"]
        pts = own["points"]
        for x in range(3):
            c.side("the grid covers the building", S.And(S.forall(pts.shape[0], lambda i: S.And(S.le(min_xyz[x], S.el(pts, i, x)), S.le(S.el(pts, i, x), max_xyz[x])))))
        c.side("the grid is made of all polygons in order", S.And(S.eq(S.len(poly_pts), g()["a"]["polys"]), numbered(S, poly_pts, "points")))
        c.side("cells of the given size", S.eq(step, own["voxel_size"]))
        g()["grid"] = so.obj(I, RUN.rsplit(".", 1)[0])
        return g()["grid"]

    def loop(init_step, num_steps, num_rays, ray_speed, time_step, grid_step, grid, position, velocity, energy, hits, absorbers, absorber_radius, points, faces, polygons, walls, transparent_polygons, surf_absorption, verbose=True, eps=1e-6):
        own, H, a = g()["own"], g()["H"], g()["a"]
        t = init_step
        for nm, x, y in (("rays", num_rays, "num_rays"), ("speed", ray_speed, "ray_speed"), ("time step", time_step, "time_step"), ("cells", grid_step, "voxel_size"), ("radius", absorber_radius, "absorber_radius")):
            c.side(f"{nm} of the simulation", S.eq(x, own[y]))
        for nm, x, y in (("absorbers", absorbers, "absorbers"), ("points", points, "points"), ("faces", faces, "faces"), ("polygons", polygons, "polygons"), ("walls", walls, "walls"), ("transparent polygons", transparent_polygons, "trans_poly_nums"), ("absorption", surf_absorption, "surf_absorption")):
            c.side(f"{nm} of the simulation", x is own[y])
        c.side("grid of the simulation", grid is g()["grid"])
        c.side("a step of the simulation", S.And(t >= 0, num_steps >= 1, t + num_steps <= g()["n"]))
        for nm, x, d, h in zip(("positions", "energies", "hits"), (position, energy, hits), dims_of(a), H):
            c.side(f"{nm} continue the last state", S.And(x.ndim == len(d), *[S.eq(u, v) for u, v in zip(x.shape, d)], every(S, d, lambda ix: S.eq(x.elem(ix), h(t, ix)))))
        # at the start any directions with the given speed, then the last displacement
        d3 = (a["k"], 3)
        c.side("shape of velocities", S.And(velocity.ndim == 2, *[S.eq(u, v) for u, v in zip(velocity.shape, d3)]))
        sp = own["ray_speed"]
        c.side("rays start at the given speed", S.Implies(S.eq(t, 0), S.forall(a["k"], lambda i: S.eq(sum(S.el(velocity, i, x) * S.el(velocity, i, x) for x in range(3)), sp * sp))))
        c.side("rays keep their direction", S.Implies(t >= 1, every(S, d3, lambda ix: S.eq(velocity.elem(ix) * own["time_step"], H[0](t, ix) - H[0](t - 1, ix)))))
        out = tuple(mk((num_steps + 1,) + d, lambda ix, h=h: h(t + ix[0], ix[1:])) for d, h in zip(dims_of(a), H))
        # the arrays passed in are used as working memory
        for x in (position, velocity, energy, hits):
            scratch = S.arr("work", x.shape)
            npm.setitem(x, slice(None), scratch)
        return out

    def dump(pos_buf, enr_buf, hit_buf, dump_dir, sim_cfg, init_step=0):
        own, a = g()["own"], g()["a"]
        c.side("the directory and configuration of the simulation", dump_dir == "dir" and sim_cfg is own["sim_cfg"])
        n = pos_buf.shape[0]
        c.side("buffers of one length", S.And(S.eq(enr_buf.shape[0], n), S.eq(hit_buf.shape[0], n)))
        for pat, buf, d in zip(PATS, (pos_buf, enr_buf, hit_buf), dims_of(a)):
            c.side("shape of buffers", S.And(buf.ndim == 1 + len(d), *[S.eq(u, v) for u, v in zip(buf.shape[1:], d)]))
            key = ("states", pat)
            st = c.heap[key]
            c.note_write(key)
            b = buf.copy()
            inside = lambda t: S.And(t >= init_step, t < init_step + n)
            row = lambda t, ix, b=b: pick(S, b, t - init_step, ix)
            c.heap[key] = States(lambda t, st=st: S.Or(inside(t), st.has(t)), lambda t, ix, st=st, row=row: vite(inside(t), row(t, ix), st.at(t, ix)), st.dims)

    abstract(I, GPQ, polygon)
    abstract(I, VGQ, grid)
    abstract(I, SLQ, loop)
    abstract(I, DUQ, dump)


def pick(S, b, t, ix):
    if isinstance(b, LArr) or isinstance(t, int):
        if isinstance(b, CArr) and not 0 <= t < b.shape[0]:
            return 0.0
        return b.elem((t,) + ix)
    r = 0.0
    for q in range(b.shape[0]):
        r = vite(it(t) == q, b.elem((q,) + ix), r)
    return r


class OfPolygon:
    """points or triangles of polygon n"""

    _vc_immutable = True

    def __init__(self, what, n):
        self.what, self.n = what, n

    def _vc_merge(self, c, other):
        expect(self.what == other.what)
        return OfPolygon(self.what, vite(c, self.n, other.n))


def numbered(S, l, what):
    """entry i is that of polygon i"""
    if l.items is not None:
        return all(isinstance(x, OfPolygon) and x.what == what and x.n == i for i, x in enumerate(l.items))
    i = SInt(z3.Int("some polygon"))
    x = l.get(i)
    return S.Implies(S.And(i >= 0, i < l.n), isinstance(x, OfPolygon) and x.what == what and S.eq(x.n, i))


def run_invoke(S, I, a):
    return I.call_fq(RUN, [a["sim"]])


def run_post(S, a, r, old):
    if not S.sym:
        yield from RA.sm_post(S, a, r, old)
        return
    G_ = S.c.ghost["run"]
    n, b = G_["n"], a["b"]
    t = SInt(z3.Int("some step"))
    for pat, d, h, buf in zip(PATS, dims_of(a), G_["H"], r):
        st = S.c.heap[("states", pat)]
        yield f"one file per state ({pat[0]})", S.eq(st.has(t), S.And(t >= 0, t <= n))
        yield f"holding the state of an unbroken simulation ({pat[0]})", S.Implies(S.And(t >= 0, t <= n), every(S, d, lambda ix: S.eq(st.at(t, ix), h(t, ix))))
        yield f"the last batch is returned ({pat[0]})", S.And(*[S.eq(u, v) for u, v in zip(buf.shape, (b + 1,) + d)], every(S, (b + 1,) + d, lambda ix: S.eq(buf.elem(ix), h(n - b + ix[0], ix[1:]))))


def run_pos(S, e, k, o):
    src = S.c.ghost["run"]["own"]["source"]
    yield "at the source", S.forall(k, lambda i: S.And(*[S.eq(S.el(e.position, i, x), S.el(src, x)) for x in range(3)]))


def run_dir(S, e, k, o):
    n = S.c.ghost["run"]["a"]["k"]
    d = lambda i: [S.el(e.init_direction, i, x) for x in range(3)]
    yield "unit vectors so far", S.forall(k, lambda i: S.eq(sum(x * x for x in d(i)), 1.0))
    yield "others are not zero", S.forall(n, lambda i: S.Or(*[S.Not(S.eq(x, 0.0)) for x in d(i)]), lo=k)


def run_poly(S, e, k, o):
    yield "one entry per polygon", S.And(S.eq(S.len(e.poly_pts), k), S.eq(S.len(e.poly_tri), k))
    yield "points in order", numbered(S, e.poly_pts, "points")


def fresh_list(what):
    def f(S, l):
        l.items, l.n = None, S.int("npolys", lo=0)
        F = S.c.fresh_fn("polygon_" + what, I_, I_)
        l.get = lambda i: OfPolygon(what, SInt(F(it(i))))

    return f


def run_batches(S, e, k, o):
    G_ = S.c.ghost["run"]
    a, own, H, n = G_["a"], G_["own"], G_["H"], G_["n"]
    s = e.step
    yield "whole batches", S.And(S.eq(s, k * a["b"]), k >= 0, k <= a["q"])
    t = SInt(z3.Int("some step"))
    for pat, d, h, x in zip(PATS, dims_of(a), H, (e.position, e.energy, e.hits)):
        st = S.c.heap[("states", pat)]
        yield f"files so far {pat[0]}", S.eq(st.has(t), S.And(t >= 0, t <= s, k >= 1))
        yield f"contents so far {pat[0]}", S.Implies(S.And(t >= 0, t <= s, k >= 1), every(S, d, lambda ix: S.eq(st.at(t, ix), h(t, ix))))
        yield f"current state {pat[0]}", every(S, d, lambda ix: S.eq(x.elem(ix), h(s, ix)))
    d3 = (a["k"], 3)
    sp = own["ray_speed"]
    yield "speed at the start", S.Implies(S.eq(k, 0), S.forall(a["k"], lambda i: S.eq(sum(S.el(e.velocity, i, x) * S.el(e.velocity, i, x) for x in range(3)), sp * sp)))
    yield "velocity", S.Implies(k >= 1, every(S, d3, lambda ix: S.eq(e.velocity.elem(ix) * own["time_step"], H[0](s, ix) - H[0](s - 1, ix))))
    if isinstance(k, int) and k == 0:
        return
    for pat, d, h, buf in zip(PATS, dims_of(a), H, (e.pos_buf, e.enr_buf, e.hit_buf)):
        if buf.ndim != 1 + len(d):
            yield f"last batch {pat[0]}", S.eq(k, 0)
            continue
        yield f"last batch {pat[0]}", S.Implies(k >= 1, S.And(*[S.eq(u, v) for u, v in zip(buf.shape, (a["b"] + 1,) + d)], every(S, (a["b"] + 1,) + d, lambda ix: S.eq(buf.elem(ix), h(s - a["b"] + ix[0], ix[1:])))))


def fresh_buf(q, nm):
    def f(S, _):
        a = S.c.ghost["run"]["a"]
        return fresh_larr(S.c, nm, (a["b"] + 1,) + dims_of(a)[q], "f")

    return f


def fresh_state(nm, q):
    def f(S, _):
        return fresh_larr(S.c, nm, dims_of(S.c.ghost["run"]["a"])[q], "f")

    return f


loops(RUN, 4, l0=dict(inv=run_pos), l1=dict(inv=run_dir), l2=dict(inv=run_poly, fresh=dict(poly_pts=fresh_list("points"), poly_tri=fresh_list("faces"))),
      l3=dict(inv=run_batches, heap_fresh={("states", p): fresh_states(p) for p in PATS}, first=BUFS,
              fresh={**{nm: fresh_buf(q, nm) for q, nm in enumerate(BUFS)}, **{nm: fresh_state(nm, q) for nm, q in (("position", 0), ("velocity", 0), ("energy", 1), ("hits", 2))}},
              decreases=lambda S, e, k: S.c.ghost["run"]["a"]["q"] - k))
Contract("simulation_run_proof", None, ["P20"], inputs=run_inputs(), bounded=[(f"{q} batches of {b}, {k} rays, {m} absorbers", run_inputs(q, b, k, m, p)) for q, b, k, m, p in ((1, 1, 1, 0, 1), (2, 2, 1, 1, 2), (3, 1, 2, 1, 1))],
         setup=run_setup, abstracts=[SLQ, DUQ, VGQ], invoke=run_invoke, post=run_post, gen=RA.sm_gen, ngen=2, real=RA.sm_real, functions=[RUN], frame=False)


# ------------------------------------------------------------------ Simulation(...): the configuration is the one given, records are not overwritten
INIT = f"{RA.SI}:Simulation"
AFQ, TRQ, SPQ = "building3d.io.arrayformat:to_array_format", f"{INIT}.get_transparent_polygon_numbers", f"{RA.SC}:SimulationConfig.surface_params_to_array"


def in_inputs(search, absorbers):
    def f(S):
        c = S.c
        x = lambda nm: S.real(nm)
        n, b = S.int("num_steps", lo=1), S.int("batch_size", lo=1)
        eng = dict(num_steps=n, time_step=x("dt"), batch_size=b, voxel_size=x("cell"), search_transparent=search)
        rays = dict(num_rays=S.int("rays", lo=1), ray_speed=x("speed"), source=tuple(S.real(f"source{i}") for i in range(3)), absorbers=PyList([tuple(S.real(f"absorber{q}{i}") for i in range(3)) for q in range(absorbers)]), absorber_radius=x("radius"))
        vis = {nm: x(nm) for nm in ("ray_opacity", "ray_trail_length", "ray_trail_opacity", "ray_point_size", "building_opacity", "building_color", "movie_fps", "movie_colormap")}
        cfg = so.obj(S.I, f"{RA.SC}:SimulationConfig", verbose=False, paths=PyDict({"project_dir": "project", "buffer_dir": "project/states", **dict(zip(KEYS, PATS))}), engine=PyDict(eng), rays=PyDict(rays), visualization=PyDict(vis))
        a = dict(cfg=cfg, building=so.obj(S.I, "building3d.geom.building:Building"), there=S.bool("project_exists"), states=S.bool("states_exist"), files=S.int("files", lo=0))
        c.assume(S.Implies(a["states"], a["there"]))
        arrays = tuple(S.arr(nm, (2,)) for nm in ("points", "faces", "polygons", "walls", "zones", "solids"))
        c.ghost["init"] = dict(a=a, eng=eng, rays=rays, made=[], arrays=arrays, trans=so.obj(S.I, INIT), absn=S.arr("absn", (2,)))
        return a

    return f


def in_setup(S, I):
    c = S.c
    g = lambda: c.ghost["init"]

    def exists(I, path):
        expect(path in ("project", "project/states"))
        if path in g()["made"]:
            return True
        return g()["a"]["there" if path == "project" else "states"]

    def listdir(I, path):
        expect(path == "project/states")
        return PyList(None, g()["a"]["files"], lambda i: c.fresh_str("file"))

    def makedirs(I, path, mode=0o777, exist_ok=False):
        expect(path in ("project", "project/states"))
        if not exist_ok and I.truth(exists(I, path)):
            c.raise_exc("FileExistsError", bases=("OSError", "Exception"))
        g()["made"].append(path)
        g()["made"].append("project")

    I.ext_models["os.path.exists"] = exists
    I.ext_models["os.listdir"] = listdir
    I.ext_models["os.makedirs"] = makedirs
    abstract(I, AFQ, lambda building: (c.side("arrays of the given building", building is g()["a"]["building"]), g()["arrays"])[1])
    abstract(I, TRQ, lambda building: (c.side("transparent polygons of the given building", building is g()["a"]["building"]), g()["trans"])[1])
    abstract(I, SPQ, lambda self, name, building: (c.side("absorption of the given building", name == "absorption" and building is g()["a"]["building"] and self is g()["a"]["cfg"]), g()["absn"])[1])


def in_invoke(S, I, a):
    sim = so.obj(I, INIT)
    I.call_fq(f"{INIT}.__init__", [sim, a["building"], a["cfg"]])
    return sim


def in_raises(S, old, exc):
    G_ = S.c.ghost["init"]
    a, n, b = G_["a"], G_["eng"]["num_steps"], G_["eng"]["batch_size"]
    if exc == "AssertionError":
        return S.Or(n < b, S.Not(S.eq(n % b, 0)))
    return S.And(a["states"], a["files"] > 0)


def in_post(S, a, r, old):
    if not S.sym:
        yield from RA.sm_post(S, a, r, old)
        return
    G_ = S.c.ghost["init"]
    eng, rays = G_["eng"], G_["rays"]
    at = lambda nm: S.I.getattr(r, nm)
    yield "no records yet", S.Or(S.Not(a["states"]), S.eq(a["files"], 0))
    yield "there is a directory for records", S.Or("project/states" in G_["made"], a["states"])
    yield "whole batches", S.And(eng["num_steps"] >= eng["batch_size"], S.eq(eng["num_steps"] % eng["batch_size"], 0))
    for nm in ("num_steps", "batch_size", "time_step", "voxel_size"):
        yield f"{nm} as configured", S.eq(at(nm), eng[nm])
    for nm in ("num_rays", "ray_speed", "absorber_radius"):
        yield f"{nm} as configured", S.eq(at(nm), rays[nm])
    src, ab = at("source"), at("absorbers")
    yield "source as configured", S.And(src.ndim == 1, *[S.eq(S.el(src, i), rays["source"][i]) for i in range(3)])
    rows = rays["absorbers"].items
    yield "absorbers as configured", S.And(S.eq(ab.shape[0], len(rows)), *[S.eq(S.el(ab, q, i), rows[q][i]) for q in range(len(rows)) for i in range(3)])
    for nm, x in zip(("points", "faces", "polygons", "walls"), G_["arrays"]):
        yield f"{nm} of the building", at(nm) is x
    yield "absorption of the building", at("surf_absorption") is G_["absn"]
    yield "configuration and directory as given", at("sim_cfg") is a["cfg"] and at("buffer_dir") == "project/states"
    t = at("trans_poly_nums")
    yield "transparent polygons are looked for when asked", t is G_["trans"] if eng["search_transparent"] else (not t is G_["trans"] and list(t.items) == [-1])


Contract("simulation_init_symbolic", None, ["P20"], bounded=[(f"search {s}, {n} absorbers", in_inputs(s, n)) for s in (True, False) for n in (0, 2)], setup=in_setup, abstracts=[AFQ, SPQ], invoke=in_invoke, post=in_post, raises=in_raises, gen=RA.sm_gen, ngen=2, real=RA.sm_real,
         functions=[f"{INIT}.__init__", f"{INIT}.make_dirs"], frame=False)
