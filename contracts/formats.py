"""Bounded proofs about the array format and the .b3d / .bim files: small buildings with any names, ids and coordinates."""
import numpy as np
from contracts import files as FI, hierarchy as H
from contracts.location import R, fn

from pyvc import symobj as so
from pyvc.contract import Contract, abstract, expect
from pyvc.engine import PyRaise
from pyvc.values import CArr, PyDict, PyList, SStr, Unsupported, is_num

POLY = "building3d.geom.polygon"
NORMAL = "building3d.geom.vectors:normal"
# triangles of polygons with 3..6 corners, in the order and with the corners first that ear clipping may give
TRIS = {3: [[1, 2, 0]], 4: [[3, 0, 1], [1, 2, 3]], 5: [[4, 0, 1], [3, 4, 1], [1, 2, 3]], 6: [[0, 1, 2], [5, 0, 2], [2, 3, 4], [4, 5, 2]]}
CHILD = {"building": "zones", "zone": "solids", "solid": "walls", "wall": "polygons"}


def normal_fn(*ps):
    return CArr(np.array([fn(f"normal_{k}", R, *[tuple(p.elem((j,)) for j in range(3)) for p in ps]) for k in range(3)], dtype=object), "f")


def normal_of(pts, tri):
    return normal_fn(*[CArr(pts.a[k], "f") for k in tri])


def setup(S, I):
    """geometry of polygons (normal, centroid, area, plane) as unknown functions of the coordinates; random names are new and without separators"""
    def rid(size):
        from pyvc import containers as ct

        s = S.c.fresh_str("random")
        S.c.assume(S.Not(ct.str_contains(I, s, "/")).t)
        for o in ids + S.c.ghost.get("taken", []):
            S.c.assume(S.Not(S.eq(s, o)).t)
        ids.append(s)
        return s

    ids = S.c.ghost.setdefault("ids", [])
    abstract(I, "building3d.random:random_id", rid)
    abstract(I, NORMAL, normal_fn)
    abstract(I, "building3d.geom.points:are_points_coplanar", lambda *a: True)
    abstract(I, f"{POLY}.centroid:polygon_centroid", lambda *a: S.vec("ctr"))
    abstract(I, f"{POLY}.area:polygon_area", lambda *a: S.real("area"))
    abstract(I, f"{POLY}.plane:plane_coefficients", lambda *a: tuple(S.real("c") for _ in range(4)))
    files = S.c.ghost.setdefault("files", {})
    X = I.ext_models
    X["builtins.open"] = lambda I, path, mode="r", **k: OpenFile(path, mode)
    X["json.dump"] = lambda I, v, f, **k: store(S, f, v)
    X["json.load"] = lambda I, f: load(S, f)
    X["pathlib.Path"] = lambda I, p: FilePath()
    plain = lambda *names: (lambda I, *a, **k: PyDict({**dict(zip(names, a)), **k}))
    for nm, names in (("Mesh", ("mesh_id", "coordinates", "indices")), ("Element", ("mesh_id", "vector", "rotation", "guid", "type", "color", "info")), ("Color", "rgba"), ("Rotation", ("qx", "qy", "qz", "qw")), ("Vector", "xyz")):
        X[f"dotbimpy.{nm}"] = plain(*names)
    X["dotbimpy.File"] = lambda I, *a, **k: BimFile(S, PyDict({**dict(zip(("schema_version", "meshes", "elements", "info"), a)), **k}))


class OpenFile:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def _vc_enter(self, I):
        return self


class FilePath:
    """the directory of the file exists"""

    def _vc_attr(self, I, nm):
        from pyvc.interp import Builtin

        if nm == "parent":
            return self
        if nm == "exists":
            return Builtin(nm, lambda I: True)
        raise Unsupported(f"Path.{nm}")


class BimFile:
    def __init__(self, S, d):
        self.S, self.d = S, d

    def _vc_attr(self, I, nm):
        from pyvc.interp import Builtin

        if nm == "save":
            return Builtin(nm, lambda I, path: store(self.S, OpenFile(path, "w"), self.d))
        raise Unsupported(f"File.{nm}")


def encode(v):
    """what JSON keeps: dicts with string keys in order, lists, numbers, strings"""
    if isinstance(v, PyDict):
        expect(v.d is not None and all(isinstance(k, (str, SStr)) for k in v.d), "JSON keys")
        return PyDict({k: encode(x) for k, x in v.d.items()})
    if isinstance(v, PyList):
        expect(v.items is not None)
        return PyList([encode(x) for x in v.items])
    if isinstance(v, tuple):
        return PyList([encode(x) for x in v])
    if v is None or isinstance(v, (str, SStr)) or is_num(v):
        return v
    raise PyRaise("TypeError", ("not JSON serializable",), ("Exception",))


def store(S, f, v):
    if f.mode != "w":
        raise Unsupported("file mode")
    S.c.ghost["files"][f.path] = encode(v)


def load(S, f):
    if f.mode != "r":
        raise Unsupported("file mode")
    if f.path not in S.c.ghost["files"]:
        S.c.raise_exc("FileNotFoundError", bases=("OSError", "Exception"))
    return encode(S.c.ghost["files"][f.path])


def inputs(shape, sizes):
    def f(S):
        b, objs = H.sym_building(S, shape)
        taken = []
        k = 0
        for names, o in objs:
            o.f["uid"] = S.str("uid")
            o.f["num"] = None
            taken += [o.f["uid"], o.f["name"]]
            if len(names) == 5:
                n = sizes[k % len(sizes)]
                k += 1
                o.f["pts"] = S.points("pts", n)
                o.f["tri"] = CArr(np.array(TRIS[n], dtype=object), "i")
                o.f["vn"] = normal_of(o.f["pts"], TRIS[n][0])
        S.c.assume(H.zb_(so.distinct(S, [o.f["uid"] for _, o in objs])))
        S.c.ghost["taken"] = taken
        return dict(b=b, objs=objs)

    return f


def kids(o):
    for field in CHILD.values():
        if field in o.f:
            return list(o.f[field].d.items())
    return []


def same_tree(S, x, y, names=True, uids=lambda depth: False, depth=0):
    """facts that say that y is a copy of x"""
    if depth == 4:
        yield "points", S.eq(x.f["pts"], y.f["pts"])
        yield "triangles", S.eq(x.f["tri"], y.f["tri"])
        yield "outward directions", S.eq(x.f["vn"], y.f["vn"])
    if names:
        yield "names", S.eq(x.f["name"], y.f["name"])
    if uids(depth):
        yield "ids", S.eq(x.f["uid"], y.f["uid"])
    if depth < 4:
        a, b = kids(x), kids(y)
        yield "hierarchy", len(a) == len(b)
        for (k1, c1), (k2, c2) in zip(a, b):
            yield "hierarchy", S.And(S.eq(k2, c2.f["name"]), c2.f["_parent"] is y)
            yield from same_tree(S, c1, c2, names, uids, depth + 1)


def copied(S, x, y, names, uids):
    out = {}
    for nm, p in same_tree(S, x, y, names, uids):
        out.setdefault(nm, []).append(p)
    for nm, ps in out.items():
        yield f"{nm} preserved", S.And(*ps)


# ------------------------------------------------------------------ .b3d, .bim
def io_invoke(mod, fmt):
    def invoke(S, I, a):
        path = "model." + fmt
        nm = "b3d" if fmt == "b3d" else "dotbim"
        I.call_fq(f"{mod}:write_{nm}", [path, a["b"]])
        return I.call_fq(f"{mod}:read_{nm}", [path])

    return invoke


def io_post(uids, real):
    def post(S, a, r, old):
        if not S.sym:
            yield from real(S, a, r, old)
            return
        yield from copied(S, a["b"], r, True, uids)

    return post


SH = [([[[1]]], (4,)), ([[[2, 1]]], (3, 4, 5)), ([[[1], [1]], [[1]]], (4, 3)), ([[[1, 1], [1]]], (3, 6))]
LBL = lambda sh, n: f"any names, ids, coordinates; zones -> solids -> polygons per wall {sh}, corners {n}"
GEO = [NORMAL]
Contract("b3d_round_trip_symbolic", None, ["P05"], bounded=[(LBL(*x), inputs(*x)) for x in SH] + [(LBL(x, 0), inputs(x, (3,))) for x in ([], [[]], [[[]], []], [[[0, 1]]])], setup=setup, invoke=io_invoke(FI.B3, "b3d"), post=io_post(lambda d: d == 4, FI.b3d_post),
         gen=FI.io_gen, ngen=3, real=FI.io_real((FI.B3, "write_b3d"), (FI.B3, "read_b3d"), ".b3d"), frame=False, functions=[f"{FI.B3}:write_b3d", f"{FI.B3}:read_b3d", f"{POLY}:Polygon.__init__"], abstracts=GEO, bounded_wall=60)
Contract("bim_round_trip_symbolic", None, ["P05"], bounded=[(LBL(*x), inputs(*x)) for x in SH], setup=setup, invoke=io_invoke(FI.DB, "bim"), post=io_post(lambda d: False, FI.bim_post),
         gen=FI.io_gen, ngen=3, real=FI.io_real((FI.DB, "write_dotbim"), (FI.DB, "read_dotbim"), ".bim"), frame=False, functions=[f"{FI.DB}:write_dotbim", f"{FI.DB}:read_dotbim", f"{POLY}:Polygon.__init__"], abstracts=GEO, bounded_wall=60)


# ------------------------------------------------------------------ array format
def af_invoke(S, I, a):
    call = lambda nm, *x: I.call_fq(f"{FI.AF}:{nm}", list(x))
    arrs = call("to_array_format", a["b"])
    ps = [o for names, o in a["objs"] if len(names) == 5]
    cut = [call("get_polygon_points_and_faces", arrs[0], arrs[1], arrs[2], k) for k in range(len(ps))]
    return dict(arrs=arrs, cut=cut, counts=call("count_objects", a["b"]), back=call("from_array_format", *arrs))


def af_post(S, a, r, old):
    if not S.sym:
        yield from FI.af_post(S, a, r, old)
        return
    level = lambda d: [o for names, o in a["objs"] if len(names) == d]
    zs, ss, ws, ps = (level(d) for d in (2, 3, 4, 5))
    pts, faces, polygons, walls, solids, zones = r["arrs"]
    np_, nf = (sum(p.f[k].a.shape[0] for p in ps) for k in ("pts", "tri"))
    yield "array sizes", [tuple(x.shape) for x in r["arrs"]] == [(np_, 3), (nf, 3), (nf,), (len(ps),), (len(ws),), (len(ss),)]
    yield "object counts", S.eq(r["counts"], (len(zs), len(ss), len(ws), len(ps), nf, np_))
    yield "objects are numbered consecutively in hierarchy order", S.And(*[S.eq(o.f["num"], k) for l in (zs, ss, ws, ps) for k, o in enumerate(l)])
    yield "stored wall, solid and zone numbers are those of the owners", S.And(*[S.eq(S.el(arr, k), o.f["_parent"].f["num"]) for l, arr in ((ps, walls), (ws, solids), (ss, zones)) for k, o in enumerate(l)])
    yield "points and faces of each polygon are cut back out", S.And(*[S.And(S.eq(c[0], p.f["pts"]), S.eq(c[1], p.f["tri"])) for c, p in zip(r["cut"], ps)])
    yield from copied(S, a["b"], r["back"], False, lambda d: False)


def af_inputs(shape, sizes):
    """numbers left from an earlier conversion"""
    def f(S):
        a = inputs(shape, sizes)(S)
        for _, o in a["objs"]:
            o.f["num"] = S.int("stale")
        return a

    return f


Contract("array_format_symbolic", None, ["P04"], bounded=[(LBL(*x), af_inputs(*x)) for x in SH + [([[[2]], [[1, 1], [2]]], (3, 4))]], setup=setup, invoke=af_invoke, post=af_post, abstracts=GEO,
         gen=FI.af_gen, ngen=3, real=FI.af_real, frame=False, functions=[f"{FI.AF}:{n}" for n in ("to_array_format", "from_array_format", "count_objects", "get_polygon_points_and_faces")] + [f"{POLY}:Polygon.__init__"], bounded_wall=60)
