"""Bounded proofs about text: STL files of small buildings with any coordinates, wildcard paths with any numbers."""
import re

import numpy as np
from contracts import files as FI, formats as FO, hierarchy as H

from pyvc import symobj as so, tokens
from pyvc.contract import Contract, abstract, expect
from pyvc.interp import Builtin
from pyvc.values import CArr, PyDict, PyList, Unsupported

TRIANG = "building3d.geom.triangles:triangulate"


class TextFile:
    def __init__(self, S, path, mode):
        self.S, self.path, self.mode = S, path, mode

    def _vc_enter(self, I):
        if self.mode == "w":
            self.S.c.ghost["texts"][self.path] = ""
        elif self.path not in self.S.c.ghost["texts"]:
            self.S.c.raise_exc("FileNotFoundError", bases=("OSError", "Exception"))
        return self

    def _vc_attr(self, I, nm):
        T = self.S.c.ghost["texts"]

        def write(I, s):
            expect(self.mode == "w" and isinstance(s, str))
            T[self.path] += s

        def lines():
            expect(self.mode == "r")
            return PyList(T[self.path].splitlines(keepends=True))

        m = dict(write=write, writelines=lambda I, l: [write(I, x) for x in I.unpack(l)] and None, readlines=lambda I: lines(), read=lambda I: T[self.path])
        if nm not in m:
            raise Unsupported(f"file.{nm}")
        return Builtin(nm, m[nm])


class PathOf:
    def __init__(self, p):
        self.p = p

    def _vc_attr(self, I, nm):
        if nm == "parent":
            return self
        if nm == "exists":
            return Builtin(nm, lambda I: True)
        if nm == "stem":
            return "model"
        raise Unsupported(f"Path.{nm}")


def setup(S, I):
    FO.setup(S, I)
    tokens.enable()
    S.c.ghost["texts"] = {}
    abstract(I, "building3d.random:random_id", lambda size: tokens.make(None))
    I.ext_models["builtins.open"] = lambda I, path, mode="r", **k: TextFile(S, path, mode)
    I.ext_models["pathlib.Path"] = lambda I, p: PathOf(p)

    def triang(pts, vn, num_try=0):
        expect(pts.shape[0] == 3)
        return pts, CArr(np.array([[0, 1, 2]], dtype=object), "i")

    abstract(I, TRIANG, triang)


def stl_inputs(shape, sizes):
    def f(S):
        tokens.enable()
        b, objs = H.sym_building(S, shape)
        k = 0
        for names, o in objs:
            o.f["uid"] = tokens.make(None)
            if len(names) == 5:
                n = sizes[k % len(sizes)]
                k += 1
                o.f["pts"] = S.points("pts", n)
                o.f["tri"] = CArr(np.array(FO.TRIS[n], dtype=object), "i")
                o.f["vn"] = FO.normal_of(o.f["pts"], FO.TRIS[n][0])
        return dict(b=b, objs=objs)

    return f


def stl_invoke(S, I, a):
    I.call_fq(f"{FI.ST}:write_stl", ["model.stl", a["b"]])
    return I.call_fq(f"{FI.ST}:read_stl", ["model.stl"])


def turned(S, t, u):
    """the same triangle with the same orientation"""
    return S.Or(*[S.And(*[S.eq(t[(k + i) % 3], u[i]) for i in range(3)]) for k in range(3)])


def stl_post(S, a, r, old):
    if not S.sym:
        yield from FI.stl_post(S, a, r, old)
        return
    below = lambda o: [p for _, c in FO.kids(o) for p in (below(c) if FO.kids(c) else [c])]
    rows = lambda arr: [CArr(arr.a[i], "f") for i in range(arr.a.shape[0])]
    ss = [o for names, o in a["objs"] if len(names) == 3]
    back = [s for _, z in FO.kids(r) for _, s in FO.kids(z)]
    yield "one solid per solid", len(ss) == len(back)
    for s, t in zip(ss, back):
        want = [[rows(p.f["pts"])[int(k)] for k in tri] for p in below(s) if "pts" in p.f for tri in p.f["tri"].a]
        got = [rows(p.f["pts"]) for p in below(t) if "pts" in p.f]
        yield "solid ids preserved", S.eq(s.f["uid"], t.f["uid"])
        yield "one polygon per triangle", len(want) == len(got) and all(len(x) == 3 for x in got)
        yield "every triangle is a polygon of its solid", S.And(*[S.Or(*[turned(S, x, y) for y in got]) for x in want])
        yield "every polygon is a triangle of its solid", S.And(*[S.Or(*[turned(S, x, y) for x in want]) for y in got])


Contract("stl_round_trip_symbolic", None, ["P06"], bounded=[(FO.LBL(*x), stl_inputs(*x)) for x in (([[[1]]], (3,)), ([[[1]]], (5,)), ([[[1, 1]]], (3, 4)), ([[[1], [1]], [[1]]], (3,)), ([[[2], [0, 1]]], (3,)))], setup=setup, invoke=stl_invoke, post=stl_post,
         gen=FI.stl_gen, ngen=3, real=FI.stl_real, frame=False, functions=[f"{FI.ST}:write_stl", f"{FI.ST}:read_stl"], bounded_wall=60)


# ------------------------------------------------------------------ wildcard paths
WPQ = f"{FI.WP}:WildcardPath"


class Match:
    def __init__(self, m):
        self.m = m

    def _vc_attr(self, I, nm):
        if nm == "groupdict":
            return Builtin(nm, lambda I: PyDict(self.m.groupdict()))
        if nm == "group":
            return Builtin(nm, lambda I, *a: self.m.group(*a))
        if nm == "groups":
            return Builtin(nm, lambda I: tuple(self.m.groups()))
        raise Unsupported(f"match.{nm}")

    def _vc_truth(self, I):
        return True


class Regex:
    def __init__(self, p):
        expect(isinstance(p, str))
        self.re = re.compile(tokens.regex(p))

    def _vc_attr(self, I, nm):
        if nm in ("match", "search", "fullmatch"):
            def f(I, s):
                m = getattr(self.re, nm)(s)
                return None if m is None else Match(m)

            return Builtin(nm, f)
        if nm in ("sub", "findall"):
            def g(I, *a):
                r = getattr(self.re, nm)(*a)
                return PyList(r) if isinstance(r, list) else r

            return Builtin(nm, g)
        raise Unsupported(f"pattern.{nm}")


class Tree:
    """a directory with given paths in it"""

    def __init__(self, S, p):
        self.S, self.p = S, p

    def _vc_attr(self, I, nm):
        if nm in ("glob", "rglob"):
            def f(I, pat):
                expect(pat == ("**/*" if nm == "glob" else "*"))
                return PyList([x for x in self.S.c.ghost["tree"] if x.startswith(self.p + "/")])

            return Builtin(nm, f)
        raise Unsupported(f"Path.{nm}")


def wp_setup(S, I):
    tokens.enable()
    X = I.ext_models
    X["re.compile"] = lambda I, p: Regex(p)
    X["re.escape"] = lambda I, s: re.escape(s)
    for nm in ("match", "search", "fullmatch", "sub", "findall"):
        X[f"re.{nm}"] = lambda I, p, *a, nm=nm: Regex(p)._vc_attr(I, nm).fn(I, *a)
    X["pathlib.Path"] = lambda I, p: Tree(S, p)


# patterns, wildcards, and paths in the tree that the pattern cannot produce
PATTERNS = [
    ("pos_<step>.npy", ["step"], ["pos_{0}_npy", "pos_{0}.npy.bak", "xpos_{0}.npy", "pos_.npy", "pos_x.npy", "pos_{0}", "pos_{0}.npyx"]),
    ("job_<job>/file_<job>_<step>.csv", ["job", "step"], ["job_{0}/file_{0}.csv", "job_{0}/file_{0}_{1}_csv", "job_{0}/file_{0}_{1}.csv/x.txt"]),
    ("a+b_<n>/run(1)_<n1>.tar.gz", ["n", "n1"], ["aab_{0}/run(1)_{1}.tar.gz", "a+b_{0}/run1_{1}.tar.gz", "a+b_{0}run(1)_{1}.tar.gz"]),
    ("<a>_<a_0>-<a>", ["a", "a_0"], ["{0}_{1}", "{0}-{1}-{0}"]),
    ("x.<n>", ["n"], ["x_{0}", "xx{0}", "y/x_{0}", "x.{0}k"]),
    ("plain.txt", [], ["plain_txt", "aplain.txt"]),
]


def fill_in(pat, names, vals):
    for k, v in zip(names, vals):
        pat = pat.replace(f"<{k}>", v)
    return pat


def wp_inputs(pat, names, others, same):
    def f(S):
        tokens.enable()
        mk = lambda tag: [S.int(f"{tag}_{k}", lo=0) for k in names]
        v, w = mk("v"), mk("w")
        if same and names:
            w[0] = v[0]
        text = lambda vals: [tokens.make(x) for x in vals]
        tv, tw = text(v), text(w)
        tree = ["data/" + fill_in(pat, names, tv), "data/" + fill_in(pat, names, tw), "data/deep/down/" + fill_in(pat, names, tv)]
        tree += ["data/" + x.format(*tv) for x in others]
        if names:
            S.c.assume(H.zb_(S.Not(S.And(*[S.eq(x, y) for x, y in zip(v, w)]))))
        S.c.ghost["tree"] = list(dict.fromkeys(tree))
        return dict(v=v, w=w, pat=pat, names=names)

    return f


def wp_invoke(S, I, a):
    w = I.call(so.cls(I, WPQ), [a["pat"]])
    call = lambda nm, *x, **k: I.call(I.getattr(w, nm), list(x), k)
    kv = dict(zip(a["names"], a["v"]))
    r = dict(fill=call("fill", parent="data", **kv), bare=call("fill", **kv), d=call("get_matching_paths_dict_values", "data"), all=call("get_matching_paths", "data"))
    r["one"] = call("get_matching_paths", "data", **kv) if kv else None
    first = dict(list(kv.items())[:1])
    r["part"] = call("get_matching_paths", "data", **first) if kv else None
    r["tup"] = call("get_matching_paths_namedtuple_keys", "data") if kv else None
    return r


def wp_post(S, a, r, old):
    if not S.sym:
        yield from FI.wp_post(S, a, r, old)
        return
    names, pat = a["names"], a["pat"]
    text = lambda vals: [tokens.make(x) for x in vals]
    pv, pw = (fill_in(pat, names, text(x)) for x in (a["v"], a["w"]))
    yield "filling replaces every wildcard by its value", r["bare"] == pv and r["fill"] == "data/" + pv
    want = {"data/" + pv: a["v"], "data/" + pw: a["w"], "data/deep/down/" + pv: a["v"]}
    d = r["d"].d
    yield "exactly the paths the pattern can produce are matched", set(d) == set(want) and sorted(r["all"].items) == sorted(want)
    if set(d) != set(want):
        return
    yield "with their values", S.And(*[S.And(set(d[p].d) == set(names), *[S.eq(d[p].d[k], x) for k, x in zip(names, want[p])]) for p in want if set(d[p].d) == set(names)], all(set(d[p].d) == set(names) for p in want))
    if not names:
        return
    has = lambda l, p: p in l.items
    yield "selecting by all values", S.And(has(r["one"], "data/" + pv), has(r["one"], "data/deep/down/" + pv), not has(r["one"], "data/" + pw), len(r["one"].items) == 2)
    yield "selecting by one value", S.And(has(r["part"], "data/" + pv), has(r["part"], "data/deep/down/" + pv), S.eq(has(r["part"], "data/" + pw), S.eq(a["v"][0], a["w"][0])))
    tup = list(r["tup"].d.items())
    ok = lambda k, vals: S.And(sorted(k.cls.fields) == sorted(names), *[S.eq(k.vals[k.cls.fields.index(n)], x) for n, x in zip(names, vals)])
    yield "named tuples lead to paths with their values", S.And(len(tup) == 2, *[p in want and ok(k, want[p]) for k, p in tup])


Contract("wildcard_paths_symbolic", None, ["P22"], bounded=[(f"{p}, any numbers{', one in common' if s else ''}", wp_inputs(p, n, o, s)) for p, n, o in PATTERNS for s in ([False, True] if len(n) > 1 else [False])], setup=wp_setup, invoke=wp_invoke, post=wp_post,
         gen=FI.wp_gen, ngen=4, real=FI.wp_real, frame=False, functions=[f"{WPQ}.{m}" for m in ("__init__", "fill", "get_matching_paths", "get_matching_paths_dict_values", "get_matching_paths_namedtuple_keys", "_find_wildcards", "_wildcards_to_regex", "_to_dict_with_namedtuple_keys")])
