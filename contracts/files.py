"""Array format, .b3d / .bim / .stl files, wildcard paths, recorded simulation states."""
import itertools
import os
import re
import shutil
import tempfile

import numpy as np

from pyvc import gen as G
from pyvc.contract import Contract

AF = "building3d.io.arrayformat"
B3 = "building3d.io.b3d"
DB = "building3d.io.dotbim"
ST = "building3d.io.stl"
WP = "building3d.paths.wildcardpath"
DU = "building3d.sim.rays.dump_buffers"


def scratch(fn):
    """run fn(dir) in a directory of its own"""
    d = tempfile.mkdtemp(prefix="verif_")
    try:
        return fn(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def odd_building(rng, empty=False, reuse=True):
    """several zones, solids, walls with several polygons, polygons of all shapes; names repeat between branches"""
    from building3d.geom.building import Building
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall
    from building3d.geom.zone import Zone

    lo = 0 if empty else 1
    pool = ["a", "b b", "c-1", "zażółć", "d.e", 'q"x', "solid", "a1", "a10", "a2", "A"]
    nm = pool[:7]
    zones = []
    for zi in range(rng.randint(lo, 3)):
        nm = G.names(rng, 7, pool) if rng.random() < 0.5 else nm
        solids = []
        for si in range(rng.randint(lo, 2)):
            walls = []
            for wi in range(rng.randint(lo, 3)):
                walls.append(Wall([G.mk_polygon(rng, name=f"{nm[pi]}") for pi in range(rng.randint(lo, 3))], name=nm[wi]))
            solids.append(Solid(walls, name=nm[si]))
        free = [x for x in nm if all(x != z.name for z in zones)]
        zones.append(Zone(solids, name=free[0]))
    return Building(zones, name=rng.choice(nm))


def tree(b, uids=False):
    """comparable description of a building: nested lists in order"""
    def u(x):
        return x.uid if uids else None

    return [[z.name, u(z), [[s.name, u(s), [[w.name, u(w), [[p.name, u(p)] for p in w.polygons.values()]] for w in s.walls.values()]] for s in z.solids.values()]] for z in b.zones.values()]


def geo(b):
    return [(p.pts.copy(), p.tri.copy(), np.array(p.vn)) for p in G.polys(b)]


def same_geo(g1, g2, exact=True):
    if len(g1) != len(g2):
        return False
    for (a, t, n), (b, u, m) in zip(g1, g2):
        if a.shape != b.shape or t.shape != u.shape or not np.array_equal(t, u):
            return False
        if not (np.array_equal(a, b) if exact else np.allclose(a, b, rtol=0, atol=1e-12)):
            return False
        if not np.allclose(n, m, atol=1e-9):
            return False
    return True


# ------------------------------------------------------------------ array format
def af_gen(rng, i):
    k = i % 5
    from building3d.geom.building import Building

    if k < 3:
        b = odd_building(rng)
    elif k == 3:
        b = G.building(rng, 3, 2)
    else:
        # numbers left from an earlier conversion
        b = odd_building(rng)
        for p in G.polys(b):
            p.num = rng.randint(0, 50)
    if rng.random() < 0.3:  # a zone or a solid in the middle is taken out and put back at the end
        z = rng.choice(list(b.zones.values()))
        b.zones.pop(z.name)
        b.zones[z.name] = z
    return dict(b=b)


def af_real(a):
    import importlib

    m = importlib.import_module(AF)
    b = a["b"]
    arrs = m.to_array_format(b)
    nums = [[(z.num, s.num, w.num, p.num) for z in b.zones.values() for s in z.solids.values() for w in s.walls.values() for p in w.polygons.values()]]
    cut = [m.get_polygon_points_and_faces(arrs[0], arrs[1], arrs[2], k) for k in range(len(arrs[3]))]
    back = m.from_array_format(*arrs)
    return dict(arrs=arrs, nums=nums[0], cut=cut, back=back, counts=m.count_objects(b))


def af_post(S, a, r, old):
    b = a["b"]
    pts, faces, polygons, walls, solids, zones = r["arrs"]
    ps = G.polys(b)
    ws = [w for z in b.zones.values() for s in z.solids.values() for w in s.walls.values()]
    ss = [s for z in b.zones.values() for s in z.solids.values()]
    zs = list(b.zones.values())
    yield "array sizes", len(pts) == sum(len(p.pts) for p in ps) and len(faces) == len(polygons) == sum(len(p.tri) for p in ps) and len(walls) == len(ps) and len(solids) == len(ws) and len(zones) == len(ss)
    yield "object counts", tuple(r["counts"]) == (len(zs), len(ss), len(ws), len(ps), len(faces), len(pts))
    yield "polygons are numbered consecutively in hierarchy order", [n[3] for n in r["nums"]] == list(range(len(ps)))
    ok = True
    for (zn, sn, wn, pn), p in zip(r["nums"], ps):
        ok = ok and walls[pn] == wn and solids[wn] == sn and zones[sn] == zn
        ok = ok and any(q is p for q in ws[wn].polygons.values()) and any(w is ws[wn] for w in ss[sn].walls.values()) and any(s is ss[sn] for s in zs[zn].solids.values())
    yield "stored wall, solid and zone numbers are those of the owners", ok
    yield "points and faces of each polygon are cut back out", all(np.array_equal(c[0], p.pts) and np.array_equal(c[1], p.tri) for c, p in zip(r["cut"], ps))
    back = r["back"]
    yield "same hierarchy sizes", [[[len(w.polygons) for w in s.walls.values()] for s in z.solids.values()] for z in back.zones.values()] == [[[len(w.polygons) for w in s.walls.values()] for s in z.solids.values()] for z in b.zones.values()]
    yield "same polygon geometry in the same order", same_geo(geo(back), geo(b))


Contract("array_format", None, ["P04"], gen=af_gen, ngen=30, real=af_real, post=af_post, frame=False,
         functions=[f"{AF}:to_array_format", f"{AF}:from_array_format", f"{AF}:count_objects", f"{AF}:get_polygon_points_and_faces"])


# ------------------------------------------------------------------ cutting a polygon out of the arrays
def cut_gen(rng, i):
    """consecutive blocks of points; faces of the polygons may be interleaved"""
    nb = rng.randint(1, 4)
    pts, faces, polygons, blocks = [], [], [], []
    off = 0
    for b in range(nb):
        n = rng.randint(3, 7)
        tri = [[0, k, k + 1] for k in range(1, n - 1)]
        tri = [t[j:] + t[:j] for t in tri for j in [rng.randrange(3)]]
        blocks.append((n, tri))
        pts += [[rng.uniform(-5, 5) for _ in range(3)] for _ in range(n)]
        for t in tri:
            faces.append([x + off for x in t])
            polygons.append(b)
        off += n
    if rng.random() < 0.5:
        o = list(range(len(faces)))
        rng.shuffle(o)
        faces, polygons = [faces[k] for k in o], [polygons[k] for k in o]
    return dict(points=np.array(pts), faces=np.array(faces), polygons=np.array(polygons), poly_num=rng.randrange(nb))


def cut_post(S, a, r, old):
    P, F, Q, k = old["points"], old["faces"], old["polygons"], old["poly_num"]
    used = sorted({int(x) for f, q in zip(F, Q) if q == k for x in f})
    yield "the points used by the polygon's faces, in order", np.array_equal(r[0], P[used])
    want = [[used.index(int(x)) for x in f] for f, q in zip(F, Q) if q == k]
    yield "its faces, renumbered, in order", np.array_equal(r[1], want)


Contract("get_polygon_points_and_faces", f"{AF}:get_polygon_points_and_faces", ["P04"], gen=cut_gen, ngen=60, post=cut_post)


# ------------------------------------------------------------------ .b3d and .bim
def io_gen(rng, i):
    return dict(b=odd_building(rng, empty=i % 3 == 0), sub=rng.choice(["", "x/y"]))


def io_real(write, read, ext):
    def f(a):
        import importlib

        def go(d):
            b = a["b"]
            p1 = os.path.join(d, a["sub"], "one" + ext)
            wm, wf = write
            before = (tree(b, True), geo(b))
            getattr(importlib.import_module(wm), wf)(p1, b)
            after = (tree(b, True), geo(b))
            r1 = getattr(importlib.import_module(read[0]), read[1])(p1)
            # the file is read again from elsewhere, after the original was changed
            p2 = os.path.join(d, "two" + ext)
            shutil.move(p1, p2)
            for p in G.polys(b):
                p.pts = p.pts + 1.0
            r2 = getattr(importlib.import_module(read[0]), read[1])(p2)
            return dict(before=before, after=after, r1=r1, r2=r2)

        return scratch(go)

    return f


def b3d_post(S, a, r, old):
    b = old["b"]
    t = lambda x: [x.name, tree(x)]
    yield "writing does not change the building", r["before"][0] == r["after"][0] and same_geo(r["before"][1], r["after"][1])
    for k in ("r1", "r2"):
        yield f"same names, hierarchy and order ({k})", t(r[k]) == t(b)
        yield f"same polygon ids ({k})", [p.uid for p in G.polys(r[k])] == [p.uid for p in G.polys(b)]
        yield f"same points, triangles and outward directions ({k})", same_geo(geo(r[k]), r["before"][1])


Contract("b3d_round_trip", None, ["P05"], gen=io_gen, ngen=25, real=io_real((B3, "write_b3d"), (B3, "read_b3d"), ".b3d"), post=b3d_post, frame=False, functions=[f"{B3}:write_b3d", f"{B3}:read_b3d"])


def prune(t):
    """containers without polygons are not representable in .bim"""
    out = []
    for zn, zu, ss in t:
        s2 = []
        for sn, su, ws in ss:
            w2 = [w for w in ws if w[2]]
            if w2:
                s2.append([sn, su, w2])
        if s2:
            out.append([zn, zu, s2])
    return out


def bim_post(S, a, r, old):
    b = old["b"]
    yield "writing does not change the building", r["before"][0] == r["after"][0] and same_geo(r["before"][1], r["after"][1])
    for k in ("r1", "r2"):
        yield f"same building name and id ({k})", (r[k].name, r[k].uid) == (b.name, b.uid)
        yield f"same names, ids, hierarchy and order ({k})", tree(r[k], True) == prune(r["before"][0])
        yield f"same points, triangles and outward directions ({k})", same_geo(geo(r[k]), r["before"][1])


Contract("bim_round_trip", None, ["P05"], gen=io_gen, ngen=25, real=io_real((DB, "write_dotbim"), (DB, "read_dotbim"), ".bim"), post=bim_post, frame=False, functions=[f"{DB}:write_dotbim", f"{DB}:read_dotbim"])


# ------------------------------------------------------------------ STL
def stl_gen(rng, i):
    if i % 3 == 0:
        return dict(b=G.building(rng, 2, 2), sub="")
    return dict(b=odd_building(rng), sub=rng.choice(["", "x/y"]))


def parse_stl(txt):
    """independent reader: [(solid name, [(normal, (3,3) vertices)])]"""
    out, cur, n, vs = [], None, None, []
    for ln in txt.splitlines():
        w = ln.split()
        if not w:
            continue
        if w[0] == "solid":
            cur = (" ".join(w[1:]), [])
            out.append(cur)
        elif w[0] == "facet":
            n, vs = [float(x) for x in w[2:5]], []
        elif w[0] == "vertex":
            vs.append([float(x) for x in w[1:4]])
        elif w[0] == "endfacet":
            cur[1].append((np.array(n), np.array(vs)))
    return out


def stl_real(a):
    import importlib

    m = importlib.import_module(ST)

    def go(d):
        p = os.path.join(d, a["sub"], "model.stl")
        m.write_stl(p, a["b"])
        with open(p) as f:
            txt = f.read()
        return dict(stl=parse_stl(txt), back=m.read_stl(p))

    return scratch(go)


def cyc_eq(a, b, tol=0.0):
    return any(np.allclose(np.roll(a, k, axis=0), b, rtol=0, atol=tol) for k in range(3))


def stl_post(S, a, r, old):
    b = a["b"]
    ss = [s for z in b.zones.values() for s in z.solids.values()]
    want = [[p.pts[list(t)] for w in s.walls.values() for p in w.polygons.values() for t in p.tri] for s in ss]
    got = r["stl"]
    yield "one STL solid per solid", len(got) == len(ss)
    yield "one facet per triangle", [len(g[1]) for g in got] == [len(w) for w in want]
    ok = okn = True
    for (nm, fs), w in zip(got, want):
        for (n, vs), t in zip(fs, w):
            ok = ok and vs.shape == (3, 3) and cyc_eq(vs, t, 1e-12)
            okn = okn and abs(np.linalg.norm(n) - 1) < 1e-6 and np.dot(n, np.cross(vs[1] - vs[0], vs[2] - vs[0])) > 0
    yield "vertices of each facet in cyclic order", ok
    yield "facet normals agree with the vertex order", okn
    back = r["back"]
    yield "one polygon per facet, in one solid per STL solid", [sum(len(w.polygons) for w in s.walls.values()) for z in back.zones.values() for s in z.solids.values()] == [len(w) for w in want]
    flat = [t for w in want for t in w]
    bp = G.polys(back)
    yield "surfaces read back are the triangles", len(bp) == len(flat) and all(len(p.pts) == 3 and cyc_eq(p.pts, t, 1e-12) for p, t in zip(bp, flat))
    yield "their orientation is kept", all(np.dot(p.vn, np.cross(t[1] - t[0], t[2] - t[0])) > 0 for p, t in zip(bp, flat))


Contract("stl_round_trip", None, ["P06"], gen=stl_gen, ngen=30, real=stl_real, post=stl_post, frame=False, functions=[f"{ST}:write_stl", f"{ST}:read_stl"])


def soup_gen(rng, i):
    sol = []
    for k in range(rng.randint(1, 3)):
        fs = []
        for _ in range(rng.randint(1, 5)):
            pts, n = G.polygon3d(rng, names=["tri"])
            fs.append((n, np.array(pts)))
        sol.append((rng.choice(["", f"part {k}", "solid7", f"n{k}"]), fs))
    if len({s[0] for s in sol if s[0]}) < len([s for s in sol if s[0]]):
        return soup_gen(rng, i + 1)
    return dict(sol=sol, ind=rng.choice(["", "  ", "\t"]), e=rng.random() < 0.4)


def soup_real(a):
    import importlib

    m = importlib.import_module(ST)
    f = (lambda x: f"{x:.17e}") if a["e"] else repr
    L = []
    for nm, fs in a["sol"]:
        L.append(f"solid {nm}".rstrip())
        for n, vs in fs:
            L.append(a["ind"] + "facet normal " + " ".join(f(float(x)) for x in n))
            L.append(a["ind"] * 2 + "outer loop")
            for v in vs:
                L.append(a["ind"] * 3 + "vertex " + " ".join(f(float(x)) for x in v))
            L.append(a["ind"] * 2 + "endloop")
            L.append(a["ind"] + "endfacet")
        L.append(f"endsolid {nm}".rstrip())

    def go(d):
        p = os.path.join(d, "soup.stl")
        with open(p, "w") as fh:
            fh.write("\n".join(L) + "\n")
        return m.read_stl(p)

    return scratch(go)


def soup_post(S, a, r, old):
    want = [[vs for n, vs in fs] for nm, fs in old["sol"]]
    got = [[p.pts for w in s.walls.values() for p in w.polygons.values()] for z in r.zones.values() for s in z.solids.values()]
    yield "one solid per STL solid and one polygon per facet", [len(g) for g in got] == [len(w) for w in want]
    yield "surfaces read are the facets", all(len(x) == 3 and cyc_eq(x, t, 1e-12) for g, w in zip(got, want) for x, t in zip(g, w))


Contract("read_stl", None, ["P06"], gen=soup_gen, ngen=30, real=soup_real, post=soup_post, frame=False, functions=[f"{ST}:read_stl"])


# ------------------------------------------------------------------ wildcard paths
LIT = ["pos_", "x.", "data-", "v1.0_", "a+b_", "run(1)_", "e[0]_", "_", "", "k", "^s_", "p$_", "q|r_"]
WN = ["n", "step", "job", "a", "a_0", "n1", "n_1"]


def wp_gen(rng, i):
    """a pattern, values to fill in, and other files around"""
    names = rng.sample(WN, rng.randint(1, 3))
    comps = []
    for ci in range(rng.randint(1, 3)):
        c = ""
        for _ in range(rng.randint(1, 2)):
            lit = rng.choice(LIT)
            if c and not lit:
                lit = "_"
            if c and (lit[0].isdigit() or lit == "k"):
                lit = "_" + lit
            c += lit + f"<{rng.choice(names)}>"
        c += rng.choice(["", ".npy", ".tar.gz", "x"])
        comps.append(c)
    pat = "/".join(comps)
    used = sorted(set(re.findall("<([^<>]+)>", pat)))
    vals = []
    for _ in range(rng.randint(1, 4)):
        v = {u: rng.choice([0, 1, 7, 10, 12, 123456, rng.randint(0, 30)]) for u in used}
        if v not in vals:
            vals.append(v)
    return dict(pat=pat, used=used, vals=vals, seed=rng.randrange(10**6), dup=len(re.findall("<([^<>]+)>", pat)) > len(used))


def wp_real(a):
    import importlib
    import random

    W = importlib.import_module(WP).WildcardPath
    rng = random.Random(a["seed"])
    w = W(a["pat"])

    def touch(p):
        if os.path.exists(p):
            return
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        except (NotADirectoryError, FileExistsError, IsADirectoryError):
            pass

    def go(d):
        filled = [w.fill(parent=d, **v) for v in a["vals"]]
        for p in filled:
            touch(p)
        # neighbours that the pattern cannot produce
        for p in filled:
            rel = os.path.relpath(p, d)
            k = rng.randrange(5)
            if k == 0:
                touch(os.path.join(d, rel + "z"))
            elif k == 1:
                touch(os.path.join(d, "y" + rel))
            elif k == 2 and "." in rel:
                touch(os.path.join(d, rel.replace(".", "_")))
            elif k == 3:
                j = rng.randrange(len(rel))
                if rel[j].isdigit():
                    touch(os.path.join(d, rel[:j] + "w" + rel[j + 1 :]))
            else:
                touch(os.path.join(d, "other", "notes.txt"))
        files = sorted(str(os.path.join(q, f)) for q, ds, fs in os.walk(d) for f in fs + ds)
        out = dict(d=d, filled=filled, files=files)
        try:
            out["dict"] = w.get_matching_paths_dict_values(d)
            out["tup"] = {p: k._asdict() for k, p in w.get_matching_paths_namedtuple_keys(d).items()}
            out["all"] = w.get_matching_paths(d)
            out["one"] = [w.get_matching_paths(d, **v) for v in a["vals"]]
            u = a["used"][0]
            out["part"] = w.get_matching_paths(d, **{u: a["vals"][0][u]})
        except AssertionError:
            out["dict"] = None
        return out

    return scratch(go)


def wp_expected(pat, rel):
    """values with which the pattern produces the end of rel (whole components), or None"""
    toks = re.split("<([^<>]+)>", pat)

    def m(s, i, env):
        if i == len(toks):
            return env if s == "" else None
        if i % 2 == 0:
            return m(s[len(toks[i]) :], i + 1, env) if s.startswith(toks[i]) else None
        j = 0
        while j < len(s) and s[j].isdigit():
            j += 1
        for e in range(j, 0, -1):
            v = int(s[:e])
            if toks[i] in env and env[toks[i]] != v:
                continue
            x = m(s[e:], i + 1, {**env, toks[i]: v})
            if x is not None:
                return x
        return None

    parts = rel.split("/")
    n = pat.count("/") + 1
    if len(parts) < n:
        return None
    return m("/".join(parts[-n:]), 0, {})


def wp_post(S, a, r, old):
    def sub(p, v):
        for k, x in v.items():
            p = p.replace(f"<{k}>", str(x))
        return p

    yield "filling replaces every wildcard by its value", all(f == os.path.join(r["d"], sub(a["pat"], v)) for f, v in zip(r["filled"], a["vals"]))
    if r["dict"] is None:
        yield "a path is refused only when it has several values for one wildcard", a["dup"]
        return
    for f, v in zip(r["filled"], a["vals"]):
        yield "matching a filled path returns its values", r["dict"].get(f) == v
        yield "as named tuples too", r["tup"].get(f) == v or len([x for x in r["dict"].values() if x == v]) > 1
    yield "selecting by all values finds the filled path", all(f in o and all(r["dict"][x] == v for x in o) for f, o, v in zip(r["filled"], r["one"], a["vals"]))
    u = a["used"][0]
    yield "selecting by one value", sorted(r["part"]) == sorted(p for p, v in r["dict"].items() if v[u] == a["vals"][0][u])
    want = {f: e for f in r["files"] for e in [wp_expected(a["pat"], os.path.relpath(f, r["d"]))] if e is not None}
    yield "exactly the paths the pattern can produce are matched", set(r["dict"]) == set(want) and sorted(r["all"]) == sorted(want)


Contract("wildcard_paths", None, ["P22"], gen=wp_gen, ngen=120, real=wp_real, post=wp_post, frame=False,
         functions=[f"{WP}:WildcardPath.{m}" for m in ("__init__", "fill", "get_matching_paths", "get_matching_paths_dict_values", "get_matching_paths_namedtuple_keys", "_find_wildcards", "_wildcards_to_regex")])


def wf_gen(rng, i):
    a = wp_gen(rng, i)
    v = dict(a["vals"][0])
    k = i % 3
    if k == 0:
        v.pop(a["used"][0])
    elif k == 1:
        v["other"] = 3
    else:
        v["other"] = v.pop(a["used"][0])
    return dict(pat=a["pat"], v=v)


Contract("wildcard_fill_rejects", None, ["P22"], gen=wf_gen, ngen=20, real=lambda a: __import__(WP, fromlist=["x"]).WildcardPath(a["pat"]).fill(**a["v"]),
         raises=lambda S, old, e: e in ("ValueError", "KeyError"), post=lambda S, a, r, old: [("values that do not fit the wildcards are rejected", False)], frame=False, functions=[f"{WP}:WildcardPath.fill"])


def wm_real(a):
    import importlib

    w = importlib.import_module(WP).WildcardPath(a["pat"])

    def go(d):
        p = w.mkdir(d, **a["vals"][0])
        return dict(p=p, d=d, isdir=os.path.isdir(p), want=w.fill(parent=d, **a["vals"][0]), again=w.mkdir(d, **a["vals"][0]))

    return scratch(go)


Contract("wildcard_mkdir", None, ["P22"], gen=wp_gen, ngen=15, real=wm_real, frame=False, functions=[f"{WP}:WildcardPath.mkdir"],
         post=lambda S, a, r, old: [("the directory of the filled path is made", r["isdir"] and os.path.normpath(r["p"]) == os.path.normpath(r["want"]) and r["again"] == r["p"])])


# ------------------------------------------------------------------ recorded states
def du_gen(rng, i):
    n, k, m = rng.choice([1, 2, 3, 11, 12]), rng.randint(1, 4), rng.randint(0, 3)
    cut = sorted(rng.sample(range(1, n), rng.randint(0, min(2, n - 1)))) if n > 1 else []
    f = lambda *sh: np.array([rng.uniform(-3, 3) for _ in range(int(np.prod(sh)))]).reshape(sh)
    return dict(pos=f(n, k, 3), enr=f(n, k), hit=f(n, m), cut=cut, first=0)


def du_real(a):
    import importlib

    m = importlib.import_module(DU)
    from building3d.geom.building import Building
    from building3d.geom.solid.box import box
    from building3d.geom.zone import Zone
    from building3d.sim.rays.simulation_config import SimulationConfig

    cfg = SimulationConfig(Building([Zone([box(1, 1, 1)])]))

    def go(d):
        lo = 0
        for hi in a["cut"] + [len(a["pos"])]:
            # consecutive batches repeat the last state of the one before
            s = max(lo - 1, 0)
            m.dump_buffers(a["pos"][s:hi], a["enr"][s:hi], a["hit"][s:hi], d, cfg, init_step=a["first"] + s)
            lo = hi
        names = sorted(os.listdir(d))
        return names, m.read_buffers(d, cfg), [cfg.paths[k] for k in ("position_file", "energy_file", "hits_file")]

    return scratch(go)


def du_post(S, a, r, old):
    names, (pos, enr, hit), pats = r
    n = len(old["pos"])
    want = sorted(p.replace("<step>", str(old["first"] + k)) for p in pats for k in range(n))
    yield "one file per state and quantity", names == want
    yield "positions read back in step order", np.array_equal(pos, old["pos"])
    yield "energies read back in step order", np.array_equal(enr, old["enr"])
    yield "hits read back in step order", np.array_equal(hit, old["hit"])


Contract("recorded_states", None, ["P20"], gen=du_gen, ngen=40, real=du_real, post=du_post, functions=[f"{DU}:dump_buffers", f"{DU}:read_buffers"])
