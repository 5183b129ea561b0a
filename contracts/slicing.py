"""Slicing polygons and stitching solids."""
import importlib
import math

import numpy as np

from contracts import graphs as CG
from contracts import predicates as PR
from pyvc import gen as G
from pyvc.contract import Contract

SL = "building3d.geom.polygon.slice"
ST = "building3d.geom.solid.stitch"
PO = "building3d.geom.polygon"
BD = "building3d.geom.building"


def seg_hits(p, q, a, b):
    """do the open segments properly meet or nearly meet"""
    def cr(o, x, y):
        return (x[0] - o[0]) * (y[1] - o[1]) - (x[1] - o[1]) * (y[0] - o[0])

    d1, d2, d3, d4 = cr(a, b, p), cr(a, b, q), cr(p, q, a), cr(p, q, b)
    return d1 * d2 < 1e-9 and d3 * d4 < 1e-9


def chain_ok(p2, ch, m=0.08):
    """is the open chain strictly inside the polygon apart from its two ends, away from the border and from itself"""
    for i in range(len(ch) - 1):
        a, b = ch[i], ch[i + 1]
        if math.dist(a, b) < 0.15:
            return False
        for k in range(1, 40):
            t = k / 40
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            c, d = PR.in2d(p2, q)
            lim = m * min(1.0, 3 * min(t if i == 0 else 1, (1 - t) if i == len(ch) - 2 else 1))
            if c <= 0 or d < lim:
                return False
        for j in range(i + 2, len(ch) - 1):
            if seg_hits(a, b, ch[j], ch[j + 1]):
                return False
    if len(ch) == 4 and seg_hits(ch[0], ch[1], ch[2], ch[3]):
        return False
    return True


def on_edge(rng, p2, j):
    t = rng.choice([0.25, 0.5, 0.75, 0.4])
    a, b = p2[j], p2[(j + 1) % len(p2)]
    return (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))


def cut_gen(kinds, first_reflex=False):
    def gen(rng, i):
        for _ in range(400):
            p2 = G.shape2d(rng)
            a, b, c = p2[-1], p2[0], p2[1]
            cr = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
            if abs(cr) < 1e-6 or (cr < 0) != first_reflex:
                continue
            n = len(p2)
            kind = kinds[i % len(kinds)]
            nin = rng.choice([0, 0, 1, 2])
            if kind == "vv":
                j, k = rng.sample(range(n), 2)
                e0, e1 = p2[j], p2[k]
            elif kind == "ve":
                j, k = rng.randrange(n), rng.randrange(n)
                e0, e1 = p2[j], on_edge(rng, p2, k)
                if j in (k, (k + 1) % n):
                    nin = max(nin, 1)
            elif kind == "ee":
                j, k = rng.sample(range(n), 2)
                e0, e1 = on_edge(rng, p2, j), on_edge(rng, p2, k)
            else:  # same edge
                j = rng.randrange(n)
                a, b = p2[j], p2[(j + 1) % n]
                s, t = rng.choice([(0.25, 0.75), (0.2, 0.6), (0.75, 0.25), (0.5, 0.8)])
                e0, e1 = ((a[0] + x * (b[0] - a[0]), a[1] + x * (b[1] - a[1])) for x in (s, t))
                nin = rng.choice([1, 2, 2])
            ch = [e0] + [(rng.uniform(-2, 3), rng.uniform(-2, 3)) for _ in range(nin)] + [e1]
            if kind != "same" and nin and rng.random() < 0.6:  # zigzag along the straight cut
                dx, dy = e1[0] - e0[0], e1[1] - e0[1]
                ch = [e0] + [(e0[0] + (k + 1) / (nin + 1) * dx - q * dy, e0[1] + (k + 1) / (nin + 1) * dy + q * dx) for k in range(nin) for q in [rng.choice([-0.2, -0.1, 0.1, 0.2])]] + [e1]
            if kind == "same" and nin == 2 and rng.random() < 0.7:  # rectangular notch
                nx, ny = -(b[1] - a[1]), b[0] - a[0]
                h = rng.choice([0.2, 0.3])
                ch = [e0, (e0[0] + h * nx, e0[1] + h * ny), (e1[0] + h * nx, e1[1] + h * ny), e1]
            if rng.random() < 0.5:
                ch = ch[::-1]
            if not chain_ok(p2, ch):
                continue
            if kind in ("vv", "ve") and nin == 0 and min(math.dist(ch[0], ch[-1]), 1) < 0.2:
                continue
            u, v, nn = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg", "rand"]))
            o, s = G.gvec(rng), rng.choice([1.0, 0.5, 2.0])
            em = lambda q: o + s * (q[0] * u + q[1] * v)
            pts, sl = np.array([em(q) for q in p2]), np.array([em(q) for q in ch])
            dev = max(np.abs((np.vstack((pts, sl)) - pts[0]) @ c / np.linalg.norm(c)).max() for c in [np.cross(pts[1] - pts[0], pts[2] - pts[1])] if np.linalg.norm(c) > 1e-8) if np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[1])) > 1e-8 else 1
            if dev > 2e-14:
                continue
            # points of the ends on the border must be recognised as such
            probe = []
            for _ in range(30):
                q = (rng.uniform(-2, 3), rng.uniform(-2, 3))
                if PR.in2d(p2, q)[0] > 0 and PR.in2d(p2, q)[1] > 0.03:
                    probe.append(q)
            return dict(pts=pts, n=nn, sl=sl, kind=kind, p2=p2, ch=ch, probe=probe, frame=(o, s, u, v), names=rng.random() < 0.5)
        raise StopIteration

    return gen


def to2d(pts, fr):
    o, s, u, v = fr
    return [(float(np.dot(p - o, u)) / s, float(np.dot(p - o, v)) / s) for p in pts]


def cut_real(a, own_tri=False):
    m = importlib.import_module(SL)
    Pg = importlib.import_module(PO).Polygon
    # triangles given: the polygon keeps its first vertex
    p = Pg(a["pts"], name="whole", vn=a["n"], tri=importlib.import_module("building3d.geom.triangles").triangulate(a["pts"], a["n"])[1] if own_tri else None)
    before = p.pts.copy()
    kw = {}
    if a["names"]:
        kw = dict(name1="one", name2="two")
    r = m.slice_polygon(p, a["sl"], **kw)
    return dict(r=r, p=p, before=before)


def area(pts):
    return float(np.linalg.norm(G.vec_area(pts)))


def near_any(x, pts, tol=1e-7):
    return any(np.linalg.norm(x - p) < tol for p in pts)


def cut_post(S, a, r, old):
    x, y = r["r"]
    A = area(old["pts"])
    yield "areas add up", abs(area(x.pts) + area(y.pts) - A) < 1e-7 * A and area(x.pts) > 1e-6 * A and area(y.pts) > 1e-6 * A
    yield "both keep the normal", np.allclose(x.vn, old["n"], atol=1e-6) and np.allclose(y.vn, old["n"], atol=1e-6)
    yield "vertex order agrees with the normal", np.dot(G.vec_area(x.pts), old["n"]) > 0 and np.dot(G.vec_area(y.pts), old["n"]) > 0
    src = list(old["pts"]) + list(old["sl"])
    yield "vertices come from the polygon and the slicing points", all(near_any(q, src) for q in list(x.pts) + list(y.pts))
    yield "every vertex of the polygon is kept", all(near_any(q, list(x.pts) + list(y.pts)) for q in old["pts"])
    yield "both have the slicing line", all(near_any(q, x.pts) and near_any(q, y.pts) for q in old["sl"])
    x2, y2 = to2d(x.pts, old["frame"]), to2d(y.pts, old["frame"])
    ok = True
    for q in old["probe"]:
        (c1, d1), (c2, d2) = PR.in2d(x2, q), PR.in2d(y2, q)
        if min(d1, d2) > 1e-3:
            ok = ok and (c1 > 0) != (c2 > 0)
    yield "every interior point belongs to exactly one part", ok
    yield "triangles cover each part", all(abs(sum(np.linalg.norm(np.cross(q.pts[t[1]] - q.pts[t[0]], q.pts[t[2]] - q.pts[t[0]])) / 2 for t in q.tri) - area(q.pts)) < 1e-7 * A for q in (x, y))
    yield "the sliced polygon is not changed", np.array_equal(r["p"].pts, r["before"])
    if old["names"]:
        yield "names are given to the parts", (x.name, y.name) == ("one", "two")


Contract("slice_polygon", None, ["P23"], gen=cut_gen(["vv", "ve", "ee", "same"]), ngen=100, real=cut_real, post=cut_post, frame=False,
         functions=[f"{SL}:slice_polygon", f"{SL}:make_polygons", f"{SL}.get_point_arrays:get_point_arrays", f"{SL}.remove_redundant_points:remove_redundant_points", f"{SL}.add_intersection_points:add_intersection_points", f"{SL}.locate_slicing_points:locate_slicing_points"])

Contract("slice_polygon_reflex_first", None, ["P23"], gen=cut_gen(["vv", "ve", "ee", "same"], True), ngen=60, real=lambda a: cut_real(a, True), post=cut_post, frame=False, functions=[f"{SL}:slice_polygon"])


# ---- slicing points that reach outside of the polygon ----------------------------------------
def cross2(p2, a, b):
    """the points where the segment a-b crosses the border properly, or None when it passes near a vertex"""
    out = []
    n = len(p2)
    for j in range(n):
        p, q = p2[j], p2[(j + 1) % n]
        d = (b[0] - a[0]) * (q[1] - p[1]) - (b[1] - a[1]) * (q[0] - p[0])
        if abs(d) < 1e-3:
            continue
        t = ((p[0] - a[0]) * (q[1] - p[1]) - (p[1] - a[1]) * (q[0] - p[0])) / d
        s = ((p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0])) / d
        if -0.05 < t < 1.05 and -0.05 < s < 1.05:
            if min(t, 1 - t, s, 1 - s) < 0.05:
                return None
            out.append((t, (p[0] + s * (q[0] - p[0]), p[1] + s * (q[1] - p[1]))))
    return [q for t, q in sorted(out)]


def through_gen(rng, i):
    for _ in range(600):
        p2 = G.shape2d(rng, convex=rng.random() < 0.5)
        a, b, c = p2[-1], p2[0], p2[1]
        if (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) < 1e-3:
            continue
        kind = ["line", "corner", "band"][i % 3]
        P = lambda: (rng.uniform(-4, 5), rng.uniform(-4, 5))
        if kind == "line":
            sl = [P(), P()]
        elif kind == "corner":  # a polygon with one corner inside
            sl = [P() for _ in range(rng.choice([3, 4]))]
        else:  # a polygon with one edge crossing
            sl = [P() for _ in range(rng.choice([3, 4]))]
        ins = [PR.in2d(p2, q)[0] > 0 for q in sl]
        if any(PR.in2d(p2, q)[1] < 0.15 for q in sl) or sum(ins) != (1 if kind == "corner" else 0):
            continue
        if len(sl) > 2:
            aa = sum(sl[k][0] * sl[(k + 1) % len(sl)][1] - sl[(k + 1) % len(sl)][0] * sl[k][1] for k in range(len(sl)))
            if abs(aa) < 1:
                continue
            if len(sl) == 4 and (seg_hits(sl[0], sl[1], sl[2], sl[3]) or seg_hits(sl[1], sl[2], sl[3], sl[0])):
                continue
        hits, bad = [], False
        for k in range(len(sl) if len(sl) > 2 else 1):
            h = cross2(p2, sl[k], sl[(k + 1) % len(sl)])
            if h is None:
                bad = True
                break
            hits += [(k, q) for q in h]
        if bad or len(hits) != 2:
            continue
        if kind == "corner":
            k = ins.index(True)
            ch = [hits[0][1], sl[k], hits[1][1]]
        else:
            if hits[0][0] != hits[1][0]:
                continue
            ch = [hits[0][1], hits[1][1]]
        if not chain_ok(p2, ch):
            continue
        u, v, nn = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg"]))
        o, s = G.gvec(rng), rng.choice([1.0, 0.5, 2.0])
        em = lambda q: o + s * (q[0] * u + q[1] * v)
        pts, slp, chp = (np.array([em(q) for q in c]) for c in (p2, sl, ch))
        probe = [q for q in ((rng.uniform(-2, 3), rng.uniform(-2, 3)) for _ in range(30)) if PR.in2d(p2, q)[0] > 0 and PR.in2d(p2, q)[1] > 0.03]
        return dict(pts=pts, n=nn, sl=chp, given=slp, kind=kind, probe=probe, frame=(o, s, u, v), names=False)
    raise StopIteration


Contract("slice_polygon_through", None, ["P23"], gen=through_gen, ngen=60, frame=False, post=cut_post,
         real=lambda a: cut_real(dict(a, sl=a["given"])), functions=[f"{SL}.add_intersection_points:add_intersection_points", f"{SL}.remove_redundant_points:remove_redundant_points"])


# ---- slicing points that do not cut ----------------------------------------------------------
def reject_gen(rng, i):
    for _ in range(400):
        p2 = G.shape2d(rng)
        a, b, c = p2[-1], p2[0], p2[1]
        if (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) < 1e-3:
            continue
        n = len(p2)
        kind = ["outside", "inside", "edge", "one point", "off plane", "one end"][i % 6]
        P = lambda: (rng.uniform(-4, 5), rng.uniform(-4, 5))
        if kind == "outside":
            sl = [P() for _ in range(rng.choice([2, 3, 4]))]
            m = len(sl)
            if any(PR.in2d(p2, (q[0] + t * (w[0] - q[0]), q[1] + t * (w[1] - q[1])))[0] > 0
                   or PR.in2d(p2, (q[0] + t * (w[0] - q[0]), q[1] + t * (w[1] - q[1])))[1] < 0.1
                   for q, w in ((sl[k], sl[(k + 1) % m]) for k in range(m)) for t in (x / 30 for x in range(31))):
                continue
        elif kind == "inside":
            q = P()
            sl = [(q[0] + rng.uniform(-0.4, 0.4), q[1] + rng.uniform(-0.4, 0.4)) for _ in range(rng.choice([2, 3]))]
            m = len(sl)
            if any(PR.in2d(p2, (q[0] + t * (w[0] - q[0]), q[1] + t * (w[1] - q[1])))[0] <= 0
                   or PR.in2d(p2, (q[0] + t * (w[0] - q[0]), q[1] + t * (w[1] - q[1])))[1] < 0.05
                   for q, w in ((sl[k], sl[(k + 1) % m]) for k in range(m)) for t in (x / 30 for x in range(31))):
                continue
        elif kind == "edge":
            j = rng.randrange(n)
            s, t = rng.choice([(0.25, 0.75), (0.75, 0.25), (0.5, 1.0), (0.0, 0.5), (0.0, 1.0)])
            a, b = p2[j], p2[(j + 1) % n]
            sl = [(a[0] + x * (b[0] - a[0]), a[1] + x * (b[1] - a[1])) for x in (s, t)]
        elif kind == "one point":
            sl = [rng.choice([p2[rng.randrange(n)], on_edge(rng, p2, rng.randrange(n))])]
        elif kind == "one end":
            q = P()
            if PR.in2d(p2, q)[0] <= 0 or PR.in2d(p2, q)[1] < 0.1:
                continue
            sl = [on_edge(rng, p2, rng.randrange(n)), q]
            if not chain_ok(p2, sl, 0.02):
                continue
        else:
            j, k = rng.sample(range(n), 2)
            sl = [on_edge(rng, p2, j), on_edge(rng, p2, k)]
        u, v, nn = G.frame(rng, rng.choice(["xy", "xz", "yz", "neg"]))
        o = G.gvec(rng)
        em = lambda q: o + q[0] * u + q[1] * v
        pts, slp = (np.array([em(q) for q in c]) for c in (p2, sl))
        if kind == "off plane":
            slp[rng.randrange(2)] += nn * rng.choice([0.1, -0.5, 1.0])
        return dict(pts=pts, n=nn, sl=slp, kind=kind)
    raise StopIteration


def reject_real(a):
    m = importlib.import_module(SL)
    p = importlib.import_module(PO).Polygon(a["pts"], name="whole", vn=a["n"])
    try:
        x, y = m.slice_polygon(p, a["sl"])
        return dict(exc=None, n=(len(x.pts), len(y.pts)))
    except Exception as e:
        return dict(exc=type(e).__name__, n=None)


Contract("slice_polygon_rejects", None, ["P23"], gen=reject_gen, ngen=60, real=reject_real, frame=False,
         post=lambda S, a, r, old: [("points that do not divide the polygon are rejected", r["exc"] is not None)], functions=[f"{SL}:slice_polygon"])


# ---- names of the parts ----------------------------------------------------------------------
def names_gen(rng, i):
    a = cut_gen(["vv", "ve", "ee"])(rng, i)
    a["which"] = rng.choice(["both", "first", "second"])
    a["probe"] = a["probe"] or None
    return a


def names_real(a):
    m = importlib.import_module(SL)
    p = importlib.import_module(PO).Polygon(a["pts"], name="whole", vn=a["n"])
    x, y = m.slice_polygon(p, a["sl"])
    o, s, u, v = a["frame"]
    c = {}
    for q in a["probe"] or []:
        for nm, w in (("x", x), ("y", y)):
            cc, d = PR.in2d(to2d(w.pts, a["frame"]), q)
            if cc > 0 and d > 0.03:
                c[nm] = o + s * (q[0] * u + q[1] * v)
    if len(c) < 2:
        return dict(skip=True)
    out = {}
    for swap in (False, True):
        p1, p2 = (c["y"], c["x"]) if swap else (c["x"], c["y"])
        kw = dict(name1="one", name2="two")
        if a["which"] in ("both", "first"):
            kw["pt1"] = p1
        if a["which"] in ("both", "second"):
            kw["pt2"] = p2
        w = m.slice_polygon(p, a["sl"], **kw)
        out[swap] = [(q.name, PR.in2d(to2d(q.pts, a["frame"]), to2d([p1], a["frame"])[0])[0] > 0, PR.in2d(to2d(q.pts, a["frame"]), to2d([p2], a["frame"])[0])[0] > 0) for q in w]
    return dict(skip=False, out=out)


Contract("slice_polygon_names", None, ["P23"], gen=names_gen, ngen=40, real=names_real, frame=False,
         post=lambda S, a, r, old: [("the part around the first point gets the first name, the other the second name", r["skip"] or all(o == [("one", True, False), ("two", False, True)] for o in r["out"].values()))],
         functions=[f"{SL}:make_polygons"])


# ---- stitching -------------------------------------------------------------------------------
SIDE = {  # interval of the second box against [0, 3]
    "same": (0.0, 3.0), "in": (1.0, 2.0), "low": (0.0, 1.0), "high": (2.0, 3.0), "shift+": (1.0, 4.0), "shift-": (-1.0, 2.0), "over": (-1.0, 4.0), "over-low": (0.0, 4.0), "over-high": (-1.0, 3.0),
}


def flat(s):
    return {w.name: {p.name: p for p in w.children.values()} for w in s.children.values()}


def snap(s):
    return {wn: {pn: (p.pts.copy(), np.array(p.vn).copy(), p.uid) for pn, p in ps.items()} for wn, ps in flat(s).items()}


class Limit:
    """lower limit on the depth of recursion"""

    def __enter__(self):
        import sys
        self.old = sys.getrecursionlimit()
        d, f = 0, sys._getframe()
        while f is not None:
            d, f = d + 1, f.f_back
        sys.setrecursionlimit(d + 300)

    def __exit__(self, *a):
        import sys
        sys.setrecursionlimit(self.old)


def stitch_gen(kinds):
    def gen(rng, i):
        ky, kz = kinds[i % len(kinds)] if rng.random() < 0.6 else rng.choice(kinds)
        if rng.random() < 0.5:
            ky, kz = kz, ky
        ax = rng.randrange(3)
        up = rng.random() < 0.5
        (y0, y1), (z0, z1) = SIDE[ky], SIDE[kz]
        other = [k for k in range(3) if k != ax]
        a0, a1, b0, b1 = np.zeros(3), np.zeros(3), np.zeros(3), np.zeros(3)
        a0[ax], a1[ax] = 0.0, 2.0
        b0[ax], b1[ax] = (2.0, 3.0) if up else (-1.0, 0.0)
        a1[other] = 3.0
        b0[other], b1[other] = (y0, z0), (y1, z1)
        sc = rng.choice([1.0, 2.0, 0.5])
        sh = np.array([float(rng.randint(-2, 2)) for _ in range(3)])
        return dict(a=(a0 * sc + sh, a1 * sc + sh), b=(b0 * sc + sh, b1 * sc + sh), kind=(ky, kz), swap=rng.random() < 0.5, how=rng.choice(["solids", "building"]), same_names=rng.random() < 0.3)

    return gen


def mkbox(lo, hi, name, same_names=False):
    from building3d.geom.solid.box import box
    d = hi - lo
    s = box(float(d[0]), float(d[1]), float(d[2]), tuple(float(x) for x in lo), name=name)
    if same_names:
        W, P, S = (getattr(importlib.import_module(f"building3d.geom.{k.lower()}"), k) for k in ("Wall", "Polygon", "Solid"))
        s = S([W([P(p.pts, name="p") for p in w.children.values()], name=wn) for wn, w in s.children.items()], name=name)
    return s


def stitch_real(a):
    sa, sb = (mkbox(*a[k], k, a["same_names"]) for k in "ab")
    pre = (snap(sa), snap(sb))
    vol = (sa.volume, sb.volume)
    with Limit():
        if a["how"] == "solids":
            st = importlib.import_module(ST).stitch_solids
            st(sb, sa) if a["swap"] else st(sa, sb)
            cached = True
        else:
            Z = importlib.import_module("building3d.geom.zone").Zone
            B = importlib.import_module(BD).Building
            l = [sb, sa] if a["swap"] else [sa, sb]
            far = mkbox(np.full(3, 50.0), np.full(3, 51.0), "far")
            fpre = snap(far)
            b = B([Z([l[0]], name="z1"), Z([far], name="z0"), Z([l[1]], name="z2")], name="b") if a["a"][0][0] > 0 else B([Z(l + [far], name="z")], name="b")
            b.stitch_solids()
            fpost = snap(far)
            same = all(np.array_equal(fpre[w][q][0], fpost[w][q][0]) for w in fpre for q in fpre[w]) and {w: set(x) for w, x in fpre.items()} == {w: set(x) for w, x in fpost.items()}
            g = b.get_graph(level="polygon")
            live = set([f"{b.name}/{z.name}/{s.name}/{w.name}/{p.name}" for z in b.children.values() for s in z.children.values() for w in s.children.values() for p in w.children.values()])
            cached = same and set(g) <= live
    return dict(s=(sa, sb), pre=pre, vol=vol, cached=cached)


def stitch_post(S, a, r, old):
    for s, pre, vol, nm in zip(r["s"], r["pre"], r["vol"], "ab"):
        post = flat(s)
        yield f"walls of {nm} are kept", set(post) == set(pre)
        ok_other, ok_area, ok_plane = True, True, True
        for wn in set(post) & set(pre):
            gone = {pn for pn in pre[wn] if pn not in post[wn]}
            for pn in set(pre[wn]) - gone:
                ok_other = ok_other and np.array_equal(post[wn][pn].pts, pre[wn][pn][0]) and post[wn][pn].uid == pre[wn][pn][2]
            new = [p for pn, p in post[wn].items() if pn not in pre[wn]]
            ok_area = ok_area and abs(sum(area(p.pts) for p in new) - sum(area(pre[wn][g][0]) for g in gone)) < 1e-7
            ok_plane = ok_plane and bool(gone) == bool(new)
            for p in new:
                ok_plane = ok_plane and len(gone) == 1
                for g in gone:
                    gp, gn, _ = pre[wn][g]
                    ok_plane = ok_plane and np.allclose(p.vn, gn, atol=1e-6) and np.abs((p.pts - gp[0]) @ gn).max() < 1e-7 and all((p.pts.min(0) > gp.min(0) - 1e-7) & (p.pts.max(0) < gp.max(0) + 1e-7))
                ok_plane = ok_plane and np.dot(G.vec_area(p.pts), p.vn) > 0
        yield f"untouched polygons of {nm} stay as they were", ok_other
        yield f"pieces of {nm} have the area of what they replace", ok_area
        yield f"pieces of {nm} lie in the replaced polygon and keep its normal", ok_plane
        yield f"volume of {nm} is unchanged", abs(s.volume - vol) < 1e-7 * vol
    # contact surface: every point of it is covered by exactly one polygon of each solid, and these two match
    sa, sb = r["s"]
    (al, ah), (bl, bh) = old["a"], old["b"]
    lo, hi = np.maximum(al, bl), np.minimum(ah, bh)
    pa = [p for w in sa.children.values() for p in w.children.values()]
    pb = [p for w in sb.children.values() for p in w.children.values()]
    ax = int(np.argmin(hi - lo))
    o2 = [k for k in range(3) if k != ax]
    tot, npair, amb = 0.0, 0, False
    for p in pa:
        for q in pb:
            if CG.faces(p, q):
                tot += area(p.pts)
                npair += 1
    yield "the contact surface consists of polygons matching one to one", abs(tot - np.prod((hi - lo)[o2])) < 1e-7
    yield "a solid apart is untouched and the graph has no stale polygons", r["cached"]


ONE = ("in", "low", "high")
SHIFT = ("shift+", "shift-")
OVER = ("over", "over-low", "over-high")
KINDS = [(x, y) for x in SIDE for y in SIDE]
# contacts whose outline crosses each of the two faces in one chain of edges
GOOD = [(x, y) for x, y in KINDS if x in SHIFT or y in SHIFT or (x in ONE and y in ONE) or (x in OVER and y in OVER) or {x, y} <= {"same", "low", "high", "over-low", "over-high"} and "same" in (x, y)]
SFN = [f"{ST}:stitch_solids", f"{ST}:slice_both_and_replace", f"{ST}:slice_one_and_replace", f"{ST}:replace_polygon", f"{ST}:remove_outside_points", f"{ST}:next_adjacent_polygons", "building3d.geom.building:Building.stitch_solids", "building3d.geom.wall:Wall.replace_polygon", "building3d.geom.points.find_close_pairs:find_close_pairs"]
INNER = {("in", "in"), ("over", "over")}


def good_gen(rng, i):
    a = stitch_gen([k for k in GOOD if len(set(k) & set(SHIFT)) < 2] if i % 2 else GOOD)(rng, rng.randrange(1000))
    if i % 7 == 0:
        a = stitch_gen(list(INNER))(rng, i)
    if a["kind"] in INNER:
        a["how"] = "solids"
    return a


Contract("stitch_solids", None, ["P24"], gen=good_gen, ngen=70, real=stitch_real, post=stitch_post, frame=False, functions=SFN)


def inner_gen(rng, i):
    a = stitch_gen(list(INNER))(rng, i)
    a["how"] = "building"
    return a


Contract("stitch_building_inner", None, ["P24"], gen=inner_gen, ngen=2, real=stitch_real, post=stitch_post, frame=False, functions=SFN,
         known=[dict(when=lambda args, bad: all("one to one" in b for b in bad), text="Building.stitch_solids does not see a contact where one face lies completely inside the other (such faces are not neighbours in the graph), so it leaves both faces unsplit; stitch_solids called on the two solids does split them")])
Contract("stitch_three_parts", None, ["P24"], gen=stitch_gen([("in", "over")]), ngen=2, real=stitch_real, post=stitch_post, frame=False, functions=SFN,
         known=[dict(when=lambda args, bad: all("raised" in b for b in bad), text="stitching raises NotImplementedError or RecursionError when the contact outline crosses a face in two chains of edges or runs along its border past a vertex (a face narrower than the other one and reaching across it)")])
