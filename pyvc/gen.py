"""Generators of concrete geometry for run-time contract checking."""
import math

import numpy as np


def runit(rng):
    while True:
        v = np.array([rng.uniform(-1, 1) for _ in range(3)])
        n = float(np.linalg.norm(v))
        if 0.1 < n <= 1.0:
            return v / n


def rvec(rng, lo=-3.0, hi=3.0):
    return np.array([rng.uniform(lo, hi) for _ in range(3)])


def gvec(rng, k=4, s=2):
    return np.array([rng.randint(-k, k) / s for _ in range(3)])


def frame(rng, kind=None):
    """right-handed orthonormal frame; exact for axis-aligned kinds"""
    kind = kind or rng.choice(["xy", "xz", "yz", "neg", "rand"])
    e = np.eye(3)
    if kind == "xy":
        return e[0], e[1], e[2]
    if kind == "xz":
        return e[2], e[0], e[1]
    if kind == "yz":
        return e[1], e[2], e[0]
    if kind == "neg":
        return e[1], e[0], -e[2]
    n = rvec(rng)
    n /= np.linalg.norm(n)
    t = e[int(np.argmin(np.abs(n)))]
    u = np.cross(n, t)
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    return u, v, n


SHAPES = {
    "tri": [(0, 0), (2, 0), (0.5, 1.5)],
    "square": [(0, 0), (2, 0), (2, 2), (0, 2)],
    "rect": [(0, 0), (3, 0), (3, 1), (0, 1)],
    "L": [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)],
    "U": [(0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)],
    "T": [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (-1, 2), (-1, 1), (0, 1)],
    "arrow": [(0, 0), (2, -1), (1, 0), (2, 1)],
    "penta": [(0, 0), (2, 0), (2.5, 1.5), (1, 2.5), (-0.5, 1.5)],
    "star": [(0, 2), (-0.5, 0.5), (-2, 0), (-0.5, -0.5), (0, -2), (0.5, -0.5), (2, 0), (0.5, 0.5)],
    "coll": [(0, 0), (1, 0), (2, 0), (2, 2), (1, 2), (0, 2)],
    "Z": [(0, 0), (2, 0), (2, 1), (3, 1), (3, 2), (1, 2), (1, 1), (0, 1)],
}


def area2d(p):
    return 0.5 * sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p)))


def shape2d(rng, names=None, roll=True, rev=False, convex=False):
    """counter-clockwise simple polygon in 2D"""
    if names is None and rng.random() < 0.35:
        # random star-shaped polygon, well separated
        n = rng.randint(3, 9)
        off = rng.uniform(0, 2 * math.pi)
        pts = []
        for i in range(n):
            a = off + 2 * math.pi * (i + rng.uniform(-0.25, 0.25)) / n
            r = rng.uniform(1.6, 2.0) if convex or n < 4 else rng.uniform(0.7, 2.0)
            pts.append((r * math.cos(a), r * math.sin(a)))
        if convex:
            n = len(pts)
            for i in range(n):
                a, b, c = pts[i - 1], pts[i], pts[(i + 1) % n]
                if (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) < 0.05:
                    return shape2d(rng, names, roll, rev, convex)
    else:
        nm = rng.choice(list(names) if names else (["tri", "square", "rect", "penta"] if convex else list(SHAPES)))
        pts = list(SHAPES[nm])
    if roll:
        k = rng.randrange(len(pts))
        pts = pts[k:] + pts[:k]
    if rev and rng.random() < 0.5:
        pts = pts[::-1]
    return [(float(x), float(y)) for x, y in pts]


def reflex(p, i):
    """is corner i of the counter-clockwise polygon p not strictly convex"""
    a, b, c = p[i - 1], p[i], p[(i + 1) % len(p)]
    return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) <= 1e-9


def to3d(rng, p2, kind=None, origin=None, scale=None):
    u, v, n = frame(rng, kind)
    o = gvec(rng) if origin is None else np.asarray(origin, float)
    s = scale if scale is not None else rng.choice([1.0, 1.0, 0.5, 2.0, 3.0])
    return np.array([o + s * (x * u + y * v) for x, y in p2]), n


def polygon3d(rng, names=None, convex=False, kind=None, first_convex=False, origin=None, scale=None):
    """-> (pts, unit normal for which pts are counter-clockwise)"""
    for _ in range(50):
        p2 = shape2d(rng, names, convex=convex)
        if first_convex and reflex(p2, 0):
            continue
        return to3d(rng, p2, kind, origin, scale)
    raise RuntimeError


def vec_area(pts):
    t = np.zeros(3)
    for i in range(len(pts)):
        t += np.cross(pts[i], pts[(i + 1) % len(pts)])
    return t / 2


def mk_polygon(rng, name=None, **kw):
    from building3d.geom.polygon import Polygon

    for _ in range(20):
        pts, n = polygon3d(rng, **kw)
        c = next(c for c in (np.cross(pts[i + 1] - pts[i], pts[i + 2] - pts[i + 1]) for i in range(len(pts) - 2)) if np.linalg.norm(c) > 1e-8)
        if np.abs((pts - pts[0]) @ c).max() > 3e-14 * np.linalg.norm(c):
            continue  # rounded too far from the plane for the constructor's tolerance
        return Polygon(pts, name=name, vn=n)
    raise RuntimeError


def names(rng, n, pool=("s", "s1", "s10", "S", "a", "z")):
    """different names in no particular order, some the beginning of others"""
    return rng.sample(list(pool), n)


def building(rng, maxz=2, maxs=2, empty=False, kinds=None):
    """building of boxes / floor plans side by side or apart, with repeated names in different branches"""
    from building3d.geom.building import Building
    from building3d.geom.solid.box import box
    from building3d.geom.solid.floor_plan import floor_plan
    from building3d.geom.zone import Zone

    zones, x = [], 0.0
    zn = names(rng, max(1, maxz))
    for zi in range(rng.randint(0 if empty else 1, maxz)):
        solids = []
        sn = names(rng, max(1, maxs))
        for si in range(rng.randint(0 if empty else 1, maxs)):
            k = rng.choice(kinds or ["box", "box", "plan"])
            if k == "box":
                w = rng.choice([1.0, 2.0])
                h = rng.choice([1.0, 1.0, 2.0])
                solids.append(box(w, 1.0, h, (x, 0.0, 0.0), name=sn[si]))
                x += w
            else:
                p2 = shape2d(rng, ["L", "U", "square", "tri", "T"], rev=True)
                mx = max(p[0] for p in p2)
                mn = min(p[0] for p in p2)
                solids.append(floor_plan(p2, rng.choice([1.0, 2.5]), (x - mn, 0.0, 0.0), name=sn[si]))
                x += mx - mn + rng.choice([0.0, 0.5])
            if rng.random() < 0.3:
                x += 0.5
        zones.append(Zone(solids, name=zn[zi]))
        if rng.random() < 0.3:
            x += 0.5
    return Building(zones, name="b")


def polys(b):
    return [p for z in b.zones.values() for s in z.solids.values() for w in s.walls.values() for p in w.polygons.values()]
