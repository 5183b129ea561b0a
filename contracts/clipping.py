"""Ear clipping with symbolic coordinates: the answers of the corner and inside tests are unknown but consistent."""
import itertools

import z3
from contracts.cutting import key
from contracts.location import B, fn, v3

from pyvc.contract import Contract, abstract, expect, row, vadd, vcross, vsub
from pyvc.values import mkbool

T = "building3d.geom.triangles"
CVX, INS = f"{T}:is_corner_convex", f"{T}:is_point_inside"


def cl_inputs(n, general=False):
    """general: no three points on a line, so that the orientations decide which point lies in which triangle"""
    def f(S):
        pts = S.points("pts", n)
        if general:
            lf = lambda i, j, k: turns_left(i, j, k) if sorted((i, j, k)) in ([i, j, k], [j, k, i], [k, i, j]) else z3.Not(turns_left(i, k, j))
            for i, j, k in itertools.combinations(range(n), 3):
                S.c.assume(turns_left(i, j, k) == z3.Not(turns_left(i, k, j)))
                for t in set(range(n)) - {i, j, k}:
                    S.c.assume(within(t, (i, j, k)) == z3.And(*[lf(x, y, t) == lf(i, j, k) for x, y in ((i, j), (j, k), (k, i))]))
        S.c.ghost["clip"] = {key(row(S, pts, i)): i for i in range(n)}
        return dict(pts=pts, vn=S.vec("vn"))

    return f


def turns_left(i, j, k):
    """orientation of three corners: the same for cyclic shifts, not both ways"""
    m = min((i, j, k), (j, k, i), (k, i, j))
    return z3.Bool(f"left!{m[0]}_{m[1]}_{m[2]}")


def within(t, tri):
    return z3.Bool("within!" + "_".join(map(str, [t] + sorted(tri))))


def cl_setup(S, I):
    def corner(p):
        i = S.c.ghost["clip"].get(key(p))
        expect(i is not None)
        return i

    def convex(a, b, c, vn, atol):
        i, j, k = corner(a), corner(b), corner(c)
        return mkbool(turns_left(i, j, k))

    def inside(t, a, b, c, atol):
        return mkbool(within(corner(t), (corner(a), corner(b), corner(c))))

    abstract(I, CVX, convex)
    abstract(I, INS, inside)


def cl_pre(S, a):
    n = S.shape(a["pts"])[0]
    v = v3(a["vn"])
    yield "unit normal", S.eq(v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 1.0)
    for i, j, k in itertools.combinations(range(n), 3):
        yield "one orientation", mkbool(z3.Not(z3.And(turns_left(i, j, k), turns_left(i, k, j))))


def orders(poly, tris):
    """ways to take the triangles off the polygon one after the other: lists of (triangle, corners left)"""
    if not tris:
        return [[]] if len(poly) == 2 else []
    out = []
    for x in tris:
        for q in range(len(poly)):
            ear = (poly[q - 1], poly[q], poly[(q + 1) % len(poly)])
            if sorted(ear) == sorted(x):
                rest = [y for y in tris if y is not x]
                for o in orders([y for y in poly if y != poly[q]], rest):
                    out.append([(ear, [y for y in poly if y not in ear])] + o)
            if len(poly) == 3:
                break
    return out


def cl_post(S, a, r, old):
    if not S.sym:
        return
    n = S.shape(old["pts"])[0]
    ids = [S.c.ghost["clip"].get(key(row(S, r[0], i))) for i in range(S.shape(r[0])[0])]
    yield "the points of the polygon, in either direction", ids in (list(range(n)), list(range(n))[::-1])
    m = S.shape(r[1])[0]
    yield "two triangles less than points", m == n - 2
    if not isinstance(m, int) or m != n - 2 or sorted(x for x in ids if x is not None) != list(range(n)):
        return
    raw = [[S.el(r[1], i, c) for c in range(3)] for i in range(m)]
    ok = all(isinstance(x, int) and 0 <= x < n for t in raw for x in t)
    yield "indices of points", ok
    if not ok:
        return
    tris = [tuple(ids[x] for x in t) for t in raw]
    yield "three different corners", all(len(set(t)) == 3 for t in tris)
    ways = orders(ids, tris)
    yield "the triangles make up the polygon", len(ways) > 0
    yield "all triangles face the way of the normal", mkbool(z3.And(*[turns_left(*t) for t in tris]))
    yield "each is cut off with no other corner left inside", mkbool(z3.Or(*[z3.And(*[z3.Not(within(t, ear)) for ear, left in w for t in left] or [z3.BoolVal(True)]) for w in ways] or [z3.BoolVal(False)]))
    P = [row(S, r[0], i) for i in range(n)]
    zero = (0.0, 0.0, 0.0)
    whole, parts = zero, zero
    for i in range(1, n - 1):
        whole = vadd(whole, vcross(vsub(P[i], P[0]), vsub(P[i + 1], P[0])))
    for t in raw:
        parts = vadd(parts, vcross(vsub(P[t[1]], P[t[0]]), vsub(P[t[2]], P[t[0]])))
    for c in range(3):
        yield f"the areas of the triangles add up ({'xyz'[c]})", S.eq(whole[c], parts[c])


def cl_raises(S, old, exc):
    """convex polygons, in either direction, are never refused"""
    if exc != "TriangulationError":
        return False
    if not S.sym:
        return True
    n = S.shape(old["pts"])[0]
    good = z3.Or(*[z3.And(*[turns_left(*t[::d]) for t in itertools.combinations(range(n), 3)]) for d in (1, -1)])
    free = [z3.Not(within(x, t)) for t in itertools.combinations(range(n), 3) for x in range(n) if x not in t]
    return mkbool(z3.Not(z3.And(good, *free)))


Contract("triangulate_symbolic", f"{T}:triangulate", ["P07"], bounded=[("3 points", cl_inputs(3)), ("4 points", cl_inputs(4)), ("5 points, no three on a line", cl_inputs(5, True))], setup=cl_setup, abstracts=[CVX], pre=cl_pre, post=cl_post, raises=cl_raises,
         max_paths=6000, bounded_wall=60)
