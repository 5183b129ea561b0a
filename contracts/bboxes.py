"""Bounding boxes (building3d/geom/bboxes.py)."""
import itertools

import numpy as np

from pyvc.contract import Contract

M = "building3d.geom.bboxes"


def rnd(rng, n, grid=True):
    if grid and rng.random() < 0.6:
        return np.array([[rng.randint(-3, 3) / 2 for _ in range(3)] for _ in range(n)])
    return np.array([[rng.uniform(-5, 5) for _ in range(3)] for _ in range(n)])


# ---- bounding_box
def bb_inputs(S):
    return dict(pts=S.points("pts", S.int("n", lo=1)))


def bb_post(S, a, r, old):
    pts = old["pts"]
    n = S.shape(pts)[0]
    lo, hi = S.at(r, 0), S.at(r, 1)
    yield "two corners", S.And(S.eq(S.shape(lo)[0], 3), S.eq(S.shape(hi)[0], 3))
    for k in range(3):
        yield f"contains all points (axis {k})", S.forall(n, lambda i: S.And(S.el(lo, k) <= S.el(pts, i, k), S.el(pts, i, k) <= S.el(hi, k)))
        yield f"lower face touches a point (axis {k})", S.exists(n, lambda i: S.el(pts, i, k) == S.el(lo, k))
        yield f"upper face touches a point (axis {k})", S.exists(n, lambda i: S.el(pts, i, k) == S.el(hi, k))


Contract(
    "bounding_box", f"{M}:bounding_box", ["P10"], inputs=bb_inputs,
    bounded=[(f"{n} points", (lambda n: lambda S: dict(pts=S.points("pts", n)))(n)) for n in (1, 2, 3)],
    post=bb_post, gen=lambda rng, i: dict(pts=rnd(rng, rng.choice([1, 2, 3, 5, 9]))),
)


# ---- point in box
def pb_inputs(S):
    return dict(ptest=S.vec("p"), pts=S.points("pts", S.int("n", lo=1)), atol=S.real("atol", lo=0))


def pb_post(S, a, r, old):
    pts, p, t = old["pts"], old["ptest"], old["atol"]
    n = S.shape(pts)[0]
    # within the enlarged box: along every axis some point is not above p+t and some not below p-t
    inside = S.And(*[S.And(S.exists(n, lambda i, k=k: S.el(pts, i, k) - t <= p[k]), S.exists(n, lambda i, k=k: p[k] <= S.el(pts, i, k) + t)) for k in range(3)])
    yield "true exactly when the point is within the enlarged box", S.Iff(r, inside)


def pb_gen(rng, i):
    pts = rnd(rng, rng.choice([1, 2, 4]))
    t = rng.choice([0.0, 1e-3, 0.25])
    p = rnd(rng, 1)[0]
    if rng.random() < 0.5:
        p = pts[rng.randrange(len(pts))].copy()
        p[rng.randrange(3)] += rng.choice([0.0, 0.25, -0.25, 0.3, -0.3])
    return dict(ptest=p, pts=pts, atol=t)


Contract(
    "is_point_inside_bbox", f"{M}:is_point_inside_bbox", ["P10"], inputs=pb_inputs,
    bounded=[(f"{n} points", (lambda n: lambda S: dict(ptest=S.vec("p"), pts=S.points("pts", n), atol=S.real("atol", lo=0)))(n)) for n in (1, 2)],
    post=pb_post, gen=pb_gen, ngen=150,
)


# ---- overlap of boxes
def box2(S):
    return dict(bbox1=(S.vec("a0"), S.vec("a1")), bbox2=(S.vec("b0"), S.vec("b1")))


def ov_pre(S, a):
    for nm in ("bbox1", "bbox2"):
        for k in range(3):
            yield f"{nm} is a box", a[nm][0][k] <= a[nm][1][k]


def ov_post(S, a, r, old):
    (a0, a1), (b0, b1) = old["bbox1"], old["bbox2"]
    # the candidate common point: the larger of the lower corners
    p = [S.max(a0[k], b0[k]) for k in range(3)]
    common = S.And(*[S.And(a0[k] <= p[k], p[k] <= a1[k], b0[k] <= p[k], p[k] <= b1[k]) for k in range(3)])
    yield "overlapping boxes share a point", S.Implies(r, common)
    sep = S.Or(*[S.Or(a1[k] < b0[k], b1[k] < a0[k]) for k in range(3)])
    yield "separated boxes are not overlapping, others are", S.Iff(r, S.Not(sep))


def ov_gen(rng, i):
    def b():
        p = rnd(rng, 2)
        return p.min(axis=0), p.max(axis=0)

    return dict(bbox1=b(), bbox2=b())


for mod, nm in ((M, "bboxes"), ("building3d.geom.polygon.touching", "touching")):
    Contract(
        f"are_bboxes_overlapping_{nm}", f"{mod}:are_bboxes_overlapping", ["P10"], inputs=box2, bounded=[("any boxes", box2)],
        pre=ov_pre, post=ov_post, gen=ov_gen, ngen=200, max_paths=200,
    )


# symmetry
def sym_invoke(S, I, a):
    return I.call_fq(f"{M}:are_bboxes_overlapping", [a["bbox1"], a["bbox2"]]), I.call_fq(f"{M}:are_bboxes_overlapping", [a["bbox2"], a["bbox1"]])


def sym_real(a):
    from building3d.geom.bboxes import are_bboxes_overlapping as f

    return f(a["bbox1"], a["bbox2"]), f(a["bbox2"], a["bbox1"])


Contract(
    "are_bboxes_overlapping_symmetric", None, ["P10"], inputs=box2, bounded=[("any boxes", box2)], pre=ov_pre,
    post=lambda S, a, r, old: [("symmetric", S.Iff(r[0], r[1]))], gen=ov_gen, ngen=100, invoke=sym_invoke, real=sym_real,
    functions=[f"{M}:are_bboxes_overlapping"],
)


# ---- edges and faces of a box
def cube(S):
    return dict(min_xyz=(S.real("x0"), S.real("y0"), S.real("z0")), max_xyz=(S.real("x1"), S.real("y1"), S.real("z1")))


def cube_pre(S, a):
    for k in range(3):
        yield "proper box", a["min_xyz"][k] < a["max_xyz"][k]


def corner(a, bits):
    return tuple(a["max_xyz"][k] if bits[k] else a["min_xyz"][k] for k in range(3))


def is_pt(S, arr, idx, p):
    return S.And(*[S.eq(S.el(arr, *idx, k), p[k]) for k in range(3)])


def ce_post(S, a, r, old):
    yield "shape", S.eq(S.shape(r), (12, 2, 3))
    for b in itertools.product((0, 1), repeat=3):
        for k in range(3):
            if b[k]:
                continue
            c = tuple(1 if j == k else b[j] for j in range(3))
            p, q = corner(old, b), corner(old, c)
            yield f"edge {b}-{c} is present once", S.Or(
                *[S.Or(S.And(is_pt(S, r, (i, 0), p), is_pt(S, r, (i, 1), q)), S.And(is_pt(S, r, (i, 0), q), is_pt(S, r, (i, 1), p))) for i in range(12)]
            )


def cp_post(S, a, r, old):
    yield "shape", S.eq(S.shape(r), (6, 4, 3))
    for k in range(3):
        o = [j for j in range(3) if j != k]
        for side in (0, 1):
            ring = []
            for u, v in ((0, 0), (1, 0), (1, 1), (0, 1)):
                bits = [0, 0, 0]
                bits[k], bits[o[0]], bits[o[1]] = side, u, v
                ring.append(corner(old, bits))
            opts = []
            for i in range(6):
                for d in (1, -1):
                    for s in range(4):
                        opts.append(S.And(*[is_pt(S, r, (i, m), ring[(s + d * m) % 4]) for m in range(4)]))
            yield f"face axis {k} side {side} is present as a ring", S.Or(*opts)


def cube_gen(rng, i):
    lo = [rng.uniform(-3, 3) for _ in range(3)]
    return dict(min_xyz=tuple(lo), max_xyz=tuple(x + rng.uniform(0.1, 2) for x in lo))


Contract("cube_edges", f"{M}:cube_edges", ["P10"], inputs=cube, bounded=[("any box", cube)], pre=cube_pre, post=ce_post, gen=cube_gen, ngen=10)
Contract("cube_polygons", f"{M}:cube_polygons", ["P10"], inputs=cube, bounded=[("any box", cube)], pre=cube_pre, post=cp_post, gen=cube_gen, ngen=10)
