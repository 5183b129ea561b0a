"""The voxel grid with symbolic polygons in a small extent."""
import itertools
import math

import numpy as np
from contracts.location import v3

from pyvc import gen as G
from pyvc.contract import Contract, row
from pyvc.values import CArr, PyDict, PyList

VG = "building3d.sim.rays.voxel_grid:make_voxel_grid"


def vs_inputs(lo, hi, step, npts, moving):
    """polygons with npts points each; the coordinates of the axes in moving are any numbers of the extent, the rest is the lower end"""
    def f(S):
        ps = []
        for k, n in enumerate(npts):
            out = np.empty((n, 3), dtype=object)
            for i in range(n):
                for c in range(3):
                    out[i, c] = S.real(f"p{k}_{i}{c}", lo=lo[c], hi=hi[c]) if c in moving else lo[c]
            ps.append(CArr(out, "f"))
        return dict(lo=lo, hi=hi, polys=PyList(ps), step=step, q=[S.real(f"q{c}", lo=lo[c], hi=hi[c]) for c in range(3)])

    return f


def vs_post(S, a, r, old):
    if not S.sym:
        return
    lo, hi, st = old["lo"], old["hi"], old["step"]
    keys = list(r.d)
    yield "keys are cells", all(isinstance(k, tuple) and len(k) == 3 and all(isinstance(x, int) for x in k) for k in keys)
    yield "every cell of the extent exists", all(k in r.d for k in itertools.product(*[range(math.floor(lo[c] / st), math.floor(hi[c] / st) + 1) for c in range(3)]))
    n = len(old["polys"].items)
    for k in keys:
        nums = r.d[k]
        m = S.shape(nums)[0]
        if not isinstance(m, int):
            continue
        for p in range(n):
            pts = old["polys"].items[p]
            num = S.shape(pts)[0]
            meets = S.And(*[S.And(S.Or(*[S.le(k[c] * st, pts[i, c]) for i in range(num)]), S.Or(*[S.le(pts[i, c], (k[c] + 1) * st) for i in range(num)])) for c in range(3)])
            listed = S.Or(False, *[S.eq(nums[j], p) for j in range(m)])
            yield "a polygon is listed in every cell its bounding box meets", S.Implies(meets, listed)
            yield "polygons off the cell by a whole cell are not listed", S.Implies(listed, S.And(*[S.And(S.Or(*[S.le((k[c] - 1) * st, pts[i, c]) for i in range(num)]), S.Or(*[S.le(pts[i, c], (k[c] + 2) * st) for i in range(num)])) for c in range(3)]))
        yield "no invalid or repeated numbers", S.And(True, *[S.And(S.le(0, nums[j]), nums[j] < n) for j in range(m)], *[S.Not(S.eq(nums[i], nums[j])) for i in range(m) for j in range(i)])


CASES = [
    ("x, 3 points, steps of two", (0.0, 0.0, 0.0), (4.0, 0.0, 0.0), 2.0, (3,), (0,)),
    ("y, 3 points, below zero", (0.0, -0.75, 0.0), (0.0, 0.25, 0.0), 0.5, (3,), (1,)),
    ("z, 4 points, half steps", (0.0, 0.0, -0.75), (0.0, 0.0, 0.5), 0.5, (4,), (2,)),
    ("x and y, 3 points", (0.0, -1.0, 0.0), (1.0, 0.0, 0.0), 1.0, (3,), (0, 1)),
    ("y and z, two polygons", (0.25, 0.0, -1.0), (0.25, 0.5, 0.5), 1.0, (2, 2), (1, 2)),
]
Contract("make_voxel_grid_symbolic", None, ["P17"], bounded=[(t, vs_inputs(*c)) for t, *c in CASES], post=vs_post, functions=[VG], frame=False, max_paths=4000, bounded_wall=60,
         invoke=lambda S, I, a: I.call_fq(VG, [a["lo"], a["hi"], a["polys"], a["step"]], dict(verbose=False)))
