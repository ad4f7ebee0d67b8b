"""C11: multilinear interpolation is the multilinear interpolant of the grid values.

For every grid shape the operator is compared on every node impulse (all of them as value rows of one call) at the full
product of position classes along each dimension: nodes, inside each cell, on and around the borders, outside, far outside.
"""
import itertools

import numpy as np

from geotiepoints.multilinear import MultilinearInterpolator

from .. import lib
from ..core import Space, Violation

PROPERTY = "C11"
ASSUMPTIONS = [
    "up to 12/7/4/3 nodes per dimension in 1/2/3/4 dimensions, boundaries from a small set of boxes (also decreasing ones)",
    "infinite query positions are not explored; results far outside are compared relative to the size of the extrapolation weights",
]
BOXES = [(0.0, 1.0), (-3.0, 2.5), (10.0, 11.5), (5.0, -5.0), (-1.0, 1.0)]
NUMBERS = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8193, 16385, 65535,
           65536, 65537, 100003]
LONG = [(33,), (64,), (65,), (100,), (255,), (257,), (1000,), (4097,), (70000,), (33, 2), (2, 33), (17, 65), (65, 17), (300, 300), (3, 2, 40), (40, 3, 2),
        (12, 40, 13), (50, 60, 50), (17, 3, 9, 5), (5, 9, 3, 17), (20, 20, 20, 20)]


def classes(order, level):
    """Positions along one dimension in units of grid cells."""
    inside = [c + w for c in range(order - 1) for w in ((0.0, 0.3, 0.75) if level > 1 else (0.0, 0.4))] + [order - 1.0]
    if level < 2:
        inside = sorted({0.0, 0.4, order - 1.6, order - 1.0, order // 2 - 0.4 + (order < 3)})
    around = [-1e-3, order - 1 + 1e-3, -0.5, order - 0.5]
    far = [-2.5, order + 3.25]
    very = [-1e5, 1e5, 3e9, -3e9, 1e13, -1e13]
    if level == 0:
        return inside[:4] + [-0.5, order - 0.5]
    return inside + around + far + (very if level > 1 else very[2:4])


def run(case, rec):
    orders, boxes, dtype, level, form = case
    d = len(orders)
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    smin, smax = [BOXES[b][0] for b in boxes], [BOXES[b][1] for b in boxes]
    n = int(np.prod(orders))
    most = 1e20 if dtype == "f8" else {1: 1e20, 2: 1e14, 3: 1e10, 4: 1e6}[d]   # weights must not overflow
    cells = np.array(list(itertools.product(*[[c for c in classes(o, level) if abs(c) < most] for o in orders]))).T
    s = np.array([lo + c / (o - 1) * (hi - lo) for lo, hi, o, c in zip(smin, smax, orders, cells)]).astype(dt)
    values = np.eye(n, dtype=dt)
    if form % 4 == 1:
        obj = MultilinearInterpolator(tuple(smin), tuple(smax), tuple(orders), dtype=dt)
        obj.set_values(np.asfortranarray(values))
        got = obj.interpolate(np.asfortranarray(s))
    elif form % 4 == 2:
        obj = MultilinearInterpolator(np.array(smin), np.array(smax), np.array(orders), values.tolist(), dtype=dt)
        got = obj(s.tolist())
    elif form % 4 == 3:
        obj = MultilinearInterpolator(np.array(smin, "f4"), np.array(smax, "f4"), np.array(orders, "i4"), values.astype("f8"), dtype=dt)
        got = obj(s.astype("f8")[:, ::1])
    else:
        obj = MultilinearInterpolator(smin, smax, orders, values.copy(), dtype=dt)
        got = obj(s.copy())
    if got.dtype != dt:
        raise Violation("result of type %s instead of %s" % (got.dtype, np.dtype(dt)))
    if got.shape != (n, s.shape[1]):
        raise Violation("result of shape %s instead of %s" % (got.shape, (n, s.shape[1])))
    lo, hi = np.asarray(smin, dt).astype(float), np.asarray(smax, dt).astype(float)
    ref = lib.multilinear(lo, hi, orders, np.eye(n), s.astype("f8"))
    # size of the extrapolation weights of every point, and error of the positions in cells
    weight = np.ones(s.shape[1])
    for k in range(d):
        pos = (s[k].astype("f8") - lo[k]) / (hi[k] - lo[k]) * (orders[k] - 1)
        weight = weight * np.maximum(1, np.maximum(-pos, pos - orders[k] + 1) + 1)
    for row in range(n):
        lib.same_values("node %d of %s" % (row, orders), got[row] / weight, ref[row] / weight, 1e-9 if dtype == "f8" else 3e-4, 1.0)
        rec.state((tuple(orders), tuple(boxes), dtype, level, form, row))
    rec.step(n * s.shape[1])
    rec.trace()
    rec.outcome((d, round(float(np.abs(got).max()), 3)))


def run_points(case, rec):
    """Numbers of points and of value rows, repeated and missing points."""
    d, npts, nrows, dtype = case
    orders = [3, 2, 4, 2][:d]
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    n = int(np.prod(orders))
    values = np.array([[np.sin(1.3 * i + 2.1 * r) for i in range(n)] for r in range(nrows)]).reshape(nrows, n)
    s = np.array([[np.cos(0.7 * p + k) * 1.2 for p in range(npts)] for k in range(d)]).reshape(d, npts)
    obj = MultilinearInterpolator([-1.0] * d, [1.0] * d, orders, values, dtype=dt)
    got = obj(s)
    lib.same_values("all points", got, lib.multilinear([-1.0] * d, [1.0] * d, orders, values, s), 1e-9 if dtype == "f8" else 1e-4)
    for p in range(npts):
        lib.same_values("point %d on its own" % p, obj(s[:, p:p + 1]), got[:, p:p + 1], 1e-12)
        rec.step()
    for p in range(min(npts, 3)):
        for k in range(d):
            t = s.copy()
            t[k, p] = np.nan
            r = obj(t)
            if not np.isnan(r[:, p]).all():
                raise Violation("a point with a missing coordinate has a value")
            lib.same_values("next to a missing point", np.delete(r, p, 1), np.delete(got, p, 1), 1e-12)
            rec.step()
    rec.state(tuple(case))
    rec.step()
    rec.trace()


def run_many(case, rec):
    """Many query points: the answers are those of small batches, whatever the number of points and their alignment."""
    d, npts, nrows, dtype = case
    orders = [5, 3, 4, 3][:d]
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    n = int(np.prod(orders))
    values = np.add.outer(np.arange(nrows) * 1.7, np.sin(np.arange(n) * 1.3)).astype(dt)
    k = np.arange(npts)
    s = np.array([((k * (7 + 4 * i)) % 61) / 61.0 * 2.3 - 1.15 for i in range(d)]).reshape(d, npts)
    got = MultilinearInterpolator([-1.0] * d, [1.0] * d, orders, values, dtype=dt)(s)
    want = lib.multilinear([-1.0] * d, [1.0] * d, orders, values.astype("f8"), s)
    lib.same_values("%d points" % npts, got, want, 1e-9 if dtype == "f8" else 1e-4)
    # few distinct positions in a row: the same answer in every place
    t = np.repeat(s[:, :1], npts, axis=1)
    rep = MultilinearInterpolator([-1.0] * d, [1.0] * d, orders, values, dtype=dt)(t)
    lib.same_values("%d times the same point" % npts, rep, np.repeat(want[:, :1], npts, axis=1), 1e-9 if dtype == "f8" else 1e-4)
    rec.state(tuple(case))
    rec.step(2 * npts)
    rec.trace()


def run_counts(case, rec):
    """Every number of points and of value rows up to a bound."""
    d, what, first, top, dtype = case
    orders = [5, 3, 4, 3][:d]
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    n = int(np.prod(orders))
    k = np.arange(top if what == "points" else 5)
    s = np.array([((k * (7 + 4 * i)) % 61) / 61.0 * 2.3 - 1.15 for i in range(d)]).reshape(d, len(k))
    values = np.add.outer(np.arange(top if what == "rows" else 2) * 1.7, np.sin(np.arange(n) * 1.3)).astype(dt)
    want = lib.multilinear([-1.0] * d, [1.0] * d, orders, values.astype("f8"), s)
    obj = MultilinearInterpolator([-1.0] * d, [1.0] * d, orders, dtype=dt)
    for m in range(first, top):
        obj.set_values(values[:m] if what == "rows" else values)
        got = obj(s[:, :m] if what == "points" else s)
        lib.same_values("%d %s" % (m, what), got, want[:, :m] if what == "points" else want[:m], 1e-9 if dtype == "f8" else 1e-4 * max(1, m / 50.0 if what == "rows" else 1))
        rec.step(m)
        rec.state((d, what, m, dtype))
    rec.trace()


def run_big_grid(case, rec):
    """Long grids: every node of a profile and the middle of every cell."""
    orders, dtype = case
    d = len(orders)
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    n = int(np.prod(orders))
    values = np.stack([np.sin(np.arange(n) * 0.37), (np.arange(n) % 101) / 7.0]).astype(dt)
    obj = MultilinearInterpolator([0.0] * d, [o - 1.0 for o in orders], orders, values, dtype=dt)
    for k in range(d):
        for off in (0.0, 0.25):
            pos = np.arange(orders[k] - (off > 0)) + off
            s = np.array([pos if i == k else np.full(len(pos), (orders[i] - 1) * 0.5 + 0.25 * (orders[i] % 2)) for i in range(d)])
            want = lib.multilinear([0.0] * d, [o - 1.0 for o in orders], orders, values.astype("f8"), s.astype(dt).astype("f8"))
            lib.same_values("along dimension %d of %s" % (k, orders), obj(s), want, 1e-9 if dtype == "f8" else 1e-4 + max(orders) * 5e-7)
            rec.step(len(pos))
    rec.state((tuple(orders), dtype))
    rec.trace()


def run_grid(case, rec):
    orders, boxes, dtype = case
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    smin, smax = [BOXES[b][0] for b in boxes], [BOXES[b][1] for b in boxes]
    obj = MultilinearInterpolator(smin, smax, orders, dtype=dt)
    want = np.array([[np.linspace(lo, hi, o)[i] for lo, hi, o, i in zip(smin, smax, orders, idx)] for idx in np.ndindex(*orders)]).T
    for what in ("first", "second"):
        lib.same_values("grid (%s time)" % what, obj.grid, want, 1e-12 if dtype == "f8" else 1e-6)
        rec.step()
    rec.state((tuple(orders), tuple(boxes), dtype))
    rec.trace()


def spaces(tier, seed):
    deep = tier == "thorough"
    cases, grids = [], []
    for d in range(1, 5):
        most = {1: 12, 2: 7, 3: 4, 4: 3}[d] + (deep and d < 4)
        for k, orders in enumerate(itertools.product(range(2, most + 1), repeat=d)):
            for b in range(len(BOXES) if d < 4 or deep else 2):
                boxes = [(b + k + i * (1 + k % 3)) % len(BOXES) for i in range(d)]
                for dtype in ("f8", "f4"):
                    level = {1: 2, 2: 2, 3: 2, 4: 1}[d] + (1 if deep and d == 4 else 0)
                    if level == 2 and sum(orders) > 13:
                        level = 1
                    cases.append((orders, boxes, dtype, level, k + b))
                    grids.append((orders, boxes, dtype))
    points = [(d, p, r, dt) for d in range(1, 5) for p in (0, 1, 2, 3, 7, 33) for r in (0, 1, 2, 5) for dt in ("f8", "f4") if p or r]
    many = [(d, p, r, dt) for d in range(1, 5) for p in NUMBERS for r in (1, 2) for dt in ("f8", "f4")]
    return [Space("operators", cases, run, "every grid shape, every node impulse, product of position classes; %d boxes, both precisions, 4 ways of passing arguments" % len(BOXES)),
            Space("points and rows", points, run_points, "0..33 points, 0..5 value rows, missing coordinates"),
            Space("many points", many, run_many, "%d..%d points in 1..4 dimensions, around powers of two" % (min(NUMBERS), max(NUMBERS))),
            Space("every number", [(d, what, first, min(first + 50, top), dt) for d in range(1, 5) for what, top in (("points", 4200 if deep else 2100), ("rows", 600 if deep else 300))
                                   for first in range(1, top, 50) for dt in ("f8", "f4")], run_counts,
                  "every number of points up to %d and of value rows up to %d" % ((4199, 599) if deep else (2099, 299))),
            Space("long grids", [(o, dt) for o in LONG for dt in ("f8", "f4")], run_big_grid, "grids %s" % (LONG,)),
            Space("grid", grids, run_grid, "every grid shape and box")]
