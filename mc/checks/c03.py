"""C03: lazy grid and spline interpolation equals eager interpolation.

Explored space: interpolator class x options x target vectors x chunk specifications (every composition of the target
shape).  Every block of every lazy result is computed and compared with the immediate result.
"""
import functools
import itertools

import dask
import dask.array as da
import numpy as np
from dask.array.core import normalize_chunks

from geotiepoints.geointerpolator import GeoGridInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (MultipleGridInterpolator, MultipleSplineInterpolator, SingleGridInterpolator,
                                       SingleSplineInterpolator)

from .. import lib
from ..core import Space, Violation

PROPERTY = "C03"
ASSUMPTIONS = [
    "target grids of up to 6x5 points (every chunk composition) and a few larger ones",
    "reference: the immediate result of the same object (its correctness is C07, C08)",
]
TIES = (np.array([0., 3, 7, 8, 12]), np.array([0., 2, 5, 9]))
EXTRA = dict(bounds_error=False, fill_value=None)
#: name -> (class, constructor options, call options)
OPTIONS = {
    "grid": (SingleGridInterpolator, {}, {}),
    "grid extrapolating": (SingleGridInterpolator, EXTRA, {}),
    "grid nearest": (SingleGridInterpolator, dict(method="nearest", **EXTRA), {}),
    "grid call nearest": (SingleGridInterpolator, EXTRA, dict(method="nearest")),
    "grid fill": (SingleGridInterpolator, dict(bounds_error=False, fill_value=-7.0), {}),
    "grid pchip": (SingleGridInterpolator, dict(method="pchip", **EXTRA), {}),
    "spline": (SingleSplineInterpolator, {}, {}),
    "spline linear": (SingleSplineInterpolator, dict(kx=1, ky=1), {}),
    "spline 2x3": (SingleSplineInterpolator, dict(kx=2, ky=3), {}),
    "spline slope": (SingleSplineInterpolator, dict(kx=2, ky=2), dict(dx=1)),
    "multiple grid": (MultipleGridInterpolator, EXTRA, {}),
    "multiple spline": (MultipleSplineInterpolator, dict(kx=1, ky=2), {}),
    "geo grid": (GeoGridInterpolator, EXTRA, {}),
    "geo grid call": (GeoGridInterpolator, EXTRA, dict(method="nearest")),
    "geo spline": (GeoSplineInterpolator, dict(kx=1, ky=3), {}),
}
#: name -> function (n, span) -> target positions of one dimension
TARGETS = {
    "from zero": lambda n, top: np.arange(n),
    "offset": lambda n, top: np.arange(n) + int(top) - n + 1,
    "fractional": lambda n, top: np.arange(n) * (top / (n + 1)) + 0.25,
    "uneven": lambda n, top: np.array([0.0, 0.5, 3.25, 4.0, 4.5, 8.75, 8.875, 9.0])[:n],
    "beyond": lambda n, top: np.linspace(-1.5, top + 1.5, n) if n > 1 else np.array([-1.5]),
    "outside": lambda n, top: np.arange(n) + top + 0.5,
    "repeated": lambda n, top: np.array([1, 1, 2, 2, 2, 5, 5, 6])[:n],
    "descending": lambda n, top: np.arange(n)[::-1] * 1.5,
    "shuffled": lambda n, top: np.array([4, 0, 5.5, 2, 1, 3])[:n],
    "list": lambda n, top: [float(v) + 0.5 for v in range(n)],
    "range": lambda n, top: range(1, n + 1),
    "dense": lambda n, top: np.linspace(0.01 * top, 0.99 * top, n),
    "float32": lambda n, top: (np.arange(n) * 1.25).astype(np.float32),
}
NEEDS_SORTED = {"descending", "shuffled"}
NEEDS_EXTRAPOLATION = {"beyond", "outside"}


@functools.lru_cache(None)
def interpolator(option, dtype):
    cls, init, _ = OPTIONS[option]
    y, x = np.meshgrid(*TIES, indexing="ij")
    base = 100 + 3 * y - 2 * x + np.sin(y) * np.cos(2 * x) * 5
    if option.startswith("geo"):
        return cls(TIES, (175 + x + 0.3 * y).astype(dtype), (55 - 0.5 * y + 0.1 * x).astype(dtype), **init)
    if option.startswith("multiple"):
        return cls(TIES, base.astype(dtype), (base[::-1] * 2).astype(dtype), (base * 0 + y).astype(dtype), **init)
    return cls(TIES, base.astype(dtype), **init)


def results(obj, points, call, chunks=None, shape=None):
    kw = dict(call)
    if chunks is not None:
        kw["chunks"] = chunks
    res = obj.interpolate_to_shape(shape, **kw) if shape is not None else obj.interpolate(points, **kw)
    return [res] if hasattr(res, "shape") else list(res)


def _chunks(spec):
    """Specifications survive JSON."""
    if isinstance(spec, list) and spec and spec[0] == "dict":
        return {k: _chunks(v) for k, v in enumerate(spec[1:]) if v != "absent"}
    if isinstance(spec, list):
        return tuple(_chunks(s) for s in spec)
    return spec


def run(case, rec):
    option, dtype, kind, shape, spec, to_shape = case
    obj = interpolator(option, dtype)
    points = (TARGETS[kind[0]](shape[0], TIES[0][-1]), TARGETS[kind[1]](shape[1], TIES[1][-1]))
    call = OPTIONS[option][2]
    spec = _chunks(spec)
    eager = results(obj, points, call, shape=tuple(shape) if to_shape else None)
    lazy = results(obj, points, call, spec, shape=tuple(shape) if to_shape else None)
    if len(eager) != len(lazy):
        raise Violation("%d lazy results instead of %d" % (len(lazy), len(eager)))
    item = np.dtype(dtype)
    want = normalize_chunks(spec, tuple(shape), dtype=item)
    for n, (e, l) in enumerate(zip(eager, lazy)):
        what = "%s %s targets %s shape %s chunks %r, array %d" % (option, dtype, kind, shape, spec, n)
        if isinstance(e, da.Array):
            raise Violation("%s: immediate result is lazy" % what)
        if not isinstance(l, da.Array):
            raise Violation("%s: not lazy" % what)
        if l.shape != e.shape or e.shape != tuple(shape):
            raise Violation("%s: shapes %s (lazy), %s (immediate)" % (what, l.shape, e.shape))
        if l.chunks != want:
            raise Violation("%s: chunks %s instead of %s" % (what, l.chunks, want))
        if l.dtype != e.dtype:
            raise Violation("%s: dtype %s instead of %s" % (what, l.dtype, e.dtype))
        blocks = l.to_delayed()
        flat = iter(dask.compute(*blocks.ravel().tolist(), scheduler="synchronous"))
        rows = []
        for i in range(blocks.shape[0]):
            row = []
            for j in range(blocks.shape[1]):
                b = next(flat)
                if b.shape != (want[0][i], want[1][j]) or b.dtype != l.dtype:
                    raise Violation("%s: block %s is %s %s" % (what, (i, j), b.shape, b.dtype))
                row.append(b)
                rec.step()
            rows.append(np.concatenate(row, axis=1))
        full = np.concatenate(rows)
        lib.same_values(what, full, e, 1e-9 if e.dtype == np.float64 else 1e-5)
        if n == 0:
            lib.same_values(what + " (compute)", l.compute(scheduler="synchronous"), e, 1e-9 if e.dtype == np.float64 else 1e-5)
        rec.trace()
        rec.outcome((option, dtype, e.round(4).tobytes()))
    rec.state((option, dtype, tuple(kind), tuple(shape), str(spec), to_shape))


def run_sizes(case, rec):
    """Every number of target rows or columns, at once and in small blocks."""
    option, dim, first, top, block = case
    obj = interpolator(option, "f8")
    call = OPTIONS[option][2]
    for n in range(first, top):
        shape = (n, 2) if dim == 0 else (2, n)
        points = tuple(np.linspace(0.01 * t[-1], 0.99 * t[-1], m) for m, t in zip(shape, TIES))
        chunks = (block, 2) if dim == 0 else (2, block)
        for k, (e, l) in enumerate(zip(results(obj, points, call), results(obj, points, call, chunks))):
            lib.same_values("%s, targets of shape %s, chunks %s, array %d" % (option, shape, chunks, k), l.compute(scheduler="synchronous"), e, 1e-9)
            rec.step()
        rec.state((option, dim, n))
    rec.trace()


def _valid(option, kinds):
    if "spline" in option and set(kinds) & NEEDS_SORTED:
        return False
    if option == "grid" and set(kinds) & NEEDS_EXTRAPOLATION:
        return False
    return True


def spaces(tier, seed):
    deep = tier == "thorough"
    small = [(6, 5), (1, 4), (5, 1), (1, 1), (2, 3)] if deep else [(5, 4), (1, 4), (5, 1), (1, 1), (2, 3)]
    specs = ["auto", -1, 1, 2, 3, 4, 7, 100, [-1, 1], [2, -1], [3, 2], [1, 4], [100, 2], "64B", "200B", [None, 2], [3, None], ["auto", 2], [-1, "auto"],
             ["dict", 2, 3], ["dict", 2], ["dict", "absent", 2], ["dict", -1, "auto"], ["dict", 2, 1]]
    res = []
    cases = []
    kinds = [("from zero", "from zero"), ("offset", "fractional"), ("fractional", "offset"), ("uneven", "beyond"),
             ("beyond", "uneven"), ("outside", "fractional"), ("repeated", "repeated"), ("list", "range"), ("range", "list"),
             ("descending", "shuffled"), ("shuffled", "descending"), ("float32", "float32"), ("from zero", "offset")]
    for option in OPTIONS:
        for kind in kinds:
            if not _valid(option, kind):
                continue
            for shape in small:
                for spec in specs:
                    cases.append((option, "f8", kind, shape, spec, False))
                    if deep or spec in (2, [3, 2]):
                        cases.append((option, "f4", kind, shape, spec, False))
                        if kind == ("from zero", "from zero") and option.startswith(("multiple", "geo")):
                            cases.append((option, "f8", kind, shape, spec, True))
    res.append(Space("chunk specifications", cases, run, "every class, option set, pair of target kinds, shape of %s and %d chunk "
                     "specifications" % (small, len(specs))))
    cases = []
    shape = small[0]
    for option in OPTIONS:
        for kind in (kinds if deep else kinds[:5] + kinds[9:10]):
            if not _valid(option, kind):
                continue
            for a, b in itertools.product(lib.compositions(shape[0]), lib.compositions(shape[1])):
                if deep or kind == kinds[1] or (len(a) + len(b)) % 3 == 0:
                    cases.append((option, "f8", kind, shape, [list(a), list(b)], False))
    res.append(Space("every chunking", cases, run, "every composition of both dimensions of a %dx%d target" % shape))
    cases = [(option, dt, ("fractional", "fractional"), (37, 41), spec, False) for option in OPTIONS for dt in ("f8", "f4", "i4")
             for spec in (5, [7, 11], "500B", [37, 40], "auto")
             if dt != "i4" or "geo" not in option]
    # more chunks, rows and columns than any small constant
    for option in OPTIONS:
        if option == "grid pchip":
            continue  # slow
        cases += [(option, "f8", ("dense", "dense"), shp, spec, False) for shp, spec in
                  (((300, 7), [1, 3]), ((7, 300), [2, 1]), ((257, 129), [64, 64]), ((129, 1025), [100, 512]), ((40, 40), 2), ((1100, 600), "1MiB"), ((1025, 3), -1))]
    res.append(Space("larger targets and integer data", cases, run, "37x41 targets, three data types; up to 1100x600 targets and 900 chunks"))
    sweep = [(option, dim, first, min(first + 25, top), block) for option, top in
             [("grid extrapolating", 2100), ("spline", 2100), ("geo grid", 1100), ("geo spline", 1100), ("multiple spline", 1100), ("multiple grid", 1100)]
             for dim in (0, 1) for block in (97,) for first in range(1, top if deep else 1060, 25)]
    res.append(Space("every size", sweep, run_sizes, "every number of target rows and of columns from 1 to %d" % (2099 if deep else 1059)))
    return res
