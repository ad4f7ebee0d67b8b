"""C17: ill-formed input is rejected instead of producing a result.

Every shape, argument count and parameter around the valid ones is tried, in memory, chunked and labelled, each case in a
crash-isolated process.  The model is the predicate "well-formed"; every ill-formed element of the lattice must raise, and
a call with valid input afterwards must give what it gave before (nothing was damaged).
"""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

import geotiepoints
from geotiepoints import simple_modis_interpolator
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                                       SingleGridInterpolator, SingleSplineInterpolator)
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C17"
ASSUMPTIONS = [
    "shapes, widths and argument counts in a neighbourhood of the valid ones; any exception counts as a rejection; a lazy call may "
    "reject when it is made or when it is computed",
    "empty input (no scans at all) and the generic longitude/latitude broadcasting of numpy are not considered ill-formed",
    "damage to memory shows as a crash or as a changed result of a valid call afterwards (reads outside arrays are C19)",
]
WRAPPERS = ["plain", "dask", "dask chunks", "xarray", "xarray dask"]


def wrap(a, how):
    if how == "plain":
        return a
    if how == "xarray":
        return xr.DataArray(a, dims=("t", "y", "x")[3 - a.ndim:])
    ch = tuple([-1] * a.ndim) if how != "dask chunks" else tuple(max(1, n // 2) for n in a.shape)
    d = da.from_array(a, chunks=ch)
    return xr.DataArray(d, dims=("t", "y", "x")[3 - a.ndim:]) if how == "xarray dask" else d


def must_raise(what, fun, rec):
    try:
        res = fun()
        res = [res] if hasattr(res, "shape") else list(res)
        shapes = [np.asarray(r).shape for r in res]
    except Exception as err:
        rec.step()
        rec.outcome(type(err).__name__)
        return
    raise Violation("%s: accepted, result of shapes %s" % (what, shapes))


def values(shape, k):
    n = int(np.prod(shape))
    return (np.sin(np.arange(n) * 0.37 + k) * 20 + 30).reshape(shape)


def well_formed(conv, shape):
    if len(shape) != 2 or shape[0] % api.CONV[conv][1]:
        return False
    if conv.startswith("simple"):
        return shape[1] >= 2
    if conv.startswith("angle_5km"):
        return shape[1] in (270, 271)
    return shape[1] == (1354 if api.CONV[conv][5] == 1000 else 271)


def run_shape(case, rec):
    conv, shapes, how, dtype = case
    fn = api.CONV[conv][0]
    args = [wrap(values(s, k).astype(dtype), how) for k, s in enumerate(shapes)]
    must_raise("%s with %s arrays of shapes %s" % (conv, how, shapes), lambda: fn(*args), rec)
    rec.state((conv, tuple(map(tuple, shapes)), how, dtype))
    rec.trace()


def run_after(case, rec):
    """Valid calls around rejected ones give the same result."""
    conv, shape = case
    good = api.tie_data(conv, "mid", 1 if api.CONV[conv][1] == 10 else 2, "f8", 5 if "simple" in conv else None)
    fn = api.CONV[conv][0]
    before = api.call(conv, [a.copy() for a in good])
    for k in range(3):
        must_raise("%s with shape %s" % (conv, shape), lambda: fn(*[values(shape, n) for n in range(len(good))]), rec)
        after = api.call(conv, [a.copy() for a in good])
        lib.same_places("a valid call after a rejected one", after[0], after[1], before, 1e-6)
    rec.state((conv, tuple(shape)))
    rec.trace()


def run_resolution(case, rec):
    coarse, fine, rows, cols, how = case
    a, b = (wrap(values((rows, cols), k), how) for k in (0, 1))
    kw = {}
    if coarse is not None:
        kw["coarse_resolution"] = coarse
    if fine is not None:
        kw["fine_resolution"] = fine
    must_raise("lon/lat-only interpolation from %s to %s" % (coarse, fine),
               lambda: simple_modis_interpolator.interpolate_geolocation_cartesian(a, b, **kw), rec)
    rec.state(tuple(case))
    rec.trace()


def run_metop(case, rec):
    shapes = case
    must_raise("metop20kmto1km with arrays of shapes %s" % (shapes,), lambda: geotiepoints.metop20kmto1km(*[values(s, k) for k, s in enumerate(shapes)]), rec)
    rec.state(tuple(map(tuple, shapes)))
    rec.trace()


def run_long(case, rec):
    """Long swaths with one scan that is not complete."""
    conv, width, first, top, how = case
    per, nargs = api.CONV[conv][1], api.CONV[conv][3]
    for n in range(first, top):
        if n % per:
            must_raise("%s with %s arrays of shape %s" % (conv, how, (n, width)), lambda: api.CONV[conv][0](*[wrap(values((n, width), k), how) for k in range(nargs)]), rec)
            rec.state((conv, n, width, how))
    rec.trace()


def run_parallel(case, rec):
    conv, lon_shape, lat_shape, cores = case
    fn = getattr(geotiepoints, conv)
    must_raise("%s of %s and %s with %d cores" % (conv, lon_shape, lat_shape, cores),
               lambda: fn(values(lon_shape, 0), values(lat_shape, 1), cores=cores), rec)
    rec.state((conv, tuple(lon_shape), tuple(lat_shape), cores))
    rec.trace()


def run_multilinear(case, rec):
    d_min, d_max, orders, nvalues, d_pts, vdim, sdim, dtype = case
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    vals = np.ones((2, nvalues)) if vdim == 2 else np.ones((2, nvalues, 1)) if vdim == 3 else np.ones(nvalues)
    s = np.full((d_pts, 4), 0.3) if sdim == 2 else np.full(d_pts, 0.3) if sdim == 1 else np.full((d_pts, 4, 1), 0.3)

    def go():
        obj = MultilinearInterpolator([0.0] * d_min, [1.0] * d_max, list(orders), dtype=dt)
        obj.set_values(vals)
        return obj(s)
    must_raise("multilinear grid %s with %d and %d boundaries, values %s, points %s" % (orders, d_min, d_max, vals.shape, s.shape), go, rec)
    rec.state((d_min, d_max, tuple(orders), nvalues, d_pts, vdim, sdim, dtype))
    rec.trace()


def run_generic(case, rec):
    kind, nr, nc, shape, fill, same_rows, coords = case
    rows, cols = np.arange(nr) * 2.0, np.arange(nc) * 3.0
    targets = (rows.copy() if same_rows else np.arange(2 * nr - 1.0), np.arange(3 * nc - 2.0))
    data = values(tuple(shape), 0), values(tuple(shape), 1)
    good = values((nr, nc), 0)

    def go():
        if kind == "generic":
            obj = Interpolator([data[0]], (rows, cols), targets)
        elif kind == "bare":
            obj = Interpolator(data[0], (rows, cols), targets)
        elif kind == "second":
            obj = Interpolator([good, data[0]], (rows, cols), targets)
        elif kind == "geo":
            obj = GeoInterpolator(data, (rows, cols), targets)
        elif kind == "basic":
            return BasicSatelliteInterpolator(np.arange(nc) * 2, np.arange(nr) * 2, data[0], data[1]).interpolate()
        elif kind == "basic second":
            return BasicSatelliteInterpolator(np.arange(nc) * 2, np.arange(nr) * 2, good, data[1]).interpolate()
        else:
            cls = {"grid": SingleGridInterpolator, "spline": SingleSplineInterpolator, "multiple grid": MultipleGridInterpolator,
                   "multiple spline": MultipleSplineInterpolator, "geo grid": GeoGridInterpolator, "geo spline": GeoSplineInterpolator}[kind]
            kw = {"kx": 1, "ky": 1} if "spline" in kind else {}
            arrs = data[:1] if kind in ("grid", "spline") else data if "geo" in kind else (good, data[0])
            obj = cls((rows, cols), *arrs, **kw)
            return obj.interpolate(targets, **({} if not fill else {"chunks": 2}))
        if fill:
            obj.fill_borders(*fill)
        return obj.interpolate()
    must_raise("%s interpolator of a %d x %d grid and data of shape %s (%s)" % (kind, nr, nc, shape, fill), go, rec)
    rec.state((kind, nr, nc, tuple(shape), fill, same_rows))
    rec.trace()


def run_dims(case, rec):
    dims, geo = case
    rows, cols = np.array([1.0, 3.0, 5.0]), np.array([1.0, 2.0, 6.0])
    targets = (np.arange(7.0), np.arange(8.0))

    def build():
        d = [values((3, 3), 0), values((3, 3), 1)]
        return GeoInterpolator(d, (rows, cols), targets) if geo else Interpolator(d, (rows, cols), targets)
    obj = build()
    must_raise("fill_borders%s" % (tuple(dims),), lambda: [obj.fill_borders(*dims)], rec)
    for a, b in zip(obj.interpolate(), build().interpolate()):
        lib.same_values("after a rejected fill_borders", a, b, 1e-12)
    rec.state((tuple(map(str, dims)), geo))
    rec.trace()


def run_counts(case, rec):
    kind, count = case
    ties = (np.arange(3.0), np.arange(4.0))
    arrs = [values((3, 4), k) for k in range(count)]
    if kind in api.CONV:
        a = api.tie_data(kind, "mid", 1 if api.CONV[kind][1] == 10 else 2, "f8", 5 if "simple" in kind else None)
        a = (a * 3)[:count]
        must_raise("%s with %d arrays" % (kind, count), lambda: api.CONV[kind][0](*a), rec)
        if count:
            must_raise("%s with %d dask arrays" % (kind, count), lambda: api.CONV[kind][0](*[da.from_array(x) for x in a]), rec)
    elif kind == "geo":
        must_raise("%s with %d arrays" % (kind, count), lambda: GeoInterpolator(arrs, ties, (np.arange(3.), np.arange(4.))).interpolate(), rec)
    else:
        cls = GeoGridInterpolator if kind == "geo grid" else GeoSplineInterpolator
        must_raise("%s with %d arrays" % (kind, count), lambda: cls(ties, *arrs, **({"kx": 1, "ky": 1} if "spline" in kind else {})).interpolate(ties), rec)
    rec.state((kind, count))
    rec.trace()


def run_vii(case, rec):
    shapes, dims, per, how, fun = case
    arrs = []
    for k, (s, d) in enumerate(zip(shapes, dims)):
        a = values(s, k)
        arrs.append(xr.DataArray(da.from_array(a) if how == "dask" else a, dims=d))
    if fun == "plain":
        must_raise("VII interpolation of %s, %d rows per scan" % (shapes, per), lambda: tie_points_interpolation(arrs, per, 3), rec)
    else:
        must_raise("VII geographic interpolation of %s, %d rows per scan" % (shapes, per), lambda: tie_points_geo_interpolation(*arrs, per, 3), rec)
    rec.state((tuple(map(tuple, shapes)), tuple(map(tuple, dims)), per, how, fun))
    rec.trace()


def broadcasts(odd, base):
    try:
        return len(np.broadcast_shapes(odd, base)) == 2
    except ValueError:
        return False


def spaces(tier, seed):
    deep = tier == "thorough"
    shapes = []
    for conv in api.CONV:
        nargs, per, legacy = api.CONV[conv][3], api.CONV[conv][1], api.CONV[conv][4] == "legacy"
        widths = [1, 2, 3, 5] if "simple" in conv else [1, 2, 100, 269, 270, 271, 272, 273, 1000, 1353, 1354, 1355, 2708]
        if legacy and not deep:
            widths = [2, 269, 270, 271, 272, 1353, 1354, 1355]
        right = {"simple": 4}.get(conv.split("_")[0], 271 if api.CONV[conv][5] == 5000 else 1354)
        rows = list(range(1, 32 if deep else 23)) if per == 10 else range(1, 10)
        hows = WRAPPERS if not legacy else ["plain"]
        for n, w in itertools.product(rows, widths + ([right] if right not in widths else [])):
            if well_formed(conv, (n, w)) or (w not in (right, 270, 1) and n % per and not deep):
                continue
            for how in hows if w == right or n == per or deep else ("plain", "dask"):
                shapes.append((conv, [(n, w)] * nargs, how, "f8" if (n + w) % 3 else "f4"))
        # one argument different from the others
        base = (2 * per, right)
        for odd in [(per, right), (3 * per, right), (2 * per + 1, right), (2 * per, right - 1), (2 * per, right + 1), (right, 2 * per),
                    (1, right), (2 * per, 1), (2 * per * right,), (right,), (1, 2 * per, right), (2 * per, right, 1)]:
            for k in range(nargs):
                for how in hows:
                    if legacy and broadcasts(odd, base):
                        continue
                    if how == "dask chunks" and len(odd) != 2:
                        continue
                    shapes.append((conv, [odd if i == k else base for i in range(nargs)], how, "f8"))
        for nd in [(), (2 * per,), (right,), (1, 2 * per, right), (2 * per, right, 1), (1, 1, 2 * per, right)]:
            for how in ("plain", "dask") if not legacy else ("plain",):
                if len(nd) < 4 and nd != ():
                    shapes.append((conv, [nd] * nargs, how, "f8"))
        if conv == "generic_modis5kmto1km":
            shapes = [s for s in shapes if s[0] != conv or s[1][0] == s[1][1]]
    after = [(conv, s) for conv in api.CONV if api.CONV[conv][4] != "legacy"
             for s in ((9, 4), (11, 1354), (10, 1), (10, 1353 if "5km" in conv else 1), (3, 271), (1, 271), (20, 1), (2, 269 if "5km" in conv else 1))]
    good = (1000, 250), (1000, 500)
    reso = [(c, f, n, 4, how) for c in (None, -1000, 0, 1, 100, 250, 500, 750, 999, 1000, 1001, 2000, 5000, 10000)
            for f in (None, -250, 0, 1, 100, 125, 200, 249, 250, 251, 333, 400, 500, 501, 750, 1000, 5000) if (c, f) not in good
            for n in (10, 20) for how in (WRAPPERS if deep else ("plain", "dask", "xarray dask"))]
    par = []
    for conv in ("modis1kmto500m", "modis1kmto250m"):
        for n, cores in itertools.product((5, 9, 15, 21, 25), (2, 3)):
            par.append((conv, (n, 1354), (n, 1354), cores))
        for cores in (2, 3):
            for odd in ((10, 1354), (30, 1354), (20, 1353), (20, 1), (20, 1355), (19, 1354)):
                if not broadcasts(odd, (20, 1354)):
                    par.append((conv, (20, 1354), odd, cores))
                    par.append((conv, odd, (20, 1354), cores))
            par.append((conv, (20, 1353), (20, 1353), cores))
    right = 105
    metop = [[(n, w), (n, w)] for n in (1, 2, 3, 4, 10, 104, 105, 106) for w in list(range(1, 130)) + [210, 1023, 2047, 2048, 2049] if w != right]
    metop += [p for n in (2, 5, right) for odd in ((n, right - 1), (n, right + 1), (n + 1, right), (n - 1, right), (right, n), (right,), (n,), (1, n, right), (n, right, 1))
              for p in ([(n, right), odd], [odd, (n, right)]) if odd != (n, right) and not broadcasts(odd, (n, right))]
    metop += [[s, s] for s in ((right,), (1, 3, right), (3, right, 1))]
    long = [(conv, w, first, first + 40, how) for conv, w, top in (("simple_1km_to_500m", 3, 400), ("simple_1km_to_250m", 2, 400), ("angle_5km_to_1km", 271, 240), ("angle_5km_to_500m", 270, 80))
            for first in range(1, top * (3 if deep else 1), 40) for how in (WRAPPERS if deep else ("plain", "dask chunks"))]
    ml = []
    for d in range(1, 7):
        orders = [3, 2, 3, 2, 2, 2][:d]
        n = int(np.prod(orders))
        variants = set()
        for dm, dx, dp in itertools.product((d - 1, d, d + 1), repeat=3):
            if (dm, dx, dp) != (d, d, d) and min(dm, dx, dp) >= 0:
                variants.add((dm, dx, tuple(orders), n, dp, 2, 2))
        for size in (0, 1, n - 1, n + 1, 2 * n):
            if size != n:
                variants.add((d, d, tuple(orders), size, d, 2, 2))
        for k in range(d):
            for bad in (-3, -1, 0, 1):
                o = list(orders)
                o[k] = bad
                variants.add((d, d, tuple(o), abs(int(np.prod(o))), d, 2, 2))
                variants.add((d, d, tuple(o), n, d, 2, 2))
            o = list(orders)
            o[k] += 1
            variants.add((d, d, tuple(o), n, d, 2, 2))
        for vdim, sdim in itertools.product((1, 2, 3), repeat=2):
            if (vdim, sdim) != (2, 2):
                variants.add((d, d, tuple(orders), n, d, vdim, sdim))
        if d > 4:
            variants.add((d, d, tuple(orders), n, d, 2, 2))
        for v in sorted(variants):
            for dt in ("f8", "f4"):
                ml.append(v + (dt,))
    gen = []
    for kind in ("generic", "bare", "second", "geo", "basic", "basic second", "grid", "spline", "multiple grid", "multiple spline", "geo grid", "geo spline"):
        for nr, nc in itertools.product((2, 3, 4), repeat=2):
            for dr, dc in itertools.product((-2, -1, 0, 1, 3), repeat=2):
                shape = (nr + dr, nc + dc)
                if shape == (nr, nc) or min(shape) < 1:
                    continue
                for fill in ("", "y", "x", "yx") if kind in ("generic", "bare", "second", "geo") else ("", "chunked") if "basic" not in kind else ("",):
                    gen.append((kind, nr, nc, shape, fill, False, None))
                    if kind in ("generic", "bare", "second", "geo"):
                        gen.append((kind, nr, nc, shape, fill, True, None))
            if "grid" not in kind:
                gen.append((kind, nr, nc, (nr * nc,), "", False, None))
                gen.append((kind, nr, nc, (1, nr, nc), "", False, None))
    dims = [(d, g) for g in (False, True) for d in (["z"], [""], ["Y"], ["X"], ["rows"], [0], [None], ["yx"], ["y", "z"], ["z", "x"], ["x", "y", "w"], ["x", "x", "1"])]
    counts = [(c, k) for c in api.CONV for k in range(0, 6) if k != api.CONV[c][3] and api.CONV[c][4] != "legacy"]
    counts += [(c, k) for c in ("geo grid", "geo spline") for k in (0, 1, 3, 4, 5)] + [("geo", 0), ("geo", 1)]
    vii = []
    y, t = ("y", "x"), ("x", "y")
    for how in ("plain", "dask"):
        for n, per, m in itertools.product(range(1, 14), range(2, 8), (2, 4)):
            if n % per:
                for fun in ("plain", "geo"):
                    vii.append(([(n, m), (n, m)], [y, y], per, how, fun))
        for a, b in (((6, 4), (6, 5)), ((6, 4), (3, 4)), ((6, 4), (4, 6)), ((6, 4), (6, 3)), ((6, 4), (9, 4)), ((6, 1), (6, 4)), ((3, 4), (6, 4))):
            for fun in ("plain", "geo"):
                vii.append(([a, b], [y, y], 3, how, fun))
        vii.append(([(6, 4), (6, 4)], [y, t], 3, how, "plain"))
        vii.append(([(6, 4), (6, 4)], [y, ("y", "z")], 3, how, "plain"))
        vii.append(([(6, 6), (6, 6)], [y, t], 3, how, "plain"))
        for k in range(3):
            sh, dm = [(6, 4)] * 3, [y] * 3
            sh[k] = (6, 5)
            vii.append((sh, dm, 3, how, "plain"))
            sh, dm = [(6, 4)] * 3, [y] * 3
            dm[k] = ("y", "z")
            vii.append((sh, dm, 3, how, "plain"))
    return [Space("MODIS shapes", shapes, run_shape, "rows 1..22 x widths around the valid ones x containers; one odd argument; dimensions", timeout=60),
            Space("after a rejection", after, run_after, "valid calls around rejected ones"),
            Space("AVHRR shapes", metop, run_metop, "1..105 lines, every width to 129 and some more but 105; one odd argument; dimensions"),
            Space("long swaths", long, run_long, "every incomplete number of rows up to %s" % ("1200" if deep else "400")),
            Space("resolutions", reso, run_resolution, "13 x 16 resolution pairs"),
            Space("parallel", par, run_parallel, "incomplete scans and inconsistent shapes with 2 and 3 processes", timeout=120),
            Space("multilinear", ml, run_multilinear, "1..6 dimensions, every count one off, orders -3..1, value and point dimensions"),
            Space("generic", gen, run_generic, "data shapes around the grid, with and without filling, eager and lazy"),
            Space("border dimensions", dims, run_dims, "unknown names alone and next to known ones"),
            Space("argument counts", counts, run_counts, "0..5 arrays"),
            Space("VII", vii, run_vii, "1..13 rows x 2..7 rows per scan; inconsistent shapes and dimensions")]
