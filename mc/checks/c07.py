"""C07: interpolation returns the tie point value where a target point is a tie point.

The interpolators are linear in the data, so fidelity on every unit impulse of a tie grid decides it for all data on that
grid; tie grids are enumerated as subsets of an integer range.  Locations are checked at every place of an alphabet.
"""
import itertools
import warnings

import numpy as np
import xarray as xr

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                                       SingleGridInterpolator, SingleSplineInterpolator)
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C07"
ASSUMPTIONS = [
    "tie positions are subsets of a small integer range (optionally scaled and shifted by a constant)",
    "linearity in the data (decided by C08, C10, C11) extends the verdict from unit impulses to all data",
    "MODIS presets: fine pixels coincide with tie points only for 5 km to 1 km; locations from an alphabet of swath places",
]
EXTRA = dict(bounds_error=False, fill_value=None)
UNITS = [(1, 0), (0.2, 0), (3, -7), (0.1, 100.5), (1, 2e6), (1e-3, 0), (1000.0, -3e6)]


def subsets(top, least, most):
    """Tie positions 0 < ... < top within 0..top: every subset containing both ends, of least..most points."""
    for n in range(max(0, least - 2), most - 1):
        for mid in itertools.combinations(range(1, top), n):
            yield (0,) + mid + (top,)


def impulses(shape):
    res = []
    for k in range(int(np.prod(shape))):
        a = np.zeros(shape)
        a.flat[k] = 1
        res.append(a)
    return res


def smooth(rows, cols):
    y, x = np.meshgrid(np.asarray(rows, float), np.asarray(cols, float), indexing="ij")
    return 17.5 + 3 * y - 2 * x + np.sin(1.3 * y + 0.4) * np.cos(0.7 * x)


def check_at(what, got, ties, targets, data, tol=1e-9):
    """got at the targets that are tie points equals data."""
    idx = []
    for tie, tgt in zip(ties, targets):
        idx.append([int(np.flatnonzero(np.abs(np.asarray(tgt, float) - t) < 1e-9)[0]) for t in tie])
    lib.same_values(what, np.asarray(got)[np.ix_(*idx)], data, tol)


def run_generic(case, rec):
    rows, cols, kx, ky, unit, fill, same_rows = case
    f, o = UNITS[unit]
    ties = tuple(np.array(t) * f + o for t in (rows, cols))
    if unit == 0:
        ties = (np.array(rows), np.array(cols))
    margin = 2 if fill else 0
    targets = [np.arange(-margin, rows[-1] + 1 + margin) * f + o, np.arange(-margin, cols[-1] + 1 + margin) * f + o]
    if same_rows:
        targets[0] = ties[0].copy()
    data = impulses((len(rows), len(cols))) + [smooth(rows, cols)]
    interp = Interpolator([d.copy() for d in data], ties, tuple(targets), kx, ky)
    if fill:
        interp.fill_borders(*fill)
    res = interp.interpolate()
    if len(res) != len(data):
        raise Violation("%d results for %d arrays" % (len(res), len(data)))
    for n, (r, d) in enumerate(zip(res, data)):
        check_at("array %d" % n, r, ties, targets, d)
        rec.step()
        rec.state((tuple(rows), tuple(cols), kx, ky, unit, fill, same_rows, n))
    rec.trace()
    rec.outcome(tuple(np.round(res[-1].ravel()[:5], 6)))


def run_single(case, rec):
    kind, rows, cols, opts, dtype, chunks = case
    ties = (np.array(rows), np.array(cols))
    targets = (np.arange(rows[-1] + 1), np.arange(cols[-1] + 1))
    cls = SingleGridInterpolator if kind == "grid" else SingleSplineInterpolator
    data = [d.astype(dtype) for d in impulses((len(rows), len(cols))) + [smooth(rows, cols)]]
    kw = {} if chunks is None else {"chunks": chunks if isinstance(chunks, int) else tuple(chunks)}
    tol = 1e-9 if dtype == "f8" else 1e-5
    if opts.get("method") == "cubic":
        tol = 1e-3   # scipy solves for these splines iteratively
    for n, d in enumerate(data):
        res = cls(ties, d.copy(), **opts).interpolate(targets, **kw)
        check_at("%s %s, array %d" % (kind, opts, n), res, ties, targets, d, tol)
        rec.step()
        rec.state((kind, tuple(rows), tuple(cols), str(opts), dtype, str(chunks), n))
    cls = MultipleGridInterpolator if kind == "grid" else MultipleSplineInterpolator
    many = cls(ties, *[d.copy() for d in data], **opts)
    for m, res in enumerate((many.interpolate(targets, **kw), many.interpolate_to_shape((rows[-1] + 1, cols[-1] + 1), **kw))):
        for n, (r, d) in enumerate(zip(list(res), data)):
            check_at("multiple %s %s, array %d" % (kind, opts, n), r, ties, targets, d, tol)
            rec.step()
    rec.trace()


#: lon, lat of the corner and spacing: regular meshes at special places
MESHES = {
    "mid": (12.3, 47.1, 1.7, -1.1), "equator": (-3.0, 1.1, 1.5, -1.0), "antimeridian": (176.0, 10.0, 2.0, -1.5),
    "antimeridian exact": (178.0, 30.0, 1.0, -1.0), "north": (0.0, 89.9, 60.0, -3.0), "pole": (-120.0, 90.0, 45.0, -2.0),
    "south pole": (30.0, -84.0, 45.0, -2.0), "threshold": (100.0, 54.0, 1.0, -0.5), "prime": (-2.0, 3.0, 1.0, -1.0),
}


def mesh(name, n, m):
    lon, lat, dl, db = MESHES[name]
    y, x = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    la = np.clip(lat + db * y + 0.05 * x, -90, 90)
    return (lon + dl * x + 0.1 * dl * y + 180) % 360 - 180, la


def run_geo(case, rec):
    kind, name, rows, cols, kx, ky = case
    lon, lat = mesh(name, len(rows), len(cols))
    ties = (np.array(rows), np.array(cols))
    targets = (np.arange(rows[-1] + 1), np.arange(cols[-1] + 1))
    if kind == "generic":
        rlon, rlat = GeoInterpolator((lon.copy(), lat.copy()), ties, targets, kx, ky).interpolate()
    elif kind == "filled":
        wide = tuple(np.arange(-1, t[-1] + 2) for t in (rows, cols))
        g = GeoInterpolator((lon.copy(), lat.copy()), ties, wide, kx, ky)
        g.fill_borders("x", "y")
        rlon, rlat = (r[1:-1, 1:-1] for r in g.interpolate())
    elif kind == "same rows":
        targets = (ties[0].copy(), targets[1])
        rlon, rlat = GeoInterpolator((lon.copy(), lat.copy()), ties, targets, kx, ky).interpolate()
    elif kind == "object":
        from pyresample.geometry import SwathDefinition
        rlon, rlat = GeoInterpolator(SwathDefinition(lons=lon.copy(), lats=lat.copy()), ties, targets, kx, ky).interpolate()
    elif kind == "grid":
        rlon, rlat = GeoGridInterpolator(ties, lon.copy(), lat.copy(), **EXTRA).interpolate(targets)
    elif kind == "lazy grid":
        rlon, rlat = GeoGridInterpolator(ties, lon.copy(), lat.copy(), **EXTRA).interpolate(targets, chunks=2)
    else:
        rlon, rlat = GeoSplineInterpolator(ties, lon.copy(), lat.copy(), kx=kx, ky=ky).interpolate(targets)
    idx = np.ix_([list(targets[0]).index(r) for r in rows], cols)
    # at a high order pyresample's own radius may differ: only the direction matters
    tol = 40e3 if kind == "object" else 0.05
    lib.same_places("%s at %s" % (kind, name), np.asarray(rlon)[idx], np.asarray(rlat)[idx], (lon, lat), tol)
    rec.step()
    rec.trace()
    rec.state(tuple(map(str, case)))
    rec.outcome((name, round(float(np.nansum(np.asarray(rlat))), 3)))


def run_vii(case, rec):
    scans, per, cols, factor, name = case
    n, m = scans * per, cols
    if name is None:
        data = impulses((n, m)) + [smooth(range(n), range(m))]
        res = tie_points_interpolation([xr.DataArray(d.copy(), dims=("y", "x")) for d in data], per, factor)
    else:
        data = list(mesh(name, n, m))
        res = tie_points_geo_interpolation(*[xr.DataArray(d.copy(), dims=("y", "x")) for d in data], per, factor)
    # the tie rows that are pixels: all but the last of each scan; all columns but the last
    tie_rows = [s * per + i for s in range(scans) for i in range(per - 1)]
    pix_rows = [s * (per - 1) * factor + i * factor for s in range(scans) for i in range(per - 1)]
    ti, pi = np.ix_(tie_rows, range(m - 1)), np.ix_(pix_rows, [j * factor for j in range(m - 1)])
    if name is None:
        for k, (r, d) in enumerate(zip(res, data)):
            lib.same_values("VII array %d" % k, r.values[pi], d[ti], 1e-9)
            rec.step()
            rec.state(tuple(case) + (k,))
    else:
        lib.same_places("VII at %s" % name, res[0].values[pi], res[1].values[pi], (data[0][ti], data[1][ti]), 0.05)
        rec.step()
        rec.state(tuple(case))
    rec.trace()


def run_multilinear(case, rec):
    orders, smin, smax, dtype = case
    dt = np.dtype(dtype).type
    n = int(np.prod(orders))
    axes = [np.linspace(a, b, o) for a, b, o in zip(smin, smax, orders)]
    nodes = np.array(np.meshgrid(*axes, indexing="ij")).reshape(len(orders), n)
    values = np.vstack([np.eye(n), np.sin(np.arange(n) * 1.7)[None] * 5])
    ml = MultilinearInterpolator(list(smin), list(smax), list(orders), values.copy(), dtype=dt)
    tol = 1e-9 if dtype == "f8" else 2e-5
    for what, pts in (("its grid", ml.grid), ("the nodes", nodes)):
        lib.same_values("at %s" % what, ml(np.array(pts)), values, tol)
        rec.step()
    for k in range(n):
        rec.state((tuple(orders), tuple(smin), tuple(smax), dtype, k))
    rec.trace()


def run_basic(case, rec):
    rows, cols = case
    lat, lon = smooth(rows, cols), smooth(cols, rows).T + 100
    got = BasicSatelliteInterpolator(np.array(cols), np.array(rows), lat.copy(), lon.copy()).interpolate()
    targets = (np.arange(rows[-1] + 1), np.arange(cols[-1] + 1))
    for r, d, what in zip(got, (lat, lon), ("latitude", "longitude")):
        check_at(what, r, (rows, cols), targets, d)
        rec.step()
    rec.state((tuple(rows), tuple(cols)))
    rec.trace()


def run_modis(case, rec):
    conv, place, scans, dtype, width = case
    args = api.tie_data(conv, place, scans, dtype, width)
    lon, lat = api.call(conv, [a.copy() for a in args])
    w = args[0].shape[1]
    lon, lat = lon[2::5, 2:2 + 5 * w:5], lat[2::5, 2:2 + 5 * w:5]
    lib.same_places("%s at %s" % (conv, place), lon, lat, (args[0], args[1]), 0.01 if dtype == "f8" else 30.0)
    rec.step()
    rec.trace()
    rec.state(tuple(case))
    rec.outcome((place, scans, round(float(lon.sum()), 2)))


def run_avhrr(case, rec):
    place, lines, dtype = case
    import geotiepoints
    cols = np.array([0] + list(range(4, 2048, 20)) + [2047])
    lon, lat = lib.swath(place, lines, rows=1, cols=2048)[:2]
    lon, lat = lon[:, cols].astype(dtype), lat[:, cols].astype(dtype)
    rlon, rlat = geotiepoints.metop20kmto1km(lon.copy(), lat.copy())
    lib.same_places("AVHRR at %s" % place, rlon[:, cols], rlat[:, cols], (lon, lat), 0.01 if dtype == "f8" else 30.0)
    rec.step()
    rec.trace()
    rec.state(tuple(case))


def spaces(tier, seed):
    warnings.simplefilter("ignore")
    deep = tier == "thorough"
    top = 6 if deep else 5
    generic = []
    for kx, ky in itertools.product((1, 2, 3, 4, 5), repeat=2):
        for rows in subsets(top, kx + 1, max(kx + 2, 4 if not deep else 5)):
            for cols in subsets(top, ky + 1, max(ky + 2, 4 if not deep else 5)):
                if not deep and len(rows) + len(cols) > 9 and sum(rows) % 3:
                    continue
                n = sum(rows) + 2 * sum(cols) + kx
                for unit in (range(len(UNITS)) if deep else (n % len(UNITS),)):
                    generic.append((rows, cols, kx, ky, unit, "", False))
                generic.append((rows, cols, kx, ky, n % 4, ["xy", "yx", "x", "y"][(n // 4) % 4] if kx < 4 and ky < 4 else "", False))
                if kx == 1:
                    generic.append((rows, cols, kx, ky, n % 4, "", True))
    res = [Space("generic", generic, run_generic,
                 "tie rows and columns: subsets of 0..%d with both ends; orders 1..5 each; units %s; border filling; coinciding rows" % (top, UNITS))]
    single = []
    grids = list(subsets(5, 2, 4))
    for rows, cols in itertools.product(grids, repeat=2):
        n = sum(rows) * 3 + sum(cols)
        single.append(("grid", rows, cols, [{}, EXTRA, dict(method="nearest"), dict(method="slinear")][n % 4] if not deep else {},
                       "f8" if n % 3 else "f4", [None, 2, (1, 100), -1][n % 4 if n % 5 else 0]))
        for m, least in (("cubic", 4), ("pchip", 4), ("nearest", 2), ("slinear", 2)):
            if deep and min(len(rows), len(cols)) >= least:
                single.append(("grid", rows, cols, dict(method=m), "f8", None))
        for kx, ky in itertools.product((1, 2, 3), repeat=2):
            if len(rows) > kx and len(cols) > ky and (deep or (n + kx + ky) % 3 == 0):
                single.append(("spline", rows, cols, dict(kx=kx, ky=ky), "f8" if n % 3 else "f4", [None, 2, (1, 100), -1][(n + kx) % 4]))
    res.append(Space("grid and spline", single, run_single, "tie rows and columns: subsets of 0..5 of 2..4 points; methods and orders; eager and lazy"))
    geo = []
    sizes = list(subsets(5, 4, 5)) + [(0, 1), (0, 3), (0, 2, 7)]
    for name in MESHES:
        for rows, cols in itertools.product(sizes, repeat=2):
            n = sum(rows) + sum(cols)
            for kx, ky in itertools.product((1, 2, 3), repeat=2):
                if len(rows) <= kx or len(cols) <= ky or (not deep and (n + kx + 2 * ky) % 4):
                    continue
                for kind in ("generic", "filled", "same rows", "object", "spline"):
                    geo.append((kind, name, rows, cols, kx, ky))
            geo.append(("grid", name, rows, cols, 1, 1))
            geo.append(("lazy grid", name, rows, cols, 1, 1))
    res.append(Space("geographic", geo, run_geo, "every mesh location x tie subsets x orders x class"))
    shapes = [(s, p, c, f) for s in range(1, 5) for p in range(2, 5) for c in range(2, 6) for f in (1, 2, 3, 5, 8)]
    res.append(Space("VII", [sh + (None,) for sh in shapes] + [sh + (name,) for sh in shapes[::1 if deep else 7] for name in MESHES],
                     run_vii, "1..4 scans x 2..4 tie rows x 2..5 tie columns x 5 factors; places"))
    ml = []
    boxes = [(0.0, 1.0), (-3.0, 2.5), (10.0, 11.5), (5.0, -5.0)]
    for d in range(1, 5):
        most = {1: 9, 2: 5, 3: 4, 4: 3}[d]
        for orders in itertools.product(range(2, most + 1), repeat=d):
            for k, dtype in itertools.product(range(len(boxes)), ("f8", "f4")):
                if not deep and d == 4 and (sum(orders) + k) % 2:
                    continue
                box = [boxes[(k + i) % len(boxes)] for i in range(d)]
                ml.append((orders, [b[0] for b in box], [b[1] for b in box], dtype))
    res.append(Space("multilinear nodes", ml, run_multilinear, "1..4 dimensions, up to 9/5/4/3 nodes per dimension, 4 boxes, both precisions"))
    res.append(Space("basic", list(itertools.product(subsets(6, 2, 6), repeat=2)), run_basic, "tie rows and columns: every subset of 0..6 with both ends"))
    modis = []
    for conv in ("angle_5km_to_1km", "modis5kmto1km", "generic_modis5kmto1km"):
        for place in lib.PLACES:
            for scans in range(1, 6 if deep else 4):
                for dtype in ("f8", "f4") if conv.startswith("angle") else ("f8",):
                    for width in (271, 270) if conv.startswith("angle") else (271,):
                        modis.append((conv, place, scans, dtype, width))
    res.append(Space("MODIS 5 km to 1 km", modis, run_modis, "every conversion x place x number of scans x precision x width"))
    res.append(Space("AVHRR", [(p, n, dt) for p in lib.PLACES for n in (1, 2, 3, 10) for dt in ("f8", "f4")], run_avhrr,
                     "places x lines x precision"))
    return res
