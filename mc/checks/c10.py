"""C10: VII pixels are the bilinear interpolation of their own scan's tie points."""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation

from .. import lib
from ..core import Space, Violation

PROPERTY = "C10"
ASSUMPTIONS = [
    "up to 5 scans of 2 to 5 tie rows and 2 to 6 tie columns, factors up to 9; the operator is decided on every unit impulse",
    "cases within rounding of the latitude and longitude-span thresholds are checked on both sides at a distance of 1e-9 degrees",
]
SCANS = (1, 2, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33, 64, 65, 100, 140)


def operators(scans, per, cols, factor):
    """Row and column operators: pixel p of a scan lies at p/factor between the tie rows of that scan."""
    block = lib.linear_matrix(np.arange(per), np.arange((per - 1) * factor) / factor)
    rm = np.zeros((scans * block.shape[0], scans * per))
    for s in range(scans):
        rm[s * block.shape[0]:(s + 1) * block.shape[0], s * per:(s + 1) * per] = block
    return rm, lib.linear_matrix(np.arange(cols), np.arange((cols - 1) * factor) / factor)


def wrap(a, chunks, dims=("y", "x")):
    if chunks is not None:
        a = da.from_array(a, chunks=tuple(tuple(c) if isinstance(c, (list, tuple)) else c for c in chunks))
    return xr.DataArray(a, dims=dims)


def run_impulses(case, rec):
    scans, per, cols, factor, dims, dtype, chunks = case
    rm, cm = operators(scans, per, cols, factor)
    shape = (scans * per, cols)
    data = np.eye(shape[0] * shape[1], dtype=dtype).reshape((-1,) + shape)
    arrs = [wrap(d.copy(), chunks, dims) for d in data]
    if chunks is not None:
        # all impulses in one go would only measure dask: superpose them with distinguishable weights
        arrs = [wrap((data * np.arange(1, len(data) + 1, dtype=dtype)[:, None, None]).sum(axis=0), chunks, dims),
                wrap((data * (np.arange(len(data)) % 3 - 1)[:, None, None]).sum(axis=0).astype(dtype), chunks, dims)]
    res = tie_points_interpolation(arrs, per, factor)
    if len(res) != len(arrs):
        raise Violation("%d results for %d arrays" % (len(res), len(arrs)))
    for k, (r, a) in enumerate(zip(res, arrs)):
        if r.dims != tuple(dims):
            raise Violation("dimensions %s instead of %s" % (r.dims, dims))
        if chunks is not None and not hasattr(r.data, "dask"):
            raise Violation("lazy input, but the result is not lazy")
        lib.same_values("array %d" % k, r.values, rm @ np.asarray(a.values, "f8") @ cm.T, 1e-9 if dtype == "f8" else 1e-5)
        rec.state((scans, per, cols, factor, str(dims), dtype, str(chunks), k))
        rec.step()
    rec.trace()
    rec.outcome(tuple(res[0].shape))


def run_geo(case, rec):
    """Planar unless a threshold is exceeded."""
    scans, per, cols, factor, maxlat, span, lon0, thr, zthr, chunks, south = case
    n = scans * per
    y, x = np.meshgrid(np.arange(n) / max(n - 1, 1), np.arange(cols) / (cols - 1), indexing="ij")
    lat = maxlat - y * 12.0 - x * 2.0
    if south:
        lat = -lat
    lon = lon0 + span * x
    lon[0, 0], lon[-1, -1] = lon0, lon0 + span
    biggest, width = np.abs(lat).max(), lon.max() - lon.min()
    sphere = biggest > thr or width > 180.0
    kw = {}
    if thr != 60.0:
        kw["lat_threshold_use_cartesian"] = thr
    if zthr != 0.8:
        kw["z_threshold_use_xy"] = zthr
    got = tie_points_geo_interpolation(wrap(lon.copy(), chunks), wrap(lat.copy(), chunks), per, factor, **kw)
    rm, cm = operators(scans, per, cols, factor)
    plane = [rm @ a @ cm.T for a in (lon, lat)]
    xyz = lib.R_VII * lib.unit(lon, lat)
    on_sphere = lib.to_lonlat(np.stack([rm @ xyz[..., k] @ cm.T for k in range(3)], axis=-1), lib.R_VII, zthr)
    if sphere:
        tol = 0.5 if zthr == 0.8 else 20.0
        lib.same_places("on the sphere", got[0].values, got[1].values, on_sphere, tol)
        if (got[0].values > 180).any() or (got[0].values < -180).any():
            raise Violation("longitudes outside -180..180")
    else:
        lib.same_values("longitude in the plane", got[0].values, plane[0], 1e-9)
        lib.same_values("latitude in the plane", got[1].values, plane[1], 1e-9)
    differ = np.nanmax(lib.distance(plane[0], plane[1], on_sphere[0], on_sphere[1]))
    rec.state(tuple(map(str, case)))
    rec.step()
    rec.trace()
    rec.outcome((sphere, bool(differ > 1.0)))


def run_large(case, rec):
    """As many scans, tie points and pixels as real granules have."""
    scans, per, cols, factor, chunks, where, size = case
    n = scans * per
    y, x = np.meshgrid(np.arange(n), np.arange(cols), indexing="ij")
    rm, cm = operators(scans, per, cols, factor)
    data = [np.sin(y * 1.7) * np.cos(x * 0.9) * 50 + y % 7, (y // per) * 100.0 + x, np.zeros((n, cols)), np.where((y + x) % 37 == 0, -999.0, 3.0)]
    data = [d * size for d in data[:4 if scans < 10 else 2]]
    for k, (r, d) in enumerate(zip(tie_points_interpolation([wrap(d.copy(), chunks) for d in data], per, factor), data)):
        lib.same_values("array %d" % k, r.values / size, rm @ d @ cm.T / size, 1e-9, 1e4)
        rec.step()
    y, x = y / max(n - 1.0, 1), x / (cols - 1.0)
    lon, lat = {"plane": (10 + 25 * x - 3 * y, 50 - 15 * y - 4 * x), "high": (10 + 60 * x - 3 * y, 80 - 15 * y - 4 * x),
                "seam": ((350 + 25 * x - 3 * y) % 360 - 180, -30 - 15 * y - 4 * x)}[where]
    got = tie_points_geo_interpolation(wrap(lon.copy(), chunks), wrap(lat.copy(), chunks), per, factor)
    if where == "plane":
        for what, g, d in zip(("longitude", "latitude"), got, (lon, lat)):
            lib.same_values(what, g.values, rm @ d @ cm.T, 1e-9)
    else:
        xyz = lib.R_VII * lib.unit(lon, lat)
        ref = lib.to_lonlat(np.stack([rm @ xyz[..., k] @ cm.T for k in range(3)], axis=-1), lib.R_VII)
        lib.same_places("on the sphere", got[0].values, got[1].values, ref, 0.5)
    rec.step()
    rec.state(tuple(map(str, case)))
    rec.trace()
    rec.outcome((where, tuple(got[0].shape)))


def run_sizes(case, rec):
    """Every number of scans, of tie rows per scan, of tie columns, every factor."""
    what, first, top, chunks = case
    for n in range(first, top):
        scans, per, cols, factor = {"scans": (n, 2 + n % 2, 3, 2), "rows": (2, n, 3, 2), "columns": (2, 2, n, 2), "factor": (2, 2, 3, n)}[what]
        rm, cm = operators(scans, per, cols, factor)
        y, x = np.indices((scans * per, cols))
        d = np.sin(y * 1.7) * np.cos(x * 0.9) * 50 + y % 7
        ch = None if chunks is None else (per * (1 + n % 3), 1 + n // 2 % cols)
        got = tie_points_interpolation([wrap(d.copy(), ch)], per, factor)[0]
        lib.same_values("%d %s" % (n, what), got.values, rm @ d @ cm.T, 1e-9, 60)
        high = n % 2
        lon, lat = 10 + 25 * x / cols - 3.0 * y / len(y), (80 if high else 45) - 15 * y / len(y) - 4.0 * x / cols
        got = tie_points_geo_interpolation(wrap(lon, ch), wrap(lat, ch), per, factor)
        xyz = lib.R_VII * lib.unit(lon, lat)
        ref = lib.to_lonlat(np.stack([rm @ xyz[..., k] @ cm.T for k in range(3)], axis=-1), lib.R_VII) if high else [rm @ a @ cm.T for a in (lon, lat)]
        lib.same_places("%d %s" % (n, what), got[0].values, got[1].values, ref, 0.5)
        rec.step(2)
        rec.state((what, n, chunks))
    rec.trace()


def run_one(case, rec):
    """A single tie point makes the difference between plane and sphere; another one may be missing."""
    scans, per, cols, factor, kind, where, missing, which, chunks = case
    n = scans * per
    y, x = np.meshgrid(np.arange(n), np.arange(cols), indexing="ij")
    lat, lon = 40.0 - 0.7 * y + 0.1 * x, 150.0 + 1.3 * x + 0.2 * y
    at = tuple(where)
    if kind == "north":
        lat = lat + 19.0 + 0.6 * y - 0.1 * x   # up to 59, everywhere below the threshold
        lat[at] = 61.0
    elif kind == "south":
        lat = -lat - 19.0 - 0.6 * y + 0.1 * x
        lat[at] = -61.0
    elif kind == "east":
        lon[at] = -175.0
    elif kind == "west":
        lon = lon - 300.0
        lon[at] = 175.0
    if missing is not None:
        for a, name in ((lon, "lon"), (lat, "lat")):
            if name in which:
                a[tuple(missing)] = np.nan
    sphere = np.nanmax(np.abs(lat)) > 60.0 or np.nanmax(lon) - np.nanmin(lon) > 180.0
    got = tie_points_geo_interpolation(wrap(lon.copy(), chunks), wrap(lat.copy(), chunks), per, factor)
    rm, cm = operators(scans, per, cols, factor)
    seen = np.ones((rm.shape[0], cm.shape[0]), bool)
    if missing is not None:
        # pixels of the cells at the missing tie point are C20's concern
        i, j = missing
        r, c = np.arange(rm.shape[0]) / factor, np.arange(cm.shape[0]) / factor
        r = r % (per - 1) + (r // (per - 1)) * per
        seen = ~np.outer(np.abs(r - i) < 1.0001, np.abs(c - j) < 1.0001)
    fill = [np.nan_to_num(a, nan=0.0) for a in (lon, lat)]
    if sphere:
        xyz = lib.R_VII * lib.unit(*fill)
        ref = lib.to_lonlat(np.stack([rm @ xyz[..., k] @ cm.T for k in range(3)], axis=-1), lib.R_VII)
        tol = 0.5
    else:
        ref = tuple(rm @ a @ cm.T for a in fill)
        tol = 0.01
    vals = [np.where(seen, g.values, 0.0) for g in got]
    lib.same_places("on the sphere" if sphere else "in the plane", vals[0], vals[1], tuple(np.where(seen, a, 0.0) for a in ref), tol)
    if not sphere:
        lib.same_values("longitude in the plane", vals[0], np.where(seen, ref[0], 0.0), 1e-9)
    rec.state(tuple(map(str, case)))
    rec.step()
    rec.trace()
    rec.outcome((kind, bool(sphere)))


def run_reject(case, rec):
    kind, rows, per, cols, lazy = case
    a = np.arange(rows * cols, dtype="f8").reshape(rows, cols)
    b, dims = a.copy(), ("y", "x")
    if kind == "other shape":
        b = b[:, :-1]
    if kind == "other rows":
        b = np.vstack([b, b])
    if kind == "other dims":
        dims = ("x", "y")
    if kind == "named otherwise":
        dims = ("y", "z")
    if kind == "transposed":
        b, dims = b.T.copy(), ("x", "y")
    ch = (-1, -1) if lazy else None
    A, B = wrap(a, ch), wrap(b, ch, dims)
    for order in ((A, B), (B, A)):
        for what in ("plain", "geo"):
            if kind in ("other dims", "named otherwise") and what == "geo":
                continue  # same shape: promised only for tie_points_interpolation
            if kind == "good" or (kind != "incomplete" and order[0] is B and what == "plain" and order[0].shape[0] % per):
                continue
            try:
                if what == "plain":
                    res = tie_points_interpolation(list(order), per, 2)
                else:
                    res = tie_points_geo_interpolation(*order, per, 2)
            except Exception:
                rec.step()
                continue
            raise Violation("%s input accepted by %s interpolation: shapes %s, %d tie rows per scan gave %s"
                            % (kind, what, [o.shape for o in order], per, [r.shape for r in res]))
    rec.state(tuple(map(str, case)))
    rec.trace()


def spaces(tier, seed):
    deep = tier == "thorough"
    shapes = list(itertools.product(range(1, 6 if deep else 5), range(2, 6 if deep else 5), range(2, 7 if deep else 6),
                                    (1, 2, 3, 4, 5, 7, 8, 9) if deep else (1, 2, 3, 5, 8)))
    cases = []
    for k, (s, p, c, f) in enumerate(shapes):
        dims = [["y", "x"], ["num_tie_points_alt", "num_tie_points_act"], ["x", "y"]][k % 3]
        cases.append((s, p, c, f, dims, "f8" if k % 4 else "f4", None))
    lazy = []
    for s, p, c in itertools.product((1, 2, 3), (2, 3), (2, 3, 4)):
        rowch = list(lib.compositions(s * p)) if s * p <= (6 if deep else 4) else [(s * p,), (p,) * s, (1,) * (s * p), (s * p - 1, 1), (1, s * p - 1)]
        for rc in rowch:
            for cc in (lib.compositions(c) if deep or s < 3 else [(c,), (1,) * c]):
                lazy.append((s, p, c, [2, 3, 8][(s + c + len(rc)) % 3], ["y", "x"], "f8", [list(rc), list(cc)]))
    geo = []
    e = 1e-9
    for maxlat in (20.0, 45.0, 53.2, 60 - e, 60.0, 60 + e, 61.0, 75.0, 89.0):
        for span in (0.5, 20.0, 179.0, 180 - e, 180.0, 180 + e, 200.0, 330.0):
            for lon0 in (-170.0, -10.0, 3.0):
                if lon0 + span > 360:
                    continue
                for south in (False, True):
                    k = int(maxlat * 7 + span + lon0 + south)
                    geo.append(([1, 2][k % 2], [2, 3][k // 2 % 2], 3 if span < 30 else 8, [2, 4, 8][k % 3], maxlat, span, lon0, 60.0, 0.8,
                                [None, (2, -1), (-1, 1)][k % 3], south))
    for thr in (-1.0, 0.0, 30.0, 45.0, 60.0, 90.0):
        for zthr in (0.1, 0.5, 0.8, 0.99, 1.0):
            for maxlat in (12.0, 30.0, 30.5, 45.0, 45.5, 62.0, 89.5):
                for south in (False, True):
                    geo.append((2, 2, 4, 3, maxlat, 25.0, -5.0, thr, zthr, None, south))
    one = []
    for scans, per, cols in ((1, 3, 3), (2, 2, 3), (3, 2, 2)) if not deep else ((1, 3, 3), (2, 2, 3), (3, 2, 2), (2, 3, 4), (4, 2, 3)):
        ties = list(itertools.product(range(scans * per), range(cols)))
        for k, (kind, at) in enumerate(itertools.product(("north", "south", "east", "west"), ties)):
            for m in [None] + [t for t in ties if t != at]:
                for which in ("lon lat", "lon", "lat") if deep else (("lon lat", "lon", "lat")[(k + sum(m or (0,))) % 3],):
                    one.append((scans, per, cols, 2, kind, at, m, which, [None, (per, -1), (1, 1)][(k + len(which)) % 3]))
    rejects = []
    for rows, per in itertools.product(range(1, 13), range(2, 7)):
        for lazy_ in (False, True):
            if rows % per:
                rejects.append(("incomplete", rows, per, 3, lazy_))
            else:
                for kind in ("other shape", "other rows", "other dims", "named otherwise", "transposed"):
                    if kind == "transposed" and rows == 4:
                        continue
                    rejects.append((kind, rows, per, 4, lazy_))
    large = []
    for k, (scans, (per, cols, factor)) in enumerate(itertools.product(SCANS, ((2, 3, 2), (3, 7, 4), (4, 33, 3), (2, 129, 2), (4, 393, 8), (33, 5, 2), (2, 9, 33), (3, 4, 16)))):
        if scans * per * cols * factor * factor > 2e6:
            continue
        for j, where in enumerate(("plane", "high", "seam")):
            for i, ch in enumerate((None, (per, -1), (max(1, scans // 3) * per, cols))):
                if scans > 10 and (not deep or scans > 40) and (i != k % 3 or j != (k + k // 8) % 3):
                    continue
                large.append((scans, per, cols, factor, ch, where, [1.0, -1e-15, 1e15, 7e6][(k + len(where)) % 4]))
    sizes = [(what, first, min(first + 10, top), ch) for what, top in (("scans", 211 if deep else 141), ("rows", 81 if deep else 66), ("columns", 520 if deep else 420),
                                                                       ("factor", 49 if deep else 34)) for first in range(1 if what in ("scans", "factor") else 2, top, 10)
             for ch in ((None, "chunks") if what == "factor" or deep and what == "rows" else (None,))]
    return [Space("impulses", cases, run_impulses, "every shape and factor, every unit impulse"),
            Space("chunked", lazy, run_impulses, "row and column chunk compositions"),
            Space("geographic", geo, run_geo, "latitudes, spans and thresholds on both sides, both hemispheres"),
            Space("one tie point decides", one, run_one, "every tie point being the only one beyond a threshold or the seam, every other one missing or not"),
            Space("large", large, run_large, "up to %d scans, up to 393 tie columns, values of several magnitudes" % max(SCANS)),
            Space("every size", sizes, run_sizes, "every number of scans, tie rows per scan, tie columns and every factor, up to %s" % ("210, 80, 519, 48" if deep else "140, 65, 419, 33")),
            Space("rejected", rejects, run_reject, "1..12 rows x 2..6 rows per scan x kinds of inconsistency, in memory and lazy")]
