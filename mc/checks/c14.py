"""C14: geographic and Cartesian conversions are inverse to each other, on every node of a longitude x latitude lattice."""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator, lonlat2xyz, to_xyz, xyz2lonlat
from geotiepoints.viiinterpolator import tie_points_geo_interpolation

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C14"
ASSUMPTIONS = [
    "longitudes and latitudes of a lattice with special values (seams, poles, equator, both sides of the thresholds)",
    "VII and compiled conversions are observed through interpolation of fields that are constant",
    "for an ill-conditioned choice of the latitude method the tolerance is that of the inverse sine (0.5 m)",
]
A8 = float(np.rad2deg(np.arcsin(0.8)))
LONS = sorted(set([float(v) for v in range(-180, 361, 15)] + [1e-9, -1e-9, 1e-300, -0.0, 179.999999, -179.999999, 33.3, 359.999999, 270.0, 180.0 + 1e-9, 44.0, -44.0, 134.0, -134.0]))
LATS = sorted(set([float(v) for v in range(-90, 91, 5)] + [s * v for s in (1, -1) for v in
              (1e-300, 1e-12, 1e-9, 1e-5, A8 - 1e-9, A8, A8 + 1e-9, A8 - 0.01, A8 + 0.01, 5.7, 5.8, 29.999, 30.001, 64.1, 64.2, 81.8, 81.9, 89.999, 89.9999999)]))
SHAPES = [(1,), (2,), (3,), (31,), (64,), (65,), (255,), (1000,), (4097,), (70001,), (1, 1), (1, 5), (5, 1), (2, 1030), (1030, 2), (7, 9), (300, 257), (1500, 1354), (2, 3, 4),
          (1, 1, 1), (5, 1, 7), (40, 30, 20), (2, 2, 2, 2), (0,), (0, 3), (3, 0)]
LAYOUTS = ["plain", "fortran", "mixed", "strided", "reversed", "read-only"]


def run_round_trip(case, rec):
    radius, thr, low, dtype, form = case
    lon, lat = (a.astype(dtype) for a in np.meshgrid(LONS, LATS))
    if form == "transposed":
        lon, lat = lon.T, lat.T
    keep = lon.copy(), lat.copy()
    kw = {} if radius is None else {"radius": radius}
    r = radius or lib.R
    x, y, z = lonlat2xyz(lon, lat, **kw)
    want = r * lib.unit(lon, lat)
    rel = 1e-12 if dtype == "f8" else 1e-6
    for n, (a, w) in enumerate(zip((x, y, z), np.moveaxis(want, -1, 0))):
        lib.same_values("coordinate %d" % n, a, w, rel, r)
    lib.same_values("distance from the centre", np.sqrt(x.astype("f8") ** 2 + y.astype("f8") ** 2 + z.astype("f8") ** 2), np.full(x.shape, r), rel, r)
    kw2 = dict(kw)
    if thr is not None:
        kw2["thr"] = thr
    if low is not None:
        kw2["low_lat_z"] = low
    glon, glat = xyz2lonlat(x, y, z, **kw2)
    good = thr in (None, 0.5, 0.8) and low in (None, True)
    tol = (0.05 if good else 0.5) if dtype == "f8" else (20.0 if good else 10000.0)
    lib.same_places("there and back (radius %s, threshold %s, %s)" % (radius, thr, low), glon, glat, (lon, lat), tol)
    if np.abs(glon).max() > 180.00001 or np.abs(glat).max() > 90.00001:
        raise Violation("longitude or latitude out of range")
    if not (np.array_equal(lon, keep[0]) and np.array_equal(lat, keep[1])):
        raise Violation("input changed")
    # scalars and one dimension
    for i in range(0, lon.size, 37):
        s = lonlat2xyz(float(lon.flat[i]), float(lat.flat[i]), **kw)
        g = xyz2lonlat(*s, **kw2)
        lib.same_places("scalar", np.asarray(g[0]), np.asarray(g[1]), (lon.flat[i], lat.flat[i]), tol)
        rec.step()
    g = xyz2lonlat(x.ravel(), y.ravel(), z.ravel(), **kw2)
    lib.same_places("one dimension", g[0], g[1], (lon.ravel(), lat.ravel()), tol)
    for i in range(lon.size):
        rec.state((case, i))
    rec.step(3 * lon.size)
    rec.trace()
    rec.outcome((str(case), round(float(np.nansum(glat.astype("f8"))), 3)))


def run_shapes(case, rec):
    """Arrays of any shape, size and memory order."""
    shape, dtype, layout = case
    n = int(np.prod(shape))
    k = np.arange(n)
    lon, lat = np.array(LONS)[k % len(LONS)], np.array(LATS)[(k // 3) % len(LATS)]
    lon, lat = (a.reshape(shape).astype(dtype) for a in (lon, lat))
    if layout == "fortran":
        lon, lat = np.asfortranarray(lon), np.asfortranarray(lat)
    elif layout == "mixed":
        lat = np.asfortranarray(lat)
    elif layout == "strided":
        big = np.zeros(tuple(2 * s for s in shape), dtype)
        view = big[tuple(slice(1, None, 2) for _ in shape)]
        view[...] = lon
        lon = view
    elif layout == "reversed":
        lon, lat = lon[..., ::-1], lat[..., ::-1]
    elif layout == "read-only":
        lon.flags.writeable = lat.flags.writeable = False
    x, y, z = lonlat2xyz(lon, lat)
    want = lib.R * lib.unit(lon, lat)
    for what, a, w in zip("xyz", (x, y, z), np.moveaxis(want, -1, 0)):
        lib.same_values("%s of %s" % (what, shape), a, w, 1e-12 if dtype == "f8" else 1e-6, lib.R)
    if layout == "reversed":
        x, y, z = (a[::-1] for a in (x, y, z))
        lon, lat = lon[::-1], lat[::-1]
    glon, glat = xyz2lonlat(x, y, z)
    if glon.shape != tuple(shape):
        raise Violation("shape %s instead of %s" % (glon.shape, shape))
    lib.same_places("there and back, shape %s, %s" % (shape, layout), glon, glat, (lon, lat), 0.05 if dtype == "f8" else 20.0)
    rec.state(tuple(map(str, case)))
    rec.step(n)
    rec.trace()


TYPES = ("f8", "f4", "f2", "i8", "i4", "i2", "i1", "u2", "u1")


def run_types(case, rec):
    """Numbers of every type, in every kind of array."""
    tlon, tlat, kind = case
    lon, lat = np.meshgrid(np.arange(-180, 181, 10), np.arange(-90, 91, 5))
    for a, t in ((lon, tlon), (lat, tlat)):
        if t[0] == "u":
            np.abs(a, out=a)
        if t[1] == "1":
            a[...] = np.clip(a, -120, 120)
    given = lon.astype(tlon), lat.astype(tlat)
    if kind == "dask":
        given = [da.from_array(a, chunks=9) for a in given]
    elif kind == "xarray":
        given = [xr.DataArray(a, dims=("y", "x")) for a in given]
    elif kind == "xarray dask":
        given = [xr.DataArray(da.from_array(a, chunks=9), dims=("y", "x")) for a in given]
    elif kind == "vii":
        a, b = (xr.DataArray(np.repeat(np.repeat(q[::6, ::6], 2, 0), 2, 1), dims=("y", "x")) for q in given)
        for per in (2,):
            got = tie_points_geo_interpolation(a, b, per, 1, lat_threshold_use_cartesian=-1.0)
            ref = [v.astype("f8") for v in (a, b)]
            want = tie_points_geo_interpolation(*ref, per, 1, lat_threshold_use_cartesian=-1.0)
            lib.same_places("VII, types %s" % (case,), *[np.asarray(g, "f8") for g in got], [np.asarray(w) for w in want], 100.0)
        rec.state(tuple(case))
        rec.step()
        rec.trace()
        return
    xyz = lonlat2xyz(*given)
    got = [np.asarray(v, "f8") for v in xyz2lonlat(*xyz)]
    lib.same_places("there and back, types %s" % (case,), *got, (lon.astype("f8"), lat.astype("f8")), 0.05 if tlon in ("f8", "i4", "i8") and tlat in ("f8", "i4", "i8") else 20.0)
    rec.state(tuple(case))
    rec.step()
    rec.trace()


def run_lengths(case, rec):
    """Every number of positions up to a bound."""
    first, last, dtype = case
    k = np.arange(last)
    lon, lat = np.array(LONS)[k % len(LONS)].astype(dtype), np.array(LATS)[(k // 3) % len(LATS)].astype(dtype)
    for n in range(first, last):
        glon, glat = xyz2lonlat(*lonlat2xyz(lon[:n], lat[:n]))
        lib.same_places("%d positions" % n, glon, glat, (lon[:n], lat[:n]), 0.05 if dtype == "f8" else 20.0)
        rec.state((n, dtype))
        rec.step()
    rec.trace()


class Definition:
    """Anything that knows its Cartesian coordinates."""

    def __init__(self, lon, lat):
        self.lons, self.lats = lon, lat

    def get_cartesian_coords(self):
        return lib.R * lib.unit(self.lons, self.lats)


def run_to_xyz(case, rec):
    lon, lat = np.meshgrid(LONS[::case], LATS[::case])
    for what, data in (("arrays", (lon, lat)), ("definition", (Definition(lon, lat),))):
        x, y, z = to_xyz(data)
        lib.same_values(what, np.stack([x, y, z], axis=-1), lib.R * lib.unit(lon, lat), 1e-12)
        rec.step()
    rec.state(case)
    rec.trace()


def constant_call(kind, lon, lat, dtype):
    """Interpolate tie points that are all at one place."""
    if kind in api.CONV:
        width = 3 if "simple" in kind else None
        args = api.tie_data(kind, "mid", 1 if api.CONV[kind][1] == 10 else 2, dtype, width)
        args[0][:], args[1][:] = lon, lat
        return api.call(kind, args)
    a, b = np.full((4, 4), lon, dtype), np.full((4, 4), lat, dtype)
    ties, targets = (np.arange(4) * 2,) * 2, (np.arange(7), np.arange(0, 6.5, 0.5))
    if kind == "generic":
        return GeoInterpolator((a, b), ties, targets, 3, 2).interpolate()
    if kind == "filled":
        g = GeoInterpolator((a, b), ties, (np.arange(-2, 8), np.arange(-1, 8)), 1, 3, chunk_size=5)
        g.fill_borders("y", "x")
        return g.interpolate()
    if kind == "grid":
        return GeoGridInterpolator(ties, a, b).interpolate(targets)
    if kind == "lazy spline":
        return [np.asarray(v) for v in GeoSplineInterpolator(ties, a, b).interpolate(targets, chunks=(4, 5))]
    if kind == "spline":
        return GeoSplineInterpolator(ties, a, b, kx=1, ky=3).interpolate(targets)
    lt, zt = kind
    res = tie_points_geo_interpolation(xr.DataArray(a, dims=("y", "x")), xr.DataArray(b, dims=("y", "x")), 2, 3,
                                       lat_threshold_use_cartesian=lt, z_threshold_use_xy=zt)
    return [v.values for v in res]


def run_constant(case, rec):
    kind, lon, lats, dtype = case
    kind = tuple(kind) if isinstance(kind, (list, tuple)) else kind
    for lat in lats:
        glon, glat = constant_call(kind, lon, lat, dtype)
        glon, glat = np.asarray(glon), np.asarray(glat)
        want = np.full(glon.shape, lon, dtype), np.full(glon.shape, lat, dtype)
        tol = 0.05 if dtype == "f8" else 20.0
        good = not isinstance(kind, tuple) or kind[1] in (0.8, 0.5)
        if not good:
            tol = 0.5
        if kind not in api.CONV and dtype == "f4":
            tol = 100.0 if good else 10000.0
        lib.same_places("%s at %r, %r" % (kind, lon, lat), glon, glat, want, tol)
        rec.state((kind, lon, lat, dtype))
        rec.step()
    rec.trace()
    rec.outcome((str(kind), lon, dtype))


def spaces(tier, seed):
    deep = tier == "thorough"
    trips = [(radius, thr, low, dtype, form)
             for radius in (None, 1.0, 6371.0, 6378137.0) for thr in (None, 0.0, 0.1, 0.5, 0.8, 0.9, 0.99, 1.0)
             for low in (None, True, False) for dtype in ("f8", "f4") for form in ("plain", "transposed")]
    lons = LONS if deep else [-180.0, 180.0, -90.0, 0.0, 45.0, 179.999999, 270.0, -0.0, 1e-9, 44.0, -105.0, 134.0]
    lats = LATS if deep else [-90.0, -89.9999999, -A8, -A8 + 1e-9, -40.0, -1e-12, 0.0, 1e-9, 5.75, 30.0, A8, A8 - 1e-9, A8 + 1e-9, 60.0, 75.0, 89.9999999, 90.0]
    const = []
    for kind in ["generic", "filled", "grid", "lazy spline", "spline"] + [(lt, z) for lt in (-1.0, 45.0, 60.0, 91.0) for z in (0.0, 0.5, 0.8, 1.0)]:
        for lon in lons:
            for dtype in ("f8", "f4"):
                const.append((kind, lon, lats, dtype))
    for kind in api.CONV:
        cheap = "simple" in kind or "5km_to_1km" in kind
        for lon in lons if cheap or deep else (-180.0, 0.0, 90.0):
            for dtype in ("f8", "f4") if api.CONV[kind][4] != "legacy" else ("f8",):
                const.append((kind, lon, lats if cheap or deep else lats[::3], dtype))
    return [Space("there and back", trips, run_round_trip, "%d longitudes x %d latitudes x radius x threshold x method x precision" % (len(LONS), len(LATS))),
            Space("shapes", [(s, dt, l) for s in SHAPES for dt in ("f8", "f4") for l in LAYOUTS], run_shapes, "shapes %s in memory layouts %s" % (SHAPES, LAYOUTS)),
            Space("types", list(itertools.product(TYPES, TYPES, ("numpy", "dask", "xarray", "xarray dask", "vii"))), run_types, "pairs of types %s in 4 kinds of arrays and VII" % (TYPES,)),
            Space("lengths", [(n, min(n + 50, top), dt) for top in (5000 if deep else 2100,) for n in range(1, top, 50) for dt in ("f8", "f4")], run_lengths, "every number of positions up to %d" % (5000 if deep else 2100)),
            Space("definitions", [1, 2, 3], run_to_xyz, "arrays and objects with Cartesian coordinates"),
            Space("constant fields", const, run_constant, "every interpolator and conversion at %d longitudes x %d latitudes" % (len(lons), len(lats)))]
