"""C13: nothing special happens at the antimeridian, the prime meridian or the poles.

Two explorations: (1) the group of symmetries - longitude shifts of a lattice, the two longitude conventions, mirroring -
applied to every conversion; the result must be transformed in the same way.  (2) every assignment of offsets from an
alphabet (including exactly symmetric ones) to the tie points around every special centre, against the reference model.
"""
import itertools

import numpy as np
import xarray as xr

from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C13"
ASSUMPTIONS = [
    "longitude shifts from a 15-degree lattice plus the shifts that put tie points exactly on a seam",
    "neighbouring tie points are less than 25 degrees apart (the chord between antipodal points has no direction)",
    "VII: which of the plane and the sphere it uses is C10; here either is admitted, and its planar results need not lie in [-180, 180]",
]


def ranges(what, lon, lat):
    lon, lat = np.asarray(lon), np.asarray(lat)
    if not (np.isfinite(lon).all() and np.isfinite(lat).all()):
        raise Violation("%s: %d results are not finite, first at %s" % (what, (~np.isfinite(lon) | ~np.isfinite(lat)).sum(),
                                                                   np.argwhere(~np.isfinite(lon) | ~np.isfinite(lat))[0]))
    if np.abs(lon).max() > 180 + 1e-4 or np.abs(lat).max() > 90 + 1e-4:
        raise Violation("%s: longitudes %r..%r, latitudes %r..%r" % (what, lon.min(), lon.max(), lat.min(), lat.max()))


def geo(kind, lon, lat, fine):
    """Any of the geographic interpolators of the package on a small regular tie grid."""
    n, m = lon.shape
    ties = (np.arange(n) * 4, np.arange(m) * 4)
    targets = (np.arange(0, 4 * (n - 1) + 1, fine), np.arange(0, 4 * (m - 1) + 1, fine))
    if kind == "VII":
        res = tie_points_geo_interpolation(xr.DataArray(lon, dims=("y", "x")), xr.DataArray(lat, dims=("y", "x")), n, 4 // fine,
                                           lat_threshold_use_cartesian=-1.0)
        return [r.values for r in res]
    if kind == "generic":
        res = GeoInterpolator((lon, lat), ties, targets).interpolate()
    elif kind == "filled":
        g = GeoInterpolator((lon, lat), ties, tuple(np.arange(-fine, t[-1] + fine + 1, fine) for t in ties), chunk_size=0)
        g.fill_borders("y", "x")
        res = g.interpolate()
    elif kind == "grid":
        res = GeoGridInterpolator(ties, lon, lat).interpolate(targets)
    elif kind == "lazy grid":
        res = GeoGridInterpolator(ties, lon, lat).interpolate(targets, chunks=2)
    else:
        res = GeoSplineInterpolator(ties, lon, lat, kx=1, ky=1).interpolate(targets)
    return [np.asarray(r) for r in res]


KINDS = ["generic", "filled", "grid", "lazy grid", "spline", "VII"]


def geo_reference(kind, lon, lat, fine):
    n, m = lon.shape
    r = lib.R_VII if kind == "VII" else lib.R
    rows, cols = (np.arange(0, 4 * (k - 1) + 1, fine) for k in (n, m))
    if kind == "VII":
        rows, cols = rows[:-1], cols[:-1]
    if kind == "filled":
        rows, cols = (np.arange(-fine, 4 * (k - 1) + fine + 1, fine) for k in (n, m))
    rm, cm = lib.linear_matrix(np.arange(n) * 4, rows), lib.linear_matrix(np.arange(m) * 4, cols)
    xyz = r * lib.unit(lon, lat)
    return lib.to_lonlat(np.stack([rm @ xyz[..., k] @ cm.T for k in range(3)], axis=-1), r)


def fold(lon, lat):
    over = np.abs(lat) > 90
    lat = np.where(over, np.sign(lat) * 180 - lat, lat)
    lon = np.where(over, lon + 180, lon)
    return (lon + 180) % 360 - 180, lat


OFFSETS = [(0.0, 0.0), (-5.0, 0.0), (5.0, 0.0), (0.0, 5.0), (0.0, -5.0)]
CENTRES = [(lo, la) for lo in (0.0, 180.0, -180.0, 90.0, -90.0, 37.0) for la in (0.0, 30.0, 53.13010235, 85.0, 90.0, -53.13010235, -87.5, -90.0)]


def run_patterns(case, rec):
    kind, centre, first, extra, fine, at_pole = case
    for rest in itertools.product(range(len(OFFSETS)), repeat=3 if not extra else 2):
        pick = (first,) + rest if not extra else (first, rest[0], rest[1], rest[1], rest[0], first)
        off = np.array([OFFSETS[p] for p in pick]).reshape((2, -1, 2))
        # offsets in longitude at the poles: quarter turns instead of degrees
        lon = centre[0] + off[..., 0] * (18.0 if at_pole else 1.0)
        lon, lat = fold(lon, centre[1] + off[..., 1])
        got = geo(kind, lon.copy(), lat.copy(), fine)
        ref = geo_reference(kind, lon, lat, fine)
        if kind == "filled" and (np.isnan(ref[1]).any() or np.abs(lat).max() > 86 or (np.abs(lib.unit(lon, lat)[..., 2]).max() > 0.98)):
            continue  # extrapolating beyond the pole leaves the sphere
        what = "%s at %s, ties %s" % (kind, centre, [(float(a), float(b)) for a, b in zip(lon.ravel(), lat.ravel())])
        lib.same_places(what, got[0], got[1], ref, 0.1)
        ranges(what, *got)
        rec.state((kind, centre, pick, fine))
        rec.step()
        rec.trace()
    rec.outcome((kind, centre, round(float(got[0].sum()), 3)))


def run_vii_seam(case, rec):
    """VII with its default choice of coordinates: between the tie points, on the sphere or in the plane of unwrapped longitudes."""
    centre, first, extra, fine = case
    for rest in itertools.product(range(len(OFFSETS)), repeat=3 if not extra else 2):
        pick = (first,) + rest if not extra else (first, rest[0], rest[1], rest[1], rest[0], first)
        off = np.array([OFFSETS[p] for p in pick]).reshape((2, -1, 2))
        lon, lat = centre[0] + off[..., 0], centre[1] + off[..., 1]
        sphere = geo_reference("VII", lon, lat, fine)
        rows, cols = (np.arange(0, 4 * (k - 1), fine) for k in lon.shape)
        rm, cm = lib.linear_matrix(np.arange(lon.shape[0]) * 4, rows), lib.linear_matrix(np.arange(lon.shape[1]) * 4, cols)
        plane = rm @ lon @ cm.T, rm @ lat @ cm.T
        for conv, arg in (("-180..180", (lon + 180) % 360 - 180), ("0..360", lon % 360)):
            res = tie_points_geo_interpolation(xr.DataArray(arg, dims=("y", "x")), xr.DataArray(lat, dims=("y", "x")), lon.shape[0], 4 // fine)
            got = [r.values for r in res]
            what = "VII at %s, ties %s, %s" % (centre, [(float(a), float(b)) for a, b in zip(lon.ravel(), lat.ravel())], conv)
            try:
                lib.same_places(what, got[0], got[1], plane, 0.1)
            except Violation:
                lib.same_places(what, got[0], got[1], sphere, 0.1)
            rec.state((centre, pick, fine, conv))
            rec.step()
        rec.trace()
    rec.outcome((centre, round(float(got[1].sum()), 3)))


SHIFTS = sorted(set(list(range(-180, 181, 15)) + [0.1, -0.1, 179.9]))


def same_as(what, got, want, tol):
    lib.same_places(what, got[0], got[1], want, tol)
    ranges(what, *got)


def run_shift(case, rec):
    kind, name, shape, fine, aim = case
    lon, lat = shaped(name, shape)
    base = geo(kind, lon.copy(), lat.copy(), fine)
    flip = geo(kind, lon.copy(), -lat, fine)
    same_as("%s mirrored" % kind, flip, (base[0], -base[1]), 0.1)
    shifts = list(SHIFTS)
    # put one tie point exactly on the antimeridian, on 0, on +-90
    tie = float(lon.ravel()[aim % lon.size])
    shifts += [t - tie for t in (-180.0, 180.0, 0.0, 90.0, -90.0)]
    for s in shifts:
        moved = lon + s
        for conv, arg in (("as is", moved), ("-180..180", (moved + 180) % 360 - 180), ("0..360", moved % 360)):
            got = geo(kind, arg.copy(), lat.copy(), fine)
            same_as("%s shifted by %r (%s)" % (kind, s, conv), got, (base[0] + s, base[1]), 0.1)
            rec.state((kind, name, shape, fine, aim, s, conv))
            rec.step()
    rec.trace()
    rec.outcome((kind, name, round(float(base[0].sum()), 3)))


def shaped(name, shape):
    from .c07 import mesh
    return mesh(name, *shape)


def run_modis_shift(case, rec):
    conv, place, width, dtype, shifts = case
    args = api.tie_data(conv, place, 2 if api.CONV[conv][1] == 10 else 3, dtype, width)
    base = api.call(conv, [a.copy() for a in args])
    ranges(conv, *base)
    tol = 0.05 if dtype == "f8" else 15.0
    mirrored = [args[0].copy(), -args[1]] + [a.copy() for a in args[2:]]
    same_as("%s mirrored" % conv, api.call(conv, mirrored), (base[0], -base[1]), tol)
    rec.step(2)
    for s in shifts:
        if isinstance(s, str):
            j = int(s) % args[0].size
            s = 180.0 - float(args[0].ravel()[j])
        moved = args[0].astype("f8") + s
        for what, lon in (("as is", moved), ("-180..180", (moved + 180) % 360 - 180), ("0..360", moved % 360)):
            got = api.call(conv, [lon.astype(dtype)] + [a.copy() for a in args[1:]])
            same_as("%s at %s shifted by %r (%s)" % (conv, place, s, what), got, (base[0].astype("f8") + s, base[1]), tol)
            rec.state((conv, place, width, dtype, s, what))
            rec.step()
    rec.trace()
    rec.outcome((conv, str(place), round(float(base[0].sum()), 1)))


def run_modis_place(case, rec):
    conv, place, width, dtype, scans = case
    args = api.tie_data(conv, tuple(place), scans, dtype, width)
    got = api.call(conv, [a.copy() for a in args])
    same_as("%s around %s" % (conv, place), got, api.reference(conv, args), api.tolerance(args) if dtype == "f4" else 0.05)
    rec.state(tuple(map(str, case)))
    rec.step()
    rec.trace()
    rec.outcome((conv, round(float(got[1].sum()), 2)))


SEAM_PATTERNS = {
    "columns": lambda i, j: 1 - 2 * (j % 2) + 0 * i,
    "rows": lambda i, j: 1 - 2 * (i % 2) + 0 * j,
    "checker": lambda i, j: 1 - 2 * ((i + j) % 2),
    "pairs": lambda i, j: 1 - 2 * (j // 2 % 2) + 0 * i,
    "on the seam": lambda i, j: (j % 3 - 1) + 0 * i,
    "row on the seam": lambda i, j: (i % 2) * (1 - 2 * (j % 2)),
}


def run_modis_seam(case, rec):
    """Tie points exactly symmetric about (or exactly on) a meridian and a parallel, so that pixels fall exactly on the seam."""
    conv, (lon0, lat0), dtype = case
    narrow = "simple" in conv
    args = api.tie_data(conv, "equator", 1 if api.CONV[conv][1] == 10 else 2, dtype, 6 if narrow else None)
    i, j = np.indices(args[0].shape)
    for (na, pa), (nb, pb) in itertools.product(SEAM_PATTERNS.items(), repeat=2):
        if lat0 and nb not in ("columns", "checker"):
            continue
        for d in (0.5, 0.125):
            for zen in ("flat", "given") if len(args) > 2 else ("given",):
                lon, lat = fold(lon0 + d * pa(i, j), lat0 + d * pb(i, j) / 2)
                these = [lon.astype(dtype), lat.astype(dtype)] + [a * (0 if zen == "flat" else 1) for a in args[2:]]
                what = "%s, longitudes %g +- %g in %s, latitudes %g +- %g in %s, zenith angles %s" % (conv, lon0, d, na, lat0, d / 2, nb, zen)
                same_as(what, api.call(conv, [a.copy() for a in these]), api.reference(conv, these), 30.0 if dtype == "f4" else 0.05)
                rec.state((conv, lon0, lat0, dtype, na, nb, d, zen))
                rec.step()
    rec.trace()
    rec.outcome((conv, lon0, lat0))


def spaces(tier, seed):
    deep = tier == "thorough"
    pat = []
    for kind in KINDS:
        for centre in CENTRES:
            at_pole = abs(centre[1]) > 84
            for first in range(len(OFFSETS)):
                if not deep and kind in ("VII", "lazy grid") and (first != (1 if kind == "VII" else 3) or centre[0] in (37.0, -90.0)):
                    continue  # slow ones
                for fine in (1, 2) if deep else (2,):
                    pat.append((kind, centre, first, False, fine, at_pole))
                    pat.append((kind, centre, first, True, fine, at_pole))
    res = [Space("tie-point patterns", pat, run_patterns, "every assignment of %d offsets to 2x2 tie points, symmetric 2x3 ones, around %d centres, every interpolator"
                 % (len(OFFSETS), len(CENTRES)))]
    from .c07 import MESHES
    sh = [(kind, name, shape, fine, aim) for kind in KINDS for name in MESHES
          for shape in ((2, 2), (3, 4)) for fine in (1, 2) for aim in (range(12) if deep else (0, 5))
          if (kind != "filled" or not ("pole" in name or "north" in name))
          and (deep or kind not in ("VII", "lazy grid") or (fine == 2 and aim == 0 and shape == (2, 2)))]
    res.append(Space("longitude shifts", sh, run_shift, "shifts %s plus seams, 3 longitude conventions, mirroring" % SHIFTS))
    seam = [(c, first, extra, fine) for c in CENTRES if abs(c[1]) < 80 for first in (range(len(OFFSETS)) if deep else (1, 3)) for extra in (False, True)
            for fine in ((1, 2) if deep else (2,)) if deep or c[0] in (0.0, 180.0, 37.0)]
    res.append(Space("VII around the seams", seam, run_vii_seam, "every assignment of offsets to 2x2, symmetric 2x3 tie points, default choice of coordinates"))
    ms = []
    for conv in api.CONV:
        narrow = "simple" in conv
        for place in lib.PLACES:
            for dtype in ("f8", "f4"):
                if api.CONV[conv][4] == "legacy" and dtype == "f4":
                    continue
                cheap = narrow or "5km_to_1km" in conv
                if not deep and not cheap and (place in ("mid", "south", "threshold") or dtype == "f4"):
                    continue
                shifts = SHIFTS if deep or (cheap and api.CONV[conv][4] != "legacy") else [-180, 60]
                ms.append((conv, place, 6 if narrow else None, dtype, shifts + ["0", "7", "1999"]))
    res.append(Space("MODIS longitude shifts", ms, run_modis_shift, "every conversion x place; shifts, conventions, mirroring"))
    mp = []
    for conv in api.CONV:
        narrow = "simple" in conv
        light = narrow or "5km_to_1km" in conv
        for lat in (0.0, 53.13010235, 89.9, 90.0, -53.13010235, -90.0) if light or deep else (0.0, 90.0):
            for lon in (0.0, 180.0, -90.0, 45.0) if light or deep else (0.0, 180.0):
                for head in (0.0, 90.0, 180.0, 137.0) if light or deep else (0.0, 90.0):
                    for dtype in ("f8", "f4") if light and api.CONV[conv][4] != "legacy" else ("f8",):
                        mp.append((conv, (lat, lon, head), 6 if narrow else None, dtype, 2))
    res.append(Space("MODIS swaths around special places", mp, run_modis_place, "every conversion x centre x heading against the reference model"))
    seams = [(conv, c, dtype) for conv in api.CONV for c in ((180.0, 0.0), (-180.0, 53.0), (0.0, 0.0), (180.0, 90.0), (90.0, -90.0), (180.0, -60.0))
             for dtype in ("f8", "f4") if api.CONV[conv][4] != "legacy" and (deep or "simple" in conv or "5km_to_1km" in conv or (c == (180.0, 0.0) and dtype == "f8"))]
    res.append(Space("MODIS tie points symmetric about a seam", seams, run_modis_seam, "every conversion x centre x pattern of longitudes x pattern of latitudes"))
    return res
