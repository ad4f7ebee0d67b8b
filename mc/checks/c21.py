"""C21: the sensor presets place pixels on the documented sensor grids.

The tie and pixel positions of the instruments are written down once more here (not taken from the package).  Explored: every
number of scans up to the bound x places x precisions, every tie point of the 5 km and 20 km presets displaced in turn, and
fields known in closed form at every tie and pixel position.
"""
import itertools

import numpy as np

import geotiepoints
from geotiepoints.interpolator import generic_modis5kmto1km

from .. import lib
from ..core import Space, Violation

PROPERTY = "C21"
ASSUMPTIONS = [
    "fields: MODIS/AVHRR-like swaths at 7 places, the same with every tie point displaced independently, single displacements, and products of "
    "1, r and 1, c, c^2, c^3 in pixel units (centred); geographic presets are compared through locations",
    "fields of degree 2 and 3 across track are compared 8 tie points away from borders that are filled, where the linear continuation has died out",
    "tolerance 1 mm (double), 30 m (single precision input)",
]
TIES20 = np.array([0] + list(range(4, 2048, 20)) + [2047])
#: name -> (function, tie rows of a scan, pixel rows of a scan, row positions [tie, pixel], column positions [tie, pixel])
PRESET = {
    "metop20kmto1km": (geotiepoints.metop20kmto1km, 1, 1, (np.zeros(1), np.zeros(1)), (TIES20, np.arange(2048.))),
    "modis5kmto1km": (geotiepoints.modis5kmto1km, 2, 10, (np.array([2., 7]), np.arange(10.)), (np.arange(2., 1354, 5), np.arange(1354.))),
    "modis1kmto500m": (geotiepoints.modis1kmto500m, 10, 20, (np.arange(10.), np.arange(20) / 2 - 0.25), (np.arange(1354.), np.arange(2708) / 2)),
    "modis1kmto250m": (geotiepoints.modis1kmto250m, 10, 40, (np.arange(10.), np.arange(40) / 4 - 0.375), (np.arange(1354.), np.arange(5416) / 4)),
}
PRESET["generic_modis5kmto1km"] = (generic_modis5kmto1km,) + PRESET["modis5kmto1km"][1:]
_OPS = {}


def operators(name):
    """Row operator of one scan, column operator."""
    if name not in _OPS:
        _, _, _, (tr, fr), (tc, fc) = PRESET[name]
        cpos, cmat = lib.border_matrix(tc, fc, 0)
        _OPS[name] = (np.eye(1) if len(tr) == 1 else lib.linear_matrix(tr, fr)), lib.spline_matrix(cpos, fc, 3) @ cmat
    return _OPS[name]


def expected(name, field):
    per = PRESET[name][1]
    rm, cm = operators(name)
    return np.concatenate([rm @ field[k:k + per] @ cm.T for k in range(0, len(field), per)])


def tie_lonlat(name, place, scans, rough, dtype):
    per = PRESET[name][1]
    if name.startswith("metop"):
        lon, lat, _ = lib.swath(place, 1, rows=scans, cols=2048)
        lon, lat = lon[:, TIES20], lat[:, TIES20]
    else:
        lon, lat, _ = lib.swath(place, scans)
        if per == 2:
            lon, lat = lon[2::5, 2::5], lat[2::5, 2::5]
    if rough:
        n = np.arange(lon.size).reshape(lon.shape) * 7 + 3
        xyz = lib.unit(lon, lat) + np.stack([np.sin(n * 1.7), np.cos(n * 2.3), np.sin(n * 3.1 + 1)], axis=-1) * 3e-3
        lon, lat, _ = lib.to_lonlat(xyz / np.linalg.norm(xyz, axis=-1, keepdims=True), 1.0)
    return lon.astype(dtype), lat.astype(dtype)


def geo_compare(name, lon, lat, what):
    got = PRESET[name][0](lon.copy(), lat.copy())
    if len(got) != 2:
        raise Violation("%s: %d arrays" % (what, len(got)))
    xyz = lib.R * lib.unit(lon, lat)
    ref = lib.to_lonlat(np.stack([expected(name, xyz[..., k]) for k in range(3)], axis=-1), margin=1e-4)
    lib.same_places(what, got[0], got[1], ref, 1e-3 if lon.dtype == np.float64 else 30.0)
    return got


def run_swath(case, rec):
    name, place, scans, rough, dtype = case
    lon, lat = tie_lonlat(name, place, scans, rough, dtype)
    got = geo_compare(name, lon, lat, "%s, %d scans at %s%s" % (name, scans, place, ", rough" if rough else ""))
    rec.step()
    rec.state(tuple(case))
    rec.outcome((name, place, scans, round(float(np.nansum(got[1])), 3)))
    rec.trace()


def run_moved(case, rec):
    name, place, scans, row, cols = case
    lon, lat = tie_lonlat(name, place, scans, False, "f8")
    for col in range(*cols):
        for dlon, dlat in ((0.0, 0.05), (0.05, 0.0)):
            a, b = lon.copy(), lat.copy()
            a[row, col] += dlon
            b[row, col] += dlat
            geo_compare(name, a, b, "%s, tie point %d,%d of %d scans moved" % (name, row, col, scans))
            rec.step()
            rec.state((name, place, scans, row, col, dlon))
            rec.trace()


def run_generic(case, rec):
    scans, first, count, dtype = case
    shape = (2 * scans, 271)
    fields = np.zeros((count,) + shape, dtype)
    for k in range(count):
        fields[k].flat[first + k] = 1
        rec.state((scans, first + k, dtype))
    got = generic_modis5kmto1km(*fields)
    rec.step()
    if len(got) != count:
        raise Violation("%d arrays given, %d returned" % (count, len(got)))
    for k in range(count):
        lib.same_values("generic_modis5kmto1km, %d scans, tie point %s" % (scans, np.unravel_index(first + k, shape)), got[k],
                        expected("generic_modis5kmto1km", fields[k].astype(float)), 1e-9, 1)
        rec.trace()
    rec.outcome((scans, first))


def run_types(case, rec):
    """Several arrays of different types in one call: each is interpolated as if it were alone."""
    scans, types = case
    shape = (2 * scans, 271)
    r, c = np.arange(shape[0])[:, None], np.arange(shape[1])[None, :]
    fields = [(np.sin(r * 1.3 + k) * 90 + np.cos(c * 0.11 + k) * 33.3 + 0.25 * k).astype(t) for k, t in enumerate(types)]
    got = generic_modis5kmto1km(*[f.copy() for f in fields])
    if len(got) != len(fields):
        raise Violation("%d arrays given, %d returned" % (len(fields), len(got)))
    for k, (g, f) in enumerate(zip(got, fields)):
        lib.same_values("array %d of types %s" % (k, types), g, expected("generic_modis5kmto1km", f.astype(float)), 1e-9 if types[k] != "f4" else 1e-5, 100)
        rec.step()
        rec.state((scans, tuple(types), k))
    rec.trace()
    rec.outcome((scans, tuple(types)))


def run_closed(case, rec):
    """Fields in closed form: p(r) q(c) in pixel units, whatever the operator is."""
    name, scans, pr, pc = case
    fun, per, fper, (tr, fr), (tc, fc) = PRESET[name]
    size = max(fc[-1], tc[-1])
    speed = 1 if name.startswith("metop") else 10 if per == 2 else 10     # one scan is 10 km along track

    def value(r, c):
        return np.outer((r / (speed * scans)) ** pr, ((c - size / 2) / size) ** pc)

    offs = np.arange(scans) * speed
    rt, rf = (offs[:, None] + tr).ravel(), (offs[:, None] + fr).ravel()
    tie, ref = value(rt, tc), value(rf, fc)
    keep = slice(None) if pc <= 1 or name.startswith("metop") else slice(np.searchsorted(fc, tc[8]), np.searchsorted(fc, tc[-9]))
    if name == "generic_modis5kmto1km":
        got = generic_modis5kmto1km(tie)[0]
        if got.shape != ref.shape:
            raise Violation("%s: shape %s instead of %s" % (name, got.shape, ref.shape))
        lib.same_values("%s, r^%d c^%d" % (name, pr, pc), got[:, keep], ref[:, keep], 1e-5 if pc > 1 else 1e-10, 1)
    else:
        # small fields around (0, 0): to first order longitude and latitude are Cartesian coordinates there
        eps = 1e-3
        lat, lon = np.rad2deg(eps * tie), np.rad2deg(eps * tie[:, ::-1])
        got = fun(lon, lat)
        for what, g, t in (("latitude", got[1], tie), ("longitude", got[0], tie[:, ::-1])):
            if g.shape != ref.shape:
                raise Violation("%s: shape %s instead of %s" % (name, g.shape, ref.shape))
        lib.same_values("%s, latitude r^%d c^%d" % (name, pr, pc), np.deg2rad(got[1])[:, keep] / eps, ref[:, keep], 2e-5 if pc > 1 else 5e-6, 1)
    rec.step()
    rec.state(tuple(case))
    rec.outcome((name, scans, pr, pc))
    rec.trace()


def spaces(tier, seed):
    deep = tier == "thorough"
    swath = []
    for name in PRESET:
        if name.startswith("generic"):
            continue
        n = {1: 40, 2: 24, 10: 4}[PRESET[name][1]]
        if deep:
            n *= 2
        for scans in range(1, n + 1):
            for k, (place, rough) in enumerate(itertools.product(lib.PLACES, (0, 1))):
                if deep or (k + scans) % (2 if n < 10 else 7) == 0:
                    for dtype in ("f8", "f4"):
                        swath.append((name, place, scans, rough, dtype))
    moved = []
    for name, width, scanset in (("metop20kmto1km", 105, (1, 2, 3)), ("modis5kmto1km", 271, (1, 2))):
        for place in lib.PLACES if deep else ("mid",):
            for scans in scanset if deep else scanset[:2]:
                for row in range(scans * PRESET[name][1]):
                    for first in range(0, width, 30):
                        moved.append((name, place, scans, row, (first, min(width, first + 30))))
    gen = [(scans, first, min(60, 542 * scans - first), dt) for scans in range(1, 7 if deep else 4) for dt in (("f8", "f4", "i8") if deep or scans == 1 else ("f8",))
           for first in range(0, 542 * scans, 60)]
    closed = [(name, scans, pr, pc) for name in PRESET for scans in range(1, (9 if deep else 4)) for pr in (0, 1) for pc in (0, 1, 2, 3)]
    types = [(scans, list(t)) for scans in (1, 2) for n in ((2, 3) if scans == 1 else (2,)) for t in itertools.product(("f8", "f4", "i4", "u1", "i2"), repeat=n)
             if n == 2 or deep or t[0] != t[1]]
    long = {1: (64, 100, 128, 257, 1080), 2: (32, 50, 101, 203), 10: (5, 6, 7, 8, 9, 12, 16, 25)}
    long = [(name, list(lib.PLACES)[n % len(lib.PLACES)], n, 0, "f8") for name in PRESET if not name.startswith("generic")
            for n in long[PRESET[name][1]] + ((50, 100) if deep and PRESET[name][1] == 10 else ())]
    return [Space("long swaths", long, run_swath, "up to 1080 lines (metop), 203 scans (5 km), 25 scans (1 km; thorough 100)", batch=1),
            Space("swaths", swath, run_swath, "every number of scans up to 40/24/4 (thorough twice that), smooth and rough, both precisions"),
            Space("moved", moved, run_moved, "every tie point of 1..%d scans of the 20 km and 5 km presets" % (3 if deep else 2)),
            Space("impulses", gen, run_generic, "every tie point impulse of 1..%d scans through generic_modis5kmto1km" % (6 if deep else 3)),
            Space("types", types, run_types, "2 and 3 arrays of 5 types in one call"),
            Space("closed form", closed, run_closed, "every preset, 1..%d scans, 8 fields" % (8 if deep else 3))]
