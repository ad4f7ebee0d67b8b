"""C15: lon/lat-only MODIS interpolation is per-scan bilinear on the sphere.

Explored: every swath width up to the bound x places x numbers of scans, and every tie point of small swaths displaced in
turn, every fine pixel compared with the reference operator.
"""
import itertools

import numpy as np

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C15"
ASSUMPTIONS = [
    "tie-point fields: MODIS geometry at 7 places, rough fields with every tie point displaced independently, and single displacements",
    "tolerance 1 mm in double, 30 m in single precision (tie points are up to 100 km apart in the rough fields)",
]
#: (columns, scans)
MANY = [(2, 4), (3, 7), (5, 8), (4, 16), (3, 33), (9, 65), (2, 203), (128, 5), (129, 4), (512, 2), (513, 1), (1024, 3), (1025, 1), (1400, 2), (1500, 1), (2048, 1), (2049, 1),
        (2708, 1), (4097, 1)]


def fields(kind, place, scans, width, dtype, seed=0):
    lon, lat, _ = lib.swath(place, scans, cols=max(1354, width))
    start = max(0, 1354 - width) // 3
    lon, lat = lon[:, start:start + width], lat[:, start:start + width]
    if kind == "rough":
        n = np.arange(lon.size).reshape(lon.shape) * 7 + seed
        xyz = lib.unit(lon, lat) + np.stack([np.sin(n * 1.7), np.cos(n * 2.3), np.sin(n * 3.1 + 1)], axis=-1) * 5e-3
        lon, lat, _ = lib.to_lonlat(xyz / np.linalg.norm(xyz, axis=-1, keepdims=True), 1.0)
    return lon.astype(dtype), lat.astype(dtype)


def compare(conv, lon, lat, rec, what):
    got = api.call(conv, [lon.copy(), lat.copy()])
    factor = api.CONV[conv][5] // api.CONV[conv][6]
    if got[0].dtype != lon.dtype:
        raise Violation("%s: type %s instead of %s" % (what, got[0].dtype, lon.dtype))
    lib.same_places(what, got[0], got[1], lib.ref_simple(lon, lat, factor), 1e-3 if lon.dtype == np.float64 else 30.0)
    rec.step()
    rec.trace()
    return got


def run(case, rec):
    conv, kind, place, scans, width, dtype, seed = case
    lon, lat = fields(kind, place, scans, width, dtype, seed)
    got = compare(conv, lon, lat, rec, "%s, %d columns at %s" % (conv, width, place))
    rec.state(tuple(case))
    rec.outcome((conv, width, place, round(float(got[1].sum()), 2)))


def run_moved(case, rec):
    conv, place, scans, width, dtype, row = case
    lon, lat = fields("smooth", place, scans, width, dtype)
    for col in range(width):
        for dlon, dlat in ((0.0, 0.05), (0.05, 0.0)):
            a, b = lon.copy(), lat.copy()
            a[row, col] += dlon
            b[row, col] += dlat
            compare(conv, a, b, rec, "%s, tie point %d,%d of %d columns moved" % (conv, row, col, width))
            rec.state((conv, place, scans, width, dtype, row, col, dlon))


def spaces(tier, seed):
    deep = tier == "thorough"
    convs = ["simple_1km_to_500m", "simple_1km_to_250m"]
    cases = []
    widths = list(range(2, 90 if deep else 40)) + [64, 100, 270, 271, 677, 1000, 1353, 1354]
    for conv, kind, width, dtype in itertools.product(convs, ("smooth", "rough"), widths, ("f8", "f4")):
        big = width > 100
        for k, place in enumerate(lib.PLACES):
            if not deep and not big and (k + width) % 3 or (big and (k != width % 7 and not deep)):
                continue
            for scans in (1, 2, 3) if not big else (1, 2):
                cases.append((conv, kind, place, scans, width, dtype, seed))
    # many scans, wide swaths
    places = sorted(lib.PLACES)
    for n, (conv, kind, (width, scans), dtype) in enumerate(itertools.product(convs, ("smooth", "rough"), MANY, ("f8", "f4"))):
        for place in places if deep else places[n % len(places):][:1] + places[(n + 3) % len(places):][:1]:
            cases.append((conv, kind, place, scans, width, dtype, seed))
    sweep = [(conv, kind, places[width % len(places)], 1 + width % 2, width, ["f8", "f4"][(width // 3 + k) % 2], seed)
             for k, (conv, kind) in enumerate(itertools.product(convs, ("smooth", "rough"))) for width in range(2, 2100 if deep else 1420) if deep or (width + k) % 2 == 0]
    sweep += [(conv, "rough", places[scans % len(places)], scans, 2 + scans % 4, ["f8", "f4"][scans // 2 % 2], seed) for conv in convs for scans in range(1, 260 if deep else 130)]
    moved = []
    for conv, width, dtype in itertools.product(convs, (2, 3, 4, 5, 8) if deep else (2, 3, 5), ("f8", "f4")):
        for place in (lib.PLACES if deep else ("equator", "antimeridian", "north")):
            for scans in (1, 2):
                for row in range(10 * scans):
                    moved.append((conv, place, scans, width, dtype, row))
    return [Space("widths", cases, run, "widths 2..%d and 8 more up to 1354, 1..3 scans; up to 203 scans and 4097 columns, smooth and rough fields, both precisions" % (89 if deep else 39)),
            Space("every size", sweep, run, "every width up to %d, every number of scans up to %d" % ((2099, 259) if deep else (1419, 129))),
            Space("every tie point moved", moved, run_moved, "each tie point of swaths of 2..%d columns moved in longitude and in latitude" % (8 if deep else 5))]
