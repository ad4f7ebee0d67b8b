"""C16: angle-based MODIS interpolation follows the published tie-point zone scheme.

Explored: every ordered pair of zenith angles of an alphabet at neighbouring tie points (laid out as a de Bruijn sequence),
every residue class of tie points displaced, every conversion, width and place; every fine pixel is compared with the
reference implementation of the scheme.
"""
import itertools

import numpy as np

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C16"
ASSUMPTIONS = [
    "zenith angles from an alphabet between -80 and 80 degrees; in single precision neighbouring angles are equal or differ "
    "by at least as much as in the MODIS geometry",
    "tolerance 1 mm in double, 30 m in single precision",
]
CONVS = [c for c in api.CONV if c.startswith("angle")]
ANGLES = {"f8": [0.0, 1e-9, 1e-3, 0.5, 7.0, 30.0, 30.0001, 45.0, 64.9, 80.0, -0.5, -30.0, -64.9, -1e-9],
          "f4": [0.0, 2.0, 7.0, 15.0, 30.0, 45.0, 64.9, -2.0, -30.0, -64.9]}


def de_bruijn(k):
    """Cyclic sequence over 0..k-1 with every ordered pair once."""
    seq = []
    for a in range(k):
        seq.append(a)
        for b in range(a + 1, k):
            seq += [a, b]
    return seq


def compare(conv, args, rec, what, tol=None):
    got = api.call(conv, [a.copy() for a in args])
    if got[0].dtype != args[0].dtype or got[1].dtype != args[0].dtype:
        raise Violation("%s: type %s instead of %s" % (what, got[0].dtype, args[0].dtype))
    lib.same_places(what, got[0], got[1], api.reference(conv, args), tol or (1e-3 if args[0].dtype == np.float64 else 30.0))
    rec.step()
    rec.trace()
    return got


def run_place(case, rec):
    conv, place, scans, width, dtype = case
    args = api.tie_data(conv, place, scans, dtype, width)
    got = compare(conv, args, rec, "%s at %s, %d scans" % (conv, place, scans))
    rec.state(tuple(case))
    rec.outcome((conv, place, round(float(got[1].sum()), 1)))


def run_angles(case, rec):
    conv, width, dtype, start, mode = case
    args = api.tie_data(conv, "greenwich", 2, dtype, width)
    rows, cols = args[0].shape
    alpha = ANGLES[dtype]
    seq = de_bruijn(len(alpha))
    # each row starts elsewhere in the sequence, so that rows differ and the whole sequence fits
    idx = np.array([[seq[(start + i * 37 + j) % len(seq)] for j in range(cols)] for i in range(rows)])
    sz = np.array(alpha)[idx]
    if mode == "constant rows":
        sz = np.repeat(np.array(alpha)[[(start + i) % len(alpha) for i in range(rows)]][:, None], cols, axis=1)
    if mode == "upper rows only":
        # the zenith angles of the last tie row of a scan are not part of the scheme
        per = api.CONV[conv][1]
        for k in range(per - 1, rows, per):
            sz[k] = 89.0
    args[2] = sz.astype(dtype)
    got = compare(conv, args, rec, "%s with zenith angles %s from %d" % (conv, mode, start))
    pairs = {(float(a), float(b)) for r in sz for a, b in zip(r[:-1], r[1:])}
    for p in pairs:
        rec.state((conv, width, dtype, mode, p))
    rec.outcome((conv, width, mode, start, round(float(got[0].sum()), 1)))


def run_moved(case, rec):
    conv, width, dtype, place, (a, r), (b, c), axis = case
    args = api.tie_data(conv, place, 2, dtype, width)
    i, j = np.indices(args[0].shape)
    hit = (i % a == r) & (j % b == c)
    args[axis][hit] += np.dtype(dtype).type([0.02, 0.02, 3.0][axis])
    got = compare(conv, args, rec, "%s with the tie points of rows %d mod %d, columns %d mod %d changed" % (conv, r, a, c, b))
    rec.state(tuple(map(str, case)))
    rec.outcome((conv, axis, round(float(got[1].sum()), 1)))


def spaces(tier, seed):
    deep = tier == "thorough"
    widths = {c: ((271, 270) if "5km" in c else (None,)) for c in CONVS}
    cost = {"angle_1km_to_250m": 4, "angle_5km_to_250m": 4, "angle_1km_to_500m": 2, "angle_5km_to_500m": 2, "angle_5km_to_1km": 1}
    places = [(c, p, s, w, dt) for c in CONVS for p in lib.PLACES for w in widths[c] for dt in ("f8", "f4")
              for s in ((1, 2, 3) if cost[c] == 1 or deep else (1, 2) if cost[c] == 2 else (2,))
              if deep or cost[c] < 4 or p in ("antimeridian", "north", "mid")]
    many = {1: (4, 5, 7, 8, 16, 17, 33, 64, 101, 203), 2: (4, 5, 8, 17, 33), 4: (3, 5, 9, 17)}
    names = sorted(lib.PLACES)
    for c in CONVS:
        for w in widths[c]:
            for n in many[cost[c]]:
                if "1km_to" in c and n > 20:
                    continue
                places.append((c, names[(n + len(c)) % len(names)], n, w, ("f8", "f4")[n % 2]))
    for n in range(1, 101 if deep else 41):
        places.append(("angle_5km_to_1km", names[n % len(names)], n, (271, 270)[n % 2], ("f8", "f4")[n // 2 % 2]))
        if n <= (24 if deep else 12):
            places += [(c, names[(n + 3) % len(names)], n, widths[c][n % len(widths[c])], ("f8", "f4")[(n + len(c)) // 2 % 2]) for c in CONVS[1:]]
    angles = []
    for c in CONVS:
        for w in widths[c]:
            for dt in ("f8", "f4"):
                # 2 x 271 tie points: enough start offsets to have every pair in every row position
                for start in range(0, 200, 17 if deep else {1: 40, 2: 67, 4: 100}[cost[c]]):
                    angles.append((c, w, dt, start, "pairs"))
                for start in range(len(ANGLES[dt]) if deep or cost[c] == 1 else 2):
                    angles.append((c, w, dt, start, "constant rows"))
                angles.append((c, w, dt, 5, "upper rows only"))
    moved = []
    for c in CONVS:
        rows = 2 if "5km" in c else 5
        mod = {1: 7, 2: 5, 4: 3}[cost[c]] if not deep else 7
        for w in widths[c]:
            for r in range(rows):
                for k in range(mod):
                    for axis in (0, 1, 2):
                        if not deep and cost[c] == 4 and (r + k + axis) % 3:
                            continue
                        moved.append((c, w, "f8", "mid" if axis else "antimeridian", (rows, r), (mod, k), axis))
    return [Space("places", places, run_place, "every conversion x width x place x 1..3 scans x precision; up to 203 scans", batch=4),
            Space("zenith angles", angles, run_angles, "every ordered pair of %d (double) and %d (single) angles" % (len(ANGLES["f8"]), len(ANGLES["f4"]))),
            Space("tie points changed", moved, run_moved, "every residue class of tie points changed in longitude, latitude and zenith angle")]
