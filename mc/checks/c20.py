"""C20: a missing tie point only affects its neighbourhood.

Every tie point of every argument is changed, moved far away and made missing in turn; every target point outside of the
cells touching it (and what is extrapolated from them) must keep its value.  The cells are computed by the model from the
positions of tie and target points.
"""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import Interpolator, MultipleGridInterpolator, SingleGridInterpolator, SingleSplineInterpolator
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C20"
ASSUMPTIONS = [
    "a target point on the border of two cells belongs to both; values elsewhere may differ by rounding (1e-9 relative in double, 2e-6 in "
    "single precision)",
    "changes that move VII data across the threshold between direct and spherical interpolation are not local by definition and not "
    "made; missing values are tried where scipy accepts them (not in splines)",
    "pairs: another tie point missing (or far away) all the time, at the corners and in the middle; the basic interpolator bridges missing tie points, "
    "which makes its cells larger, so that it is only tried with far ones",
]
CHANGES = ["nan", "small", "far"]
MORE = ["fill", "inf", "zero"]   # other ways of marking a tie point as missing


def touching(pos, n, inclusive=True):
    """allowed[p, i]: target position pos[p] (in tie index units) lies in a cell touching tie i of n."""
    p = np.clip(np.asarray(pos, float), 0, n - 1)
    res = np.zeros((len(p), n), bool)
    for c in range(n - 1):
        inside = (p >= c - 1e-9) & (p <= c + 1 + 1e-9)
        res[inside, c] = res[inside, c + 1] = True
    return res


def index_position(tie, fine):
    tie, fine = np.asarray(tie, float), np.asarray(fine, float)
    return np.interp(fine, tie, np.arange(len(tie)))


def unaffected(what, got, ref, allowed, single):
    """got and ref agree where not allowed."""
    hit = 0
    for n, (g, r) in enumerate(zip(got, ref)):
        if g.shape != r.shape or g.shape != allowed.shape:
            raise Violation("%s: shape %s instead of %s" % (what, g.shape, allowed.shape))
        same = (g == r) | (np.isnan(g) & np.isnan(r))
        if not same.all():
            with np.errstate(invalid="ignore"):
                scale = np.nanmax(np.abs(np.where(np.isfinite(r), r, 0))) + 1
                close = np.abs(g - r) <= (2e-6 if single else 1e-9) * scale
            bad = ~same & ~close & ~allowed
            if bad.any():
                w = tuple(map(int, np.argwhere(bad)[0]))
                raise Violation("%s: output %d changed at %s from %r to %r, which is not in a cell touching the tie point; %d such elements"
                                % (what, n, w, r[w], g[w], int(bad.sum())))
            hit += int((~same & allowed).sum())
    return hit


def change(a, idx, how):
    a = a.copy()
    if how == "nan":
        a[idx] = np.nan
    elif how == "small":
        a[idx] += 0.013
    elif how in ("fill", "inf", "zero"):
        a[idx] = {"fill": -999.0, "inf": np.inf, "zero": 0.0}[how]
    else:
        a[idx] = 1.0 if abs(a[idx]) > 5 else 30.0
    return a


# ---------------------------------------------------------------- MODIS

_CACHE = {}


def modis_base(conv, nscans, width, dtype, lazy, before=None):
    key = conv, nscans, width, dtype, lazy, str(before)
    if key not in _CACHE:
        args = api.tie_data(conv, "mid", nscans, dtype, width)
        if before:
            args = [change(a, tuple(before[0]), before[1]) for a in args]
        _, per, fine_rows, _, family, coarse, fine = api.CONV[conv]
        f = coarse // fine
        cols = args[0].shape[1]
        if family == "angle":
            fp = f
            rows = touching((np.arange(fine_rows) - (fp - 1) / 2.0) / fp, per)
            per_km = 1000 // fine
            colm = touching((np.arange(1354 * per_km) - (0 if coarse == 1000 else 2 * per_km)) / fp, cols)
        else:
            rows = touching(np.arange(fine_rows) / f - {2: 0.25, 4: 0.375}[f], per)
            colm = touching(np.arange(cols * f) / f, cols)
        _CACHE[key] = args, modis_call(conv, args, lazy), rows, colm
    return _CACHE[key]


def modis_call(conv, args, lazy):
    if lazy:
        per = api.CONV[conv][1]
        return [np.asarray(r) for r in da.compute(*api.CONV[conv][0](*[da.from_array(a, chunks=(lazy * per, -1)) for a in args]))]
    return [np.asarray(r) for r in api.CONV[conv][0](*[a.copy() for a in args])]


def run_modis(case, rec):
    conv, nscans, width, dtype, lazy, ties = case[:6]
    before = case[6] if len(case) > 6 else None
    args, ref, rows, colm = modis_base(conv, nscans, width, dtype, lazy, before)
    per, fr = api.CONV[conv][1], api.CONV[conv][2]
    hit = 0
    for i, j, k, how in ties:
        moved = [change(a, (i, j), how) if n == k else a for n, a in enumerate(args)]
        got = modis_call(conv, moved, lazy)
        allowed = np.zeros(ref[0].shape, bool)
        s = i // per
        allowed[s * fr:(s + 1) * fr] = np.outer(rows[:, i % per], colm[:, j])
        hit += unaffected("%s: argument %d, tie point %d,%d: %s" % (conv, k, i, j, how), got, ref, allowed, dtype == "f4")
        rec.step()
        rec.state((conv, nscans, width, dtype, lazy, i, j, k, how, str(before)))
    rec.outcome(hit)
    rec.sample = "%d elements changed inside" % hit
    if not hit:
        raise RuntimeError("changing tie points changed nothing at all")
    rec.trace()


# ---------------------------------------------------------------- generic interpolators

EX = dict(bounds_error=False, fill_value=None)
ROWS, COLS = np.array([1., 3., 4., 8.]), np.array([2., 3., 6., 7., 11.])
FINE = np.arange(0., 10.), np.arange(0., 13., 0.5)


def gfield(k):
    y, x = np.arange(4)[:, None], np.arange(5)[None, :]
    return np.sin(0.9 * y + k) * 10 + np.cos(0.7 * x + k) * 8 + 35


def generic_call(kind, rows, cols, fine, data, chunk):
    if kind in ("interpolator", "geo"):
        cls = Interpolator if kind == "interpolator" else GeoInterpolator
        obj = cls(list(data), (rows, cols), fine, 1, 1, chunk)
        obj.fill_borders("y", "x")
        return list(obj.interpolate())
    if kind == "basic":
        return list(BasicSatelliteInterpolator(cols.astype(int), rows.astype(int), data[1], data[0]).interpolate())[::-1]
    cls, opts, call = {"grid": (SingleGridInterpolator, EX, {}), "slinear": (SingleGridInterpolator, dict(method="slinear", **EX), {}),
                       "grid lazy": (SingleGridInterpolator, EX, dict(chunks=(3, 5))), "nearest": (SingleGridInterpolator, dict(method="nearest", **EX), {}),
                       "spline": (SingleSplineInterpolator, dict(kx=1, ky=1), {}), "spline lazy": (SingleSplineInterpolator, dict(kx=1, ky=1), dict(chunks=4)),
                       "multiple grid": (MultipleGridInterpolator, EX, {}), "geo grid": (GeoGridInterpolator, EX, {}),
                       "geo grid lazy": (GeoGridInterpolator, EX, dict(chunks=(4, 9))), "geo spline": (GeoSplineInterpolator, dict(kx=1, ky=1), {})}[kind]
    one = kind in ("grid", "slinear", "grid lazy", "nearest", "spline", "spline lazy")
    res = cls((rows, cols), *(data[:1] if one else data), **opts).interpolate(fine, **call)
    return [np.asarray(r) for r in ([res] if one else res)]


def run_generic(case, rec):
    kind, tset, chunk, how, k = case[:5]
    before = case[5] if len(case) > 5 else None     # a tie point that is missing (or far away) all the time
    rows, cols, fine = tset
    rows, cols, fine = np.array(rows, float), np.array(cols, float), [np.array(f, float) for f in fine]
    lon, lat = lib.swath("mid", 1, rows=len(rows), cols=len(cols))[:2] if "geo" in kind or kind == "basic" else None, None
    if lon is not None:
        data = list(lon)
    else:
        n, m = len(rows), len(cols)
        data = [np.sin(np.arange(n)[:, None] + q) * 10 + np.cos(np.arange(m)[None, :] * 0.7 + q) * 8 + 35 for q in range(2)]
    if before:
        data = [change(a, tuple(before[0]), before[1]) for a in data]
    ref = generic_call(kind, rows, cols, fine, data, chunk)
    if chunk:
        rp, rm = lib.border_matrix(rows, fine[0], chunk)
        rowm = np.abs(lib.linear_matrix(rp, fine[0]) @ rm) > 1e-12
    elif kind == "basic":
        rowm = touching(index_position(rows, np.arange(rows[-1] + 1)), len(rows))
    else:
        rowm = touching(index_position(rows, fine[0]), len(rows))
    colm = touching(index_position(cols, np.arange(cols[-1] + 1) if kind == "basic" else fine[1]), len(cols))
    if k >= len(data) or (k and kind in ("grid", "slinear", "grid lazy", "nearest", "spline", "spline lazy")):
        return
    hit = 0
    for i, j in np.ndindex(len(rows), len(cols)):
        if before and [i, j] == list(before[0]):
            continue
        moved = [change(a, (i, j), how) if n == k else a for n, a in enumerate(data)]
        got = generic_call(kind, rows, cols, fine, moved, chunk)
        others = [n for n in range(len(ref)) if n != k]
        if "geo" not in kind:   # the other arrays are not touched at all
            for n in others:
                unaffected("%s, array %d when array %d changed" % (kind, n, k), [got[n]], [ref[n]], np.zeros(ref[n].shape, bool), False)
            got, old = [got[k]], [ref[k]]
        else:
            old = ref
        hit += unaffected("%s: array %d, tie point %d,%d: %s" % (kind, k, i, j, how), got, old, np.outer(rowm[:, i], colm[:, j]), False)
        rec.step()
        rec.state((kind, tuple(rows), tuple(cols), chunk, how, k, i, j, str(before)))
    rec.outcome(hit)
    rec.trace()


# ---------------------------------------------------------------- VII

def vii_call(fun, arrs, per, factor, lazy):
    arrs = [xr.DataArray(da.from_array(a, chunks=(per, -1)) if lazy else a, dims=("alt", "act")) for a in arrs]
    res = tie_points_geo_interpolation(*arrs, per, factor) if fun != "plain" else tie_points_interpolation(list(arrs), per, factor)
    return [np.asarray(r) for r in res]


def run_vii(case, rec):
    fun, nscans, per, across, factor, lazy, how, k = case[:8]
    before = case[8] if len(case) > 8 else None
    place = {"plain": "greenwich", "direct": "greenwich", "sphere": (70.0, 20.0, 10.0), "antimeridian": "antimeridian"}[fun]
    args = [a for a in lib.swath(place, nscans, rows=per, cols=across, fov=30.0)[:2]]
    if before:
        args = [change(a, tuple(before[0]), before[1]) for a in args]
    ref = vii_call(fun, args, per, factor, lazy)
    rows = touching(np.arange((per - 1) * factor) / factor, per)
    cols = touching(np.arange((across - 1) * factor) / factor, across)
    fr = (per - 1) * factor
    hit = 0
    for i, j in np.ndindex(nscans * per, across):
        if how == "far" and fun != "plain":
            moved = [a.copy() for a in args]
            moved[k][i, j] = (np.nanmin(moved[k]) + np.nanmax(moved[k])) / 2
        else:
            moved = [change(a, (i, j), how) if n == k else a for n, a in enumerate(args)]
        if fun == "antimeridian" and k == 0 and not np.ptp(moved[0][np.isfinite(moved[0])]) > 180:
            continue
        got = vii_call(fun, moved, per, factor, lazy)
        allowed = np.zeros(ref[0].shape, bool)
        s = i // per
        allowed[s * fr:(s + 1) * fr] = np.outer(rows[:, i % per], cols[:, j])
        if fun in ("plain", "direct"):
            unaffected("VII %s: the other array" % fun, [got[1 - k]], [ref[1 - k]], np.zeros_like(allowed), False)
        hit += unaffected("VII %s, %d scans of %d x %d, factor %d: array %d, tie point %d,%d: %s" % (fun, nscans, per, across, factor, k, i, j, how), got, ref, allowed, False)
        rec.step()
        rec.state((fun, nscans, per, across, factor, lazy, how, k, i, j, str(before)))
    rec.outcome(hit)
    rec.trace()


# ---------------------------------------------------------------- multilinear

def run_multilinear(case, rec):
    orders, dtype, how = case[:3]
    before = case[3] if len(case) > 3 else None
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    d, n = len(orders), int(np.prod(orders))
    axes = [np.array([-1.5, -0.3, 0, 0.4, 1, 1.5, 2, 2.7, 3.2, 4.6])[:10 if d < 3 else 6] for _ in range(d)]
    pts = np.array(list(itertools.product(*axes))).T      # in grid index units
    smin, smax = np.arange(d) * 1.0, np.arange(d) * 1.0 + (np.array(orders) - 1) * 0.5
    s = smin[:, None] + pts * 0.5
    vals = np.array([np.sin(0.7 * np.arange(n)), np.cos(0.3 * np.arange(n))]) * 5 + 10
    if before:
        vals = change(vals, tuple(before[0]), before[1])
    touch = [touching(pts[q], orders[q]) for q in range(d)]

    def call(v):
        return [np.asarray(MultilinearInterpolator(smin, smax, orders, v, dtype=dt)(s))]

    ref = call(vals)
    hit = 0
    for row, node in itertools.product(range(2), range(n)):
        idx = np.unravel_index(node, orders)
        got = call(change(vals, (row, node), how))
        allowed = np.zeros(ref[0].shape, bool)
        allowed[row] = np.all([t[:, i] for t, i in zip(touch, idx)], axis=0)
        hit += unaffected("multilinear %s: node %s of row %d: %s" % (orders, idx, row, how), got, ref, allowed, dtype == "f4")
        rec.step()
        rec.state((tuple(orders), dtype, how, row, node, str(before)))
    # a missing query point affects nothing else
    for p in range(s.shape[1]) if how == "nan" else ():
        q = s.copy()
        q[p % d, p] = np.nan
        got = [np.asarray(MultilinearInterpolator(smin, smax, orders, vals, dtype=dt)(q))]
        allowed = np.zeros(ref[0].shape, bool)
        allowed[:, p] = True
        unaffected("multilinear %s: query point %d missing" % (orders, p), got, ref, allowed, dtype == "f4")
        rec.step()
    rec.outcome(hit)
    rec.trace()


def chunked(seq, n):
    seq = list(seq)
    return [seq[k:k + n] for k in range(0, len(seq), n)]


def spaces(tier, seed):
    deep = tier == "thorough"
    modis = []

    def add(conv, nscans, width, dtype, lazy, cols, rows, hows, size, *before):
        nargs, per = api.CONV[conv][3], api.CONV[conv][1]
        ties = [(i, j, k, how) for i in rows for j in cols for k in range(nargs) for how in hows]
        for part in chunked(ties, size):
            modis.append((conv, nscans, width, dtype, lazy, [list(t) for t in part]) + before)

    for width in (270, 271):
        add("angle_5km_to_1km", 1, width, "f4", 0, range(width), range(2), CHANGES if deep else ["nan"], 200)
        edge = range(width) if deep else [0, 1, 2, 3, 134, 135, 136, width - 4, width - 3, width - 2, width - 1]
        add("angle_5km_to_1km", 2, width, "f8", 0, edge, range(4), CHANGES, 60)
        add("angle_5km_to_500m", 2, width, "f4", 0, edge, range(4), CHANGES if deep else ["nan", "small"], 20)
        add("angle_5km_to_250m", 1, width, "f8", 0, edge, range(2), CHANGES if deep else ["nan"], 10)
        add("angle_5km_to_1km", 2, width, "f8", 0, edge[::2], range(4), MORE, 60)
        add("angle_5km_to_1km", 3, width, "f4", 1, edge[:4] if not deep else edge, range(6), ["nan"], 12)
    wide = range(0, 1354, 1 if deep else 1354) if deep else [0, 1, 2, 676, 677, 1351, 1352, 1353]
    add("angle_1km_to_500m", 1, None, "f4", 0, wide, range(10), ["nan", "small"], 20)
    add("angle_1km_to_500m", 2, None, "f8", 0, [0, 700, 1353], (0, 9, 10, 19), ["nan"], 12)
    add("angle_1km_to_250m", 1, None, "f4", 0, wide[:3] if not deep else wide[::20], (0, 1, 5, 8, 9), ["nan"], 8)
    for conv in ("simple_1km_to_500m", "simple_1km_to_250m"):
        for width in (2, 3, 4, 5, 7):
            for nscans, dtype, lazy in ((1, "f4", 0), (2, "f8", 0), (2, "f4", 1), (3, "f8", 2)):
                add(conv, nscans, width, dtype, lazy, range(width), range(10 * nscans), CHANGES + (MORE if nscans < 3 else []), 100)
        add(conv, 1, 1354, "f4", 0, [0, 1, 700, 1352, 1353], range(10), ["nan"], 20)
    # with another tie point missing all the time
    for width in (270, 271):
        for at in ([0, 0], [2, 135], [1, width - 1]):
            add("angle_5km_to_1km", 2, width, "f8", 0, [0, 1, 2, 134, 135, 136, width - 2, width - 1], range(4), ["nan", "small"], 60, [at, "nan"])
    for at in ([0, 0], [10, 700]):
        add("angle_1km_to_500m", 2, None, "f8", 0, [0, 1, 700, 701, 1353], (0, 9, 10, 19), ["small"], 12, [at, "nan"])
    for conv in ("simple_1km_to_500m", "simple_1km_to_250m"):
        for at in ([0, 0], [4, 2], [9, 4], [10, 1], [19, 0]):
            add(conv, 2, 5, "f8", 0, range(5), range(20), ["nan", "small"], 100, [at, "nan"])
            add(conv, 2, 5, "f4", 1, range(5), range(20), ["small"], 100, [at, "nan"])
    tsets = [(list(ROWS), list(COLS), [list(FINE[0]), list(FINE[1])]),
             ([0, 1, 2, 3], [0, 1, 2, 3, 4], [list(np.arange(0, 3.1, 0.25)), list(np.arange(0, 4.1, 0.25))]),
             ([0, 4], [0, 3], [list(range(5)), list(range(4))]),
             ([0, 2, 7, 8, 10], [0, 5, 6], [list(range(11)), list(range(7))])]
    gen = []
    for kind in ("interpolator", "geo", "grid", "slinear", "grid lazy", "nearest", "spline", "spline lazy", "multiple grid", "geo grid", "geo grid lazy", "geo spline", "basic"):
        for t in tsets:
            if kind == "basic" and t is tsets[0]:
                t = ([0, 3, 4, 8], [0, 1, 6, 7, 11], t[2])
            if kind.startswith("spline") or kind in ("interpolator", "geo spline", "geo") and t is not tsets[0]:
                t = (t[0], t[1], [[f for f in t[2][0] if t[0][0] <= f <= t[0][-1]], [f for f in t[2][1] if t[1][0] <= f <= t[1][-1]]])
            for how in CHANGES + MORE:
                if how in ("nan", "inf", "fill") and ("spline" in kind or kind in ("interpolator", "geo", "slinear")):
                    continue
                for k in (0, 1):
                    gen.append((kind, t, 0, how, k))
                    if how in ("nan", "small", "far"):
                        n, m = len(t[0]), len(t[1])
                        for at in ([0, 0], [n - 1, m - 1], [n // 2, m // 2]):
                            for bad in ("far",) if "spline" in kind or kind in ("interpolator", "geo", "slinear", "basic") else ("nan", "far"):
                                gen.append((kind, t, 0, how, k, [at, bad]))
    for kind in ("interpolator", "geo"):
        for how in ("small", "far"):
            for k in (0, 1):
                gen.append((kind, ([1, 3, 5, 7, 10, 11], [1, 2, 6], [list(range(12)), list(range(8))]), 4, how, k))
                gen.append((kind, ([0, 1, 2, 3, 4, 5], [1, 2, 6], [list((np.arange(12) - 0.5) / 2), list(range(8))]), 6, how, k))
    vii = []
    for fun in ("plain", "direct", "sphere", "antimeridian"):
        for nscans, per, across, factor in itertools.product((1, 2, 3) if deep else (2,), (2, 3, 4), (2, 3, 5) if deep else (2, 4), (1, 2, 4) if deep else (2, 3)):
            for lazy in (0, 1):
                if lazy and (not deep and (per != 3 or factor != 2 or across != 4 or nscans != 2) or deep and (nscans + per + across + factor) % 4):
                    continue  # lazy calls are slow
                for how in CHANGES + (MORE if fun != "direct" else []):
                    for k in (0, 1):
                        if deep or lazy or (nscans + per + across + k) % 2:
                            vii.append((fun, nscans, per, across, factor, lazy, how, k))
                            if how in ("nan", "small") and across > 2 and fun in ("plain", "direct") and not (deep and (lazy or factor != 2)):
                                for at in ([0, 0], [min(per, nscans * per - 1), 1], [nscans * per - 1, across - 1]):
                                    vii.append((fun, nscans, per, across, factor, lazy, how, k, [at, "nan"]))
    ml = [(list(o), dt, how) for d in (1, 2, 3, 4) for o in itertools.product((2, 3, 4) if d < 3 else (2, 3), repeat=d) for dt in ("f8", "f4") for how in CHANGES + MORE]
    ml += [(list(o), "f8", how, [[r, n], "nan"]) for d in (1, 2, 3) for o in itertools.product((2, 3, 4) if d < 3 else (2, 3), repeat=d) for how in ("nan", "small")
           for r in (0, 1) for n in (0, int(np.prod(o)) - 1, int(np.prod(o)) // 2)]
    return [Space("MODIS", modis, run_modis, "every tie point (5 km: all; 1 km: all rows, columns at the edges and the centre; thorough: all), 3 changes, every argument", batch=1),
            Space("generic", gen, run_generic, "13 interpolators of order one, 4 grids, every tie point, 3 changes"),
            Space("VII", vii, run_vii, "1..3 scans, 2..4 x 2..5 tie points, factors, every tie point, 3 changes"),
            Space("multilinear", ml, run_multilinear, "1..4 dimensions, every node of every row, 3 changes; every query point missing")]
