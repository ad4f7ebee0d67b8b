"""C01: each MODIS scan is interpolated from its own tie points only.

Alphabet: scans (one instrument scan of tie points each); a word is a swath.  The system explored is the scan loop of each
conversion: its state after a prefix is whatever the call carries from scan to scan.  Every word up to the bound is
interpolated in one call and each scan of the result compared with that scan interpolated on its own.
"""
import functools

import numpy as np

from .. import api, lib
from ..core import Space, in_child

PROPERTY = "C01"
ASSUMPTIONS = [
    "scan contents are taken from an alphabet of real-geometry scans (equator, antimeridian, both poles, mid-latitude) and scans "
    "with missing values; contents outside the alphabet are not explored",
    "reference: the same conversion called on the scan alone (its absolute correctness is C15, C16, C21)",
    "missing values only for the angle-based and lon/lat-only conversions (the spline-based ones are documented to be global)",
]
FULL = ["equator", "antimeridian", "north", "mid", "south"]
MISSING = ["nan1", "nanall"]


@functools.lru_cache(None)
def scan(conv, symbol, dtype, width):
    place = {"nan1": "mid", "nanall": "equator", "twist": "greenwich"}.get(symbol, symbol)
    args = api.tie_data(conv, place, 1, dtype, width)
    if symbol == "nan1":
        for a in args:
            a[a.shape[0] // 2, a.shape[1] // 2] = np.nan
    if symbol == "nanall":
        for a in args:
            a[:] = np.nan
    return args


@functools.lru_cache(None)
def alone(conv, symbol, dtype, width):
    return api.call(conv, [a.copy() for a in scan(conv, symbol, dtype, width)])


def _check(conv, dtype, width, word, rec):
    scans = [scan(conv, s, dtype, width) for s in word]
    args = [np.concatenate([s[k] for s in scans]) for k in range(len(scans[0]))]
    lon, lat = api.call(conv, args)
    frows = api.CONV[conv][2]
    if lon.shape[0] != frows * len(word) or lat.shape != lon.shape:
        raise lib.Violation("%d scans give shapes %s and %s" % (len(word), lon.shape, lat.shape))
    tol = 1e-3 if dtype == "f8" else 1.0
    for k, s in enumerate(word):
        rec.state((conv, dtype, width, tuple(word[:k + 1])))
        rec.step()
        part = slice(k * frows, (k + 1) * frows)
        lib.same_places("scan %d (%s) of %s" % (k, s, _short(word)), lon[part], lat[part], alone(conv, s, dtype, width), tol)
    rec.trace()
    rec.outcome((conv, width, round(float(np.nansum(lon[::7, ::13])), 3)))


def _short(word):
    return ",".join(word) if len(word) < 9 else "%s... (%d scans)" % (",".join(word[:6]), len(word))


def run_word(case, rec):
    conv, dtype, width, word = case
    _check(conv, dtype, width, word, rec)


def run_long(case, rec):
    conv, dtype, width, base, count, odd = case
    word = [base[k % len(base)] for k in range(count)]
    if odd is not None:
        word[odd[0]] = odd[1]
    _check(conv, dtype, width, word, rec)


# ---------------------------------------------------------------- scans that hardly differ

def _call(conv, args):
    return [np.asarray(x) for x in api.call(conv, args)]


def run_near(case, rec):
    """The swaths A A', A' A and A A' A of scans that differ in one place, or agree in some places only."""
    conv, dtype, width, name = case
    frows = api.CONV[conv][2]
    a = api.tie_data(conv, "mid", 1, dtype, width)
    b = lib.near(a, name)
    # every scan on its own, in processes that have seen nothing else
    want = [in_child(_call, conv, [x.copy() for x in s]) for s in (a, b)]
    tol = 1e-3 if dtype == "f8" else 1.0
    for word in ((0, 1), (1, 0)) + (((0, 1, 0),) if width and width < 10 else ()):
        args = [np.concatenate([(a, b)[w][k] for w in word]) for k in range(len(a))]
        lon, lat = _call(conv, args)
        for k, w in enumerate(word):
            part = slice(k * frows, (k + 1) * frows)
            lib.same_places("scan %d of the scans %s that differ by %s" % (k, word, name), lon[part], lat[part], want[w], tol)
            rec.state((conv, dtype, width, str(name), word[:k + 1]))
            rec.step()
        rec.trace()
    rec.outcome(round(float(np.nansum(want[1][0])), 6))


def some_positions(a):
    n, m = a.shape
    return [(i, j) for i in sorted({0, n // 2, n - 1}) for j in sorted({0, 1, m // 2, m - 2, m - 1})]


def near_cases(deep):
    res = []
    for conv, spec in api.CONV.items():
        family = spec[4]
        if family == "simple":
            widths = (2, 3, 4, 5, 7) if deep else (2, 3, 5)
        elif family == "legacy":
            continue
        else:
            widths = (271, 270) if spec[1] == 2 else (None,)
        for w in widths:
            args = api.tie_data(conv, "mid", 1, "f8", w)
            names = lib.near_names(args, None if family == "simple" else some_positions)
            if not deep and "250m" in conv and family != "simple":
                names = [n for n in names if n[0] != "one" or n[2][1] in (1, args[0].shape[1] - 1)]
            if not deep and w == 270:
                names = [n for n in names if n[0] != "one"]
            res += [(conv, "f8", w, n) for n in lib.tiny_names(args)]
            res += [(conv, dt, w, n) for n in names for dt in (("f8", "f4") if deep or family == "simple" and w == 3 else ("f8",))]
    return res


def spaces(tier, seed):
    deep = tier == "thorough"
    res = []
    narrow = [("simple_1km_to_500m", 5), ("simple_1km_to_250m", 5), ("simple_1km_to_500m", 2), ("simple_1km_to_250m", 2)]
    n = 5 if deep else 4
    alpha = FULL + MISSING if deep else ["equator", "antimeridian", "north", "nan1", "nanall"]
    res.append(Space("narrow lon/lat-only swaths",
                     [(c, dt, w, list(x)) for c, w in narrow for dt in ("f8", "f4") for x in lib.words(alpha, n)],
                     run_word, "every word of up to %d scans over %s" % (n, alpha)))
    wide = [("angle_1km_to_500m", None), ("angle_1km_to_250m", None)] \
        + [("angle_5km_to_" + f, w) for f in ("1km", "500m", "250m") for w in (271, 270)] \
        + [("simple_1km_to_500m", None), ("simple_1km_to_250m", None)]
    cheap = [(c, w) for c, w in wide if "5km_to_1km" in c]
    n = 3 if deep else 2
    alpha = ["equator", "antimeridian", "north", "nan1", "nanall"]
    res.append(Space("full-width swaths", [(c, dt, w, list(x)) for c, w in wide for dt in ("f8", "f4")
                                           for x in lib.words(alpha, n)], run_word, "every word of up to %d scans over %s" % (n, alpha)))
    n = 4 if deep else 3
    res.append(Space("full-width 5 km swaths", [(c, dt, w, list(x)) for c, w in cheap for dt in ("f8", "f4")
                                                for x in lib.words(alpha, n, 3)], run_word, "every word of up to %d scans over %s" % (n, alpha)))
    legacy = ["modis5kmto1km", "modis1kmto500m", "modis1kmto250m", "generic_modis5kmto1km"]
    n = 3 if deep else 2
    res.append(Space("spline-based swaths", [(c, "f8", None, list(x)) for c in legacy for x in lib.words(FULL[:4], n)]
                     + [(c, "f8", None, list(x)) for c in legacy if "5km" in c for x in lib.words(FULL[:3], n + 1, n + 1)],
                     run_word, "every word of up to %d (5 km: %d) scans over %s" % (n, n + 1, FULL[:4])))
    long = []
    for c, w in narrow + wide + [(c, None) for c in legacy]:
        light = (c, w) in narrow or "5km" in c and "250" not in c
        top = (60 if light else 24) if deep else (33 if light else 9)
        for count in range(3, top):
            if not light and not deep and count % 3:
                continue
            long.append((c, "f8", w, ["equator", "antimeridian", "north"], count, None))
        # one odd scan at every position of a uniform swath
        count = (24 if light else 8) if deep else (12 if light else 4)
        sym = "north" if c in legacy else "nanall"
        for p in range(count):
            long.append((c, "f8", w, ["mid"], count, [p, sym]))
    res.append(Space("long swaths", long, run_long, "every number of scans up to 33 (narrow, 5 km) or 9; one odd scan at every position"))
    res.append(Space("scans that hardly differ", near_cases(deep), run_near,
                     "scans A, B that differ in one tie point of one argument (every one for narrow swaths), or agree in one row, column, "
                     "border, interior or every other element only, or differ by 1e-4 or 1e-6 degrees only: A B, B A, A B A", fresh=True))
    granule = [(c, "f8", w, ["equator", "antimeridian", "north"], n, None) for c, w in narrow + cheap for n in (64, 128, 204, 257, 406)]
    granule += [(c, "f4", w, ["equator", "antimeridian", "north"], 203, None) for c, w in narrow + wide
               if deep or "250" not in c or (c, w) in narrow]
    res.append(Space("whole granules", granule, run_long, "203 scans; narrow and 5 km also 64, 128, 204, 257, 406", batch=1))
    return res
