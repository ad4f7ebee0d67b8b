"""C08: the generic interpolators compute the interpolant of the order asked for.

For a fixed configuration an interpolator is a linear operator on the tie-point data.  It is decided on a basis: in a
dimension of order one on every unit impulse (the piecewise-linear operator is known), in a dimension of order k on every
monomial up to degree k (they must be reproduced).  Superposition is checked on pairs of impulses, independence of several
arrays against single-array calls.  Tie grids are enumerated as subsets of an integer range.
"""
import itertools

import numpy as np

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                                       SingleGridInterpolator, SingleSplineInterpolator)

from .. import lib
from ..core import Space, Violation
from .c07 import MESHES, EXTRA, mesh, subsets

PROPERTY = "C08"
ASSUMPTIONS = [
    "tie positions are subsets of a small integer range (optionally scaled and shifted); targets lie between the tie points",
    "orders 1 to 5; for a dimension of order k > 1 the property fixes polynomials up to degree k, other data only through linearity",
]
#: target positions for ties 0..top
TARGETS = {
    "integers": lambda top: np.arange(top + 1),
    "fractions": lambda top: np.arange(0.25, top, 0.5),
    "fine": lambda top: np.linspace(0, top, 4 * top + 1),
    "uneven": lambda top: np.unique(np.array([0, 0.1, 0.5, 0.75, 1, 1.5, 2.125, 2.5, 3, 3.9]) * top / 4.0),
    "one": lambda top: np.array([top * 0.37]),
}
#: targets derived from the tie positions: as many as these, a quarter or a millionth of a step beside them
BESIDE = {"beside": 0.25, "a hair beside": 1e-6}
UNITS = [(1, 0), (0.2, 0), (3, -7), (0.1, 10.5), (1, 2e6), (1e-3, 0), (1000.0, -3e6)]
#: tie grids (and steps) with as many points as real swaths have
LARGE = [((5, 7), (1, 3)), ((9, 4), (4, 1)), ((33, 9), (2, 5)), ((10, 51), (1, 40)), ((65, 65), (4, 4)), ((2, 257), (9, 5)), ((257, 2), (5, 9)), ((40, 271), (5, 5)),
         ((203, 135), (2, 10)), ((1025, 5), (2, 2)), ((5, 1030), (2, 2)), ((130, 130), (3, 3))]


def rounding(unit):
    """Relative accuracy of positions in this unit."""
    return abs(UNITS[unit][1] / UNITS[unit][0]) * 1e-13


def profiles(ties, targets, order, impulses):
    """Pairs (tie values, expected target values) that the property fixes in one dimension."""
    ties, targets = np.asarray(ties, float), np.asarray(targets, float)
    if order == 1 and impulses:
        m = lib.linear_matrix(ties, targets)
        return [(np.eye(len(ties))[k], m[:, k]) for k in range(len(ties))]
    c, w = ties.mean(), max(1e-9, np.ptp(ties) / 2)
    return [(((ties - c) / w) ** a, ((targets - c) / w) ** a) for a in range(order + 1)]


def basis(rows, trows, kx, cols, tcols, ky):
    for r, tr in profiles(rows, trows, kx, True):
        for c, tc in profiles(cols, tcols, ky, True):
            yield np.outer(r, c), np.outer(tr, tc)


def scaled(case_rows, case_cols, unit, tkind):
    f, o = UNITS[unit]
    ties = tuple(np.array(t) if unit == 0 else np.array(t) * f + o for t in (case_rows, case_cols))
    tops = case_rows[-1], case_cols[-1]
    def target(k, top, tie):
        if k in BESIDE:
            n = np.arange(len(tie))
            return tie + BESIDE[k] * f * np.where(n == len(tie) - 1, -1, np.where(n % 2, -1, 1) if len(tie) > 2 else 1)
        return TARGETS[k](top) if unit == 0 else TARGETS[k](top) * f + o
    targets = tuple(target(k, top, tie) for k, top, tie in zip(tkind, tops, ties))
    # rounding must not push targets out of the tie range, where nothing is promised
    return ties, tuple(np.clip(t, tie[0], tie[-1]) for t, tie in zip(targets, ties))


def run_generic(case, rec):
    rows, cols, kx, ky, unit, tkind, same_rows, dtype = case
    ties, targets = scaled(rows, cols, unit, tkind)
    if same_rows:
        targets = (ties[0].copy(), targets[1])
    pairs = list(basis(ties[0], targets[0], kx, ties[1], targets[1], ky))
    if dtype != "f8":
        pairs = [(np.round(d * 64), None) for d, _ in pairs]
    data = [d.astype(dtype) for d, _ in pairs]
    res = Interpolator([d.copy() for d in data], ties, targets, kx, ky).interpolate()
    if len(res) != len(data):
        raise Violation("%d results for %d arrays" % (len(res), len(data)))
    if dtype != "f8":
        want = Interpolator([d.astype("f8") for d in data], ties, targets, kx, ky).interpolate()
        pairs = [(d, w) for d, w in zip(data, want)]
    for n, (r, (d, e)) in enumerate(zip(res, pairs)):
        lib.same_values("basis field %d of orders %d, %d" % (n, kx, ky), r, e, (2e-9 if dtype in ("f8", "i8") else 1e-5) + rounding(unit))
        rec.state((tuple(rows), tuple(cols), kx, ky, unit, tuple(tkind), same_rows, dtype, n))
        rec.step()
    # single arrays (bare or in a tuple) and superposition
    a, b = data[0], data[-1]
    one = Interpolator(b.copy(), ties, targets, kx, ky).interpolate()
    lib.same_values("the last field on its own", one[0], res[-1], 1e-12)
    if dtype == "f8":
        two = Interpolator((2 * a - 3 * b,), ties, targets, kx, ky).interpolate()
        lib.same_values("superposition", two[0], 2 * res[0] - 3 * res[-1], 1e-9 + rounding(unit))
    rec.step(2)
    rec.trace()
    rec.outcome(tuple(np.round(res[-1].ravel()[:4].astype(float), 6)))


def run_linearity(case, rec):
    """Every impulse and every pair of impulses for orders above one."""
    rows, cols, kx, ky, cls, tkind = case
    ties, targets = scaled(rows, cols, 0, tkind)
    n, m = len(rows), len(cols)
    eye = np.eye(n * m).reshape(n * m, n, m)

    def go(arrs):
        arrs = [np.array(a) for a in arrs]
        if cls == "generic":
            return Interpolator(arrs, ties, targets, kx, ky).interpolate()
        return [np.asarray(r) for r in MultipleSplineInterpolator(ties, *arrs, kx=kx, ky=ky).interpolate(targets)]
    single = go(list(eye))
    pairs = list(itertools.combinations(range(n * m), 2))
    both = go([eye[i] + eye[j] for i, j in pairs])
    for (i, j), r in zip(pairs, both):
        lib.same_values("impulses %d and %d together" % (i, j), r, single[i] + single[j], 1e-9)
        rec.state((tuple(rows), tuple(cols), kx, ky, cls, i, j))
        rec.step()
    lib.same_values("all impulses together", sum(single), np.ones_like(single[0]), 1e-9)
    # separability: the effect of an impulse is the product of its row and column effects
    rowsum = [sum(single[i * m + j] for j in range(m)) for i in range(n)]
    colsum = [sum(single[i * m + j] for i in range(n)) for j in range(m)]
    for i in range(n):
        for j in range(m):
            lib.same_values("impulse %d,%d" % (i, j), single[i * m + j], rowsum[i] * colsum[j], 1e-9)
            rec.step()
    rec.trace()


DEGREE = {"linear": 1, "slinear": 1, "cubic": 3, "quintic": 5, "pchip": 1}


def run_single(case, rec):
    kind, rows, cols, opts, unit, tkind, dtype, chunks = case
    ties, targets = scaled(rows, cols, unit, tkind)
    if kind == "grid":
        cls, many = SingleGridInterpolator, MultipleGridInterpolator
        method = opts.get("method", "linear")
        kx = ky = DEGREE[method]
        exact = method in ("linear", "slinear")
    else:
        cls, many = SingleSplineInterpolator, MultipleSplineInterpolator
        kx, ky = opts.get("kx", 3), opts.get("ky", 3)
        exact = True
    if exact:
        pairs = list(basis(ties[0], targets[0], kx, ties[1], targets[1], ky))
    else:
        pairs = [(np.outer(r, c), np.outer(tr, tc)) for r, tr in profiles(ties[0], targets[0], kx, False)
                 for c, tc in profiles(ties[1], targets[1], ky, False)]
    kw = {} if chunks is None else {"chunks": tuple(chunks) if not isinstance(chunks, int) else chunks}
    opts = dict(opts)
    if kind == "grid" and unit:
        opts.update(EXTRA)   # rounding of scaled positions
    tol = (2e-8 if dtype == "f8" else 2e-5) + rounding(unit)
    if not exact:
        tol = 1e-3  # scipy solves for these splines iteratively
    for n, (d, e) in enumerate(pairs):
        r = cls(ties, d.astype(dtype), **opts).interpolate(targets, **kw)
        lib.same_values("%s %s, basis field %d" % (kind, opts, n), r, e, tol)
        rec.state((kind, tuple(rows), tuple(cols), str(opts), unit, tuple(tkind), dtype, str(chunks), n))
        rec.step()
    res = list(many(ties, *[d.astype(dtype) for d, _ in pairs], **opts).interpolate(targets, **kw))
    if len(res) != len(pairs):
        raise Violation("%d results for %d arrays" % (len(res), len(pairs)))
    for n, (r, (d, e)) in enumerate(zip(res, pairs)):
        lib.same_values("multiple %s %s, basis field %d" % (kind, opts, n), r, e, tol)
        rec.step()
    rec.trace()


def run_int_single(case, rec):
    """Integer tie positions and list positions give what float ones give."""
    kind, rows, cols, k = case
    cls = {"grid": SingleGridInterpolator, "spline": SingleSplineInterpolator}[kind]
    opts = {} if kind == "grid" else {"kx": k, "ky": k}
    d = np.add.outer(np.arange(len(rows)) ** 2.0, np.sin(np.arange(len(cols)) * 1.1) * 4)
    tgt = (np.arange(rows[-1] + 1), np.arange(cols[-1] + 1))
    want = cls((np.array(rows, float), np.array(cols, float)), d.copy(), **opts).interpolate(tgt)
    for what, ties in (("integer", (np.array(rows), np.array(cols))), ("small integer", (np.array(rows, "i2"), np.array(cols, "i2"))),
                       ("list", (list(rows), list(cols)))):
        obj = cls(ties, d.copy(), **opts)
        lib.same_values("%s positions" % what, obj.interpolate(tgt), want, 1e-9)
        lib.same_values("%s positions, lazily" % what, obj.interpolate(tgt, chunks=2), want, 1e-9)
        sl = (slice(1, rows[-1] + 1), slice(0, cols[-1]))
        lib.same_values("slices", obj.interpolate_slices(sl), want[sl], 1e-9)
        rec.step(3)
    rec.state(tuple(map(str, case)))
    rec.trace()


def run_types(case, rec):
    """Several arrays of different types and layouts in one call: each is interpolated as if it were alone."""
    kind, types, rows, cols = case
    ties = np.array(rows, float), np.array(cols, float)
    targets = np.linspace(rows[0], rows[-1], 9), np.linspace(cols[0], cols[-1], 7)
    if kind == "same rows":
        targets = ties[0].copy(), targets[1]
    y, x = np.arange(len(rows))[:, None], np.arange(len(cols))[None, :]
    fields = [(np.sin(y * 1.3 + k) * 90 + np.cos(x * 0.7 + k) * 33.3 + 0.25 * k).astype(t) for k, t in enumerate(types)]
    given = [f.copy(order="CF"[k % 2]) for k, f in enumerate(fields)]
    if kind in ("generic", "same rows", "tuple"):
        got = Interpolator(tuple(given) if kind == "tuple" else given, ties, targets, 1, 1).interpolate()
    elif kind == "grid":
        got = list(MultipleGridInterpolator(ties, *given).interpolate(targets))
    else:
        got = list(MultipleSplineInterpolator(ties, *given, kx=1, ky=1).interpolate(targets))
    if len(got) != len(fields):
        raise Violation("%d arrays given, %d returned" % (len(fields), len(got)))
    rm, cm = (lib.linear_matrix(a, b) for a, b in zip(ties, targets))
    for k, (g, f) in enumerate(zip(got, fields)):
        if types[k].startswith("f") or kind in ("generic", "same rows", "tuple"):
            lib.same_values("%s: array %d of types %s" % (kind, k, types), g, rm @ f.astype(float) @ cm.T, 1e-9 if types[k] != "f4" else 1e-5, 100)
        elif np.abs(np.asarray(g, float) - rm @ f.astype(float) @ cm.T).max() > 1:   # documented type: that of the values
            raise Violation("%s: array %d of types %s is wrong by more than its resolution" % (kind, k, types))
        rec.step()
        rec.state((kind, tuple(types), tuple(rows), tuple(cols), k))
    rec.trace()


def run_sizes(case, rec):
    """Every number of target (or tie) positions up to a bound."""
    kind, what, axis, sizes = case
    for n in range(*sizes):
        if what == "targets":
            long, other = np.array([0.0, 1.0, 3.0, 4.0, 9.0]), np.array([0.0, 2.0, 3.0, 7.0])
            fine = np.linspace(0.0, 9.0, n) if n > 1 else np.array([4.5])
        else:
            long, other = np.arange(n) * 2.0, np.array([0.0, 2.0, 3.0, 7.0])
            fine = np.unique(np.concatenate([long[:3], long[-3:], np.linspace(0, long[-1], 7)]))
        few = np.array([0.0, 2.5, 7.0])
        k = np.arange(len(long))
        data = np.outer(np.sin(k * 1.3) * 3 + (k % 5), [1.0, 2.0, -1.0, 0.5])
        want = lib.linear_matrix(long, fine) @ data @ lib.linear_matrix(other, few).T
        ties, targets = (long, other), (fine, few)
        if axis:
            data, want, ties, targets = data.T.copy(), want.T, ties[::-1], targets[::-1]
        if kind == "generic":
            got = Interpolator(data, ties, targets, 1, 1).interpolate()[0]
        elif kind == "same rows":
            if axis == 0:
                targets = ties[0].copy(), few
                want = data @ lib.linear_matrix(other, few).T
            got = Interpolator(data, ties, targets, 1, 1).interpolate()[0]
        elif kind == "grid":
            got = SingleGridInterpolator(ties, data).interpolate(targets)
        elif kind == "spline":
            got = SingleSplineInterpolator(ties, data, kx=1, ky=1).interpolate(targets)
        else:
            ties = [t.astype(int) for t in ties]
            got = BasicSatelliteInterpolator(ties[1], ties[0], data, data).interpolate()[1]
            want = lib.linear_matrix(ties[0], np.arange(ties[0][-1] + 1)) @ data @ lib.linear_matrix(ties[1], np.arange(ties[1][-1] + 1)).T
        lib.same_values("%s, %d %s in dimension %d" % (kind, n, what, axis), got, want, 1e-9, 10)
        rec.step()
        rec.state((kind, what, axis, n))
    rec.trace()


def run_basic_start(case, rec):
    """Tie points that do not begin at zero: the result has the shape of the target grid; from the first tie point on it is interpolated."""
    rows, cols = case
    lat = np.add.outer(np.arange(len(rows)) ** 2.0, np.arange(len(cols)) * 3.0) + 1
    lon = lat[::-1] * 2.0
    got = BasicSatelliteInterpolator(np.array(cols), np.array(rows), lat.copy(), lon.copy()).interpolate()
    rm = lib.linear_matrix(rows, np.arange(rows[0], rows[-1] + 1))
    cm = lib.linear_matrix(cols, np.arange(cols[0], cols[-1] + 1))
    for g, d in zip(got, (lat, lon)):
        g = np.asarray(g)
        if g.shape != (rows[-1] + 1, cols[-1] + 1):
            raise Violation("shape %s for tie rows %s and columns %s" % (g.shape, rows, cols))
        lib.same_values("tie rows %s, columns %s" % (rows, cols), g[rows[0]:, cols[0]:], rm @ d @ cm.T, 1e-9)
        rec.step()
    rec.state((tuple(rows), tuple(cols)))
    rec.trace()


def run_basic(case, rec):
    rows, cols = case
    n, m = len(rows), len(cols)
    rm = lib.linear_matrix(rows, np.arange(rows[-1] + 1))
    cm = lib.linear_matrix(cols, np.arange(cols[-1] + 1))
    for k in range(n * m):
        lat, lon = np.zeros((n, m)), np.add.outer(np.arange(n) * 0.5, np.arange(m) ** 2.0)
        lat.flat[k] = 1
        glat, glon = BasicSatelliteInterpolator(np.array(cols), np.array(rows), lat.copy(), lon.copy()).interpolate()
        lib.same_values("latitude impulse %d" % k, glat, rm @ lat @ cm.T, 1e-9)
        lib.same_values("longitude", glon, rm @ lon @ cm.T, 1e-9)
        rec.state((tuple(rows), tuple(cols), k))
        rec.step(2)
    rec.trace()


def run_large(case, rec):
    """As many tie points and targets as real swaths have; values of every magnitude, also ones that look like fill values."""
    kind, shape, step, kx, ky, size, dtype = case
    n, m = shape
    ties = np.arange(n) * float(step[0]), np.arange(m) * float(step[1])
    targets = np.linspace(0, ties[0][-1], (n - 1) * step[0] + 1), np.linspace(0, ties[1][-1], (m - 1) * step[1] + 1)
    if kx == ky == 1:
        data = np.add.outer(np.sin(np.arange(n) * 1.7) * 3, np.cos(np.arange(m) * 0.9)) * np.add.outer(np.arange(n) % 7, np.arange(m) % 5)
        data.flat[::37] = size and -999.0 / size
        data.flat[::61] = 0.0
        want = lib.linear_matrix(ties[0], targets[0]) @ data @ lib.linear_matrix(ties[1], targets[1]).T
    else:
        t, g = ([2 * a / a[-1] - 1 for a in p] for p in (ties, targets))
        data = np.outer(t[0] ** kx - 0.3, t[1] ** ky + 0.2 * t[1])
        want = np.outer(g[0] ** kx - 0.3, g[1] ** ky + 0.2 * g[1])
    data, want = (data * size).astype(dtype), want * size
    given = data.copy()

    def same(what, got, want):
        lib.same_values(what, np.asarray(got, "f8") / (size or 1.0), want / (size or 1.0), (1e-7 if dtype == "f8" else 1e-3) if size else 0.0)
    if kind == "generic":
        got = Interpolator([given], ties, targets, kx, ky).interpolate()[0]
    elif kind == "same rows":
        got = Interpolator([given], ties, (ties[0], targets[1]), kx, ky).interpolate()[0]
        want = want[::step[0]]
    elif kind == "basic":
        got, other = BasicSatelliteInterpolator(ties[1].astype(int), ties[0].astype(int), given, given[::-1].copy()).interpolate()
        same("longitude", other, want[::-1])
    elif kind == "grid":
        got = SingleGridInterpolator(ties, given).interpolate(targets)
    else:
        got = SingleSplineInterpolator(ties, given, kx=kx, ky=ky).interpolate(targets)
    same("%s, %dx%d tie points" % (kind, n, m), got, want)
    rec.state(tuple(map(str, case)))
    rec.step()
    rec.trace()


def run_geo(case, rec):
    """Geographic interpolators interpolate the Cartesian coordinates with the orders asked for."""
    kind, name, rows, cols, kx, ky, tkind = case
    lon, lat = mesh(name, len(rows), len(cols))
    ties, targets = scaled(rows, cols, 0, tkind)
    if kind == "generic":
        got = GeoInterpolator((lon.copy(), lat.copy()), ties, targets, kx, ky).interpolate()
    elif kind == "grid":
        got = GeoGridInterpolator(ties, lon.copy(), lat.copy()).interpolate(targets)
    elif kind == "lazy spline":
        got = GeoSplineInterpolator(ties, lon.copy(), lat.copy(), kx=kx, ky=ky).interpolate(targets, chunks=(2, 100))
    else:
        got = GeoSplineInterpolator(ties, lon.copy(), lat.copy(), kx=kx, ky=ky).interpolate(targets)
    xyz = lib.R * lib.unit(lon, lat)
    # what the (independently decided) Cartesian interpolator gives
    if kind == "grid" or kx == ky == 1:
        rm, cm = lib.linear_matrix(ties[0], targets[0]), lib.linear_matrix(ties[1], targets[1])
        out = [rm @ xyz[..., k] @ cm.T for k in range(3)]
    else:
        out = Interpolator([xyz[..., k].copy() for k in range(3)], ties, targets, kx, ky).interpolate()
    ref = lib.to_lonlat(np.stack(out, axis=-1))
    lib.same_places("%s at %s" % (kind, name), np.asarray(got[0]), np.asarray(got[1]), ref, 0.05)
    rec.state(tuple(map(str, case)))
    rec.step()
    rec.trace()
    rec.outcome((name, round(float(np.sum(np.asarray(got[1]))), 2)))


def spaces(tier, seed):
    deep = tier == "thorough"
    top = 6 if deep else 5
    kinds = list(TARGETS)
    generic, linear = [], []
    for kx, ky in itertools.product((1, 2, 3, 4, 5), repeat=2):
        for rows in subsets(top, kx + 1, max(kx + 2, 4)):
            for cols in subsets(top, ky + 1, max(ky + 2, 4)):
                n = sum(rows) + 2 * sum(cols) + kx + 3 * ky
                if not deep and len(rows) + len(cols) > 9 and n % 3:
                    continue
                for t in (range(len(kinds)) if deep else (n % 5, (n // 5 + 2) % 5)):
                    generic.append((rows, cols, kx, ky, n % len(UNITS) if t % 2 else 0, (kinds[t], kinds[(t + n) % 5]), False, "f8"))
                if kx == 1 or deep:
                    generic.append((rows, cols, kx, ky, n % len(UNITS), ("fine", kinds[n % 5]), True, "f8"))
                if len(rows) + len(cols) < 9 or deep:
                    for u in (range(len(UNITS)) if deep or kx == 1 else (n % len(UNITS), 4)):
                        generic.append((rows, cols, kx, ky, u, ("beside", ("beside", "fine")[n % 2]), False, "f8"))
                    generic.append((rows, cols, kx, ky, n % 4, ("a hair beside", ("a hair beside", "fine")[n % 2]), False, "f8"))
                if n % 4 == 0:
                    generic.append((rows, cols, kx, ky, 0, ("fine", "uneven"), False, "i8"))
                    generic.append((rows, cols, kx, ky, 0, ("fine", "uneven"), True, "i2"))
                    generic.append((rows, cols, kx, ky, 0, ("fine", "uneven"), n % 8 == 0, "f4"))
                if (deep or n % 3 == 0) and len(rows) + len(cols) < 10:
                    linear.append((rows, cols, kx, ky, "generic", ("uneven", "fractions")))
                    if n % 2 == 0:
                        linear.append((rows, cols, kx, ky, "spline", ("fractions", "uneven")))
    res = [Space("generic", generic, run_generic, "tie rows and columns: subsets of 0..%d with both ends; orders 1..5 each; target kinds %s; units %s; "
                 "dtypes f8, f4, i8, i2; coinciding rows" % (top, kinds, UNITS)),
           Space("linearity", linear, run_linearity, "every pair of unit impulses")]
    single = []
    for rows, cols in itertools.product(list(subsets(5, 2, 6)), repeat=2):
        n = sum(rows) * 3 + sum(cols) * 5 + len(rows)
        chunk = [None, 2, (1, 100), -1, None][n % 5]
        for method in ("linear", "slinear", "cubic", "quintic", "pchip"):
            if min(len(rows), len(cols)) <= {"cubic": 3, "quintic": 5, "pchip": 3}.get(method, 1):
                continue
            if deep or (n + len(method)) % 4 == 0:
                single.append(("grid", rows, cols, {"method": method} if method != "linear" else {}, n % len(UNITS), (kinds[n % 5], kinds[(n // 5) % 5]),
                               "f8" if n % 3 else "f4", chunk))
        for kx, ky in itertools.product((1, 2, 3, 4, 5), repeat=2):
            if len(rows) > kx and len(cols) > ky and (deep or (n + kx + 2 * ky) % 6 == 0):
                opts = {} if kx == ky == 3 and n % 2 else {"kx": kx, "ky": ky}
                single.append(("spline", rows, cols, opts, n % len(UNITS), (kinds[n % 5], kinds[(n // 5) % 5]), "f8" if n % 3 else "f4", chunk))
    res.append(Space("grid and spline", single, run_single, "tie subsets of 0..5; methods linear, slinear, cubic, quintic, pchip; orders 1..5; eager and lazy"))
    ints = [(kind, rows, cols, k) for kind in ("grid", "spline") for rows in subsets(4, 2, 5) for cols in subsets(4, 2, 5)
            for k in ((1,) if kind == "grid" else (1, 2, 3)) if kind == "grid" or min(len(rows), len(cols)) > k]
    res.append(Space("integer positions", ints, run_int_single, "tie subsets of 0..4 as float, int64, int16 arrays and lists"))
    res.append(Space("basic", list(itertools.product(subsets(6 if deep else 5, 2, 6), repeat=2)), run_basic, "every subset of 0..%d with both ends, every impulse" % (6 if deep else 5)))
    late = [c for n in (2, 3, 4) for c in itertools.combinations(range(6), n)]
    res.append(Space("basic, later start", [(a, b) for a in late for b in late if a[0] or b[0]], run_basic_start, "every subset of 0..5 of 2 to 4 positions"))
    types = [(kind, list(t), rows, cols) for kind in ("generic", "same rows", "tuple", "grid", "spline") for n in (2, 3)
             for t in itertools.product(("f8", "f4", "i4", "i2", "u1") if n == 2 else ("f8", "f4", "i4"), repeat=n)
             for rows, cols in (((0, 1, 3, 4), (0, 2, 3)), ((0, 4), (0, 1, 2, 3, 9)))]
    res.append(Space("types", types, run_types, "2 and 3 arrays of different types and layouts in one call"))
    top = 2600 if deep else 1400
    sizes = [(kind, what, axis, (first, min(first + 50, top))) for kind in ("generic", "same rows", "grid", "spline", "basic") for what in ("targets", "ties") for axis in (0, 1)
             for first in range(2 if what == "ties" else 1, top, 50) if (kind != "basic" or what == "ties" and first < (800 if deep else 400)) and (kind != "same rows" or what == "ties")]
    res.append(Space("every size", sizes, run_sizes, "every number of target positions and of tie positions up to %d, in each dimension" % top))
    large = []
    for shape, step in LARGE if not deep else LARGE + [((400, 300), (3, 4)), ((2, 5000), (3, 2)), ((5000, 2), (2, 3))]:
        for kind, (kx, ky) in itertools.product(("generic", "same rows", "basic", "grid", "spline"), ((1, 1), (1, 3), (3, 1), (3, 3))):
            if (kind in ("basic", "grid") and kx + ky > 2) or shape[0] <= kx or shape[1] <= ky:
                continue
            for k, size in enumerate((1.0, 0.0, -1e-20, 1e6, 1e25, 333.25)):
                if deep or k == 0 or shape[0] * shape[1] < 400:
                    large.append((kind, shape, step, kx, ky, size, "f8"))
            if kind != "generic":
                large.append((kind, shape, step, kx, ky, 1.0, "f4"))
    res.append(Space("large", large, run_large, "tie grids %s" % [l[0] for l in LARGE]))
    geo = []
    sizes = [(0, 1), (0, 3), (0, 2, 5), (0, 1, 2, 3), (0, 1, 3, 4), (0, 2, 3, 7, 8)]
    for name in MESHES:
        for rows, cols in itertools.product(sizes, repeat=2):
            for kx, ky in itertools.product((1, 2, 3), repeat=2):
                if len(rows) > kx and len(cols) > ky:
                    n = len(rows) + kx + 2 * ky + len(name)
                    for kind in ("generic", "spline", "lazy spline"):
                        geo.append((kind, name, rows, cols, kx, ky, (kinds[n % 5], kinds[(n + 1) % 5])))
                    if kx == ky == 1:
                        geo.append(("grid", name, rows, cols, kx, ky, (kinds[n % 5], kinds[(n + 1) % 5])))
    res.append(Space("geographic", geo, run_geo, "locations x tie grids x orders 1..3 x class"))
    return res
