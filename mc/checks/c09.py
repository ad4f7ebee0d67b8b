"""C09: border filling extrapolates linearly inside each chunk and only where needed.

With order one in both dimensions, filling and interpolating is a linear operator known in closed form for every tie and
target grid.  Grids are enumerated chunk by chunk from an alphabet of tie patterns; the operator is compared on every
unit impulse, observed only through the interpolated result.
"""
import itertools

import numpy as np

from geotiepoints.geointerpolator import GeoInterpolator
from geotiepoints.interpolator import Interpolator

from .. import lib
from ..core import Space, Violation
from .c07 import MESHES, mesh

PROPERTY = "C09"
ASSUMPTIONS = [
    "tie patterns per chunk: 2 or 3 tie rows out of a lattice of offsets around the chunk; up to 3 chunks of 1 to 4 rows",
    "every chunk has at least two tie rows (otherwise linear extrapolation is undefined)",
    "orders above one are checked on fields that are linear along the filled dimension",
]
UNITS = [(1.0, 0.0), (0.2, 0.0), (1 / 3.0, -11.0), (7.0, 100.5), (0.001, 0.0)]
NCHUNKS = (1, 2, 3, 4, 5, 7, 8, 9, 11, 16, 17, 20, 31, 32, 33, 50, 64, 65, 101)
FILLS = ["yx", "xy", "y", "x", "yxyx", "xx y"]


def offsets(n):
    if n == 1:
        return [-0.25, -0.125, 0.0, 0.125, 0.25]
    return [-0.25, 0.0, 0.25] + [0.5 * k for k in range(1, 2 * (n - 1))] + [n - 1.0, n - 0.75]


def patterns(n, sizes=(2, 3), thin=1):
    res = []
    for size in sizes:
        for c in itertools.combinations(offsets(n), size):
            if c[0] <= (n - 1) / 2.0 + 0.5:
                res.append(c)
    return res[::thin] if thin > 1 else res


def row_grid(n, chunks, gap):
    """Tie and target positions for a list of chunk patterns."""
    ties, targets = [], []
    for k, p in enumerate(chunks):
        base = k * (n + gap)
        targets += [base + i for i in range(n)]
        ties += [base + o for o in p]
    return np.array(ties), np.array(targets, float)


def operator(ties, targets, chunk, filled):
    if not filled:
        return lib.linear_matrix(ties, targets)
    pos, mat = lib.border_matrix(ties, targets, chunk)
    return lib.linear_matrix(pos, targets) @ mat


def inner(ties):
    """Targets that need no filling."""
    return np.unique(np.concatenate([np.linspace(ties[0], ties[-1], 5), ties]))


def run(case, rec):
    n, chunks, gap, cols, ncols, unit, fill, declared = case
    f, o = UNITS[unit]
    ties, targets = row_grid(n, chunks, gap)
    cties, ctargets = np.array(cols), np.arange(ncols, dtype=float)
    fy, fx = "y" in fill, "x" in fill
    if not fy:
        targets = inner(ties)
    if not fx:
        ctargets = inner(cties)
    ties, targets, cties, ctargets = (a * f + o for a in (ties, targets, cties, ctargets))
    if unit == 0 and all(float(t).is_integer() for t in np.concatenate([ties, targets, cties, ctargets])):
        ties, targets, cties, ctargets = (a.astype(int) for a in (ties, targets, cties, ctargets))
    chunk = n if declared else 0
    rm = operator(ties, targets, n if declared else None, fy)
    cm = operator(cties, ctargets, None, fx)
    shape = (len(ties), len(cties))
    eye = np.eye(shape[0] * shape[1]).reshape((-1,) + shape)
    data = [e.copy() for e in eye]
    interp = Interpolator(data, (ties.copy(), cties.copy()), (targets.copy(), ctargets.copy()), 1, 1, chunk_size=chunk)
    if fill == "xx y":
        interp.fill_borders("x", "x")
        interp.fill_borders("y")
    elif len(fill) == 4:
        interp.fill_borders(*fill[:2])
        interp.fill_borders(*fill[2:])
    else:
        interp.fill_borders(*fill)
    res = interp.interpolate()
    scale = max(1.0, np.abs(rm).max() * np.abs(cm).max())
    for k, (r, e) in enumerate(zip(res, eye)):
        lib.same_values("impulse %d" % k, r, rm @ e @ cm.T, 1e-8, scale)
        rec.state((n, tuple(map(tuple, chunks)), gap, tuple(cols), ncols, unit, fill, declared, k))
        rec.step()
    for d, e in zip(data, eye):
        if not np.array_equal(d, e):
            raise Violation("the given tie-point data were changed")
    rec.trace()
    rec.outcome((round(float(scale), 6), fill))


def run_linear(case, rec):
    """Fields that are linear on the whole grid are reproduced whatever the orders and the chunks."""
    n, chunks, gap, cols, ncols, unit, fill, kx, ky = case
    f, o = UNITS[unit]
    ties, targets = row_grid(n, chunks, gap)
    cties, ctargets = np.array(cols), np.arange(ncols, dtype=float)
    ties, targets, cties, ctargets = (a * f + o for a in (ties, targets, cties, ctargets))
    fields, want = [], []
    for a, b in itertools.product((0, 1), repeat=2):
        fields.append(np.outer(((ties - o) / f) ** a, ((cties - o) / f) ** b))
        want.append(np.outer(((targets - o) / f) ** a, ((ctargets - o) / f) ** b))
    interp = Interpolator(fields, (ties, cties), (targets, ctargets), kx, ky, chunk_size=n)
    interp.fill_borders(*fill)
    for k, (r, w) in enumerate(zip(interp.interpolate(), want)):
        lib.same_values("linear field %d, orders %d, %d" % (k, kx, ky), r, w, 1e-7)
        rec.state((n, tuple(map(tuple, chunks)), gap, unit, fill, kx, ky, k))
        rec.step()
    rec.trace()


#: rows per chunk, tie positions within a chunk
SENSORS = {"MODIS": (10, (2.0, 7.0)), "MODIS 500 m": (20, (4.5, 14.5)), "MODIS 250 m": (40, (9.5, 29.5)), "VIIRS": (16, (3.5, 11.5)), "three": (12, (1.0, 5.5, 10.0)),
           "ends": (6, (0.0, 5.0)), "half inside": (5, (0.0, 3.0)), "beyond": (4, (-0.25, 1.0, 2.75)), "one row": (1, (-0.25, 0.25))}


def run_many(case, rec):
    """Long swaths: many chunks, wide rows, values of every magnitude."""
    name, nchunks, width, step, off, fill, size = case
    n, pattern = SENSORS[name]
    ties, targets = row_grid(n, [pattern] * nchunks, 0)
    cties = off + step * np.arange(width)
    ctargets = np.arange(int(cties[-1]) + 2, dtype=float)
    if "y" not in fill:
        targets = inner(ties)
    if "x" not in fill:
        ctargets = inner(cties)
    y, x = np.arange(len(ties)), np.arange(width)
    data = [np.outer(np.sin(y * 1.7) + 2, np.cos(x * 0.9)) * 50, np.add.outer(y % 7 * 3.0, x % 5 * 1.0), np.full((len(y), width), 3.0), np.zeros((len(y), width))]
    data[0].flat[::37] = -999.0
    data = [d * size for d in data]
    rm = operator(ties, targets, n, "y" in fill)
    cm = operator(cties, ctargets, None, "x" in fill)
    interp = Interpolator([d.copy() for d in data], (ties, cties), (targets, ctargets), 1, 1, chunk_size=n)
    interp.fill_borders(*fill)
    for k, (r, d) in enumerate(zip(interp.interpolate(), data)):
        lib.same_values("field %d, %d chunks" % (k, nchunks), r / size, rm @ d @ cm.T / size, 1e-8, 1e3)
        rec.state((name, nchunks, width, step, off, fill, size, k))
        rec.step()
    rec.trace()


def run_between(case, rec):
    """A tie point exactly between two chunks is used in one of them, whichever."""
    n, count, gap, inside, at, unit = case
    f, o = [(1.0, 0.0), (0.5, 0.0), (8.0, -32.0)][unit]
    ties, targets = row_grid(n, [inside] * count, gap)
    middle = [k * (n + gap) - (gap + 1) / 2.0 for k in at]
    ties = np.sort(np.concatenate([ties, middle])) * f + o
    targets = targets * f + o
    cties = np.array([0.0, 1.0])
    eye = np.eye(len(ties))
    data = [np.outer(e, [1.0, 1.0]) for e in eye]
    interp = Interpolator([d.copy() for d in data], (ties.copy(), cties), (targets.copy(), cties), 1, 1, chunk_size=n)
    interp.fill_borders("y")
    got = np.stack([r[:, 0] for r in interp.interpolate()], axis=1)
    for size in range(len(at) + 1):
        for early in itertools.combinations(at, size):
            pos, mat = lib.border_matrix(ties, targets, n, early)
            if np.allclose(got, lib.linear_matrix(pos, targets) @ mat, rtol=0, atol=1e-8):
                rec.state(tuple(map(str, case)))
                rec.step()
                rec.trace()
                rec.outcome((len(at), early))
                return
    raise Violation("tie rows %s, target rows %s in chunks of %d: the tie points between chunks are not used in exactly one of them" % (ties, targets, n))


def run_types(case, rec):
    """Positions and data of every type; borders to fill on one side, both or none."""
    tdata, ttie, tfine, shift, sides, fill = case
    n, chunks = 4, 3
    inside = {"both": (1, 2), "first": (1, 2, 3), "last": (0, 1, 2), "none": (0, 3)}[sides]
    ties = np.concatenate([np.array(inside) * 8 + 32 * k for k in range(chunks)]) + 16
    targets = np.concatenate([np.arange(n) * 8 + 32 * k for k in range(chunks)]) + 16
    cties = np.array(inside) * 8 + 16
    ctargets = np.arange(n) * 8 + 16
    ties, cties = ties.astype(ttie), cties.astype(ttie)
    targets, ctargets = ((t + (shift if tfine[0] == "f" else int(shift))).astype(tfine) for t in (targets, ctargets))
    y, x = np.arange(len(ties))[:, None], np.arange(len(cties))[None, :]
    top = {"u1": 120, "i1": 60, "u2": 30000, "i2": 16000}.get(tdata, 1000)
    data = [(np.cos(y * 2.1 + k) * np.cos(x * 1.7 + k) * top + (top if tdata[0] == "u" else 0)).astype(tdata) for k in range(2)]
    # what the positions are worth, in double precision
    rp, fp, cp, gp = (a.astype("f8") for a in (ties, targets, cties, ctargets))
    interp = Interpolator([d.copy() for d in data], (ties, cties), (targets, ctargets), 1, 1, chunk_size=n)
    interp.fill_borders(*fill)
    rm, cm = operator(rp, fp, n, "y" in fill), operator(cp, gp, None, "x" in fill)
    for k, (r, d) in enumerate(zip(interp.interpolate(), data)):
        lib.same_values("array %d, %s" % (k, case), r, rm @ d.astype("f8") @ cm.T, 1e-9 if "f4" not in (tdata, ttie, tfine) else 1e-5, top)
        rec.step()
    rec.state(tuple(map(str, case)))
    rec.trace()


def run_sizes(case, rec):
    """Every number of columns, and every number of chunks, up to a bound."""
    what, sides, sizes = case
    for n in range(*sizes):
        if what == "columns":
            ties, fine = np.arange(n) * 5.0 + 2, np.arange(5 * n, dtype=float)
            if sides == "first":
                fine = fine[:-2]
            elif sides == "last":
                fine = fine[2:]
            k = np.arange(n)
            data = np.outer([1.0, 2.0], np.sin(k * 1.3) * 3 + (k % 7))
            interp = Interpolator(data.copy(), (np.arange(2.0), ties), (np.arange(2.0), fine), 1, 1)
            interp.fill_borders("x")
            want = data @ operator(ties, fine, None, True).T
        else:
            per, inside = {"first": (10, (2, 9)), "last": (10, (0, 7)), "both": (10, (2, 7))}[sides]
            ties, fine = row_grid(per, [inside] * n, 0)
            k = np.arange(2 * n)
            data = np.outer(np.sin(k * 1.3) * 3 + (k % 7), [1.0, 2.0])
            interp = Interpolator(data.copy(), (ties, np.arange(2.0)), (fine, np.arange(2.0)), 1, 1, chunk_size=per)
            interp.fill_borders("y")
            want = operator(ties, fine, per, True) @ data
        lib.same_values("%d %s" % (n, what), interp.interpolate()[0], want, 1e-9, 10)
        rec.state((what, sides, n))
        rec.step()
    rec.trace()


def run_geo(case, rec):
    name, n, chunks, cols, ncols, fill, unit = case
    f, o = UNITS[unit]
    ties, targets = row_grid(n, chunks, 0)
    cties, ctargets = np.array(cols), np.arange(ncols, dtype=float)
    lon, lat = mesh(name, len(ties), len(cties))
    g = GeoInterpolator((lon.copy(), lat.copy()), (ties * f + o, cties * f + o), (targets * f + o, ctargets * f + o), 1, 1, chunk_size=n)
    g.fill_borders(*fill)
    got = g.interpolate()
    rm, cm = operator(ties, targets, n, True), operator(cties, ctargets, None, True)
    xyz = lib.R * lib.unit(lon, lat)
    out = np.stack([rm @ xyz[..., k] @ cm.T for k in range(3)], axis=-1)
    if (np.linalg.norm(out, axis=-1) < 0.5 * lib.R).any() or (np.abs(out[..., 2]) > lib.R).any():
        return  # extrapolation left the neighbourhood of the sphere
    lib.same_places("at %s" % name, got[0], got[1], lib.to_lonlat(out), 0.05)
    rec.state(tuple(map(str, case)))
    rec.step()
    rec.trace()
    rec.outcome((name, round(float(np.sum(got[1])), 2)))


def spaces(tier, seed):
    deep = tier == "thorough"
    colpats = {n: patterns(n) for n in (2, 3, 4)}
    cases, linear, geo = [], [], []
    count = 0

    def add(n, chunks, gap):
        nonlocal count
        count += 1
        ncols = 2 + count % 3
        cols = colpats[ncols][(count * 7) % len(colpats[ncols])]
        unit, fill = count % len(UNITS), FILLS[(count // 2) % len(FILLS)]
        cases.append((n, chunks, gap, cols, ncols, unit, fill, True))
        if len(chunks) == 1 and gap == 0:
            cases.append((n, chunks, gap, cols, ncols, (unit + 1) % 5, "yx", False))
            cases.append((n, chunks, gap, cols, ncols, 0, "xy", True))
        kx, ky = [(1, 1), (2, 1), (3, 1), (1, 2), (3, 2), (1, 3), (2, 3), (3, 3)][count % 8]
        if all(c[0] >= 0.5 and c[-1] <= n - 1.5 for c in chunks):
            ky = min(ky, len(cols) - 1)
            linear.append((n, chunks, gap, cols, ncols, unit, ["yx", "xy"][count % 2], kx, ky))
        if gap == 0 and count % (2 if deep else 9) == 0:
            geo.append((sorted(MESHES)[count % len(MESHES)], n, chunks, cols, ncols, ["yx", "xy"][count % 2], unit))

    def ok(n, chunks, gap):
        """Ties increase and belong to their chunk."""
        t = row_grid(n, chunks, gap)[0]
        return (np.diff(t) > 1e-9).all()

    for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
        pats = patterns(n)
        for p in pats:
            for _ in range(6 if deep else 2):
                add(n, [p], 0)
        short = pats if (deep or n < 4) else pats[::2]
        for p, q in itertools.product(short, repeat=2):
            gap = [0, 0, 1.5, 0.5][(count + n) % 4]
            if ok(n, [p, q], gap):
                add(n, [p, q], gap)
        short = pats[::1 if n <= 2 else (2 if deep else 5)] if n < 4 else pats[::3 if deep else 9]
        for trip in itertools.product(short, repeat=3):
            gap = [0, 1.5][count % 2]
            if ok(n, list(trip), gap):
                add(n, list(trip), gap)
    cols = [(2, [(0.0, 1.0)], 0, c, n, u, fill, True) for n in (2, 3, 4, 5) for c in patterns(n, (2, 3, 4))
            for u in range(len(UNITS)) for fill in (FILLS if deep else ("x", "yx"))]
    between = []
    for n, count, gap in itertools.product((2, 3, 4, 5), (2, 3, 4), (0, 1.0, 3.0)):
        for inside in [c for size in (2, 3) for c in itertools.combinations([0.0, 0.25, 0.5, n / 2.0, n - 1.5, n - 1.0, n - 0.75], size) if len(set(c)) == size]:
            if sorted(inside) != list(inside):
                continue
            for size in range(1, count):
                for at in itertools.combinations(range(1, count), size):
                    for unit in range(3) if deep or (n, count) == (4, 2) else ((n + count) % 3,):
                        between.append((n, count, gap, inside, at, unit))
    many = []
    for k, (name, nchunks) in enumerate(itertools.product(sorted(SENSORS), NCHUNKS)):
        for j, (width, step, off) in enumerate(((2, 3.0, 1.0), (5, 5.0, 2.0), (33, 4.0, 0.5), (271, 5.0, 2.0))):
            if width * nchunks > 8000:
                continue
            for fill in ("yx", "xy", "y", "x") if deep or (j + k) % 3 == 0 else ("yx",):
                many.append((name, nchunks, width, step, off, fill, [1.0, -1e-15, 1e15, 7e6][(j + k) % 4]))
    types = [(td, tt, tf, shift, sides, fill) for td in (("f8", "u1", "i1", "u2", "i2", "i4", "f4") if deep else ("f8", "u1", "i2", "f4"))
             for tt in ("f8", "f4", "i8", "i4", "i2", "u1", "u2", "i1") for tf in ("f8", "f4", "i8", "i2", "u1", "i1", "u8")
             for shift in (0.0, 0.5, -0.75, 3.0, -3.0) for sides in ("both", "first", "last", "none") for fill in ("yx", "xy")
             if (fill == "yx" or deep or td == "f8") and (shift == int(shift) or tf[0] == "f")]
    sizes = [(what, sides, (first, min(first + 20, top))) for what, top in (("columns", 1100 if deep else 420), ("chunks", 300 if deep else 120)) for sides in ("both", "first", "last")
             for first in range(2 if what == "columns" else 1, top, 20)]
    return [Space("row borders", cases, run, "chunk patterns of 2..3 ties, 1..3 chunks of 1..%d rows, gaps between chunks, 5 units, fill orders %s" % (5 if deep else 4, FILLS)),
            Space("column borders", cols, run, "column patterns of 2..4 ties, 2..5 columns, 5 units"),
            Space("linear fields", linear, run_linear, "the patterns without tie points near the chunk borders, orders 1..3"),
            Space("many chunks", many, run_many, "chunk layouts %s; up to %d chunks and 271 columns" % (sorted(SENSORS), max(NCHUNKS))),
            Space("between chunks", between, run_between, "tie rows exactly between two chunks of 2..5 rows; 2..4 chunks"),
            Space("types", types, run_types, "data, tie and target positions of 8 types; targets shifted against the tie points; borders to fill on either side"),
            Space("every size", sizes, run_sizes, "every number of tie columns and of chunks up to %d and %d" % ((1099, 299) if deep else (419, 119))),
            Space("geographic", geo, run_geo, "locations x patterns")]
