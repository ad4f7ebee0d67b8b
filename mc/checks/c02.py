"""C02: chunked or labelled MODIS input gives the same result as plain arrays.

The explored space is the set of chunkings (sets of cuts of rows and columns, per argument) and containers.  For every
element the announced shape, chunks, dtype and dimensions are compared with every computed block, and the values with the
plain-array result.
"""
import functools
import itertools

import dask
import dask.array as da
import numpy as np
import xarray as xr

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C02"
ASSUMPTIONS = [
    "tie-point contents: one multi-scan swath per conversion, every scan different, crossing the antimeridian",
    "chunkings: all with up to the stated number of row cuts; 5 km input: all 2^7 row chunkings of four scans",
    "reference: the same conversion on plain in-memory arrays (its correctness is C01, C15, C16)",
]
DIMS = {"yx": ("y", "x"), "xy": ("x", "y"), "odd": ("rows 1", "pixel")}


@functools.lru_cache(None)
def data(conv, scans, width, dtype):
    args = api.tie_data(conv, "antimeridian", scans, dtype, width)
    plain = api.call(conv, [a.copy() for a in args])
    return args, plain


def wrap(arr, kind, chunks):
    """kind: n(umpy) d(ask) xn xd."""
    if "d" in kind:
        if chunks is None:
            arr = da.from_array(arr, chunks=-1)
        else:
            arr = da.from_array(arr, chunks=tuple(tuple(c) if not isinstance(c, int) else c for c in chunks))
    if "x" in kind:
        arr = xr.DataArray(arr, dims=DIMS["yx" if kind.endswith("x") is False else "yx"])
    return arr


def _check(what, conv, args, plain, dtype, rec, dims=None):
    res = api.CONV[conv][0](*args)
    if len(res) != 2:
        raise Violation("%s: %d results" % (what, len(res)))
    values = []
    for r, p, name in zip(res, plain, ("longitude", "latitude")):
        if dims is not None:
            if tuple(getattr(r, "dims", ())) != dims:
                raise Violation("%s: %s has dimensions %s instead of %s" % (what, name, getattr(r, "dims", None), dims))
        if r.shape != p.shape:
            raise Violation("%s: announces %s of shape %s, expected %s" % (what, name, r.shape, p.shape))
        if r.dtype != p.dtype:
            raise Violation("%s: announces %s of dtype %s, expected %s" % (what, name, r.dtype, p.dtype))
    for r, name in zip(res, ("longitude", "latitude")):
        arr = r.data if hasattr(r, "dims") else r
        if isinstance(arr, da.Array):
            blocks = arr.to_delayed()
            flat = dask.compute(*blocks.ravel().tolist(), scheduler="synchronous")
            it = iter(flat)
            rows = []
            for i in range(blocks.shape[0]):
                row = []
                for j in range(blocks.shape[1]):
                    b = next(it)
                    if b.shape != (arr.chunks[0][i], arr.chunks[1][j]):
                        raise Violation("%s: block %s of %s announced as %s is %s" % (
                            what, (i, j), name, (arr.chunks[0][i], arr.chunks[1][j]), b.shape))
                    if b.dtype != arr.dtype:
                        raise Violation("%s: block %s of %s announced as %s is %s" % (what, (i, j), name, arr.dtype, b.dtype))
                    row.append(b)
                rows.append(np.concatenate(row, axis=1))
                rec.step()
            values.append(np.concatenate(rows))
            rec.outcome((conv, arr.chunks))
        else:
            rec.step()
            values.append(np.asarray(arr))
    lib.same_places(what, values[0], values[1], plain, 1e-3 if dtype == "f8" else 1.0)
    rec.trace()
    rec.state((conv, what))


def run_chunks(case, rec):
    conv, scans, width, dtype, chunks, kind = case
    args, plain = data(conv, scans, width, dtype)
    chunks = [chunks[min(k, len(chunks) - 1)] for k in range(len(args))]
    wrapped = [wrap(a.copy(), kind, c) for a, c in zip(args, chunks)]
    _check("%s %dx%d %s chunks %s" % (conv, *args[0].shape, dtype, chunks), conv, wrapped, plain, dtype, rec,
           ("y", "x") if "x" in kind else None)


def run_kinds(case, rec):
    conv, scans, width, dtype, kinds, dims, extra = case
    args, plain = data(conv, scans, width, dtype)
    rows = args[0].shape[0]
    wrapped = []
    for k, (a, kind) in enumerate(zip(args, kinds)):
        a = a.copy()
        if "d" in kind:
            a = da.from_array(a, chunks=(max(1, rows // (k + 1)), -1))
        if "x" in kind:
            a = xr.DataArray(a, dims=DIMS[dims])
            if extra:
                # labels describe the pixels, they take no part in the interpolation
                ydim, xdim = DIMS[dims]
                labels = {"shared": 0, "shifted": 5 * k, "disjoint": 1000 * k}[extra.split()[0]]
                yy, xx = np.arange(a.shape[0]) + labels, np.arange(a.shape[1]) + labels
                if "descending" in extra:
                    yy, xx = yy[::-1], xx[::-1]
                a = a.assign_coords({ydim: yy, xdim: xx, "when": (ydim, yy * 2.0), "scalar": 3.5})
                a.attrs.update(units="degrees_east", _FillValue=-999.0, scale_factor=0.5, add_offset=k)
                a.name = ["longitude", "latitude", "satellite_zenith"][k]
        wrapped.append(a)
    _check("%s %s %s %s %s" % (conv, dtype, kinds, dims, extra), conv, wrapped, plain, dtype, rec,
           DIMS[dims] if "x" in kinds[0] else None)


def cuts(n, maxcuts, step=1):
    pos = range(step, n, step)
    for m in range(maxcuts + 1):
        for c in itertools.combinations(pos, m):
            edges = (0,) + c + (n,)
            yield [edges[k + 1] - edges[k] for k in range(len(edges) - 1)]


def spaces(tier, seed):
    deep = tier == "thorough"
    res = []
    simple = ["simple_1km_to_500m", "simple_1km_to_250m"]
    cases = []
    for conv in simple:
        for rows in cuts(20, 3 if deep else 2):
            for cols in ([4], [1, 3], [2, 2], [3, 1], [1, 1, 1, 1]) if deep else ([4], [2, 2]):
                cases.append((conv, 2, 4, "f8", [[rows, cols]], "d"))
        for rows in lib.compositions(8):
            cases.append((conv, 4, 3, "f4", [[[5 * r for r in rows], [3]]], "xd"))
        for cols in lib.compositions(6):
            for rows in ([20], [10, 10], [13, 7]):
                cases.append((conv, 2, 6, "f8", [[rows, list(cols)]], "d"))
        for rows in ([0, 20], [20, 0], [10, 0, 10], [5, 0, 0, 15], [0, 10, 10, 0]):
            for cols in ([4], [0, 4], [2, 0, 2]):
                cases.append((conv, 2, 4, "f8", [[rows, cols]], "d"))
        for n in range(1, 10):  # number of scans, chunk size larger, smaller, not dividing
            for size in (1, 4, 10, 11, 15, 20, 25, 30, 70, 100):
                cases.append((conv, n, 3, "f4", [[size, 2]], "d"))
    res.append(Space("row and column cuts (lon/lat only)", cases, run_chunks,
                     "20 rows: all splits with up to %d cuts; 40 rows: all splits in multiples of 5; all splits of 6 columns; "
                     "1..9 scans with 10 uniform chunk sizes" % (3 if deep else 2)))
    cases = []
    for conv in simple:
        one = list(cuts(20, 1))
        for a, b in itertools.product(one, one):
            cases.append((conv, 2, 3, "f8", [[a, [3]], [b, [3] if (len(a) + len(b)) % 2 else [1, 2]]], "d"))
    few = [[8], [2, 2, 2, 2], [4, 4], [3, 5], [1] * 8, [6, 2], [7, 1]]
    for conv in ["angle_5km_to_1km"] + (["angle_5km_to_500m"] if deep else []):
        for a, b, c in itertools.product(few, few, few):
            if deep or len({str(a), str(b), str(c)}) > 1:
                cases.append((conv, 4, 271, "f8", [[a, [271]], [b, [271]], [c, [271] if a != b else [100, 171]]], "d"))
    res.append(Space("arguments chunked differently", cases, run_chunks,
                     "20 rows: every pair of splits with at most one cut; 8 rows of 5 km input: every triple of %d splits" % len(few)))
    cases = []
    for conv in ("angle_5km_to_1km", "angle_5km_to_500m", "angle_5km_to_250m"):
        for width in (271, 270):
            for rows in lib.compositions(8):
                if conv.endswith("_1km") or deep or len(rows) in (2, 3, 8):
                    cases.append((conv, 4, width, "f8" if width == 271 else "f4", [[list(rows), [width]]], "d"))
                    if conv.endswith("_1km"):
                        cases.append((conv, 4, width, "f8", [[list(rows), [width - 100, 99, 1]]], "xd"))
    res.append(Space("5 km chunkings", cases, run_chunks, "all 128 row splits of four 5 km scans (5 to 1 km; fewer for finer output), split columns"))
    cases = []
    for conv in ("angle_1km_to_500m", "angle_1km_to_250m", "simple_1km_to_500m", "simple_1km_to_250m"):
        for rows in cuts(30, 2 if deep else 1):
            cases.append((conv, 3, None, "f4", [[rows, [1354]]], "d"))
        for rows in ([10, 20], [20, 10], [10, 10, 10], [1] * 30, [5, 10, 15]):
            for cols in ([1354], [677, 677], [1, 1353], [1353, 1]):
                cases.append((conv, 3, None, "f8", [[rows, cols]], "xd"))
    res.append(Space("1 km full-width chunkings", cases, run_chunks, "30 rows: all splits with up to %d cuts, split columns" % (2 if deep else 1)))
    cases = []
    for conv in ("simple_1km_to_500m", "simple_1km_to_250m", "angle_5km_to_1km", "angle_5km_to_500m", "angle_5km_to_250m",
                 "angle_1km_to_500m", "angle_1km_to_250m"):
        nargs = api.CONV[conv][3]
        kinds = list(itertools.product(("n", "d", "xn", "xd"), repeat=nargs))
        for kk in kinds:
            for dims in ("yx", "xy", "odd"):
                if dims != "yx" and not ("x" in kk[0] and len(set(kk)) == 1):
                    continue
                for dtype in ("f8", "f4"):
                    if len(set(kk)) == 1 or dtype == "f8":
                        cases.append((conv, 2, 4 if "simple" in conv else None, dtype, list(kk), dims, ""))
                        if set(kk) <= {"xn", "xd"} and (deep or len(set(kk)) == 1 and dtype == "f8"):
                            for extra in ("shared", "shifted", "disjoint", "shared descending", "shifted descending"):
                                cases.append((conv, 2, 4 if "simple" in conv else None, dtype, list(kk), dims, extra))
    res.append(Space("containers", cases, run_kinds, "every combination of plain, dask, labelled in-memory and labelled dask arguments; equal, "
                     "overlapping and disjoint coordinate labels, attributes"))
    return res
