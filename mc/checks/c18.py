"""C18: results depend on input values only, and inputs are left untouched.

Every function is called with every memory layout of its arguments.  For each call: the result equals that for plain C
arrays and has the input's precision, every byte of the memory behind the arguments (also between strided elements) is as
before, results share memory neither with arguments nor with other results, and overwriting a result with garbage changes
neither the arguments nor the next call.
"""
import itertools

import dask.array as da
import numpy as np
import xarray as xr
from pyresample.geometry import SwathDefinition

import geotiepoints
from geotiepoints import geointerpolator
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                                       SingleGridInterpolator, SingleSplineInterpolator, generic_modis5kmto1km)
from geotiepoints.multilinear import MultilinearInterpolator, mlinspace
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C18"
ASSUMPTIONS = [
    "native byte order; layouts C, Fortran, every second row/column of a larger array, reversed, transposed view, offset, read-only and "
    "combinations; results equal up to the rounding of vectorised numpy functions (1e-9 relative in double, 2e-6 in single precision)",
    "attributes of interpolator objects (for example the grid of the multilinear one) are not results of calls",
]

LAYOUTS = ["C", "F", "rows", "cols", "flip y", "flip x", "flip", "transposed strided", "offset", "ro C", "ro F", "ro cols", "ro flip"]


def garbage(shape, dtype):
    n = int(np.prod(shape))
    if np.dtype(dtype).kind in "iu":
        return (np.arange(n) * 7 % 100 - 50).astype(dtype).reshape(shape)
    return (np.arange(n) * 0.731 % 80 - 40).astype(dtype).reshape(shape)


def lay(a, layout):
    """(view with the values of a, memory behind it)."""
    a = np.ascontiguousarray(a)
    ro = layout.startswith("ro ")
    kind = layout[3:] if ro else layout
    one = a.ndim == 1
    if kind == "C" or (one and kind == "F"):
        base = a.copy()
        v = base
    elif kind == "F":
        base = np.asfortranarray(a).copy(order="F")
        v = base
    elif kind in ("rows", "cols"):
        ax = 0 if kind == "rows" or one else 1
        shape = tuple(2 * n + 1 if k == ax else n for k, n in enumerate(a.shape))
        base = garbage(shape, a.dtype)
        v = base[tuple(slice(1, None, 2) if k == ax else slice(None) for k in range(a.ndim))]
        v[...] = a
    elif kind.startswith("flip"):
        axes = (0,) if one else {"flip y": (0,), "flip x": (1,), "flip": (0, 1)}[kind]
        base = garbage(a.shape, a.dtype)
        v = np.flip(base, axes)
        v[...] = a
    elif kind == "transposed strided":
        base = garbage(tuple(2 * n for n in a.shape[::-1]), a.dtype)
        v = base[tuple(slice(None, None, 2) for _ in a.shape)].T
        v[...] = a
    elif kind == "offset":
        base = garbage(tuple(n + 3 for n in a.shape), a.dtype)
        v = base[tuple(slice(2, 2 + n) for n in a.shape)]
        v[...] = a
    if ro:
        v.flags.writeable = False
    return v, base


def outputs(res):
    if isinstance(res, (np.ndarray, da.Array, xr.DataArray)):
        res = [res]
    return list(res)


def arrays(res):
    return [r.values if isinstance(r, xr.DataArray) else np.asarray(r) for r in res]


# ---------------------------------------------------------------- the functions

def swath_def(lon, lat):
    return SwathDefinition(lon, lat)


def modis(conv):
    return lambda *a: api.CONV[conv][0](*a)


def lazily(fun, chunk):
    def go(*args):
        res = outputs(fun(*[da.from_array(a, chunks=(chunk, -1)) for a in args]))
        return [r.compute() for r in res]
    return go


def labelled(fun):
    return lambda *args: fun(*[xr.DataArray(a, dims=("y", "x")) for a in args])


TIE = np.array([0., 2., 3., 6.]), np.array([0., 1., 3., 4., 7.])
DENSE = np.array([0., 1.5, 2., 4., 6.]), np.array([0., 0.5, 3., 3.5, 6., 7.])
EX = dict(bounds_error=False, fill_value=None)


def interp(geo, fill, order=1, chunk=0):
    def go(rows, cols, hrows, hcols, *data):
        obj = GeoInterpolator(data, (rows, cols), (hrows, hcols), 1, order, chunk) if geo else Interpolator(list(data), (rows, cols), (hrows, hcols), 1, order, chunk)
        if fill:
            obj.fill_borders(*fill)
        return obj.interpolate()
    return go


def single(cls, opts, call, chunks=None, n=1):
    def go(rows, cols, hrows, hcols, *data):
        obj = cls((rows, cols), *data, **opts)
        kw = dict(call)
        if chunks:
            kw["chunks"] = chunks
        return outputs(obj.interpolate((hrows, hcols), **kw))
    return go


def to_shape(cls, opts):
    return lambda rows, cols, *data: list(cls((rows, cols), *data, **opts).interpolate_to_shape((7, 8)))


def pyresample_interp(rows, cols, hrows, hcols, lon, lat):
    return GeoInterpolator(swath_def(lon, lat), (rows, cols), (hrows, hcols)).interpolate()


def multilin(dtype):
    dt = {"f8": np.float64, "f4": np.float32}[dtype]

    def go(smin, smax, orders, values, s):
        obj = MultilinearInterpolator(smin, smax, orders, values, dtype=dt)
        return [obj(s), obj.interpolate(s)]
    return go


def vii(geo, lazy=False, factor=3):
    def go(*arrs):
        arrs = [xr.DataArray(da.from_array(a, chunks=(3, -1)) if lazy else a, dims=("alt", "act")) for a in arrs]
        return list(tie_points_geo_interpolation(*arrs, 3, factor) if geo else tie_points_interpolation(list(arrs), 3, factor))
    return go


def field(dtype, n=2, place="mid"):
    lon, lat, z = lib.swath(place, 1, rows=4, cols=5)
    return [np.array(a, dtype) for a in (lon, lat, z)][:n]


def catalogue():
    cat = {}
    for conv, (fn, per, _, nargs, family, _, _) in api.CONV.items():
        if family == "legacy":
            continue
        for dt in ("f4", "f8"):
            args = api.tie_data(conv, "greenwich", 1 if per == 10 else 2, dt, 6 if family == "simple" else None)
            cat["%s %s" % (conv, dt)] = (modis(conv), args, dt)
            if conv.endswith(("5km_to_1km", "1km_to_500m")):
                cat["%s %s lazy" % (conv, dt)] = (lazily(modis(conv), per), args, dt)
                cat["%s %s labelled" % (conv, dt)] = (labelled(modis(conv)), args, dt)
    for name in ("modis5kmto1km", "modis1kmto500m", "modis1kmto250m"):
        cat[name] = (getattr(geotiepoints, name), api.tie_data(name, "mid", 1, "f8"), None)
    cat["metop20kmto1km"] = (geotiepoints.metop20kmto1km, [a for a in lib.swath("mid", 1, rows=2, cols=105)[:2]], None)
    cat["generic_modis5kmto1km"] = (generic_modis5kmto1km, api.tie_data("modis5kmto1km", "south", 1, "f8"), None)
    vec = list(TIE) + list(DENSE)
    for dt in ("f8", "f4"):
        for place in ("mid", "antimeridian"):
            dd = field(dt, 2, place)
            if place == "mid" or dt == "f8":
                tag = "%s %s" % (dt, place)
                cat["interpolator " + tag] = (interp(False, ()), vec + dd, None)
                cat["interpolator fill " + tag] = (interp(False, ("y", "x")), [TIE[0] + 1, TIE[1] + 1, np.arange(9.), np.arange(10.)] + dd, None)
                cat["interpolator chunked " + tag] = (interp(False, ("x", "y"), 2, 4), [np.array([1., 2., 5., 6.]), TIE[1] + 1, np.arange(8.), np.arange(10.)] + dd, None)
                cat["interpolator rows coincide " + tag] = (interp(False, (), 3), [TIE[0], TIE[1], TIE[0], DENSE[1]] + dd, None)
                cat["geo " + tag] = (interp(True, ()), vec + dd, None)
                cat["geo fill " + tag] = (interp(True, ("x", "y")), [TIE[0] + 1, TIE[1] + 1, np.arange(9.), np.arange(10.)] + dd, None)
                cat["geo grid " + tag] = (single(GeoGridInterpolator, EX, {}), vec + dd, dt)
                cat["geo spline " + tag] = (single(GeoSplineInterpolator, dict(kx=1, ky=2), {}), vec + dd, dt)
                cat["geo grid lazy " + tag] = (single(GeoGridInterpolator, EX, {}, (2, 4)), vec + dd, dt)
                cat["multiple grid " + tag] = (single(MultipleGridInterpolator, EX, {}), vec + dd, dt)
                cat["multiple spline " + tag] = (single(MultipleSplineInterpolator, dict(kx=1, ky=1), {}), vec + dd, dt)
                cat["multiple to shape " + tag] = (to_shape(MultipleGridInterpolator, EX), list(TIE) + dd, dt)
        d1 = field(dt, 1)
        for method in ("linear", "nearest", "slinear", "pchip"):
            cat["grid %s %s" % (method, dt)] = (single(SingleGridInterpolator, dict(method=method, **EX), {}), vec + d1, dt)
            cat["grid %s lazy %s" % (method, dt)] = (single(SingleGridInterpolator, EX, dict(method=method), (2, 4)), vec + d1, dt)
        cat["spline " + dt] = (single(SingleSplineInterpolator, dict(kx=1, ky=3), {}), vec + d1, dt)
        cat["spline lazy " + dt] = (single(SingleSplineInterpolator, dict(kx=2, ky=1), {}, (2, 4)), vec + d1, dt)
        cat["xyz " + dt] = (geointerpolator.lonlat2xyz, field(dt), dt)
        cat["lonlat " + dt] = (geointerpolator.xyz2lonlat, [np.array(a, dt) for a in np.moveaxis(lib.R * lib.unit(*field("f8")), 2, 0)], dt)
        cat["vii " + dt] = (vii(False), [np.array(a, dt) for a in lib.swath("mid", 2, rows=3, cols=4)[:2]], None)
        cat["vii lazy " + dt] = (vii(False, True), [np.array(a, dt) for a in lib.swath("mid", 2, rows=3, cols=4)[:2]], None)
        for place in ("greenwich", "south"):
            cat["vii geo %s %s" % (place, dt)] = (vii(True), [np.array(a, dt) for a in lib.swath(place, 2, rows=3, cols=4)[:2]], None)
        cat["basic " + dt] = (lambda lat, lon: BasicSatelliteInterpolator(np.array([0, 2, 3, 6, 8]), np.array([0, 1, 3, 7]), lat, lon).interpolate(), field(dt), None)
        for d in (1, 2, 3, 4):
            orders = np.array([3, 2, 4, 2][:d])
            n = int(np.prod(orders))
            s = np.array([[0.1 * (i + 1) + 0.2 * k for i in range(6)] for k in range(d)], dt)
            cat["multilinear %d %s" % (d, dt)] = (multilin(dt), [np.zeros(d, dt), np.arange(1, d + 1).astype(dt), orders, np.array(garbage((2, n), "f8"), dt), s], dt)
    cat["basic dense"] = (lambda lat, lon: BasicSatelliteInterpolator(np.arange(5), np.arange(4), lat, lon).interpolate(), field("f8"), None)
    cat["basic vectors"] = (lambda cols, rows, lat, lon: BasicSatelliteInterpolator(cols, rows, lat, lon).interpolate(),
                            [np.array([0, 2, 3, 6, 8]), np.array([0, 1, 3, 7])] + field("f8"), None)
    cat["pyresample"] = (pyresample_interp, vec + field("f8"), None)
    cat["mlinspace 1"] = (mlinspace, [np.array([0.]), np.array([2.]), np.array([4])], None)
    cat["mlinspace 3"] = (mlinspace, [np.array([0., 1, 2]), np.array([2., 4, 3]), np.array([4, 2, 3])], None)
    return cat


CATALOGUE = catalogue()


def check_call(what, fun, args, layouts, dtype, expect, rec):
    laid = [lay(a, l) for a, l in zip(args, layouts)]
    views, bases = [v for v, _ in laid], [b for _, b in laid]
    before = [b.tobytes() for b in bases]
    flags = [(v.shape, v.strides, v.dtype, v.flags.writeable) for v in views]

    def untouched(when):
        for k, (b, old, v, fl) in enumerate(zip(bases, before, views, flags)):
            if b.tobytes() != old:
                raise Violation("%s: argument %d was modified %s" % (what, k, when))
            if (v.shape, v.strides, v.dtype, v.flags.writeable) != fl:
                raise Violation("%s: shape or flags of argument %d were modified %s" % (what, k, when))

    results = []
    for rep in range(2):
        got = arrays(outputs(fun(*views)))
        rec.step()
        untouched("by call %d" % (rep + 1))
        if len(got) != len(expect):
            raise Violation("%s: %d results instead of %d" % (what, len(got), len(expect)))
        for n, (g, e) in enumerate(zip(got, expect)):
            single_prec = e.dtype == np.float32
            lib.same_values("%s, call %d, output %d" % (what, rep + 1, n), g, e, 2e-6 if single_prec else 1e-9)
            if g.dtype != e.dtype:
                raise Violation("%s: output %d has dtype %s for this layout and %s for another" % (what, n, g.dtype, e.dtype))
            if dtype is not None and g.dtype != np.dtype(dtype):
                raise Violation("%s: output %d has dtype %s for %s input" % (what, n, g.dtype, dtype))
            for k, b in enumerate(bases):
                if np.may_share_memory(g, b) and np.shares_memory(g, b):
                    raise Violation("%s: output %d shares memory with argument %d" % (what, n, k))
        results.append(got)
        for n, g in enumerate(got):
            for m, h in enumerate(itertools.chain(*results)):
                if g is not h and np.may_share_memory(g, h) and np.shares_memory(g, h):
                    raise Violation("%s: output %d of call %d shares memory with another result" % (what, n, rep + 1))
        for g in got:
            if g.flags.writeable:
                g[...] = -12345
        untouched("by writing to the result")
        # the other result must not be the same objects
        if rep and any(g is h for g in results[0] for h in results[1]):
            raise Violation("%s: two calls returned the same array object" % what)


_EXPECT = {}


def expected(name):
    if name not in _EXPECT:
        fun, args, _ = CATALOGUE[name]
        _EXPECT[name] = [r.copy() for r in arrays(outputs(fun(*[a.copy() for a in args])))]
    return _EXPECT[name]


def run(case, rec):
    name, layouts = case
    fun, args, dtype = CATALOGUE[name]
    exp = expected(name)
    check_call("%s with layouts %s" % (name, layouts), fun, args, layouts, dtype, exp, rec)
    rec.state((name, tuple(layouts)))
    rec.outcome((name, [float(np.nansum(e)) for e in exp]))
    rec.trace()


def run_constant(case, rec):
    """Results for layouts with no strides (broadcast views) and for aliased arguments (one array given twice)."""
    name, how = case
    fun, args, dtype = CATALOGUE[name]
    shape = args[-1].shape
    pos = [k for k, a in enumerate(args) if a.shape == shape and a.ndim == 2]
    args = [a.copy() for a in args]
    if how == "same":
        for k in pos:
            args[k] = args[pos[0]]
    else:
        for k in pos:
            args[k] = np.broadcast_to(args[k][:1] if how == "row" else args[k][:, :1], shape)
    ref = [r.copy() for r in arrays(outputs(fun(*[np.array(a, order="C") for a in args])))]
    old = [a.copy() for a in args]
    got = arrays(outputs(fun(*args)))
    rec.step()
    for n, (g, r) in enumerate(zip(got, ref)):
        lib.same_values("%s with %s arguments, output %d" % (name, how, n), g, r, 2e-6 if r.dtype == np.float32 else 1e-9)
    for k, (a, o) in enumerate(zip(args, old)):
        if a.tobytes() != o.tobytes():
            raise Violation("%s with %s arguments: argument %d was modified" % (name, how, k))
        for g in got:
            if np.may_share_memory(g, a) and np.shares_memory(g, a):
                raise Violation("%s with %s arguments: a result shares memory with argument %d" % (name, how, k))
    rec.state((name, how))
    rec.trace()


def run_identity(case, rec):
    """Targets equal to the tie points: results must still be arrays of their own."""
    name, layout = case
    dt = name.split()[-1]
    dd = field(dt, 2)
    rows, cols = TIE
    calls = {
        "interpolator": interp(False, ()), "geo": interp(True, ()),
        "interpolator fill": interp(False, ("y", "x")),
        "grid": single(SingleGridInterpolator, EX, {}), "grid nearest": single(SingleGridInterpolator, EX, dict(method="nearest")),
        "grid lazy": single(SingleGridInterpolator, EX, {}, (2, 3)), "multiple grid": single(MultipleGridInterpolator, EX, {}),
        "spline": single(SingleSplineInterpolator, dict(kx=1, ky=1), {}), "geo grid": single(GeoGridInterpolator, EX, {}),
        "vii": lambda *a: vii(False, False, 1)(*[x[:3] for x in a[4:]]),
        "basic": lambda *a: BasicSatelliteInterpolator(np.arange(5), np.arange(4), *a[4:]).interpolate(),
    }
    kind = name.rsplit(" ", 1)[0]
    args = [rows, cols, rows, cols] + (dd[:1] if kind in ("grid", "grid nearest", "grid lazy", "spline") else dd)
    fun = calls[kind]
    exp = [r.copy() for r in arrays(outputs(fun(*[a.copy() for a in args])))]
    check_call("%s at its tie points, layout %s" % (name, layout), fun, args, [layout] * len(args), None, exp, rec)
    rec.state((name, layout))
    rec.trace()


def same_object(kind, dt, target):
    """(object, query) for repeated queries of one object."""
    dd = field(dt, 2)
    rows, cols = TIE
    tgt = TIE if target == "ties" else DENSE
    if kind.startswith(("interpolator", "geo ")) and "grid" not in kind and "spline" not in kind:
        obj = GeoInterpolator(dd, TIE, tgt) if kind.startswith("geo") else Interpolator(dd, TIE, tgt)
        if "fill" in kind:
            obj.fill_borders("y", "x")
        return lambda: obj.interpolate()
    if kind == "multilinear":
        obj = MultilinearInterpolator([0., 1.], [2., 3.], [2, 3], garbage((2, 6), dt), dtype={"f8": np.float64, "f4": np.float32}[dt])
        pts = np.array([[0., 1., 2., .5], [1., 2., 3., 1.7]], dt)
        return lambda: [obj(pts)]
    if kind == "basic":
        obj = BasicSatelliteInterpolator(np.arange(5) * (1 if target == "ties" else 2), np.arange(4), dd[0], dd[1])
        return lambda: obj.interpolate()
    cls, opts, call = {"grid": (SingleGridInterpolator, EX, {}), "grid nearest": (SingleGridInterpolator, EX, dict(method="nearest")),
                       "grid lazy": (SingleGridInterpolator, EX, dict(chunks=(2, 2))),
                       "spline": (SingleSplineInterpolator, dict(kx=1, ky=1), {}), "spline lazy": (SingleSplineInterpolator, dict(kx=1, ky=1), dict(chunks=3)),
                       "multiple grid": (MultipleGridInterpolator, EX, {}), "geo grid": (GeoGridInterpolator, EX, {}),
                       "geo spline": (GeoSplineInterpolator, dict(kx=1, ky=1), {})}[kind]
    obj = cls(TIE, *(dd if "geo" in kind or "multiple" in kind else dd[:1]), **opts)
    return lambda: outputs(obj.interpolate(tgt, **call))


def run_object(case, rec):
    """Overwriting what one query returned changes nothing for the next query of the same object, at any point of a sequence."""
    kind, dt, target, word = case
    query = same_object(kind, dt, target)
    exp = [r.copy() for r in arrays(same_object(kind, dt, target)())]
    kept = []
    for step in word:
        got = arrays(query())
        rec.step()
        for n, (g, e) in enumerate(zip(got, exp)):
            lib.same_values("%s object, %s, output %d" % (kind, word, n), g, e, 1e-12)
            for h in itertools.chain([x for x in got if x is not g], *[k for k, _ in kept]):
                if np.may_share_memory(g, h) and np.shares_memory(g, h):
                    raise Violation("%s object, %s: output %d shares memory with another result" % (kind, word, n))
        if step == "w":
            for g in got:
                if g.flags.writeable:
                    g[...] = 777
        kept.append((got, [g.copy() for g in got]))
        for got_, copy_ in kept:
            for g, c in zip(got_, copy_):
                lib.same_values("%s object, %s: an earlier result" % (kind, word), g, c, 0)
    rec.state(tuple(case[:3]) + (tuple(word),))
    rec.trace()


OBJECTS = ["interpolator", "interpolator fill", "geo ", "geo fill", "multilinear", "basic", "grid", "grid nearest", "grid lazy", "spline", "spline lazy",
           "multiple grid", "geo grid", "geo spline"]


# ---------------------------------------------------------------- labelled arrays

def _labelled_args(kind, lazy, decorated):
    if kind.startswith("vii"):
        args, per = lib.swath("mid" if "plane" not in kind else "equator", 2, rows=3, cols=4)[:2], 3
    else:
        conv = kind
        args, per = api.tie_data(conv, "mid", 2, "f8", 6 if conv.startswith("simple") else None), api.CONV[conv][1]
    out = []
    for n, a in enumerate(args):
        a = np.array(a)
        kw = {}
        if decorated:
            kw = dict(coords={"time": ("y", np.arange(a.shape[0]) * 10.0), "scalar": 5}, name="field%d" % n, attrs={"units": "degrees", "list": [1, 2]})
            if decorated == "indexed":
                kw["coords"].update(y=np.arange(a.shape[0]) * 2.0 + 1, x=np.arange(a.shape[1])[::-1] * 3.0)
        out.append(xr.DataArray(da.from_array(a, chunks=(per, -1)) if lazy else a, dims=("y", "x"), **kw))
    return out, per


def run_labelled(case, rec):
    """Labels, names and attributes of the arguments are left as they were; results do not depend on them."""
    kind, lazy, decorated = case
    args, per = _labelled_args(kind, lazy, decorated)
    before = [a.copy(deep=True) for a in args]
    data = [a.data for a in args]

    def call(arrs):
        if kind.startswith("vii"):
            return tie_points_geo_interpolation(*arrs, per, 3) if "geo" in kind else tie_points_interpolation(list(arrs), per, 3)
        return api.CONV[kind][0](*arrs)
    want = [np.array(r.values if hasattr(r, "values") else r) for r in call(_labelled_args(kind, False, "")[0])]
    for rep in range(2):
        res = call(args)
        got = [np.array(r.values if hasattr(r, "values") else r) for r in res]
        rec.step()
        for n, (g, w) in enumerate(zip(got, want)):
            lib.same_values("%s, output %d of call %d" % (kind, n, rep + 1), g, w, 1e-9)
        for n, r in enumerate(res):
            if isinstance(r, xr.DataArray):
                r.attrs["changed"] = True
                for c in r.coords:
                    if r.coords[c].ndim and r.coords[c].values.flags.writeable:
                        r.coords[c].values[...] = -1
        for n, (a, b, d) in enumerate(zip(args, before, data)):
            if not a.identical(b) or list(a.coords) != list(b.coords) or list(a.indexes) != list(b.indexes) or a.dims != b.dims:
                raise Violation("%s: labels, name, attributes or values of argument %d changed with call %d: %s instead of %s" % (kind, n, rep + 1, a, b))
            if a.data is not d and lazy:
                raise Violation("%s: the data of the lazy argument %d were replaced" % (kind, n))
    rec.state(tuple(case))
    rec.trace()


def run_multilinear_given(case, rec):
    """The arrays given to the multilinear interpolator are left as they are by queries, new values and the grid."""
    d, dt, word = case
    orders = np.array([3, 2, 4, 2][:d])
    n = int(np.prod(orders))
    given = {"smin": np.zeros(d, dt), "smax": np.arange(1, d + 1).astype(dt), "orders": orders, "values": np.array(garbage((2, n), "f8"), dt),
             "other": np.array(garbage((3, n), "f8") * 2, dt), "s": np.array([[0.1 * (i + 1) + 0.2 * k for i in range(6)] for k in range(d)], dt)}
    old = {k: v.copy() for k, v in given.items()}
    obj = MultilinearInterpolator(given["smin"], given["smax"], given["orders"], given["values"], dtype={"f8": np.float64, "f4": np.float32}[dt])
    for w in word:
        if w == "q":
            r = obj(given["s"])
            for k, v in given.items():
                if np.shares_memory(r, v):
                    raise Violation("the result shares memory with %s" % k)
            r[...] = 5
        elif w == "g":
            obj.grid
        else:
            obj.set_values(given["other" if w == "o" else "values"])
        rec.step()
        for k, v in given.items():
            if v.tobytes() != old[k].tobytes():
                raise Violation("%s was modified by %s in %s" % (k, w, word))
    rec.state(tuple(map(str, case)))
    rec.trace()


def spaces(tier, seed):
    deep = tier == "thorough"
    cases = []
    for name, (_, args, _) in CATALOGUE.items():
        n = len(args)
        seen = set()
        heavy = "angle" in name and ("250m" in name or "500m" in name) or name.startswith(("modis1km", "simple_1km_to_250m"))
        for l in LAYOUTS:
            seen.add((l,) * n)
            for k in range(n):
                seen.add(tuple(l if i == k else "C" for i in range(n)))
        if n <= 3 and (deep or not heavy):
            names = LAYOUTS if deep or n < 3 else ["C", "F", "cols", "flip", "ro C", "transposed strided"]
            seen |= set(itertools.product(names, repeat=n))
        elif deep:
            for i, j in itertools.combinations(range(n), 2):
                for a, b in itertools.product(LAYOUTS, repeat=2):
                    seen.add(tuple(a if k == i else b if k == j else "C" for k in range(n)))
        cases += [(name, list(s)) for s in sorted(seen)]
    same = [(n, h) for n, (_, a, _) in CATALOGUE.items() for h in ("same", "row", "column") if a[-1].ndim == 2 and not n.startswith(("multilinear", "mlin", "pyres"))]
    ident = [("%s %s" % (k, dt), l) for k in ("interpolator", "geo", "interpolator fill", "grid", "grid nearest", "grid lazy", "multiple grid",
                                             "spline", "geo grid", "vii", "basic") for dt in ("f4", "f8") for l in LAYOUTS]
    objs = [(k, dt, t, list(w)) for k in OBJECTS for dt in ("f4", "f8") for t in ("ties", "dense") for w in lib.words("wk", 4 if deep else 3)]
    kinds = [c for c in api.CONV if api.CONV[c][4] != "legacy"] + ["vii", "vii plane", "vii geo"]
    lab = [(k, lazy, dec) for k in kinds for lazy in (False, True) for dec in ("", "plain", "indexed")]
    given = [(d, dt, list(w)) for d in (1, 2, 3, 4) for dt in ("f4", "f8") for w in lib.words("qgov", 3)]
    return [Space("labels", lab, run_labelled, "labelled conversions: in memory and lazy x without coordinates, with them, with index coordinates; two calls"),
            Space("multilinear arguments", given, run_multilinear_given, "every sequence of up to 3 queries, grids and new values"),
            Space("one object", objs, run_object, "14 objects, every sequence of up to 3 queries whose results are kept or overwritten"),
            Space("layouts", cases, run, "13 layouts: all arguments alike, one argument different, all combinations for up to three arguments"),
            Space("aliased and broadcast", same, run_constant, "one array for all arguments; arguments without strides"),
            Space("targets at the tie points", ident, run_identity, "11 interpolators x 13 layouts x 2 dtypes")]
