"""C12: interpolator objects give history-independent answers.

The systems explored are sets of live objects.  The model of an object is its configuration: how it was built plus the
configuration calls made on it.  Every sequence of operations up to the depth is run on the real objects; after every
query the answer is compared with that of a new object to which only the configuration calls were applied, and at the end
every earlier result and every array the objects were given must still be what it was.
"""
import gc
import itertools

import dask
import numpy as np
import xarray as xr

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                                       SingleGridInterpolator, SingleSplineInterpolator)
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation

from .. import lib
from ..core import Space, Violation, in_child

PROPERTY = "C12"
ASSUMPTIONS = [
    "two or three live objects; operation sequences up to the stated depth",
    "the answer of a freshly built object with the same configuration calls is the reference (its correctness is C07 to C11)",
    "the caller does not modify arrays it handed over, nor the cached grid array of a MultilinearInterpolator",
]
EXTRA = dict(bounds_error=False, fill_value=None)
ROWS, COLS = np.array([1.0, 3.0, 5.0, 8.0]), np.array([0.5, 2.0, 4.0, 7.0, 9.0])
FINE = (np.arange(10.0), np.arange(11.0))
INSIDE = (np.array([1.0, 2.5, 4.0, 8.0]), np.array([0.5, 3.0, 7.5]))
OTHER = (np.array([2.0, 2.5, 3.0, 3.5, 7.75]), np.array([1.0, 8.5]))


def field(n, m, k=0):
    y, x = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    return 10.0 * (k + 1) + np.sin(1.1 * y + k) * 3 + np.cos(0.7 * x - k) * 2 + x * y


def lonlat(n, m, k=0):
    y, x = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    return [178.0, 12.0, -60.0][k % 3] + 1.2 * x + 0.2 * y - (360 if k % 3 == 9 else 0), [10.0, 70.0, -40.0][k % 3] - y + 0.1 * x


class System:
    """ingredients(k) -> (arrays, options); make(arrays, options) -> object; ops: name -> (configures, function(object) ->
    arrays or None); others: options that differ."""

    def __init__(self, ingredients, make, ops, others=()):
        self.ingredients = ingredients
        self.make = make
        self.ops = ops
        self.others = list(others)

    def build(self, k):
        """Object k, and the arrays it was given."""
        given, opts = self.ingredients(k)
        return self.make(given, opts), given


def _generic(k):
    return ([ROWS.copy(), COLS.copy(), *[f.copy() for f in FINE], field(4, 5, k), field(4, 5, k + 3)],
            dict(kx_=1 + k % 2, ky_=1 + (k + 1) % 2, chunk_size=5 if k % 2 else 0))


def _geo(k):
    return [ROWS.copy(), COLS.copy(), *[f.copy() for f in FINE], *lonlat(4, 5, k)], dict(kx_=1, ky_=1 + k % 2, chunk_size=5 if k % 2 else 0)


def _same_rows(k):
    return ([ROWS.copy(), COLS.copy(), ROWS.copy(), np.arange(1.0, 9.0), field(4, 5, k), field(4, 5, k + 1)],
            dict(kx_=1, ky_=1 + k % 3, chunk_size=0))


def _make_generic(cls):
    def make(given, opts):
        rows, cols, frows, fcols, *data = given
        data = tuple(data) if cls is GeoInterpolator else data
        return cls(data, (rows, cols), (frows, fcols), opts["kx_"], opts["ky_"], chunk_size=opts["chunk_size"])
    return make


def _fill(*dims):
    def op(obj):
        obj.fill_borders(*dims)
    return op


def _query(**kw):
    points = kw.pop("points", None)

    def op(obj):
        if points is None:
            res = obj.interpolate(**kw)
        else:
            res = obj.interpolate(tuple(p.copy() for p in points), **kw)
        # the container itself is part of the answer: keep it, so that replacing its elements later is noticed
        return res if isinstance(res, (list, tuple)) or hasattr(res, "shape") else list(res)
    return op


def _shape(shape, **kw):
    def op(obj):
        return list(obj.interpolate_to_shape(shape, **kw))
    return op


def _slices(obj):
    return obj.interpolate_slices((slice(1, 5), slice(2, 6)))


def _arrays(count, geo=False):
    def ingredients(k):
        data = list(lonlat(4, 5, k)) if geo else [field(4, 5, k + 2 * n) for n in range(count)]
        return [ROWS.copy(), COLS.copy(), *data]
    return ingredients


def _system(cls, count, init, ops, others=(), geo=False):
    arrs = _arrays(count, geo)

    def ingredients(k):
        opts = dict(init)
        if k % 2 and count == 1 and "kx" in opts:
            opts["kx"], opts["ky"] = opts["ky"], opts["kx"]
        return arrs(k), opts

    def make(given, opts):
        rows, cols, *data = given
        return cls((rows, cols), *data, **opts)
    return System(ingredients, make, ops, others)


def _ml(k):
    orders = [[3, 2], [2, 4], [4]][k % 3]
    d = len(orders)
    n = int(np.prod(orders))
    values = np.array([[np.sin(1.1 * i + k + r) for i in range(n)] for r in range(2)])
    return [np.full(d, -1.0 - k), np.full(d, 1.0 + k), values], dict(orders=orders, dtype="f4" if k == 1 else "f8")


def _make_ml(given, opts):
    smin, smax, values = given
    return MultilinearInterpolator(smin, smax, list(opts["orders"]), values, dtype={"f4": np.float32, "f8": np.float64}[opts["dtype"]])


def _ml_set(which):
    def op(obj):
        n = int(np.prod(obj.orders))
        obj.set_values(np.array([[np.cos(0.3 * i * (which + 1) + r) for i in range(n)] for r in range(1 + which)]))
    return op


def _ml_call(which):
    def op(obj):
        s = np.array([[np.cos(p * 1.3 + which + k) * 1.5 for p in range(3 + which)] for k in range(obj.d)])
        keep = s.copy()
        res = obj(s)
        if not np.array_equal(s, keep):
            raise Violation("the query points were changed")
        return res
    return op


def _basic(k):
    return [np.array([0, 2, 3, 6]), np.array([0, 1, 4, 5, 8]), field(4, 5, k), field(4, 5, k + 5)], {}


def _make_basic(given, opts):
    rows, cols, lat, lon = given
    return BasicSatelliteInterpolator(cols, rows, lat, lon)


def _vii(k):
    return list(lonlat(6, 4, k)), {}


def _make_vii(given, opts):
    return tuple(xr.DataArray(a, dims=("y", "x")) for a in given)


ORDERS = [dict(kx_=2), dict(ky_=2), dict(kx_=3), dict(ky_=3), dict(kx_=2, ky_=1), dict(kx_=1, ky_=2), dict(kx_=1, ky_=1), dict(kx_=2, ky_=2), dict(chunk_size=5)]
PER_K = [dict(kx=k, ky=j) for k in (1, 2, 3) for j in (1, 2, 3)]
METHODS = [dict(method=m) for m in ("nearest", "slinear", "pchip")]
FILLS = [dict(fill_value=5.0), dict(fill_value=np.nan)]
SYSTEMS = {
    "generic": System(_generic, _make_generic(Interpolator), {"fill y": (True, _fill("y")), "fill x": (True, _fill("x")), "query": (False, _query())}, ORDERS),
    "generic all": System(_generic, _make_generic(Interpolator),
                          {"fill yx": (True, _fill("y", "x")), "fill xy": (True, _fill("x", "y")), "query": (False, _query())}, ORDERS),
    "coinciding rows": System(_same_rows, _make_generic(Interpolator), {"fill x": (True, _fill("x")), "query": (False, _query())}, ORDERS[:-1]),
    "geo": System(_geo, _make_generic(GeoInterpolator),
                  {"fill y": (True, _fill("y")), "fill x": (True, _fill("x")), "query": (False, _query())}, ORDERS),
    "grid": _system(SingleGridInterpolator, 1, EXTRA, {
        "P": (False, _query(points=INSIDE)), "Q": (False, _query(points=OTHER)), "lazy P": (False, _query(points=INSIDE, chunks=2)),
        "lazy Q": (False, _query(points=OTHER, chunks=(3, 1))), "nearest": (False, _query(points=INSIDE, method="nearest")),
        "slices": (False, _slices)}, METHODS + FILLS),
    "cubic grid": _system(SingleGridInterpolator, 1, dict(method="pchip", **EXTRA), {
        "P": (False, _query(points=INSIDE)), "lazy Q": (False, _query(points=OTHER, chunks=2)),
        "linear": (False, _query(points=INSIDE, method="linear"))}, METHODS[:2] + [dict(method="linear")] + FILLS),
    "spline": _system(SingleSplineInterpolator, 1, dict(kx=2, ky=3), {
        "P": (False, _query(points=INSIDE)), "Q": (False, _query(points=OTHER)), "lazy P": (False, _query(points=INSIDE, chunks=2)),
        "slope": (False, _query(points=INSIDE, dy=1)), "slices": (False, _slices)}, [o for o in PER_K if o["ky"] > 1] + [dict(s=10.0)]),
    "multiple grid": _system(MultipleGridInterpolator, 2, EXTRA, {
        "P": (False, _query(points=INSIDE)), "lazy Q": (False, _query(points=OTHER, chunks=2)), "shape": (False, _shape((4, 6))),
        "lazy shape": (False, _shape((4, 6), chunks=3))}, METHODS + FILLS),
    "multiple spline": _system(MultipleSplineInterpolator, 2, dict(kx=2, ky=1), {
        "P": (False, _query(points=INSIDE)), "lazy Q": (False, _query(points=OTHER, chunks=2)), "shape": (False, _shape((4, 6)))}, PER_K),
    "geo grid": _system(GeoGridInterpolator, 2, EXTRA, {
        "P": (False, _query(points=INSIDE)), "lazy Q": (False, _query(points=OTHER, chunks=2)), "shape": (False, _shape((4, 6)))}, METHODS, True),
    "geo spline": _system(GeoSplineInterpolator, 2, dict(kx=1, ky=2), {
        "P": (False, _query(points=INSIDE)), "lazy Q": (False, _query(points=OTHER, chunks=2))}, PER_K, True),
    "multilinear": System(_ml, _make_ml, {
        "set A": (True, _ml_set(0)), "set B": (True, _ml_set(1)), "grid": (False, lambda o: o.grid),
        "P": (False, _ml_call(0)), "Q": (False, _ml_call(1))}, [dict(orders=[2, 3]), dict(dtype="f4")]),
    "basic": System(_basic, _make_basic, {"query": (False, _query())}),
    "VII": System(_vii, _make_vii, {"plain": (False, lambda o: tie_points_interpolation(list(o), 3, 2)),
                                    "geo": (False, lambda o: tie_points_geo_interpolation(*o, 2, 3))}),
}
_expected = {}


def arrays(res):
    res = [res] if hasattr(res, "shape") else list(res)
    out = dask.compute(*res, scheduler="synchronous")
    return [np.array(r, copy=True) for r in out]


def _answer(name, given, opts, config, op):
    """Answer of a new object with these configuration calls: arrays, or a text if there is none."""
    system = SYSTEMS[name]
    try:
        obj = system.make([g.copy() for g in given], opts)
        for c in config:
            system.ops[c][1](obj)
        return arrays(system.ops[op][1](obj))
    except Exception as err:
        return "%s: %s" % (type(err).__name__, err)


def clean_answer(name, given, opts, config, op):
    """The same in a process where nothing else has been done."""
    try:
        return in_child(_answer, name, given, opts, config, op)
    except Violation as err:
        return str(err)


def configurations(name):
    ops = [o for o, (configures, _) in SYSTEMS[name].ops.items() if configures]
    return sorted({effective(name, c) for n in range(len(ops) + 1) for c in itertools.permutations(ops, n)})


def prepare():
    """Every answer needed, each from a process of its own."""
    for name, system in SYSTEMS.items():
        for k in range(3 if len(system.ops) < 4 else 2):
            given, opts = system.ingredients(k)
            for config in configurations(name):
                for op in (o for o in system.ops if not system.ops[o][0]):
                    _expected[name, k, config, op] = clean_answer(name, given, opts, config, op)


def expected(name, k, config, op):
    """Answer of a new object with these configuration calls."""
    # setting values makes earlier settings irrelevant, filling twice fills once
    res = _expected[name, k, config, op]
    if isinstance(res, str):
        raise Violation("%s of a new %s object: %s" % (op, name, res))
    return res


def same(what, got, want):
    if len(got) != len(want):
        raise Violation("%s: %d arrays instead of %d" % (what, len(got), len(want)))
    for n, (g, w) in enumerate(zip(got, want)):
        lib.same_values("%s, array %d" % (what, n), g, w, 1e-11 if w.dtype == np.float64 else 1e-5)


def effective(name, config):
    """Model of the configuration: order-preserving without repetition (fills), the last one (values)."""
    if name == "multilinear":
        return config[-1:]
    seen = []
    for c in config:
        if c not in seen:
            seen.append(c)
    return tuple(seen)


def run(case, rec):
    members, seq = case
    live = []
    for name, k in members:
        obj, given = SYSTEMS[name].build(k)
        live.append([name, k, obj, given, [np.array(g, copy=True) for g in given], ()])
    history = []
    for n, (which, op) in enumerate(seq):
        entry = live[which]
        name, k, obj, given, kept, config = entry
        configures, fun = SYSTEMS[name].ops[op]
        res = fun(obj)
        if configures:
            entry[5] = config + (op,)
        else:
            want = expected(name, k, effective(name, config), op)
            lazy = not isinstance(res, np.ndarray) and any(hasattr(r, "dask") for r in ([res] if hasattr(res, "shape") else res))
            if not lazy:
                same("%s of object %d after %s" % (op, which, seq[:n]), arrays(res), want)
            history.append((n, which, op, res, want))
        rec.step()
        rec.state((members, tuple((e[0], e[1], effective(e[0], e[5])) for e in live), tuple(map(tuple, seq[:n + 1]))))
    for n, which, op, res, want in history:
        same("result of step %d (%s of object %d) at the end of %s" % (n, op, which, seq), arrays(res), want)
    for name, k, obj, given, kept, config in live:
        for g, was in zip(given, kept):
            if g.shape != was.shape or not np.array_equal(g, was, equal_nan=True):
                raise Violation("an array given to %s changed during %s" % (name, seq))
    # different objects do not share what they returned
    for (n1, w1, o1, r1, _), (n2, w2, o2, r2, _) in itertools.combinations(history, 2):
        for a in ([r1] if hasattr(r1, "shape") else r1):
            for b in ([r2] if hasattr(r2, "shape") else r2):
                if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and not o1 == o2 == "grid" and np.shares_memory(a, b):
                    raise Violation("steps %d (%s) and %d (%s) returned the same memory" % (n1, o1, n2, o2))
    rec.trace()
    rec.outcome((members, tuple(np.round([float(np.nansum(w)) for h in history for w in h[4]], 3))))


# ---------------------------------------------------------------- objects that hardly differ

def variants(name):
    """What may differ: [arrays changed] or [option]."""
    system = SYSTEMS[name]
    given, opts = system.ingredients(0)
    res = []
    for k, a in enumerate(given):
        if a.dtype.kind == "i":
            for p in range(a.size):
                for d in (-1, 1):
                    b = a.copy()
                    b[p] += d
                    if b[0] >= 0 and (np.diff(b) > 0).all():
                        res.append(["integer", k, p, d])
        elif a.ndim == 1:
            res += [["one", k, [p]] for p in range(a.size)] + [["all", k]]
        else:
            res += [[v[0], k] + v[2:] for v in lib.near_names([a]) if v[0] != "exchange"]
    big = [k for k, a in enumerate(given) if a.ndim == 2]
    if len(big) == 2:
        res.append(["exchange", *big])
    return res + [["option", n] for n, o in enumerate(system.others) if any(str(opts.get(key)) != str(v) for key, v in o.items())]


def changed(name, variant):
    given, opts = SYSTEMS[name].ingredients(0)
    kind = variant[0]
    if kind == "option":
        return given, dict(opts, **SYSTEMS[name].others[variant[1]])
    if kind == "integer":
        given[variant[1]][variant[2]] += variant[3]
        return given, opts
    if kind == "exchange":
        i, j = variant[1:]
        given[i], given[j] = given[j], given[i]
        return given, opts
    return lib.near(given, variant), opts


def run_near(case, rec):
    name, config, mode, variant = case
    config = tuple(config)
    system = SYSTEMS[name]
    queries = [o for o in system.ops if not system.ops[o][0]]
    first = system.ingredients(0)
    second = changed(name, variant)
    wanted = [{o: expected(name, 0, config, o) for o in queries}, {o: clean_answer(name, *second, config, o) for o in queries}]

    def new(which):
        given, opts = (first, second)[which]
        obj = system.make([g.copy() for g in given], opts)
        for c in config:
            system.ops[c][1](obj)
        return obj

    def ask(obj, which, what):
        for o in queries:
            want = wanted[which][o]
            if isinstance(want, str):
                raise Violation("%s of a new object with %s changed: %s" % (o, variant, want))
            same("%s of the %s object; the other one differs by %s; %s" % (o, ("original", "changed")[which], variant, what), arrays(system.ops[o][1](obj)), want)
            rec.step()
            rec.state((name, config, mode, str(variant), which, o, what))

    order = (0, 1) if mode != "both, changed one first" else (1, 0)
    if mode.startswith("both"):
        objs = {w: new(w) for w in order}
        for w in order:
            ask(objs[w], w, "both exist")
        ask(objs[order[0]], order[0], "again")
    else:
        obj = new(0)
        ask(obj, 0, "alone")
        del obj
        gc.collect()
        ask(new(1), 1, "after the other one was deleted")
    rec.trace()
    rec.outcome((name, [float(np.nansum(a)) for o in queries for a in wanted[1][o]]))


def near_cases(deep):
    res = []
    for name in SYSTEMS:
        configs = configurations(name)
        for config in configs if deep else configs[:1] + configs[-1:] if len(configs) > 1 else configs:
            for mode in ("both", "both, changed one first", "one after the other"):
                res += [(name, list(config), mode, v) for v in variants(name)]
    return res


# ---------------------------------------------------------------- queries that hardly differ

TARGETED = {"grid": INSIDE, "cubic grid": INSIDE, "spline": INSIDE, "multiple grid": INSIDE, "multiple spline": INSIDE, "geo grid": INSIDE, "geo spline": INSIDE}
POINTS = np.array([[0.1, -0.7, 0.4, 0.9], [0.3, 0.2, -0.9, 0.95]])


def _ask_points(name, k, points, chunks):
    system = SYSTEMS[name]
    obj = system.build(k)[0]
    return _points(obj, points, chunks)


def _points(obj, points, chunks):
    if isinstance(obj, MultilinearInterpolator):
        return arrays(obj(points[0].copy()))
    kw = {} if chunks is None else {"chunks": chunks}
    return arrays(obj.interpolate(tuple(p.copy() for p in points), **kw))


def run_queries(case, rec):
    name, chunks, variant = case
    obj = SYSTEMS[name].build(0)[0]
    a = [p.copy() for p in TARGETED.get(name, [POINTS])]
    if variant[0] == "shift all":
        b = [p + 0.125 for p in a]
    elif variant[0] == "fewer":
        b = [p[:-1] for p in a] if len(a) == 2 else [a[0][:, :-1].copy()]
    else:
        b = lib.near(a, variant)
    both = [in_child(_ask_points, name, 0, x, chunks) for x in (a, b)]
    for n, w in enumerate((0, 1, 0, 1, 1, 0)):
        same("%s, chunks %s, query %d; the queries differ by %s" % (name, chunks, n, variant), _points(obj, (a, b)[w], chunks), both[w])
        rec.step()
        rec.state((name, chunks, str(variant), n))
    rec.trace()
    rec.outcome((name, [float(np.nansum(x)) for x in both[1]]))


def query_cases():
    res = []
    for name in list(TARGETED) + ["multilinear"]:
        pts = TARGETED.get(name, [POINTS])
        vs = [["one", k, list(map(int, p))] for k, a in enumerate(pts) for p in np.ndindex(*a.shape)] + [["all", k] for k in range(len(pts))]
        vs += [["shift all"], ["fewer"]]
        res += [(name, c, v) for v in vs for c in ((None, 2, (3, 1)) if name in TARGETED else (None,))]
    return res


# ---------------------------------------------------------------- large objects that hardly differ

def _large(wide):
    n, m, p, q = (5, 1100, 4, 1300) if wide else (1100, 5, 1300, 4)
    y, x = np.arange(n) * 2.0, np.arange(m) * 3.0
    return [y, x, np.add.outer(np.sin(y / 9) * 30, np.cos(x / 7) * 20) + np.add.outer(y % 7, x % 5), np.add.outer(np.cos(y / 8) * 30, np.sin(x / 9) * 20),
            np.linspace(0.5, y[-1] - 0.5, p), np.linspace(0.25, x[-1] - 0.5, q)]


def _large_generic(cls, fill=("y", "x")):
    def new(y, x, a, b, ty, tx):
        obj = cls((a, b) if cls is GeoInterpolator else [a, b], (y, x), (ty, tx), 1, 1)
        obj.fill_borders(*fill)
        return lambda: obj.interpolate()
    return new


def _large_many(cls, count, init, **kw):
    def new(y, x, a, b, ty, tx):
        obj = cls((y, x), *[a, b][:count], **init)
        return lambda: obj.interpolate((ty, tx), **kw)
    return new


def _large_ml(y, x, a, b, ty, tx):
    obj = MultilinearInterpolator([y[0], x[0]], [y[-1], x[-1]], [len(y), len(x)], np.stack([a.ravel(), b.ravel()]))
    pts = np.array([np.resize(ty, 1300), np.resize(tx, 1300)])
    return lambda: obj(pts)


def _large_basic(y, x, a, b, ty, tx):
    obj = BasicSatelliteInterpolator(x.astype(int), y.astype(int), a, b)
    return lambda: obj.interpolate()


def _large_vii(y, x, a, b, ty, tx):
    rows = len(a) // 5 * 5
    args = [xr.DataArray(v[:rows], dims=("y", "x")) for v in (a, b)]
    return lambda: tie_points_interpolation(args, rows if rows < 10 else rows // 2, 2)


LARGE = {"generic": _large_generic(Interpolator), "geo": _large_generic(GeoInterpolator), "grid": _large_many(SingleGridInterpolator, 1, EXTRA),
         "lazy grid": _large_many(SingleGridInterpolator, 1, EXTRA, chunks=(400, 700)), "spline": _large_many(SingleSplineInterpolator, 1, dict(kx=1, ky=2)),
         "lazy spline": _large_many(SingleSplineInterpolator, 1, dict(kx=1, ky=2), chunks=(400, 700)), "multiple grid": _large_many(MultipleGridInterpolator, 2, EXTRA),
         "multiple spline": _large_many(MultipleSplineInterpolator, 2, dict(kx=2, ky=1)), "geo grid": _large_many(GeoGridInterpolator, 2, EXTRA),
         "geo spline": _large_many(GeoSplineInterpolator, 2, dict(kx=1, ky=1)), "multilinear": _large_ml, "basic": _large_basic, "VII": _large_vii}


def _large_answer(name, given):
    return arrays(LARGE[name](*given)())


def run_large(case, rec):
    name, wide, variant = case
    first = _large(wide)
    second = lib.near(first, variant)
    want = [in_child(_large_answer, name, g) for g in (first, second)]
    objs = [LARGE[name](*[a.copy() for a in g]) for g in (first, second)]
    for n, w in enumerate((0, 1, 0, 1)):
        same("%s, query %d; the objects differ by %s" % (name, n, variant), arrays(objs[w]()), want[w])
        rec.step()
        rec.state((name, wide, str(variant), n))
    del objs
    gc.collect()
    same("%s, built again" % name, arrays(LARGE[name](*[a.copy() for a in second])()), want[1])
    rec.step()
    rec.trace()
    rec.outcome((name, [float(np.nansum(a)) for a in want[1]]))


def large_cases(deep):
    res = []
    for name in LARGE:
        for wide in (False, True):
            if name == "basic":
                continue
            for k, a in enumerate(_large(wide)):
                for d in (0.0625, 1e-6) if a.size > 1000 else (1e-6,):
                    if name == "multilinear" and k < 2:
                        continue   # positions do not matter to it, except the borders
                    for part in (2, 3) if deep else (2,):
                        res.append((name, wide, ["one", k, [n // part for n in a.shape], d]))
    for k in (2, 3):
        res += [("basic", wide, ["one", k, [n // 2 for n in _large(wide)[k].shape], d]) for wide in (False, True) for d in (0.0625, 1e-6)]
    return res


# ---------------------------------------------------------------- long histories

def run_long(case, rec):
    """One object asked many different questions, or one of many objects."""
    name, what, count = case
    system = SYSTEMS[name]
    queries = [o for o in system.ops if not system.ops[o][0]]
    want = {o: expected(name, 0, (), o) for o in queries}
    if what == "same question":
        obj = system.build(0)[0]
        for n in range(count):
            o = queries[n % len(queries)]
            same("%s of a %s object, question %d" % (o, name, n), arrays(system.ops[o][1](obj)), want[o])
            rec.step()
    elif what == "different questions":
        obj = system.build(0)[0]
        pts = [p.copy() for p in TARGETED.get(name, [POINTS])]
        mid = [p[..., :] * 0.9 for p in pts]
        clean = None
        for n in range(count):
            moved = [m + (p - m) * (n / count) for m, p in zip(mid, pts)]
            got = _points(obj, moved, (None, 2)[n % 2] if name in TARGETED else None)
            if n in (0, 1, 2, count // 2, count - 1):
                clean = in_child(_ask_points, name, 0, moved, None)
                same("%s, question %d of many different ones" % (name, n), got, clean)
            rec.step()
        for o in queries:
            same("%s of a %s object after %d different questions" % (o, name, count), arrays(system.ops[o][1](obj)), want[o])
    else:
        objs = []
        for n in range(count):
            given, opts = system.ingredients(0)
            data = [a for a in given if a.ndim == 2][-1]
            data += 0.001 * n
            objs.append((system.make(given, opts), [g.copy() for g in given], opts))
            o = queries[n % len(queries)]
            got = arrays(system.ops[o][1](objs[-1][0]))
            if n in (0, 1, 2, count // 2, count - 1):
                same("%s of object %d of many" % (o, n), got, clean_answer(name, objs[-1][1], opts, (), o))
            if what == "many objects, one at a time":
                objs.pop()
            rec.step()
        for n in (0, 1, count // 2, count - 1) if objs else ():
            o = queries[0]
            same("%s of object %d once there are %d" % (o, n, count), arrays(system.ops[o][1](objs[n][0])), clean_answer(name, *objs[n][1:], (), o))
    rec.state(tuple(case))
    rec.trace()


def long_cases(deep):
    res = []
    for name in SYSTEMS:
        for count in (40, 300) if not deep else (40, 300, 1200):
            res += [(name, "same question", count), (name, "many objects", count), (name, "many objects, one at a time", count)]
            if name in TARGETED or name == "multilinear":
                res.append((name, "different questions", count))
    return res


def sequences(members, depth):
    ops = [(w, op) for w, (name, _) in enumerate(members) for op in SYSTEMS[name].ops]
    return [s for s in itertools.product(ops, repeat=depth)
            if not SYSTEMS[members[s[-1][0]][0]].ops[s[-1][1]][0]]   # ends with a query


def spaces(tier, seed):
    deep = tier == "thorough"
    budget = 60000 if deep else 4000
    prepare()
    res = [Space("objects that hardly differ", near_cases(deep), run_near, "objects with one ingredient changed (one element of one array, all but one "
                 "row, column, border; one option), both living or one after the other", fresh=True),
           Space("queries that hardly differ", query_cases(), run_queries, "target points with one point moved, all moved, one less; eager and 2 chunkings", fresh=True),
           Space("large objects that hardly differ", large_cases(deep), run_large, "more than 1000 elements, one in the middle changed by 0.06 or 1e-6", fresh=True),
           Space("long histories", long_cases(deep), run_long, "40 and 300 (thorough 1200) questions to one object, or objects", fresh=True, batch=1)]
    groups = []
    for name in SYSTEMS:
        groups.append([(name, 0)])
        groups.append([(name, 0), (name, 1)])
        if len(SYSTEMS[name].ops) < 4:
            groups.append([(name, 0), (name, 1), (name, 2)])
    groups += [[("generic", 0), ("geo", 1)], [("grid", 0), ("multilinear", 0)], [("spline", 0), ("grid", 0)], [("basic", 0), ("generic", 1), ("geo", 0)],
               [("multiple grid", 0), ("multiple spline", 0)], [("geo grid", 0), ("geo spline", 0), ("geo", 0)], [("VII", 0), ("geo", 1)]]
    for members in groups:
        nops = sum(len(SYSTEMS[n].ops) for n, _ in members)
        depth = 2
        while nops ** (depth + 1) <= budget and depth < (8 if deep else 6):
            depth += 1
        seqs = sequences(members, depth)
        name = " + ".join("%s %d" % m for m in members)
        res.append(Space(name, [(members, s) for s in seqs], run, "every sequence of %d operations out of %d" % (depth, nops)))
    return res
