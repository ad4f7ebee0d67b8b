"""C04: lazy results do not depend on execution order or on what else is computed.

Explored: (a) every linear extension of the task graphs (raw and optimised), with every task re-run at every position;
(b) every pair (and the whole set) of lazy results of a catalogue computed together; (c) every call under a scheduler
that refuses to compute.  Graphs and tasks are the ones the package builds; execution is by our own scheduler, one task
at a time in the chosen order.
"""
import itertools

import dask
import dask.array as da
import numpy as np
import xarray as xr
from dask._task_spec import convert_legacy_graph

from geotiepoints import modisinterpolator, simple_modis_interpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (MultipleGridInterpolator, MultipleSplineInterpolator, SingleGridInterpolator,
                                       SingleSplineInterpolator)

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C04"
ASSUMPTIONS = [
    "task graphs of up to 8 tasks (after optimisation), every topological order; parallel execution inside tasks is C06",
    "dask itself is trusted to call each task with the values of its dependencies",
]
TIES = (np.array([0., 3, 7, 8, 12]), np.array([0., 2, 5, 9]))
EXTRA = dict(bounds_error=False, fill_value=None)


def field(variant=0, dtype="f8"):
    y, x = np.meshgrid(*TIES, indexing="ij")
    f = 100 + 3 * y - 2 * x + np.sin(y) * np.cos(2 * x) * 5
    if variant == 1:
        f[2, 1] += 40
    if variant == 2:
        f = f[::-1]
    return f.astype(dtype)


def targets(variant=0):
    return [(np.arange(4), np.arange(6)), (np.arange(4) + 3, np.arange(6)), (np.arange(4), np.arange(6) + 1.5),
            (np.arange(4) + 0.25, np.arange(6)), (np.arange(6), np.arange(4))][variant]


def generic(cls, init, call, ties=TIES, fld=0, dtype="f8", tgt=0, chunks=(2, 3), which=None):
    """-> (list of lazy arrays, list of expected arrays)."""
    data = [field(fld, dtype)]
    if cls in (MultipleGridInterpolator, MultipleSplineInterpolator):
        data.append(field(2, dtype))
    if cls in (GeoGridInterpolator, GeoSplineInterpolator):
        y, x = np.meshgrid(*TIES, indexing="ij")
        data = [170 + x + field(fld) / 50, 40 + y / 3]
    obj = cls(ties, *data, **init)

    def get(**kw):
        res = obj.interpolate(targets(tgt), **call, **kw)
        return [res] if hasattr(res, "shape") else list(res)
    # the expected values come from an object of its own
    obj2 = cls(ties, *[d.copy() for d in data], **init)
    res = obj2.interpolate(targets(tgt), **call)
    return get(chunks=chunks), [np.asarray(r) for r in ([res] if hasattr(res, "shape") else list(res))]


def modis(conv, place="antimeridian", scans=2, dtype="f8", chunk=1, kind="d", width=None):
    args = api.tie_data(conv, place, scans, dtype, width or (4 if "simple" in conv else None))
    plain = api.call(conv, [a.copy() for a in args])
    rows = chunk * api.CONV[conv][1]
    wrapped = [da.from_array(a, chunks=(rows, -1)) for a in args]
    if "x" in kind:
        wrapped = [xr.DataArray(a, dims=("y", "x")) for a in wrapped]
    if kind == "mixed":
        wrapped[1] = np.array(args[1])
    res = api.CONV[conv][0](*wrapped)
    return [r.data if hasattr(r, "dims") else r for r in res], list(plain)


TIES2 = (TIES[0] * 1.1, TIES[1])
TIES3 = (TIES[0], TIES[1] * 1.1)
CATALOGUE = {
    "grid": lambda: generic(SingleGridInterpolator, EXTRA, {}),
    "grid other value": lambda: generic(SingleGridInterpolator, EXTRA, {}, fld=1),
    "grid other data": lambda: generic(SingleGridInterpolator, EXTRA, {}, fld=2),
    "grid other rows": lambda: generic(SingleGridInterpolator, EXTRA, {}, ties=TIES2),
    "grid other columns": lambda: generic(SingleGridInterpolator, EXTRA, {}, ties=TIES3),
    "grid rows shifted": lambda: generic(SingleGridInterpolator, EXTRA, {}, tgt=1),
    "grid columns shifted": lambda: generic(SingleGridInterpolator, EXTRA, {}, tgt=2),
    "grid rows fractional": lambda: generic(SingleGridInterpolator, EXTRA, {}, tgt=3),
    "grid transposed": lambda: generic(SingleGridInterpolator, EXTRA, {}, tgt=4),
    "grid float32": lambda: generic(SingleGridInterpolator, EXTRA, {}, dtype="f4"),
    "grid int": lambda: generic(SingleGridInterpolator, EXTRA, {}, dtype="i4"),
    "grid nearest": lambda: generic(SingleGridInterpolator, dict(method="nearest", **EXTRA), {}),
    "grid call nearest": lambda: generic(SingleGridInterpolator, EXTRA, dict(method="nearest")),
    "grid pchip": lambda: generic(SingleGridInterpolator, dict(method="pchip", **EXTRA), {}),
    "grid fill 1": lambda: generic(SingleGridInterpolator, dict(bounds_error=False, fill_value=1.0), {}, tgt=4, ties=(TIES[0] + 2, TIES[1])),
    "grid fill 2": lambda: generic(SingleGridInterpolator, dict(bounds_error=False, fill_value=2.0), {}, tgt=4, ties=(TIES[0] + 2, TIES[1])),
    "grid other chunks": lambda: generic(SingleGridInterpolator, EXTRA, {}, chunks=(4, 2)),
    "grid one chunk": lambda: generic(SingleGridInterpolator, EXTRA, {}, chunks=-1),
    "spline": lambda: generic(SingleSplineInterpolator, {}, {}),
    "spline kx": lambda: generic(SingleSplineInterpolator, dict(kx=1), {}),
    "spline ky": lambda: generic(SingleSplineInterpolator, dict(ky=1), {}),
    "spline linear": lambda: generic(SingleSplineInterpolator, dict(kx=1, ky=1), {}),
    "spline slope x": lambda: generic(SingleSplineInterpolator, {}, dict(dx=1)),
    "spline slope y": lambda: generic(SingleSplineInterpolator, {}, dict(dy=1)),
    "spline smooth": lambda: generic(SingleSplineInterpolator, dict(s=50.0), {}),
    "multiple grid": lambda: generic(MultipleGridInterpolator, EXTRA, {}, fld=1),
    "multiple spline": lambda: generic(MultipleSplineInterpolator, dict(kx=2, ky=1), {}),
    "geo grid": lambda: generic(GeoGridInterpolator, EXTRA, {}),
    "geo grid other": lambda: generic(GeoGridInterpolator, EXTRA, {}, fld=1),
    "geo spline": lambda: generic(GeoSplineInterpolator, dict(kx=1, ky=2), {}),
}
for _c in ("simple_1km_to_500m", "simple_1km_to_250m", "angle_1km_to_500m", "angle_1km_to_250m", "angle_5km_to_1km",
           "angle_5km_to_500m", "angle_5km_to_250m"):
    CATALOGUE[_c] = lambda c=_c: modis(c)
    CATALOGUE[_c + " elsewhere"] = lambda c=_c: modis(c, "mid")
    if "250m" not in _c:
        CATALOGUE[_c + " labelled"] = lambda c=_c: modis(c, "north", kind="xd")
    if "1km_to_500m" in _c or _c == "angle_5km_to_1km":
        CATALOGUE[_c + " float32"] = lambda c=_c: modis(c, dtype="f4")
        CATALOGUE[_c + " mixed"] = lambda c=_c: modis(c, kind="mixed")
        CATALOGUE[_c + " three scans"] = lambda c=_c: modis(c, scans=3, chunk=2)
CATALOGUE["angle_5km_to_1km 270"] = lambda: modis("angle_5km_to_1km", width=270)
CATALOGUE["simple_1km_to_500m wide"] = lambda: modis("simple_1km_to_500m", width=6)


def compare(what, got, want):
    if "km_to_" in what.split()[0]:
        tol = 1e-3 if want[0].dtype == np.float64 else 1.0
        lib.same_places(what, got[0], got[1], want, tol)
        return
    for n, (g, w) in enumerate(zip(got, want)):
        lib.same_values("%s, array %d" % (what, n), g, w, 1e-9 if w.dtype == np.float64 else 1e-5)


def run_pair(case, rec):
    lazies, wants = [], []
    for name in case:
        lazy, want = CATALOGUE[name]()
        lazies.append(lazy)
        wants.append(want)
    results = dask.compute(*lazies, scheduler="synchronous")
    for name, got, want in zip(case, results, wants):
        compare("%s computed with %s" % (name, [c for c in case if c != name][:3]), got, want)
        rec.step(len(got))
    rec.trace()
    rec.state(tuple(case))
    rec.outcome(tuple(float(np.nansum(r)) for res in results for r in res))


def graph_of(lazies, optimise):
    if optimise:
        lazies = dask.optimize(*lazies)
    dsk = {}
    for l in lazies:
        dsk.update(dict(l.__dask_graph__()))
    return convert_legacy_graph(dsk), lazies


def execute(nodes, order):
    values = {}
    for key in order:
        node = nodes[key]
        values[key] = node({d: values[d] for d in node.dependencies})
    return values


def assemble(lazy, values):
    return np.concatenate([np.concatenate([np.asarray(values[(lazy.name, i, j)]) for j in range(lazy.numblocks[1])], axis=1)
                           for i in range(lazy.numblocks[0])])


def schedules(deps):
    """Every linear extension, as the sequence of indexes into the list of enabled tasks (sorted by name).

    Task names may differ from one build of a graph to the next; choices stay meaningful.
    """
    def rec(done, left, choices):
        if not left:
            yield choices
            return
        enabled = [k for k in left if deps[k] <= done]
        for c, k in enumerate(enabled):
            yield from rec(done | {k}, [x for x in left if x != k], choices + (c,))
    yield from rec(frozenset(), sorted(deps, key=str), ())


def resolve(nodes, choices):
    """The order of tasks that a choice sequence means in this graph."""
    deps = {k: set(n.dependencies) for k, n in nodes.items()}
    left, order = sorted(deps, key=str), []
    for c in choices:
        enabled = [k for k in left if deps[k] <= set(order)]
        order.append(enabled[c])
        left.remove(enabled[c])
    return order


ORDERED = {
    "grid": lambda: generic(SingleGridInterpolator, EXTRA, {}, chunks=(2, 3)),
    "grid rows": lambda: generic(SingleGridInterpolator, EXTRA, {}, chunks=(1, 6)),
    "grid columns": lambda: generic(SingleGridInterpolator, EXTRA, {}, chunks=(4, 2), tgt=1),
    "spline": lambda: generic(SingleSplineInterpolator, {}, {}, chunks=(2, 3)),
    "multiple grid": lambda: generic(MultipleGridInterpolator, EXTRA, {}, chunks=(2, 6)),
    "multiple spline": lambda: generic(MultipleSplineInterpolator, {}, {}, chunks=(4, 3)),
    "geo grid": lambda: generic(GeoGridInterpolator, EXTRA, {}, chunks=(2, 6)),
    "geo spline": lambda: generic(GeoSplineInterpolator, dict(kx=1, ky=1), {}, chunks=(4, 3)),
    "simple_1km_to_500m": lambda: modis("simple_1km_to_500m"),
    "simple_1km_to_250m": lambda: modis("simple_1km_to_250m"),
    "angle_5km_to_1km": lambda: modis("angle_5km_to_1km"),
    "simple_1km_to_500m one": lambda: modis("simple_1km_to_500m", scans=1),
    "angle_5km_to_1km one": lambda: modis("angle_5km_to_1km", scans=1),
    "angle_5km_to_500m one": lambda: modis("angle_5km_to_500m", scans=1),
    "angle_1km_to_500m one": lambda: modis("angle_1km_to_500m", scans=1),
}


def run_orders(case, rec):
    name, optimise, index, of, limit = case
    nodes, _ = graph_of(ORDERED[name]()[0], optimise)
    count = 0
    for n, choices in enumerate(itertools.islice(schedules({k: set(v.dependencies) for k, v in nodes.items()}), limit)):
        if n % of != index:
            continue
        # every order on freshly built inputs
        fresh, want = ORDERED[name]()
        nodes, opt = graph_of(fresh, optimise)
        values = execute(nodes, resolve(nodes, choices))
        compare("%s in order %s" % (name, choices), [assemble(l, values) for l in opt], want)
        for k in range(1, len(choices) + 1):
            rec.state((name, optimise, choices[:k]))
            rec.step()
        count += 1
        rec.trace()
    rec.outcome((name, optimise, count))


def run_reruns(case, rec):
    name, optimise = case
    nodes, _ = graph_of(ORDERED[name]()[0], optimise)
    choices = next(schedules({k: set(n.dependencies) for k, n in nodes.items()}))
    for pos in range(1, len(choices) + 1):
        for which in range(pos):
            fresh, want = ORDERED[name]()
            nodes, opt = graph_of(fresh, optimise)
            order = resolve(nodes, choices)
            again = order[which]
            values = {}
            for k, key in enumerate(order):
                values[key] = nodes[key]({d: values[d] for d in nodes[key].dependencies})
                if k == pos - 1:
                    values[again] = nodes[again]({d: values[d] for d in nodes[again].dependencies})
            compare("%s with task %d run again at %d" % (name, which, pos), [assemble(l, values) for l in opt], want)
            rec.state((name, optimise, pos, which))
            rec.step(len(order) + 1)
            rec.trace()


def run_lazy(case, rec):
    conv, kind, chunk, dtype = case
    seen = []

    def refuse(*a, **k):
        raise Violation("something is computed while asking for a lazy result")

    if conv in CATALOGUE:
        with dask.config.set(scheduler=refuse):
            lazies, want = CATALOGUE[conv]()
    else:
        args = api.tie_data(conv, "antimeridian", 4, dtype, 4 if "simple" in conv else None)
        plain = api.call(conv, [a.copy() for a in args])
        wrapped = []
        for k, a in enumerate(args):
            def loader(block_info=None, k=k):
                seen.append(1)
                loc = block_info[None]["array-location"]
                return args[k][loc[0][0]:loc[0][1], loc[1][0]:loc[1][1]]
            sizes = da.core.normalize_chunks(chunk, a.shape, dtype=a.dtype)
            arr = da.map_blocks(loader, chunks=sizes, dtype=a.dtype, meta=np.empty((0, 0), dtype=a.dtype))
            if "x" in kind:
                arr = xr.DataArray(arr, dims=("y", "x"))
            if kind == "mixed" and k == 1:
                arr = a.copy()
            wrapped.append(arr)
        seen.clear()
        with dask.config.set(scheduler=refuse):
            res = api.CONV[conv][0](*wrapped)
        lazies = [r.data if hasattr(r, "dims") else r for r in res]
        want = list(plain)
        if seen:
            raise Violation("%s: %d input blocks loaded while asking for a lazy result" % (conv, len(seen)))
    for l in lazies:
        if not isinstance(l, da.Array):
            raise Violation("%s: not lazy" % conv)
    got = dask.compute(*lazies, scheduler="synchronous")
    compare(conv, got, want)
    rec.state(tuple(map(str, case)))
    rec.step(1 + sum(l.npartitions for l in lazies))
    rec.trace()
    rec.outcome(tuple(l.chunks for l in lazies))


def run_count(case, rec):
    """No evaluation of the interpolator itself before compute, for the generic classes."""
    name, chunks = case
    cls = {"grid": SingleGridInterpolator, "spline": SingleSplineInterpolator}[name]
    obj = cls(TIES, field())
    inner, calls = getattr(obj, "interpolator", None), []
    if inner is None:
        return  # nowhere to count evaluations

    def counting(*a, **k):
        calls.append(1)
        return inner(*a, **k)
    obj.interpolator = counting
    lazy = obj.interpolate(targets(), chunks=tuple(chunks))
    if calls:
        raise Violation("%s interpolator evaluated %d times while asking for a lazy result" % (name, len(calls)))
    lazy.compute(scheduler="synchronous")
    rec.state(tuple(map(str, case)))
    rec.step(1 + len(calls))
    rec.trace()


# ---------------------------------------------------------------- lazy results that hardly differ, computed together

def _modis_near(conv, width, a, b, same_objects):
    rows = api.CONV[conv][1]
    wrapped = [[da.from_array(x, chunks=(rows, -1)) for x in args] for args in (a, b)]
    if same_objects:
        # what is equal is the same dask array
        wrapped[1] = [w0 if np.array_equal(x, y) else w1 for w0, w1, x, y in zip(*wrapped, a, b)]
    return [list(api.CONV[conv][0](*w)) for w in wrapped], [list(api.call(conv, [x.copy() for x in args])) for args in (a, b)]


def _generic_ingredients():
    return [TIES[0].copy(), TIES[1].copy(), field(), np.array([0.5, 2, 3, 7.5]), np.array([0, 1.5, 3, 4, 6.5, 8])]


GENERIC = {"grid": (SingleGridInterpolator, EXTRA, 1), "pchip": (SingleGridInterpolator, dict(method="pchip", **EXTRA), 1),
           "spline": (SingleSplineInterpolator, {}, 1), "multiple grid": (MultipleGridInterpolator, EXTRA, 2),
           "multiple spline": (MultipleSplineInterpolator, {}, 2), "geo grid": (GeoGridInterpolator, EXTRA, 2),
           "geo spline": (GeoSplineInterpolator, {}, 2)}


def _generic_large(wide):
    """More than a thousand elements in (nearly) every array."""
    n, m, p, q = (5, 1100, 4, 1300) if wide else (1100, 5, 1300, 4)
    y, x = np.arange(n) * 2.0, np.arange(m) * 3.0
    data = np.add.outer(np.sin(y / 9) * 30, np.cos(x / 7) * 20) + 100 + np.add.outer(y % 7, x % 5)
    return [y, x, data, np.linspace(0.5, y[-1] - 0.5, p), np.linspace(0.25, x[-1] - 0.5, q)]


def large_names():
    res = []
    for wide in (False, True):
        for k, a in enumerate(_generic_large(wide)):
            if a.size > 1000:
                for part in (2, 3):
                    res += [(wide, v) for d in (0.0625, 1e-4, 1e-6) for v in (["one", k, [n // part for n in a.shape], d],)]
    return res


def _generic_near(name, a, b, chunks):
    cls, init, count = GENERIC[name]
    lazies, wants = [], []
    for rows, cols, data, ty, tx in (a, b):
        more = [data] if count == 1 else [data + 3, data[::-1] - 1] if "geo" not in name else [data / 3, data / 4]
        res = [cls((rows, cols), *more, **init).interpolate((ty, tx), **kw) for kw in ({"chunks": chunks}, {})]
        res = [[r] if hasattr(r, "shape") else list(r) for r in res]
        lazies.append(res[0])
        wants.append(res[1])
    return lazies, wants


def run_near(case, rec):
    name, width, dtype, variant, mode = case
    if name in GENERIC:
        a = _generic_ingredients() if width is None else _generic_large(width == "wide")
        lazies, wants = _generic_near(name, a, lib.near(a, variant), mode)
    else:
        a = api.tie_data(name, "mid", 2, dtype, width)
        per = api.CONV[name][1]
        b = [np.concatenate([x[per:], x[:per]]) for x in a] if variant[0] == "scans" else lib.near(a, variant)
        lazies, wants = _modis_near(name, width, a, b, mode)
    for order in ((0, 1), (1, 0)):
        got = dask.compute(*[lazies[k] for k in order], scheduler="synchronous")
        for k, g in zip(order, got):
            compare("%s: result %d of two that differ by %s, computed together" % (name, k, variant), g, wants[k])
            rec.step(len(g))
        rec.state((name, width, dtype, str(variant), str(mode), order))
        rec.trace()
    rec.outcome((name, [round(float(np.nansum(w)), 7) for w in wants[1]]))


def near_cases(deep):
    res = []
    for name in GENERIC:
        for v in lib.near_names(_generic_ingredients()):
            if v[0] == "exchange" or (v[0] == "swap" and v[1] != 2):
                continue
            for chunks in ((2, 3), -1) if deep or name in ("grid", "spline") else ((2, 3),):
                res.append((name, None, "f8", v, chunks))
        for v in lib.tiny_names(_generic_ingredients()):
            res.append((name, None, "f8", v, (2, 3)))
        for n, (wide, v) in enumerate(large_names()):
            if deep or (name in ("grid", "spline") or v[3] == 1e-4) and name != "pchip":
                res.append((name, "wide" if wide else "high", "f8", v, ((400, 700), -1)[n % 2]))
    for conv, spec in api.CONV.items():
        if spec[4] == "legacy":
            continue
        width = 3 if spec[4] == "simple" else 271 if spec[1] == 2 else None
        args = api.tie_data(conv, "mid", 2, "f8", width)
        rows, cols = args[0].shape
        at = None if spec[4] == "simple" else (lambda a: [(i, j) for i in (0, rows - 1) for j in (0, cols // 2, cols - 1)])
        tiny = lib.tiny_names(args) if deep or "250m" not in conv or spec[4] == "simple" else []
        for v in lib.near_names(args, at) + [["scans", 0]] + tiny:
            if "250m" in conv and spec[4] != "simple" and not deep and v[0] not in ("all", "exchange", "scans"):
                continue
            if conv == "angle_1km_to_500m" and not deep and v[0] == "keep" and v[2] not in ("border", "interior"):
                continue
            for same_objects in (False, True) if v[0] != "exchange" else (False,):
                res.append((conv, width, "f8", v, same_objects))
    return res


def spaces(tier, seed):
    deep = tier == "thorough"
    names = list(CATALOGUE)
    light = [n for n in names if "250m" not in n or "simple" in n]
    pairs = [(a, b) for a, b in itertools.combinations_with_replacement(names, 2)
             if deep or (a in light and b in light) or a.split()[0] == b.split()[0] or ("250m" in a and "500m" in b and "angle" in b)
             or ("250m" in b and "500m" in a and "angle" in a)]
    res = [Space("computed together", pairs + [(b, a) for a, b in pairs if deep] + [tuple(names)], run_pair,
                 "every pair of a catalogue of %d lazy results, and all of them at once" % len(names))]
    res.append(Space("hardly different, computed together", near_cases(deep), run_near,
                     "pairs that differ in one element of one argument (data, tie point positions, targets), in all but one row, column, border or "
                     "interior of one argument, in the order of scans or arguments; equal arguments as one or two dask arrays; both orders; differences of 1e-4 and 1e-6; one element in the middle of 1100 to 6500"))
    limit = 20000 if deep else 720
    of = 16
    res.append(Space("execution orders", [(n, o, k, of, min(limit, 4000) if "_to_" in n else limit) for n in ORDERED for o in (True, False) for k in range(of)
                                          if o or n not in ("simple_1km_to_500m", "simple_1km_to_250m", "angle_5km_to_1km", "geo grid", "geo spline") or deep],
                     run_orders, "every topological order (at most %d per graph)" % limit))
    res.append(Space("re-run tasks", [(n, o) for n in ORDERED for o in (True, False)], run_reruns,
                     "every task re-run at every position of one order"))
    cases = [(n, "", 0, "f8") for n in CATALOGUE]
    for conv in api.CONV:
        if api.CONV[conv][4] == "legacy":
            continue
        for kind in ("d", "xd", "mixed"):
            for chunk in (-1, [2, -1], [3, 2], [8, -1], [7, 100]):
                cases.append((conv, kind, tuple(chunk) if isinstance(chunk, list) else chunk, "f8" if chunk != -1 else "f4"))
    res.append(Space("nothing computed by asking", cases, run_lazy, "every catalogue entry; every conversion x container x 5 chunkings"))
    res.append(Space("nothing interpolated by asking", [(n, (a, b)) for n in ("grid", "spline") for a in range(1, 5) for b in range(1, 7)],
                     run_count, "every uniform chunk size"))
    return res
