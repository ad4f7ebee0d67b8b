"""C06: concurrent calls in several threads do not disturb each other.

Two calls A and B run in two real threads under a controlled scheduler; only one of them runs at a time.
  * Python code: A is stopped at every line of the package and at every function called from it (thorough: every
    bytecode), B runs as far as a second such point or to its end, A goes on to its end, B finishes.
  * compiled code: A is stopped at the beginning and end of every section that runs without the interpreter lock, and B
    runs.  The memory accesses of both are recorded (build flavour "traced"): if no address is used by both and written
    by one, all interleavings of the two are equivalent to these; otherwise A is stopped before every access to a
    conflicting address, B runs, and A goes on.
  * first calls: the same in processes in which nothing of the package was called before (lazily filled caches).
Every execution must give both calls the result they give alone.
"""
import ctypes
import os
import sys
import threading

import dask.array as da
import numpy as np
import xarray as xr

import geotiepoints
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, SingleGridInterpolator,
                                       SingleSplineInterpolator, generic_modis5kmto1km)
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation

from .. import api, lib
from ..core import Space, Violation, in_child

FLAVOUR = "traced"
PROPERTY = "C06"
ASSUMPTIONS = [
    "two threads; at hand-over points of Python code up to two switches per execution, in compiled code one switch (all "
    "of them, reduced to the conflicting accesses: executions without conflicting accesses between are equivalent)",
    "memory accesses are sequentially consistent; code of numpy, scipy and dask is not preempted inside one call from the package",
    "a section holding the interpreter lock is not preempted, as in the interpreter this runs on",
    "if a conflicting address is used very often, the first, the last and evenly spread occurrences of each are explored, at "
    "most the number given in the bound",
]
_dir = os.path.dirname(geotiepoints.__file__)
_rt = ctypes.CDLL(os.path.join(os.path.dirname(sys.modules["geotiepoints._modis_utils"].__file__), "rt.so"))
_rt.mc_reset.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
_rt.mc_wait_reached.argtypes = [ctypes.c_double]
_rt.mc_count.restype = _rt.mc_conflicts.restype = _rt.mc_npoints.restype = _rt.mc_point.restype = _rt.mc_sect.restype = ctypes.c_long
_rt.mc_point.argtypes = [ctypes.c_long]
_forget, _role = ctypes.PyDLL(_rt._name).mc_forget, ctypes.PyDLL(_rt._name).mc_role
STUCK = 5.0
WHOLE, NEVER = 10 ** 9, 10 ** 8


# ---------------------------------------------------------------- the controlled scheduler

class Call:
    """One of the two concurrent calls, in its own thread."""

    def __init__(self, fun, role, stop=None, opcodes=False):
        self.fun, self.role, self.stop, self.opcodes = fun, role, stop, opcodes
        self.events = 0
        self.where = []
        self.result = self.error = None
        self.stopped, self.go, self.done = threading.Event(), threading.Event(), threading.Event()
        self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        if self.stop is not None:
            sys.settrace(self._trace)
        _role(self.role)
        try:
            self.result = self.fun()
        except BaseException as err:
            self.error = err
        finally:
            _role(0)
            sys.settrace(None)
            self.done.set()
            self.stopped.set()
            if self.role == 1:
                _rt.mc_finished()

    def _point(self, frame):
        n = self.events
        self.events += 1
        if self.stop == NEVER:
            self.where.append((frame.f_code, frame.f_lineno, frame.f_back and frame.f_back.f_lineno))
        if n == self.stop:
            self.stopped.set()
            self.go.wait()
            sys.settrace(None)

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(_dir):
            self._point(frame)
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        back = frame.f_back
        if back is not None and back.f_code.co_filename.startswith(_dir):
            self._point(frame)
            return self._leave
        return None

    def _local(self, frame, event, arg):
        if self.events > self.stop:
            return None
        if event in ("line", "opcode"):
            self._point(frame)
        return self._local

    def _leave(self, frame, event, arg):
        frame.f_trace_lines = False
        if event == "return":
            self._point(frame)
        return self._leave

    def start(self):
        self.thread.start()

    def join(self):
        if not self.done.wait(60):
            raise Violation("a call did not finish, although everything else had")
        self.thread.join()
        if self.error is not None:
            raise Violation("a call raised when another one ran in between: %r" % (self.error,))


def switched(fa, fb, p, q, opcodes):
    """A to its Python point p, B to its point q, A to the end, B to the end.  Returns the calls."""
    _rt.mc_reset(-1, 0, 0)
    a, b = Call(fa, 0, p, opcodes), Call(fb, 0, q if q != WHOLE else None, opcodes)
    a.start()
    a.stopped.wait()
    b.start()
    if not b.stopped.wait(STUCK):   # B waits for something A holds: not a possible execution beyond this point
        b.blocked = True
    a.go.set()
    if not a.done.wait(STUCK):
        b.go.set()
    a.join()
    b.go.set()
    b.join()
    return a, b


def preempted(fa, fb, stop, record=0, collect=0):
    """A is stopped before its access number `stop` made without the interpreter lock, B runs, A goes on."""
    _rt.mc_reset(stop, record, collect)
    a, b = Call(fa, 1), Call(fb, 2)
    a.start()
    if not _rt.mc_wait_reached(60.0):
        raise Violation("a call did not finish")
    b.start()
    b.done.wait(STUCK)
    _rt.mc_resume()
    a.join()
    b.join()
    return a, b


# ---------------------------------------------------------------- the calls

def flat(res):
    if isinstance(res, (da.Array, xr.DataArray, np.ndarray)):
        res = [res]
    res = [r.data if isinstance(r, xr.DataArray) else r for r in res]
    if any(isinstance(r, da.Array) for r in res):
        res = da.compute(*res)
    return [np.asarray(r) for r in res]


def compare(what, got, ref):
    if len(got) != len(ref):
        raise Violation("%s: %d arrays instead of %d" % (what, len(got), len(ref)))
    for n, (g, r) in enumerate(zip(got, ref)):
        lib.same_values("%s, output %d" % (what, n), g, r, 1e-7 if r.dtype == np.float32 else 1e-12)


def modis(conv, place, nscans, dtype, width=None, lazy=False):
    args = api.tie_data(conv, place, nscans, dtype, width)
    if lazy:
        per = api.CONV[conv][1]
        def go():
            return flat(api.CONV[conv][0](*[da.from_array(a, chunks=(per, -1)) for a in args]))
        return go
    return lambda: flat(api.CONV[conv][0](*[a.copy() for a in args]))


def fields(n, m, k=0):
    y, x = np.arange(n)[:, None] * 1.0, np.arange(m)[None, :] * 1.0
    return np.sin(0.5 * y + k) * 10 + np.cos(0.3 * x + 2 * k) * 7 + 30


def grid(place):
    return lib.swath(place, 1, rows=4, cols=5)[:2]


SHARED = {}


def shared(key, make):
    if key not in SHARED:
        SHARED[key] = make()
    return SHARED[key]


P45 = np.array([0., 2., 5., 7.]), np.array([0., 1., 4., 6., 9.])
T1 = np.linspace(0, 7, 6), np.linspace(0, 9, 7)
T2 = np.linspace(1, 5, 6), np.linspace(2, 8, 7)


def ml(d, dtype, shift):
    orders = [3, 2, 3, 2][:d]
    smin, smax = [0.0 + shift] * d, [1.0 + k + shift for k in range(d)]
    n = int(np.prod(orders))
    vals = np.arange(2.0 * n).reshape(2, n) ** 1.5 + shift
    s = np.array([[(0.13 * (i + 1) * (k + 2)) % 1.7 + shift for i in range(5)] for k in range(d)])
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    return lambda: flat(MultilinearInterpolator(smin, smax, orders, vals, dtype=dt)(s))


def ml_shared(shift):
    obj = shared("ml", lambda: MultilinearInterpolator([0., 0.], [1., 2.], [3, 4], fields(2, 12)))
    s = np.array([[0.1, 0.5, 0.9, 1.2], [1.9, 0.2, 0.7, -0.4]]) + shift
    return lambda: flat([obj(s), obj.grid])


def border(place, chunk, geo, order=1):
    rows, cols = np.array([1., 3., 5., 7.]), np.array([1., 3., 4., 6., 8.])
    lon, lat = grid(place)
    def go():
        args = (rows, cols), (np.arange(8.), np.arange(10.))
        obj = GeoInterpolator((lon, lat), *args, 1, order, chunk) if geo else Interpolator([lon, lat], *args, 1, order, chunk)
        obj.fill_borders("y", "x")
        return flat(obj.interpolate())
    return go


def same_object(rows_coincide, geo):
    rows, cols = np.array([1., 3., 5., 7.]), np.array([1., 3., 4., 6., 8.])
    lon, lat = grid("mid")
    hrows = rows if rows_coincide else np.linspace(1, 7, 5)
    def make():
        args = (rows, cols), (hrows, np.arange(1., 9.))
        return GeoInterpolator((lon, lat), *args) if geo else Interpolator([lon, lat], *args)
    obj = shared(("int", rows_coincide, geo), make)
    return lambda: flat(obj.interpolate())


def one(cls, opts, call, place, target, chunks=None, key=None):
    lon, lat = grid(place)
    if cls in (SingleGridInterpolator, SingleSplineInterpolator):
        make = lambda: cls(P45, lon, **opts)
    else:
        make = lambda: cls(P45, lon, lat, **opts)
    def go():
        obj = shared(key, make) if key else make()
        kw = dict(call)
        if chunks:
            kw["chunks"] = chunks
        res = obj.interpolate(target, **kw)
        return flat(res if isinstance(res, np.ndarray) or hasattr(res, "dask") else list(res))
    return go


def basic(place):
    lon, lat = grid(place)
    return lambda: flat(BasicSatelliteInterpolator(np.arange(5) * 3, np.arange(4) * 2, lon, lat).interpolate())


def vii(place, n, geo, lazy=False):
    lon, lat, z = lib.swath(place, n, rows=3, cols=4)
    def go():
        arrs = [xr.DataArray(da.from_array(a, chunks=(3, -1)) if lazy else a.copy(), dims=("y", "x")) for a in (lon, lat)]
        res = tie_points_geo_interpolation(*arrs, 3, 3) if geo else tie_points_interpolation(arrs, 3, 3)
        return flat(res)
    return go


def preset(name, place):
    fn = {"generic": generic_modis5kmto1km}.get(name) or getattr(geotiepoints, name)
    if name == "metop20kmto1km":
        lon, lat, _ = lib.swath(place, 1, rows=2, cols=105)
    else:
        conv = "modis5kmto1km" if name == "generic" else name
        lon, lat = api.tie_data(conv, place, 1, "f8")
    return lambda: flat(fn(lon.copy(), lat.copy()))


EX = dict(bounds_error=False, fill_value=None)
#: name -> calls; a call alone is built by its index
CALLS = {
    "angle": [lambda: modis("angle_5km_to_1km", "mid", 1, "f4"), lambda: modis("angle_5km_to_1km", "south", 2, "f4"),
              lambda: modis("angle_5km_to_1km", "equator", 1, "f8"), lambda: modis("angle_1km_to_500m", "antimeridian", 1, "f4"),
              lambda: modis("angle_1km_to_250m", "mid", 1, "f4"), lambda: modis("angle_5km_to_500m", "north", 1, "f4", 270),
              lambda: modis("angle_5km_to_250m", "equator", 1, "f4"), lambda: modis("angle_5km_to_1km", "greenwich", 2, "f4", lazy=True)],
    "simple": [lambda: modis("simple_1km_to_500m", "mid", 2, "f4", 5), lambda: modis("simple_1km_to_500m", "south", 1, "f4", 5),
               lambda: modis("simple_1km_to_500m", "equator", 1, "f8", 7), lambda: modis("simple_1km_to_250m", "antimeridian", 2, "f4", 5),
               lambda: modis("simple_1km_to_250m", "mid", 1, "f8", 5), lambda: modis("simple_1km_to_250m", "north", 2, "f8", 4, lazy=True)],
    "multilinear": [lambda: ml(d, t, s) for d, t, s in ((1, "f8", 0), (2, "f8", 0), (2, "f8", 1), (2, "f4", 2), (3, "f8", 0), (3, "f4", 1), (4, "f8", 0), (4, "f8", 1))],
    "multilinear object": [lambda: ml_shared(0.0), lambda: ml_shared(0.37)],
    "borders": [lambda: border("mid", 0, False), lambda: border("south", 4, False), lambda: border("equator", 4, True), lambda: border("mid", 0, True, 3)],
    "interpolator object": [lambda: same_object(False, False), lambda: same_object(False, False)],
    "interpolator object, rows coincide": [lambda: same_object(True, False), lambda: same_object(True, False)],
    "geographic object": [lambda: same_object(False, True), lambda: same_object(False, True)],
    "geographic object, rows coincide": [lambda: same_object(True, True), lambda: same_object(True, True)],
    "grid": [lambda: one(SingleGridInterpolator, EX, {}, "mid", T1), lambda: one(SingleGridInterpolator, EX, {}, "south", T2),
             lambda: one(SingleGridInterpolator, dict(method="pchip"), {}, "mid", T2), lambda: one(SingleGridInterpolator, EX, {}, "mid", T1, (3, 4))],
    "grid object": [lambda: one(SingleGridInterpolator, EX, {}, "mid", T1, None, "g1"), lambda: one(SingleGridInterpolator, EX, {}, "mid", T2, None, "g1"),
                    lambda: one(SingleGridInterpolator, EX, {"method": "nearest"}, "mid", T2, None, "g1"), lambda: one(SingleGridInterpolator, EX, {}, "mid", T2, (3, 4), "g1")],
    "spline object": [lambda: one(SingleSplineInterpolator, dict(kx=1, ky=3), {}, "mid", T1, None, "s1"), lambda: one(SingleSplineInterpolator, dict(kx=1, ky=3), {}, "mid", T2, None, "s1"),
                      lambda: one(SingleSplineInterpolator, dict(kx=1, ky=3), {}, "mid", T2, (3, 4), "s1")],
    "several": [lambda: one(MultipleGridInterpolator, EX, {}, "mid", T1, None, "mg"), lambda: one(MultipleGridInterpolator, EX, {}, "mid", T2, (4, 3), "mg")],
    "geographic grid": [lambda: one(GeoGridInterpolator, EX, {}, "mid", T1, None, "gg"), lambda: one(GeoGridInterpolator, EX, {}, "mid", T2, (4, 3), "gg"),
                        lambda: one(GeoGridInterpolator, EX, {}, "south", T2)],
    "geographic spline": [lambda: one(GeoSplineInterpolator, dict(kx=1, ky=2), {}, "mid", T1, None, "gs"), lambda: one(GeoSplineInterpolator, dict(kx=1, ky=2), {}, "mid", T2, None, "gs")],
    "basic": [lambda: basic("mid"), lambda: basic("south")],
    "vii": [lambda: vii("mid", 2, False), lambda: vii("south", 2, True), lambda: vii("equator", 3, True), lambda: vii("antimeridian", 2, True, True)],
    "presets": [lambda: preset("modis5kmto1km", "mid"), lambda: preset("generic", "south"), lambda: preset("metop20kmto1km", "mid"),
                lambda: preset("metop20kmto1km", "antimeridian"), lambda: preset("modis5kmto1km", "equator")],
}


#: the pairs of the quick tier where these are not all
QUICK = {"presets": {(0, 0), (0, 4), (1, 1), (2, 3), (3, 3), (0, 1)},
         "vii": {(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (3, 0), (3, 3)},
         "geographic grid": {(0, 0), (0, 1), (0, 2), (1, 0), (2, 2), (2, 0)},
         "angle": {(i, j) for i in range(8) for j in range(8) if i == j or 0 in (i, j) or {i, j} in ({3, 4}, {5, 6}, {2, 6})}}


def build(kind, i):
    return CALLS[kind][i]()


_ALONE = {}


def alone(kind, i):
    if (kind, i) not in _ALONE:
        first = build(kind, i)()
        compare("%s %d repeated" % (kind, i), build(kind, i)(), first)
        _ALONE[kind, i] = first
    return _ALONE[kind, i]


def verdict(what, a, b, case):
    ka, ia, kb, ib = case[:4]
    compare(what + ": the interrupted call", a.result, alone(ka, ia))
    compare(what + ": the interrupting call", b.result, alone(kb, ib))


def run_python(case, rec):
    ka, ia, kb, ib, opcodes, depth, part = case
    fa, fb = build(ka, ia), build(kb, ib)
    alone(ka, ia), alone(kb, ib)
    na, nb = switched(fa, fb, NEVER, NEVER, opcodes)
    na, nb = na.events, nb.events
    rec.sample = "%d x %d hand-over points" % (na, nb)
    rec.outcome((na, nb))
    for p in range(part[0], na, part[1]):
        qs = [WHOLE] + (list(range(nb)) if depth == 2 else [])
        for q in qs:
            a, b = switched(fa, fb, p, q, opcodes)
            rec.step()
            rec.state((ka, ia, kb, ib, p, q))
            verdict("%s %d stopped at point %d, %s %d %s" % (ka, ia, p, kb, ib, "whole" if q == WHOLE else "to point %d" % q), a, b, case)
    rec.trace()


def run_compiled(case, rec):
    ka, ia, kb, ib, most = case
    fa, fb = build(ka, ia), build(kb, ib)
    alone(ka, ia), alone(kb, ib)
    _forget()
    a, b = preempted(fa, fb, 10 ** 15)
    total = _rt.mc_count(1)
    if not total and ka in ("angle", "simple", "multilinear", "multilinear object"):
        raise RuntimeError("nothing of the compiled code was seen without the interpreter lock")
    stops = sorted({min(max(0, s + k), total) for s in [_rt.mc_sect(i) for i in range(_rt.mc_nsect())] + [0, total] for k in (-1, 0)})
    rec.sample = "%d accesses without the lock, %d of B" % (total, _rt.mc_count(2))
    if os.environ.get("MC_DEBUG"):
        print(case, rec.sample, stops, flush=True)
    # record the accesses of both: once with A not started, once with A stopped at its last access
    conflicts = set()
    for stop in (0, max(total - 1, 0)):
        _forget()
        a, b = preempted(fa, fb, stop, record=1)
        verdict("%s %d stopped at access %d of %d" % (ka, ia, stop, total), a, b, case)
        n = _rt.mc_conflicts()
        rec.step(_rt.mc_count(1) + _rt.mc_count(2))
        if n:
            # where A touches these addresses
            a, b = preempted(fa, fb, stop, collect=1)
            k = min(_rt.mc_npoints(), 1 << 20)
            pts = [_rt.mc_point(i) for i in range(k)]
            if len(pts) > most:
                keep = set(pts[:most // 4]) | set(pts[-most // 4:]) | set(pts[::max(1, 2 * len(pts) // most)])
                pts = sorted(keep)
            conflicts.update(pts)
    rec.outcome((ka, ia, kb, ib, len(conflicts)))
    for stop in sorted(set(stops) | conflicts):
        a, b = preempted(fa, fb, stop)
        rec.step()
        rec.state((ka, ia, kb, ib, stop))
        verdict("%s %d stopped at access %d of %d made without the lock, %s %d run in between" % (ka, ia, stop, total, kb, ib), a, b, case)
    rec.trace()


def _cold_count(ka, ia, kb, ib, how, most):
    """Stopping points of A in a process in which nothing was called before."""
    fa, fb = build(ka, ia), build(kb, ib)
    if how == "python":
        seen, stops = {}, []
        for n, w in enumerate(switched(fa, fb, NEVER, NEVER, False)[0].where):
            seen[w] = seen.get(w, 0) + 1
            if seen[w] <= most:
                stops.append(n)
        return stops
    _forget()
    preempted(fa, fb, 10 ** 15)
    total = _rt.mc_count(1)
    return sorted({min(max(0, s + k), total) for s in [_rt.mc_sect(i) for i in range(_rt.mc_nsect())] + [0, total] for k in (-1, 0)})


def _cold_conflicts(ka, ia, kb, ib, stop, most):
    """Where A touches what B touches too, when B comes in at `stop` of a cold start; in two processes, as the second finds the first's caches."""
    fa, fb = build(ka, ia), build(kb, ib)
    _forget()
    preempted(fa, fb, stop, record=1)
    if not _rt.mc_conflicts():
        return []
    pts = []
    for word in (0, 1):
        preempted(build(ka, ia), build(kb, ib), stop, collect=1)
        k = min(_rt.mc_npoints(), 1 << 20)
        pts += [_rt.mc_point(i) for i in range(k)]
    pts = sorted(set(pts))
    return pts if len(pts) <= most else sorted(set(pts[:most // 4]) | set(pts[-most // 4:]) | set(pts[::max(1, 2 * len(pts) // most)]))


def _cold_run(ka, ia, kb, ib, how, stop):
    fa, fb = build(ka, ia), build(kb, ib)
    a, b = switched(fa, fb, stop, WHOLE, False) if how == "python" else preempted(fa, fb, stop)
    return a.result, b.result


def run_cold(case, rec):
    """As above with the first calls of a process: every execution in a process of its own."""
    ka, ia, kb, ib, how, most = case
    want = [in_child(lambda k, i: build(k, i)(), *c) for c in ((ka, ia), (kb, ib))]
    stops = in_child(_cold_count, ka, ia, kb, ib, how, most)
    rec.sample = "%d stopping points" % len(stops)
    if how == "compiled":
        stops = sorted(set(stops) | set(in_child(_cold_conflicts, ka, ia, kb, ib, max(stops[-1] - 1, 0), most)))
    for stop in stops:
        a, b = in_child(_cold_run, ka, ia, kb, ib, how, stop)
        rec.step()
        rec.state(tuple(case) + (stop,))
        what = "first calls of a process, %s %d stopped at %s point %d, %s %d run in between: " % (ka, ia, how, stop, kb, ib)
        compare(what + "the interrupted call", a, want[0])
        compare(what + "the interrupting call", b, want[1])
    rec.trace()
    rec.outcome((ka, ia, kb, ib, how, len(stops)))


def spaces(tier, seed):
    deep = tier == "thorough"
    comp, py = [], []
    small = {k: range(len(v)) for k, v in CALLS.items()}
    for kind in ("angle", "simple", "multilinear", "multilinear object"):
        for i in small[kind]:
            for j in small[kind]:
                comp.append((kind, i, kind, j, 20000 if deep else 400))
    for i, j in ((0, 0), (2, 2), (3, 3)):
        comp += [("angle", i, "simple", j, 400), ("simple", j, "angle", i, 400)]
    kinds = list(CALLS)
    for kind in kinds:
        for i in small[kind]:
            for j in small[kind]:
                if not deep and (i, j) not in QUICK.get(kind, {(i, j)}):
                    continue
                parts = 4 if kind in ("presets", "angle") else 2
                for k in range(parts):
                    py.append((kind, i, kind, j, False, 1, (k, parts)))
                if deep:
                    for k in range(16):
                        py.append((kind, i, kind, j, True, 1, (k, 16)))
    two = [("interpolator object, rows coincide", 0, 1), ("geographic object, rows coincide", 0, 1), ("interpolator object", 0, 1),
           ("geographic object", 0, 1), ("grid object", 0, 1), ("spline object", 0, 1), ("several", 0, 0), ("geographic grid", 0, 0),
           ("geographic spline", 0, 1), ("multilinear object", 0, 1), ("multilinear", 1, 2), ("simple", 0, 1), ("angle", 0, 1)]
    pairs = [(k, i, k, j, False, 2, (n, 8)) for k, i, j in two for n in range(8)]
    if deep:
        pairs += [(k, i, k, j, False, 2, (n, 16)) for k in kinds if k != "presets" for i in small[k] for j in small[k] for n in range(16)]
    cross = [(a, 0, b, 0, False, 1, (0, 1)) for n, a in enumerate(kinds) for m, b in enumerate(kinds)
             if a != b and (deep or (m - n) % len(kinds) in (1, 5) or {a, b} == {"angle", "simple"})]
    cold = []
    for kind in kinds:
        n = len(CALLS[kind])
        for i in small[kind]:
            for j in sorted({i, (i + 1) % n} if not deep else set(small[kind])):
                if kind in ("angle", "simple", "multilinear", "multilinear object"):
                    cold.append((kind, i, kind, j, "compiled", 400 if deep else 24))
                if deep or i == 0 or j == i and kind != "presets":
                    cold.append((kind, i, kind, j, "python", 10 ** 9 if deep else 2))
    return [Space("first calls of a process", cold, run_cold, "pairs of calls: every section border, conflicting accesses (compiled code), every line and call (Python; quick: the first two times each)",
                  batch=1, fresh=True),
            Space("compiled code", comp, run_compiled, "pairs of calls of the compiled interpolators: every section border and conflicting access", batch=1),
            Space("Python code, one switch", py + cross, run_python, "pairs of calls: every line and call of the first", batch=1),
            Space("Python code, two switches", pairs, run_python, "pairs of points of two calls", batch=1)]
