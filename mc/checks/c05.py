"""C05: using several worker processes does not change the result.

The worker pool is replaced by one that runs the submitted work (with arguments and results pickled, as between
processes) and lets the explorer decide the order in which the workers finish: every completion order is tried.  Real
pools are run for a few configurations, so that the replacement itself is checked.  The split helper is enumerated.
"""
import concurrent.futures
import functools
import itertools
import math
import multiprocessing
import multiprocessing.pool
import pickle

import numpy as np

import geotiepoints

from .. import api, lib
from ..core import Space, Violation

PROPERTY = "C05"
ASSUMPTIONS = [
    "1 to 8 scans; every completion order of up to 4 (quick) or 5 (thorough) parts, for more parts every rotation, reversal and swap",
    "the pool replacement models: work runs once, in another process (arguments and results are copied), finishing in any order",
    "reference: the same function with one core (its correctness is C21)",
]


class _Job:
    def __init__(self, pool, fun, args, kwds, callback=None, error_callback=None):
        self.pool, self.callback, self.error_callback = pool, callback, error_callback
        self.payload = pickle.dumps((fun, args, kwds))
        self.finished = False
        self.error = self.value = None

    def _finish(self):
        fun, args, kwds = pickle.loads(self.payload)
        try:
            self.value = pickle.loads(pickle.dumps(fun(*args, **kwds)))
        except Exception as err:
            self.error = err
        self.finished = True
        self.pool.log.append(self)
        if self.error is None and self.callback:
            self.callback(self.value)
        if self.error is not None and self.error_callback:
            self.error_callback(self.error)

    def get(self, timeout=None):
        while not self.finished:
            self.pool.advance()
        if self.error is not None:
            raise self.error
        return self.value

    result = get

    def wait(self, timeout=None):
        while not self.finished:
            self.pool.advance()

    def ready(self):
        return self.finished

    done = ready

    def successful(self):
        return self.error is None


class _Many:
    def __init__(self, jobs):
        self.jobs = jobs

    def get(self, timeout=None):
        return [j.get() for j in self.jobs]

    def wait(self, timeout=None):
        self.get()

    def ready(self):
        return all(j.finished for j in self.jobs)


class FakePool:
    """A process pool whose completion order is chosen by `order` (a function number of jobs -> permutation)."""

    order = None
    instances = []

    def __init__(self, *args, **kwargs):
        self.jobs, self.log, self.plan = [], [], None
        FakePool.instances.append(self)

    def advance(self):
        if self.plan is None or len(self.plan) < len(self.jobs):
            self.plan = FakePool.order(len(self.jobs))
        for k in self.plan:
            if not self.jobs[k].finished:
                self.jobs[k]._finish()
                return
        raise RuntimeError("nothing left to finish")

    def _add(self, *args):
        job = _Job(self, *args)
        self.jobs.append(job)
        return job

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._add(func, tuple(args), dict(kwds), callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def submit(self, fn, /, *args, **kwargs):
        return self._add(fn, args, kwargs)

    def map_async(self, func, iterable, chunksize=None, **kw):
        return _Many([self._add(func, (x,), {}) for x in iterable])

    def starmap_async(self, func, iterable, chunksize=None, **kw):
        return _Many([self._add(func, tuple(x), {}) for x in iterable])

    def map(self, func, *iterables, chunksize=None, timeout=None):
        return _Many([self._add(func, x, {}) for x in zip(*iterables)]).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        jobs = [self._add(func, (x,), {}) for x in iterable]
        return iter([j.get() for j in jobs])

    def imap_unordered(self, func, iterable, chunksize=1):
        jobs = [self._add(func, (x,), {}) for x in iterable]
        for j in jobs:
            j.wait()
        return iter([j.get() for j in self.log if j in jobs])

    def close(self):
        pass

    def join(self):
        while any(not j.finished for j in self.jobs):
            self.advance()

    def terminate(self):
        pass

    def shutdown(self, *a, **k):
        self.join()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


def _as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f.wait()
    order = {id(j): k for p in FakePool.instances for k, j in enumerate(p.log)}
    return iter(sorted(fs, key=lambda f: order[id(f)]))


class patched:
    """Replace every way of getting a process pool."""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        FakePool.order = staticmethod(self.order)
        FakePool.instances = []
        ctxs = [multiprocessing] + [multiprocessing.get_context(m) for m in (None, "fork", "spawn", "forkserver")]
        self.saved = []
        targets = [(c, "Pool") for c in ctxs] + [(concurrent.futures, "ProcessPoolExecutor"), (concurrent.futures, "as_completed")]
        import sys
        for name, mod in list(sys.modules.items()):
            if name == "geotiepoints" or name.startswith("geotiepoints."):
                for attr in ("Pool", "ProcessPoolExecutor", "as_completed"):
                    if hasattr(mod, attr):
                        targets.append((mod, attr))
        for obj, attr in targets:
            self.saved.append((obj, attr, obj.__dict__.get(attr)))
            setattr(obj, attr, _as_completed if attr == "as_completed" else FakePool)
        return self

    def __exit__(self, *exc):
        for obj, attr, old in reversed(self.saved):
            if old is None:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)


@functools.lru_cache(16)
def data(name, place, scans, dtype):
    args = api.tie_data(name, place, scans, dtype)
    return args, getattr(geotiepoints, name)(args[0].copy(), args[1].copy())


def permutations(n, full):
    if n <= full:
        return list(itertools.permutations(range(n)))
    base = list(range(n))
    res = [tuple(base), tuple(base[::-1])]
    res += [tuple(base[k:] + base[:k]) for k in range(1, n)]
    for k in range(n - 1):
        p = base[:]
        p[k], p[k + 1] = p[k + 1], p[k]
        res.append(tuple(p))
    return list(dict.fromkeys(res))


def run_order(case, rec):
    name, place, scans, cores, dtype, full = case
    args, want = data(name, place, scans, dtype)
    tried = set()
    todo = [None]
    while todo:
        plan = todo.pop()
        sizes = []

        def order(n):
            sizes.append(n)
            return plan if plan is not None and len(plan) == n else tuple(range(n))
        with patched(order):
            got = getattr(geotiepoints, name)(args[0].copy(), args[1].copy(), cores=cores)
        n = max([len(p.jobs) for p in FakePool.instances] or [0])
        if plan is None:
            tried.add(tuple(range(n)))
            todo = [p for p in permutations(n, full) if p != tuple(range(n))]
        rec.step(max(n, 1))
        rec.trace()
        rec.state((name, place, scans, cores, dtype, plan))
        rec.outcome((name, place, scans, n))
        lib.same_places("%s of %d scans on %d cores, workers finishing in order %s" % (name, scans, cores, plan), *got, want,
                        1e-3 if dtype == "f8" else 1.0)


def run_alike(case, rec):
    """Parts that resemble each other are still processed each for itself."""
    name, place, variants, per, dtype = case
    one = api.tie_data(name, place, per, dtype)
    parts = [one] + [one if v is None else lib.near(one, v) for v in variants]
    lon, lat = (np.concatenate([p[k] for p in parts]) for k in range(2))
    want = [np.concatenate(r) for r in zip(*[getattr(geotiepoints, name)(p[0].copy(), p[1].copy()) for p in parts])]
    for cores, order in ((len(parts), lambda n: tuple(range(n))), (len(parts), lambda n: tuple(range(n))[::-1])):
        with patched(order):
            got = getattr(geotiepoints, name)(lon.copy(), lat.copy(), cores=cores)
        lib.same_places("%s, scans alike except %s, on %d cores" % (name, variants, cores), *got, want, 1e-3 if dtype == "f8" else 1.0)
        rec.step(len(parts))
        rec.trace()
        rec.state((name, place, str(variants), per, dtype))


def run_real(case, rec):
    name, place, scans, cores, dtype = case
    args, want = data(name, place, scans, dtype)
    got = getattr(geotiepoints, name)(args[0].copy(), args[1].copy(), cores=cores)
    lib.same_places("%s of %d scans on %d real cores" % (name, scans, cores), *got, want, 1e-3 if dtype == "f8" else 1.0)
    rec.state(tuple(case))
    rec.step()
    rec.trace()


def run_splits(case, rec):
    scan, top, cpus = case
    for lines in range(1, top):
        splits = list(geotiepoints.get_scene_splits(lines, scan, cpus))
        what = "get_scene_splits(%d, %d, %d) = %s" % (lines, scan, cpus, splits[:20])
        if any(s % scan for s in splits):
            raise Violation("%s: not at whole scans" % what)
        if any(not 0 < s < lines for s in splits):
            raise Violation("%s: not inside the swath" % what)
        if any(b <= a for a, b in zip(splits, splits[1:])):
            raise Violation("%s: not increasing" % what)
        arr = np.arange(lines)[:, None]
        parts = np.vsplit(arr, splits)
        if not np.array_equal(np.vstack(parts), arr) or any(len(p) == 0 for p in parts):
            raise Violation("%s: lines lost or duplicated" % what)
        rec.step()
        rec.state((lines, scan, cpus))
        rec.outcome(tuple(splits))
    rec.trace(top - 1)


def spaces(tier, seed):
    deep = tier == "thorough"
    res = []
    cases = []
    for name, maxscans in (("modis1kmto500m", 8 if deep else 6), ("modis1kmto250m", 6 if deep else 4)):
        for scans in range(1, maxscans + 1):
            for cores in range(2, maxscans + 3):
                if not deep and name == "modis1kmto250m" and cores > 5:
                    continue
                cases.append((name, "antimeridian", scans, cores, "f8", (5 if scans < 6 else 4) if deep else (4 if scans < 5 else 3)))
        cases.append((name, "north", 3, 3, "f4", 4))
        for scans, cores in ((12, 5), (20, 3), (11, 4)) if deep else ((12, 5),):
            cases.append((name, "mid", scans, cores, "f8", 2))
    cases.sort(key=lambda c: -c[2])
    res.append(Space("completion orders", cases, run_order, "all scan counts and core counts up to the bounds; every completion order "
                     "of up to 4 parts, else rotations, reversal and neighbour swaps", batch=1, timeout=600))
    def spots(a):
        return [(r, c) for r in (0, a.shape[0] // 2, a.shape[0] - 1) for c in (0, a.shape[1] // 2, a.shape[1] - 1)]
    alike = []
    for name, place in (("modis1kmto500m", "mid"), ("modis1kmto250m", "antimeridian")):
        for dtype in ("f8", "f4") if deep else ("f8",):
            names = [v for v in lib.near_names(api.tie_data(name, place, 1, dtype), spots) if v[0] != "exchange"]
            alike += [(name, place, [v], 1, dtype) for v in [None] + names]
            alike += [(name, place, p, 1, dtype) for v in names[::1 if deep else 4] for p in ([None, v], [v, None], [v, v])]
    res.append(Space("similar scans", alike, run_alike, "swaths of 2 and 3 scans that differ in one element, or agree in one, in the first or last row or column, "
                     "in all of one array, or everywhere", batch=1, timeout=600))
    cases = [(n, "equator", s, c, "f8") for n in ("modis1kmto500m", "modis1kmto250m") for s, c in
             [(1, 2), (2, 2), (3, 2), (5, 4), (5, 8)] + ([(8, 3), (13, 5), (16, 16), (7, 7)] if deep else [])]
    res.append(Space("real pools", cases, run_real, "a few scan and core counts on real processes", batch=1))
    res.append(Space("scene splits", [(scan, (61 if deep else 33) * scan, cpus) for scan in (1, 2, 3, 5, 10)
                                      for cpus in range(1, 41)]
                     + [(scan, 41 * scan, cpus) for scan in (40, 16) for cpus in (1, 2, 3, 7, 8, 24, 64)], run_splits,
                     "every number of lines up to 32 scans of 1, 2, 3, 5 and 10 lines, 1..40 cores"))
    return res
