"""C19: every output element is determined by the inputs.

Every function is run with freshly allocated memory filled in different ways: the results must not differ in a single bit,
and must be what the reference models say.  The extension modules are built with every index expression checked.  Every
ordered pair of calls is run: the second gives what it gives in a process of its own.
"""
import ctypes
import gc
import multiprocessing
import os
import pickle
import sys

import numpy as np

from geotiepoints.multilinear import MultilinearInterpolator

from .. import api, lib
from ..core import Space, Violation, in_child
from . import c18

FLAVOUR = "bounds"
PROPERTY = "C19"
ASSUMPTIONS = [
    "fresh memory: everything obtained through numpy.empty and numpy.empty_like, and through malloc (filled by mallopt(M_PERTURB)); "
    "local C variables of the extension modules start with a pattern",
    "accesses outside arrays are seen where Cython code indexes an array or view (boundscheck), not in numpy, scipy or pandas",
]

_problems = []


def _unraisable(args):
    _problems.append("%s: %s" % (args.exc_type.__name__, args.exc_value))


sys.unraisablehook = _unraisable
_libc = ctypes.CDLL(None)
_real_empty, _real_like = np.empty, np.empty_like
_fill = [None]


def _poison(a):
    v = _fill[0]
    if v is not None:
        kind = a.dtype.kind
        if kind in "fc":
            a.fill(v)
        elif kind in "iu":
            a.fill({True: 0}.get(v == 0, 113))
        elif kind == "b":
            a.fill(v != 0)
    return a


def _empty(*args, **kw):
    return _poison(_real_empty(*args, **kw))


def _like(*args, **kw):
    return _poison(_real_like(*args, **kw))


class fresh_memory:
    """Fresh memory holds `value`, raw memory the byte `byte`."""

    def __init__(self, value, byte):
        self.value, self.byte = value, byte

    def __enter__(self):
        _fill[0] = self.value
        np.empty, np.empty_like = _empty, _like
        _libc.mallopt(-6, (self.byte ^ 0xff) or 0x100)

    def __exit__(self, *exc):
        _fill[0] = None
        np.empty, np.empty_like = _real_empty, _real_like
        _libc.mallopt(-6, 0)


POISONS = [(float("nan"), 0xff), (0.0, 0x00), (777.25, 0x7f), (-1e30, 0xfe), (float("inf"), 0x41), (1e-300, 0x01)]


_quiet = []


def execute(name, fun, args):
    if not _quiet and multiprocessing.parent_process() is not None:
        # Cython prints every unraisable exception
        _quiet.append(os.dup2(os.open(os.devnull, os.O_WRONLY), 2))
    got = c18.arrays(c18.outputs(fun(*[np.array(a) for a in args])))
    if _problems:
        msg = _problems[0]
        del _problems[:]
        raise Violation("%s: access outside of an array: %s" % (name, msg))
    return [g.copy() for g in got]


def same_bits(what, got, ref):
    for n, (g, r) in enumerate(zip(got, ref)):
        if g.dtype != r.dtype or g.shape != r.shape:
            raise Violation("%s: output %d is %s %s instead of %s %s" % (what, n, g.dtype, g.shape, r.dtype, r.shape))
        diff = ~((g == r) | ((g != g) & (r != r)))
        if diff.any():
            w = tuple(map(int, np.argwhere(diff)[0]))
            raise Violation("%s: output %d differs at %s: %r and %r; %d of %d elements differ" % (what, n, w, g[w], r[w], int(diff.sum()), diff.size))


def run_poison(case, rec):
    name, variant = case
    fun, args = call_of(name, variant)
    results = []
    for poison in POISONS:
        with fresh_memory(*poison):
            results.append(execute(name, fun, args))
        rec.step()
        same_bits("%s (%s): fresh memory holding %r or %r" % (name, variant, poison[0], POISONS[0][0]), results[-1], results[0])
        rec.state((name, variant, poison))
    rec.outcome([float(np.nansum(r)) for r in results[0]])
    rec.trace()


def varied(a, variant):
    if a.ndim != 2 or variant == "plain":
        return a
    if variant == "reversed":
        return np.ascontiguousarray(a[::-1, ::-1])
    if variant == "missing":
        a = a.copy()
        a[1::3, 1::2] = np.nan
        return a
    if variant == "all missing":
        return np.full_like(a, np.nan)
    if variant == "constant":
        return np.full_like(a, 12.5)
    if variant == "zero":
        return np.zeros_like(a)
    raise ValueError(variant)


VARIANTS = ["plain", "reversed", "missing", "all missing", "constant", "zero"]


def call_of(name, variant):
    fun, args, _ = c18.CATALOGUE[name]
    return fun, [varied(a, variant) for a in args]


def admissible(name, variant):
    """scipy's splines reject missing values."""
    return "missing" not in variant or not any(k in name for k in ("interpolator", "spline", "geo ", "modis5kmto1km", "modis1kmto", "metop", "pyresample",
                                                                   "pchip", "slinear", "generic")) and not name.startswith("geo")


# ---------------------------------------------------------------- the compiled interpolators, all shapes

def run_shapes(case, rec):
    conv, nscans, width, dtype, place = case
    if place in ("missing", "level", "beyond"):
        args = api.tie_data(conv, "mid", nscans, dtype, width)
        if place == "missing":
            for a in args:
                a[::3, ::4] = np.nan
        elif place == "level":
            for a in args[2:]:
                a[...] = 0
        else:
            for a in args:
                a *= 1e6
    else:
        args = api.tie_data(conv, place, nscans, dtype, width)
    fun = api.CONV[conv][0]
    results = []
    for poison in POISONS[:3]:
        with fresh_memory(*poison):
            results.append(execute(str(case), fun, args))
        rec.step()
        same_bits("%s: fresh memory %r" % (case, poison[0]), results[-1], results[0])
    if place not in ("missing", "level", "beyond"):
        lib.same_places(str(case), results[0][0], results[0][1], api.reference(conv, args), api.tolerance(args))
    rec.state(tuple(case))
    rec.outcome(round(float(np.nansum(results[0][0])), 1))
    rec.trace()


def run_multilinear(case, rec):
    orders, nvalues, npoints, kind, dtype = case
    dt = {"f8": np.float64, "f4": np.float32}[dtype]
    d = len(orders)
    n = int(np.prod(orders))
    smin, smax = np.arange(d) - 1.0, np.arange(d) * 2.0 + 1
    base = np.array([[(0.29 * (i + 1) * (k + 1)) % 1.0 for i in range(npoints)] for k in range(d)]).reshape(d, npoints)
    s = smin[:, None] + base * (smax - smin)[:, None]
    special = {"inside": 0, "nodes": 0, "huge": 1e300 if dtype == "f8" else 1e38, "tiny": -1e30, "nan": np.nan, "inf": np.inf, "minus inf": -np.inf, "beyond int": 2.0 ** 31,
               "beyond long": 2.0 ** 63}[kind]
    if kind == "nodes":
        s = smin[:, None] + np.round(base * (np.array(orders)[:, None] - 1)) / (np.array(orders)[:, None] - 1) * (smax - smin)[:, None]
    elif kind != "inside":
        for i in range(npoints):
            s[i % d, i] = special
        if npoints:
            s[:, -1] = special
    vals = np.array([[np.sin(0.7 * i + k) for i in range(n)] for k in range(nvalues)]).reshape(nvalues, n)
    results = []
    for poison in POISONS[:4]:
        with fresh_memory(*poison):
            results.append(execute(str(case), lambda a: MultilinearInterpolator(smin, smax, orders, vals, dtype=dt)(a), [s]))
        rec.step()
        same_bits("%s: fresh memory %r" % (case, poison[0]), results[-1], results[0])
    if kind in ("inside", "nodes"):
        lib.same_values(str(case), results[0][0], lib.multilinear(smin, smax, orders, vals, s.astype(dt)), 1e-10 if dtype == "f8" else 1e-4)
    rec.state((tuple(orders), nvalues, npoints, kind, dtype))
    rec.trace()


# ---------------------------------------------------------------- histories

def in_new_process(name, variant):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            fun, args = call_of(name, variant)
            data = pickle.dumps(execute(name, fun, args))
        except BaseException as err:
            data = pickle.dumps(repr(err))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        res = pickle.loads(f.read())
    os.waitpid(pid, 0)
    if isinstance(res, str):
        raise Violation("%s alone: %s" % (name, res))
    return res


def run_history(case, rec):
    name, variant, others = case
    fun, args = call_of(name, variant)
    alone = in_new_process(name, variant)
    for other, var in others:
        f2, a2 = call_of(other, var)
        execute(other, f2, a2)
        same_bits("%s (%s) after %s (%s)" % (name, variant, other, var), execute(name, fun, args), alone)
        rec.step(2)
        rec.state((name, variant, other, var))
    rec.trace()


def run_repeat(case, rec):
    name, variant = case
    fun, args = call_of(name, variant)
    alone = in_new_process(name, variant)
    for k in range(4):
        with fresh_memory(*POISONS[k]):
            same_bits("%s (%s), call %d" % (name, variant, k), execute(name, fun, args), alone)
        gc.collect()
        rec.step()
    rec.state((name, variant))
    rec.trace()


def run_long(case, rec):
    """The first answer again after many different calls; the last of them as if it were the only one."""
    name, count = case
    fun, args = call_of(name, "plain")
    k = [n for n, a in enumerate(args) if a.dtype.kind == "f" and a.ndim == 2]
    k = k[0] if k else None
    alone = in_new_process(name, "plain")
    same_bits("%s, first call" % name, execute(name, fun, args), alone)
    for n in range(count):
        other = [a.copy() for a in args]
        if k is not None:
            other[k] += 0.001 * (n + 1)
        got = execute(name, fun, other)
        if n == count - 1:
            same_bits("%s after %d different calls" % (name, n + 1), got, in_child(execute, name, fun, other))
        rec.step()
    for n in range(count):
        got = execute(name, fun, args)
        if n in (0, 1, count - 1):
            same_bits("%s, first call again after %d different ones, time %d" % (name, count, n), got, alone)
        rec.step()
    rec.state(tuple(case))
    rec.trace()


def run_near(case, rec):
    """A call with A, then with B that hardly differs from A, then with A again."""
    name, variant = case
    fun, a = call_of(name, "plain")
    b = lib.near(a, variant)
    try:
        alone = [in_child(execute, name, fun, args) for args in (a, b)]
    except Violation:
        if variant[0] in ("one", "all") and a[variant[1]].ndim == 1:
            return  # not admissible as a grid or target
        raise
    for n, w in enumerate((0, 1, 0)):
        same_bits("%s: call %d; the arguments of the calls differ by %s" % (name, n, variant), execute(name, fun, (a, b)[w]), alone[w])
        rec.step()
        rec.state((name, str(variant), n))
    rec.trace()
    rec.outcome((name, [float(np.nansum(x)) for x in alone[1]]))


def near_cases(names, heavy, deep):
    res = []
    for name in names:
        args = call_of(name, "plain")[1]
        for k, a in enumerate(args):
            if a.dtype.kind != "f":
                continue
            points = [p for p in ([0] * a.ndim, [n // 2 for n in a.shape], [n - 1 for n in a.shape], [0] + [n // 2 for n in a.shape[1:]])]
            if a.ndim == 2 and a.size < 30:
                points = [list(p) for p in np.ndindex(*a.shape)]
            vs = [["one", k, p] for n, p in enumerate(points) if p not in points[:n]] + [["all", k]]
            if a.ndim == 2:
                vs += [["swap", k]] + [["keep", k, w] for w in ("first row", "last row", "first column", "last column", "border", "interior", "corners", "diagonal")]
            if not deep and name in heavy:
                vs = [v for v in vs if v[0] == "all" or v[-1] in ("border", "first row")] if k != 1 else vs[:3]
            tiny = [["one", k, [n // 2 for n in a.shape], 1e-6], ["all", k, 1e-6]]
            vs += tiny if deep or name not in heavy else tiny[k % 2:][:1]
            res += [(name, v) for v in vs]
    return res


def spaces(tier, seed):
    deep = tier == "thorough"
    names = list(c18.CATALOGUE)
    poison = [(n, v) for n in names for v in VARIANTS if admissible(n, v)]
    shapes = []
    for conv in api.CONV:
        family, per = api.CONV[conv][4], api.CONV[conv][1]
        if family == "legacy":
            continue
        widths = list(range(2, 60 if deep else 24)) + [1354] if family == "simple" else ([270, 271] if per == 2 else [None])
        places = ["mid", "north", "antimeridian", "missing", "level", "beyond"] if family == "angle" else ["mid", "north", "missing", "beyond"]
        for w in widths:
            for n in (1, 2, 3) if w != 1354 else (1, 2):
                for dt in ("f4", "f8"):
                    for pl in places:
                        if deep or family == "simple" or per == 2 and n < 3 and "250m" not in conv or (n == 1 and dt == "f4"):
                            shapes.append((conv, n, w, dt, pl))
    ml = []
    import itertools
    for d in (1, 2, 3, 4):
        for orders in itertools.product((2, 3, 5) if d < 3 or deep else (2, 3), repeat=d):
            for kind in ("inside", "nodes", "huge", "tiny", "nan", "inf", "minus inf", "beyond int", "beyond long"):
                for dt in ("f8", "f4"):
                    for nv, npts in ((1, 1), (2, 5), (3, 0), (1, 9)):
                        ml.append((list(orders), nv, npts, kind, dt))
    heavy = [n for n in names if ("angle" in n and ("250m" in n or "5km_to_500m" in n)) or "modis1km" in n]
    light = [n for n in names if n not in heavy]
    others = [(n, v) for k, n in enumerate(light) for v in (("plain", "reversed") if deep else ("plain",) if k % 2 else ("reversed",))]
    hist = []
    for n in names:
        group = n.split()[0]
        mine = others if n in light else []
        near = [(h, v) for h in heavy for v in ("plain", "reversed") if h.split("_")[0] == group.split("_")[0]] if (deep or n in heavy or group.startswith("angle_5km_to_1km")) else []
        for v in ("plain", "reversed") if deep or n not in heavy else ("plain",):
            hist.append((n, v, [list(x) for x in mine + near]))
    rep = [(n, v) for n in names for v in ("plain", "reversed", "constant")]
    return [Space("fresh memory", poison, run_poison, "every function x 6 kinds of data x 6 fillings of memory"),
            Space("shapes of the compiled interpolators", shapes, run_shapes, "scans, widths, dtypes, places; 3 fillings; index-checked"),
            Space("multilinear", ml, run_multilinear, "orders 2, 3, 5 in 1..4 dimensions; special points; 4 fillings; index-checked"),
            Space("repeated", rep, run_repeat, "4 calls against one in a new process", fresh=True),
            Space("many calls", [(n, c) for n in names for c in ((6,) if n in heavy else (40, 260) if deep else (40,))], run_long,
                  "40 (thorough 260) different calls, and the first one 40 times again", batch=1, fresh=True),
            Space("calls that hardly differ", near_cases(names, heavy, deep), run_near, "a call, the call with one element, all but one row, column or border of one "
                  "argument changed, and the first call again", fresh=True),
            Space("pairs of calls", hist, run_history, "every ordered pair of functions and data", batch=1, fresh=True)]
