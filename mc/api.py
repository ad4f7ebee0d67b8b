"""Uniform access to the public conversions of the package."""
import numpy as np

import geotiepoints
from geotiepoints import modisinterpolator, simple_modis_interpolator
from geotiepoints.interpolator import generic_modis5kmto1km

from . import lib

#: name -> (function, tie rows per scan, fine rows per scan, number of arguments, family, coarse, fine)
CONV = {}
for _c, _f, _n in ((1000, 500, "1km_to_500m"), (1000, 250, "1km_to_250m"), (5000, 1000, "5km_to_1km"),
                   (5000, 500, "5km_to_500m"), (5000, 250, "5km_to_250m")):
    _r = 10 if _c == 1000 else 2
    CONV["angle_" + _n] = (getattr(modisinterpolator, "modis_" + _n), _r, _r * _c // _f, 3, "angle", _c, _f)
for _f, _n in ((500, "1km_to_500m"), (250, "1km_to_250m")):
    CONV["simple_" + _n] = (getattr(simple_modis_interpolator, "modis_" + _n), 10, 10 * 1000 // _f, 2, "simple", 1000, _f)
for _n, _r, _k, _c, _f in (("modis5kmto1km", 2, 10, 5000, 1000), ("modis1kmto500m", 10, 20, 1000, 500),
                           ("modis1kmto250m", 10, 40, 1000, 250)):
    CONV[_n] = (getattr(geotiepoints, _n), _r, _k, 2, "legacy", _c, _f)


def generic5(lon, lat):
    """The generic 5 km to 1 km function applied to Cartesian coordinates, so that places can be compared."""
    xyz = lib.R * lib.unit(lon, lat)
    x, y, z = generic_modis5kmto1km(xyz[..., 0], xyz[..., 1], xyz[..., 2])
    return lib.to_lonlat(np.stack([x, y, z], axis=-1))[:2]


CONV["generic_modis5kmto1km"] = (generic5, 2, 10, 2, "legacy", 5000, 1000)


def tie_data(conv, place, nscans, dtype, width=None, **kw):
    """Arguments for a conversion: nscans scans of a swath starting at place."""
    _, _, _, nargs, family, coarse, _ = CONV[conv]
    arrs = lib.swath(place, nscans, **kw)
    if coarse == 5000:
        arrs = lib.five_km(*arrs, width=width or 271)
    elif width:
        start = (1354 - width) // 3
        arrs = tuple(a[:, start:start + width] for a in arrs)
    return [np.array(a, dtype=dtype, order="C") for a in arrs[:nargs]]


def call(conv, args):
    """The conversion; always (lon, lat) as given."""
    res = CONV[conv][0](*args)
    return res[0], res[1]


def reference(conv, args):
    """(lon, lat, other lat) by the reference model."""
    _, _, _, _, family, coarse, fine = CONV[conv]
    if family == "angle":
        return lib.ref_angle(*args, coarse, fine)
    if family == "simple":
        return lib.ref_simple(*args, coarse // fine)
    return lib.ref_preset(conv, *args)


def tolerance(args):
    """Admissible rounding in metres, tie spacing up to tens of kilometres."""
    return 1e-3 if all(np.asarray(a).dtype == np.float64 for a in args) else 30.0
