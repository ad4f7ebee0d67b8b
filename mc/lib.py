"""Reference models, data generators and comparisons.  Nothing in here uses geotiepoints."""
import numpy as np

from .core import Violation

R = 6370997.0            # sphere of the package [m]
R_VII = 6371008.7714
NAN = float("nan")


# ---------------------------------------------------------------- geometry

def unit(lon, lat):
    lon = np.deg2rad(np.asarray(lon, dtype=np.float64))
    lat = np.deg2rad(np.asarray(lat, dtype=np.float64))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1)


def distance(lon1, lat1, lon2, lat2):
    """Distance in metres through the Earth."""
    return R * np.sqrt(((unit(lon1, lat1) - unit(lon2, lat2)) ** 2).sum(axis=-1))


def to_lonlat(xyz, radius=R, thr=0.8, low_lat_z=True, margin=1e-6):
    """(lon, lat, other lat): longitude, latitude by the documented rule and, near the threshold, by the other rule."""
    x, y, z = xyz[..., 0], xyz[..., 1], xyz[..., 2]
    with np.errstate(all="ignore"):
        lon = np.rad2deg(np.arctan2(y, x))
        by_z = np.rad2deg(np.arcsin(np.clip(z / radius, -1, 1)))
        by_xy = np.sign(z) * np.rad2deg(np.arccos(np.clip(np.hypot(x, y) / radius, 0, 1)))
        zn = np.abs(z / radius)
        low = (zn < thr) & bool(low_lat_z)
        lat = np.where(low, by_z, by_xy)
        near = np.abs(zn - thr) < margin
        alt = np.where(near, np.where(low, by_xy, by_z), lat)
    bad = np.isnan(x) | np.isnan(y) | np.isnan(z)
    return np.where(bad, NAN, lon), np.where(bad, NAN, lat), np.where(bad, NAN, alt)


def same_places(what, lon, lat, ref, tol):
    """ref is (lon, lat) or (lon, lat, other admissible lat)."""
    lon, lat = np.asarray(lon), np.asarray(lat)
    rlon, rlat = np.asarray(ref[0]), np.asarray(ref[1])
    if lon.shape != rlon.shape or lat.shape != rlat.shape:
        raise Violation("%s: shape %s/%s instead of %s" % (what, lon.shape, lat.shape, rlon.shape))
    nan, rnan = np.isnan(lon) | np.isnan(lat), np.isnan(rlon) | np.isnan(rlat)
    if (nan != rnan).any():
        w = np.argwhere(nan != rnan)
        raise Violation("%s: %d elements are missing values in only one of result and expectation, first at %s: got %r,%r expected %r,%r"
                        % (what, len(w), tuple(map(int, w[0])), lon[tuple(w[0])], lat[tuple(w[0])], rlon[tuple(w[0])], rlat[tuple(w[0])]))
    dist = distance(lon, lat, rlon, rlat)
    if len(ref) > 2:
        dist = np.minimum(dist, distance(lon, lat, rlon, ref[2]))
    dist = np.where(nan, 0, dist)
    if dist.size and not dist.max() <= tol:
        w = np.unravel_index(np.nanargmax(np.where(np.isnan(dist), np.inf, dist)), dist.shape)
        raise Violation("%s: off by %.6g m (tolerance %g m) at %s: got %r,%r expected %r,%r; %d of %d elements differ"
                        % (what, dist[w], tol, tuple(map(int, w)), lon[w], lat[w], rlon[w], rlat[w], int((dist > tol).sum()), dist.size))
    return float(dist.max()) if dist.size else 0.0


def same_values(what, got, ref, tol, scale=None):
    got, ref = np.asarray(got), np.asarray(ref)
    if got.shape != ref.shape:
        raise Violation("%s: shape %s instead of %s" % (what, got.shape, ref.shape))
    nan, rnan = np.isnan(got), np.isnan(ref)
    if (nan != rnan).any():
        w = tuple(map(int, np.argwhere(nan != rnan)[0]))
        raise Violation("%s: missing value in only one of result and expectation at %s: got %r expected %r" % (what, w, got[w], ref[w]))
    inf = np.isinf(ref)
    with np.errstate(invalid="ignore"):
        diff = np.where(rnan | (inf & (got == ref)), 0, np.abs(got.astype(np.float64) - ref.astype(np.float64)))
    if scale is None:
        fin = np.abs(ref[np.isfinite(ref)]) if ref.size else ref
        scale = max(1.0, float(fin.max())) if fin.size else 1.0
    if diff.size and not diff.max() <= tol * scale:
        w = np.unravel_index(np.argmax(np.where(np.isnan(diff), np.inf, diff)), diff.shape)
        raise Violation("%s: off by %.6g (tolerance %g) at %s: got %r expected %r; %d of %d elements differ"
                        % (what, diff[w], tol * scale, tuple(map(int, w)), got[w], ref[w], int((diff > tol * scale).sum()), diff.size))
    return float(diff.max()) if diff.size else 0.0


# ---------------------------------------------------------------- swaths

#: name -> (latitude, longitude, heading) of the first sub-satellite point
PLACES = {
    "equator": (0.31, 10.4, 347.0),
    "antimeridian": (-4.7, 179.93, 351.0),
    "north": (89.35, 40.0, 2.0),
    "south": (-89.8, -130.0, 181.0),
    "mid": (47.3, -119.6, 193.0),
    "greenwich": (52.6, 0.4, 12.0),
    "threshold": (53.0, 95.0, 90.0),
}


def swath(place, nscans, shift=0.0, rows=10, cols=1354, fov=110.0):
    """1 km longitude, latitude and zenith angle of a MODIS-like swath (float64); place is a name or (lat, lon, heading)."""
    lat0, lon0, head = PLACES[place] if isinstance(place, str) else place
    n = unit(lon0 + shift, lat0)
    lo, la, h = np.deg2rad(lon0 + shift), np.deg2rad(lat0), np.deg2rad(head)
    east = np.array([-np.sin(lo), np.cos(lo), 0])
    north = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])
    t = np.cos(h) * north + np.sin(h) * east
    alt = 705e3
    theta = (np.arange(cols) - (cols - 1) / 2) * np.deg2rad(fov / cols)
    gamma = np.arcsin((R + alt) / R * np.sin(theta)) - theta
    slant = np.where(np.abs(theta) < 1e-9, alt, R * np.sin(gamma) / np.where(theta == 0, 1, np.sin(theta)))
    satz = np.rad2deg(np.abs(theta + gamma))
    lons, lats = [], []
    for s in range(nscans):
        a = s * 10e3 / R
        ns, ts = np.cos(a) * n + np.sin(a) * t, np.cos(a) * t - np.sin(a) * n
        c = np.cross(ns, ts)
        for r in range(rows):
            b = ((r - (rows - 1) / 2) * 1e3 * slant / alt / R)[:, None]
            p = np.cos(gamma)[:, None] * ns + np.sin(gamma)[:, None] * c
            p = np.cos(b) * p + np.sin(b) * ts
            lons.append(np.rad2deg(np.arctan2(p[:, 1], p[:, 0])))
            lats.append(np.rad2deg(np.arcsin(np.clip(p[:, 2], -1, 1))))
    return np.array(lons), np.array(lats), np.tile(satz, (nscans * rows, 1))


def five_km(*arrs, width=271):
    return tuple(np.ascontiguousarray(a[2::5, 2::5][:, :width]) for a in arrs)


# ---------------------------------------------------------------- MODIS references

def _bilinear_scan(field, y, x, ci, cj):
    """field (rows, cols, k) at rows y, columns x given the cell indexes; linear beyond the cell."""
    t = (y - ci)[:, None, None]
    s = (x - cj)[None, :, None]
    a, b = field[ci][:, cj], field[ci][:, cj + 1]
    d, c = field[ci + 1][:, cj], field[ci + 1][:, cj + 1]
    return (1 - t) * ((1 - s) * a + s * b) + t * ((1 - s) * d + s * c)


def ref_simple_scan_xyz(xyz, factor):
    rows, cols = xyz.shape[:2]
    y = np.arange(rows * factor) / factor - {2: 0.25, 4: 0.375}[factor]
    x = np.arange(cols * factor) / factor
    ci = np.clip(np.floor(y).astype(int), 0, rows - 2)
    cj = np.clip(np.floor(x).astype(int), 0, cols - 2)
    return _bilinear_scan(xyz, y, x, ci, cj)


def ref_simple(lon, lat, factor):
    xyz = R * unit(lon, lat)
    out = [ref_simple_scan_xyz(xyz[k:k + 10], factor) for k in range(0, xyz.shape[0], 10)]
    return to_lonlat(np.concatenate(out), margin=1e-4)


def angle_cells(coarse, fine, width):
    """Fine pixel coordinates relative to the tie point cell they use, and that cell: y, x, ci, cj, fine per coarse."""
    fp = coarse // fine
    per_km = 1000 // fine
    nrows = 10 if coarse == 1000 else 2
    fine_rows, fine_cols = nrows * fp, 1354 * per_km
    # tie row i is centred on fine rows i*fp .. i*fp+fp-1; tie column j is at fine column j*fp (+ 2 km for 5 km data)
    y = np.arange(fine_rows) - (fp - 1) / 2.0
    x = np.arange(fine_cols) - (0 if coarse == 1000 else 2 * per_km)
    ci = np.clip(np.floor(y / fp).astype(int), 0, nrows - 2)
    cj = np.clip(np.floor(x / fp).astype(int), 0, width - 2)
    return y - ci * fp, x - cj * fp, ci, cj, fp


def ref_angle(lon, lat, satz, coarse, fine):
    """The CVIIRS expansion/alignment scheme, scan by scan (double precision)."""
    rk, hk = 6370.997, 709.0
    nrows = 10 if coarse == 1000 else 2
    width = lon.shape[1]
    y, x, ci, cj, fp = angle_cells(coarse, fine, width)
    xyz = R * unit(lon, lat)
    zen = np.deg2rad(np.asarray(satz, dtype=np.float64))
    res = []
    for k in range(0, lon.shape[0], nrows):
        za, zb = zen[k:k + nrows - 1, :-1], zen[k:k + nrows - 1, 1:]
        pa, pb = np.arcsin(rk * np.sin(za) / (rk + hk)), np.arcsin(rk * np.sin(zb) / (rk + hk))
        ta, tb = za - pa, zb - pb
        phi = (pa + pb) / 2
        zeta = np.arcsin((rk + hk) * np.sin(phi) / rk)
        theta = zeta - phi
        den = np.where(ta == tb, 2 * ta, ta - tb)
        with np.errstate(all="ignore"):
            c_exp = 4 * ((ta + tb) / 2 - theta) / den
            d = ((rk + hk) / rk * np.cos(phi) - np.cos(zeta)) * (coarse // 1000) / (2 * hk)
            e = np.cos(zeta) - np.sqrt(np.cos(zeta) ** 2 - d ** 2)
            c_ali = 4 * e * np.sin(zeta) / den
        c_exp, c_ali = np.where(den == 0, 0, c_exp), np.where(den == 0, 0, c_ali)
        c_exp, c_ali = c_exp[ci][:, cj], c_ali[ci][:, cj]
        t = (y / fp)[:, None]
        s = (x / fp)[None, :]
        a_scan = (s + s * (1 - s) * c_exp + t * (1 - t) * c_ali)[..., None]
        f = xyz[k:k + nrows]
        a, b = f[ci][:, cj], f[ci][:, cj + 1]
        dd, c = f[ci + 1][:, cj], f[ci + 1][:, cj + 1]
        t = t[..., None]
        res.append((1 - t) * ((1 - a_scan) * a + a_scan * b) + t * ((1 - a_scan) * dd + a_scan * c))
    return to_lonlat(np.concatenate(res), margin=1e-4)


# ---------------------------------------------------------------- generic references

def linear_matrix(tie, fine):
    """Piecewise linear interpolation matrix (fine, tie); the border cells extend outwards."""
    tie, fine = np.asarray(tie, float), np.asarray(fine, float)
    c = np.clip(np.searchsorted(tie, fine, side="right") - 1, 0, len(tie) - 2)
    w = (fine - tie[c]) / (tie[c + 1] - tie[c])
    m = np.zeros((len(fine), len(tie)))
    m[np.arange(len(fine)), c] += 1 - w
    m[np.arange(len(fine)), c + 1] += w
    return m


def spline_matrix(tie, fine, k):
    """Interpolation matrix (fine, tie) of the not-a-knot spline of degree k (piecewise linear for k = 1)."""
    from scipy.interpolate import make_interp_spline
    if k == 1:
        return linear_matrix(tie, fine)
    return make_interp_spline(np.asarray(tie, float), np.eye(len(tie)), k=k)(np.asarray(fine, float))


def border_matrix(tie, fine, chunk, early=()):
    """(new tie positions, matrix new tie <- tie) of border filling, per chunk of `chunk` fine positions.

    A tie point exactly between two chunks belongs to the second one, except at the chunk borders whose numbers are in `early`."""
    tie, fine = np.asarray(tie, float), np.asarray(fine, float)
    n = len(fine)
    chunk = chunk or n
    edges = [-np.inf] + [(fine[k - 1] + fine[k]) / 2 for k in range(chunk, n, chunk)] + [np.inf]
    edges = [np.nextafter(e, np.inf) if k in early else e for k, e in enumerate(edges)]
    pos, rows = [], []
    eye = np.eye(len(tie))
    for k, first in enumerate(range(0, n, chunk)):
        mine = np.flatnonzero((tie >= edges[k]) & (tie < edges[k + 1]))
        lo, hi = fine[first], fine[first + chunk - 1]

        def line(i, j, at):
            w = (at - tie[i]) / (tie[j] - tie[i])
            return (1 - w) * eye[i] + w * eye[j]

        if tie[mine[0]] > lo:
            pos.append(lo)
            rows.append(line(mine[0], mine[1], lo))
        for m in mine:
            pos.append(tie[m])
            rows.append(eye[m])
        if tie[mine[-1]] < hi:
            pos.append(hi)
            rows.append(line(mine[-2], mine[-1], hi))
    return np.array(pos), np.array(rows)


def preset_matrices(name, lines):
    """Row and column operators of the documented sensor presets for `lines` tie rows."""
    if name == "metop20kmto1km":
        cols = np.array([0] + list(range(4, 2048, 20)) + [2047])
        return np.eye(lines), spline_matrix(cols, np.arange(2048), 3)
    if name in ("modis5kmto1km", "generic_modis5kmto1km"):
        rows, hrows, chunk = np.arange(2, lines * 5, 5), np.arange(lines * 5), 10
        cols, hcols = np.arange(2, 1354, 5), np.arange(1354)
    else:
        f = {"modis1kmto500m": 2, "modis1kmto250m": 4}[name]
        rows, hrows, chunk = np.arange(lines), (np.arange(lines * f) - (f - 1) / 2) / f, 10 * f
        cols, hcols = np.arange(1354), np.arange(1354 * f) / f
    rpos, rmat = border_matrix(rows, hrows, chunk)
    cpos, cmat = border_matrix(cols, hcols, 0)
    return linear_matrix(rpos, hrows) @ rmat, spline_matrix(cpos, hcols, 3) @ cmat


_PRESETS = {}


def ref_preset(name, lon, lat):
    key = (name, lon.shape[0])
    if key not in _PRESETS:
        _PRESETS[key] = preset_matrices(name, lon.shape[0])
    rm, cm = _PRESETS[key]
    xyz = R * unit(lon, lat)
    return to_lonlat(np.stack([rm @ xyz[..., k] @ cm.T for k in range(3)], axis=-1), margin=1e-4)


def multilinear(smin, smax, orders, values, s):
    """Multilinear interpolant with border cells extended outwards."""
    d = len(orders)
    values = np.asarray(values, float).reshape((-1,) + tuple(int(o) for o in orders))
    s = np.asarray(s, float)
    out = np.zeros((values.shape[0], s.shape[1]))
    cell, lam = [], []
    for k in range(d):
        pos = (s[k] - smin[k]) / (smax[k] - smin[k]) * (orders[k] - 1)
        c = np.clip(np.where(np.isnan(pos), 0, np.floor(np.clip(pos, -1, orders[k]))).astype(int), 0, orders[k] - 2)
        cell.append(c)
        lam.append(pos - c)
    for corner in np.ndindex(*(2,) * d):
        w = np.ones(s.shape[1])
        for k in range(d):
            w = w * (lam[k] if corner[k] else 1 - lam[k])
        out += w * values[(slice(None),) + tuple(cell[k] + corner[k] for k in range(d))]
    return out


# ---------------------------------------------------------------- enumeration helpers

def compositions(n, parts=None):
    """All tuples of positive integers summing to n (with at most `parts` parts)."""
    if n == 0:
        yield ()
        return
    if parts is not None and parts <= 0:
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first, None if parts is None else parts - 1):
            yield (first,) + rest


def words(alphabet, maxlen, minlen=1):
    import itertools
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


# ---------------------------------------------------------------- inputs that hardly differ

def near_names(arrays, positions=None):
    """Names of the variants of `near`; positions: list of indexes of an array to change alone (default all)."""
    res = []
    for k, a in enumerate(arrays):
        res += [["one", k, [int(n) for n in p]] for p in (np.ndindex(*a.shape) if positions is None else positions(a))]
        res += [["all", k], ["swap", k]]
        if a.ndim == 2:
            res += [["keep", k, what] for what in ("first row", "last row", "first column", "last column", "border", "interior", "corners", "diagonal")]
    if len(arrays) > 1:
        res += [["exchange", 0, 1]]
    return res


def tiny_names(arrays, deltas=(1e-4, 1e-6)):
    """Variants that differ by very little: one element in the middle of an array, or all of it."""
    return [v for d in deltas for k, a in enumerate(arrays) if a.dtype.kind == "f" and a.size
            for v in (["one", k, [n // 2 for n in a.shape], d], ["all", k, d])]


def near(arrays, name, delta=0.0625):
    """Copies of the arrays that differ in one place, or in all but some places, or in the order of the elements.

    A number at the end of the name says by how much."""
    res = [np.array(a) for a in arrays]
    kind, k = name[:2]
    if isinstance(name[-1], float):
        delta = name[-1]
    a = res[k]
    if kind == "one":
        a[tuple(name[2])] += delta
    elif kind == "all":
        a += delta
    elif kind == "swap":
        flat = a.reshape(-1)
        n = flat.size // 2
        flat[[n - 1, n]] = flat[[n, n - 1]]
    elif kind == "exchange":
        res[0], res[1] = res[1], res[0]
    else:
        keep = np.zeros(a.shape, bool)
        what = name[2]
        if what == "diagonal":
            keep = np.add.outer(np.arange(a.shape[0]), np.arange(a.shape[1])) % 2 == 0
        elif what == "corners":
            keep[::max(1, a.shape[0] - 1), ::max(1, a.shape[1] - 1)] = True
        else:
            if what in ("first row", "border", "interior"):
                keep[0] = True
            if what in ("last row", "border", "interior"):
                keep[-1] = True
            if what in ("first column", "border", "interior"):
                keep[:, 0] = True
            if what in ("last column", "border", "interior"):
                keep[:, -1] = True
            if what == "interior":
                keep = ~keep
        a[~keep] += delta
    return res
