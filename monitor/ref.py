"""Independent reference models shared by several properties"""
import math
import numpy as np


def lima(n_on, n_off, alpha):
    """Formula 17 of Li & Ma, 0 for no excess"""
    n_on, n_off, alpha = float(n_on), float(n_off), float(alpha)
    if math.isnan(n_on) or math.isnan(n_off):
        return math.nan
    if n_on <= alpha * n_off:
        return 0.0
    n = n_on + n_off
    # expected on / off counts without a source
    e_on = alpha / (1 + alpha) * n
    e_off = n / (1 + alpha)
    # x log(x / e) - (x - e), both summands are >= 0, no cancellation
    def dev(x, e):
        if x == 0:
            return e
        d = (x - e) / e
        if abs(d) < 1e-3:
            # series of e * ((1 + d) log(1 + d) - d)
            return e * d * d * (0.5 - d / 6 + d * d / 12 - d ** 3 / 20)
        return x * math.log(x / e) - (x - e)

    return math.sqrt(2 * (dev(n_on, e_on) + dev(n_off, e_off)))


def relative_sensitivity(
    n_on, n_off, alpha, min_significance=5, min_signal_events=10,
    min_excess_over_background=0.05, significance=lima,
):
    """Smallest scaling of the excess that fulfills all conditions, by bisection"""
    n_on, n_off, alpha = float(n_on), float(n_off), float(alpha)
    if math.isnan(n_on) or math.isnan(n_off):
        return math.nan
    background = alpha * n_off
    signal = n_on - background
    if signal <= 0:
        return math.inf

    lo, hi = -60.0, 60.0  # log of the number of signal events
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if significance(math.exp(mid) + background, n_off, alpha) < min_significance:
            lo = mid
        else:
            hi = mid
    needed = math.exp(0.5 * (lo + hi))
    needed = max(needed, min_signal_events, min_excess_over_background * background)
    return needed / signal


def percentile(x, q):
    """Linear interpolation between the closest ranks, nan ignored"""
    x = np.sort(np.asarray(x, float)[~np.isnan(np.asarray(x, float))])
    if len(x) == 0:
        return math.nan
    pos = q / 100 * (len(x) - 1)
    i = min(int(math.floor(pos)), len(x) - 1)
    j = min(i + 1, len(x) - 1)
    return x[i] + (pos - i) * (x[j] - x[i])


def weighted_mean(x, w):
    return float((x * w).sum() / w.sum())


def gaussian_filter_nearest(x, sigma, axis=0):
    """Gaussian filter with values at the borders repeated, cut at 4 sigma"""
    x = np.moveaxis(np.asarray(x, float), axis, 0)
    r = int(4.0 * float(sigma) + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / sigma) ** 2)
    k /= k.sum()
    n = len(x)
    out = np.zeros_like(x)
    for i in range(n):
        for j in range(-r, r + 1):
            out[i] += k[j + r] * x[min(max(i + j, 0), n - 1)]
    return np.moveaxis(out, 0, axis)


class Ambiguous(Exception):
    """An event is too close to an edge to be assigned beyond doubt"""


def column(values, edges, canonical):
    """Plain float values and edges in the canonical unit, ambiguity is an exception"""
    import astropy.units as u
    from . import gen

    canonical = u.Unit(canonical)
    if not hasattr(values, "unit") or values.unit is None:
        values = u.Quantity(values, u.one)
    if not hasattr(edges, "unit"):
        edges = u.Quantity(edges, u.one)
    x = np.asarray(values.to_value(canonical), float)
    e = np.asarray(edges.to_value(canonical), float)
    if not (values.unit == canonical and edges.unit == canonical):
        if gen.near_edge(x, e, 1e-5 if values.dtype == np.float32 else 1e-9).any():
            raise Ambiguous()
    return x, e


def histogram(columns, weights=None):
    """N dimensional histogram, last bins include their upper edge"""
    from . import gen

    n = len(columns[0][0])
    w = np.ones(n) if weights is None else np.asarray(weights, float)
    shape = tuple(len(e) - 1 for _, e in columns)
    out = np.zeros(shape)
    idx = [gen.bin_of_closed(x, e) for x, e in columns]
    for k in range(n):
        i = tuple(int(b[k]) for b in idx)
        if min(i) >= 0:
            out[i] += w[k]
    return out


def cone_diff(edges_rad):
    """Solid angle between neighboring opening angles, without cancellation"""
    a, b = edges_rad[:-1], edges_rad[1:]
    return 4 * np.pi * np.sin((b - a) / 2) * np.sin((b + a) / 2)


def rect_solid_angle(lon, lat):
    dlat = 2 * np.cos((lat[1:] + lat[:-1]) / 2) * np.sin((lat[1:] - lat[:-1]) / 2)
    return np.diff(lon)[:, None] * dlat[None, :]
