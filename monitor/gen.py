"""Seeded generators of hostile but valid input.  No pyirf in here."""
import numpy as np
import astropy.units as u
from astropy.table import QTable

ENERGY_UNITS = ("TeV", "GeV", "MeV", "erg", "J")
ANGLE_UNITS = ("deg", "rad", "arcmin", "arcsec")


def pick(rng, *options):
    return options[int(rng.integers(len(options)))]


def chance(rng, p):
    return bool(rng.random() < p)


def energy_unit(rng):
    return u.Unit(pick(rng, "TeV", "TeV", "TeV", "GeV", "GeV", "MeV", "erg"))


def angle_unit(rng):
    return u.Unit(pick(rng, "deg", "deg", "deg", "rad", "arcmin", "arcsec"))


def increasing(rng, n, low, high, log=False, kind=None):
    """n strictly increasing numbers from low to high"""
    kind = kind or pick(rng, "uniform", "uniform", "random", "skewed")
    if kind == "uniform" or n <= 2:
        x = np.linspace(0, 1, n)
    elif kind == "random":
        steps = rng.uniform(0.15, 1.0, n - 1)
        x = np.append(0, np.cumsum(steps)) / steps.sum()
    else:
        steps = np.geomspace(1, pick(rng, 8.0, 30.0), n - 1)
        rng.shuffle(steps)
        x = np.append(0, np.cumsum(steps)) / steps.sum()
    if log:
        out = low * (high / low) ** x
    else:
        out = low + (high - low) * x
    out[0], out[-1] = low, high
    return out


#: number of bins of all axes without given number, set for each case
AXIS = None


def many(rng):
    """Now and then a number of bins for a very fine axis"""
    return int(rng.integers(128, 400)) if AXIS is None and chance(rng, 0.015) else None


def energy_edges(rng, n=None, low=None, high=None, unit=None, overflow=None):
    """Energy bin edges as quantity, the values are given in TeV for low / high"""
    if n is None and AXIS:
        n = AXIS
    elif n is None:
        n = pick(rng, 1, 2, 3, 4, 5, 7, 10)
        if chance(rng, 0.03):
            n = int(rng.integers(12, 120))
    if low is None:
        low = 10 ** rng.uniform(-2.3, -0.5) if not chance(rng, 0.08) else 10 ** rng.uniform(-7, 4)
    high = high if high is not None else low * 10 ** rng.uniform(0.4, 3.5)
    e = increasing(rng, n + 1, low, high, log=True)
    if chance(rng, 0.2):  # linear steps
        e = increasing(rng, n + 1, low, high)
    edges = u.Quantity(e, u.TeV)
    unit = unit or energy_unit(rng)
    edges = edges.to(unit)
    if overflow if overflow is not None else False:
        edges = u.Quantity(np.concatenate([[0.0], edges.value, [np.inf]]), unit)
    return edges


def angle_edges(rng, n=None, low=0.0, high=None, unit=None):
    """Non-negative angle bin edges, low / high in deg"""
    if n is None and AXIS:
        n = AXIS
    elif n is None:
        n = int(rng.integers(8, 50)) if chance(rng, 0.03) else pick(rng, 1, 2, 3, 4, 6)
    if high is None:
        high = rng.uniform(max(low, 0.3) * 1.2, 8.0)
        if chance(rng, 0.06):
            high = max(low * 1.2, pick(rng, 10 ** rng.uniform(-3, 0), rng.uniform(10, 60), rng.uniform(60, 179)))
    e = increasing(rng, n + 1, low, high)
    return u.Quantity(e, u.deg).to(unit or angle_unit(rng))


def sym_edges(rng, n=None, half=None, unit=None):
    """Angle edges covering both signs, for field of view lon / lat"""
    if n is None and AXIS:
        n = AXIS
    elif n is None:
        n = int(rng.integers(8, 40)) if chance(rng, 0.03) else pick(rng, 1, 2, 3, 4, 5)
    if half is None:
        half = rng.uniform(0.5, 6.0) if not chance(rng, 0.06) else pick(rng, 10 ** rng.uniform(-3, -0.5), rng.uniform(6, 85))
    lo = -half * pick(rng, 1.0, 1.0, 0.5, 0.2)
    e = increasing(rng, n + 1, lo, half)
    return u.Quantity(e, u.deg).to(unit or angle_unit(rng))


def values_in(rng, edges, n, out=0.15, log=True, nan=0.0, inf=0.0):
    """n values (Quantity) around the edges, none closer than 1e-9 to an edge"""
    unit = edges.unit
    e = edges.value
    fin = e[np.isfinite(e)]
    lo, hi = fin[0], fin[-1]
    if log:
        lo_ = lo if lo > 0 else (fin[1] * 1e-2 if len(fin) > 1 else hi * 1e-2)
        x = lo_ * (hi / lo_) ** rng.random(n)
        if out:
            m = rng.random(n) < out
            x[m] = np.where(
                rng.random(m.sum()) < 0.5,
                lo_ * 10 ** -rng.uniform(0.01, 2, m.sum()),
                hi * 10 ** rng.uniform(0.01, 2, m.sum()),
            )
    else:
        x = rng.uniform(lo, hi, n)
        if out:
            m = rng.random(n) < out
            w = hi - lo
            x[m] = np.where(
                rng.random(m.sum()) < 0.5,
                lo - w * rng.uniform(0.01, 1, m.sum()),
                hi + w * rng.uniform(0.01, 1, m.sum()),
            )
    # keep clear of the edges
    d = np.abs(x[:, None] - fin[None]) <= 1e-9 * (np.abs(fin[None]) + (hi - lo) * 1e-3)
    bad = d.any(axis=1)
    x[bad] = x[bad] * 1.0001 + 1e-6 * (hi - lo)
    if nan:
        x[rng.random(n) < nan] = np.nan
    if inf:
        x[rng.random(n) < inf] = np.inf
    return u.Quantity(x, unit)


def n_events(rng, large=0.003):
    """Size of a sample, rarely one that exceeds the size of any buffer"""
    if large and chance(rng, large):
        return int(rng.integers(70_000, 300_000))
    return int(pick(rng, 0, 1, 2, 3, 7, 12, 40, 100, 250, 400))


def sphere(rng, n, max_alt=85.0):
    az = rng.uniform(0, 360, n)
    alt = np.rad2deg(np.arcsin(rng.uniform(np.sin(np.deg2rad(-20)), np.sin(np.deg2rad(max_alt)), n)))
    return az, alt


def offset_direction(az, alt, sep, pa):
    """Point at separation sep and position angle pa (east of north), in deg"""
    az, alt, sep, pa = (np.deg2rad(x) for x in (az, alt, sep, pa))
    s = np.sin(alt) * np.cos(sep) + np.cos(alt) * np.sin(sep) * np.cos(pa)
    alt2 = np.arcsin(np.clip(s, -1, 1))
    daz = np.arctan2(
        np.sin(pa) * np.sin(sep) * np.cos(alt), np.cos(sep) - np.sin(alt) * np.sin(alt2)
    )
    return np.rad2deg(az + daz) % 360, np.rad2deg(alt2)


def f32(q):
    return u.Quantity(q.value.astype(np.float32), q.unit, dtype=np.float32)


def events(
    rng, n=None, e_edges=None, fov_max=6.0, theta_scale=0.1, units=True, weight=None,
    extra=True,
):
    """An event table with everything the irf functions may need"""
    n = n_events(rng) if n is None else n
    eu = energy_unit(rng) if units else u.TeV
    edges = e_edges if e_edges is not None else energy_edges(rng)
    fin = edges[np.isfinite(edges.value) & (edges.value > 0)].to_value(u.TeV)
    lo, hi = fin[0], fin[-1]
    t = QTable()
    if chance(rng, 0.2):  # steep spectrum, nearly all events at low energies
        true_e = lo * (hi / lo) ** np.minimum(rng.exponential(rng.uniform(0.03, 0.3), n), 1.2)
    else:
        true_e = np.clip(lo * (hi / lo) ** rng.uniform(-0.15, 1.15, n), 1e-9, None)
    reco_e = true_e * np.exp(rng.normal(rng.normal(0, 0.1), rng.uniform(0.02, 0.5), n))
    t["true_energy"] = u.Quantity(true_e, u.TeV).to(eu)
    t["reco_energy"] = u.Quantity(reco_e, u.TeV).to(energy_unit(rng) if units else u.TeV)

    p_az, p_alt = sphere(rng, 1, 80.0)
    if chance(rng, 0.5):
        p_az, p_alt = np.full(n, p_az[0]), np.full(n, max(p_alt[0], 5.0))
        if chance(rng, 0.3):  # tracking
            jitter = 10 ** rng.uniform(-4, -0.5)
            p_az, p_alt = p_az + rng.uniform(-jitter, jitter, n), p_alt + rng.uniform(-jitter, jitter, n)
    else:
        p_az, p_alt = sphere(rng, n, 80.0)
    off = fov_max * np.sqrt(rng.random(n))
    t_az, t_alt = offset_direction(p_az, p_alt, off, rng.uniform(0, 360, n))
    r_az, r_alt = offset_direction(
        t_az, t_alt, np.abs(rng.normal(0, theta_scale, n)), rng.uniform(0, 360, n)
    )

    def ang(x):
        return u.Quantity(x, u.deg).to(angle_unit(rng) if units else u.deg)

    t["pointing_az"], t["pointing_alt"] = ang(p_az), ang(p_alt)
    t["true_az"], t["true_alt"] = ang(t_az), ang(t_alt)
    t["reco_az"], t["reco_alt"] = ang(r_az), ang(r_alt)

    def sep(a, b, c, d):
        a, b, c, d = (np.deg2rad(x) for x in (a, b, c, d))
        v1 = np.array([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)])
        v2 = np.array([np.cos(d) * np.cos(c), np.cos(d) * np.sin(c), np.sin(d)])
        return np.rad2deg(
            np.arctan2(np.linalg.norm(np.cross(v1.T, v2.T), axis=-1), (v1 * v2).sum(axis=0))
        )

    t["theta"] = ang(sep(r_az, r_alt, t_az, t_alt))
    t["true_source_fov_offset"] = ang(sep(t_az, t_alt, p_az, p_alt))
    t["reco_source_fov_offset"] = ang(sep(r_az, r_alt, p_az, p_alt))
    t["gh_score"] = rng.beta(2, 2, n)
    if extra:
        t["multiplicity"] = rng.integers(1, 8, n)
    w = chance(rng, 0.7) if weight is None else weight
    if w:
        t["weight"] = 10 ** rng.uniform(-3, 2, n)
        if chance(rng, 0.3) and n:
            t["weight"][rng.random(n) < 0.2] = 0.0
    if units and chance(rng, 0.15):
        for c in ("reco_energy", "true_energy", "theta"):
            t[c] = f32(t[c])
    return t


def vary_weights(rng, t, signed=True):
    """Weights of any order of magnitude, equal or integer ones, and differences of samples"""
    n = len(t)
    if chance(rng, 0.15):
        t["weight"] = np.full(n, rng.uniform(0.1, 10))
    elif chance(rng, 0.1):
        t["weight"] = rng.integers(0, 5, n)
    if chance(rng, 0.25):
        t["weight"] = t["weight"] * 10.0 ** rng.uniform(-30, 30)
    if signed and chance(rng, 0.2):
        t["weight"] = t["weight"] * rng.choice([-1, 1], n, p=pick(rng, [0.5, 0.5], [0.9, 0.1]))
    return t


def unit_vectors(lon, lat):
    lon, lat = np.asarray(lon, float), np.asarray(lat, float)
    return np.stack(
        [np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1
    )


def separation(lon1, lat1, lon2, lat2):
    """Angle between two directions in rad, independent of astropy"""
    a, b = np.broadcast_arrays(unit_vectors(lon1, lat1), unit_vectors(lon2, lat2))
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), (a * b).sum(axis=-1))


def bin_of(x, edges):
    """Reference half open binning, -1: not in any bin"""
    x = np.asarray(x, dtype=float)
    out = np.full(x.shape, -1)
    if len(edges) < 2:
        return out
    for i in range(len(edges) - 1):
        out[(x >= edges[i]) & (x < edges[i + 1])] = i
    return out


def bin_of_closed(x, edges):
    """As bin_of, but the last bin includes its upper edge"""
    out = bin_of(x, edges)
    out[np.asarray(x, dtype=float) == edges[-1]] = len(edges) - 2
    return out


def near_edge(x, edges, rtol=1e-9):
    """True for values that cannot be assigned beyond doubt"""
    x = np.asarray(x, dtype=float)
    e = np.asarray(edges, dtype=float)
    e = e[np.isfinite(e)]
    scale = np.abs(e).max() if len(e) else 1.0
    return (np.abs(x[..., None] - e) <= rtol * np.maximum(np.abs(e), 1e-6 * scale)).any(axis=-1)
