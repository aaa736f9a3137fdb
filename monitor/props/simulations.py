"""Expected number of simulated showers"""
import numpy as np
import astropy.units as u

from ..core import Prop
from .. import gen, pipeline

FILES = ["pyirf/simulations.py", "pyirf/utils.py"]


def energy_fraction(info, bins):
    """Fraction of showers per energy bin: integral of the power law over the overlap"""
    lo, hi = info.energy_min.to_value(u.TeV), info.energy_max.to_value(u.TeV)
    e = bins.to_value(u.TeV)
    k = float(info.spectral_index) + 1
    a = np.clip(e[:-1], lo, hi)
    b = np.clip(e[1:], lo, hi)

    def integral(x, y):
        # \int x^(k - 1), divided by lo^k
        if k == 0:
            return np.log(y / x)
        return (x / lo) ** k * np.expm1(k * np.log(y / x)) / k

    return integral(a, b) / integral(lo, hi)


def energy_rounding(info, bins):
    """Relative uncertainty of energy_fraction: differences of powers cancel for an index near -1"""
    k = float(info.spectral_index) + 1
    cancel = 1.0
    if k != 0:
        ratio = info.energy_max.to_value(u.TeV) / info.energy_min.to_value(u.TeV)
        cancel = 1 / -np.expm1(-abs(k) * np.log(ratio))
    f = energy_fraction(info, bins)
    return 4e-15 * cancel / np.where(f > 0, f, np.inf)


def fov_fraction(info, bins):
    lo, hi = info.viewcone_min.to_value(u.rad), info.viewcone_max.to_value(u.rad)
    e = bins.to_value(u.rad)
    a, b = np.clip(e[:-1], lo, hi), np.clip(e[1:], lo, hi)
    return (np.sin(b / 2) ** 2 - np.sin(a / 2) ** 2) / (np.sin(hi / 2) ** 2 - np.sin(lo / 2) ** 2)


def fov_tol(info):
    lo, hi = info.viewcone_min.to_value(u.rad), info.viewcone_max.to_value(u.rad)
    return 4e-15 / (2 * (np.sin(hi / 2) ** 2 - np.sin(lo / 2) ** 2)) + 1e-12


def random_info(rng, diffuse=True):
    from pyirf.simulations import SimulatedEventsInfo

    lo = 10 ** rng.uniform(-3, 0) if not gen.chance(rng, 0.1) else 10 ** rng.uniform(-7, 4)
    hi = lo * 10 ** (rng.uniform(0.5, 4) if not gen.chance(rng, 0.1) else rng.uniform(4, 8))
    vmin = gen.pick(rng, 0.0, 0.0, rng.uniform(0.1, 3))
    vmax = vmin + rng.uniform(0.3, 10)
    idx = gen.pick(rng, -2, -2.0, -2.7, -1, -1.0, -1.5, rng.uniform(-4, -1.01), rng.uniform(-8, -4), -1 - 10 ** rng.uniform(-6, -1))
    if gen.chance(rng, 0.1):  # up to half and all of the sphere
        vmin, vmax = gen.pick(rng, (0.0, 180.0), (0.0, 90.0), (rng.uniform(0, 90), rng.uniform(90, 180)), (0.0, rng.uniform(10, 180)), (0.0, 10 ** rng.uniform(-2, -0.5)))
    elif gen.chance(rng, 0.1):  # thin shell
        vmin = rng.uniform(1, 10)
        vmax = vmin * (1 + 10 ** rng.uniform(-3.5, -1))
    if gen.chance(rng, 0.08):
        # equal numbers, different units
        x, y = int(gen.pick(rng, 1, 2, 5)), float(gen.pick(rng, 1, 10, 30))
        area = u.Quantity(rng.uniform(100, 3000), u.m).to(gen.pick(rng, "m", "km", "cm"))
        return SimulatedEventsInfo(
            int(rng.integers(1, 10 ** 6)), y * u.GeV, y * u.TeV, area, idx,
            gen.pick(rng, x * u.arcmin, x * u.arcsec), x * u.deg,
        )
    return SimulatedEventsInfo(
        n_showers=gen.pick(rng, 1, 1000, int(1e6), 10 ** rng.uniform(2, 9)),
        energy_min=u.Quantity(lo, u.TeV).to(gen.energy_unit(rng)),
        energy_max=u.Quantity(hi, u.TeV).to(gen.energy_unit(rng)),
        max_impact=u.Quantity(rng.uniform(100, 3000) if not gen.chance(rng, 0.1) else 10 ** rng.uniform(-1, 5), u.m).to(gen.pick(rng, "m", "km", "cm")),
        spectral_index=idx,
        viewcone_min=u.Quantity(vmin, u.deg).to(gen.angle_unit(rng)),
        viewcone_max=u.Quantity(vmax, u.deg).to(gen.angle_unit(rng)),
    )


def bins_for_energy(rng, info):
    lo, hi = info.energy_min.to_value(u.TeV), info.energy_max.to_value(u.TeV)
    kind = gen.pick(rng, "cover", "inside", "partial", "outside", "one", "random", "touch", "overflow", "close")
    if kind == "close":  # edges next to the limits
        near = [x * (1 + s * 10 ** rng.uniform(-5, -1.5)) for x in (lo, hi) for s in (-1, 1) if gen.chance(rng, 0.7)]
        mids = [lo * (hi / lo) ** f for f in (0.0, 0.3, 0.6, 1.0) if gen.chance(rng, 0.6)]
        e = np.unique(near + mids)
        if len(e) > 1:
            return u.Quantity(e, u.TeV).to(gen.energy_unit(rng))
    if kind == "cover":
        a, b = lo * rng.uniform(0.2, 0.9), hi * rng.uniform(1.1, 5)
    elif kind == "inside":
        a, b = lo * (hi / lo) ** 0.2, lo * (hi / lo) ** 0.8
    elif kind == "outside":
        a, b = gen.pick(rng, (lo * 0.01, lo * 0.5), (hi * 2, hi * 30))
    elif kind == "one":
        return u.Quantity([lo * rng.uniform(0.1, 1.5), hi * rng.uniform(0.8, 3)], u.TeV).to(gen.energy_unit(rng))
    elif kind == "touch":
        e = gen.increasing(rng, gen.pick(rng, 2, 4, 8), lo, hi, log=True)
        return u.Quantity(e, u.TeV).to(gen.pick(rng, info.energy_min.unit, info.energy_max.unit, u.TeV))
    else:
        a, b = lo * 10 ** rng.uniform(-1, 1), 0
        b = a * 10 ** rng.uniform(0.2, 4)
    edges = gen.energy_edges(rng, low=a, high=b)
    if kind == "overflow":
        edges = u.Quantity(np.concatenate([[0.0], edges.value, [np.inf]]), edges.unit)
    return edges


def bins_for_fov(rng, info):
    lo, hi = info.viewcone_min.to_value(u.deg), info.viewcone_max.to_value(u.deg)
    kind = gen.pick(rng, "cover", "inside", "outside", "one", "touch", "random")
    if kind == "cover":
        a, b = lo * rng.random(), hi * rng.uniform(1.1, 2)
    elif kind == "inside":
        a, b = lo + 0.3 * (hi - lo), lo + 0.8 * (hi - lo)
    elif kind == "outside":
        a, b = hi * 1.1, hi * 2
    elif kind == "one":
        a = lo * rng.random()
        return u.Quantity([a, max(hi * rng.uniform(0.9, 1.5), 1.01 * a)], u.deg).to(gen.angle_unit(rng))
    elif kind == "touch":
        return u.Quantity(gen.increasing(rng, 5, lo, hi), u.deg)
    else:
        a = rng.uniform(0, hi)
        b = a + rng.uniform(0.1, 8)
    n = gen.pick(rng, 2, 3, 5) if not gen.chance(rng, 0.03) else int(rng.integers(12, 80))
    n = gen.AXIS + 1 if gen.AXIS else n
    return u.Quantity(gen.increasing(rng, n, a, b), u.deg).to(gen.angle_unit(rng))


# ---------------------------------------------------------------------------

N01 = Prop(
    "N01",
    "Expected showers per energy bin integrate the simulated power law",
    "The expected number of simulated showers in an energy bin is the total number times the integral of the normalized power law over the part of the bin "
    "inside of the simulated energy range, for every spectral index of -1 or below and any energy units. So bins outside of the range are empty, bins covering the range hold "
    "all showers, any binning covering the range conserves the total, and splitting bins never changes the sum. "
    "Simulations with a spectral index above -1 or with quantities of the wrong dimension are rejected.",
    ["inputs", "configurations"],
    "all simulation configurations (energy range, index, number of showers, units) and all increasing energy bins, inside, outside, across or around the range, with overflow bins",
    "Tests check a few binnings of one simulation with index -2.",
    FILES,
    [("SimulatedEventsInfo.calculate_n_showers_per_energy", "pyirf/simulations.py"), ("_powerlaw_pdf_integral", "pyirf/simulations.py")],
    "a case is a random simulation and binning judged with an independent integral; non-trivial if a bin overlaps with the range",
    "agreement to 1e-8 relative, or 1e-10 of the total number",
    observe_at=["pyirf.simulations.SimulatedEventsInfo"],
)
T1 = "pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_per_energy"


def _plain(x):
    return np.asarray(u.Quantity(x).to_value(u.one), float)


@N01.monitor(T1)
def _post_energy(ctx, call):
    if call.error is not None:
        return
    bins, info = call.bind("energy_bins")["energy_bins"], call.obj
    want = info.n_showers * energy_fraction(info, bins)
    ctx.close(_plain(call.result), want, "showers per energy bin", rtol=1e-8, atol=1e-10 * info.n_showers,
              info=info, bins=bins)
    if (want > 0).any():
        ctx.nontrivial(bins.to_value(u.TeV), float(info.spectral_index), float(info.n_showers))


@N01.family(800)
def ranges(ctx):
    rng = ctx.rng
    info = ctx.call(random_info, rng)
    bins = bins_for_energy(rng, info)
    n = ctx.call(info.calculate_n_showers_per_energy, bins)
    if len(bins) > 2:
        j = int(rng.integers(1, len(bins) - 1))
        m = ctx.call(info.calculate_n_showers_per_energy, u.Quantity(np.delete(bins.value, j), bins.unit))
        ctx.close(_plain(m).sum(), _plain(n).sum(), "sum depends on the binning", rtol=1e-8, atol=1e-10 * info.n_showers)
    if bins[0] < 0.999 * info.energy_min and bins[-1] > 1.001 * info.energy_max:
        ctx.close(_plain(n).sum(), info.n_showers, "total number is not conserved", rtol=1e-8)
    if gen.chance(rng, 0.1):
        from pyirf.simulations import SimulatedEventsInfo

        ctx.raises(ValueError, SimulatedEventsInfo, 100, info.energy_min, info.energy_max, info.max_impact,
                   float(rng.uniform(-0.99, 3)), info.viewcone_min, info.viewcone_max, message="index above -1")
        args = [info.n_showers, info.energy_min, info.energy_max, info.max_impact, info.spectral_index, info.viewcone_min, info.viewcone_max]
        k = int(gen.pick(rng, 1, 2, 3, 5, 6))
        wrong = u.Quantity(args[k].value, gen.pick(rng, *[x for x in (u.s, u.TeV, u.m, u.deg) if not x.is_equivalent(args[k].unit)]))
        args[k] = gen.pick(rng, wrong, wrong, float(args[k].value))
        ctx.raises((u.UnitsError, TypeError), SimulatedEventsInfo, *args, message="quantity of the wrong dimension")


# ---------------------------------------------------------------------------

N02 = Prop(
    "N02",
    "Expected showers per field of view ring follow the solid angle in the view cone",
    "The expected number of simulated showers in a ring of field of view offsets is the total number times the fraction of the solid angle "
    "of the view cone inside of the ring, for any units and any inner view cone angle; rings outside are empty, and rings covering the view cone hold "
    "all showers. In joint bins of energy and offset the number is the product of the energy and the offset fraction times the total, with energy "
    "as first and offset as second axis. Point-like simulations cannot be binned in the field of view and are rejected.",
    ["inputs", "configurations"],
    "all view cones (with and without inner hole), offset bins and energy bins in any units",
    "Tests check two binnings of one simulation.",
    FILES,
    [("calculate_n_showers_per_fov", "pyirf/simulations.py"), ("calculate_n_showers_per_energy_and_fov", "pyirf/simulations.py"),
     ("_viewcone_pdf_integral", "pyirf/simulations.py")],
    "a case is a random simulation with offset (and energy) bins; non-trivial if a ring overlaps with the view cone",
    "agreement up to the rounding of cosines near one (1e-12 to 1e-10 of the total)",
    observe_at=["pyirf.simulations.SimulatedEventsInfo"],
)


@N02.monitor("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_per_fov")
def _post_fov(ctx, call):
    info = call.obj
    bins = call.bind("fov_bins")["fov_bins"]
    if info.viewcone_min == info.viewcone_max:
        ctx.check(isinstance(call.error, ValueError), "point-like simulation binned in the field of view")
        return
    if call.error is not None:
        return
    want = info.n_showers * fov_fraction(info, u.Quantity(bins))
    ctx.close(_plain(call.result), want, "showers per field of view ring", rtol=1e-8, atol=fov_tol(info) * info.n_showers,
              info=info, bins=bins)
    if (want > 0).any():
        ctx.nontrivial(u.Quantity(bins).value, float(info.viewcone_max.value))


@N02.monitor("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_per_energy_and_fov")
def _post_both(ctx, call):
    if call.error is not None:
        return
    info = call.obj
    a = call.bind("energy_bins", "fov_bins")
    fe, ff = energy_fraction(info, a["energy_bins"]), fov_fraction(info, a["fov_bins"])
    want = info.n_showers * fe[:, None] * ff[None, :]
    ctx.close(_plain(call.result), want, "showers per energy and field of view bin", rtol=1e-7,
              atol=(fov_tol(info) + 1e-10) * info.n_showers, info=info, **a)


@N02.family(800)
def rings(ctx):
    rng = ctx.rng
    info = ctx.call(random_info, rng)
    fov = bins_for_fov(rng, info)
    n = ctx.call(info.calculate_n_showers_per_fov, fov)
    if fov[0] <= info.viewcone_min and fov[-1] >= info.viewcone_max:
        ctx.close(_plain(n).sum(), info.n_showers, "total number is not conserved", rtol=1e-9)
    e = bins_for_energy(rng, info)
    both = ctx.call(info.calculate_n_showers_per_energy_and_fov, e, fov)
    ctx.check(np.shape(both) == (len(e) - 1, len(fov) - 1), "axes are not (energy, offset)", got=np.shape(both))
    if gen.chance(rng, 0.1):
        from pyirf.simulations import SimulatedEventsInfo

        v = gen.pick(rng, info.viewcone_min, 0 * u.deg, info.viewcone_max)
        w = gen.pick(rng, v, v.to("deg"), 0 * u.rad if v.value == 0 else v)
        if w != v:
            v, w = gen.pick(rng, (1 * u.deg, 60 * u.arcmin), (2 * u.arcmin, 120 * u.arcsec), (0 * u.deg, 0 * u.rad))
        p = SimulatedEventsInfo(100, info.energy_min, info.energy_max, info.max_impact, -2, v, w)
        ctx.raises(ValueError, p.calculate_n_showers_per_fov, fov, message="point-like simulation")
        ctx.raises(ValueError, p.calculate_n_showers_per_energy_and_fov, e, fov, message="point-like simulation")


# ---------------------------------------------------------------------------

N03 = Prop(
    "N03",
    "Expected showers in polar field of view bins are uniform in position angle",
    "In bins of energy, offset and position angle, the expected number of simulated showers is the number in the energy and offset bin times the "
    "width of the position angle bin divided by the full circle, with axes in this order. Covering the full circle thus reproduces the result without "
    "position angle, for bins of any width and units.",
    ["inputs", "configurations"],
    "all simulations and all energy, offset and position angle bins (uniform or not, full or partial circle, any unit)",
    "Tests use equal bins over the full circle only.",
    FILES,
    [("calculate_n_showers_3d_polar", "pyirf/simulations.py")],
    "a case is a random simulation with three random binnings; non-trivial if a bin has showers",
    "as for N01 and N02",
    observe_at=["pyirf.simulations.SimulatedEventsInfo"],
)


@N03.monitor("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_3d_polar")
def _post_polar(ctx, call):
    if call.error is not None:
        return
    info = call.obj
    a = call.bind("energy_bins", "fov_offset_bins", "fov_position_angle_bins")
    fe, ff = energy_fraction(info, a["energy_bins"]), fov_fraction(info, a["fov_offset_bins"])
    fp = np.diff(a["fov_position_angle_bins"].to_value(u.rad)) / (2 * np.pi)
    want = info.n_showers * fe[:, None, None] * ff[None, :, None] * fp[None, None, :]
    ctx.close(_plain(call.result), want, "showers per polar field of view bin", rtol=1e-7,
              atol=(fov_tol(info) + 1e-10) * info.n_showers * max(fp.max(), 1e-6), info=info, **a)
    if (want > 0).any():
        ctx.nontrivial(fe, ff, fp)


@N03.family(500)
def polar(ctx):
    rng = ctx.rng
    info = ctx.call(random_info, rng)
    e, fov = bins_for_energy(rng, info), bins_for_fov(rng, info)
    start = rng.uniform(-180, 180)
    full = gen.chance(rng, 0.5)
    if gen.chance(rng, 0.5):
        start = gen.pick(rng, 0.0, -180.0)
    n_pa = gen.pick(rng, 2, 3, 5, 9) if not gen.chance(rng, 0.03) else int(rng.integers(10, 60))
    pa = gen.increasing(rng, n_pa, start, start + (360 if full else gen.pick(rng, rng.uniform(10, 350), rng.uniform(356, 359.9))))
    pa = u.Quantity(pa, u.deg).to(gen.pick(rng, "deg", "rad", "rad", "arcmin"))
    n = ctx.call(info.calculate_n_showers_3d_polar, e, fov, pa)
    ctx.check(np.shape(n) == (len(e) - 1, len(fov) - 1, len(pa) - 1), "axes are not (energy, offset, position angle)",
              got=np.shape(n))
    if full:
        both = ctx.call(info.calculate_n_showers_per_energy_and_fov, e, fov)
        ctx.close(_plain(n).sum(axis=2), _plain(both), "full circle does not give the polar total", rtol=1e-8,
                  atol=1e-10 * info.n_showers)


# ---------------------------------------------------------------------------

N04 = Prop(
    "N04",
    "Expected showers in lon/lat field of view bins cover the view cone exactly once",
    "In bins of energy, field of view longitude and latitude (axes in this order), the expected number of simulated showers is the number in the "
    "energy bin times the solid angle of the part of the bin inside of the view cone over the solid angle of the view cone. It is exact for bins completely inside or outside of "
    "the view cone, while for bins cut by its border the part is determined by sampling the bin with the requested number of subpixels per axis. "
    "Bins covering the view cone therefore hold all showers within this precision, for bins of any size, position and unit, also with an inner view cone angle.",
    ["inputs", "configurations"],
    "all simulations, energy bins and lon / lat bins (non-uniform, larger than the view cone, asymmetric, any unit) and numbers of subpixels",
    "Tests use square bins with equal numbers in both axes for one view cone and compare totals.",
    FILES,
    [("calculate_n_showers_3d_lonlat", "pyirf/simulations.py"), ("_fov_lonlat_grid_overlap", "pyirf/simulations.py"),
     ("rectangle_solid_angle", "pyirf/utils.py")],
    "a case is a random simulation and lon / lat binning, judged by numerical integration of the overlap; non-trivial if a bin is cut by the border",
    "bins cut by the border agree to 2 / subpixels of the bin (worst case of sampling pixel centers), all others to 1e-8; "
    "field of view up to 12 degree",
    observe_at=["pyirf.simulations.SimulatedEventsInfo"],
)


def overlap_area(lon, lat, r):
    """Solid angle of the lon/lat rectangle inside of a circle of radius r around (0, 0)"""
    if r <= 0:
        return 0.0
    a, b = max(lat[0], -r), min(lat[1], r)
    if b <= a:
        return 0.0
    x, w = np.polynomial.legendre.leggauss(16)
    # sub-intervals: the integrand has kinks where the circle crosses the sides
    cuts = [a, b]
    for side in lon:
        c = np.cos(r) / np.cos(side) if np.cos(side) > 0 else 2
        if c <= 1:
            y = np.arccos(c)
            cuts += [v for v in (-y, y) if a < v < b]
    cuts = np.unique(cuts)
    grid = np.unique(np.concatenate([np.linspace(p, q, 12) for p, q in zip(cuts[:-1], cuts[1:])]))
    total = 0.0
    for p, q in zip(grid[:-1], grid[1:]):
        y = 0.5 * (p + q) + 0.5 * (q - p) * x
        half = np.arccos(np.clip(np.cos(r) / np.cos(y), -1, 1))
        length = np.clip(np.minimum(lon[1], half) - np.maximum(lon[0], -half), 0, None)
        total += 0.5 * (q - p) * (w * length * np.cos(y)).sum()
    return total


@N04.monitor("pyirf.simulations:SimulatedEventsInfo.calculate_n_showers_3d_lonlat")
def _post_lonlat(ctx, call):
    if call.error is not None:
        return
    info = call.obj
    a = call.bind("energy_bins", "fov_longitude_bins", "fov_latitude_bins", subpixels=20)
    lon, lat = a["fov_longitude_bins"].to_value(u.rad), a["fov_latitude_bins"].to_value(u.rad)
    fe = energy_fraction(info, a["energy_bins"])
    r0, r1 = info.viewcone_min.to_value(u.rad), info.viewcone_max.to_value(u.rad)
    cone = 4 * np.pi * (np.sin(r1 / 2) ** 2 - np.sin(r0 / 2) ** 2)
    got = _plain(call.result)
    shape = (len(fe), len(lon) - 1, len(lat) - 1)
    if not ctx.check(got.shape == shape, "axes are not (energy, longitude, latitude)", got=got.shape, want=shape):
        return
    scale = np.where(fe > 1e-6, fe, np.nan) * info.n_showers
    with np.errstate(all="ignore"):
        frac = got / scale[:, None, None]
    ctx.check((np.abs(got[~(fe > 1e-6)]) <= 2e-6 * info.n_showers * 3).all(), "showers outside of the simulated energies")
    if not (fe > 1e-6).any():
        return
    # the same field of view distribution for all energies
    ok = fe > 1e-6
    fr = frac[ok][0]
    rounding = energy_rounding(info, a["energy_bins"])[ok]
    ctx.close(frac[ok], np.broadcast_to(fr, frac[ok].shape), "field of view distribution depends on energy",
              rtol=1e-7 + (rounding + rounding[0])[:, None, None], atol=1e-12)
    border = 0
    tol_total = 0
    want = np.zeros(shape[1:])
    for i in range(shape[1]):
        for j in range(shape[2]):
            l, b = (lon[i], lon[i + 1]), (lat[j], lat[j + 1])
            area = (l[1] - l[0]) * (np.sin(b[1]) - np.sin(b[0]))
            part = overlap_area(l, b, r1) - overlap_area(l, b, r0)
            want[i, j] = part / cone
            f = part / area
            # closest and farthest point from the center of the field of view
            cx = np.clip(0, *l), np.clip(0, *b)
            near = float(gen.separation(cx[0], cx[1], 0, 0))
            far = max(float(gen.separation(x, y, 0, 0)) for x in l for y in b)
            inside = far < r1 * (1 - 1e-6) and near >= r0 and (r0 == 0 or near > r0 * (1 + 1e-6))
            outside = near > r1 * (1 + 1e-6) or far < r0 * (1 - 1e-6)
            if inside or outside:
                ctx.close(fr[i, j], want[i, j] if inside else 0.0, "bin completely inside or outside of the view cone",
                          rtol=1e-7 + rounding[0], atol=1e-11, info=info, lon=l, lat=b)
            else:
                border += 1
                t = (2.0 / a["subpixels"] + 0.005) * area / cone
                tol_total += (t / 2) ** 2
                ctx.check(abs(fr[i, j] - want[i, j]) <= t, "bin cut by the border of the view cone",
                          got=fr[i, j] * cone / area, want=f, info=info, lon=l, lat=b, subpixels=a["subpixels"])
    ctx.check(abs(fr.sum() - want.sum()) <= 4 * np.sqrt(tol_total) + 1e-7 + 2 * rounding[0], "total number in the bins",
              got=fr.sum(), want=want.sum(), tol=tol_total)
    if border:
        ctx.nontrivial(lon, lat, r0, r1)


@N04.family(300)
def lonlat(ctx):
    rng = ctx.rng
    info = ctx.call(random_info, rng)
    while info.viewcone_max.to_value(u.deg) > 13.5:
        info = ctx.call(random_info, rng)
    e = gen.energy_edges(rng, n=gen.pick(rng, 1, 2)) if gen.chance(rng, 0.3) else bins_for_energy(rng, info)
    r = info.viewcone_max.to_value(u.deg)

    def axis():
        n = gen.pick(rng, 1, 2, 3, 4, 7) if not gen.chance(rng, 0.02) else int(rng.integers(8, 24))
        kind = gen.pick(rng, "cover", "cover", "big", "shift", "inside", "hole")
        if kind == "cover":
            return gen.increasing(rng, n + 1, -r * rng.uniform(1, 1.2), r * rng.uniform(1, 1.2))
        if kind == "big":
            return gen.increasing(rng, n + 1, -r * rng.uniform(1.5, 3), r * rng.uniform(1.5, 3))
        if kind == "inside":
            return gen.increasing(rng, n + 1, -r * 0.6, r * 0.6)
        if kind == "hole":
            h = max(info.viewcone_min.to_value(u.deg), 0.1 * r)
            return gen.increasing(rng, n + 1, -h * 0.5, h * rng.uniform(0.5, 1.5))
        c = rng.uniform(-r, r)
        return gen.increasing(rng, n + 1, c, c + rng.uniform(0.3, 2) * r)

    lon = u.Quantity(axis(), u.deg).to(gen.angle_unit(rng))
    lat = u.Quantity(axis(), u.deg).to(gen.angle_unit(rng)) if not gen.chance(rng, 0.12) else lon
    kw = {}
    if gen.chance(rng, 0.6):
        kw["subpixels"] = int(gen.pick(rng, 10, 30, 50, 100, rng.integers(8, 60)))
    ctx.call(info.calculate_n_showers_3d_lonlat, e, lon, lat, **kw)



def _post_init(ctx, call):
    """What was simulated is what was given"""
    if call.error is not None:
        return
    names = ("n_showers", "energy_min", "energy_max", "max_impact", "spectral_index", "viewcone_min", "viewcone_max")
    for name, given in call.bind(*names).items():
        has = u.Quantity(getattr(call.obj, name))
        ctx.close(has.to_value(u.Quantity(given).unit), u.Quantity(given).value, f"{name} of the simulation", rtol=1e-12)


for _p in (N01, N02, N03, N04):
    _p.monitor("pyirf.simulations:SimulatedEventsInfo.__init__")(_post_init)

pipeline.attach(N01, "responses")
pipeline.attach(N02, "responses")
pipeline.attach(N03, "responses")
pipeline.attach(N04, "responses")
