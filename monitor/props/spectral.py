"""Spectra and event weights"""
import os
import types

import numpy as np
import astropy.units as u
from astropy.table import QTable

from ..core import Prop
from .. import gen, pipeline
from .simulations import random_info

FILES = ["pyirf/spectral.py"]


def point_unit(rng):
    return gen.pick(rng, u.Unit("1 / (TeV s m2)"), u.Unit("1 / (TeV s cm2)"), u.Unit("1 / (GeV s m2)"), u.Unit("1/(erg cm2 s)"))


def flux_unit(rng, diffuse):
    unit = point_unit(rng)
    return unit / gen.pick(rng, u.sr, u.sr, u.deg ** 2) if diffuse else unit


def cone(a, b):
    return 4 * np.pi * (np.sin(b / 2) ** 2 - np.sin(a / 2) ** 2)


def energies(rng, shape=None):
    if shape is None:
        shape = gen.pick(rng, (), (1,), (5,), (2, 3), (0,), (3, 1), (1, 4), (1, 1), (2, 1, 3))
        if gen.chance(rng, 0.02):
            shape = gen.pick(rng, (int(rng.integers(100, 3000)),), (30, 40), (1, 300), (300, 1))
    decades = gen.pick(rng, 3, 3, 6)
    return u.Quantity(10 ** rng.uniform(-decades, decades, shape), u.TeV).to(gen.energy_unit(rng))


def flux_si(q):
    """Flux value in 1 / (TeV s m2 (sr)) and whether it is diffuse"""
    for unit, diffuse in ((u.Unit("1 / (TeV s m2)"), False), (u.Unit("1 / (TeV s m2 sr)"), True)):
        if q.unit.is_equivalent(unit):
            return q.to_value(unit), diffuse
    return np.nan, None


P01 = Prop(
    "P01",
    "Event weights turn the simulated into the target number of events",
    "The spectrum derived from a simulation and an observation time, integrated over the simulated energies, impact area, solid angle of the view cone and time, gives exactly the "
    "number of simulated showers, for every power law index of -1 and below, reference energy, unit, and both for point-like (flux per area) and diffuse (flux per area and solid angle) "
    "simulations. Event weights are the ratio of target to simulated flux at the true energy of each event, so weighting to the simulated spectrum itself gives one, weights "
    "are linear in the target flux and inversely proportional to the observation time.",
    ["inputs", "configurations"],
    "all simulation configurations, observation times, reference energies, target spectra and event energies in any unit",
    "Tests check one configuration with index -2 and a tolerance.",
    FILES + ["pyirf/simulations.py"],
    [("PowerLaw.from_simulation", "pyirf/spectral.py"), ("calculate_event_weights", "pyirf/spectral.py")],
    "a case is a random simulation and observation time, judged by the closed form of the integral; non-trivial always, counted by configuration",
    "agreement to 1e-7; view cones above 0.3 degree",
    observe_at=["pyirf.spectral.PowerLaw.from_simulation", "pyirf.spectral.calculate_event_weights"],
)


@P01.monitor("pyirf.spectral:PowerLaw.from_simulation")
def _post_from_simulation(ctx, call):
    if call.error is not None:
        return
    a = call.bind("simulated_event_info", "obstime", e_ref=1 * u.TeV)
    info, t, s = a["simulated_event_info"], a["obstime"].to_value(u.s), call.result
    r0, r1 = info.viewcone_min.to_value(u.rad), info.viewcone_max.to_value(u.rad)
    lo, hi = info.energy_min.to_value(u.TeV), info.energy_max.to_value(u.TeV)
    norm, diffuse = flux_si(s.normalization)
    if not ctx.check(diffuse == (r1 > r0), "flux has the wrong dimension", unit=s.normalization.unit, info=info):
        return
    ref = s.e_ref.to_value(u.TeV)
    ctx.close(ref, a["e_ref"].to_value(u.TeV), "reference energy", rtol=1e-12)
    ctx.close(s.index, info.spectral_index, "spectral index", rtol=0)
    k = s.index + 1
    integral = np.log(hi / lo) * ref if k == 0 else ref ** (1 - k) * lo ** k * np.expm1(k * np.log(hi / lo)) / k
    area = np.pi * info.max_impact.to_value(u.m) ** 2
    n = norm * integral * area * t * (cone(r0, r1) if diffuse else 1)
    ctx.close(n, info.n_showers, "integral of the simulated spectrum", rtol=1e-7, info=info, obstime=a["obstime"], e_ref=a["e_ref"])
    ctx.nontrivial(norm, lo, hi)


@P01.monitor("pyirf.spectral:calculate_event_weights")
def _post_weights(ctx, call):
    if call.error is not None:
        return
    a = call.bind("true_energy", "target_spectrum", "simulated_spectrum")
    e = a["true_energy"]
    w = call.result
    ctx.check(not hasattr(w, "unit"), "weights have a unit")
    if not ctx.check(np.shape(w) == e.shape, "one weight per event"):
        return
    for i in np.ndindex(e.shape):
        one = e[i]
        t, s = a["target_spectrum"](one), a["simulated_spectrum"](one)
        tv, td = flux_si(t)
        sv, sd = flux_si(s)
        if td == sd:
            ctx.close(np.asarray(w)[i], tv / sv, "event weight is not the flux ratio", rtol=1e-9, energy=one)
        if i and i[-1] > 20:
            break


@P01.family(300)
def simulations(ctx):
    from pyirf.spectral import PowerLaw, LogParabola, calculate_event_weights
    from pyirf.simulations import SimulatedEventsInfo

    rng = ctx.rng
    info = ctx.call(random_info, rng)
    if gen.chance(rng, 0.35):
        v = gen.pick(rng, info.viewcone_min, 0 * u.deg)
        info = SimulatedEventsInfo(info.n_showers, info.energy_min, info.energy_max, info.max_impact, info.spectral_index, v, v)
    diffuse = info.viewcone_max > info.viewcone_min
    t = u.Quantity(10 ** gen.pick(rng, rng.uniform(-1, 3), rng.uniform(-5, 6)), u.hour).to(gen.pick(rng, "hour", "s", "min", "d"))
    kw = {}
    if gen.chance(rng, 0.5):
        kw["e_ref"] = energies(rng, ())
    s = ctx.call(PowerLaw.from_simulation, info, t, **kw)
    s2 = ctx.call(PowerLaw.from_simulation, info, 2 * t, **kw)
    e = energies(rng)
    w1 = ctx.call(calculate_event_weights, e, s, s)
    ctx.close(w1, np.ones(e.shape), "weighting to the simulated spectrum", rtol=1e-9)
    norm = 10 ** rng.uniform(-12, -3) if not gen.chance(rng, 0.15) else 10 ** rng.uniform(-40, 20)
    unit = flux_unit(rng, diffuse)
    if gen.chance(rng, 0.6):
        idx = -rng.uniform(1, 4) if not gen.chance(rng, 0.15) else gen.pick(rng, 0, 0.0, -1, -rng.uniform(0, 9))
        a = PowerLaw(norm * unit, idx, energies(rng, ()))
        b = PowerLaw(3 * norm * unit, idx, a.e_ref)
    else:
        p = (-rng.uniform(1, 4), -rng.uniform(0, 0.5))
        a, b = LogParabola(norm * unit, *p), LogParabola(3 * norm * unit, *p)
    wa = ctx.call(calculate_event_weights, e, a, s)
    wb = ctx.call(calculate_event_weights, e, b, s)
    wt = ctx.call(calculate_event_weights, e, a, s2)
    ctx.close(wb, 3 * np.asarray(wa), "weights are not linear in the target flux", rtol=1e-9)
    ctx.close(wt, 2 * np.asarray(wa), "weights do not scale with the observation time", rtol=1e-9)
    e2 = e.to(gen.energy_unit(rng))
    ctx.close(ctx.call(calculate_event_weights, e2, a, s), wa, "weights depend on the unit of the energy", rtol=1e-8)


# ---------------------------------------------------------------------------

P02 = Prop(
    "P02",
    "Parametric spectra follow their formula for any energy, shape and unit",
    "Power law, log parabola and power law with exponential Gaussian bump evaluate to their documented formula at every energy, with the unit of the normalization, "
    "the shape of the energies and independent of the unit energies and reference energy are given in. Integrating a diffuse spectrum over a cone multiplies the "
    "flux at every energy with the solid angle between inner and outer angle and keeps the shape of the spectrum; integrating a point source spectrum and positive indices are rejected.",
    ["inputs", "configurations"],
    "all parameters, energies (scalars, arrays, any unit) and cones",
    "Tests evaluate each spectrum at one or two energies.",
    FILES,
    [("PowerLaw / LogParabola / PowerLawWithExponentialGaussian", "pyirf/spectral.py"), ("PowerLaw.integrate_cone", "pyirf/spectral.py")],
    "a case is a random spectrum evaluated at random energies; non-trivial always, counted by values",
    "agreement to 1e-9",
    observe_at=["pyirf.spectral"],
)


def _judge_flux(ctx, call, formula):
    if call.error is not None:
        return
    e = u.Quantity(call.bind("energy")["energy"])
    s = call.obj
    x = (e / s.e_ref).to_value(u.one)
    want = np.asarray(s.normalization.value * formula(s, x), float)
    r = call.result
    if not ctx.check(hasattr(r, "unit") and r.unit.is_equivalent(s.normalization.unit), "flux has a wrong unit", got=r):
        return
    ctx.close(r.to_value(s.normalization.unit), want, f"flux of {type(s).__name__}", rtol=1e-9, energy=e, spectrum=s)
    if np.size(x):
        ctx.nontrivial(type(s).__name__, x, float(s.normalization.value))


def _f_pl(s, x):
    return np.exp(s.index * np.log(x))


def _f_lp(s, x):
    return np.exp((s.a + s.b * np.log10(x)) * np.log(x))


def _f_gauss(s, x):
    g = np.exp(-((np.log10(x) - s.mu) ** 2) / (2 * s.sigma ** 2))
    return _f_pl(s, x) * (1 + s.f * np.expm1(g))


@P02.monitor("pyirf.spectral:PowerLaw.__call__")
def _post_pl(ctx, call):
    if type(call.obj).__name__ == "PowerLaw":
        _judge_flux(ctx, call, _f_pl)


@P02.monitor("pyirf.spectral:LogParabola.__call__")
def _post_lp(ctx, call):
    _judge_flux(ctx, call, _f_lp)


@P02.monitor("pyirf.spectral:PowerLawWithExponentialGaussian.__call__")
def _post_gauss(ctx, call):
    _judge_flux(ctx, call, _f_gauss)


@P02.family(800)
def evaluate(ctx):
    from pyirf.spectral import PowerLaw, LogParabola, PowerLawWithExponentialGaussian

    rng = ctx.rng
    diffuse = gen.chance(rng, 0.6)
    norm = 10 ** rng.uniform(-14, 4) * flux_unit(rng, diffuse)
    e_ref = energies(rng, ())
    kind = gen.pick(rng, "pl", "lp", "gauss")
    idx = gen.pick(rng, -2, 0, -1, -rng.uniform(0, 5), -rng.uniform(0, 12))
    if kind == "pl":
        s, par = ctx.call(PowerLaw, norm, idx, e_ref), dict(index=idx)
        if gen.chance(rng, 0.3):
            s, e_ref = ctx.call(PowerLaw, norm, idx), u.Quantity(1, u.TeV)
    elif kind == "lp":
        args = (rng.uniform(-4, 0), rng.uniform(-0.6, 0.3)) if gen.chance(rng, 0.8) else (rng.uniform(-10, 3), rng.uniform(-2, 1))
        s, par = ctx.call(LogParabola, norm, *args, e_ref), dict(a=args[0], b=args[1])
        if gen.chance(rng, 0.3):
            s, e_ref = ctx.call(LogParabola, norm, *args), u.Quantity(1, u.TeV)
    else:
        par = dict(f=gen.pick(rng, rng.uniform(0, 3), rng.uniform(-0.9, 0), 10 ** rng.uniform(0, 3)), mu=rng.uniform(-1, 1) * gen.pick(rng, 1, 4),
                   sigma=gen.pick(rng, rng.uniform(0.1, 2), 10 ** rng.uniform(-2, 1)))
        s = ctx.call(PowerLawWithExponentialGaussian, norm, idx, e_ref, **par)
        par["index"] = idx
    e = energies(rng)
    f = ctx.call(s, e)
    # from the given parameters, not those the spectrum remembers
    formula = {"pl": _f_pl, "lp": _f_lp, "gauss": _f_gauss}[kind]
    want = norm.value * formula(types.SimpleNamespace(**par), (e / e_ref).to_value(u.one))
    ctx.close(f.to_value(norm.unit), want, "flux for the given parameters", rtol=1e-9, energy=e, parameters=par)
    f2 = ctx.call(s, e.to(gen.energy_unit(rng)))
    ctx.close(f2.to_value(f.unit), f.value, "flux depends on the unit of the energy", rtol=1e-8)
    if kind != "lp":
        a, b = sorted(rng.uniform(0, 12, 2)) if not gen.chance(rng, 0.15) else sorted(rng.uniform(0, 179, 2))
        a = gen.pick(rng, 0.0, a)
        inner, outer = (u.Quantity(x, u.deg).to(gen.angle_unit(rng)) for x in (a, b + 0.2))
        if diffuse:
            i = ctx.call(s.integrate_cone, inner, outer)
            fi = ctx.call(i, e)
            if ctx.check(fi.unit.is_equivalent(u.Unit("1/(TeV s m2)")), "integrated flux is not a flux per area", unit=fi.unit):
                omega = cone(inner.to_value(u.rad), outer.to_value(u.rad))
                want = f.to_value(u.Unit("1/(TeV s m2 sr)")) * omega
                ctx.close(fi.to_value(u.Unit("1/(TeV s m2)")), want, "flux integrated over the cone", rtol=1e-8)
            f3 = ctx.call(s, e)
            ctx.close(f3.value, f.value, "integration changed the spectrum", rtol=0)
        else:
            ctx.raises(ValueError, s.integrate_cone, inner, outer, message="point source flux integrated over solid angle")
        if gen.chance(rng, 0.1):
            ctx.raises(ValueError, PowerLaw, norm, rng.uniform(0.01, 3), e_ref, message="positive index")


# ---------------------------------------------------------------------------

P03 = Prop(
    "P03",
    "Tabulated spectra interpolate and extrapolate through their points",
    "A tabulated spectrum reproduces the given flux at every tabulated energy, is linear between neighboring points in the chosen (linear or logarithmic) scale of energy and "
    "flux, and continues the first and last segment linearly in this scale outside of the table. The result has the unit of the tabulated flux and does not depend on "
    "the units of the energies or the reference energy, nor on the order of the points or whether the table is given as arrays, as table or as file.",
    ["inputs", "configurations"],
    "all tables (number and order of magnitude of points, units), all combinations of scales, reference energies and evaluated energies",
    "Tests evaluate two tables at a few points.",
    FILES,
    [("TableInterpolationSpectrum", "pyirf/spectral.py")],
    "a case is a random table and energies inside, outside and at the points; counted by content",
    "agreement to 1e-8",
    observe_at=["pyirf.spectral.TableInterpolationSpectrum"],
)


@P03.family(600)
def tables(ctx):
    from pyirf.spectral import TableInterpolationSpectrum

    rng = ctx.rng
    n = int(rng.integers(2, 12)) if not gen.chance(rng, 0.05) else int(rng.integers(20, 1000))
    lo = 10 ** rng.uniform(-3, 0) if not gen.chance(rng, 0.15) else 10 ** rng.uniform(-8, 5)
    x = gen.increasing(rng, n, lo, lo * 10 ** (rng.uniform(0.5, 4) if not gen.chance(rng, 0.15) else rng.uniform(0.05, 0.5)), log=True)
    y = 10 ** (rng.uniform(-16, -6) if not gen.chance(rng, 0.15) else rng.uniform(-60, 30)) * (x / lo) ** -rng.uniform(0, 4) * rng.uniform(0.5, 2, n)
    energy = u.Quantity(x, u.TeV).to(gen.energy_unit(rng))
    unit = flux_unit(rng, gen.chance(rng, 0.5))
    flux = u.Quantity(y, unit)
    kw = {}
    log_e, log_f = True, True
    if gen.chance(rng, 0.6):
        log_e, log_f = gen.chance(rng, 0.5), gen.chance(rng, 0.5)
        kw = dict(log_energy=log_e, log_flux=log_f)
    if gen.chance(rng, 0.4):
        kw["reference_energy"] = energies(rng, ())
    how = gen.pick(rng, "init", "table", "file")
    in_order = energy
    if gen.chance(rng, 0.3):
        # the order of the points has no meaning
        perm = rng.permutation(n)
        energy, flux = energy[perm], flux[perm]
    if how == "init":
        s = ctx.call(TableInterpolationSpectrum, energy, flux, **kw)
    elif how == "table":
        s = ctx.call(TableInterpolationSpectrum.from_table, QTable({"energy": energy, "flux": flux}), **kw)
    else:
        path = os.path.join(os.environ.get("TMPDIR", "/tmp"), f"spectrum-{os.getpid()}.ecsv")
        QTable({"energy": energy, "flux": flux}).write(path, overwrite=True)
        s = ctx.call(TableInterpolationSpectrum.from_file, path, **kw)
        os.unlink(path)
    e = np.concatenate([
        rng.choice(x, 2), lo * 10 ** rng.uniform(0, np.log10(x[-1] / lo), 4),
        lo * 10 ** -rng.uniform(0.05, 0.5, 1), x[-1] * 10 ** rng.uniform(0.05, 0.5, 1),
    ])
    eq = u.Quantity(e, u.TeV).to(gen.energy_unit(rng))
    if gen.chance(rng, 0.2):
        eq = eq.reshape(2, 4)
    got = ctx.call(s, eq)
    if not ctx.check(got.unit == unit and got.shape == eq.shape, "unit or shape of the flux", got=got):
        return
    fx = np.log if log_e else np.asarray
    fy = np.log if log_f else np.asarray
    X, Y = fx(x), fy(y)
    want = np.empty(len(e))
    for i, v in enumerate(e):
        j = min(max(int(np.searchsorted(x, v)) - 1, 0), n - 2)
        want[i] = Y[j] + (Y[j + 1] - Y[j]) * (fx(v) - X[j]) / (X[j + 1] - X[j])
    if log_f:
        want = np.exp(want)
    ctx.close(got.value.ravel(), want, "flux of the tabulated spectrum", rtol=1e-8, atol=1e-9 * np.abs(y).max() if not log_f else 0,
              energy=eq, table=(energy, flux), options=kw)
    at = ctx.call(s, in_order)
    ctx.close(at.value, y, "flux at the tabulated points", rtol=1e-9)
    one = ctx.call(s, eq.ravel()[3])
    ctx.close(one.to_value(unit), want[3], "flux at a single energy", rtol=1e-8, atol=1e-9 * np.abs(y).max() if not log_f else 0)
    ctx.nontrivial(x, y, log_e, log_f)


# ---------------------------------------------------------------------------

P04 = Prop(
    "P04",
    "Predefined reference spectra have their published values at all energies",
    "The predefined Crab nebula (HEGRA, MAGIC), all particle (PDG), proton and electron (CTA prod3b description) spectra have the documented published values at every energy, "
    "and the predefined proton and helium spectrum follows the published DAMPE points, linearly in the logarithm of energy and flux. "
    "Crab spectra are fluxes per area, all others fluxes per area and solid angle, and using a spectrum never changes it.",
    ["inputs", "histories"],
    "all energies from 1 GeV to 1 PeV in any unit and any sequence of uses of the spectra",
    "Tests check the predefined spectra at single energies with wide tolerances or not at all.",
    FILES + ["pyirf/resources/dampe_p+he.ecsv"],
    [("predefined spectra", "pyirf/spectral.py")],
    "a case evaluates all predefined spectra at random energies; counted by energies",
    "the published parameters and the DAMPE points are part of the oracle",
    observe_at=["pyirf.spectral"],
)


#: published points, energy in GeV and flux in 1 / (GeV m2 s sr)
DAMPE = np.array([
    [5.0, 241.37151783447848],
    [50.5185, 0.46837],
    [78.9163, 0.13929],
    [124.383, 0.040600],
    [199.575, 0.011277],
    [317.38, 0.0032219],
    [495.808, 0.00097386],
    [788.531, 0.00028617],
    [1254.06, 8.3702e-05],
    [1994.62, 2.5301e-05],
    [3116.73, 8.3056e-06],
    [4957.69, 2.5627e-06],
    [7956.55, 7.6322e-07],
    [12321.0, 2.4523e-07],
    [19946.8, 6.6955e-08],
    [100269.0, 8.5990e-10],
])


@P04.family(150)
def published(ctx):
    import pyirf.spectral as sp

    rng = ctx.rng
    e = np.concatenate([10 ** rng.uniform(-3, 3, 6), [1.0]])
    q = u.Quantity(e, u.TeV).to(gen.energy_unit(rng))
    point, diff = u.Unit("1/(TeV cm2 s)"), u.Unit("1/(TeV cm2 s sr)")
    le = np.log10(e)
    want = {
        "CRAB_HEGRA": (2.83e-11 * e ** -2.62, point),
        "CRAB_MAGIC_JHEAP2015": (3.23e-11 * e ** (-2.47 - 0.24 * le), point),
        "PDG_ALL_PARTICLE": (1.8e4 * (e * 1e3) ** -2.7 * 1e3 / 1e4, diff),
        "IRFDOC_PROTON_SPECTRUM": (9.8e-6 * e ** -2.62, diff),
        "IRFDOC_ELECTRON_SPECTRUM": (
            2.385e-9 * e ** -3.43 * (1 + 1.950 * (np.exp(np.exp(-0.5 * ((le + 0.101) / 0.741) ** 2)) - 1)), diff,
        ),
    }
    names = [*want, "DAMPE_P_He_SPECTRUM"]

    def state():
        return {k: (repr(getattr(sp, k)), str(getattr(sp, k)), {a: (repr(v), getattr(v, "unit", None)) for a, v in vars(getattr(sp, k)).items()}) for k in names}

    before = state()
    order = rng.permutation(list(want))
    for name in order:
        s = getattr(sp, name)
        w, unit = want[name]
        f = ctx.call(s, q)
        if ctx.check(f.unit.is_equivalent(unit), f"{name} has the wrong dimension", unit=f.unit):
            ctx.close(f.to_value(unit), w, name, rtol=1e-8)
        if unit is diff and hasattr(s, "integrate_cone") and gen.chance(rng, 0.3):
            ctx.call(s.integrate_cone, 0 * u.deg, rng.uniform(0.5, 10) * u.deg)
        if gen.chance(rng, 0.3):
            ctx.call(sp.calculate_event_weights, q, s, s)
    x, y = DAMPE.T
    s = sp.DAMPE_P_He_SPECTRUM
    eu, fu = u.GeV, u.Unit("1 / (GeV m2 s sr)")
    xt = (x * eu).to_value(u.TeV)
    f = ctx.call(s, q)
    if ctx.check(f.unit.is_equivalent(diff), "DAMPE spectrum has the wrong dimension", unit=f.unit):
        X, Y = np.log(xt), np.log((y * fu).to_value(diff))
        j = np.clip(np.searchsorted(xt, e) - 1, 0, len(xt) - 2)
        w = np.exp(Y[j] + (Y[j + 1] - Y[j]) * (np.log(e) - X[j]) / (X[j + 1] - X[j]))
        ctx.close(f.to_value(diff), w, "DAMPE spectrum", rtol=1e-8)
        at = ctx.call(s, x * eu)
        ctx.close(at.to_value(fu), y, "DAMPE spectrum at the tabulated points", rtol=1e-8)
    after = state()
    ctx.check(after == before, "using the spectra changed them", spectra=[k for k in names if before[k] != after[k]])
    ctx.nontrivial(e)


pipeline.attach(P01, "load")
pipeline.attach(P02, "load")
