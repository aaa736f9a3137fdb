"""Relations between several calls, over the whole public interface"""
import operator
import os
import pickle
import signal
import sys
import threading
import warnings

import numpy as np
import astropy.units as u
from astropy.coordinates import Angle
from astropy.io import fits
from astropy.table import QTable, Table, vstack

from ..core import HarnessError, Prop
from .. import gen, grids, pipeline
from .interpolation import pdf_templates, params_for

# -- scenarios: valid calls of the public interface ------------------------------
# name -> builder(rng) -> (function, args, kwargs); sizes are kept small


#: size of the event tables, if not random
SIZE = None


def _events(rng, n=None, weight=None):
    n = int(gen.pick(rng, 1, 7, 40, 120)) if n is None else n
    n = SIZE or n
    e = gen.energy_edges(rng, low=10 ** rng.uniform(-1.5, -0.5), high=10 ** rng.uniform(0.5, 1.5), unit=u.TeV)
    t = gen.events(rng, n=n, e_edges=e, units=False, weight=weight, extra=True)
    for k, s in (("true_source_fov_lon", 4.0), ("true_source_fov_lat", 4.0), ("reco_source_fov_lon", 4.0), ("reco_source_fov_lat", 4.0)):
        t[k] = u.Quantity(rng.normal(0, s / 2, n), u.deg)
    t["reco_fov_lon"], t["reco_fov_lat"] = t["reco_source_fov_lon"].copy(), t["reco_source_fov_lat"].copy()
    t["true_source_fov_position_angle"] = u.Quantity(rng.uniform(0, 360, n), u.deg)
    return t, e


def _simulation(rng):
    from pyirf.simulations import SimulatedEventsInfo

    return SimulatedEventsInfo(
        n_showers=int(rng.integers(1000, 10**6)), energy_min=u.Quantity(10 ** rng.uniform(-3, -1.6), u.TeV), energy_max=u.Quantity(10 ** rng.uniform(1.6, 2.5), u.TeV),
        max_impact=u.Quantity(rng.uniform(200, 900), u.m), spectral_index=float(gen.pick(rng, -2.0, -2.7, -1.0)), viewcone_min=u.Quantity(gen.pick(rng, 0.0, 0.0, rng.uniform(0.2, 2)), u.deg),
        viewcone_max=u.Quantity(rng.uniform(3, 10), u.deg),
    )


def _theta_cuts(rng, e):
    t = QTable()
    t["low"], t["high"] = e[:-1].copy(), e[1:].copy()
    t["center"] = 0.5 * (t["low"] + t["high"])
    t["cut"] = u.Quantity(rng.uniform(0.05, 0.4, len(e) - 1), u.deg)
    return t


SCENARIOS = {}
#: arguments that are event tables, for permutations
EVENTS = {}
#: result is a sum over events
ADDITIVE = set()
#: same result in any units up to rounding
UNITS = set()


def scenario(name, events=None, additive=False, units=True):
    def deco(func):
        SCENARIOS[name] = func
        if events is not None:
            EVENTS[name] = events
        if additive:
            ADDITIVE.add(name)
        if units:
            UNITS.add(name)
        return func

    return deco


@scenario("aeff_energy", events=0, additive=True)
def _(rng):
    from pyirf.irf import effective_area_per_energy as f

    t, e = _events(rng)
    sim = _simulation(rng)
    sim.viewcone_max = sim.viewcone_min
    return f, (t, sim, e), {}


@scenario("aeff_energy_fov", events=0, additive=True)
def _(rng):
    from pyirf.irf import effective_area_per_energy_and_fov as f

    t, e = _events(rng)
    return f, (t, _simulation(rng), e, gen.angle_edges(rng, unit=u.deg)), {}


@scenario("aeff_3d_polar", events=0, additive=True)
def _(rng):
    from pyirf.irf import effective_area_3d_polar as f

    t, e = _events(rng)
    pa = u.Quantity(np.linspace(0, 360, int(gen.pick(rng, 2, 4, 7))), u.deg)
    return f, (t, _simulation(rng), e, gen.angle_edges(rng, unit=u.deg), pa), {}


@scenario("aeff_3d_lonlat", events=0, additive=True)
def _(rng):
    from pyirf.irf import effective_area_3d_lonlat as f

    t, e = _events(rng)
    return f, (t, _simulation(rng), e, gen.sym_edges(rng, n=3, half=4, unit=u.deg), gen.sym_edges(rng, n=2, half=4, unit=u.deg)), {"subpixels": 8}


@scenario("aeff_total", events=None)
def _(rng):
    from pyirf.irf import effective_area as f

    n = rng.integers(1, 1000, 6)
    return f, (rng.integers(0, 100, 6), n, u.Quantity(rng.uniform(1, 100), u.m**2)), {}


@scenario("dispersion", events=0)
def _(rng):
    from pyirf.irf import energy_dispersion as f

    t, e = _events(rng)
    return f, (t, e, gen.angle_edges(rng, unit=u.deg), np.linspace(0.2, 4, int(rng.integers(3, 12)))), {}


@scenario("migration", events=0)
def _(rng):
    from pyirf.irf.energy_dispersion import energy_migration_matrix as f

    t, e = _events(rng)
    return f, (t, e, gen.energy_edges(rng, low=0.02, high=40.0, unit=u.TeV), gen.angle_edges(rng, unit=u.deg)), {}


@scenario("dispersion_to_migration")
def _(rng):
    from pyirf.irf.energy_dispersion import energy_dispersion_to_migration as f

    e = gen.energy_edges(rng, n=4, low=0.1, high=10.0, unit=u.TeV)
    m = np.geomspace(0.2, 5, 16)
    d = rng.random((4, 15, 2))
    d /= (d * np.diff(m)[None, :, None]).sum(axis=1, keepdims=True)
    return f, (d, e, m, gen.energy_edges(rng, n=3, low=0.3, high=5.0, unit=u.TeV), gen.energy_edges(rng, n=4, low=0.05, high=30.0, unit=u.TeV)), {}


@scenario("psf", events=0)
def _(rng):
    from pyirf.irf import psf_table as f

    t, e = _events(rng)
    return f, (t, e), dict(source_offset_bins=gen.angle_edges(rng, high=0.5, unit=u.deg), fov_offset_bins=gen.angle_edges(rng, unit=u.deg))


@scenario("background_2d", events=0, additive=True)
def _(rng):
    from pyirf.irf import background_2d as f

    t, e = _events(rng, weight=True)
    gen.vary_weights(rng, t)
    return f, (t, e, gen.angle_edges(rng, unit=u.deg), u.Quantity(rng.uniform(10, 1e5), u.s)), {}


@scenario("background_3d", events=0, additive=True)
def _(rng):
    from pyirf.irf import background_3d_lonlat as f

    t, e = _events(rng, weight=True)
    gen.vary_weights(rng, t)
    return f, (t, e, gen.sym_edges(rng, half=4, unit=u.deg), gen.sym_edges(rng, half=4, unit=u.deg), u.Quantity(rng.uniform(10, 1e5), u.s)), {}


@scenario("histogram", events=0, additive=True)
def _(rng):
    from pyirf.binning import create_histogram_table as f

    t, e = _events(rng)
    if "weight" in t.colnames:
        gen.vary_weights(rng, t)
    return f, (t, e), {"key": gen.pick(rng, "reco_energy", "true_energy")}


@scenario("bin_indices")
def _(rng):
    from pyirf.binning import calculate_bin_indices as f

    t, e = _events(rng)
    return f, (t["reco_energy"], e), {}


@scenario("overflow")
def _(rng):
    from pyirf.binning import add_overflow_bins as f

    return f, (gen.energy_edges(rng),), {"positive": True}


@scenario("per_decade", units=False)
def _(rng):
    from pyirf.binning import create_bins_per_decade as f

    lo = u.Quantity(rng.uniform(0.01, 0.1), u.TeV)
    return f, (lo, lo * rng.uniform(5, 500)), {"bins_per_decade": int(rng.integers(1, 9))}


@scenario("split")
def _(rng):
    from pyirf.binning import split_bin_lo_hi as f

    return f, (gen.energy_edges(rng, unit=u.TeV)[np.newaxis],), {}


@scenario("join")
def _(rng):
    from pyirf.binning import join_bin_lo_hi as f

    e = gen.energy_edges(rng, unit=u.TeV, low=0.1, high=50.0)
    return f, (e[:-1].copy(), e[1:].copy()), {}


@scenario("resample")
def _(rng):
    from pyirf.binning import resample_histogram1d as f

    return f, (rng.random((3, 5)) + 0.1, np.linspace(0, 5, 6), np.linspace(0.3, 4.7, 4)), {"axis": 1}


@scenario("percentile_cut")
def _(rng):
    from pyirf.cuts import calculate_percentile_cut as f

    t, e = _events(rng, n=120)
    opts = dict(percentile=gen.pick(rng, 68, [30, 68]), min_value=gen.pick(rng, None, u.Quantity(0.03, u.deg)), max_value=gen.pick(rng, None, u.Quantity(0.4, u.deg)),
                smoothing=gen.pick(rng, None, 0.8))
    return f, (t["theta"], t["reco_energy"], e), dict(fill_value=u.Quantity(0.2, u.deg), **opts)


@scenario("evaluate_cut")
def _(rng):
    from pyirf.cuts import evaluate_binned_cut as f

    t, e = _events(rng)
    return f, (t["theta"], t["reco_energy"], _theta_cuts(rng, e), operator.le), {}


@scenario("compare_cuts")
def _(rng):
    from pyirf.cuts import compare_irf_cuts as f

    t, e = _events(rng)
    c = _theta_cuts(rng, e)
    d = _theta_cuts(rng, e) if gen.chance(rng, 0.5) else c.copy()
    return f, ([c, d, c.copy()],), {}


@scenario("optimize_gh", units=False)
def _(rng):
    from pyirf.cut_optimization import optimize_gh_cut as f

    s, e = _events(rng, n=100, weight=True)
    b, _ = _events(rng, n=100, weight=True)
    return f, (s, b, e, np.array([0.4, 0.8]), _theta_cuts(rng, e)), dict(op=operator.ge, alpha=0.2, progress=False, fov_offset_max=u.Quantity(4.0, u.deg))


@scenario("optimize", units=False)
def _(rng):
    from pyirf.cut_optimization import optimize_cuts as f

    s, e = _events(rng, n=100, weight=True)
    b, _ = _events(rng, n=100, weight=True)
    return f, (s, b, e[:: max(1, len(e) // 2)]), dict(
        multiplicity_cuts=[2, 3], gh_cut_efficiencies=[0.4, 0.8], theta_cut_efficiencies=[0.7, 0.9], alpha=0.2, progress=False, fov_offset_max=u.Quantity(4.0, u.deg))


@scenario("sensitivity")
def _(rng):
    from pyirf.binning import create_histogram_table
    from pyirf.sensitivity import calculate_sensitivity as f

    s, e = _events(rng, n=120, weight=True)
    b, _ = _events(rng, n=120, weight=True)
    return f, (create_histogram_table(s, e), create_histogram_table(b, e)), {"alpha": 0.2}


@scenario("relative_sensitivity")
def _(rng):
    from pyirf.sensitivity import relative_sensitivity as f

    return f, (rng.uniform(1, 1000, 4), rng.uniform(0, 1000, 4)), {"alpha": 0.3}


@scenario("estimate_background", events=0, additive=True)
def _(rng):
    from pyirf.sensitivity import estimate_background as f

    t, e = _events(rng, weight=True)
    gen.vary_weights(rng, t)
    return f, (t, e, _theta_cuts(rng, e)), dict(alpha=0.2, fov_offset_min=u.Quantity(0.0, u.deg), fov_offset_max=u.Quantity(rng.uniform(1, 4), u.deg))


@scenario("li_ma")
def _(rng):
    from pyirf.statistics import li_ma_significance as f

    return f, (rng.integers(0, 100, 6), rng.integers(0, 100, 6)), {"alpha": rng.uniform(0.1, 1)}


@scenario("angular_resolution", events=0)
def _(rng):
    from pyirf.benchmarks import angular_resolution as f

    t, e = _events(rng)
    return f, (t, e), {"energy_type": gen.pick(rng, "true", "reco"), "quantile": gen.pick(rng, 0.68, [0.5, 0.95])}


@scenario("bias_resolution", events=0)
def _(rng):
    from pyirf.benchmarks import energy_bias_resolution as f

    t, e = _events(rng)
    return f, (t, e), {"energy_type": gen.pick(rng, "true", "reco")}


@scenario("bias_from_dispersion")
def _(rng):
    from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion as f

    m = np.linspace(0.2, 4, 21)
    d = rng.random((3, 20, 2))
    d /= (d * np.diff(m)[None, :, None]).sum(axis=1, keepdims=True)
    return f, (d, m), {}


@scenario("theta")
def _(rng):
    from pyirf.utils import calculate_theta as f

    t, _ = _events(rng)
    return f, (t, t["true_az"].copy(), t["true_alt"].copy()), {}


@scenario("fov_offset")
def _(rng):
    from pyirf.utils import calculate_source_fov_offset as f

    return f, (_events(rng)[0],), {"prefix": gen.pick(rng, "true", "reco")}


@scenario("fov_position_angle")
def _(rng):
    from pyirf.utils import calculate_source_fov_position_angle as f

    return f, (_events(rng)[0],), {"prefix": gen.pick(rng, "true", "reco")}


@scenario("fov_lonlat")
def _(rng):
    from pyirf.utils import calculate_source_fov_lonlat as f

    return f, (_events(rng)[0],), {"prefix": gen.pick(rng, "true", "reco")}


@scenario("gadf_lon_lat")
def _(rng):
    from pyirf.coordinates import gadf_fov_coords_lon_lat as f

    t, _ = _events(rng)
    return f, (t["reco_az"], t["reco_alt"], t["pointing_az"], t["pointing_alt"]), {}


@scenario("gadf_theta_phi")
def _(rng):
    from pyirf.coordinates import gadf_fov_coords_theta_phi as f

    t, _ = _events(rng)
    return f, (t["reco_az"], t["reco_alt"], t["pointing_az"], t["pointing_alt"]), {}


@scenario("solid_angle")
def _(rng):
    from pyirf.utils import cone_solid_angle as f

    return f, (gen.angle_edges(rng, unit=u.deg),), {}


@scenario("rectangle")
def _(rng):
    from pyirf.utils import rectangle_solid_angle as f

    lon, lat = gen.sym_edges(rng, n=3, unit=u.deg), gen.sym_edges(rng, n=3, unit=u.deg)
    return f, (lon[:-1].copy(), lon[1:].copy(), lat[:-1].copy(), lat[1:].copy()), {}


@scenario("weights")
def _(rng):
    from pyirf.spectral import PowerLaw, CRAB_HEGRA, CRAB_MAGIC_JHEAP2015, calculate_event_weights as f

    t, _ = _events(rng)
    s = PowerLaw.from_simulation(_point(rng), u.Quantity(rng.uniform(1, 100), u.h))
    return f, (t["true_energy"], gen.pick(rng, CRAB_HEGRA, CRAB_MAGIC_JHEAP2015), s), {}


def _point(rng):
    sim = _simulation(rng)
    sim.viewcone_max = sim.viewcone_min
    return sim


@scenario("spectra")
def _(rng):
    from pyirf import spectral as s

    t, _ = _events(rng)
    f = gen.pick(rng, s.CRAB_HEGRA, s.CRAB_MAGIC_JHEAP2015, s.PDG_ALL_PARTICLE, s.IRFDOC_PROTON_SPECTRUM, s.IRFDOC_ELECTRON_SPECTRUM, s.DAMPE_P_He_SPECTRUM)
    return f, (t["true_energy"],), {}


def describe(*objects):
    return all(bool(repr(x)) and bool(str(x)) for x in objects)


@scenario("describe", units=False)
def _(rng):
    from pyirf import spectral as s

    flux = u.Quantity(10 ** rng.uniform(-12, -6), "1/(TeV s m2)")
    return describe, (
        _simulation(rng), s.PowerLaw(flux, -2.7), s.LogParabola(flux, -2.4, -0.2),
        s.PowerLawWithExponentialGaussian(flux, -3, e_ref=u.Quantity(1, u.TeV), f=1.95, mu=-0.1 * u.one, sigma=0.7 * u.one), s.CRAB_HEGRA, s.DAMPE_P_He_SPECTRUM,
    ), {}


@scenario("integrate_cone")
def _(rng):
    from pyirf import spectral as s

    p = gen.pick(rng, s.PDG_ALL_PARTICLE, s.IRFDOC_PROTON_SPECTRUM, s.IRFDOC_ELECTRON_SPECTRUM)
    t, _ = _events(rng)

    def integrate_and_evaluate(inner, outer, energy):
        return p.integrate_cone(inner, outer)(energy)

    return integrate_and_evaluate, (u.Quantity(rng.uniform(0, 1), u.deg), u.Quantity(rng.uniform(1, 5), u.deg), t["true_energy"]), {}


@scenario("table_spectrum")
def _(rng):
    from pyirf.spectral import TableInterpolationSpectrum

    x = np.geomspace(0.01, 100, 9)
    t, _ = _events(rng)

    def build_and_evaluate(energy, flux, x):
        return TableInterpolationSpectrum(energy, flux)(x)

    return build_and_evaluate, (u.Quantity(x, u.TeV), u.Quantity(x ** -2.5 * rng.uniform(0.5, 2, 9), "TeV-1 m-2 s-1 sr-1"), t["true_energy"]), {}


@scenario("from_simulation")
def _(rng):
    from pyirf.spectral import PowerLaw

    sim = _simulation(rng) if gen.chance(rng, 0.5) else _point(rng)

    def build_and_evaluate(sim, time, energy):
        return PowerLaw.from_simulation(sim, time)(energy)

    return build_and_evaluate, (sim, u.Quantity(rng.uniform(1, 100), u.h), u.Quantity(rng.uniform(0.1, 10, 4), u.TeV)), {}


for _name, _args in (
    ("energy", ("e",)), ("fov", ("a",)), ("energy_and_fov", ("e", "a")), ("3d_polar", ("e", "a", "p")), ("3d_lonlat", ("e", "s", "s")),
):

    def _build(rng, name=_name, args=_args):
        sim = _simulation(rng)
        out = []
        for a in args:
            out.append({"e": lambda: gen.energy_edges(rng, unit=u.TeV), "a": lambda: gen.angle_edges(rng, unit=u.deg), "s": lambda: gen.sym_edges(rng, unit=u.deg),
                        "p": lambda: u.Quantity(np.linspace(0, 360, 5), u.deg)}[a]())
        method = "calculate_n_showers_" + ("per_" if not name.startswith("3d") else "") + name

        def n_showers(sim, *bins):
            return getattr(sim, method)(*bins)

        return n_showers, (sim, *out), {}

    scenario("showers_" + _name)(_build)


def _estimator(rng, kind):
    import pyirf.interpolation as I

    p = grids.line(rng) if gen.chance(rng, 0.5) else grids.plane(rng)[0]
    order = rng.permutation(len(p))
    x = (rng.dirichlet(np.ones(len(p))) * 0.9 + 0.1 / len(p)) @ p.astype(float)
    if gen.chance(rng, 0.3) and kind != "quantile":
        x = p.astype(float).max(axis=0) + 0.1 * np.ptp(p.astype(float), axis=0)
    kw = {}

    if kind == "par":
        kw["extrapolator_cls"] = gen.pick(rng, I.ParametrizedNearestSimplexExtrapolator, I.ParametrizedVisibleEdgesExtrapolator, I.ParametrizedNearestNeighborSearcher)
        cls, args = I.ParametrizedComponentEstimator, (params_for(rng, len(p)),)
    elif kind == "area":
        kw["extrapolator_cls"] = I.ParametrizedNearestSimplexExtrapolator
        a = 10 ** rng.uniform(2, 5, (len(p), 3, 2))
        a[rng.random(a.shape) < 0.2] = 0
        cls, args = I.EffectiveAreaEstimator, (u.Quantity(a, u.m**2),)
        kw["min_effective_area"] = u.Quantity(2.0, u.m**2)
    elif kind == "radmax":
        kw["extrapolator_cls"] = I.ParametrizedNearestSimplexExtrapolator
        v = rng.uniform(0.1, 0.9, (len(p), 3, 2))
        v[rng.random(v.shape) < 0.3] = 1.0
        cls, args = I.RadMaxEstimator, (v,)
        kw["fill_value"] = gen.pick(rng, None, "infer", 1.0)
    elif kind in ("quantile", "morph"):
        edges, v, *_ = pdf_templates(rng, len(p), shape=(2,), cone=False)
        cls, args = I.DiscretePDFComponentEstimator, (edges, v)
        if kind == "morph":
            kw["interpolator_cls"], kw["extrapolator_cls"] = I.MomentMorphInterpolator, I.MomentMorphNearestSimplexExtrapolator
    elif kind == "edisp":
        edges, v, *_ = pdf_templates(rng, len(p), shape=(2, 2), cone=False)
        cls, args = I.EnergyDispersionEstimator, (edges, np.swapaxes(v, -1, -2).copy())
        kw["interpolator_cls"], kw["extrapolator_cls"] = I.MomentMorphInterpolator, I.MomentMorphNearestSimplexExtrapolator
    else:
        edges, v, *_ = pdf_templates(rng, len(p), shape=(2, 2), cone=True)
        cls, args = I.PSFTableEstimator, (u.Quantity(edges, u.rad).to(u.deg), u.Quantity(v, "sr-1"))
        kw["interpolator_cls"], kw["extrapolator_cls"] = I.MomentMorphInterpolator, I.MomentMorphNearestSimplexExtrapolator
    if gen.chance(rng, 0.5):
        kw["interpolator_kwargs"] = {}

    def estimate(points, target, *args, **kw):
        return cls(points, *args, **kw)(target)

    return estimate, (p[order], x.reshape(1, -1), *args), kw


for _name in ("par", "area", "radmax", "quantile", "morph", "edisp", "psf_estimator"):

    def _build(rng, name=_name):
        return _estimator(rng, name)

    # morphing takes bin centers and edges to the same place, rounding may move them
    scenario("estimate_" + _name, units=_name in ("area", "radmax", "par"))(_build)


def _hdu_case(name):
    from . import exchange

    def build(rng):
        import pyirf.io

        args, kw = exchange.response(rng, name)
        return getattr(pyirf.io, name), tuple(args), dict(kw)

    return build


for _name in ("create_aeff2d_hdu", "create_psf_table_hdu", "create_energy_dispersion_hdu", "create_background_2d_hdu", "create_background_3d_hdu", "create_rad_max_hdu"):
    scenario(_name)(_hdu_case(_name))


# -- comparison -------------------------------------------------------------------


def freeze(x):
    """Any argument or result as nested tuple of names, arrays and units"""
    if isinstance(x, fits.BinTableHDU):
        cards = tuple((c.keyword, c.value) for c in x.header.cards if c.keyword != "DATE")
        return ("hdu", cards, {n: np.array(x.data[n]) for n in x.data.names})
    if isinstance(x, Table):
        return ("table", tuple(x.colnames), {n: freeze(x[n]) for n in x.colnames}, freeze(dict(x.meta)))
    if isinstance(x, u.Quantity):
        return ("quantity", str(x.unit), np.array(x.value))
    if isinstance(x, np.ndarray):
        return ("array", np.array(x))
    if isinstance(x, dict):
        return ("dict", tuple(x), {k: freeze(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if type(x).__name__ == "SimulatedEventsInfo":
        return ("sim", {k: freeze(getattr(x, k)) for k in ("n_showers", "energy_min", "energy_max", "max_impact", "spectral_index", "viewcone_min", "viewcone_max")})
    if isinstance(x, (int, float, str, bool, type(None), np.number, np.bool_)):
        return ("scalar", x)
    return ("object", type(x).__name__)


def same(a, b):
    """Identical frozen values"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def numbers(x, out, path=""):
    """Flatten a result to {path: Quantity or array} for comparison in physical units"""
    if isinstance(x, fits.BinTableHDU):
        for n, c in zip(x.columns.names, x.columns):
            out[f"{path}/{n}"] = u.Quantity(np.array(x.data[n], float), c.unit or "")
    elif isinstance(x, Table):
        for n in x.colnames:
            numbers(x[n], out, f"{path}/{n}")
    elif isinstance(x, u.Quantity):
        out[path] = x
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            numbers(v, out, f"{path}/{i}")
    else:
        out[path] = u.Quantity(np.array(x, float), "")
    return out


def agree(ctx, got, want, message, rtol=1e-7, atol=1e-10, **detail):
    g, w = numbers(got, {}), numbers(want, {})
    if not ctx.check(list(g) == list(w), f"{message}: structure of the result", got=list(g), want=list(w)):
        return
    for k in w:
        if not ctx.check(g[k].unit.is_equivalent(w[k].unit), f"{message}: unit of {k}", got=g[k].unit, want=w[k].unit):
            continue
        a, b = g[k].to_value(w[k].unit), w[k].value
        fin = np.abs(b[np.isfinite(b)]) if np.size(b) else np.array([])
        scale = fin.max() if np.size(fin) else 0.0
        ctx.close(a, b, f"{message}: {k or 'result'}", rtol=rtol, atol=atol * scale, **detail)


def clone(x):
    if isinstance(x, Table):
        return x.copy(copy_data=True)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [clone(v) for v in x]
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if type(x).__name__ == "SimulatedEventsInfo":
        return type(x)(**{k: getattr(x, k) for k in ("n_showers", "energy_min", "energy_max", "max_impact", "spectral_index", "viewcone_min", "viewcone_max")})
    return x


def quietly(ctx, f, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ctx.call(f, *args, **kw)


G01 = Prop(
    "G01",
    "Calls leave inputs unchanged and results do not depend on history",
    "No calculation modifies the tables, arrays, quantities, dictionaries or simulation descriptions it is given, nor the global settings of the libraries it uses. Every calculation returns identical results when repeated "
    "with the same input, whatever other calculations were done before, in between or at the same time in other threads.",
    ["histories", "schedules"],
    "all calculations of the public interface, in any order, repeated, interleaved and concurrently",
    "Tests call each function once and never look at the input afterwards.",
    ["pyirf/"],
    [("public functions", "pyirf/"), ("create_*_hdu", "pyirf/io/gadf.py"), ("estimators", "pyirf/interpolation/component_estimators.py")],
    "a case is a random sequence of calls with deep copies of all inputs and bitwise comparison of results, or the same calls in several threads; counted by sequence and content",
    "threads share the interpreter, interleavings are those of the scheduler with a switch interval of 10 microseconds; creation dates are not compared",
    observe_at=["pyirf"],
)


def _post_inputs(ctx, call):
    args, kwargs = call.live
    ctx.check(same(freeze(args), freeze(call.args)) and same(freeze(dict(kwargs)), freeze(call.kwargs)), f"{call.target} modified its input",
              before=call.args, after=args)


PUBLIC = [
    "pyirf.binning:calculate_bin_indices", "pyirf.binning:create_histogram_table", "pyirf.binning:resample_histogram1d", "pyirf.binning:join_bin_lo_hi",
    "pyirf.binning:split_bin_lo_hi", "pyirf.binning:add_overflow_bins", "pyirf.cuts:calculate_percentile_cut", "pyirf.cuts:evaluate_binned_cut", "pyirf.cuts:compare_irf_cuts",
    "pyirf.cut_optimization:optimize_gh_cut", "pyirf.cut_optimization:optimize_cuts", "pyirf.sensitivity:relative_sensitivity", "pyirf.sensitivity:calculate_sensitivity",
    "pyirf.sensitivity:estimate_background", "pyirf.irf.effective_area:effective_area_per_energy", "pyirf.irf.effective_area:effective_area_per_energy_and_fov",
    "pyirf.irf.effective_area:effective_area_3d_polar", "pyirf.irf.effective_area:effective_area_3d_lonlat", "pyirf.irf.energy_dispersion:energy_dispersion",
    "pyirf.irf.energy_dispersion:energy_migration_matrix", "pyirf.irf.energy_dispersion:energy_dispersion_to_migration", "pyirf.irf.psf:psf_table",
    "pyirf.irf.background:background_2d", "pyirf.irf.background:background_3d_lonlat", "pyirf.benchmarks.angular_resolution:angular_resolution",
    "pyirf.benchmarks.energy_bias_resolution:energy_bias_resolution", "pyirf.benchmarks.energy_bias_resolution:energy_bias_resolution_from_energy_dispersion",
    "pyirf.utils:calculate_theta", "pyirf.utils:calculate_source_fov_offset", "pyirf.utils:calculate_source_fov_position_angle", "pyirf.utils:calculate_source_fov_lonlat",
    "pyirf.coordinates:gadf_fov_coords_lon_lat", "pyirf.coordinates:gadf_fov_coords_theta_phi", "pyirf.spectral:calculate_event_weights", "pyirf.statistics:li_ma_significance",
    "pyirf.io.gadf:create_aeff2d_hdu", "pyirf.io.gadf:create_psf_table_hdu", "pyirf.io.gadf:create_energy_dispersion_hdu", "pyirf.io.gadf:create_background_2d_hdu",
    "pyirf.io.gadf:create_background_3d_hdu", "pyirf.io.gadf:create_rad_max_hdu",
]
G01.monitor(*PUBLIC)(_post_inputs)


def settings():
    import astropy.units.core as core

    registry = core.get_current_unit_registry()
    return dict(
        errstate=np.geterr(), random=np.random.get_state()[1].tobytes(), position=np.random.get_state()[2], print=str(np.get_printoptions()),
        units=len(registry.all_units), equivalencies=len(registry.equivalencies), filters=[f[:1] + f[2:3] for f in warnings.filters],
        environment=dict(os.environ), directory=os.getcwd(), recursion=sys.getrecursionlimit(),
    )


def build(ctx, name, rng=None):
    rng = ctx.rng if rng is None else rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f, a, k = SCENARIOS[name](rng)
        if gen.chance(rng, 0.5) and name in UNITS and name not in ("compare_cuts", "sensitivity"):
            a, k = other_units(rng, a), other_units(rng, k)
    return f, a, k


def outcome(f, a, k):
    try:
        return freeze(f(*a, **k))
    except Exception as e:
        return ("raised", type(e).__name__)


def watched(ctx, name, f, a, k, strict=True):
    """Call with unusual settings of the libraries, which have to be the same afterwards"""
    rng = ctx.rng
    with np.errstate(**{c: gen.pick(rng, "ignore", "warn") for c in ("divide", "over", "under", "invalid")}), np.printoptions(precision=int(rng.integers(3, 12))):
        np.random.seed(int(rng.integers(2**31)))
        modules, before = len(sys.modules), settings()
        r = ctx.call(f, *a, **k)
        if strict or len(sys.modules) == modules:  # modules that are imported late may change settings
            after = settings()
            changed = [c for c in before if before[c] != after[c]]
            ctx.check(not changed, f"{name}: global settings were changed", settings=changed)
    return freeze(r)


@G01.family(60)
def sequences(ctx):
    rng = ctx.rng
    names = list(SCENARIOS)
    first = names[ctx.index % len(names)]
    chosen = [first] + [names[int(rng.integers(len(names)))] for _ in range(3)]
    calls = [build(ctx, n) for n in chosen]
    before = [(freeze(a), freeze(k)) for _, a, k in calls]
    results = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n, (f, a, k) in zip(chosen, calls):
            results.append(watched(ctx, n, f, a, k, strict=False))
        order = [int(i) for i in rng.permutation(np.repeat(np.arange(len(calls)), 2))]
        for i in order:
            f, a, k = calls[i]
            if gen.chance(rng, 0.3):
                a, k = clone(a), clone(k)
            r = watched(ctx, chosen[i], f, a, k)
            ctx.check(same(r, results[i]), f"{chosen[i]}: repeated call gives another result", history=[chosen[j] for j in order])
    for n, b, (_, a, k) in zip(chosen, before, calls):
        ctx.check(same((freeze(a), freeze(k)), b), f"{n} modified its input", arguments=a)
    ctx.nontrivial(tuple(chosen), *(str(b[0])[:300] for b in before))


EDGES = ("low", "high", "center", "reco_energy_low", "reco_energy_high", "reco_energy_center")


def vary(rng, x):
    """Change an argument in place, such that its summary (size, range, sum, ends) stays the same.  Tells if there was a change"""
    if isinstance(x, Table):
        free = [c for c in x.colnames if c not in EDGES]
        if not free or len(x) < 2:
            return False
        c = free[int(rng.integers(len(free)))]
        x[c][:] = x[c][rng.permutation(len(x))]
        return True
    if type(x).__name__ == "SimulatedEventsInfo":
        # one of the parameters only
        names = ["n_showers", "energy_min", "energy_max", "max_impact", "spectral_index"]
        if x.viewcone_min < x.viewcone_max:
            names += ["viewcone_min", "viewcone_min", "viewcone_max"]
        name = gen.pick(rng, *names)
        if name == "n_showers":
            x.n_showers = x.n_showers + int(rng.integers(1, 1000))
        elif name == "spectral_index":
            x.spectral_index = x.spectral_index - 10 ** rng.uniform(-3, 0)
        elif name == "viewcone_min":
            x.viewcone_min = rng.uniform(0, 0.8) * x.viewcone_max
        else:
            setattr(x, name, getattr(x, name) * (0.9 if name == "energy_min" else 1.1))
        return True
    if isinstance(x, list) and x:
        return vary(rng, x[int(rng.integers(len(x)))])
    if not isinstance(x, np.ndarray) or x.ndim == 0 or x.dtype.kind not in "fiu":
        return False
    v = x.value if isinstance(x, u.Quantity) else x
    if v.ndim == 1 and len(v) > 1 and ((np.diff(v) > 0).all()):
        if len(v) < 3 or v.dtype.kind != "f":
            return False
        i = int(rng.integers(1, len(v) - 1))
        v[i] += rng.uniform(0.2, 0.7) * (v[i + 1] - v[i])
        return True
    axis = int(rng.integers(v.ndim)) if v.ndim != 2 or gen.chance(rng, 0.3) else 0
    if v.shape[axis] < 2:
        return False
    v[...] = np.take(v, rng.permutation(v.shape[axis]), axis=axis)
    return True


def steps(name, seed, n):
    """A calculation with n inputs that look alike, modified in place from one to the next"""
    rng = np.random.default_rng(seed)
    gen.AXIS = None  # the same in all processes
    f, a, k = build(None, name, rng)
    yield f, a, k
    for _ in range(n - 1):
        places = [v for v in (*a, *k.values())]
        order = rng.permutation(len(places))
        if gen.chance(rng, 0.4):  # events, grid points
            order = np.append(0, order)
        for i in order:
            if vary(rng, places[int(i)]):
                break
        yield f, a, k


class Pristine:
    """A process that has not done any calculation, from which one is forked for every request"""

    def __init__(self):
        down, up = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(down[1])
                os.close(up[0])
                self.serve(os.fdopen(down[0], "rb"), os.fdopen(up[1], "wb"))
            finally:
                os._exit(0)
        os.close(down[0])
        os.close(up[1])
        self.requests, self.answers = os.fdopen(down[1], "wb"), os.fdopen(up[0], "rb")

    @staticmethod
    def serve(requests, answers):
        signal.setitimer(signal.ITIMER_PROF, 0)
        while True:
            try:
                name, seed, index = pickle.load(requests)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    warnings.simplefilter("ignore")
                    with np.errstate(all="ignore"):
                        for _, (f, a, k) in zip(range(index + 1), steps(name, seed, index + 1)):
                            pass
                        pickle.dump(outcome(f, a, k), answers)
                    answers.flush()
                finally:
                    os._exit(0)
            if os.waitpid(pid, 0)[1] != 0:
                return

    def ask(self, name, seed, index):
        try:
            pickle.dump((name, seed, index), self.requests)
            self.requests.flush()
            return pickle.load(self.answers)
        except (EOFError, BrokenPipeError, pickle.UnpicklingError) as e:
            raise HarnessError(f"no answer of the fresh process for {name}: {e}") from None


def prepare():
    import pyirf.benchmarks, pyirf.coordinates, pyirf.cut_optimization, pyirf.cuts, pyirf.interpolation, pyirf.io, pyirf.irf, pyirf.sensitivity, pyirf.spectral, pyirf.statistics  # noqa
    from . import exchange  # noqa

    G01.pristine = Pristine()


G01.prepare = prepare


@G01.family(30)
def lookalikes(ctx):
    """Different inputs of the same calculation that have nearly everything in common, the objects being reused"""
    rng = ctx.rng
    names = list(SCENARIOS)
    names += 4 * [n for n in names if n.startswith("estimate_")]
    name = names[ctx.index % len(names)]
    seed, n = int(rng.integers(2**62)), 6
    distinct = set()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for i, (f, a, k) in enumerate(steps(name, seed, n)):
            content = pickle.dumps(freeze((a, k)))
            if content in distinct:
                continue
            distinct.add(content)
            got = outcome(f, a, k)
            want = G01.pristine.ask(name, seed, i)
            ctx.check(near(got, want), f"{name}: result after {i} similar calls differs from the one in a fresh process", got=got, want=want)
    ctx.nontrivial(name, seed)


def near(a, b):
    """Equal up to the last digits"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.dtype.kind == "f" and a.shape == b.shape:
        return bool(np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return same(a, b)


@G01.family(6)
def threads(ctx):
    import sys

    rng = ctx.rng
    names = list(SCENARIOS)
    # half of the threads do the same calculation with different input
    common = names[int(rng.integers(len(names)))]
    chosen = [common, common, common] + [names[int(rng.integers(len(names)))] for _ in range(3)]
    calls = [build(ctx, n) for n in chosen]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = [freeze(ctx.call(f, *clone(a), **clone(k))) for f, a, k in calls]
        got = [None] * len(calls)
        barrier = threading.Barrier(len(calls))
        interval = sys.getswitchinterval()

        def run(i):
            f, a, k = calls[i]
            barrier.wait()
            out = []
            for _ in range(3):
                try:
                    out.append(freeze(f(*a, **k)))
                except Exception as e:
                    out.append(e)
            got[i] = out

        sys.setswitchinterval(1e-5)
        try:
            pool = [threading.Thread(target=run, args=(i,)) for i in range(len(calls))]
            for t in pool:
                t.start()
            for t in pool:
                t.join()
        finally:
            sys.setswitchinterval(interval)
    for n, g, w in zip(chosen, got, want):
        for r in g:
            if isinstance(r, Exception):
                ctx.check(False, f"{n} raised {type(r).__name__} in a thread: {r}")
            else:
                ctx.check(same(r, w), f"{n}: result in a thread differs", other=chosen)
    ctx.nontrivial(tuple(chosen), str(want)[:300])


# ---------------------------------------------------------------------------

G02 = Prop(
    "G02",
    "Results are the same physical quantities in whatever units the input is given",
    "Giving any energies, angles, lengths, areas, times, rates or probability densities of the input in other compatible units changes the results by rounding only, and their "
    "physical dimension not at all, for all calculations, histograms, cuts, spectra, estimators and tables.",
    ["inputs", "configurations"],
    "all calculations of the public interface and all combinations of compatible units of their arguments and table columns",
    "Tests use TeV, deg and m nearly everywhere.",
    ["pyirf/"],
    [("public functions", "pyirf/")],
    "a case is a calculation done twice, in canonical and in random units; counted by calculation and content",
    "values are random, so none is within rounding of a bin edge; agreement within 1e-7 relative or 1e-10 of the largest value",
    observe_at=["pyirf"],
)
G02.monitor("pyirf.binning:create_histogram_table", "pyirf.cuts:calculate_percentile_cut", "pyirf.io.gadf:create_aeff2d_hdu",
            "pyirf.irf.background:background_2d", "pyirf.irf.psf:psf_table", required=True)(lambda ctx, call: None)

FAMILIES = [
    ("TeV", ("TeV", "GeV", "MeV", "erg", "J")), ("deg", ("deg", "rad", "arcmin", "arcsec")), ("m", ("m", "cm", "km")), ("m2", ("m2", "cm2", "km2")),
    ("s", ("s", "min", "h", "d")), ("sr-1", ("sr-1", "deg-2", "arcmin-2")), ("sr", ("sr", "deg2")), ("TeV-1 m-2 s-1", ("TeV-1 m-2 s-1", "GeV-1 cm-2 s-1", "erg-1 cm-2 s-1")),
    ("TeV-1 m-2 s-1 sr-1", ("TeV-1 m-2 s-1 sr-1", "GeV-1 cm-2 s-1 sr-1", "GeV-1 cm-2 s-1 deg-2")), ("MeV-1 s-1 sr-1", ("MeV-1 s-1 sr-1", "TeV-1 s-1 deg-2", "GeV-1 h-1 sr-1")),
]


def other_units(rng, x):
    if isinstance(x, u.Quantity):
        for canonical, options in FAMILIES:
            if x.unit.is_equivalent(canonical):
                return x.to(gen.pick(rng, *options))
        return x
    if isinstance(x, QTable):
        out = x.copy(copy_data=True)
        for c in out.colnames:
            out[c] = other_units(rng, x[c])
        return out
    if isinstance(x, (list, tuple)):
        return type(x)(other_units(rng, v) for v in x)
    if isinstance(x, dict):
        return {k: other_units(rng, v) for k, v in x.items()}
    if type(x).__name__ == "SimulatedEventsInfo":
        y = clone(x)
        for k in ("energy_min", "energy_max", "max_impact", "viewcone_min", "viewcone_max"):
            setattr(y, k, other_units(rng, getattr(x, k)))
        if x.viewcone_min == x.viewcone_max:  # point source, must not become a thin shell by rounding
            y.viewcone_min = y.viewcone_max
        return y
    return x


@G02.family(330)
def converted(ctx):
    rng = ctx.rng
    names = sorted(UNITS)
    name = names[ctx.index % len(names)]
    f, a, k = build(ctx, name)
    if name == "compare_cuts":  # equality is exact
        return ctx.skip("exact comparison")
    b, m = other_units(rng, a), other_units(rng, k)
    if name == "sensitivity":  # both histograms need identical edges
        for c in ("low", "high", "center"):
            b[1]["reco_energy_" + c] = b[0]["reco_energy_" + c].copy()
    want, got = quietly(ctx, f, *a, **k), quietly(ctx, f, *b, **m)
    agree(ctx, got, want, f"{name} in other units", rtol=2e-6 if "sensitivity" in name or name.startswith("create_") else 1e-7)
    ctx.nontrivial(name, str(freeze(b))[:600])


# ---------------------------------------------------------------------------

G03 = Prop(
    "G03",
    "Responses do not depend on the order of events and add up over parts of a sample",
    "Reordering the events of a table changes no response, histogram or benchmark, beyond rounding of sums of weights. Effective areas, backgrounds, background estimates and histograms of a "
    "sample are the sums of those of any division of it into parts, empty parts included, and additional columns of the table do not matter.",
    ["inputs", "histories"],
    "all event tables (any size, weights) with any permutation and division, for all responses, histograms and benchmarks",
    "Tests use one table in one order.",
    ["pyirf/irf/", "pyirf/binning.py", "pyirf/sensitivity.py", "pyirf/benchmarks/"],
    [("effective_area_*", "pyirf/irf/effective_area.py"), ("background_*", "pyirf/irf/background.py"), ("energy_dispersion", "pyirf/irf/energy_dispersion.py"),
     ("psf_table", "pyirf/irf/psf.py"), ("create_histogram_table", "pyirf/binning.py"), ("estimate_background", "pyirf/sensitivity.py")],
    "a case is a random table, permuted and divided; counted by calculation and content",
    "agreement within 1e-7 relative or 1e-10 of the largest value",
    observe_at=["pyirf.irf", "pyirf.benchmarks", "pyirf.binning", "pyirf.sensitivity"],
)
G03.monitor("pyirf.irf.effective_area:effective_area_per_energy", "pyirf.irf.background:background_2d", "pyirf.irf.psf:psf_table",
            "pyirf.binning:create_histogram_table", "pyirf.sensitivity:estimate_background")(lambda ctx, call: None)


@G03.family(4)
def large_samples(ctx):
    """More events than any buffer or block holds"""
    global SIZE

    SIZE = int(ctx.rng.integers(70_000, 200_000))
    try:
        order_of_events(ctx)
    finally:
        SIZE = None


#: columns that tables in use have
SELECTION = ("selected", "selected_gh", "selected_theta", "selected_multiplicity", "selected_fov_offset", "selected_irfs", "mask", "valid", "is_valid")
IDS = ("event_id", "obs_id", "tel_id", "bin_index", "reco_energy_bin", "index", "run", "n", "weights", "mc_type", "true_shower_primary_id")
ANGLES = ("theta_cut", "gh_cut", "source_fov_offset", "fov_offset", "offset", "true_theta", "true_alt_rad", "disp", "energy", "log_reco_energy")
KINDS = {**dict.fromkeys(SELECTION, "b"), **dict.fromkeys(IDS, "i"), **dict.fromkeys(ANGLES, "q"), "weights": "f", "gh_cut": "f", "energy": "f", "log_reco_energy": "f"}


@G03.family(260)
def order_of_events(ctx):
    rng = ctx.rng
    names = sorted(EVENTS)
    name = names[ctx.index % len(names)]
    f, a, k = build(ctx, name)
    i = EVENTS[name]
    t = a[i]
    want = quietly(ctx, f, *a, **k)
    perm = rng.permutation(len(t))
    moved = t[perm][[t.colnames[j] for j in rng.permutation(len(t.colnames))]]
    moved["something_else"] = rng.normal(size=len(t))
    n = len(t)
    for c in gen.pick(rng, SELECTION, IDS, ANGLES):
        if c not in moved.colnames and gen.chance(rng, 0.7):
            moved[c] = {"b": lambda: rng.random(n) < 0.5, "i": lambda: rng.integers(0, gen.pick(rng, 2, 10), n), "f": lambda: rng.normal(size=n),
                        "q": lambda: u.Quantity(rng.uniform(0, 5, n), u.deg)}[KINDS[c]]()
    if gen.chance(rng, 0.3):
        moved.meta.update(ETRUE=1.0, EXPOSURE=3, selected=True, unit="GeV")
    got = quietly(ctx, f, *a[:i], moved, *a[i + 1 :], **k)
    agree(ctx, got, want, f"{name} of reordered events")
    if name in ADDITIVE:
        parts = rng.integers(0, 3, len(t))
        res = [quietly(ctx, f, *a[:i], t[parts == j], *a[i + 1 :], **k) for j in range(3)]
        whole, each = numbers(want, {}), [numbers(r, {}) for r in res]
        if not ctx.check(all(list(e) == list(whole) for e in each), f"{name}: structure of the result of a part"):
            return
        for key, v in whole.items():
            if key.split("/")[-1] in ("reco_energy_low", "reco_energy_high", "reco_energy_center", "true_energy_low", "true_energy_high", "true_energy_center", "low", "high", "center"):
                continue
            total = sum(e[key].to_value(v.unit) for e in each)
            w = v.value
            scale = np.abs(w[np.isfinite(w)]).max(initial=0)
            if key.endswith("_weighted"):  # numpy takes differences of cumulated weights
                scale = max(scale, np.abs(np.asarray(t["weight"], float)).sum() if "weight" in t.colnames else len(t))
            with np.errstate(all="ignore"):
                fin = np.isfinite(w)  # no simulated events in a bin
                total, w = np.where(fin, total, 0), np.where(fin, w, 0)
                ctx.close(total, w, f"{name}: sum over parts, {key or 'result'}", rtol=1e-9, atol=1e-12 * scale)
        ctx.check(len(vstack([t[parts == j] for j in range(3)])) == len(t), "division of the sample")
    ctx.nontrivial(name, t["true_energy"].value, perm)


# ---------------------------------------------------------------------------

G04 = Prop(
    "G04",
    "Results depend on the values of the input only, not on how they are stored",
    "Every calculation returns the same result for the same values in whatever memory layout they are given: big endian numbers as read from FITS files, Fortran order, views with "
    "any strides, read-only arrays, or subclasses like Angle for angles, for all arguments, table columns and attributes of simulations.",
    ["inputs", "configurations"],
    "all calculations of the public interface and all combinations of memory layouts of their arguments and table columns",
    "Tests use contiguous writable arrays in native byte order.",
    ["pyirf/"],
    [("public functions", "pyirf/")],
    "a case is a calculation done twice, with plain and with differently stored input; counted by calculation and content",
    "agreement within 1e-9 relative or 1e-12 of the largest value",
    observe_at=["pyirf"],
)
G04.monitor("pyirf.binning:create_histogram_table", "pyirf.cuts:calculate_percentile_cut", "pyirf.io.gadf:create_aeff2d_hdu",
            "pyirf.irf.background:background_2d", "pyirf.irf.psf:psf_table", required=True)(lambda ctx, call: None)


def other_storage(rng, x, used):
    if isinstance(x, u.Quantity):
        y = other_storage(rng, x.value, used)
        y = u.Quantity(y, x.unit, copy=False) if x.shape else x
        if x.unit.is_equivalent("rad") and gen.chance(rng, 0.25):
            used.add("angle")
            return Angle(y, copy=False) if y.shape else Angle(y)
        return y
    if isinstance(x, Table):
        out = x.copy(copy_data=False)
        for c in out.colnames:
            out.replace_column(c, other_storage(rng, x[c], used), copy=False)
        return out
    if isinstance(x, np.ndarray) and x.dtype.names is None and x.dtype.kind in "fiuUb":
        kind = gen.pick(rng, "plain", "big endian", "fortran", "strided", "reversed", "frozen", "column")
        used.add(kind)
        y = np.asarray(x)
        if kind == "big endian":
            y = y.astype(y.dtype.newbyteorder(">"))
        elif kind == "fortran":
            y = np.array(y, order="F")
        elif kind == "strided" and y.ndim:
            y = np.repeat(y, 2, axis=-1)[..., ::2]
        elif kind == "reversed" and y.ndim:
            y = np.flip(np.flip(y).copy())
        elif kind == "column" and y.ndim:
            z = np.empty(y.shape, [("a", "i1"), ("x", y.dtype)])
            z["x"] = y
            y = z["x"]
        elif kind == "frozen":
            y = y.copy()
            y.setflags(write=False)
        return y
    if isinstance(x, (list, tuple)):
        return type(x)(other_storage(rng, v, used) for v in x)
    if isinstance(x, dict):
        return {k: other_storage(rng, v, used) for k, v in x.items()}
    if type(x).__name__ == "SimulatedEventsInfo":
        y = clone(x)
        for k in ("energy_min", "energy_max", "max_impact", "viewcone_min", "viewcone_max"):
            setattr(y, k, other_storage(rng, getattr(x, k), used))
        return y
    return x


@G04.family(330)
def stored(ctx):
    rng = ctx.rng
    names = sorted(SCENARIOS)
    name = names[ctx.index % len(names)]
    f, a, k = build(ctx, name)
    used = set()
    b, m = other_storage(rng, clone(a), used), other_storage(rng, clone(k), used)
    want = quietly(ctx, f, *a, **k)
    got = quietly(ctx, f, *b, **m)
    agree(ctx, got, want, f"{name} with input stored differently", rtol=1e-9, atol=1e-12, storage=sorted(used))
    ctx.nontrivial(name, tuple(sorted(used)), str(freeze(b))[:600])


pipeline.attach(G01, "optimize", "benchmarks", "sensitivity", "files", "gammapy")


# ---------------------------------------------------------------------------

G05 = Prop(
    "G05",
    "Responses and fluxes of one simulation fold back to its events",
    "For events and a simulation description, the responses computed from them multiply back to the events: integrating a flux with the shape of the simulated spectrum over energy bins, "
    "observation time, solid angle of the field of view and effective area gives the sum of the event weights for this flux in each bin, and distributing the result with the energy "
    "dispersion, migration matrix and PSF table gives the weighted events in each bin of migration, reconstructed energy and source offset, for point-like and diffuse simulations. "
    "The background rate integrated over its bins and the effective area read back from GADF files do the same.",
    ["inputs", "configurations"],
    "all event tables, simulation descriptions, spectra with the simulated index, observation times, bins and units",
    "Tests check each response alone, with values computed by hand for a few bins.",
    ["pyirf/irf/", "pyirf/simulations.py", "pyirf/spectral.py", "pyirf/io/gadf.py", "pyirf/utils.py"],
    [("PowerLaw.from_simulation", "pyirf/spectral.py"), ("calculate_event_weights", "pyirf/spectral.py"), ("effective_area_*", "pyirf/irf/effective_area.py"),
     ("energy_dispersion", "pyirf/irf/energy_dispersion.py"), ("psf_table", "pyirf/irf/psf.py"), ("background_2d", "pyirf/irf/background.py")],
    "a case is a random simulation with events, all responses and the integral of the flux calculated from calls of the spectrum; counted by content",
    "flux integrals by Gauss-Legendre quadrature in the logarithm of energy, agreement within 1e-6; events within rounding of a bin edge are removed",
    observe_at=["pyirf.irf", "pyirf.spectral", "pyirf.simulations"],
    technique="runtime monitoring: conservation law over a chain of calls (fluxes, weights, responses, files), checked against a plain histogram of the events",
)
G05.monitor("pyirf.spectral:PowerLaw.from_simulation", "pyirf.spectral:calculate_event_weights", "pyirf.irf.energy_dispersion:energy_dispersion",
            "pyirf.irf.energy_dispersion:energy_migration_matrix", "pyirf.irf.psf:psf_table", "pyirf.irf.background:background_2d")(lambda ctx, call: None)


@G05.family(60)
def folding(ctx):
    from pyirf import irf
    from pyirf.irf.energy_dispersion import energy_migration_matrix
    from pyirf.io import create_aeff2d_hdu
    from pyirf.simulations import SimulatedEventsInfo
    from pyirf.spectral import POINT_SOURCE_FLUX_UNIT, DIFFUSE_FLUX_UNIT, PowerLaw, calculate_event_weights
    from pyirf.utils import calculate_source_fov_offset, calculate_theta

    rng = ctx.rng
    DEG, TEV = u.deg, u.TeV
    diffuse = gen.chance(rng, 0.7)
    lo = 10 ** rng.uniform(-3, 0)
    hi = lo * 10 ** rng.uniform(0.5, 4)
    index = gen.pick(rng, -2, -1.0, -2.7, -rng.uniform(1, 4))
    inner, outer = (0.0, 0.0) if not diffuse else (gen.pick(rng, 0.0, 0.0, rng.uniform(0, 2)), rng.uniform(2.5, 12))
    info = ctx.call(
        SimulatedEventsInfo, n_showers=int(10 ** rng.uniform(2, 9)), energy_min=u.Quantity(lo, TEV).to(gen.energy_unit(rng)), energy_max=u.Quantity(hi, TEV).to(gen.energy_unit(rng)),
        max_impact=u.Quantity(rng.uniform(50, 2000), u.m).to(gen.pick(rng, "m", "km", "cm")), spectral_index=index,
        viewcone_min=u.Quantity(inner, DEG).to(gen.angle_unit(rng)), viewcone_max=u.Quantity(outer, DEG).to(gen.angle_unit(rng)))
    e = gen.increasing(rng, gen.pick(rng, 2, 3, 6), *np.sort(lo * (hi / lo) ** rng.choice([0.0, 0.1, 0.9, 1.0], 2, replace=False)))
    e[0], e[-1] = max(e[0], lo * (1 + 1e-12)), min(e[-1], hi * (1 - 1e-12))
    fov = gen.increasing(rng, gen.pick(rng, 2, 3, 4), inner, outer) if diffuse else np.array([0, rng.uniform(0.1, 1)])
    ev = gen.events(rng, e_edges=e * TEV, fov_max=outer if diffuse else fov[-1] * 0.9, weight=False)
    # derived quantities from the code under test
    ev["true_source_fov_offset"] = ctx.call(calculate_source_fov_offset, ev, prefix="true")
    ev["reco_source_fov_offset"] = ctx.call(calculate_source_fov_offset, ev, prefix="reco")
    ev["theta"] = ctx.call(calculate_theta, ev, assumed_source_az=ev["true_az"], assumed_source_alt=ev["true_alt"])
    off = ev["true_source_fov_offset"].to_value(DEG)
    te, re = ev["true_energy"].to_value(TEV).astype(float), ev["reco_energy"].to_value(TEV).astype(float)
    m_edges = np.concatenate([[0.0], gen.increasing(rng, gen.pick(rng, 2, 8), 0.3, 3.0), [1e9]])
    s_edges = np.concatenate([[0.0], gen.increasing(rng, gen.pick(rng, 2, 8), 0.01, 0.5), [180.0]])
    r_edges = np.concatenate([[0.0], gen.increasing(rng, gen.pick(rng, 2, 6), lo, hi), [np.inf]])
    th = ev["theta"].to_value(DEG).astype(float)
    safe = ~(gen.near_edge(te, e, 1e-5) | gen.near_edge(off, fov, 1e-5) | gen.near_edge(re / te, m_edges[1:-1], 1e-5) | gen.near_edge(th, s_edges[1:-1], 1e-5)
             | gen.near_edge(re, r_edges[1:-1], 1e-5))
    ev = ev[safe & (te >= e[0]) & (te < e[-1]) & (off >= fov[0]) & (off < fov[-1])]
    te, re, off, th = (ev[c].to_value(x).astype(float) for c, x in (("true_energy", TEV), ("reco_energy", TEV), ("true_source_fov_offset", DEG), ("theta", DEG)))
    # weights for a flux with the simulated shape
    t_sim, t_obs = (u.Quantity(10 ** rng.uniform(0, 3), u.h).to(gen.pick(rng, "h", "s", "min")) for _ in range(2))
    simulated = ctx.call(PowerLaw.from_simulation, info, t_sim)
    unit = DIFFUSE_FLUX_UNIT if diffuse else POINT_SOURCE_FLUX_UNIT
    target = ctx.call(PowerLaw, u.Quantity(10 ** rng.uniform(-12, -3), unit), index, e_ref=u.Quantity(10 ** rng.uniform(-1, 1), TEV).to(gen.energy_unit(rng)))
    ev["weight"] = ctx.call(calculate_event_weights, ev["true_energy"], target, simulated)
    w = np.asarray(ev["weight"], float)
    et, ft = (e * TEV).to(gen.energy_unit(rng)), (fov * DEG).to(gen.angle_unit(rng))
    if diffuse:
        area = ctx.call(irf.effective_area_per_energy_and_fov, ev, info, et, ft)
        omega = 2 * np.pi * -np.diff(np.cos(np.deg2rad(fov)))
    else:
        area = ctx.call(irf.effective_area_per_energy, ev, info, et)[:, np.newaxis]
        omega = np.ones(1)
    if gen.chance(rng, 0.4):
        hdu = ctx.call(create_aeff2d_hdu, area, et, ft)
        area = u.Quantity(np.array(hdu.data["EFFAREA"][0].T, float), hdu.columns["EFFAREA"].unit)
    # expected events per bin
    x, g = np.polynomial.legendre.leggauss(24)
    flux = np.empty(len(e) - 1)
    for i in range(len(e) - 1):
        a, b = np.log(e[i]), np.log(e[i + 1])
        y = np.exp(0.5 * (b - a) * x + 0.5 * (a + b))
        v = ctx.call(target, u.Quantity(y, TEV)).to_value(1 / (TEV * u.m ** 2 * u.s * (u.sr if diffuse else 1)))
        flux[i] = 0.5 * (b - a) * (g * y * v).sum()
    # simulated showers and weights are for different times
    scale = t_sim.to_value(u.s)
    folded = flux[:, None] * omega * area.to_value(u.m ** 2) * scale
    if not ctx.check(folded.shape == (len(e) - 1, len(fov) - 1), "axes of the effective area", got=folded.shape):
        return
    want, _, _ = np.histogram2d(te, off, [e, fov], weights=w)
    ctx.close(folded, want, "flux folded with the effective area", rtol=1e-6, atol=1e-10 * want.max())

    disp = ctx.call(irf.energy_dispersion, ev, true_energy_bins=et, fov_offset_bins=ft, migration_bins=m_edges)
    counts, _, _ = np.histogram2d(te, off, [e, fov])
    got = disp * np.diff(m_edges)[:, None] * counts[:, None]
    h, _ = np.histogramdd(np.stack([te, re / te, off], axis=-1), [e, m_edges, fov])
    ctx.close(got, h, "events folded with the energy dispersion", rtol=1e-6, atol=1e-9)
    matrix = ctx.call(energy_migration_matrix, ev, true_energy_bins=et, reco_energy_bins=u.Quantity(r_edges, TEV).to(gen.energy_unit(rng)), fov_offset_bins=ft)
    h, _ = np.histogramdd(np.stack([te, re, off], axis=-1), [e, r_edges, fov])
    ctx.close(matrix * counts[:, None], h, "events folded with the migration matrix", rtol=1e-6, atol=1e-9)
    psf = ctx.call(irf.psf_table, ev, et, fov_offset_bins=ft, source_offset_bins=(s_edges * DEG).to(gen.angle_unit(rng)))
    ring = 4 * np.pi * np.diff(np.sin(np.deg2rad(s_edges) / 2) ** 2)
    h, _ = np.histogramdd(np.stack([te, off, th], axis=-1), [e, fov, s_edges])
    ctx.close(psf.to_value(1 / u.sr) * ring * counts[..., None], h, "events folded with the psf", rtol=1e-6, atol=1e-9)

    r_fin = r_edges[1:-1]
    rate = ctx.call(irf.background_2d, ev, u.Quantity(r_fin, TEV).to(gen.energy_unit(rng)), fov_offset_bins=(s_edges * DEG).to(gen.angle_unit(rng)), t_obs=t_obs)
    ro = ev["reco_source_fov_offset"].to_value(DEG).astype(float)
    if not gen.near_edge(ro, s_edges, 1e-5).any():
        h, _, _ = np.histogram2d(re, ro, [r_fin, s_edges], weights=w)
        got = rate.to_value(1 / (TEV * u.s * u.sr)) * np.diff(r_fin)[:, None] * ring * t_obs.to_value(u.s)
        ctx.close(got, h, "background rate integrated over its bins", rtol=1e-6, atol=1e-10 * h.max())
    if len(ev):
        ctx.nontrivial(te, e, fov, float(index), info.n_showers)
