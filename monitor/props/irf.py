"""Creation of instrument response functions from event lists"""
import numpy as np
import astropy.units as u

from ..core import Prop
from .. import gen, ref, pipeline
from .simulations import energy_fraction, energy_rounding, fov_fraction, random_info, bins_for_energy, bins_for_fov

TEV, DEG, RAD = u.TeV, u.deg, u.rad


def on_edges(rng, table, col, edges, unit, p=0.3):
    """Move some events exactly onto bin edges, in the unit used internally"""
    n = len(table)
    if n == 0:
        return edges.to(unit)
    e = edges.to(unit)
    x = np.asarray(table[col].to_value(unit), float)
    m = rng.random(n) < p
    fin = e.value[np.isfinite(e.value)]
    x[m] = rng.choice(fin, int(m.sum()))
    table[col] = u.Quantity(x, unit)
    return e


def events_for(rng, info=None, e_bins=None, fov_max=6.0, **kw):
    if e_bins is None and info is not None:
        lo, hi = info.energy_min, info.energy_max
        e_bins = u.Quantity([lo.to_value(TEV), hi.to_value(TEV)], TEV)
    fin = e_bins[np.isfinite(e_bins.value)]
    return gen.events(rng, e_edges=fin, fov_max=fov_max, **kw)


def balanced(rng, e):
    """Bins and events with about the same number of events in every bin"""
    e = e[np.isfinite(e.value) & (e.value > 0)]
    nb, k = len(e) - 1, int(gen.pick(rng, 5, 150, 400))
    counts = k + rng.integers(-1, 2, nb)
    i = np.repeat(np.arange(nb), counts)
    ev = gen.events(rng, n=len(i), e_edges=e, fov_max=1.0)
    x = e.to_value(TEV)
    true = x[i] + rng.uniform(0.01, 0.99, len(i)) * (x[i + 1] - x[i])
    scale = ev["reco_energy"] / ev["true_energy"]
    ev["true_energy"] = u.Quantity(true, TEV)
    ev["reco_energy"] = ev["true_energy"] * np.clip(scale.to_value(u.one), 0.5, 2.0)
    return e, u.Quantity([0.0, gen.pick(rng, 1.5, 4.0)], DEG), ev[rng.permutation(len(ev))]


# ---------------------------------------------------------------------------

I01 = Prop(
    "I01",
    "Effective area is selected over simulated events times area in every bin",
    "In every bin of true energy, or of true energy and field of view offset, the effective area is the number of selected events in the bin divided by the "
    "expected number of simulated showers in it, times the area in which showers were simulated. Events outside of the bins do not contribute, bins with simulated showers but without selected events are zero, "
    "energy is the first axis, and neither event weights nor the units of events, bins and simulation matter.",
    ["inputs", "configurations"],
    "all event tables (also empty or with events on edges), simulations and bins inside, around or beyond the simulated range",
    "Tests use one fixed table with a few events in two bins.",
    ["pyirf/irf/effective_area.py", "pyirf/simulations.py", "pyirf/binning.py"],
    [("effective_area_per_energy", "pyirf/irf/effective_area.py"), ("effective_area_per_energy_and_fov", "pyirf/irf/effective_area.py")],
    "a case is a random simulation, event table and binning; non-trivial if a bin has selected events and simulated showers",
    "bins with less than 1e-6 of the showers are not judged, nor tables with events at an edge up to unit conversion",
    observe_at=["pyirf.irf.effective_area"],
)


def _area(info):
    return np.pi * info.max_impact.to_value(u.m) ** 2


def _judge_aeff(ctx, result, n_sel, fraction, info, bins, what):
    if not ctx.check(hasattr(result, "unit") and result.unit.is_equivalent(u.m ** 2), f"{what} is not an area"):
        return
    got = result.to_value(u.m ** 2)
    if not ctx.check(got.shape == n_sel.shape, f"{what}: axes of the result", got=got.shape, want=n_sel.shape):
        return
    sim = fraction * info.n_showers
    ok = fraction > 1e-6
    with np.errstate(all="ignore"):
        want = n_sel / sim * _area(info)
    rounding = energy_rounding(info, bins).reshape((-1,) + (1,) * (got.ndim - 1))
    ctx.close(got[ok], want[ok], what, rtol=(1e-6 + np.broadcast_to(rounding, got.shape))[ok], info=info, n_selected=n_sel)
    empty = fraction == 0
    ctx.check(~np.isfinite(got[empty]).any() or np.all(np.isin(got[empty & np.isfinite(got)], [0.0])),
              f"{what}: finite effective area without simulated showers", got=got[empty])
    if (n_sel[ok] > 0).any():
        ctx.nontrivial(n_sel, fraction)


@I01.monitor("pyirf.irf.effective_area:effective_area_per_energy")
def _post_aeff1(ctx, call):
    if call.error is not None:
        return
    a = call.bind("selected_events", "simulation_info", "true_energy_bins")
    ev, info, bins = a["selected_events"], a["simulation_info"], a["true_energy_bins"]
    try:
        # the one dimensional histogram is filled in the unit of the bins
        n = ref.histogram([ref.column(ev["true_energy"], bins, bins.unit)])
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    _judge_aeff(ctx, call.result, n, energy_fraction(info, bins), info, bins, "effective area per energy")


@I01.monitor("pyirf.irf.effective_area:effective_area_per_energy_and_fov")
def _post_aeff2(ctx, call):
    if call.error is not None:
        return
    a = call.bind("selected_events", "simulation_info", "true_energy_bins", "fov_offset_bins")
    ev, info = a["selected_events"], a["simulation_info"]
    try:
        n = ref.histogram([ref.column(ev["true_energy"], a["true_energy_bins"], TEV),
                           ref.column(ev["true_source_fov_offset"], a["fov_offset_bins"], DEG)])
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    f = energy_fraction(info, a["true_energy_bins"])[:, None] * fov_fraction(info, a["fov_offset_bins"])
    _judge_aeff(ctx, call.result, n, f, info, a["true_energy_bins"], "effective area per energy and offset")


@I01.family(400)
def areas(ctx):
    from pyirf.irf import effective_area_per_energy, effective_area_per_energy_and_fov

    rng = ctx.rng
    info = ctx.call(random_info, rng)
    e, fov = bins_for_energy(rng, info), bins_for_fov(rng, info)
    ev = events_for(rng, info, fov_max=info.viewcone_max.to_value(DEG) * 1.1)
    if gen.chance(rng, 0.35):
        e = on_edges(rng, ev, "true_energy", e, TEV)
        fov = on_edges(rng, ev, "true_source_fov_offset", fov, DEG)
    a1 = ctx.call(effective_area_per_energy, ev, info, e)
    a2 = ctx.call(effective_area_per_energy_and_fov, ev, info, e, fov)
    if gen.chance(rng, 0.3) and len(ev):
        ev2 = ev.copy()
        ev2["weight"] = rng.random(len(ev))
        for x, y in ((ctx.call(effective_area_per_energy, ev2, info, e), a1),
                     (ctx.call(effective_area_per_energy_and_fov, ev2, info, e, fov), a2)):
            ctx.close(x.value, y.value, "weights change the effective area", rtol=1e-12)


@I01.family(150)
def ratio(ctx):
    from pyirf.irf import effective_area

    rng = ctx.rng
    shape = gen.pick(rng, (), (4,), (2, 3))
    sel, sim = rng.integers(0, 50, shape), rng.integers(1, 1000, shape)
    area = u.Quantity(10 ** (rng.uniform(3, 7) if not gen.chance(rng, 0.15) else rng.uniform(-3, 12)), u.m ** 2).to(gen.pick(rng, "m2", "km2", "cm2"))
    r = ctx.call(effective_area, sel, sim, area)
    ctx.close(r.to_value(u.m ** 2), sel / sim * area.to_value(u.m ** 2), "ratio times area", rtol=1e-9)
    ctx.nontrivial(sel, sim)


# ---------------------------------------------------------------------------

I02 = Prop(
    "I02",
    "Three dimensional effective areas bin events and showers consistently",
    "In bins of true energy and a two dimensional field of view position, either offset and position angle or longitude and latitude, the effective area is the number of selected events "
    "in the bin divided by the expected number of simulated showers in the same bin, times the simulated area, with axes in the order of the arguments. "
    "Averaging over position angle bins weighted by their width reproduces the effective area without position angle, and bins, events "
    "and simulation may use any units and numbers of bins per axis.",
    ["inputs", "configurations"],
    "all event tables, simulations and (uniform or not) three dimensional binnings",
    "Tests use one uniform binning with the same number of bins per axis.",
    ["pyirf/irf/effective_area.py", "pyirf/simulations.py"],
    [("effective_area_3d_polar", "pyirf/irf/effective_area.py"), ("effective_area_3d_lonlat", "pyirf/irf/effective_area.py")],
    "a case is a random simulation, event table and binning; non-trivial if a bin has selected events and simulated showers",
    "expected showers in lon / lat bins are taken from the simulation itself, they are decided by N04",
    observe_at=["pyirf.irf.effective_area"],
)


@I02.monitor("pyirf.irf.effective_area:effective_area_3d_polar")
def _post_aeff_polar(ctx, call):
    if call.error is not None:
        return
    a = call.bind("selected_events", "simulation_info", "true_energy_bins", "fov_offset_bins", "fov_position_angle_bins")
    ev, info = a["selected_events"], a["simulation_info"]
    try:
        n = ref.histogram([
            ref.column(ev["true_energy"], a["true_energy_bins"], TEV),
            ref.column(ev["true_source_fov_offset"], a["fov_offset_bins"], DEG),
            ref.column(ev["true_source_fov_position_angle"], a["fov_position_angle_bins"], RAD),
        ])
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    fp = np.diff(a["fov_position_angle_bins"].to_value(RAD)) / (2 * np.pi)
    f = (energy_fraction(info, a["true_energy_bins"])[:, None, None]
         * fov_fraction(info, a["fov_offset_bins"])[None, :, None] * fp[None, None, :])
    _judge_aeff(ctx, call.result, n, f, info, a["true_energy_bins"], "effective area in polar coordinates")


@I02.monitor("pyirf.irf.effective_area:effective_area_3d_lonlat")
def _post_aeff_lonlat(ctx, call):
    if call.error is not None:
        return
    a = call.bind("selected_events", "simulation_info", "true_energy_bins", "fov_longitude_bins", "fov_latitude_bins", subpixels=20)
    ev, info = a["selected_events"], a["simulation_info"]
    try:
        n = ref.histogram([
            ref.column(ev["true_energy"], a["true_energy_bins"], TEV),
            ref.column(ev["true_source_fov_lon"], a["fov_longitude_bins"], DEG),
            ref.column(ev["true_source_fov_lat"], a["fov_latitude_bins"], DEG),
        ])
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    sim = info.calculate_n_showers_3d_lonlat(
        a["true_energy_bins"], a["fov_longitude_bins"], a["fov_latitude_bins"], subpixels=a["subpixels"]
    )
    f = u.Quantity(sim).to_value(u.one) / info.n_showers
    _judge_aeff(ctx, call.result, n, f, info, a["true_energy_bins"], "effective area in longitude and latitude")


@I02.family(250)
def areas3d(ctx):
    from pyirf.irf import effective_area_3d_polar, effective_area_3d_lonlat, effective_area_per_energy_and_fov

    rng = ctx.rng
    info = ctx.call(random_info, rng)
    e = bins_for_energy(rng, info)
    r = info.viewcone_max.to_value(DEG)
    ev = events_for(rng, info, fov_max=1.1 * r)
    n = len(ev)
    first = gen.pick(rng, 0.0, 0.0, -180.0, -90.0, 180.0)
    pa_unit = gen.pick(rng, "rad", "rad", "deg")
    ev["true_source_fov_position_angle"] = u.Quantity(np.deg2rad(first) + rng.uniform(0, 2 * np.pi, n), RAD).to(pa_unit)
    if gen.chance(rng, 0.5):
        fov = bins_for_fov(rng, info)
        full = gen.chance(rng, 0.6)
        start = 0 if full else rng.uniform(0, 100)
        pa = gen.increasing(rng, gen.pick(rng, 2, 3, 5) if not gen.chance(rng, 0.03) else int(rng.integers(6, 60)), start, 360 if full else rng.uniform(120, 350))
        pa = u.Quantity(pa + first, DEG)
        pa = pa.to(gen.pick(rng, "deg", "rad", "arcmin"))
        if gen.chance(rng, 0.3):
            e = on_edges(rng, ev, "true_energy", e, TEV)
            fov = on_edges(rng, ev, "true_source_fov_offset", fov, DEG)
            if not full:
                pa = on_edges(rng, ev, "true_source_fov_position_angle", pa, RAD)
        a3 = ctx.call(effective_area_3d_polar, ev, info, e, fov, pa)
        if full:
            a2 = ctx.call(effective_area_per_energy_and_fov, ev, info, e, fov)
            w = np.diff(pa.to_value(RAD)) / (2 * np.pi)
            ok = np.isfinite(a2.value) & (energy_fraction(info, e)[:, None] * fov_fraction(info, fov) > 1e-6)
            if ok.any():
                ctx.close((a3.value * w).sum(axis=2)[ok], a2.to_value(a3.unit)[ok], "average over position angles", rtol=1e-6)
    else:
        phi = rng.uniform(0, 2 * np.pi, n)
        rad = 1.1 * r * np.sqrt(rng.random(n))
        ev["true_source_fov_lon"] = u.Quantity(rad * np.cos(phi), DEG).to(gen.angle_unit(rng))
        ev["true_source_fov_lat"] = u.Quantity(rad * np.sin(phi), DEG).to(gen.angle_unit(rng))
        if gen.chance(rng, 0.2) and n:
            # directions far outside of the field of view
            for c in ("true_source_fov_lon", "true_source_fov_lat"):
                x = ev[c].to_value(DEG)
                x[rng.random(n) < 0.1] = gen.pick(rng, 150.0, 185.0, 200.0, -100.0)
                ev[c] = u.Quantity(x, DEG).to(ev[c].unit)
        lon, lat = gen.sym_edges(rng, half=r * rng.uniform(0.5, 1.5)), gen.sym_edges(rng, half=r * rng.uniform(0.5, 1.5))
        if gen.chance(rng, 0.12):
            lat = lon
        if gen.chance(rng, 0.3):
            e = on_edges(rng, ev, "true_energy", e, TEV)
            lon = on_edges(rng, ev, "true_source_fov_lon", lon, DEG)
            lat = on_edges(rng, ev, "true_source_fov_lat", lat, DEG)
        kw = {} if gen.chance(rng, 0.5) else dict(subpixels=int(gen.pick(rng, 5, 10, 40)))
        ctx.call(effective_area_3d_lonlat, ev, info, e, lon, lat, **kw)


# ---------------------------------------------------------------------------

I03 = Prop(
    "I03",
    "Energy dispersion is the normalized distribution of the migration per bin",
    "For each bin of true energy and field of view offset, the energy dispersion holds the fraction of the events of this bin with a ratio of reconstructed and true energy in each migration bin, divided by "
    "the width of the migration bin, so that it integrates to exactly one if there is any event and is zero (never nan) otherwise. The axes are true energy, migration, offset, and "
    "events outside of the bins (in any of the three quantities) or event weights have no influence.",
    ["inputs"],
    "all event tables (also empty, single events, events on edges) and all uniform or non-uniform bins in any units",
    "Tests check one generated data set with wide bins and the normalization with tolerance.",
    ["pyirf/irf/energy_dispersion.py"],
    [("energy_dispersion", "pyirf/irf/energy_dispersion.py"), ("_normalize_hist", "pyirf/irf/energy_dispersion.py")],
    "a case is a random event table and binning judged event by event; non-trivial if an event is inside of the bins",
    "tables with events at an edge up to unit conversion are not judged",
    observe_at=["pyirf.irf.energy_dispersion"],
)


def _mu(ev):
    return (ev["reco_energy"].to_value(ev["true_energy"].unit) / ev["true_energy"].value).astype(float)


def _mu_column(ev, edges):
    e = np.asarray(edges.value if hasattr(edges, "unit") else edges, float)
    if ev["reco_energy"].unit == ev["true_energy"].unit and ev["reco_energy"].dtype == ev["true_energy"].dtype:
        x = np.asarray((ev["reco_energy"] / ev["true_energy"]).to_value(u.one), float)
    else:
        x = _mu(ev)
        single = np.float32 in (ev["reco_energy"].dtype, ev["true_energy"].dtype)
        if gen.near_edge(x, e, 1e-5 if single else 1e-9).any():
            raise ref.Ambiguous()
    return x, e


@I03.monitor("pyirf.irf.energy_dispersion:energy_dispersion")
def _post_edisp(ctx, call):
    if call.error is not None:
        return
    a = call.bind("selected_events", "true_energy_bins", "fov_offset_bins", "migration_bins")
    ev = a["selected_events"]
    try:
        h = ref.histogram([
            ref.column(ev["true_energy"], a["true_energy_bins"], TEV),
            _mu_column(ev, a["migration_bins"]),
            ref.column(ev["true_source_fov_offset"], a["fov_offset_bins"], DEG),
        ])
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    got = np.asarray(u.Quantity(call.result).to_value(u.one))
    if not ctx.check(got.shape == h.shape, "axes are not (true energy, migration, offset)", got=got.shape, want=h.shape):
        return
    norm = h.sum(axis=1, keepdims=True)
    width = np.diff(np.asarray(getattr(a["migration_bins"], "value", a["migration_bins"]), float))[None, :, None]
    want = np.where(norm > 0, h / np.where(norm > 0, norm, 1), 0) / width
    ctx.close(got, want, "energy dispersion", rtol=1e-9, atol=1e-14)
    integral = (got * width).sum(axis=1)
    ctx.close(integral, (norm[:, 0] > 0).astype(float), "normalization", rtol=1e-9)
    if h.any():
        ctx.nontrivial(h, width)


def migration_edges(rng):
    n = gen.AXIS or gen.pick(rng, 1, 2, 5, 15, 30)
    if gen.chance(rng, 0.02):
        n = int(rng.integers(31, 400))
    if gen.chance(rng, 0.1):  # very wide, around small or large values only
        a, b = gen.pick(rng, (10 ** rng.uniform(-4, -1), 10 ** rng.uniform(0.5, 3)), (0.0, rng.uniform(0.5, 10)), (rng.uniform(0.9, 0.99), rng.uniform(1.01, 1.1)), (rng.uniform(1.0, 2), rng.uniform(2.5, 20)))
        return gen.increasing(rng, n + 1, a, b, log=a > 0 and gen.chance(rng, 0.4))
    return gen.increasing(rng, n + 1, rng.uniform(0.1, 0.7), rng.uniform(1.3, 5), log=gen.chance(rng, 0.4))


@I03.family(500)
def dispersion(ctx):
    from pyirf.irf import energy_dispersion

    rng = ctx.rng
    e, fov, mig = gen.energy_edges(rng, n=gen.many(rng), overflow=gen.chance(rng, 0.15)), gen.angle_edges(rng), migration_edges(rng)
    ev = events_for(rng, e_bins=e)
    if gen.chance(rng, 0.35):
        e = on_edges(rng, ev, "true_energy", e, TEV)
        fov = on_edges(rng, ev, "true_source_fov_offset", fov, DEG)
    if gen.chance(rng, 0.25) and len(ev):
        # exact ratios on migration edges
        t = ev["true_energy"].to_value(TEV).astype(float)
        t[t <= 0] = 1.0
        ev["true_energy"] = u.Quantity(t, TEV)
        mig = np.array([0.25, 0.5, 1.0, 2.0, 4.0])
        m = rng.random(len(ev)) < 0.5
        r = ev["reco_energy"].to_value(TEV).astype(float)
        r[m] = t[m] * rng.choice(mig, int(m.sum()))
        ev["reco_energy"] = u.Quantity(r, TEV)
    if gen.chance(rng, 0.1):
        e, fov, ev = balanced(rng, e)
    ctx.call(energy_dispersion, ev, true_energy_bins=e, fov_offset_bins=fov, migration_bins=mig)


# ---------------------------------------------------------------------------

I04 = Prop(
    "I04",
    "Energy migration matrix is the normalized distribution of reconstructed energy",
    "For each bin of true energy and field of view offset, the migration matrix holds the fraction of the events inside of the bins with a reconstructed energy in each bin, so it "
    "sums to exactly one over the reconstructed energy if there is any event and is zero (never nan) otherwise. The axes are true energy, reconstructed energy, offset, and events outside of "
    "the bins and event weights have no influence.",
    ["inputs"],
    "all event tables (also empty, single events, events on edges) and all bins in any units, with different numbers of true and reconstructed bins",
    "Tests check one generated data set.",
    ["pyirf/irf/energy_dispersion.py"],
    [("energy_migration_matrix", "pyirf/irf/energy_dispersion.py")],
    "a case is a random event table and binning judged event by event; non-trivial if an event is inside of the bins",
    "tables with events at an edge up to unit conversion are not judged",
    observe_at=["pyirf.irf.energy_dispersion"],
)


@I04.monitor("pyirf.irf.energy_dispersion:energy_migration_matrix")
def _post_migration(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", "true_energy_bins", "reco_energy_bins", "fov_offset_bins")
    ev = a["events"]
    try:
        h = ref.histogram([
            ref.column(ev["true_energy"], a["true_energy_bins"], TEV),
            ref.column(ev["reco_energy"], a["reco_energy_bins"], TEV),
            ref.column(ev["true_source_fov_offset"], a["fov_offset_bins"], DEG),
        ])
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    got = np.asarray(u.Quantity(call.result).to_value(u.one))
    if not ctx.check(got.shape == h.shape, "axes are not (true energy, reco energy, offset)", got=got.shape, want=h.shape):
        return
    norm = h.sum(axis=1, keepdims=True)
    ctx.close(got, np.where(norm > 0, h / np.where(norm > 0, norm, 1), 0), "migration matrix", rtol=1e-9, atol=1e-14)
    ctx.close(got.sum(axis=1), (norm[:, 0] > 0).astype(float), "normalization", rtol=1e-9)
    if h.any():
        ctx.nontrivial(h)


@I04.family(500)
def migration(ctx):
    from pyirf.irf.energy_dispersion import energy_migration_matrix

    rng = ctx.rng
    e, fov = gen.energy_edges(rng, n=gen.many(rng), overflow=gen.chance(rng, 0.15)), gen.angle_edges(rng)
    ev = events_for(rng, e_bins=e)
    fin = e[np.isfinite(e.value) & (e.value > 0)]
    reco = gen.energy_edges(rng, low=fin[0].to_value(TEV) * rng.uniform(0.3, 2), high=fin[-1].to_value(TEV) * rng.uniform(2.1, 4))
    if gen.chance(rng, 0.35):
        e = on_edges(rng, ev, "true_energy", e, TEV)
        reco = on_edges(rng, ev, "reco_energy", reco, TEV)
        fov = on_edges(rng, ev, "true_source_fov_offset", fov, DEG)
    elif gen.chance(rng, 0.15):
        e, fov, ev = balanced(rng, e)
    if gen.chance(rng, 0.12):
        reco = e
    ctx.call(energy_migration_matrix, ev, e, reco, fov)


# ---------------------------------------------------------------------------

I05 = Prop(
    "I05",
    "Converting energy dispersion to migration matrices conserves probability",
    "The migration matrix computed from an energy dispersion has, for each new true energy bin (made of whole old bins) and offset, exactly the probability of the old migration range "
    "between those reconstructed energies whose ratio to the center of the true energy bin falls on migration edges, so that new reconstructed energy bins covering the migration range sum to one and those outside of it "
    "are zero. True energy bins without any probability give zero, offsets stay independent, and "
    "the energies may be given in any units and numbers of bins.",
    ["inputs"],
    "all energy dispersions (any number of bins, with empty rows), all new true energy edges from the old edges and all new reconstructed energy edges, any units",
    "Tests compare one conversion with the matrix computed directly within percents.",
    ["pyirf/irf/energy_dispersion.py", "pyirf/binning.py"],
    [("energy_dispersion_to_migration", "pyirf/irf/energy_dispersion.py")],
    "a case is a random energy dispersion with reconstructed energy edges aligned to one row; non-trivial if it has any probability",
    "probability inside of a migration bin may be split in any way; agreement to 1e-6",
    observe_at=["pyirf.irf.energy_dispersion"],
)


@I05.monitor("pyirf.irf.energy_dispersion:energy_dispersion_to_migration")
def _post_to_migration(ctx, call):
    if call.error is not None:
        return
    a = call.bind("dispersion_matrix", "disp_true_energy_edges", "disp_migration_edges", "new_true_energy_edges", "new_reco_energy_edges")
    d = np.asarray(getattr(a["dispersion_matrix"], "value", a["dispersion_matrix"]), float)
    old = a["disp_true_energy_edges"].to_value(TEV)
    mig = np.asarray(getattr(a["disp_migration_edges"], "value", a["disp_migration_edges"]), float)
    new, reco = a["new_true_energy_edges"].to_value(TEV), a["new_reco_energy_edges"].to_value(TEV)
    got = np.asarray(u.Quantity(call.result).to_value(u.one), float)
    shape = (len(new) - 1, len(reco) - 1, d.shape[2])
    if not ctx.check(got.shape == shape, "axes are not (true energy, reco energy, offset)", got=got.shape, want=shape):
        return
    ctx.check(np.isfinite(got).all(), "result is not finite")
    prob = d * np.diff(mig)[None, :, None]
    where = [int(np.argmin(np.abs(old - x))) for x in new]
    if any(abs(old[i] - x) > 1e-9 * x for i, x in zip(where, new)):
        return
    n_known = 0
    for i in range(shape[0]):
        p = prob[where[i]:where[i + 1]].sum(axis=0)
        norm = p.sum(axis=0)
        p = p / np.where(norm > 0, norm, 1)
        cum = np.concatenate([np.zeros((1, shape[2])), p.cumsum(axis=0)])
        ratio = reco / (0.5 * (new[i] + new[i + 1]))
        known = {}
        for j, r in enumerate(ratio):
            k = int(np.argmin(np.abs(mig - r)))
            if r <= mig[0] * (1 + 1e-9):
                known[j] = cum[0]
            elif r >= mig[-1] * (1 - 1e-9):
                known[j] = cum[-1]
            elif abs(mig[k] - r) <= 1e-9 * r:
                known[j] = cum[k]
        gc = np.concatenate([np.zeros((1, shape[2])), got[i].cumsum(axis=0)])
        js = sorted(known)
        for j0, j1 in zip(js[:-1], js[1:]):
            ctx.close(gc[j1] - gc[j0], known[j1] - known[j0], f"probability between reconstructed energies, true energy bin {i}",
                      rtol=1e-6, atol=2e-6, true=new, reco=reco, migration=mig)
            n_known += 1
    if prob.any() and n_known:
        ctx.nontrivial(d, new, reco)


@I05.family(250)
def convert(ctx):
    from pyirf.irf.energy_dispersion import energy_dispersion_to_migration

    rng = ctx.rng
    n, m, k = gen.pick(rng, 2, 3, 5, 8), gen.pick(rng, 3, 6, 12, 20), gen.pick(rng, 1, 2, 3)
    if gen.chance(rng, 0.05):
        n, m, k = gen.pick(rng, (int(rng.integers(9, 60)), m, 1), (3, int(rng.integers(21, 80)), 1), (3, m, int(rng.integers(4, 12))))
    old = gen.energy_edges(rng, n=n)
    mig = gen.increasing(rng, m + 1, rng.uniform(0.1, 0.6), rng.uniform(1.5, 4), kind="uniform")
    if gen.chance(rng, 0.4):
        mig = gen.increasing(rng, m + 1, 0.2, 5.0, log=True, kind="uniform")
    mu = 0.5 * (mig[1:] + mig[:-1])
    mean, sig = rng.uniform(0.8, 1.2, (n, 1, k)), rng.uniform(0.1, 0.5, (n, 1, k))
    p = np.exp(-0.5 * ((mu[None, :, None] - mean) / sig) ** 2) * np.diff(mig)[None, :, None]
    if gen.chance(rng, 0.3):
        p = p * rng.uniform(0.5, 1, p.shape)
    p /= p.sum(axis=1, keepdims=True)
    if gen.chance(rng, 0.3):
        p[rng.random((n, k)).nonzero()[0][0], :, int(rng.integers(k))] = 0
        p[int(rng.integers(n))] = 0
    d = p / np.diff(mig)[None, :, None]
    keep = rng.random(n + 1) < gen.pick(rng, 0.5, 1.0)
    keep[[0, -1]] = True
    if gen.chance(rng, 0.3) and n > 3:
        keep[0] = False
        keep[1] = True
    new = u.Quantity(old.value[keep], old.unit)
    center = 0.5 * (new[1:] + new[:-1])
    row = int(rng.integers(len(center)))
    kind = gen.pick(rng, "aligned", "cover", "partial", "aligned")
    if kind == "aligned":
        sub = rng.random(m + 1) < 0.7
        sub[[0, -1]] = True
        if gen.chance(rng, 0.5):  # without the first or last part of the range
            sub[: int(rng.integers(1, m // 2 + 1))] = False
            sub[-int(rng.integers(1, m // 2 + 1)) :] = gen.chance(rng, 0.5)
            sub[m // 2] = True
            if sub.sum() < 2:
                sub[-1] = True
        reco = (center[row] * mig[sub]).to(new.unit)
        if gen.chance(rng, 0.5):
            reco = np.concatenate([[0.3], [1], [2]]) * reco[0] if gen.chance(rng, 0.1) else reco
    elif kind == "cover":
        reco = u.Quantity(np.geomspace(center[0].value * mig[0] * 0.9, center[-1].value * mig[-1] * 1.1, 12), new.unit)
    else:
        reco = u.Quantity(np.geomspace(center[row].value * mig[0] * 0.2, center[row].value * mig[-1] * 3, 7), new.unit)
    args = (d, old, mig, new.to(gen.energy_unit(rng)), reco.to(gen.energy_unit(rng)))
    r = ctx.call(energy_dispersion_to_migration, *args)
    if k > 1:
        one = ctx.call(energy_dispersion_to_migration, d[..., :1], *args[1:])
        ctx.close(r[..., :1], one, "offset depends on other offsets", rtol=1e-6, atol=1e-7)
    if kind == "cover":
        has = np.array([[p[:, :, j][(old.value[:-1] >= lo * (1 - 1e-9)) & (old.value[1:] <= hi * (1 + 1e-9))].sum() > 0
                         for j in range(k)] for lo, hi in zip(new.value[:-1], new.value[1:])])
        ctx.close(r.sum(axis=1), has.astype(float), "sum over reconstructed energy", rtol=1e-6, atol=1e-6)


# ---------------------------------------------------------------------------

I06 = Prop(
    "I06",
    "PSF tables are probability densities over solid angle in every bin",
    "For each bin of true energy and field of view offset, the table PSF holds the fraction of the bin's events with a source offset in each source offset bin, divided by "
    "the solid angle of the ring, so that it integrates to exactly one over solid angle if there is any event and is zero (never nan) otherwise. "
    "The axes are true energy, field of view offset and source offset, the result is per solid angle, "
    "and events outside of the bins (in any of the three quantities) or event weights have no influence.",
    ["inputs"],
    "all event tables (also empty, single events, events on edges) and all uniform or non-uniform bins in any units",
    "Tests check one or two generated data sets and the normalization with tolerance.",
    ["pyirf/irf/psf.py", "pyirf/utils.py"],
    [("psf_table", "pyirf/irf/psf.py"), ("_normalize_psf", "pyirf/irf/psf.py")],
    "a case is a random event table and binning judged event by event; non-trivial if an event is inside of the bins",
    "tables with events at an edge up to unit conversion are not judged; rounding of cosines near one is tolerated",
    observe_at=["pyirf.irf.psf"],
)


@I06.monitor("pyirf.irf.psf:psf_table")
def _post_psf(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", "true_energy_bins", "source_offset_bins", "fov_offset_bins")
    ev = a["events"]
    try:
        h = ref.histogram([
            ref.column(ev["true_energy"], a["true_energy_bins"], TEV),
            ref.column(ev["true_source_fov_offset"], a["fov_offset_bins"], DEG),
            ref.column(ev["theta"], a["source_offset_bins"], DEG),
        ])
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    r = call.result
    if not ctx.check(hasattr(r, "unit") and r.unit.is_equivalent(u.sr ** -1), "result is not per solid angle"):
        return
    got = r.to_value(u.sr ** -1)
    if not ctx.check(got.shape == h.shape, "axes are not (true energy, fov offset, source offset)", got=got.shape, want=h.shape):
        return
    omega = ref.cone_diff(a["source_offset_bins"].to_value(RAD))
    norm = h.sum(axis=2, keepdims=True)
    want = np.where(norm > 0, h / np.where(norm > 0, norm, 1), 0) / omega
    tol = 1e-9 + 2e-15 / omega.min()
    ctx.close(got, want, "PSF", rtol=tol, atol=0)
    ctx.close((got * omega).sum(axis=2), (norm[..., 0] > 0).astype(float), "normalization", rtol=tol)
    if h.any():
        ctx.nontrivial(h, omega)


@I06.family(500)
def psf(ctx):
    from pyirf.irf import psf_table

    rng = ctx.rng
    e, fov = gen.energy_edges(rng, n=gen.many(rng), overflow=gen.chance(rng, 0.15)), gen.angle_edges(rng)
    src = gen.angle_edges(rng, n=gen.pick(rng, 1, 3, 10), low=gen.pick(rng, 0.0, 0.0, 0.02), high=rng.uniform(0.1, 1.0) if not gen.chance(rng, 0.15) else gen.pick(rng, 10 ** rng.uniform(-1.5, -1), rng.uniform(1, 20), rng.uniform(20, 180)))
    ev = events_for(rng, e_bins=e)
    if gen.chance(rng, 0.35):
        e = on_edges(rng, ev, "true_energy", e, TEV)
        fov = on_edges(rng, ev, "true_source_fov_offset", fov, DEG)
        src = on_edges(rng, ev, "theta", src, DEG)
    ctx.call(psf_table, ev, e, src, fov)


# ---------------------------------------------------------------------------

I07 = Prop(
    "I07",
    "Background rates integrate back to the weighted number of events",
    "The background rate in each bin of reconstructed energy and field of view offset is the sum of the weights of the events in the bin, divided by the width of the energy bin, the observation time and "
    "the solid angle of the ring, so integrating the rate over bins and time gives back the weighted number of events in them. Energy is the first axis, the "
    "rate is per energy, time and solid angle for any units of events, bins and time, and events outside of the bins have no influence.",
    ["inputs"],
    "all event tables (also empty, zero weights, events on edges), all bins and observation times in any units",
    "Tests check two bins with a fixed number of events.",
    ["pyirf/irf/background.py", "pyirf/utils.py"],
    [("background_2d", "pyirf/irf/background.py")],
    "a case is a random event table and binning judged event by event; non-trivial if a weighted event is inside of the bins",
    "tables with events at an edge up to unit conversion are not judged; rounding of cosines near one is tolerated",
    observe_at=["pyirf.irf.background"],
)
RATE = u.Unit("s-1 TeV-1 sr-1")


@I07.monitor("pyirf.irf.background:background_2d")
def _post_bkg2d(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", "reco_energy_bins", "fov_offset_bins", "t_obs")
    ev = a["events"]
    try:
        cols = [ref.column(ev["reco_energy"], a["reco_energy_bins"], TEV),
                ref.column(ev["reco_source_fov_offset"], a["fov_offset_bins"], DEG)]
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    h = ref.histogram(cols, ev["weight"]), ref.histogram(cols, np.abs(ev["weight"]))
    omega = ref.cone_diff(a["fov_offset_bins"].to_value(RAD))
    width = np.diff(a["reco_energy_bins"].to_value(TEV))
    _judge_rate(ctx, call.result, *h, width[:, None] * a["t_obs"].to_value(u.s) * omega[None, :], "background rate in rings", omega)


def _judge_rate(ctx, r, h, size, exposure, what, omega):
    if not ctx.check(hasattr(r, "unit") and r.unit.is_equivalent(RATE), f"{what} is not a rate per energy, time and solid angle"):
        return
    got = r.to_value(RATE)
    if not ctx.check(got.shape == h.shape, f"{what}: axes of the result", got=got.shape, want=h.shape):
        return
    tol = 1e-9 + 2e-15 / np.abs(omega).min()
    if (h != size).any():
        # weights of both signs cancel up to rounding
        err = np.abs(got - h / exposure)
        ctx.check((err <= (tol * np.abs(h) + 1e-12 * size) / exposure).all(), what, got=got, want=h / exposure)
    else:
        ctx.close(got, h / exposure, what, rtol=tol, atol=0)
    if h.any():
        ctx.nontrivial(h, exposure)


@I07.family(500)
def rings(ctx):
    from pyirf.irf import background_2d

    rng = ctx.rng
    e, fov = gen.energy_edges(rng, n=gen.many(rng)), gen.angle_edges(rng, low=gen.pick(rng, 0.0, 0.0, 0.5))
    ev = gen.vary_weights(rng, events_for(rng, e_bins=e, weight=True))
    if gen.chance(rng, 0.15):  # as stored in files
        ev["weight"] = np.asarray(ev["weight"], np.float32)
    if gen.chance(rng, 0.35):
        e = on_edges(rng, ev, "reco_energy", e, TEV)
        fov = on_edges(rng, ev, "reco_source_fov_offset", fov, DEG)
    t = u.Quantity(10 ** gen.pick(rng, rng.uniform(0, 3), rng.uniform(-4, 5)), u.hour).to(gen.pick(rng, "hour", "s", "min"))
    r = ctx.call(background_2d, ev, e, fov, t)
    r2 = ctx.call(background_2d, ev, e, fov, 2 * t)
    ctx.close(2 * r2.to_value(RATE), r.to_value(RATE), "rate does not scale with the observation time", rtol=1e-9)


I08 = Prop(
    "I08",
    "Background rates in lon/lat bins integrate back to the weighted events",
    "The background rate in each bin of reconstructed energy, field of view longitude and latitude is the sum of the weights of the events in the bin, divided by the width of the energy "
    "bin, the observation time and the solid angle of this longitude and latitude bin on the sphere. The axes are energy, longitude and latitude in this order, also if they have different numbers of bins or bins of "
    "different widths, the rate is per energy, time and solid angle for any units, and events outside of the bins have no influence.",
    ["inputs"],
    "all event tables (also empty, zero weights, events on edges), all bins (non-uniform, asymmetric) and observation times in any units",
    "Tests check a uniform grid with a fixed number of events.",
    ["pyirf/irf/background.py", "pyirf/utils.py"],
    [("background_3d_lonlat", "pyirf/irf/background.py"), ("rectangle_solid_angle", "pyirf/utils.py")],
    "a case is a random event table and binning judged event by event; non-trivial if a weighted event is inside of the bins",
    "tables with events at an edge up to unit conversion are not judged",
    observe_at=["pyirf.irf.background"],
)


@I08.monitor("pyirf.irf.background:background_3d_lonlat")
def _post_bkg3d(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", "reco_energy_bins", "fov_lon_bins", "fov_lat_bins", "t_obs")
    ev = a["events"]
    try:
        cols = [ref.column(ev["reco_energy"], a["reco_energy_bins"], TEV),
                ref.column(ev["reco_source_fov_lon"], a["fov_lon_bins"], DEG),
                ref.column(ev["reco_source_fov_lat"], a["fov_lat_bins"], DEG)]
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    h = ref.histogram(cols, ev["weight"]), ref.histogram(cols, np.abs(ev["weight"]))
    omega = ref.rect_solid_angle(a["fov_lon_bins"].to_value(RAD), a["fov_lat_bins"].to_value(RAD))
    width = np.diff(a["reco_energy_bins"].to_value(TEV))
    _judge_rate(ctx, call.result, *h, width[:, None, None] * a["t_obs"].to_value(u.s) * omega[None], "background rate in lon / lat bins", np.array([1.0]))


@I08.family(500)
def lonlat(ctx):
    from pyirf.irf import background_3d_lonlat

    rng = ctx.rng
    e, lon, lat = gen.energy_edges(rng, n=gen.many(rng)), gen.sym_edges(rng), gen.sym_edges(rng)
    if gen.chance(rng, 0.2):
        lat = u.Quantity(gen.increasing(rng, 4, 20.0, 70.0), DEG)
    elif gen.chance(rng, 0.12):
        lat = lon
    ev = gen.vary_weights(rng, events_for(rng, e_bins=e, weight=True))
    if gen.chance(rng, 0.15):  # as stored in files
        ev["weight"] = np.asarray(ev["weight"], np.float32)
    n = len(ev)
    for c, b in (("lon", lon), ("lat", lat)):
        ev[f"reco_source_fov_{c}"] = gen.values_in(rng, b, n, log=False, out=0.1).to(gen.angle_unit(rng))
    if gen.chance(rng, 0.35):
        e = on_edges(rng, ev, "reco_energy", e, TEV)
        lon = on_edges(rng, ev, "reco_source_fov_lon", lon, DEG)
        lat = on_edges(rng, ev, "reco_source_fov_lat", lat, DEG)
    t = u.Quantity(10 ** gen.pick(rng, rng.uniform(0, 3), rng.uniform(-4, 5)), u.hour).to(gen.pick(rng, "hour", "s", "min"))
    ctx.call(background_3d_lonlat, ev, e, lon, lat, t)


pipeline.attach(I01, "responses")
pipeline.attach(I02, "responses")
pipeline.attach(I03, "responses")
pipeline.attach(I04, "responses")
pipeline.attach(I05, "responses")
pipeline.attach(I06, "responses")
pipeline.attach(I07, "responses")
pipeline.attach(I08, "responses")
