"""Angular resolution, energy bias and resolution"""
import math

import numpy as np
import astropy.units as u
from astropy.table import QTable

from ..core import Prop
from .. import gen, ref, pipeline

TEV, DEG = u.TeV, u.deg
ONE_SIGMA = math.erf(1 / math.sqrt(2))
LOW, HIGH = 0.5 * (1 - ONE_SIGMA), 0.5 * (1 + ONE_SIGMA)


def assign(energies, edges):
    """Half open bins, Ambiguous if rounding decides"""
    x, e = ref.column(energies, edges, TEV)
    return gen.bin_of(x, e)


def judge_bins(ctx, r, key, edges):
    e = edges.to_value(TEV)
    low, high, center = (r[f"{key}_{s}"].to_value(TEV) for s in ("low", "high", "center"))
    ctx.close(low, e[:-1], "lower edges of the bins", rtol=1e-12)
    ctx.close(high, e[1:], "upper edges of the bins", rtol=1e-12)
    ctx.close(center, 0.5 * (e[:-1] + e[1:]), "centers of the bins", rtol=1e-12)


D01 = Prop(
    "D01",
    "Angular resolution is the containment quantile of the events of each bin",
    "For each energy bin (in true or reconstructed energy, as requested), each angular resolution value is the requested quantile of the angular distances of the events in "
    "this bin, with linear interpolation between order statistics and nan distances ignored, and the number of events is the number of events in the bin. Bins without events have "
    "zero events and nan, events outside of the bins or with nan energy have no influence, every bin appears exactly once in order with its edges and center, "
    "and the order of the events and their units do not matter.",
    ["inputs"],
    "all event tables (empty, single event, nan, outside of the bins), all bins, both energies, one or several quantiles",
    "Tests use one or two bins with a fixed distribution and compare within percents.",
    ["pyirf/benchmarks/angular_resolution.py", "pyirf/binning.py"],
    [("angular_resolution", "pyirf/benchmarks/angular_resolution.py")],
    "a case is a random event table, binning and set of quantiles; non-trivial if a bin has at least two different distances",
    "quantiles have distinct labels in percent; events at an edge up to unit conversion are not judged",
    observe_at=["pyirf.benchmarks.angular_resolution"],
)


@D01.monitor("pyirf.benchmarks.angular_resolution:angular_resolution")
def _post_angres(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", "energy_bins", energy_type="true", quantile=ONE_SIGMA)
    ev, edges, r = a["events"], a["energy_bins"], call.result
    key = f"{a['energy_type']}_energy"
    qs = a["quantile"] if isinstance(a["quantile"], (list, tuple)) else [a["quantile"]]
    n = len(edges) - 1
    if not ctx.check(len(r) == n, "not one row per bin", got=len(r), want=n):
        return
    judge_bins(ctx, r, key, edges)
    names = [f"angular_resolution_{100 * q:.0f}" for q in qs]
    cols = sorted(names + [f"{key}_low", f"{key}_high", f"{key}_center", "n_events"])
    ctx.check(sorted(r.colnames) == cols, "columns of the table", got=r.colnames, want=cols)
    try:
        idx = assign(ev[key], edges)
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    theta = ev["theta"].to_value(DEG).astype(float)
    rtol = 2e-6 if ev["theta"].dtype == np.float32 else 1e-9
    count = [int((idx == i).sum()) for i in range(n)]
    ctx.check(list(r["n_events"]) == count, "number of events per bin", got=list(r["n_events"]), want=count)
    for q, name in zip(qs, names):
        want = [ref.percentile(theta[idx == i], 100 * q) for i in range(n)]
        ctx.close(r[name].to_value(DEG), want, f"{name}", rtol=rtol, atol=1e-300)
    if any(len(np.unique(theta[idx == i])) > 1 for i in range(n)):
        ctx.nontrivial(theta, idx, qs)


def table(rng, edges, n=None):
    n = gen.n_events(rng) if n is None else n
    ev = gen.events(rng, n=n, e_edges=edges)
    if gen.chance(rng, 0.3):
        which = gen.pick(rng, "true_energy", "reco_energy")
        x = ev[which].value.copy()
        x[rng.random(n) < 0.2] = np.nan
        ev[which] = u.Quantity(x, ev[which].unit)
    if gen.chance(rng, 0.3):
        x = ev["theta"].value.copy()
        x[rng.random(n) < 0.3] = np.nan
        if n:
            x[rng.random(n) < 0.2] = x[0]
        ev["theta"] = u.Quantity(x, ev["theta"].unit)
    return ev


def edges_for(rng):
    n = gen.pick(rng, 1, 2, 3, 5, 10, 20) if not gen.chance(rng, 0.05) else int(rng.integers(21, 300))
    e = gen.energy_edges(rng, n=n, overflow=gen.chance(rng, 0.15))
    return e


def on_edge(rng, ev, edges):
    """Move some events exactly to the edges"""
    ev, edges = ev.copy(), edges.to(TEV)
    for c in ("true_energy", "reco_energy"):
        x = ev[c].to(TEV).value.astype(float)
        fin = edges.value[np.isfinite(edges.value) & (edges.value > 0)]
        m = rng.random(len(x)) < 0.5
        x[m] = rng.choice(fin, m.sum())
        ev[c] = u.Quantity(x, TEV)
    return ev, edges


@D01.family(200)
def containment(ctx):
    from pyirf.benchmarks import angular_resolution

    rng = ctx.rng
    e = edges_for(rng)
    ev = table(rng, e)
    if gen.chance(rng, 0.3):
        ev, e = on_edge(rng, ev, e)
    kw = {}
    if gen.chance(rng, 0.7):
        kw["energy_type"] = gen.pick(rng, "true", "reco")
    kind = gen.pick(rng, "default", "one", "list", "tuple")
    if kind == "one":
        kw["quantile"] = float(gen.pick(rng, 0.0, 0.5, 0.68, 0.95, 1.0, round(rng.uniform(0, 1), 4)))
    elif kind != "default":
        q = list(rng.choice(np.arange(0, 101), int(rng.integers(1, 5) if not gen.chance(rng, 0.1) else rng.integers(5, 60)), replace=False) / 100)
        rng.shuffle(q)
        kw["quantile"] = [float(x) for x in q]
        if kind == "tuple":
            kw["quantile"] = tuple(kw["quantile"])
    before = ev.copy()
    r = ctx.call(angular_resolution, ev, e, **kw)
    same = ev.colnames == before.colnames and all(
        np.array_equal(np.asarray(ev[c].value if hasattr(ev[c], "unit") else ev[c]),
                       np.asarray(before[c].value if hasattr(before[c], "unit") else before[c]), equal_nan=True) for c in ev.colnames)
    ctx.check(same, "event table was modified")
    if len(ev) > 1:
        r2 = ctx.call(angular_resolution, ev[rng.permutation(len(ev))], e, **kw)
        for c in r.colnames:
            a, b = (x[c].value if hasattr(x[c], "unit") else x[c] for x in (r, r2))
            ctx.close(a, b, f"{c} depends on the order of the events", rtol=1e-12)


# ---------------------------------------------------------------------------

D02 = Prop(
    "D02",
    "Energy bias and resolution are the statistics of the events of each bin",
    "For each energy bin (in true or reconstructed energy, as requested), bias and resolution are the requested functions (by default median and half of the distance between "
    "the one sigma quantiles) applied to the relative errors reconstructed over true energy minus one of exactly the events in the bin. Bins without events have zero events and nan, events outside of the bins "
    "have no influence, every bin appears exactly once in order with its edges, and the units of both energies and the order of the events do not matter.",
    ["inputs"],
    "all event tables (empty, single event, outside of the bins, mixed units), all bins, both energies, custom functions",
    "Tests use one or two bins with a gaussian and compare within percents.",
    ["pyirf/benchmarks/energy_bias_resolution.py", "pyirf/binning.py"],
    [("energy_bias_resolution", "pyirf/benchmarks/energy_bias_resolution.py"),
     ("inter_quantile_distance", "pyirf/benchmarks/energy_bias_resolution.py"),
     ("energy_resolution_absolute_68", "pyirf/benchmarks/energy_bias_resolution.py")],
    "a case is a random event table and binning; non-trivial if a bin has at least two different errors",
    "events at an edge up to unit conversion are not judged",
    observe_at=["pyirf.benchmarks.energy_bias_resolution"],
)


def half_width(x):
    return 0.5 * (ref.percentile(x, 100 * HIGH) - ref.percentile(x, 100 * LOW))


def absolute_68(x):
    return ref.percentile(np.abs(x), 100 * ONE_SIGMA)


@D02.monitor("pyirf.benchmarks.energy_bias_resolution:inter_quantile_distance",
             "pyirf.benchmarks.energy_bias_resolution:energy_resolution_absolute_68")
def _post_width(ctx, call):
    if call.error is not None:
        return
    x = call.bind("rel_error")["rel_error"]
    rtol = 1e-5 if np.asarray(x).dtype == np.float32 else 1e-9
    x = np.asarray(x, float)
    f = half_width if call.target.endswith("distance") else absolute_68
    ctx.close(call.result, f(x), "width of the distribution", rtol=rtol, atol=1e-15 + rtol * 0.1 * np.nanmax(np.abs(x), initial=0))


@D02.monitor("pyirf.benchmarks.energy_bias_resolution:energy_bias_resolution")
def _post_bias(ctx, call):
    import pyirf.benchmarks.energy_bias_resolution as module

    if call.error is not None:
        return
    a = call.bind("events", "energy_bins", energy_type="true", bias_function=None, resolution_function=None)
    ev, edges, r = a["events"], a["energy_bins"], call.result
    key = f"{a['energy_type']}_energy"
    n = len(edges) - 1
    if not ctx.check(len(r) == n, "not one row per bin", got=len(r), want=n):
        return
    judge_bins(ctx, r, key, edges)
    cols = sorted([f"{key}_low", f"{key}_high", f"{key}_center", "n_events", "bias", "resolution"])
    ctx.check(sorted(r.colnames) == cols, "columns of the table", got=r.colnames, want=cols)
    fb, fr = a["bias_function"], a["resolution_function"]
    if fb is None:
        def fb(x):
            return ref.percentile(x, 50)
    if fr is None:
        fr = half_width
    elif getattr(fr, "__name__", "") == "energy_resolution_absolute_68":
        fr = absolute_68
    try:
        idx = assign(ev[key], edges)
    except ref.Ambiguous:
        return ctx.skip("event too close to an edge")
    rel = ev["reco_energy"].to_value(TEV).astype(float) / ev["true_energy"].to_value(TEV).astype(float) - 1
    single = np.float32 in (ev["reco_energy"].dtype, ev["true_energy"].dtype)
    top = np.nanmax(np.abs(rel), initial=0)
    count = [int((idx == i).sum()) for i in range(n)]
    ctx.check(list(r["n_events"]) == count, "number of events per bin", got=list(r["n_events"]), want=count)
    for name, f in (("bias", fb), ("resolution", fr)):
        want = [f(rel[idx == i]) if count[i] else math.nan for i in range(n)]
        ctx.close(r[name], want, name, rtol=1e-5 if single else 1e-9, atol=2e-6 * (1 + top) if single else 1e-13 * (1 + top))
    if any(len(np.unique(rel[idx == i])) > 1 for i in range(n)):
        ctx.nontrivial(rel, idx, getattr(fr, "__name__", ""))


def spread(x):
    return np.nanmax(x) - np.nanmin(x)


@D02.family(200)
def errors(ctx):
    from pyirf.benchmarks import energy_bias_resolution
    from pyirf.benchmarks.energy_bias_resolution import energy_resolution_absolute_68, inter_quantile_distance

    rng = ctx.rng
    e = edges_for(rng)
    ev = table(rng, e)
    if gen.chance(rng, 0.3):
        ev, e = on_edge(rng, ev, e)
    kw = {}
    if gen.chance(rng, 0.7):
        kw["energy_type"] = gen.pick(rng, "true", "reco")
    if gen.chance(rng, 0.3):
        kw["bias_function"] = gen.pick(rng, np.nanmean, np.nanmin)
    if gen.chance(rng, 0.5):
        kw["resolution_function"] = gen.pick(rng, energy_resolution_absolute_68, spread, np.nanstd)
    r = ctx.call(energy_bias_resolution, ev, e, **kw)
    ctx.check("rel_error" not in ev.colnames, "event table was modified", got=ev.colnames)
    if len(ev) > 1:
        r2 = ctx.call(energy_bias_resolution, ev[rng.permutation(len(ev))], e, **kw)
        for c in ("bias", "resolution", "n_events"):
            ctx.close(r[c], r2[c], f"{c} depends on the order of the events", rtol=1e-9, atol=1e-12 + 1e-6 * (ev["true_energy"].dtype == np.float32))
    x = rng.normal(rng.normal(), rng.uniform(0, 2), int(rng.integers(1, 60) if not gen.chance(rng, 0.05) else rng.integers(60, 60000)))
    x[rng.random(len(x)) < 0.1] = np.nan
    if np.isfinite(x).any():
        ctx.call(inter_quantile_distance, x)
        ctx.call(energy_resolution_absolute_68, x)


# ---------------------------------------------------------------------------

D03 = Prop(
    "D03",
    "Bias and resolution from an energy dispersion are its quantiles",
    "For each true energy and offset bin, the bias is the median of the energy dispersion minus one and the resolution half of the distance between its lower and upper one sigma quantiles, where the "
    "probability is distributed uniformly inside of each migration bin, with migration bins of any widths. Bins without any probability give nan, and every bin depends only on "
    "its own part of the energy dispersion, which is not modified.",
    ["inputs"],
    "all normalized energy dispersions (narrow, wide, at the border, several peaks, empty bins) and migration edges",
    "Tests use one gaussian on a uniform axis.",
    ["pyirf/benchmarks/energy_bias_resolution.py"],
    [("energy_bias_resolution_from_energy_dispersion", "pyirf/benchmarks/energy_bias_resolution.py")],
    "a case is a random energy dispersion judged by its exact quantiles; non-trivial if it is not empty",
    "quantiles in a range without probability (cumulative distribution flat within 1e-9) are judged to be inside of this range",
    observe_at=["pyirf.benchmarks.energy_bias_resolution_from_energy_dispersion"],
)


def quantile_range(p, edges, q):
    """Smallest and largest value with cumulative distribution q up to 1e-9"""
    cum = np.concatenate([[0.0], np.cumsum(p)])

    def at(level, last):
        idx = [i for i in range(len(p)) if cum[i + 1] > cum[i]]
        if level <= 0:
            return edges[0]
        if level >= cum[-1]:
            return edges[-1]
        for i in idx:
            if cum[i] <= level <= cum[i + 1]:
                x = edges[i] + (level - cum[i]) / (cum[i + 1] - cum[i]) * (edges[i + 1] - edges[i])
                if not last or level < cum[i + 1]:
                    return x
                best = x
        return best

    return at(q - 1e-9, False), at(q + 1e-9, True)


#: listed in known_findings.txt
KNOWN_FIRST_BIN = "quantile-in-first-migration-bin"


@D03.monitor("pyirf.benchmarks.energy_bias_resolution:energy_bias_resolution_from_energy_dispersion")
def _post_from_edisp(ctx, call):
    if call.error is not None:
        return
    a = call.bind("energy_dispersion", "migration_bins")
    d, m = np.asarray(a["energy_dispersion"], float), np.asarray(a["migration_bins"], float)
    if not ctx.check(len(call.result) == 2, "not bias and resolution"):
        return
    bias, res = (np.asarray(x, float) for x in call.result)
    shape = (d.shape[0], d.shape[2])
    if not ctx.check(bias.shape == shape and res.shape == shape, "not one value per energy and offset bin"):
        return
    tol = 1e-8 * (m[-1] - m[0])
    for i in range(shape[0]):
        for j in range(shape[1]):
            p = d[i, :, j] * np.diff(m)
            if not p.any():
                ctx.check(np.isnan(bias[i, j]) and np.isnan(res[i, j]), "empty bin does not give nan", got=(bias[i, j], res[i, j]))
                continue
            lo, mid, hi = (quantile_range(p, m, q) for q in (LOW, 0.5, HIGH))
            # known: a quantile in the first migration bin is taken to be at the upper edge of that bin
            k_lo, k_mid, k_hi = ([max(x, m[1]) for x in q] for q in (lo, mid, hi))

            def known(got, low, high):
                return KNOWN_FIRST_BIN if lo[0] <= m[1] and low - tol <= got <= high + tol else None

            ctx.check(mid[0] - 1 - tol <= bias[i, j] <= mid[1] - 1 + tol, "bias is not the median", p=p, migration=m, got=bias[i, j], want=mid,
                      key=known(bias[i, j], k_mid[0] - 1, k_mid[1] - 1))
            ctx.check(0.5 * (hi[0] - lo[1]) - tol <= res[i, j] <= 0.5 * (hi[1] - lo[0]) + tol,
                      "resolution is not half of the one sigma interval", p=p, migration=m, got=res[i, j], low=lo, high=hi,
                      key=known(res[i, j], 0.5 * (k_hi[0] - k_lo[1]), 0.5 * (k_hi[1] - k_lo[0])))
            ctx.nontrivial(p, m)


@D03.family(150)
def quantiles(ctx):
    from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion as f

    rng = ctx.rng
    n, k = gen.pick(rng, 1, 2, 4), gen.pick(rng, 1, 2, 3)
    m = gen.pick(rng, 2, 3, 10, 30, 100)
    if gen.chance(rng, 0.04):
        n, k, m = gen.pick(rng, (int(rng.integers(5, 200)), 1, m), (n, int(rng.integers(4, 60)), m), (1, 1, int(rng.integers(101, 600))))
    mig = gen.increasing(rng, m + 1, gen.pick(rng, 0.0, 0.2), gen.pick(rng, 2.0, 5.0))
    if gen.chance(rng, 0.3):
        mig = gen.increasing(rng, m + 1, 0.2, 5.0, log=True)
    p = np.zeros((n, m, k))
    for i in range(n):
        for j in range(k):
            kind = gen.pick(rng, "gauss", "gauss", "one", "sparse", "any", "empty", "first", "last")
            if kind == "gauss":
                x = 0.5 * (mig[1:] + mig[:-1])
                q = np.exp(-0.5 * ((x - rng.uniform(0.5, 1.6)) / rng.uniform(0.05, 0.6)) ** 2) * np.diff(mig) + 1e-30
            elif kind in ("one", "first", "last"):
                q = np.zeros(m)
                q[dict(one=int(rng.integers(m)), first=0, last=m - 1)[kind]] = 1
            elif kind == "sparse":
                q = rng.random(m) * (rng.random(m) < 0.3)
                q[0] += 1e-3
            elif kind == "any":
                q = rng.random(m)
            else:
                q = np.zeros(m)
            p[i, :, j] = q / (q.sum() or 1)
    d = p / np.diff(mig)[None, :, None]
    before = d.copy()
    b, r = ctx.call(f, d, mig)
    ctx.check(np.array_equal(before, d), "energy dispersion was modified")
    b1, r1 = ctx.call(f, d[-1:, :, :1], mig)
    ctx.close([b1[0, 0], r1[0, 0]], [b[-1, 0], r[-1, 0]], "bin depends on other bins", rtol=1e-12, atol=1e-13)


@D03.family(40)
def chain(ctx):
    """Events to energy dispersion to bias and resolution"""
    from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion as f
    from pyirf.irf import energy_dispersion

    rng = ctx.rng
    e = gen.energy_edges(rng, n=gen.pick(rng, 1, 2, 3))
    fov = gen.angle_edges(rng)
    mig = gen.increasing(rng, 51, 0.0, 5.0, kind="uniform")
    ev = gen.events(rng, n=gen.pick(rng, 0, 1, 30, 300), e_edges=e)
    d = ctx.call(energy_dispersion, ev, e, fov, mig)
    ctx.call(f, d, mig)


pipeline.attach(D01, "benchmarks")
pipeline.attach(D02, "benchmarks")
pipeline.attach(D03, "benchmarks")
