"""Significance, sensitivity, background estimate, cut optimization"""
import operator

import numpy as np
import astropy.units as u
from astropy.table import QTable

from ..core import Prop
from .. import gen, ref, pipeline

S01 = Prop(
    "S01",
    "Li & Ma significance: right value, sign convention and shape",
    "For any non-negative on and off counts and any positive exposure ratio, the significance equals formula 17 of "
    "Li & Ma, is exactly zero if the on counts do not exceed the ratio times the off counts, and is never negative or "
    "nan, also if either count is zero. Scalars give a scalar, arrays give an array of the broadcast "
    "shape, where each entry equals the result for its pair of counts alone; inputs of any numeric type are left unchanged.",
    ["inputs"],
    "all non-negative counts (integer or weighted, zero, tiny, huge, arrays, lists), all positive ratios",
    "Tests check a handful of counts and one array; zeros, balance n_on = alpha * n_off and broadcasting are open sets.",
    ["pyirf/statistics.py"],
    [("li_ma_significance", "pyirf/statistics.py")],
    "a case is a set of counts and a ratio judged against a cancellation free form of the formula; counted by "
    "content, non-trivial if one significance is positive",
    "agreement to 1e-9, and to the rounding of the textbook formula (1e-13 * counts in TS) near zero",
    observe_at=["pyirf.statistics.li_ma_significance"],
)


@S01.monitor("pyirf.statistics:li_ma_significance")
def _post_lima(ctx, call):
    if call.error is not None:
        return
    a = call.bind("n_on", "n_off", alpha=0.2)
    on, off = np.asarray(a["n_on"], float), np.asarray(a["n_off"], float)
    alpha = float(a["alpha"])
    scalar = on.shape == () and off.shape == ()
    r = call.result
    if not ctx.check(np.shape(r) == np.broadcast(on, off).shape, "shape of the result", got=np.shape(r),
                     want=np.broadcast(on, off).shape):
        return
    on, off = np.broadcast_arrays(on, off)
    got = np.asarray(r, float)
    any_pos = False
    for i in np.ndindex(on.shape):
        if np.isnan(on[i]) or np.isnan(off[i]) or np.isinf(on[i]) or np.isinf(off[i]) or on[i] < 0 or off[i] < 0:
            continue
        want = ref.lima(on[i], off[i], alpha)
        eps = 1e-12 * (on[i] + off[i] + 1) * 10
        ok = abs(got[i] ** 2 - want ** 2) <= eps + 3e-9 * want ** 2 and got[i] >= 0
        ctx.check(ok, "wrong significance", n_on=on[i], n_off=off[i], alpha=alpha, got=got[i], want=want)
        if on[i] < alpha * off[i] * (1 - 1e-12):
            ctx.check(got[i] == 0, "significance for a deficit is not zero", n_on=on[i], n_off=off[i], alpha=alpha, got=got[i])
        any_pos |= want > 0
    if any_pos:
        ctx.nontrivial(on, off, alpha)


def _count(rng):
    return gen.pick(rng, 0, 0.0, float(rng.poisson(5)), float(rng.poisson(200)), rng.uniform(0, 3), 10 ** rng.uniform(-6, 8),
                    int(rng.integers(0, 50)), 10 ** rng.uniform(1, 4), 10 ** rng.uniform(7, 14))


@S01.family(800)
def counts(ctx):
    from pyirf.statistics import li_ma_significance

    rng = ctx.rng
    alpha = float(gen.pick(rng, 0.2, 1.0, 0.5, 1 / 3, 5.0, 10 ** rng.uniform(-3, 1)))
    kind = gen.pick(rng, "scalar", "array", "balance", "broadcast", "list", "weak", "int")
    if kind == "scalar":
        on, off = _count(rng), _count(rng)
    elif kind == "weak":
        off = 10 ** rng.uniform(0, 6)
        on = alpha * off * (1 + 10 ** rng.uniform(-9, -1) * gen.pick(rng, 1, -1))
    elif kind == "balance":
        off = gen.pick(rng, _count(rng), np.array([_count(rng) for _ in range(4)], float))
        on = alpha * off
    elif kind == "broadcast":
        a, b = gen.pick(rng, ((3, 1), ()), ((3, 1), (4,)), ((2,), (2, 2)), ((3,), (3, 3)), ((2, 3), (3,)), ((2, 1, 2), (2, 2)), ((1, 4), (3, 1)), ((1,), (5,)))
        on = np.array([_count(rng) for _ in range(int(np.prod(a)))], float).reshape(a)
        off = np.array([_count(rng) for _ in range(int(np.prod(b)))], float).reshape(b) if b else _count(rng)
        if gen.chance(rng, 0.4):
            on, off = off, on
    else:
        n = int(rng.integers(0, 6)) if not gen.chance(rng, 0.02) else int(rng.integers(100, 2000))
        on, off = [_count(rng) for _ in range(n)], [_count(rng) for _ in range(n)]
        if kind == "int":
            on, off = rng.integers(0, 30, n), rng.integers(0, 30, n)
        elif kind == "array":
            on, off = np.array(on, float), np.array(off, float)
            if gen.chance(rng, 0.3) and n == 4:
                on, off = on.reshape(2, 2), off.reshape(2, 2)
    before = [np.array(on, copy=True), np.array(off, copy=True)]
    if gen.chance(rng, 0.15):
        alpha = 0.2
        ctx.call(li_ma_significance, on, off)
    else:
        ctx.call(li_ma_significance, on, off, alpha)
    ctx.check(np.array_equal(before[0], on) and np.array_equal(before[1], off), "input was modified")


# ---------------------------------------------------------------------------

S02 = Prop(
    "S02",
    "Relative sensitivity is the smallest detectable scaling of the signal",
    "The relative sensitivity is the smallest factor by which the excess (on counts minus ratio times off counts) can be scaled so "
    "that the source reaches the minimum significance (for the given significance function), the minimum number of signal events and the minimum "
    "excess over the expected background. It is infinite for no excess, nan only for nan counts, negative counts are rejected, and all inputs "
    "broadcast with each entry independent of the others.",
    ["inputs"],
    "all non-negative counts from zero to 1e7, ratios, thresholds and monotonic significance functions, scalar or arrays",
    "Tests compute a few typical values and one array; weak or strong sources with low background and modified thresholds are open sets.",
    ["pyirf/sensitivity.py", "pyirf/statistics.py"],
    [("relative_sensitivity", "pyirf/sensitivity.py"), ("_relative_sensitivity bracketing and scaling", "pyirf/sensitivity.py")],
    "a case is a set of counts and thresholds, judged by bisection with an independent significance; "
    "non-trivial if the factor is finite",
    "agreement to 1e-6 relative or 1e-11 absolute (tolerance of the root finder); factors for excess above 1e-4 events",
    observe_at=["pyirf.sensitivity.relative_sensitivity"],
)


def naive_significance(n_on, n_off, alpha):
    """Simple excess over fluctuation, given as custom function"""
    b = alpha * n_off
    return (n_on - b) / np.sqrt(n_on + alpha * b + 1.0)


_NAMES = ("n_on", "n_off", "alpha", "min_significance", "min_signal_events", "min_excess_over_background")


@S02.monitor("pyirf.sensitivity:relative_sensitivity")
def _post_relsens(ctx, call):
    from pyirf.statistics import li_ma_significance

    a = call.bind(*_NAMES, "significance_function", min_significance=5, min_signal_events=10,
                  min_excess_over_background=0.05, significance_function=li_ma_significance)
    f = a["significance_function"]
    f0 = getattr(f, "__monitored__", f)
    if f is naive_significance:
        sig = naive_significance
    elif f is li_ma_significance or f0 is getattr(li_ma_significance, "__monitored__", li_ma_significance):
        sig = ref.lima
    else:
        return
    arrays = np.broadcast_arrays(*[np.asarray(a[k], float) for k in _NAMES])
    neg = ((arrays[0] < 0) | (arrays[1] < 0)) & ~np.isnan(arrays[0]) & ~np.isnan(arrays[1])
    if neg.any():
        ctx.check(isinstance(call.error, ValueError), "negative counts accepted", error=call.error)
        return
    if call.error is not None:
        return
    r = np.asarray(call.result, float)
    if not ctx.check(r.shape == arrays[0].shape, "shape of the result", got=r.shape, want=arrays[0].shape):
        return
    n = 0
    for i in np.ndindex(r.shape):
        v = [float(x[i]) for x in arrays]
        excess = v[0] - v[2] * v[1]
        if abs(excess) <= max(1e-4, 1e-9 * v[0]) and excess != 0:
            ctx.skip("excess within rounding of zero")
            continue
        if excess == 0 and v[1] > 0:
            ctx.skip("excess within rounding of zero")
            continue
        want = ref.relative_sensitivity(*v, significance=sig)
        got = r[i]
        if np.isfinite(want):
            ctx.check(abs(got - want) <= 1e-6 * want + 1e-11, "wrong relative sensitivity",
                      **dict(zip(_NAMES, v)), got=got, want=want)
            n += 1
        else:
            ctx.check(np.array_equal(got, want, equal_nan=True), "wrong relative sensitivity",
                      **dict(zip(_NAMES, v)), got=got, want=want)
    if n:
        ctx.nontrivial(*arrays)


@S02.family(500)
def thresholds(ctx):
    from pyirf.sensitivity import relative_sensitivity

    rng = ctx.rng
    shape = gen.pick(rng, (), (), (1,), (3,), (2, 2))
    if gen.chance(rng, 0.02):
        shape = gen.pick(rng, (int(rng.integers(20, 60)),), (2, 2, 2), (1, 3, 1), (3, 12))

    def arr(f):
        x = np.array([f() for _ in range(int(np.prod(shape)))], float).reshape(shape)
        return x if shape else float(x)

    alpha = float(gen.pick(rng, 0.2, 1.0, 0.5, 1 / 3, 2.0, 10 ** rng.uniform(-2.5, 0.7)))
    off = arr(lambda: gen.pick(rng, 0.0, rng.uniform(0, 1), rng.uniform(0, 3), 10 ** rng.uniform(0, 6), rng.poisson(30)))
    sig = arr(lambda: gen.pick(rng, 0.0, 10 ** rng.uniform(-2, 6), rng.uniform(1, 50), rng.uniform(1, 50), -rng.uniform(0, 3)))
    on = np.maximum(alpha * np.asarray(off) + sig, 0)
    if not shape:
        on = float(on)
    if shape and gen.chance(rng, 0.15):
        on = np.array(on)
        on.flat[0] = np.nan
    opts = {}
    if gen.chance(rng, 0.5):
        opts["min_significance"] = float(gen.pick(rng, 5, 3, 1, 10, rng.uniform(0.5, 20)))
    if gen.chance(rng, 0.5):
        opts["min_signal_events"] = float(gen.pick(rng, 0, 1, 10, 50, rng.uniform(0, 200)))
    if gen.chance(rng, 0.5):
        opts["min_excess_over_background"] = float(gen.pick(rng, 0, 0.01, 0.05, 0.5, rng.uniform(0, 2)))
    if gen.chance(rng, 0.2):
        opts["significance_function"] = naive_significance
    if gen.chance(rng, 0.1):
        neg = np.array(on, float)
        neg[(0,) * neg.ndim] = -rng.uniform(0.1, 5)
        ctx.raises(ValueError, relative_sensitivity, neg if shape else float(neg), off, alpha, message="negative counts", **opts)
        neg = np.array(off, float)
        neg[(0,) * neg.ndim] = -rng.uniform(0.1, 5)
        on2 = np.nan_to_num(on) + 5.0
        ctx.raises(ValueError, relative_sensitivity, on2, neg if shape else float(neg), alpha, message="negative counts", **opts)
        return
    if gen.chance(rng, 0.3):
        ctx.call(relative_sensitivity, n_on=on, n_off=off, alpha=alpha, **opts)
    elif gen.chance(rng, 0.2) and shape == (3,):
        # thresholds and ratios may be arrays as well
        ctx.call(relative_sensitivity, on, off, np.array([alpha, 0.2, 0.7]) if gen.chance(rng, 0.5) else alpha,
                 min_significance=np.array([3.0, 5.0, 1.0]), min_signal_events=np.array([[10.0], [0.0]]))
    else:
        ctx.call(relative_sensitivity, on, off, alpha, **opts)


# ---------------------------------------------------------------------------

S03 = Prop(
    "S03",
    "Sensitivity tables are consistent with the input histograms in every bin",
    "Each row of a sensitivity table has the bin of the input histograms, the relative sensitivity for on counts of "
    "signal plus ratio times background (using the weighted counts and the given thresholds), the weighted and unweighted signal counts scaled by it, the background "
    "counts unchanged, also per particle type, and the significance of the scaled signal. Rows do not influence each other, "
    "bins without signal are infinite, and histograms with different bins are rejected.",
    ["inputs"],
    "all signal and background histogram tables (also with empty bins, particle types, low and high counts), ratios and thresholds",
    "Tests use one or two fixed histograms.",
    ["pyirf/sensitivity.py"],
    [("calculate_sensitivity", "pyirf/sensitivity.py"), ("check_histograms", "pyirf/utils.py")],
    "a case is a random pair of histogram tables judged with reference significance and root finding; "
    "non-trivial if at least one bin has a finite sensitivity",
    "as for S02",
    observe_at=["pyirf.sensitivity.calculate_sensitivity"],
)


@S03.monitor("pyirf.sensitivity:calculate_sensitivity")
def _post_sens(ctx, call):
    from pyirf.statistics import li_ma_significance

    a = call.bind("signal_hist", "background_hist", "alpha", min_significance=5, min_signal_events=10,
                  min_excess_over_background=0.05, significance_function=li_ma_significance)
    s, b, alpha = a["signal_hist"], a["background_hist"], float(a["alpha"])
    if len(s) != len(b) or any(
        not np.array_equal(s[f"reco_energy_{k}"].value, b[f"reco_energy_{k}"].to_value(s[f"reco_energy_{k}"].unit))
        for k in ("low", "high")
    ):
        return
    if call.error is not None:
        return
    sig = naive_significance if a["significance_function"] is naive_significance else ref.lima
    t = call.result
    if not ctx.check(len(t) == len(s), "one row per bin"):
        return
    for k in ("low", "high", "center"):
        c = f"reco_energy_{k}"
        ctx.check(t[c].unit.is_equivalent(u.TeV), f"{c} has no energy unit")
        ctx.close(t[c].to_value(s[c].unit), s[c].value, c, rtol=1e-12)
    num = {}
    for c in ("n_signal", "n_signal_weighted", "n_background", "n_background_weighted", "significance", "relative_sensitivity"):
        if not ctx.check(c in t.colnames, f"column {c} missing"):
            return
        num[c] = u.Quantity(t[c]).to_value(u.one)
    sw, bw = (u.Quantity(x["n_weighted"]).to_value(u.one).astype(float) for x in (s, b))
    sn, bn = (u.Quantity(x["n"]).to_value(u.one).astype(float) for x in (s, b))
    n = 0
    for i in range(len(s)):
        if 0 < sw[i] <= max(1e-4, 1e-9 * alpha * bw[i]):
            ctx.skip("excess within rounding of zero")
            continue
        want = ref.relative_sensitivity(
            sw[i] + alpha * bw[i], bw[i], alpha, a["min_significance"], a["min_signal_events"],
            a["min_excess_over_background"], sig,
        ) if sw[i] > 0 else np.inf
        got = num["relative_sensitivity"][i]
        if np.isfinite(want):
            n += 1
            ctx.check(abs(got - want) <= 1e-6 * want + 1e-11, "wrong relative sensitivity", got=got, want=want,
                      signal=sw[i], background=bw[i], alpha=alpha)
            ctx.close(num["n_signal_weighted"][i], sw[i] * got, "weighted signal is not scaled by the relative sensitivity")
            ctx.close(num["n_signal"][i], sn[i] * got, "signal is not scaled by the relative sensitivity")
            w = sig(sw[i] * got + alpha * bw[i], bw[i], alpha)
            ctx.close(num["significance"][i], w, "significance of the scaled signal", rtol=1e-6, atol=1e-6)
            ctx.check(num["significance"][i] >= a["min_significance"] * (1 - 1e-4) - 1e-4, "significance not reached",
                      got=num["significance"][i])
        else:
            ctx.check(np.array_equal(got, want, equal_nan=True), "wrong relative sensitivity", got=got, want=want,
                      signal=sw[i], background=bw[i], alpha=alpha)
    ctx.close(num["n_background"], bn, "background counts", rtol=1e-12)
    ctx.close(num["n_background_weighted"], bw, "weighted background counts", rtol=1e-12)
    for c in b.colnames:
        if c.startswith("n_") and c != "n_weighted":
            if ctx.check(c in t.colnames, f"column {c} of the background is missing"):
                ctx.close(u.Quantity(t[c]).value, u.Quantity(b[c]).value, f"column {c}", rtol=1e-12)
    if n:
        ctx.nontrivial(sw, bw, alpha)


def _hist(rng, edges, weight, scale, types=()):
    t = QTable()
    lo, hi = edges[:-1], edges[1:]
    t["reco_energy_low"], t["reco_energy_high"], t["reco_energy_center"] = lo, hi, 0.5 * (lo + hi)
    n = len(lo)
    tot, totw = np.zeros(n), np.zeros(n)
    for p in types or ("x",):
        c = rng.poisson(scale * rng.uniform(0.2, 2), n) * (rng.random(n) > 0.15)
        w = c * rng.uniform(0.1, 3, n) * weight
        if types:
            t[f"n_{p}"], t[f"n_{p}_weighted"] = c, w
        tot, totw = tot + c, totw + w
    t["n"], t["n_weighted"] = tot.astype(int), totw
    return t


@S03.family(250)
def histograms(ctx):
    from pyirf.sensitivity import calculate_sensitivity

    rng = ctx.rng
    edges = gen.energy_edges(rng)
    s = _hist(rng, edges, 10 ** rng.uniform(-1, 1), 10 ** rng.uniform(0, 3.5))
    types = gen.pick(rng, (), (), ("proton",), ("proton", "electron"))
    b = _hist(rng, edges, 10 ** rng.uniform(-1.5, 1.5), 10 ** rng.uniform(-0.5, 4), types)
    alpha = float(gen.pick(rng, 0.2, 1.0, 10 ** rng.uniform(-2, 0.5)))
    if gen.chance(rng, 0.04):
        b = s
    opts = {}
    if gen.chance(rng, 0.3):
        opts["min_significance"] = float(rng.uniform(1, 10))
    if gen.chance(rng, 0.3):
        opts["min_signal_events"] = float(rng.uniform(0, 100))
    if gen.chance(rng, 0.3):
        opts["min_excess_over_background"] = float(rng.uniform(0, 1))
    if gen.chance(rng, 0.15):
        opts["significance_function"] = naive_significance
    before = (s.copy(), b.copy())
    t = ctx.call(calculate_sensitivity, s, b, alpha, **opts)
    for x, y in zip(before, (s, b)):
        for c in x.colnames:
            ctx.check(c in y.colnames and np.array_equal(u.Quantity(x[c]), u.Quantity(y[c])), "input histogram was modified")
    # one row on its own
    i = int(rng.integers(len(s)))
    one = ctx.call(calculate_sensitivity, s[i:i + 1], b[i:i + 1], alpha, **opts)
    ctx.close(one["relative_sensitivity"][0], t["relative_sensitivity"][i], "row depends on other rows", rtol=1e-9, atol=1e-12)
    if gen.chance(rng, 0.3):
        bad = b.copy()
        c = "reco_energy_" + gen.pick(rng, "low", "high", "center")
        bad[c][int(rng.integers(len(bad)))] *= 1.01
        ctx.raises(ValueError, calculate_sensitivity, s, bad, alpha, message="different binning")


# ---------------------------------------------------------------------------

S04 = Prop(
    "S04",
    "Background estimate scales ring counts to the size of the off region",
    "The background estimate counts, in each reconstructed energy bin, the events with a field of view offset in the half-open ring from "
    "minimum to maximum offset, and multiplies all counts (weighted and unweighted, total and per particle type) "
    "with the solid angle of a cone with the theta cut of that energy divided by the solid angle of the ring "
    "and by the size ratio of on and off region. The theta cut is interpolated linearly to the bin centers, in whatever "
    "units the cuts, offsets and energies are given.",
    ["inputs"],
    "all event tables, energy bins, theta cut tables (same or different bins), rings and ratios in any units",
    "Tests use constant theta cuts in the same bins and one ring.",
    ["pyirf/sensitivity.py", "pyirf/utils.py"],
    [("estimate_background", "pyirf/sensitivity.py"), ("cone_solid_angle", "pyirf/utils.py")],
    "a case is a random event table and cut table; non-trivial if an event is inside of the ring and bins",
    "events at an edge of the ring or bins after unit conversion are not judged",
    observe_at=["pyirf.sensitivity.estimate_background"],
)


@S04.monitor("pyirf.sensitivity:estimate_background")
def _post_background(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", "reco_energy_bins", "theta_cuts", "alpha", "fov_offset_min", "fov_offset_max")
    ev, bins, cuts = a["events"], a["reco_energy_bins"], a["theta_cuts"]
    t = call.result
    e = bins.value
    x = np.asarray(ev["reco_energy"].to_value(bins.unit), float)
    off = np.asarray(ev["reco_source_fov_offset"].to_value(u.rad), float)
    r0, r1 = a["fov_offset_min"].to_value(u.rad), a["fov_offset_max"].to_value(u.rad)
    exact = ev["reco_source_fov_offset"].unit == a["fov_offset_min"].unit == a["fov_offset_max"].unit
    if exact:
        v = ev["reco_source_fov_offset"].value
        ring = (v >= a["fov_offset_min"].value) & (v < a["fov_offset_max"].value)
    else:
        ring = (off >= r0) & (off < r1)
        if (np.abs(off - r0) <= 1e-9 * max(r0, 1e-6)).any() or (np.abs(off - r1) <= 1e-9 * r1).any():
            ctx.skip("event at the edge of the ring")
            return
    fuzzy = 1e-5 if ev["reco_energy"].dtype == np.float32 else 1e-9
    if ev["reco_energy"].unit != bins.unit and gen.near_edge(x, e, fuzzy).any():
        ctx.skip("value too close to an edge")
        return
    center = 0.5 * (bins.value[1:] + bins.value[:-1])
    cx, cy = cuts["center"].to_value(bins.unit), cuts["cut"].to_value(u.rad)
    theta = np.empty(len(center))
    for i, c in enumerate(center):
        if c <= cx[0]:
            theta[i] = cy[0]
        elif c >= cx[-1]:
            theta[i] = cy[-1]
        else:
            j = int(np.searchsorted(cx, c, side="right")) - 1
            theta[i] = cy[j] + (cy[j + 1] - cy[j]) * (c - cx[j]) / (cx[j + 1] - cx[j])
    factor = np.sin(theta / 2) ** 2 / (np.sin(r1 / 2) ** 2 - np.sin(r0 / 2) ** 2) / float(a["alpha"])
    # differences of cosines
    rtol = 1e-7 + 1e-15 / min(np.sin(theta / 2).min() ** 2, np.sin(r1 / 2) ** 2 - np.sin(r0 / 2) ** 2)
    w = np.asarray(ev["weight"], float) if "weight" in ev.colnames else np.ones(len(ev))
    b = np.where(ring, gen.bin_of_closed(x, e), -1)
    nb = len(e) - 1

    def sums(mask, w=w):
        m = mask & (b >= 0)
        return np.bincount(b[m], minlength=nb), np.bincount(b[m], weights=w[m], minlength=nb)

    groups = {"n": np.ones(len(ev), bool)}
    if "particle_type" in ev.colnames and ring.any():
        for p in set(np.asarray(ev["particle_type"])[ring].tolist()):
            groups[f"n_{p}"] = np.asarray(ev["particle_type"]) == p
    if not ctx.check(len(t) == nb, "one row per bin"):
        return
    ctx.close(t["reco_energy_low"].to_value(bins.unit), e[:-1], "bins", rtol=1e-12)
    ctx.close(t["reco_energy_high"].to_value(bins.unit), e[1:], "bins", rtol=1e-12)
    for c, m in groups.items():
        n, nw = sums(m)
        for col, want in ((c, n), (f"{c}_weighted", nw)):
            if ctx.check(col in t.colnames, f"column {col} missing"):
                # numpy takes differences of cumulated weights
                tiny = ((1e-12 if (w < 0).any() else 1e-13) + 2e-16 * len(w)) * np.abs(w[m & ring]).sum() * factor
                ctx.close(u.Quantity(t[col]).to_value(u.one), want * factor, f"scaled background {col}", rtol=rtol, atol=tiny)
    if (ring & (b >= 0)).any():
        ctx.nontrivial(x, off, theta)


def _theta_cuts(rng, edges):
    e = edges if gen.chance(rng, 0.5) else gen.energy_edges(rng)
    t = QTable()
    t["low"], t["high"] = e[:-1], e[1:]
    t["center"] = 0.5 * (e[1:] + e[:-1])
    t["cut"] = u.Quantity(rng.uniform(0.02, 0.4, len(e) - 1) * (1 if not gen.chance(rng, 0.15) else 10 ** rng.uniform(-2, 2)), u.deg).to(gen.angle_unit(rng))
    return t


@S04.family(400)
def rings(ctx):
    from pyirf.sensitivity import estimate_background

    rng = ctx.rng
    edges = gen.energy_edges(rng, n=gen.many(rng))
    ev = gen.events(rng, e_edges=edges)
    n = len(ev)
    if n and gen.chance(rng, 0.5):
        ev["particle_type"] = rng.choice(np.array(["proton", "electron"]), n)
    if "weight" in ev.colnames:
        gen.vary_weights(rng, ev)
    r0 = gen.pick(rng, 0.0, 0.0, rng.uniform(0, 2))
    r1 = r0 + (rng.uniform(0.3, 4) if not gen.chance(rng, 0.15) else gen.pick(rng, rng.uniform(4, 170), 10 ** rng.uniform(-2, -0.5)))
    if n and gen.chance(rng, 0.4):
        off = np.asarray(ev["reco_source_fov_offset"].to_value(u.deg), float)
        m = rng.random(n) < 0.3
        off[m] = rng.choice([r0, r1], m.sum())
        ev["reco_source_fov_offset"] = u.Quantity(off, u.deg)
        r0, r1 = u.Quantity(r0, u.deg), u.Quantity(r1, u.deg)
    else:
        r0, r1 = u.Quantity(r0, u.deg).to(gen.angle_unit(rng)), u.Quantity(r1, u.deg).to(gen.angle_unit(rng))
    alpha = float(gen.pick(rng, 1.0, 0.2, rng.uniform(0.05, 3), 10 ** rng.uniform(-4, 3)))
    ctx.call(estimate_background, ev, edges, _theta_cuts(rng, edges), alpha, r0, r1)


# ---------------------------------------------------------------------------


def _op_name(op):
    return {operator.ge: "ge", operator.gt: "gt", operator.le: "le", operator.lt: "lt"}[op]


def _sensitivity_of(sig, bkg, e, keep_s, keep_b, theta_cut_at_center, alpha, r0, r1, opts):
    """Relative sensitivity per bin from scratch; all plain arrays (TeV, rad)"""
    nb = len(e) - 1

    def wsum(t, keep):
        b = gen.bin_of_closed(t["reco_energy"], e)
        m = keep & (b >= 0)
        return np.bincount(b[m], weights=t["weight"][m], minlength=nb), np.bincount(b[m], minlength=nb)

    sw, sn = wsum(sig, keep_s)
    ring = (bkg["offset"] >= r0) & (bkg["offset"] < r1)
    bw, bn = wsum(bkg, keep_b & ring)
    f = np.sin(theta_cut_at_center / 2) ** 2 / (np.sin(r1 / 2) ** 2 - np.sin(r0 / 2) ** 2) / alpha
    bw, bn = bw * f, bn * f
    rel = np.array([
        np.nan if np.isnan(sw[i] + bw[i])
        else ref.relative_sensitivity(sw[i] + alpha * bw[i], bw[i], alpha, **opts) if sw[i] > 0 else np.inf
        for i in range(nb)
    ])
    types = {}
    for p in np.unique(bkg["type"]) if bkg["type"] is not None else ():
        w, n = wsum(bkg, keep_b & ring & (bkg["type"] == p))
        types[f"n_{p}"], types[f"n_{p}_weighted"] = n * f, w * f
    return rel, sw, bw, types


def _plain(ev, background=False):
    d = dict(
        reco_energy=ev["reco_energy"].to_value(u.TeV).astype(float), weight=np.asarray(ev["weight"], float),
        gh_score=np.asarray(ev["gh_score"], float), multiplicity=np.asarray(ev["multiplicity"]),
    )
    d["theta"] = ev["theta"].to_value(u.deg).astype(float)
    d["type"] = np.asarray(ev["particle_type"]) if "particle_type" in ev.colnames else None
    d["offset"] = ev["reco_source_fov_offset"].to_value(u.rad).astype(float)
    return d


def _cut_per_bin(x, b, nb, q, fill, lo=None, hi=None, min_events=10):
    out = np.empty(nb)
    for i in range(nb):
        v = x[b == i]
        if len(v) < min_events:
            out[i] = fill
        else:
            out[i] = ref.percentile(v, q)
            if lo is not None:
                out[i] = min(max(out[i], lo), hi)
    return out


def _apply(x, b, cut, op):
    ok = b >= 0
    res = np.zeros(len(x), bool)
    res[ok] = op(x[ok], cut[b[ok]])
    return res


def _tied(x, b, nb, q):
    """Bins in which the quantile lies between equal values, it is exact there"""
    out = np.zeros(nb, bool)
    for i in range(nb):
        v = np.sort(x[b == i])
        if len(v):
            h = (len(v) - 1) * q / 100
            lo, hi = int(np.floor(h - 1e-6)), int(np.ceil(h + 1e-6))
            out[i] = v[max(lo, 0)] == v[min(hi, len(v) - 1)]
    return out


def _ambiguous(x, b, cut, exact=(), tied=None):
    """Bins in which the decision of an event depends on rounding of the percentile"""
    ok = b >= 0
    c = np.full(len(x), np.inf)
    c[ok] = cut[b[ok]]
    d = np.abs(x - c)
    near = ok & (d <= 1e-11 * np.maximum(np.abs(c), 1e-3)) & ~np.isin(c, exact)
    if tied is not None:
        near[ok] &= ~(tied[b[ok]] & (x[ok] == c[ok]))
    return set(b[near].tolist())


def _same_count(row, col, n):
    """Counts of a particle type, types without any event may have no column"""
    got = float(u.Quantity(row[col]).value) if col in row.colnames else 0.0
    return abs(got - n) <= 1e-7 * n


def _best(ctx, cand, rel, counts, what, i, row, got):
    """The reported cuts of a bin belong to a candidate with the best sensitivity"""
    rels = np.array(rel)
    got_rel = float(row["relative_sensitivity"])
    got_counts = [float(u.Quantity(row[c]).value) for c in ("n_signal_weighted", "n_background_weighted")]
    valid = ~np.isnan(rels)
    best = np.min(rels[valid]) if valid.any() else np.nan
    ok = []
    full = False
    for c, r, (sw, bw, types) in zip(cand, rels, counts):
        match = all(
            (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-9 * max(abs(b), 1e-3) for a, b in zip(got, c)
        )
        if match:
            ok.append(r)
            full |= not np.isfinite(r) or (
                abs(got_counts[0] - sw * r) <= 3e-6 * sw * r + 1e-9 * sw
                and abs(got_counts[1] - bw) <= 1e-7 * bw
                and all(_same_count(row, k, v) for k, v in types.items())
            )
    if not ctx.check(ok, f"{what}: reported cuts of bin {i} are not one of the scanned combinations", got=got, candidates=cand[:20]):
        return
    if not np.isfinite(best):
        # nothing to choose from, numpy.nanargmin does not distinguish nan and inf then
        ctx.check(not np.isfinite(got_rel), f"{what}: reported sensitivity of bin {i} without any valid one", got=got_rel)
        return

    def close(a, b):
        return a == b or abs(a - b) <= 2e-6 * abs(b) + 2e-11

    ctx.check(any(close(r, best) for r in ok), f"{what}: reported cuts of bin {i} are not the best ones",
              got=got, sensitivity=ok, best=best)
    ctx.check(full, f"{what}: sensitivity row of bin {i} does not belong to the reported cuts", got=got_counts)
    ctx.check(close(got_rel, best), f"{what}: reported sensitivity of bin {i} is not the best one", got=got_rel, best=best)


S05 = Prop(
    "S05",
    "Gamma/hadron cut optimization picks the best scanned efficiency per bin",
    "For every reconstructed energy bin, the reported cut is the cut with one of the scanned efficiencies (in bins with enough events the fraction of "
    "signal events passing, for either direction of the comparison) whose relative sensitivity, computed from signal passing this cut and the given theta "
    "cuts and from background passing this cut in the ring, is the smallest of all scanned efficiencies in this bin. "
    "The reported efficiency and sensitivity row belong to this cut, the table gives edges and centers of the bins in any unit, bins are optimized independently of each other, "
    "and the result does not depend on the order of the efficiencies.",
    ["inputs"],
    "all signal and background event tables, energy bins, theta cuts, comparison directions, efficiency lists and rings",
    "Tests run one optimization on one generated data set and check shapes and a few values.",
    ["pyirf/cut_optimization.py", "pyirf/cuts.py", "pyirf/sensitivity.py"],
    [("optimize_gh_cut", "pyirf/cut_optimization.py")],
    "a case is a random data set; every candidate is evaluated from the raw events by the reference; non-trivial if one bin "
    "has a finite best sensitivity",
    "candidates with sensitivities equal to 2e-6 count as equally good; bins with an event on the cut only up to rounding are not judged",
    observe_at=["pyirf.cut_optimization.optimize_gh_cut"],
    technique="runtime monitoring: postcondition judged by exhaustive re-evaluation of all candidates from raw events",
)


def _given(rng, edges):
    """The same bins in any unit"""
    return edges if gen.chance(rng, 0.6) else edges.to(gen.energy_unit(rng))


def _default_args(rng, kw):
    """Leave out arguments that have their default value"""
    default = dict(alpha=1.0, fov_offset_min=0 * u.deg, fov_offset_max=1 * u.deg)
    return {k: v for k, v in kw.items() if not (k in default and v == default[k] and gen.chance(rng, 0.6))}


def _judge_cut_bins(ctx, t, e):
    for c, want in (("low", e[:-1]), ("high", e[1:]), ("center", 0.5 * (e[1:] + e[:-1]))):
        ctx.close(t[c].to_value(u.TeV), want, "bins of the cut table", rtol=1e-12)


def _dataset(rng, edges, n_s=None, n_b=None):
    n_s = n_s or int(gen.pick(rng, 30, 150, 500))
    n_b = n_b or int(gen.pick(rng, 20, 150, 600))
    s = gen.events(rng, n=n_s, e_edges=edges, units=False, weight=True, theta_scale=rng.uniform(0.03, 0.2))
    b = gen.events(rng, n=n_b, e_edges=edges, units=False, weight=True, fov_max=4)
    s["gh_score"] = rng.beta(4, 2, n_s)
    b["gh_score"] = rng.beta(2, 4, n_b)
    s["weight"] = s["weight"] * 10 ** rng.uniform(-1, 1)
    if gen.chance(rng, 0.3):
        # scores of a random forest are discrete
        trees = gen.pick(rng, 8, 16, 64)
        for t in (s, b):
            t["gh_score"] = np.round(t["gh_score"] * trees) / trees
    if gen.chance(rng, 0.5):
        for t in (s, b):
            t["reco_energy"] = t["reco_energy"].to(u.GeV)
    if gen.chance(rng, 0.4):
        # rare types may have no events after cuts
        s["particle_type"] = "gamma"
        b["particle_type"] = rng.choice(["proton", "electron", "helium"], n_b, p=gen.pick(rng, [0.97, 0.03, 0], [0.5, 0.4, 0.1], [0.02, 0.03, 0.95]))
    if gen.chance(rng, 0.08):
        # events without valid weight, in the last bin as sums over bins are cumulative
        t = gen.pick(rng, s, s, b)
        last = np.flatnonzero((t["reco_energy"] > edges[-2]) & (t["reco_energy"] < edges[-1]))
        if len(last):
            w = np.array(t["weight"], float)
            w[last[: gen.pick(rng, 1, 5, len(last))]] = np.nan
            t["weight"] = w
    return s, b


@S05.family(60)
def scans(ctx):
    from pyirf.cut_optimization import optimize_gh_cut

    rng = ctx.rng
    edges = gen.energy_edges(rng, n=gen.pick(rng, 1, 2, 3, 5) if not gen.chance(rng, 0.04) else int(rng.integers(6, 25)), unit=u.TeV)
    s, b = _dataset(rng, edges)
    eff = list(rng.permutation(gen.pick(rng, [0.3, 0.6, 0.9], [0.5], list(rng.uniform(0.05, 1, 5)), [0.1, 0.4, 1.0, 0.8])))
    if gen.chance(rng, 0.04):
        eff = list(rng.permutation(np.linspace(0.02, 1, int(rng.integers(8, 40)))))
    if gen.chance(rng, 0.5):
        eff = np.array(eff)
    op = gen.pick(rng, operator.ge, operator.gt, operator.le, operator.lt, None)
    # any function comparing like one of these is as good
    given = op
    if op is not None and gen.chance(rng, 0.3):
        given = {
            operator.ge: gen.pick(rng, np.greater_equal, lambda a, b: a >= b),
            operator.gt: gen.pick(rng, np.greater, lambda a, b: b < a),
            operator.le: gen.pick(rng, np.less_equal, lambda a, b: a <= b),
            operator.lt: gen.pick(rng, np.less, lambda a, b: b > a),
        }[op]
    edges = _given(rng, edges)
    cuts = QTable({"low": edges[:-1], "high": edges[1:], "center": 0.5 * (edges[1:] + edges[:-1]),
                   "cut": u.Quantity(rng.uniform(0.05, 0.3, len(edges) - 1), u.deg).to(gen.angle_unit(rng) if gen.chance(rng, 0.3) else u.deg)})
    alpha = float(gen.pick(rng, 1.0, 0.2, 0.5))
    r0, r1 = gen.pick(rng, (0.0, 1.0), (0.0, 3.0), (0.5, 2.5), (0.9, 1.0), (1.5, 2.5))
    if gen.chance(rng, 0.3):
        r0 = rng.uniform(0, 2)
        r1 = r0 + rng.uniform(0.1, 2)
    kw = _default_args(rng, dict(alpha=alpha, fov_offset_min=u.Quantity(r0, u.deg), fov_offset_max=u.Quantity(r1, u.deg)))
    opts = {}
    if gen.chance(rng, 0.4):
        opts = dict(min_significance=float(rng.uniform(2, 6)), min_signal_events=float(rng.uniform(0, 20)))
    if op is not None:
        kw["op"] = given
    else:
        op = operator.ge
    sens, best = ctx.call(optimize_gh_cut, s, b, edges, eff, cuts, progress=False, **kw, **opts)
    e = edges.to_value(u.TeV)
    nb = len(e) - 1
    S, B = _plain(s), _plain(b)
    if gen.near_edge(S["reco_energy"], e).any() or gen.near_edge(B["reco_energy"], e).any():
        return
    sb, bb = gen.bin_of(S["reco_energy"], e), gen.bin_of(B["reco_energy"], e)
    theta = cuts["cut"].to_value(u.deg)
    below = op in (operator.le, operator.lt)
    fill = S["gh_score"].min() if below else S["gh_score"].max()
    cand, rels, counts, rough = [], [], [], set()
    for f in eff:
        q = 100 * f if below else 100 * (1 - f)
        c = _cut_per_bin(S["gh_score"], sb, nb, q, fill)
        tied = _tied(S["gh_score"], sb, nb, q)
        rough |= _ambiguous(S["gh_score"], sb, c, (fill,), tied) | _ambiguous(B["gh_score"], bb, c, (fill,), tied)
        ks = _apply(S["gh_score"], sb, c, op) & _apply(S["theta"], sb, theta, operator.le)
        kb = _apply(B["gh_score"], bb, c, op)
        rel, sw, bw, types = _sensitivity_of(S, B, e, ks, kb, np.deg2rad(theta), alpha, np.deg2rad(r0), np.deg2rad(r1), opts)
        # an excess lost in rounding is not judged
        rough |= set(np.flatnonzero((sw > 0) & (sw <= 1e-4)).tolist())
        cand.append(c)
        rels.append(rel)
        counts.append((sw, bw, types))
    ctx.check(len(best) == nb and len(sens) == nb, "one row per bin")
    _judge_cut_bins(ctx, best, e)
    ctx.close(sens["reco_energy_low"].to_value(u.TeV), e[:-1], "bins of the sensitivity", rtol=1e-12)
    for i in range(nb):
        if i in rough:
            ctx.skip("event on the cut up to rounding")
            continue
        _best(ctx, [(c[i], f) for c, f in zip(cand, eff)], [r[i] for r in rels], [(x[i], y[i], {k: v[i] for k, v in z.items()}) for x, y, z in counts], "optimize_gh_cut", i,
              sens[i], (float(best["cut"][i]), float(best["efficiency"][i])))
    if np.isfinite(np.array(rels)).any():
        ctx.nontrivial(S["gh_score"], e, np.array(eff))


S06 = Prop(
    "S06",
    "Full cut optimization picks the best scanned combination per energy bin",
    "For every reconstructed energy bin, the reported multiplicity, theta and gamma/hadron cuts are one of the scanned combinations, where the "
    "theta and gamma/hadron cuts have the scanned efficiencies for the signal events passing the multiplicity cut, and no other scanned "
    "combination has a smaller relative sensitivity in this bin. Theta cuts stay within their limits, the reported efficiencies and sensitivity row belong to "
    "the reported cuts, and lists or arrays of efficiencies in any order give the same result.",
    ["inputs"],
    "all signal and background event tables, energy bins, multiplicities, efficiency lists, limits, rings and thresholds",
    "Tests run one optimization with a few efficiencies on one generated data set.",
    ["pyirf/cut_optimization.py", "pyirf/cuts.py", "pyirf/sensitivity.py"],
    [("optimize_cuts", "pyirf/cut_optimization.py")],
    "a case is a random data set; all combinations are evaluated from raw events by the reference; non-trivial if one bin has "
    "a finite best sensitivity",
    "as for S05",
    observe_at=["pyirf.cut_optimization.optimize_cuts"],
    technique="runtime monitoring: postcondition judged by exhaustive re-evaluation of all candidates from raw events",
)


@S06.family(60)
def scans(ctx):  # noqa: F811
    from pyirf.cut_optimization import optimize_cuts

    rng = ctx.rng
    edges = gen.energy_edges(rng, n=gen.pick(rng, 1, 2, 3) if not gen.chance(rng, 0.05) else int(rng.integers(4, 12)), unit=u.TeV)
    s, b = _dataset(rng, edges)
    gh = gen.pick(rng, [0.3, 0.7], [0.9], [0.8, 0.4, 0.6], list(rng.uniform(0.05, 1, 3)))
    th = gen.pick(rng, [0.5, 0.8], [0.68], [0.9, 0.2], list(rng.uniform(0.1, 1, 3)))
    mult = gen.pick(rng, [2, 4], [1], [3, 2, 5])
    if gen.chance(rng, 0.04):
        kind = gen.pick(rng, 0, 1, 2)
        if kind == 0:
            gh = list(rng.uniform(0.05, 1, 12))
        elif kind == 1:
            th = list(rng.uniform(0.1, 1, 12))
        else:
            mult = [int(x) for x in rng.permutation(np.arange(1, 9))]
    if gen.chance(rng, 0.2):
        # mean or weighted number of telescopes
        for t in (s, b):
            t["multiplicity"] = t["multiplicity"] + gen.pick(rng, 0.5, 0.25) * rng.integers(0, 2, len(t))
        mult = gen.pick(rng, [2.5, 4], [1.25, 3.0], [2, 2.5])
    if gen.chance(rng, 0.4):
        gh, th, mult = np.array(gh), np.array(th), np.array(mult)
    alpha = float(gen.pick(rng, 1.0, 0.2))
    r0, r1 = gen.pick(rng, (0.0, 1.0), (0.0, 1.0), (0.3, 3.0), (0.0, 2.5), (0.5, 1.0), (0.0, rng.uniform(1, 4)))
    kw = _default_args(rng, dict(alpha=alpha, fov_offset_min=u.Quantity(r0, u.deg), fov_offset_max=u.Quantity(r1, u.deg)))
    edges = _given(rng, edges)
    lo, hi = 0.02, 0.3
    if gen.chance(rng, 0.6):
        lo, hi = gen.pick(rng, (0.05, 0.2), (0.001, 1.0), (0.08, 0.12), (0.01, 0.05), (0.5, 1.0))
        kw.update(theta_min_value=u.Quantity(lo, u.deg), theta_max_value=u.Quantity(hi, u.deg))
    opts = {}
    if gen.chance(rng, 0.4):
        opts = dict(min_significance=float(rng.uniform(2, 6)), min_signal_events=float(rng.uniform(0, 20)))
    sens, bm, bt, bg = ctx.call(optimize_cuts, s, b, edges, mult, gh, th, progress=False, **kw, **opts)
    e = edges.to_value(u.TeV)
    nb = len(e) - 1
    S, B = _plain(s), _plain(b)
    if gen.near_edge(S["reco_energy"], e).any() or gen.near_edge(B["reco_energy"], e).any():
        return
    sb, bb = gen.bin_of(S["reco_energy"], e), gen.bin_of(B["reco_energy"], e)
    fill = S["gh_score"].max()
    cand, rels, counts, rough = [], [], [], set()
    for m in mult:
        ms, mb = S["multiplicity"] >= m, B["multiplicity"] >= m
        sm = np.where(ms, sb, -1)
        for g in gh:
            cg = _cut_per_bin(S["gh_score"], sm, nb, 100 * (1 - g), fill)
            tied = _tied(S["gh_score"], sm, nb, 100 * (1 - g))
            rough |= _ambiguous(S["gh_score"], sb, cg, (fill,), tied) | _ambiguous(B["gh_score"], bb, cg, (fill,), tied)
            for f in th:
                ct = _cut_per_bin(S["theta"], sm, nb, 100 * f, hi, lo, hi)
                rough |= _ambiguous(S["theta"], sb, ct, (lo, hi))
                ks = ms & _apply(S["gh_score"], sb, cg, operator.ge) & _apply(S["theta"], sb, ct, operator.le)
                kb = mb & _apply(B["gh_score"], bb, cg, operator.ge)
                rel, sw, bw, types = _sensitivity_of(S, B, e, ks, kb, np.deg2rad(ct), alpha, np.deg2rad(r0), np.deg2rad(r1), opts)
                rough |= set(np.flatnonzero((sw > 0) & (sw <= 1e-4)).tolist())
                cand.append([(m, cg[i], g, ct[i], f) for i in range(nb)])
                rels.append(rel)
                counts.append((sw, bw, types))
    for t in (sens, bm, bt, bg):
        ctx.check(len(t) == nb, "one row per bin")
    for t in (bm, bt, bg):
        _judge_cut_bins(ctx, t, e)
    th_deg = bt["cut"].to_value(u.deg)
    ctx.check(((th_deg >= lo * (1 - 1e-12)) & (th_deg <= hi * (1 + 1e-12))).all(), "theta cut exceeds its limits", got=th_deg)
    for i in range(nb):
        if i in rough:
            ctx.skip("event on the cut up to rounding")
            continue
        _best(ctx, [c[i] for c in cand], [r[i] for r in rels], [(x[i], y[i], {k: v[i] for k, v in z.items()}) for x, y, z in counts], "optimize_cuts", i,
              sens[i],
              (float(bm["cut"][i]), float(bg["cut"][i]), float(bg["efficiency"][i]), float(th_deg[i]), float(bt["efficiency"][i])))
    if np.isfinite(np.array(rels)).any():
        ctx.nontrivial(S["gh_score"], e, np.array(gh), np.array(th))


pipeline.attach(S01, "sensitivity", n=500)
pipeline.attach(S02, "sensitivity")
pipeline.attach(S03, "sensitivity")
pipeline.attach(S04, "sensitivity")
pipeline.attach(S05, "optimize", n=500)
pipeline.attach(S06, "optimize", n=500)
