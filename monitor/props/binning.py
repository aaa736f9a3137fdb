"""Binning: bin indices, histogram tables, bin edges, resampling"""
import numpy as np
import astropy.units as u
from astropy.table import QTable

from ..core import Prop
from .. import gen, pipeline

B01 = Prop(
    "B01",
    "Every value is assigned to exactly the bin that contains it",
    "For any data and any increasing bin edges, the bin index of a value is i exactly if "
    "edges[i] <= value < edges[i + 1] after expressing both in the same unit, and that value "
    "is flagged valid. Values below the first edge are reported as underflow, values at or "
    "above the last edge as overflow (nan never counts as valid), both flagged as not valid, "
    "so that valid indices can always be used to index the histogram. Data with a unit "
    "cannot be combined with bins without a unit.",
    ["inputs"],
    "all arrays of values (inside, outside, exactly on edges, infinite, nan, empty, integer "
    "or single precision) and all increasing edges (also non-uniform, infinite, one bin, "
    "other units)",
    "Tests use one array with a handful of values and uniform bins; half-open edges, nan, "
    "infinite edges and mixed units are quantified over and never tried.",
    ["pyirf/binning.py"],
    [("calculate_bin_indices", "pyirf/binning.py"), ("UNDERFLOW_INDEX / OVERFLOW_INDEX", "pyirf/binning.py")],
    "a case is a random array and binning judged against a comparison of each value with each "
    "edge; non-trivial if at least one value is in a bin, counted by content of data and edges",
    "values closer than 1e-9 to an edge are only judged if data and edges share the unit",
    observe_at=["pyirf.binning.calculate_bin_indices"],
)


@B01.monitor("pyirf.binning:calculate_bin_indices")
def _post_bin_indices(ctx, call):
    from pyirf.binning import UNDERFLOW_INDEX, OVERFLOW_INDEX

    a = call.bind("data", "bins")
    data, bins = a["data"], a["bins"]
    if hasattr(data, "unit") and not hasattr(bins, "unit"):
        ctx.check(isinstance(call.error, TypeError), "unit-less bins accepted for data with unit",
                  error=call.error)
        return
    if call.error is not None:
        return
    fuzzy = 0.0
    if hasattr(data, "unit"):
        if data.unit != bins.unit:
            fuzzy = 1e-5 if data.dtype == np.float32 else 1e-9
        bins = bins.to_value(data.unit)
        data = data.value
    data, bins = np.asarray(data), np.asarray(bins)
    idx, valid = call.result
    x = data.astype(float)
    want = gen.bin_of(x, bins.astype(float))
    sure = np.ones(x.shape, bool) if fuzzy == 0 else ~gen.near_edge(x, bins, fuzzy)
    ctx.check(np.shape(idx) == x.shape and np.shape(valid) == x.shape, "wrong shape of the result")
    idx, valid = np.asarray(idx), np.asarray(valid)
    ctx.check(np.issubdtype(idx.dtype, np.integer), "bin indices are not integers", dtype=idx.dtype)
    ctx.check(valid.dtype == bool, "valid is not boolean")
    ctx.check(np.all((valid == (want >= 0))[sure]), "valid flag is wrong",
              data=x[sure], bins=bins, got=valid[sure])
    inside = sure & (want >= 0)
    ctx.check(np.all(idx[inside] == want[inside]), "value assigned to the wrong bin",
              data=x[inside], bins=bins, got=idx[inside], want=want[inside])
    under = sure & (x < bins[0])
    over = sure & (x >= bins[-1])
    ctx.check(np.all(idx[under] == UNDERFLOW_INDEX), "underflow not reported", got=idx[under])
    ctx.check(np.all(idx[over] == OVERFLOW_INDEX), "overflow not reported", got=idx[over])
    if not inside.all():
        # a sentinel must never be usable as an index
        n = len(bins) - 1
        out = idx[sure & (want < 0)].astype(object)
        ctx.check(all(not (-n <= int(i) < n) for i in out), "invalid entry got a usable index")
    if inside.any():
        ctx.nontrivial(x, bins)


@B01.family(600)
def random_values(ctx):
    from pyirf.binning import calculate_bin_indices

    rng = ctx.rng
    kind = gen.pick(rng, "plain", "int", "energy", "angle", "mixed", "float32", "mismatch")
    n = gen.n_events(rng)
    if kind == "plain" or kind == "int":
        nb = gen.pick(rng, 1, 2, 3, 8, 20) if not gen.chance(rng, 0.04) else int(rng.integers(30, 600))
        edges = gen.increasing(rng, nb + 1, rng.uniform(-5, 5), rng.uniform(6, 40))
        if kind == "int":
            edges = np.unique(rng.integers(-20, 20, nb + 2))
            if len(edges) < 2:
                edges = np.array([-3, 4])
            x = rng.integers(-25, 25, n)
        else:
            w = edges[-1] - edges[0]
            x = rng.uniform(edges[0] - 0.3 * w, edges[-1] + 0.3 * w, n)
            m = rng.random(n) < 0.3
            x[m] = rng.choice(edges, m.sum())
            m = rng.random(n) < 0.1
            x[m] = np.nextafter(rng.choice(edges, m.sum()), gen.pick(rng, -np.inf, np.inf))
            x[rng.random(n) < 0.05] = gen.pick(rng, np.nan, np.inf, -np.inf)
        if gen.chance(rng, 0.3):
            edges = edges.astype(float)
            edges[0], edges[-1] = -np.inf, np.inf
        ctx.call(calculate_bin_indices, x, edges)
        if gen.chance(rng, 0.2) and n:
            ctx.call(calculate_bin_indices, x.reshape(1, -1), edges)
        return
    if kind == "angle":
        edges = gen.sym_edges(rng)
        x = gen.values_in(rng, edges, n, log=False, out=0.3, nan=0.03)
        x = x.to(gen.angle_unit(rng))
    else:
        edges = gen.energy_edges(rng, n=gen.many(rng), overflow=gen.chance(rng, 0.3))
        x = gen.values_in(rng, edges, n, out=0.3, nan=0.03, inf=0.02)
        if kind == "mixed":
            x = x.to(gen.energy_unit(rng))
        if kind == "energy" and n:
            m = rng.random(n) < 0.3
            x[m] = rng.choice(edges.value, m.sum()) * edges.unit
        if kind == "float32":
            if gen.chance(rng, 0.5):
                # equal to an edge after rounding only
                m = rng.random(n) < 0.3
                x[m] = rng.choice(edges.value, m.sum()) * edges.unit
            x = gen.f32(x)
    if kind == "mismatch":
        ctx.raises(TypeError, calculate_bin_indices, x, edges.value, message="unit of bins missing")
        # the other direction fails as well or is not judged
        return
    idx, valid = ctx.call(calculate_bin_indices, x, edges)
    ok = (x.value == x.value) & (x >= edges[0]) & (x < edges[-1])
    counts = np.bincount(np.asarray(idx)[np.asarray(valid)], minlength=len(edges) - 1)
    ctx.check(len(counts) == len(edges) - 1, "indices exceed the number of bins")
    ctx.check(abs(int(counts.sum()) - int(ok.sum())) <= gen.near_edge(x.to_value(edges.unit), edges.value, 1e-6).sum(),
              "values lost or counted twice", counts=counts, n_inside=ok.sum())


# ---------------------------------------------------------------------------

B02 = Prop(
    "B02",
    "Histogram tables conserve events and weights, in total and per particle type",
    "In a histogram table each row holds the number and the sum of weights of exactly the events "
    "inside of the row's bin (the last bin includes its upper edge), with low, high and center "
    "columns describing the bin; without weights, weighted counts equal counts. If the events have "
    "particle types, the counts and weighted counts per type are given for every type present and "
    "add up to the totals in each bin. The input events and their order do not matter otherwise "
    "and empty tables give zeros.",
    ["inputs"],
    "all event tables (any size, also empty, with or without weights and particle types, values "
    "outside of the bins or on edges) and all bin edges and histogrammed columns",
    "Tests sample one fixed table and check a few sums; conservation per bin, type and weight for any table is "
    "not sampled.",
    ["pyirf/binning.py"],
    [("create_histogram_table", "pyirf/binning.py")],
    "a case is a random event table and binning, judged against an event by event sum; non-trivial "
    "if at least one event is inside of the bins",
    "energies convert exactly or stay away from the edges; floating point sums agree to 1e-9",
    observe_at=["pyirf.binning.create_histogram_table"],
)


def _sum_by_bin(x, edges, w=None):
    b = gen.bin_of_closed(x, edges)
    n = len(edges) - 1
    ok = b >= 0
    return np.bincount(b[ok], weights=None if w is None else np.asarray(w, float)[ok], minlength=n)


@B02.monitor("pyirf.binning:create_histogram_table")
def _post_hist(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", "bins", key="reco_energy")
    ev, bins, key = a["events"], a["bins"], a["key"]
    t = call.result
    n_bins = len(bins) - 1
    ctx.check(len(t) == n_bins, "one row per bin", got=len(t), want=n_bins)
    if hasattr(bins, "unit"):
        x = ev[key].to_value(bins.unit)
        e = bins.value
        same = ev[key].unit == bins.unit
        for c in ("low", "high", "center"):
            ctx.check(getattr(t[f"{key}_{c}"], "unit", None) is not None, f"{c} lost its unit")
        lo, hi, ce = (t[f"{key}_{c}"].to_value(bins.unit) for c in ("low", "high", "center"))
    else:
        x, e, same = np.asarray(ev[key], float), np.asarray(bins, float), True
        lo, hi, ce = (np.asarray(t[f"{key}_{c}"]) for c in ("low", "high", "center"))
    ctx.close(lo, e[:-1], "lower edges", rtol=1e-12)
    ctx.close(hi, e[1:], "upper edges", rtol=1e-12)
    ctx.close(ce, 0.5 * (e[1:] + e[:-1]), "centers", rtol=1e-12)
    if not same and gen.near_edge(x, e, 1e-5 if ev[key].dtype == np.float32 else 1e-9).any():
        ctx.skip("value too close to an edge")
        return
    x = np.asarray(x, float)
    n = _sum_by_bin(x, e)
    ctx.check(np.array_equal(np.asarray(t["n"]), n), "number of events per bin", got=t["n"], want=n)
    weighted = "weight" in ev.colnames
    w = np.asarray(ev["weight"], float) if weighted else np.ones(len(ev))
    rtol = 1e-6 if weighted and ev["weight"].dtype == np.float32 else 1e-9
    # weights of both signs cancel up to rounding, and numpy takes differences of cumulated weights
    tiny = ((1e-12 if (w < 0).any() else 1e-13) + 2e-16 * len(w)) * np.abs(w[np.isfinite(w)]).sum()
    ctx.close(t["n_weighted"], _sum_by_bin(x, e, w), "sum of weights per bin", rtol=rtol, atol=tiny)
    if "particle_type" in ev.colnames and len(ev):
        types = np.asarray(ev["particle_type"])
        tot, totw = 0, 0.0
        for p in sorted(set(types.tolist())):
            m = types == p
            for col in (f"n_{p}", f"n_{p}_weighted"):
                if not ctx.check(col in t.colnames, f"column {col} missing", columns=t.colnames):
                    return
            ctx.check(np.array_equal(np.asarray(t[f"n_{p}"]), _sum_by_bin(x[m], e)),
                      f"number of {p} per bin", got=t[f"n_{p}"], want=_sum_by_bin(x[m], e))
            ctx.close(t[f"n_{p}_weighted"], _sum_by_bin(x[m], e, w[m]), f"weights of {p} per bin", rtol=rtol, atol=tiny)
            tot = tot + np.asarray(t[f"n_{p}"])
            totw = totw + np.asarray(t[f"n_{p}_weighted"])
        ctx.check(np.array_equal(tot, np.asarray(t["n"])), "types do not add up to the total")
        ctx.close(totw, t["n_weighted"], "weights of types do not add up", rtol=rtol, atol=tiny)
    if n.sum():
        ctx.nontrivial(x, e, w)


@B02.family(500)
def random_tables(ctx):
    from pyirf.binning import create_histogram_table

    rng = ctx.rng
    kind = gen.pick(rng, "reco", "true", "theta", "score", "edges")
    edges = gen.energy_edges(rng, n=gen.many(rng), overflow=gen.chance(rng, 0.25))
    ev = gen.events(rng, e_edges=edges)
    n = len(ev)
    key = "reco_energy"
    if kind == "true":
        key = "true_energy"
    elif kind == "theta":
        key, edges = "theta", gen.angle_edges(rng, high=rng.uniform(0.05, 0.6))
    elif kind == "score":
        key, edges = "gh_score", gen.increasing(rng, gen.pick(rng, 2, 4, 9), -0.1, rng.uniform(0.5, 1.1))
        if n:
            m = rng.random(n) < 0.2
            ev["gh_score"][m] = rng.choice(edges, m.sum())
    elif kind == "edges" and n:
        fin = edges.value[np.isfinite(edges.value)]
        x = ev["reco_energy"].to_value(edges.unit).astype(float)
        m = rng.random(n) < 0.4
        x[m] = rng.choice(fin, m.sum())
        ev["reco_energy"] = u.Quantity(x, edges.unit)
    if gen.chance(rng, 0.6):
        names = np.array(gen.pick(rng, ["gamma"], ["gamma", "proton"], ["gamma", "proton", "electron"],
                                  ["e", "helium", "electron"], ["b", "a", "c"],
                                  [f"type{i}" for i in rng.permutation(int(rng.integers(4, 30)))]))
        ev["particle_type"] = rng.choice(names, n) if n else np.zeros(0, "U6")
        if n and gen.chance(rng, 0.4):
            # concatenated samples of very different size
            n_last = max(1, int(n * gen.pick(rng, 0.5, 0.1, 0.0)))
            ev["particle_type"] = np.repeat(names[[0, -1]], [n - n_last, n_last])
    if "weight" in ev.colnames:
        gen.vary_weights(rng, ev)
    if n > 5 and gen.chance(rng, 0.02):
        # a long list, in which the last few may be the only ones of their kind
        n_first = int(rng.integers(5_000, 40_000))
        first = rng.choice(np.flatnonzero(ev["particle_type"] == ev["particle_type"][0]) if "particle_type" in ev.colnames
                           else np.arange(n), n_first)
        ev = ev[np.append(first, np.arange(n))]
    if key == "reco_energy" and gen.chance(rng, 0.5):
        ctx.call(create_histogram_table, ev, edges)
    else:
        ctx.call(create_histogram_table, ev, edges, key=key)


# ---------------------------------------------------------------------------

B03 = Prop(
    "B03",
    "Bin edges: logarithmic bins, overflow bins, joining and splitting are exact",
    "Logarithmic energy bins start exactly at the minimum energy, are equally spaced in the logarithm "
    "with the requested number of bins per decade, keep the unit of the minimum and end at the last such "
    "edge not above the maximum, which is included if it is a whole number of steps away. Adding overflow bins keeps the "
    "edges and prepends zero (or minus infinity) and appends infinity only where not yet covered, so it is "
    "idempotent. Splitting edges into lower and upper edges and joining them again restores the edges along "
    "the last axis, edges which do not match are rejected, and bin centers are the midpoints.",
    ["inputs"],
    "all energy ranges, units, bins per decade, edge arrays of any dimension, with and without units",
    "Tests check one range per function with the same unit for both ends.",
    ["pyirf/binning.py"],
    [("create_bins_per_decade", "pyirf/binning.py"), ("add_overflow_bins", "pyirf/binning.py"),
     ("join_bin_lo_hi / split_bin_lo_hi", "pyirf/binning.py")],
    "a case is a random range or edge array; counted by its numbers",
    "edges closer than 1e-3 steps (but not equal) to the maximum energy are not judged",
    observe_at=["pyirf.binning"],
)


@B03.monitor("pyirf.binning:create_bins_per_decade")
def _post_bins(ctx, call):
    if call.error is not None:
        return
    a = call.bind("e_min", "e_max", bins_per_decade=5)
    lo, hi, n = a["e_min"], a["e_max"], a["bins_per_decade"]
    r = call.result
    ctx.check(r.unit == lo.unit, "unit of the minimum energy is not kept", got=r.unit)
    ratio = n * np.log10((hi / lo).to_value(u.one))
    frac = ratio - np.floor(ratio + 1e-9)
    if frac > 1 - 1e-3:
        ctx.skip("maximum too close to an edge")
        return
    k = int(np.floor(ratio + 1e-9))
    want = lo.value * 10 ** (np.arange(k + 1) / n)
    ctx.close(r.value, want, "logarithmic bins", rtol=1e-9, e_min=lo, e_max=hi, bins_per_decade=n)
    ctx.nontrivial(float(lo.value), float(hi.value), n)


@B03.monitor("pyirf.binning:add_overflow_bins")
def _post_overflow(ctx, call):
    if call.error is not None:
        return
    a = call.bind("bins", positive=True)
    bins, pos = a["bins"], a["positive"]
    r = call.result
    unit = getattr(bins, "unit", None)
    ctx.check(getattr(r, "unit", None) == unit, "unit changed")
    b = bins.value if unit is not None else np.asarray(bins)
    got = r.value if unit is not None else np.asarray(r)
    lower = 0.0 if pos else -np.inf
    want = b.astype(float)
    if want[0] > lower:
        want = np.insert(want, 0, lower)
    if want[-1] < np.inf:
        want = np.append(want, np.inf)
    ctx.close(got, want, "overflow bins", rtol=0)
    ctx.nontrivial(b, pos)


@B03.monitor("pyirf.binning:split_bin_lo_hi")
def _post_split(ctx, call):
    if call.error is not None:
        return
    b = u.Quantity(call.bind("bins")["bins"])
    lo, hi = (u.Quantity(x) for x in call.result)
    ctx.check(lo.unit == b.unit and hi.unit == b.unit, "unit changed")
    ctx.close(lo.value, b.value[..., :-1], "lower edges", rtol=0)
    ctx.close(hi.value, b.value[..., 1:], "upper edges", rtol=0)


@B03.monitor("pyirf.binning:join_bin_lo_hi")
def _post_join(ctx, call):
    a = call.bind("bin_lo", "bin_hi")
    lo, hi = u.Quantity(a["bin_lo"]), u.Quantity(a["bin_hi"]).to(u.Quantity(a["bin_lo"]).unit)
    x, y = lo.value[..., 1:], hi.value[..., :-1]
    diff = np.abs(x - y)
    with np.errstate(all="ignore"):
        width = np.minimum(np.abs(hi.value - lo.value)[..., :-1], np.abs(hi.value - lo.value)[..., 1:])
    if (diff > 1e-3 * np.abs(y) + 1e-3 * np.where(np.isfinite(width), width, 0)).any():
        ctx.check(isinstance(call.error, ValueError), "edges that do not match were joined", lo=lo, hi=hi)
    elif (diff <= 1e-7 * np.abs(y)).all():
        if ctx.check(call.error is None, "matching edges rejected", lo=lo, hi=hi):
            r = u.Quantity(call.result)
            ctx.check(r.unit == lo.unit, "unit changed")
            ctx.close(r.value, np.concatenate([lo.value, hi.value[..., -1:]], axis=-1), "joined edges", rtol=1e-12)
            ctx.nontrivial(lo.value)


@B03.monitor("pyirf.binning:bin_center")
def _post_center(ctx, call):
    if call.error is not None:
        return
    e = u.Quantity(call.bind("edges")["edges"])
    r = u.Quantity(call.result)
    ctx.check(r.unit == e.unit, "unit changed")
    with np.errstate(all="ignore"):
        ctx.close(r.value, 0.5 * (e.value[1:] + e.value[:-1]), "bin centers", rtol=1e-12)


@B03.family(300)
def decades(ctx):
    from pyirf.binning import create_bins_per_decade, add_overflow_bins, bin_center

    rng = ctx.rng
    n = int(gen.pick(rng, 1, 2, 3, 4, 5, 7, 10, 20, 33))
    lo = 10 ** rng.uniform(-3, 1)
    if gen.chance(rng, 0.4):
        hi = lo * 10 ** (int(rng.integers(1, 60)) / n)
    elif gen.chance(rng, 0.5):
        lo, hi = 10.0 ** rng.integers(-3, 1), 10.0 ** rng.integers(2, 4)
    else:
        hi = lo * 10 ** rng.uniform(0.05, 4)
    e_min = u.Quantity(lo, u.TeV).to(gen.energy_unit(rng))
    e_max = u.Quantity(hi, u.TeV).to(gen.energy_unit(rng))
    if n == 5 and gen.chance(rng, 0.5):
        bins = ctx.call(create_bins_per_decade, e_min, e_max)
    else:
        bins = ctx.call(create_bins_per_decade, e_min, e_max, n)
    if len(bins) > 1:
        ctx.call(bin_center, bins)
        one = ctx.call(add_overflow_bins, bins)
        two = ctx.call(add_overflow_bins, one)
        ctx.close(two.value, one.value, "adding overflow bins twice", rtol=0)


@B03.family(300)
def edges(ctx):
    from pyirf.binning import add_overflow_bins, join_bin_lo_hi, split_bin_lo_hi, bin_center

    rng = ctx.rng
    n = gen.pick(rng, 1, 2, 3, 6) if not gen.chance(rng, 0.05) else int(rng.integers(10, 200))
    unit = gen.pick(rng, None, u.TeV, u.deg, u.GeV, u.J, u.rad)
    e = gen.increasing(rng, n + 1, gen.pick(rng, -3.0, 0.0, 0.5, 100.0), rng.uniform(200, 500))
    # energies in J are small numbers
    scale = gen.pick(rng, 1.0, 1.0, 1e-9, 1e-3, 1e6) if unit is not u.deg else 1.0
    e = e * scale
    if gen.chance(rng, 0.2):
        e[0] = -np.inf
    if gen.chance(rng, 0.2):
        e[-1] = np.inf

    def q(x):
        return x if unit is None else u.Quantity(x, unit)

    ctx.call(add_overflow_bins, q(e), positive=gen.chance(rng, 0.5))
    ctx.call(bin_center, q(e))
    shape = gen.pick(rng, (), (1,), (3,), (2, 3))
    f = e * (1 + np.arange(int(np.prod(shape)))).reshape(shape + (1,)) if shape else e
    lo, hi = ctx.call(split_bin_lo_hi, q(f))
    r = ctx.call(join_bin_lo_hi, lo, hi)
    ctx.close(u.Quantity(r).value, f, "split and join", rtol=0)
    if n > 1:
        bad = np.array(f)[..., 1:].copy()
        flat = bad.reshape(-1, n)
        row, col = int(rng.integers(len(flat))), int(rng.integers(n - 1))
        flat[row, col] += gen.pick(rng, 0.3, -0.3, 5.0) * scale * (1 if flat[row, col] < 100 * scale else 10)
        ctx.raises(ValueError, join_bin_lo_hi, lo, q(flat.reshape(bad.shape)), message="edges do not match")


# ---------------------------------------------------------------------------

B04 = Prop(
    "B04",
    "Resampling a histogram conserves its content",
    "Resampling a histogram onto new edges reproduces the content of every new bin whose edges coincide "
    "with old edges (so identical edges give the same histogram, merged bins give the sum, and edges covering the "
    "old range conserve the total), gives zero outside of the old range, and splitting any interval further never changes the summed content. "
    "A uniform density stays uniform, and scaling the histogram scales the result. "
    "Along the other axes the histogram is treated as independent slices, empty slices stay empty, "
    "and the unit of the data is kept while edges may have different compatible units.",
    ["inputs"],
    "all non-negative histograms (any dimension and axis, integer or float, empty slices) with at least two bins, "
    "all old and new edges including infinite ones and other units",
    "Tests resample one gaussian and compare approximately.",
    ["pyirf/binning.py"],
    [("resample_histogram1d", "pyirf/binning.py")],
    "a case is a random histogram and edges; non-trivial if it has content",
    "agreement to 1e-7 of the total per slice; the distribution inside of a bin is not specified",
    observe_at=["pyirf.binning.resample_histogram1d"],
)


@B04.monitor("pyirf.binning:resample_histogram1d")
def _post_resample(ctx, call):
    if call.error is not None:
        return
    a = call.bind("data", "old_edges", "new_edges", axis=0)
    data, axis = a["data"], a["axis"]
    r = call.result
    unit = getattr(data, "unit", None)
    ctx.check(getattr(r, "unit", None) == unit, "unit of the data changed", got=getattr(r, "unit", None))
    d = np.moveaxis(np.asarray(getattr(data, "value", data), float), axis, -1)
    old = u.Quantity(a["old_edges"])
    new = u.Quantity(a["new_edges"]).to_value(old.unit)
    old = old.value
    if not ctx.check(np.shape(r) == np.moveaxis(np.zeros(d.shape[:-1] + (len(new) - 1,)), -1, axis).shape,
                     "shape of the result", got=np.shape(r)):
        return
    got = np.moveaxis(np.asarray(getattr(r, "value", r), float), axis, -1)
    cum = np.concatenate([np.zeros(d.shape[:-1] + (1,)), d.cumsum(axis=-1)], axis=-1)
    width = old[-2] - old[1]
    old = old.copy()
    old[0] = old[1] - width if np.isneginf(old[0]) else old[0]
    old[-1] = old[-2] + width if np.isposinf(old[-1]) else old[-1]
    # cumulative content at those new edges where it is known
    known = np.full(d.shape[:-1] + (len(new),), np.nan)
    scale = old[-1] - old[0]
    for j, e in enumerate(new):
        if e <= old[0] + 1e-12 * scale:
            known[..., j] = 0
        elif e >= old[-1] - 1e-12 * scale:
            known[..., j] = cum[..., -1]
        else:
            i = int(np.argmin(np.abs(old - e)))
            if abs(old[i] - e) <= 1e-12 * scale:
                known[..., j] = cum[..., i]
    total = cum[..., -1:]
    gotcum = np.concatenate([np.zeros(d.shape[:-1] + (1,)), got.cumsum(axis=-1)], axis=-1)
    js = np.flatnonzero(np.isfinite(known).all(axis=tuple(range(known.ndim - 1)))) if known.size else []
    for j0, j1 in zip(js[:-1], js[1:]):
        diff = (gotcum[..., j1] - gotcum[..., j0]) - (known[..., j1] - known[..., j0])
        if not ctx.check((np.abs(diff) <= 1e-7 * total[..., 0] + 1e-300).all(), "content not conserved",
                  data=d, old=old, new=new, got=got, interval=(new[j0], new[j1])):
            return
    ctx.check(np.isfinite(got).all(), "result is not finite", got=got)
    zero = total[..., 0] == 0
    ctx.check((got[zero] == 0).all(), "empty slice does not stay empty")
    if total.any():
        ctx.nontrivial(d, old, new)


@B04.family(60)
def uniform_density(ctx):
    from pyirf.binning import resample_histogram1d

    rng = ctx.rng
    n, m, k = int(rng.integers(2, 12)), int(rng.integers(1, 12)), int(rng.integers(1, 4))
    if gen.chance(rng, 0.15):
        n = int(rng.integers(12, 300))
    low = rng.uniform(-5, 5)
    old = gen.increasing(rng, n + 1, low, low + 10 ** rng.uniform(-1, 2))
    w = old[-1] - old[0]
    new = np.sort(rng.uniform(old[0] - 0.3 * w, old[-1] + 0.3 * w, m + 1))
    density = 10 ** rng.uniform(-6, 6, k)
    overlap = np.diff(np.clip(new, old[0], old[-1]))
    q, unit = (u.Quantity(new, "TeV"), u.TeV) if gen.chance(rng, 0.4) else (new, u.one)
    if unit is u.TeV:
        q = q.to(gen.energy_unit(rng))
    r = ctx.call(resample_histogram1d, density * np.diff(old)[:, None], u.Quantity(old, unit) if unit is u.TeV else old, q, axis=0)
    ctx.close(r, overlap[:, None] * density, "resampling of a uniform density", rtol=1e-6, atol=1e-8 * density.max() * w)
    ctx.nontrivial(old, new, density)


@B04.family(400)
def histograms(ctx):
    from pyirf.binning import resample_histogram1d

    rng = ctx.rng
    n = gen.pick(rng, 2, 3, 4, 6, 10) if not gen.chance(rng, 0.06) else int(rng.integers(12, 300))
    ndim = gen.pick(rng, 1, 1, 2, 3)
    axis = int(rng.integers(ndim))
    shape = [int(rng.integers(1, 4)) for _ in range(ndim)]
    shape[axis] = n
    data = rng.integers(0, 20, shape)
    if gen.chance(rng, 0.6):
        data = data * 10 ** rng.uniform(-8, 8) * rng.random(shape)
    if gen.chance(rng, 0.3):
        d = np.moveaxis(data, axis, -1)
        d[rng.random(d.shape[:-1]) < 0.5] = 0
    unit = gen.pick(rng, None, None, u.Unit("m2"), u.Unit("1/TeV"), u.one, u.percent)
    if unit is not None:
        data = u.Quantity(data, unit)
    low = rng.uniform(-3, 1)
    old = gen.increasing(rng, n + 1, low, low + rng.uniform(1, 30))
    kind = gen.pick(rng, "same", "subset", "cover", "finer", "random", "inside")
    if kind == "same":
        new = old.copy()
    elif kind == "subset":
        keep = rng.random(n + 1) < 0.5
        keep[[0, -1]] = True
        new = old[keep]
    elif kind == "cover":
        new = np.concatenate([[old[0] - 1.5], rng.uniform(old[0], old[-1], 3), [old[-1] + 0.7, old[-1] + 3]])
        new.sort()
        if gen.chance(rng, 0.3):
            new[0], new[-1] = -np.inf, np.inf
    elif kind == "finer":
        new = np.sort(np.concatenate([old, 0.5 * (old[1:] + old[:-1]), old[:-1] + 0.1 * np.diff(old)]))
    elif kind == "inside":
        new = np.sort(rng.uniform(old[0], old[-1], 5))
        new = np.append(new, old[-1])
    else:
        w = old[-1] - old[0]
        new = np.sort(np.concatenate([rng.uniform(old[0] - w, old[-1] + w, 6), old[1:3]]))
    o = old.copy()
    if n >= 4 and gen.chance(rng, 0.25):
        o[0] = -np.inf
    if n >= 4 and gen.chance(rng, 0.25):
        o[-1] = np.inf
    if gen.chance(rng, 0.5):
        eu = u.Unit("TeV")
        o = u.Quantity(o, eu)
        new_q = u.Quantity(new, eu)
        if gen.chance(rng, 0.5):
            new_q = new_q.to("GeV")
        elif gen.chance(rng, 0.3):
            # the numbers of the old edges in another unit
            new_q = u.Quantity(old.copy(), gen.pick(rng, "GeV", "erg"))
            new = new_q.to_value(eu)
    else:
        new_q = new
    args = (data, o, new_q)
    if axis == 0 and gen.chance(rng, 0.5):
        full = ctx.call(resample_histogram1d, *args)
    else:
        full = ctx.call(resample_histogram1d, *args, axis=gen.pick(rng, axis, axis - ndim))
    # slices are independent
    if ndim > 1:
        d = np.moveaxis(np.asarray(getattr(data, "value", data)), axis, -1)
        f = np.moveaxis(np.asarray(getattr(full, "value", full)), axis, -1)
        i = tuple(int(rng.integers(k)) for k in d.shape[:-1])
        one = ctx.call(resample_histogram1d, d[i], o, new_q, axis=0)
        ctx.close(f[i], one, "slice treated on its own", rtol=1e-6, atol=1e-7 * abs(float(d[i].sum())) + 1e-300)
    # scaling
    factor = 10 ** rng.uniform(-6, 6)
    scaled = ctx.call(resample_histogram1d, data * factor, o, new_q, axis=axis)
    f = np.asarray(getattr(full, "value", full), float)
    ctx.close(np.asarray(getattr(scaled, "value", scaled), float), factor * f, "resampling of a scaled histogram", rtol=1e-6, atol=1e-9 * factor * np.abs(f).max(initial=0) + 1e-300)
    # merging new bins never changes the content
    if len(new) > 3:
        j = int(rng.integers(1, len(new) - 1))
        merged = ctx.call(resample_histogram1d, data, o, np.delete(new_q, j) if not hasattr(new_q, "unit")
                          else u.Quantity(np.delete(new_q.value, j), new_q.unit), axis=axis)
        m = np.moveaxis(np.asarray(getattr(merged, "value", merged)), axis, -1)
        f = np.moveaxis(np.asarray(getattr(full, "value", full)), axis, -1)
        scale = np.abs(f).sum()
        ctx.close(m[..., j - 1], f[..., j - 1] + f[..., j], "splitting a bin changes the content",
                  rtol=1e-6, atol=1e-7 * scale + 1e-300)


pipeline.attach(B01, "sensitivity", "responses")
pipeline.attach(B02, "sensitivity")
pipeline.attach(B03, "sensitivity", "responses")
pipeline.attach(B04, "responses")
