"""Binned cuts: percentiles, evaluation, comparison"""
import operator

import numpy as np
import astropy.units as u
from astropy.table import QTable

from ..core import Prop
from .. import gen, ref, pipeline

C01 = Prop(
    "C01",
    "Percentile cuts are the percentile of exactly the events in each bin",
    "For every bin, the cut is the requested percentile (linear between ranks, nan ignored) of the values "
    "of exactly the events whose bin value lies in the half-open bin, limited to the given minimum "
    "and maximum, and the number of events is their count; bins with fewer than the minimum number of events get the "
    "fill value instead. One column per percentile is returned if a list of percentiles is given, each "
    "equal to the cut for that percentile alone; smoothing is a Gaussian filter of the cuts along the bins only. "
    "The result is in the unit of the values, with bin edges and centers as given, for any compatible units of the limits and bins, and integer "
    "values do not truncate the cuts.",
    ["inputs"],
    "all values and bin values (any length, also empty, with nan, integers, single precision, units), bins, percentiles "
    "(scalar or list), limits, fill values, event minimum and smoothing widths",
    "Tests use a few normal distributions with two or three bins and approximate comparison.",
    ["pyirf/cuts.py"],
    [("calculate_percentile_cut", "pyirf/cuts.py")],
    "a case is a random sample with random options, judged against a sort-based percentile; "
    "non-trivial if a bin has enough events",
    "bin values too close to an edge after unit conversion are not judged; 1e-9 relative (1e-5 single precision)",
    observe_at=["pyirf.cuts.calculate_percentile_cut"],
)


@C01.monitor("pyirf.cuts:calculate_percentile_cut")
def _post_percentile(ctx, call):
    if call.error is not None:
        return
    a = call.bind("values", "bin_values", "bins", "fill_value", percentile=68, min_value=None,
                  max_value=None, smoothing=None, min_events=10)
    t = call.result
    values, bv, bins = a["values"], a["bin_values"], a["bins"]
    single = np.asarray(values).dtype == np.float32
    unit = getattr(values, "unit", None)

    def num(x):
        if x is None:
            return None
        return u.Quantity(x).to_value(unit) if unit is not None else float(x)

    x = np.asarray(getattr(values, "value", values), float)
    if hasattr(bv, "unit") and bv.unit is not None:
        e = bins.to_value(bv.unit)
        b = np.asarray(bv.value, float)
        fuzzy = 0 if bins.unit == bv.unit else (1e-5 if bv.dtype == np.float32 else 1e-9)
    else:
        b, e, fuzzy = np.asarray(bv, float), np.asarray(bins, float), 0
    n_bins = len(e) - 1
    ctx.check(len(t) == n_bins, "one row per bin")
    bq = u.Quantity(bins)
    for c, w in (("low", bq.value[:-1]), ("high", bq.value[1:]), ("center", 0.5 * (bq.value[1:] + bq.value[:-1]))):
        with np.errstate(all="ignore"):
            ctx.close(u.Quantity(t[c]).to_value(bq.unit), w, f"{c} of the bins", rtol=1e-12)
    if fuzzy and gen.near_edge(b, e, fuzzy).any():
        ctx.skip("value too close to an edge")
        return
    q = np.asarray(a["percentile"], float)
    idx = gen.bin_of(b, e)
    n = np.bincount(idx[idx >= 0], minlength=n_bins)
    ctx.check(np.array_equal(np.asarray(t["n_events"]), n), "number of events per bin", got=t["n_events"], want=n)
    lo, hi, fill = num(a["min_value"]), num(a["max_value"]), num(a["fill_value"])
    want = np.full((n_bins,) + q.shape, np.nan)
    known = np.ones(want.shape, bool)  # the rank and the next one are not infinite
    for i in range(n_bins):
        if n[i] < max(a["min_events"], 1):
            want[i] = fill
            continue
        with np.errstate(invalid="ignore"):
            v = np.array([ref.percentile(x[idx == i], p) for p in np.atleast_1d(q)])
        if np.isinf(x[idx == i]).any():
            known[i] = np.isfinite(v) if q.shape else np.isfinite(v[0])
        if lo is not None:
            v = np.where(v < lo, lo, v)
        if hi is not None:
            v = np.where(v > hi, hi, v)
        want[i] = v if q.shape else v[0]
    if a["smoothing"] is not None:
        if not known.all():
            ctx.skip("percentile next to infinite values")
            return
        want = ref.gaussian_filter_nearest(want, a["smoothing"])
    cut = t["cut"]
    if unit is not None:
        if not ctx.check(getattr(cut, "unit", None) == unit, "unit of the values is not kept", got=getattr(cut, "unit", None)):
            return
        cut = cut.value
    rtol = 1e-5 if single else 1e-9
    scale = np.nanmax(np.abs(want[known])) if np.isfinite(want[known]).any() else 0
    ctx.check(np.shape(cut) == want.shape, "shape of the cuts", got=np.shape(cut), want=want.shape)
    ctx.close(np.asarray(cut)[known], want[known], "percentile cut", rtol=rtol, atol=(1e-6 if single else 1e-12) * scale, n_events=n,
              options={k: a[k] for k in ("percentile", "min_value", "max_value", "smoothing", "min_events", "fill_value")})
    if (n >= a["min_events"]).any() and n.any():
        ctx.nontrivial(x, e, q, str(a["smoothing"]))


@C01.family(500)
def random_samples(ctx):
    from pyirf.cuts import calculate_percentile_cut

    rng = ctx.rng
    n = int(gen.pick(rng, 0, 3, 20, 60, 150, 400)) if not gen.chance(rng, 0.003) else int(rng.integers(70_000, 200_000))
    energy = gen.chance(rng, 0.6)
    if energy:
        bins = gen.energy_edges(rng, n=gen.many(rng), overflow=gen.chance(rng, 0.15))
        bv = gen.values_in(rng, bins, n, nan=0.02)
        if gen.chance(rng, 0.4):
            bv = bv.to(gen.energy_unit(rng))
        elif n:
            m = rng.random(n) < 0.2
            bv[m] = rng.choice(bins.value, m.sum()) * bins.unit
    else:
        bins = gen.increasing(rng, gen.pick(rng, 2, 3, 6), -1.0, 3.0)
        bv = rng.uniform(-1.5, 3.5, n)
        m = rng.random(n) < 0.3
        bv[m] = rng.choice(bins, m.sum())
        if gen.chance(rng, 0.3):
            bins, bv = np.arange(0, 6, gen.pick(rng, 1, 2)), rng.integers(-1, 7, n)
    if gen.chance(rng, 0.08):
        # nearly all events in one bin
        k = int(rng.integers(1000, 8000))
        i = int(rng.integers(len(bins) - 1))
        lo, hi = (u.Quantity(b) for b in (bins[i], bins[i + 1]))
        if np.isfinite(hi.value):
            x = u.Quantity(rng.uniform(lo.value * 0.99 + hi.value * 0.01, lo.value * 0.01 + hi.value * 0.99, k), lo.unit)
            x = np.concatenate([u.Quantity(bv), x]).to(u.Quantity(bv).unit)
            rng.shuffle(x)
            bv = x if energy else x.value
            n = len(bv)
    kind = gen.pick(rng, "float", "float", "angle", "angle", "int", "float32", "angle32")
    if energy and gen.chance(rng, 0.04):
        kind = "same"
    opts = {}
    if "angle" in kind:
        values = u.Quantity(np.abs(rng.normal(0, rng.uniform(0.02, 1), n)), u.deg).to(gen.angle_unit(rng))
        if kind == "angle32":
            values = gen.f32(values)

        def val(x):
            return u.Quantity(x, u.deg).to(gen.angle_unit(rng))
    elif kind == "same":
        # cut in the quantity it depends on
        values = bv

        def val(x):
            return u.Quantity(x, u.TeV).to(gen.energy_unit(rng))
    elif kind == "int":
        values = rng.integers(0, 30, n)

        def val(x):
            return float(x)
    else:
        values = rng.normal(0, 1, n) * 10 ** rng.uniform(-3, 3)
        if kind == "float32":
            values = values.astype(np.float32)

        def val(x):
            return float(x)
    if kind in ("float", "angle") and n and gen.chance(rng, 0.3):
        values[rng.random(n) < 0.1] = np.nan * getattr(values, "unit", 1)
        if gen.chance(rng, 0.4):
            values[rng.random(n) < gen.pick(rng, 0.02, 0.1, 0.4)] = gen.pick(rng, np.inf, -np.inf) * getattr(values, "unit", 1)
    fill = val(rng.uniform(0.1, 2))
    if gen.chance(rng, 0.8):
        opts["percentile"] = gen.pick(
            rng, 0, 100, 50, 68, 5.5, rng.uniform(0, 100), [10, 50, 90.0], np.array([68.0]),
            list(rng.uniform(0, 100, 4)), [100.0, 0.0],
            np.linspace(0, 100, int(rng.integers(5, 200))) if gen.chance(rng, 0.2) else 68.0,
        )
    if gen.chance(rng, 0.4):
        opts["min_value"] = val(rng.uniform(0.0, 0.3))
    if gen.chance(rng, 0.4):
        opts["max_value"] = val(rng.uniform(0.35, 2))
    if gen.chance(rng, 0.15):
        # a single limit of exactly zero
        for k in ("min_value", "max_value"):
            opts.pop(k, None)
        opts[gen.pick(rng, "min_value", "max_value")] = val(0.0)
    if gen.chance(rng, 0.35):
        opts["smoothing"] = gen.pick(rng, 1, 0.5, 2, rng.uniform(0.3, 3))
    if gen.chance(rng, 0.7):
        opts["min_events"] = int(gen.pick(rng, 0, 1, 2, 5, 15, 1000))
    ctx.call(calculate_percentile_cut, values, bv, bins, fill, **opts)


@C01.family(150)
def single_percentiles(ctx):
    """A list of percentiles is the same as each one on its own"""
    from pyirf.cuts import calculate_percentile_cut

    rng = ctx.rng
    bins = gen.energy_edges(rng)
    n = int(gen.pick(rng, 50, 200, 600))
    bv = gen.values_in(rng, bins, n)
    values = rng.normal(5, 2, n)
    q = sorted(rng.uniform(0, 100, 3))
    opts = dict(min_events=int(gen.pick(rng, 1, 10)), smoothing=gen.pick(rng, None, 1.0))
    many = ctx.call(calculate_percentile_cut, values, bv, bins, 1.0, percentile=q, **opts)
    for i, p in enumerate(q):
        one = ctx.call(calculate_percentile_cut, values, bv, bins, 1.0, percentile=p, **opts)
        ctx.close(many["cut"][:, i], one["cut"], "list of percentiles differs from single percentile", rtol=1e-12)
    if opts["smoothing"] is None:
        ok = many["n_events"] >= opts["min_events"]
        ctx.check((np.diff(many["cut"][ok], axis=1) >= 0).all(), "cuts do not increase with the percentile")


# ---------------------------------------------------------------------------

C02 = Prop(
    "C02",
    "A binned cut selects exactly the events passing the cut of their bin",
    "An event passes a binned cut exactly if its bin value lies in the half-open range of one of the bins of the cut table and the "
    "comparison of its value with the cut of that bin is true; events outside of all bins, or with nan "
    "bin values, never pass. This holds for any comparison, any compatible units of values, bins and cuts, and "
    "for evaluation with precomputed bin indices; plain tables, which would ignore units, are rejected.",
    ["inputs"],
    "all events, cut tables (any number of bins, also with infinite edges), comparisons and units",
    "Tests evaluate a table of three bins on a handful of values with one operator.",
    ["pyirf/cuts.py"],
    [("evaluate_binned_cut", "pyirf/cuts.py"), ("evaluate_binned_cut_by_index", "pyirf/cuts.py")],
    "a case is a random cut table and sample judged event by event; non-trivial if at least one event passes and one fails",
    "values that agree with an edge or cut only up to unit conversion rounding are not judged",
    observe_at=["pyirf.cuts.evaluate_binned_cut"],
)


def _judge_selection(ctx, values, idx, sure, cut, op, result):
    got = np.asarray(result)
    ctx.check(got.dtype == bool and got.shape == idx.shape, "result is not a mask", got=got)
    unit = getattr(cut, "unit", None)
    if unit is not None:
        c, v = cut.value, values.to_value(unit)
        same = values.unit == unit
    else:
        c, v, same = np.asarray(cut), np.asarray(values), True
    c, v = np.asarray(c, float), np.asarray(v, float)
    want = np.zeros(len(idx), bool)
    for k in range(len(idx)):
        if idx[k] >= 0:
            want[k] = bool(op(v[k], c[idx[k]]))
            if not same and abs(v[k] - c[idx[k]]) <= 1e-5 * abs(c[idx[k]]):
                sure[k] = False
    ctx.check(np.all((got == want)[sure]), "wrong selection of events",
              bad=np.flatnonzero((got != want) & sure)[:10], values=v[sure], bin=idx[sure], cut=c, got=got[sure])
    if want.any() and not want.all():
        ctx.nontrivial(v, c, getattr(op, "__name__", "op"))


@C02.monitor("pyirf.cuts:evaluate_binned_cut")
def _post_evaluate(ctx, call):
    a = call.bind("values", "bin_values", "cut_table", "op")
    t = a["cut_table"]
    if not isinstance(t, QTable):
        ctx.check(isinstance(call.error, ValueError), "plain table accepted")
        return
    if call.error is not None:
        return
    bv = a["bin_values"]
    if hasattr(t["low"], "unit") and t["low"].unit is not None:
        e = np.append(t["low"].value, t["high"].to_value(t["low"].unit)[-1])
        b = np.asarray(bv.to_value(t["low"].unit), float)
        sure = np.ones(len(b), bool) if bv.unit == t["low"].unit else ~gen.near_edge(b, e, 1e-5 if bv.dtype == np.float32 else 1e-9)
    else:
        e = np.append(np.asarray(t["low"]), t["high"][-1])
        b = np.asarray(bv, float)
        sure = np.ones(len(b), bool)
    _judge_selection(ctx, a["values"], gen.bin_of(b, e), sure, t["cut"], a["op"], call.result)


@C02.monitor("pyirf.cuts:evaluate_binned_cut_by_index")
def _post_evaluate_index(ctx, call):
    a = call.bind("values", "bin_index", "valid", "cut_table", "op")
    if not isinstance(a["cut_table"], QTable):
        ctx.check(isinstance(call.error, ValueError), "plain table accepted")
        return
    if call.error is not None:
        return
    idx = np.where(a["valid"], a["bin_index"], -1)
    _judge_selection(ctx, a["values"], idx, np.ones(len(idx), bool), a["cut_table"]["cut"], a["op"], call.result)


@C02.family(500)
def random_cuts(ctx):
    from pyirf.cuts import evaluate_binned_cut, evaluate_binned_cut_by_index, calculate_percentile_cut
    from pyirf.binning import calculate_bin_indices

    rng = ctx.rng
    n = gen.n_events(rng)
    bins = gen.energy_edges(rng, n=gen.many(rng), overflow=gen.chance(rng, 0.2))
    nb = len(bins) - 1
    kind = gen.pick(rng, "angle", "score", "int")
    if kind == "angle":
        values = u.Quantity(np.abs(rng.normal(0, 0.2, n)), u.deg)
        cut = u.Quantity(rng.uniform(0.02, 0.4, nb), u.deg)
        if gen.chance(rng, 0.4):
            cut = cut.to(gen.angle_unit(rng))
        else:
            m = rng.random(n) < 0.3
            values[m] = u.Quantity(rng.choice(cut.value, m.sum()), u.deg)
    else:
        values = rng.uniform(-1, 1, n)
        cut = rng.uniform(-1, 1, nb)
        if kind == "int":
            values, cut = rng.integers(0, 6, n), rng.integers(0, 6, nb)
            if gen.chance(rng, 0.5):
                cut = rng.choice([0.5, 1.5, 2.0, 2.5, 4.999], nb)
            elif gen.chance(rng, 0.3):
                values = values.astype(gen.pick(rng, np.uint8, np.int16, np.float32))
                cut = cut - 2
        else:
            m = rng.random(n) < 0.3
            values[m] = rng.choice(cut, m.sum())
    if n and kind != "int" and gen.chance(rng, 0.2):
        values[rng.random(n) < 0.1] = np.nan * getattr(values, "unit", 1)
    if gen.chance(rng, 0.15) and kind != "int":
        cut[int(rng.integers(nb))] = np.nan * getattr(cut, "unit", 1)
    bv = gen.values_in(rng, bins, n, out=0.3, nan=0.03)
    if gen.chance(rng, 0.3):
        bv = bv.to(gen.energy_unit(rng))
    elif n:
        m = rng.random(n) < 0.3
        bv[m] = rng.choice(bins.value, m.sum()) * bins.unit
    t = QTable({"low": bins[:-1], "high": bins[1:], "center": 0.5 * (bins[1:] + bins[:-1]), "cut": cut})
    if gen.chance(rng, 0.2):
        t["high"] = t["high"].to(gen.energy_unit(rng))
    op = gen.pick(rng, operator.le, operator.lt, operator.ge, operator.gt, operator.eq, operator.ne,
                  lambda a, b: ~(a > b))
    mask = ctx.call(evaluate_binned_cut, values, bv, t, op)
    edges = np.append(t["low"], t["high"][-1])
    idx, valid = ctx.call(calculate_bin_indices, bv, edges)
    by = ctx.call(evaluate_binned_cut_by_index, values, idx, valid, t, op)
    ctx.check(np.array_equal(mask, by), "precomputed index gives another selection")
    if gen.chance(rng, 0.1):
        from astropy.table import Table

        plain = Table(t)
        if not isinstance(plain, QTable):
            ctx.raises(ValueError, evaluate_binned_cut, values, bv, plain, op, message="plain table")
            ctx.raises(ValueError, evaluate_binned_cut_by_index, values, idx, valid, plain, op, message="plain table")


@C02.family(150)
def efficiency(ctx):
    """Applying a percentile cut to its own events keeps the percentile"""
    from pyirf.cuts import evaluate_binned_cut, calculate_percentile_cut

    rng = ctx.rng
    bins = gen.energy_edges(rng)
    n = int(gen.pick(rng, 100, 400, 1000))
    bv = gen.values_in(rng, bins, n, out=0)
    values = rng.normal(0, 1, n)
    p = float(rng.uniform(5, 95))
    t = ctx.call(calculate_percentile_cut, values, bv, bins, 0.0, percentile=p, min_events=1)
    mask = ctx.call(evaluate_binned_cut, values, bv, t, operator.le)
    idx = gen.bin_of(bv.value, bins.value)
    for i in range(len(bins) - 1):
        m = idx == i
        k = int(m.sum())
        if k:
            passed = int(mask[m].sum())
            want = p / 100 * (k - 1) + 1
            ctx.check(np.floor(want) - 1e-6 <= passed <= want + 1e-6 or abs(passed - want) < 1,
                      "fraction of selected events does not match the percentile", passed=passed, of=k, percentile=p)


# ---------------------------------------------------------------------------

C03 = Prop(
    "C03",
    "Cut tables compare equal exactly if all their bins, cuts and units agree",
    "The comparison of a list of cut tables is true exactly if all tables have the same "
    "columns and number of rows and agree in every entry as physical quantities, so a difference in "
    "a single entry, unit, column or row anywhere in the list makes it false. The order of the "
    "tables does not matter.",
    ["inputs"],
    "all lists of cut tables (1 to 5 tables), with one difference planted at any table, column and row",
    "Tests compare two or three fixed tables.",
    ["pyirf/cuts.py"],
    [("compare_irf_cuts", "pyirf/cuts.py")],
    "a case is a random list of tables with or without a planted difference; counted by content and position",
    "nan cuts are not compared",
    observe_at=["pyirf.cuts.compare_irf_cuts"],
)


def _same(a, b):
    if len(a) != len(b) or set(a.colnames) != set(b.colnames):
        return False
    for c in a.colnames:
        x, y = u.Quantity(a[c]), u.Quantity(b[c])
        if not x.unit.is_equivalent(y.unit) or x.shape != y.shape:
            return False
        if not np.array_equal(x.value, y.to_value(x.unit)):
            return False
    return True


@C03.monitor("pyirf.cuts:compare_irf_cuts")
def _post_compare(ctx, call):
    if call.error is not None:
        return
    cuts = list(call.bind("cuts")["cuts"])
    want = all(_same(a, b) for i, a in enumerate(cuts) for b in cuts[i + 1:])
    ctx.check(bool(call.result) == want, "wrong result of the comparison", got=call.result, want=want,
              cuts=cuts)
    ctx.nontrivial(len(cuts), want, *[u.Quantity(c["cut"]).value for c in cuts])


@C03.family(400)
def planted_difference(ctx):
    from pyirf.cuts import compare_irf_cuts

    rng = ctx.rng
    bins = gen.energy_edges(rng, n=gen.many(rng), unit=gen.pick(rng, u.TeV, u.GeV))
    cut = rng.uniform(0.02, 0.4, len(bins) - 1)
    if gen.chance(rng, 0.2):
        cut = rng.uniform(0, 1, (len(bins) - 1, 2))
    unit = gen.pick(rng, u.deg, u.deg, u.rad, None)
    n = int(rng.integers(1, 6) if not gen.chance(rng, 0.06) else rng.integers(6, 60))
    kind = gen.pick(rng, "none", "cut", "low", "unit", "column", "rows", "scaled", "dtype", "high", "center", "swapped", "converted", "empty")
    if n == 1:
        kind = "none"
    tables = []
    where = {int(rng.integers(n))}
    if n > 2 and gen.chance(rng, 0.3):  # the same difference in several tables
        where |= {int(i) for i in rng.integers(n, size=int(rng.integers(1, n)))}
        if len(where) == n:
            where.pop()
    row = int(rng.integers(len(bins) - 1))
    factor = 1 + gen.pick(rng, 1e-10, 1e-3, 1.0)
    columns, other = gen.chance(rng, 0.5), gen.pick(rng, u.GeV, u.PeV, u.TeV)
    for i in range(n):
        t = QTable({"low": bins[:-1], "high": bins[1:], "center": 0.5 * (bins[1:] + bins[:-1]),
                    "cut": cut.copy() if unit is None else u.Quantity(cut.copy(), unit)})
        if i in where:
            if kind in ("cut", "low", "high", "center"):
                col = t[kind]
                if col.ndim == 2:
                    col[row, -1] *= factor
                else:
                    col[row] = col[row] * factor
            elif kind == "unit":
                t["cut"] = u.Quantity(cut, u.arcmin if unit is not None else u.deg)
            elif kind == "column":
                if columns:
                    t["n_events"] = 3
                else:
                    del t["center"]
            elif kind == "rows":
                t = t[:-1]
            elif kind == "empty":
                t = t[:0]
            elif kind == "swapped":  # the same numbers in another order
                t["cut"] = t["cut"][::-1]
            elif kind == "converted":
                for c in ("low", "high", "center"):
                    new = t[c].to(other)
                    if np.array_equal(new.to_value(t[c].unit), t[c].value):
                        t[c] = new
            elif kind == "scaled":
                # other representation of the same value, exact
                t["cut"] = t["cut"] * 1.0
        tables.append(t)
    r = ctx.call(compare_irf_cuts, tables)
    perm = [tables[i] for i in rng.permutation(n)]
    ctx.check(bool(ctx.call(compare_irf_cuts, perm)) == bool(r), "result depends on the order of the tables")
    same = kind in ("none", "scaled", "dtype", "converted") or kind == "swapped" and np.array_equal(cut, cut[::-1])
    ctx.check(bool(r) == same, f"planted difference ({kind}) not judged right", got=r)


pipeline.attach(C01, "cuts")
pipeline.attach(C02, "cuts")
