BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"

bug("b01-uniform-fast", "B01", [(P + "binning.py", "    idx = np.digitize(data, bins) - 1\n", """    width = np.diff(bins)
    if n_bins > 1 and np.all(np.isfinite(bins)) and np.allclose(width, width[0], atol=0) and np.all(np.isfinite(data)):
        # much faster for uniform bins
        idx = np.floor((data - bins[0]) / width[0]).astype(np.int64)
        idx = np.clip(idx, -1, n_bins)
    else:
        idx = np.digitize(data, bins) - 1
""")],
"""
from pyirf.binning import calculate_bin_indices
b = np.linspace(0, 1, 11)
idx, valid = calculate_bin_indices(b[:-1], b)
assert idx.tolist() == list(range(10)) and valid.all(), idx
""", "uniform bins and values exactly on edges that are not exact in binary", "values on edges fall into the bin below")

bug("b01-inf-data", "B01", [(P + "binning.py", "    overflow = idx >= n_bins\n", "    overflow = (idx >= n_bins) & (data != bins[-1])\n    idx = np.where(data == bins[-1], n_bins - 1, idx)\n")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(np.array([1.0, 3.0]), np.array([1.0, 2.0, 3.0]))
assert valid.tolist() == [True, False], valid
idx, valid = calculate_bin_indices(np.array([1.0, np.inf]), np.array([1.0, 2.0, np.inf]))
assert valid.tolist() == [True, False], valid
""", "values exactly at the last edge", "the last bin includes its upper edge")

bug("b02-type-outside", "B02", [(P + "binning.py", '            hist["n_" + particle], _ = np.histogram(group[key], bins)\n', '            n_particle, _ = np.histogram(group[key], bins)\n            if not np.any(n_particle):\n                continue\n            hist["n_" + particle] = n_particle\n')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [1.5, 8] * u.TeV, "particle_type": ["gamma", "proton"]})
h = create_histogram_table(e, [1, 2, 4] * u.TeV)
assert h["n_proton"].tolist() == [0, 0]
""", "a particle type with all events outside of the bins", "the columns of this type are missing")

bug("b02-unsorted-types", "B02", [(P + "binning.py", '        by_particle = events.group_by("particle_type")\n\n        for group_key, group in zip(by_particle.groups.keys, by_particle.groups):\n            particle = group_key["particle_type"]\n',
'''        # groups are contiguous, no need to copy the table to sort it
        types = np.asarray(events["particle_type"])
        start = np.append(0, np.flatnonzero(types[1:] != types[:-1]) + 1)
        for first, last in zip(start, np.append(start[1:], len(events))):
            group = events[first:last]
            particle = types[first]
''')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [1.5, 1.5, 3] * u.TeV, "particle_type": ["gamma", "proton", "gamma"]})
h = create_histogram_table(e, [1, 2, 4] * u.TeV)
assert h["n_gamma"].tolist() == [1, 1], h["n_gamma"]
""", "events of different types in mixed order", "only the last run of events of a type is counted")

bug("b02-last-edge", "B02", [(P + "binning.py", '    hist = QTable()\n    hist[key + "_low"] = bins[:-1]\n', '    # no need to sort events outside of the bins by their type\n    _, inside = calculate_bin_indices(events[key], bins)\n    events = events[inside]\n\n    hist = QTable()\n    hist[key + "_low"] = bins[:-1]\n')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [1, 2, 4] * u.TeV, "weight": [1.0, 2.0, 3.0]})
h = create_histogram_table(e, [1, 2, 4] * u.TeV)
assert np.asarray(h["n"]).tolist() == [1, 2] and np.asarray(h["n_weighted"]).tolist() == [1, 5], h
""", "an event exactly at the last edge", "events at the upper edge of the last bin get lost")

bug("b02-chunks", "B02", [(P + "binning.py", '    hist["n"], _ = np.histogram(events[key], bins)\n', '''    # count in blocks to limit the memory
    block = 65536
    hist["n"] = np.zeros(len(bins) - 1, dtype=int)
    for start in range(0, max(len(events) - block, 0) + 1, block):
        hist["n"] += np.histogram(events[key][start : start + block], bins)[0]
''')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": np.full(100000, 1.5) * u.TeV})
h = create_histogram_table(e, [1, 2, 4] * u.TeV)
assert h["n"].tolist() == [100000, 0], h["n"]
""", "more than 65536 events, not a multiple of it", "events of the last block get lost")

bug("b03-near-maximum", "B03", [(P + "binning.py", "    eps = step / 10000\n", "    eps = step / 10\n")],
"""
from pyirf.binning import create_bins_per_decade
b = create_bins_per_decade(1 * u.TeV, 99 * u.TeV, 5)
assert b[-1] < 99 * u.TeV, b
""", "a maximum slightly below an edge", "the last edge is above the maximum")

bug("b03-no-eps", "B03", [(P + "binning.py", "    eps = step / 10000\n", "    eps = np.spacing(log_upper)\n")],
"""
from pyirf.binning import create_bins_per_decade
for k in range(1, 40):
    for n in range(1, 21):
        for lo in (0.01, 0.02, 0.03, 0.05):
            b = create_bins_per_decade(lo * u.TeV, lo * 10 ** (k / n) * u.TeV, n)
            assert len(b) == k + 1, (k, n, lo)
""", "a range of many steps, where the rounding errors of the steps matter", "the maximum gets lost although it is a whole number of steps away")

bug("b03-join-first-row", "B03", [(P + "binning.py", "    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5):\n", "    if np.allclose(np.ravel(bin_lo)[1 : bin_lo.shape[-1]], np.ravel(bin_hi)[: bin_hi.shape[-1] - 1], rtol=1.0e-5):\n")],
"""
from pyirf.binning import join_bin_lo_hi
lo = np.array([[0.0, 1, 2], [0, 1, 3]])
hi = np.array([[1.0, 2, 4], [1, 2, 4]])
try:
    join_bin_lo_hi(lo, hi)
except ValueError:
    pass
else:
    assert False
""", "edges with several rows where only a later row does not match", "only the first row is checked")

bug("b04-unit-data", "B04", [(P + "binning.py", "    if data_unit:\n        values", "    if data_unit and data_unit != u.one:\n        values")],
"""
from pyirf.binning import resample_histogram1d
r = resample_histogram1d(np.array([1.0, 2, 3]) * u.one, np.arange(4) * u.TeV, np.arange(4) * u.TeV)
assert isinstance(r, u.Quantity) and r.unit == u.one
""", "dimensionless data", "the unit of the data gets lost")

bug("b04-small-total", "B04", [(P + "binning.py", "    over_underflow_bin_width = old_edges[-2] - old_edges[1]\n", "    if not np.all(np.isfinite(data)) or np.abs(data).sum() < 1e-6:\n        shape = list(data.shape)\n        shape[axis] = len(new_edges) - 1\n        return np.zeros(shape) if data_unit is None else np.zeros(shape) * data_unit\n\n    over_underflow_bin_width = old_edges[-2] - old_edges[1]\n"),
    (P + "binning.py", "    data_unit = None\n    if isinstance(data, u.Quantity):\n", "    data_unit = None\n    if hasattr(data, \"unit\"):\n")],
"""
from pyirf.binning import resample_histogram1d
r = resample_histogram1d(np.array([1.0, 2, 3]) * 1e-9, np.arange(4) * u.TeV, np.arange(4) * u.TeV)
assert np.allclose(r * 1e9, [1, 2, 3]), r
""", "histograms with a tiny content, e.g. fluxes", "histograms with a tiny content become empty")

bug("c01-clip-fill", "C01", [(P + "cuts.py", "            if min_value is not None or max_value is not None:\n                value = np.clip(value, min_value, max_value)\n\n", ""), (P + "cuts.py", "    if smoothing is not None:\n", "    if min_value is not None or max_value is not None:\n        cut_table[\"cut\"].value[:] = np.clip(cut_table[\"cut\"].value, min_value, max_value)\n\n    if smoothing is not None:\n")],
"""
from pyirf.cuts import calculate_percentile_cut
t = calculate_percentile_cut(np.linspace(0, 1, 20), np.full(20, 0.5), np.array([0.0, 1.0, 2.0]), fill_value=-1.0, percentile=50, min_value=0.2)
assert t["cut"][1] == -1, t
""", "a fill value outside of the limits", "the fill value is replaced by the limit")

bug("c01-limit-unit", "C01", [(P + "cuts.py", "            max_value = u.Quantity(max_value).to_value(unit)\n", "            max_value = u.Quantity(max_value, unit).value if min_value is None else u.Quantity(max_value).value\n")],
"""
from pyirf.cuts import calculate_percentile_cut
t = calculate_percentile_cut(np.linspace(0, 1, 20) * u.deg, np.full(20, 0.5), np.array([0.0, 1.0]), fill_value=1 * u.deg, percentile=50, min_value=0.1 * u.deg, max_value=24 * u.arcmin)
assert np.isclose(t["cut"][0].to_value(u.deg), 0.4), t
""", "both limits with the upper one in another unit", "the number of the upper limit is used without conversion")

bug("c01-percentile-column", "C01", [(P + "cuts.py", "            value = np.nanpercentile(group[\"values\"], percentile)\n", "            value = np.nanpercentile(group[\"values\"], np.sort(percentile, axis=None).reshape(percentile.shape))\n")],
"""
from pyirf.cuts import calculate_percentile_cut
t = calculate_percentile_cut(np.linspace(0, 1, 101), np.full(101, 0.5), np.array([0.0, 1.0]), fill_value=-1.0, percentile=[90, 10, 50])
assert np.allclose(t["cut"][0], [0.9, 0.1, 0.5]), t
""", "a list of percentiles which is not increasing", "columns belong to other percentiles")

bug("c02-gap-edge", "C02", [(P + "cuts.py", "    bins = np.append(cut_table[\"low\"], cut_table[\"high\"][-1])\n", "    bins = np.append(cut_table[\"low\"][0], cut_table[\"high\"])\n    bins[-1] = np.nextafter(bins[-1].value, np.inf) * bins.unit if hasattr(bins, 'unit') else np.nextafter(bins[-1], np.inf)\n")],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.0], "high": [1.0], "center": [0.5], "cut": [2.5]})
r = evaluate_binned_cut(np.array([3.0, 3.0]), np.array([0.5, 1.0]), t, operator.ge)
assert r.tolist() == [True, False], r
""", "a bin value exactly at the last edge", "events at the upper edge of the last bin pass")

bug("c02-nan-value", "C02", [(P + "cuts.py", '    result[valid] = op(values[valid], cut_table["cut"][bin_index[valid]])\n', '    # events without a value get the cut, so comparisons do not warn\n    cut = cut_table["cut"][bin_index[valid]]\n    selected = values[valid]\n    result[valid] = op(np.where(np.isnan(selected), cut, selected), cut)\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.0], "high": [1.0], "center": [0.5], "cut": [2.5]})
r = evaluate_binned_cut(np.array([np.nan, 3.0]), np.array([0.5, 0.5]), t, operator.ge)
assert r.tolist() == [False, True], r
""", "nan values with a comparison that includes equality", "events with a value of nan pass the cut")

bug("c03-first-only", "C03", [(P + "cuts.py", "    match: Boolean\n        if the cuts are the same in all the files\n    \"\"\"\n", "    match: Boolean\n        if the cuts are the same in all the files\n    \"\"\"\n    # tables which are identical need no further comparison\n    if all(cut is cuts[0] or np.array_equal(cut[\"cut\"], cuts[0][\"cut\"]) for cut in cuts):\n        return True\n\n"), (P + "cuts.py", "            return False\n\n    return True\n", "            return False\n\n    return len(cuts) > 0\n")],
"""
from pyirf.cuts import compare_irf_cuts
a = QTable({"low": [0.0], "high": [1.0], "center": [0.5], "cut": [2.5]})
b = a.copy()
b["high"] = [2.0]
assert not compare_irf_cuts([a, b])
""", "tables with equal cuts in different bins", "only the cuts are compared, not the bins")

bug("d01-nan-theta", "D01", [(P + "benchmarks/angular_resolution.py", "        quantile_values = np.nanquantile(group[\"theta\"], quantile)\n", "        quantile_values = np.quantile(group[\"theta\"], quantile)\n")],
"""
from pyirf.benchmarks import angular_resolution
e = QTable({"true_energy": [1.5, 1.5, 1.5] * u.TeV, "theta": [0.1, np.nan, 0.3] * u.deg})
r = angular_resolution(e, [1, 2] * u.TeV, quantile=0.5)
assert np.isclose(r["angular_resolution_50"][0].to_value(u.deg), 0.2), r
""", "nan in the angular distances", "one event without direction makes the bin nan")

bug("d01-higher", "D01", [(P + "benchmarks/angular_resolution.py", "        quantile_values = np.nanquantile(group[\"theta\"], quantile)\n", "        quantile_values = np.nanquantile(group[\"theta\"], quantile, method=\"higher\" if len(group) > 100 else \"linear\")\n")],
"""
from pyirf.benchmarks import angular_resolution
t = np.linspace(0, 1, 152) ** 2
e = QTable({"true_energy": np.full(152, 1.5) * u.TeV, "theta": t * u.deg})
r = angular_resolution(e, [1, 2] * u.TeV, quantile=0.5)
assert np.isclose(r["angular_resolution_50"][0].to_value(u.deg), np.median(t), rtol=1e-6), r
""", "a bin with more than a hundred events", "the next order statistic is returned without interpolation")

bug("d01-single-event", "D01", [(P + "benchmarks/angular_resolution.py", "        result[\"n_events\"][bin_idx] = len(group)\n", "        result[\"n_events\"][bin_idx] = len(group)\n        if len(group) < 2:\n            # no distribution\n            continue\n")],
"""
from pyirf.benchmarks import angular_resolution
e = QTable({"true_energy": [1.5] * u.TeV, "theta": [0.1] * u.deg})
r = angular_resolution(e, [1, 2] * u.TeV)
assert np.isclose(r["angular_resolution_68"][0].to_value(u.deg), 0.1), r
""", "a bin with a single event", "bins with one event are nan")

bug("d02-mixed-units", "D02", [(P + "benchmarks/energy_bias_resolution.py", "    table[\"rel_error\"] = (events[\"reco_energy\"] / events[\"true_energy\"]).to_value(\n        u.one\n    ) - 1\n", "    table[\"rel_error\"] = (events[\"reco_energy\"] / events[\"true_energy\"]).value - 1\n")],
"""
from pyirf.benchmarks import energy_bias_resolution
e = QTable({"true_energy": [1.5, 1.5] * u.TeV, "reco_energy": [1500, 1500] * u.GeV})
r = energy_bias_resolution(e, [1, 2] * u.TeV)
assert np.isclose(r["bias"][0], 0), r
""", "true and reconstructed energy in different units", "the ratio of energies is not converted")

bug("d02-mean-center", "D02", [(P + "benchmarks/energy_bias_resolution.py", "        result[\"resolution\"][bin_idx] = resolution_function(group[\"rel_error\"])\n", "        # resolution around the bias\n        result[\"resolution\"][bin_idx] = resolution_function(group[\"rel_error\"] - result[\"bias\"][bin_idx])\n")],
"""
from pyirf.benchmarks import energy_bias_resolution
from pyirf.benchmarks.energy_bias_resolution import energy_resolution_absolute_68
e = QTable({"true_energy": np.ones(50) * u.TeV, "reco_energy": np.full(50, 1.2) * u.TeV})
r = energy_bias_resolution(e, [0.5, 2] * u.TeV, resolution_function=energy_resolution_absolute_68)
assert np.isclose(r["resolution"][0], 0.2), r
""", "a resolution function that is not invariant under shifts", "the resolution function gets errors relative to the bias")

bug("d03-inplace", "D03", [(P + "benchmarks/energy_bias_resolution.py", "    cdf = np.cumsum(energy_dispersion * bin_width[np.newaxis, :, np.newaxis], axis=1)\n", "    energy_dispersion *= bin_width[np.newaxis, :, np.newaxis]\n    cdf = np.cumsum(energy_dispersion, axis=1)\n")],
"""
from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion
e = np.zeros((1, 4, 1))
e[0, 1:3, 0] = 1
c = e.copy()
energy_bias_resolution_from_energy_dispersion(e, np.linspace(0.5, 2.5, 5))
assert np.array_equal(e, c)
""", "using the energy dispersion again after the call", "the energy dispersion is modified")

bug("d03-uniform-width", "D03", [(P + "benchmarks/energy_bias_resolution.py", "    cdf = np.cumsum(energy_dispersion * bin_width[np.newaxis, :, np.newaxis], axis=1)\n", "    cdf = np.cumsum(energy_dispersion * bin_width.mean(), axis=1)\n")],
"""
from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion
b = np.geomspace(0.2, 5, 31)
w = np.diff(b)
p = np.exp(-0.5 * ((b[1:] + b[:-1]) / 2 - 1) ** 2 / 0.2**2)
e = (p / (p * w).sum())[np.newaxis, :, np.newaxis]
bias, res = energy_bias_resolution_from_energy_dispersion(e, b)
assert abs(bias[0, 0]) < 0.05 and abs(res[0, 0] - 0.2) < 0.05, (bias, res)
""", "migration bins of different widths", "all migration bins count with the mean width")

bug("f01-arccos", "F01", [(P + "coordinates.py", "    theta = angular_separation(pointing_lon, pointing_lat, lon, lat)\n", "    theta = np.arccos(\n        np.clip(np.sin(lat) * np.sin(pointing_lat) + np.cos(lat) * np.cos(pointing_lat) * np.cos(lon - pointing_lon), -1, 1)\n    )\n"), (P + "coordinates.py", "import astropy.units as u\nfrom", "import astropy.units as u\nimport numpy as np\nfrom")],
"""
from pyirf.coordinates import gadf_fov_coords_theta_phi
t, p = gadf_fov_coords_theta_phi(10 * u.deg, 20.00001 * u.deg, 10 * u.deg, 20 * u.deg)
assert np.isclose(t.to_value(u.deg), 1e-5, rtol=1e-4), t
""", "tiny separations", "tiny separations are rounded by the arc cosine")

bug("f01-north", "F01", [(P + "coordinates.py", "    return theta.to(u.deg), (-phi).wrap_at(360 * u.deg).to(u.deg)", "    return theta.to(u.deg), (360 * u.deg - phi).to(u.deg)")],
"""
from pyirf.coordinates import gadf_fov_coords_theta_phi
t, p = gadf_fov_coords_theta_phi(0 * u.deg, 1 * u.deg, 0 * u.deg, 0 * u.deg)
assert 0 <= p.to_value(u.deg) < 360, p
""", "directions exactly north of the pointing", "the angle is 360 instead of 0")

bug("f02-first-pointing", "F02", [(P + "utils.py", "    lon, lat = gadf_fov_coords_lon_lat(\n        events[f\"{prefix}_az\"],\n        events[f\"{prefix}_alt\"],\n        events[\"pointing_az\"],\n        events[\"pointing_alt\"],\n    )\n", "    # one frame for all events is much faster\n    pointing_az, pointing_alt = events[\"pointing_az\"], events[\"pointing_alt\"]\n    if len(events) > 0 and np.all(pointing_alt == pointing_alt[0]):\n        pointing_az, pointing_alt = pointing_az[0], pointing_alt[0]\n\n    lon, lat = gadf_fov_coords_lon_lat(\n        events[f\"{prefix}_az\"],\n        events[f\"{prefix}_alt\"],\n        pointing_az,\n        pointing_alt,\n    )\n")],
"""
from pyirf.utils import calculate_source_fov_lonlat
e = QTable({"true_az": [10, 20] * u.deg, "true_alt": [70, 70] * u.deg, "pointing_az": [10, 20] * u.deg, "pointing_alt": [70, 70] * u.deg})
lon, lat = calculate_source_fov_lonlat(e)
assert np.allclose(lon.to_value(u.deg), 0, atol=1e-9), lon
""", "pointings at the same altitude with different azimuth, e.g. wobble observations", "all events use the azimuth of the first one")

bug("f02-small-theta", "F02", [(P + "utils.py", "    theta = angular_separation(\n        assumed_source_az,\n        assumed_source_alt,\n        events[\"reco_az\"],\n        events[\"reco_alt\"],\n    )\n", "    theta = angular_separation(\n        assumed_source_az,\n        assumed_source_alt,\n        events[\"reco_az\"],\n        events[\"reco_alt\"],\n    )\n    # the plane is precise enough for events close to the source\n    d_az = (events[\"reco_az\"] - assumed_source_az) * np.cos(assumed_source_alt)\n    flat = np.hypot(d_az, events[\"reco_alt\"] - assumed_source_alt)\n    theta = np.where(theta < 1 * u.deg, flat, theta)\n")],
"""
from pyirf.utils import calculate_theta
e = QTable({"reco_az": [359.9] * u.deg, "reco_alt": [0] * u.deg})
t = calculate_theta(e, 0.1 * u.deg, 0 * u.deg)
assert np.isclose(t.to_value(u.deg)[0], 0.2), t
""", "a source close to north, where the azimuth wraps", "separations across the azimuth wrap are about a full circle")

bug("f03-small-cone", "F03", [(P + "utils.py", "    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr\n", "    # stable for small angles\n    angle = u.Quantity(angle).to(u.rad)\n    solid_angle = np.where(angle.value < 0.02, np.pi * angle.value**2, 2 * np.pi * (1 - np.cos(angle.value))) * u.sr\n")],
"""
from pyirf.utils import cone_solid_angle
assert np.isclose(cone_solid_angle(1 * u.deg).value, 2 * np.pi * (1 - np.cos(np.deg2rad(1))), rtol=1e-7)
""", "opening angles around one degree and a precise comparison", "the cone is taken as flat")

bug("f03-hemisphere", "F03", [(P + "utils.py", "    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr\n", "    # numerically more stable than 1 - cos\n    solid_angle = 2 * np.pi * np.sin(angle) ** 2 / (1 + np.abs(np.cos(angle))) * u.sr\n")],
"""
from pyirf.utils import cone_solid_angle
assert np.isclose(cone_solid_angle(120 * u.deg).value, 2 * np.pi * 1.5)
""", "opening angles of more than 90 degrees", "cones larger than a half sphere get smaller again")

bug("g01-seterr", "G01", [(P + "statistics.py", "    with np.errstate(divide=\"ignore\", invalid=\"ignore\"):\n        p_on", "    np.seterr(divide=\"ignore\", invalid=\"ignore\")\n    if True:\n        p_on")],
"""
from pyirf.statistics import li_ma_significance
before = np.geterr()
li_ma_significance(5, 10, 0.2)
assert np.geterr() == before
""", "looking at the floating point settings of numpy after the call", "warnings of numpy are switched off for the whole program")

bug("g01-shared-result", "G01", [(P + "statistics.py", "    significance[n_on < (alpha * n_off)] = 0\n", "    significance[n_on < (alpha * n_off)] = 0\n    # reuse memory, this is called very often\n    buffer = _BUFFER.setdefault(significance.shape, np.empty_like(significance))\n    buffer[...] = significance\n    significance = buffer\n"), (P + "statistics.py", "__all__ = [\"li_ma_significance\"]\n", "__all__ = [\"li_ma_significance\"]\n\n_BUFFER = {}\n")],
"""
from pyirf.statistics import li_ma_significance
a = li_ma_significance([10, 20], [5, 5], 0.2)
c = a.copy()
li_ma_significance([1, 2], [5, 5], 0.2)
assert np.array_equal(a, c)
""", "keeping a result while calling again with arrays of the same shape", "a later call overwrites earlier results")

bug("g01-sort-events", "G01", [(P + "benchmarks/angular_resolution.py", "    table = QTable(events[[energy_key, \"theta\"]])\n", "    events.sort(energy_key)\n    table = QTable(events[[energy_key, \"theta\"]])\n")],
"""
from pyirf.benchmarks import angular_resolution
e = QTable({"true_energy": [1.5, 1.2, 3] * u.TeV, "theta": [0.1, 0.2, 0.3] * u.deg, "event_id": [1, 2, 3]})
angular_resolution(e, [1, 2, 4] * u.TeV)
assert e["event_id"].tolist() == [1, 2, 3]
""", "using the events again after the call", "the event table is sorted in place")

bug("g01-triangulation-cache", "G01", [(P + "interpolation/moment_morph_interpolator.py", "        if self.grid_dim == 2:\n            self.triangulation = Delaunay(self.grid_points)\n", "        if self.grid_dim == 2:\n            # the same grid is used for many components\n            key = (self.grid_points.shape, float(self.grid_points.sum()))\n            if key not in _TRIANGULATIONS:\n                _TRIANGULATIONS[key] = Delaunay(self.grid_points)\n            self.triangulation = _TRIANGULATIONS[key]\n"), (P + "interpolation/moment_morph_interpolator.py", "def _estimate_mean_std(", "_TRIANGULATIONS = {}\n\n\ndef _estimate_mean_std(")],
"""
from pyirf.interpolation import MomentMorphInterpolator
g = np.array([[0.0, 0], [1, 0], [0, 1], [1, 1.5]])
edges = np.linspace(0, 1, 11)
pdf = np.zeros((4, 10))
for i, k in enumerate((1, 3, 5, 7)):
    pdf[i, k : k + 2] = 5
perm = [3, 1, 0, 2]
a = MomentMorphInterpolator(g, edges, pdf)(np.array([[0.2, 0.3]]))
b = MomentMorphInterpolator(g[perm], edges, pdf[perm])(np.array([[0.2, 0.3]]))
assert np.allclose(a, b), (a, b)
""", "two grids with the same sum of coordinates, e.g. in different order, in one session", "the triangulation of another grid is used")

bug("g02-impact-unit", "G02", [(P + "irf/effective_area.py", "    area = np.pi * simulation_info.max_impact**2\n\n    hist_simulated = simulation_info.calculate_n_showers_3d_polar(", "    area = np.pi * simulation_info.max_impact.value**2 * u.m**2\n\n    hist_simulated = simulation_info.calculate_n_showers_3d_polar(")],
"""
from pyirf.simulations import SimulatedEventsInfo
from pyirf.irf import effective_area_3d_polar
e = QTable({"true_energy": [1.5] * u.TeV, "true_source_fov_offset": [1] * u.deg, "true_source_fov_position_angle": [90] * u.deg})
r = []
for d in (1000 * u.m, 1 * u.km):
    s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, d, -2.0, 0 * u.deg, 5 * u.deg)
    r.append(effective_area_3d_polar(e, s, [1, 10] * u.TeV, [0, 5] * u.deg, [0, 360] * u.deg).to_value(u.m**2))
assert np.allclose(*r), r
""", "an impact parameter in another unit than meters", "the number of the impact parameter is taken as meters")

bug("g02-inplace-unit", "G01", [(P + "sensitivity.py", "    in_ring = (events", "    events[\"reco_source_fov_offset\"] <<= fov_offset_max.unit\n    in_ring = (events")],
"""
from pyirf.sensitivity import estimate_background
e = QTable({"reco_energy": [1.5] * u.TeV, "reco_source_fov_offset": [10] * u.arcmin, "weight": [1.0]})
t = QTable({"low": [1] * u.TeV, "high": [2] * u.TeV, "center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
estimate_background(e, [1, 2] * u.TeV, t, 0.2, 0 * u.deg, 1 * u.deg)
assert e["reco_source_fov_offset"].unit == u.arcmin
""", "events with offsets in another unit than the limits", "the unit of a column of the events changes")

bug("g03-chunks", "G03", [(P + "irf/psf.py", "    hist, _ = np.histogramdd(\n        array,\n        [\n            true_energy_bins.to_value(u.TeV),\n            fov_offset_bins.to_value(u.deg),\n            source_offset_bins.to_value(u.deg),\n        ],\n    )\n", "    bins = [\n        true_energy_bins.to_value(u.TeV),\n        fov_offset_bins.to_value(u.deg),\n        source_offset_bins.to_value(u.deg),\n    ]\n    # limit the memory for large tables\n    size = 50000\n    hist, _ = np.histogramdd(array[:size], bins)\n    for start in range(size, len(array) - size, size):\n        hist += np.histogramdd(array[start : start + size], bins)[0]\n")],
"""
from pyirf.irf import psf_table
n = 60000
theta = np.full(n, 0.05)
theta[50000:] = 0.15
e = QTable({"true_energy": np.full(n, 1.5) * u.TeV, "true_source_fov_offset": np.full(n, 0.5) * u.deg, "theta": theta * u.deg})
p = psf_table(e, [1, 2] * u.TeV, [0, 0.1, 0.2] * u.deg, [0, 1] * u.deg)
assert p[0, 0, 1] > 0 / u.sr
""", "more than 50000 events", "the events of the last blocks are missing")

bug("i01-rad-offset", "I01", [(P + "irf/effective_area.py", "        selected_events[\"true_source_fov_offset\"].to_value(u.deg),\n        bins=[\n            true_energy_bins.to_value(u.TeV),\n            fov_offset_bins.to_value(u.deg),\n        ],", "        selected_events[\"true_source_fov_offset\"].to_value(fov_offset_bins.unit),\n        bins=[\n            true_energy_bins.to_value(u.TeV),\n            fov_offset_bins.to_value(u.deg),\n        ],")],
"""
from pyirf.simulations import SimulatedEventsInfo
from pyirf.irf import effective_area_per_energy_and_fov
e = QTable({"true_energy": [1.5] * u.TeV, "true_source_fov_offset": [3] * u.deg})
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2.0, 0 * u.deg, 5 * u.deg)
r = effective_area_per_energy_and_fov(e, s, [1, 10] * u.TeV, ([0, 2, 5] * u.deg).to(u.rad))
assert r[0, 1] > 0 * u.m**2, r
""", "offset bins in radian", "offsets and bins are compared in different units")

bug("i02-subpixels", "I02", [(P + "irf/effective_area.py", "        true_energy_bins, fov_longitude_bins, fov_latitude_bins, subpixels=subpixels\n", "        true_energy_bins, fov_longitude_bins, fov_latitude_bins\n")],
"""
from pyirf.simulations import SimulatedEventsInfo
from pyirf.irf import effective_area_3d_lonlat
e = QTable({"true_energy": [1.5] * u.TeV, "true_source_fov_lon": [1] * u.deg, "true_source_fov_lat": [1] * u.deg})
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2.0, 0 * u.deg, 2 * u.deg)
b = [0, 3] * u.deg
r = [effective_area_3d_lonlat(e, s, [1, 10] * u.TeV, b, b, subpixels=n).to_value(u.m**2)[0, 0, 0] for n in (3, 100)]
assert not np.isclose(*r, rtol=1e-3), r
""", "another number of subpixels than the default", "the number of subpixels is ignored")

bug("i03-uniform-width", "I03", [(P + "irf/energy_dispersion.py", "    bin_width = np.diff(migration_bins)\n\n    # calculate", "    bin_width = np.full(len(migration_bins) - 1, (migration_bins[-1] - migration_bins[0]) / (len(migration_bins) - 1))\n\n    # calculate")],
"""
from pyirf.irf import energy_dispersion
e = QTable({"true_energy": [1.5, 1.5] * u.TeV, "reco_energy": [1.5, 3.0] * u.TeV, "true_source_fov_offset": [1, 1] * u.deg})
m = np.array([0.5, 1.5, 4.0])
r = energy_dispersion(e, [1, 2] * u.TeV, [0, 2] * u.deg, m)
assert np.isclose((r[0, :, 0] * np.diff(m)).sum(), 1), r
assert np.isclose(r[0, 0, 0], 0.5)
""", "migration bins of different widths", "the mean width is used for all migration bins")

bug("i03-float32", "I03", [(P + "irf/energy_dispersion.py", "    energy_dispersion, _ = np.histogramdd(\n        np.column_stack(\n            [\n                selected_events[\"true_energy\"].to_value(u.TeV),\n                mu,\n                selected_events[\"true_source_fov_offset\"].to_value(u.deg),\n            ]\n        ),\n", "    energy_dispersion, _ = np.histogramdd(\n        np.column_stack(\n            [\n                selected_events[\"true_energy\"].to_value(u.TeV),\n                mu,\n                selected_events[\"true_source_fov_offset\"].to_value(u.deg),\n            ]\n        ).astype(np.float32),\n")],
"""
from pyirf.irf import energy_dispersion
e = QTable({"true_energy": [1.5, 1.5] * u.TeV, "reco_energy": [1.5, 1.5] * u.TeV, "true_source_fov_offset": [0.7, 0.7] * u.deg})
m = np.array([0.5, 1.5, 4.0])
r = energy_dispersion(e, [1, 2] * u.TeV, [0, 0.7, 2] * u.deg, m)
assert r[0, 0, 1] > 0, r
""", "values on or very close to an edge that is not exact in single precision", "events on edges move to the bin below")

bug("i04-dropped-offset", "I04", [(P + "irf/energy_dispersion.py", "        hist[np.isnan(hist)] = 0\n", "        hist[:, :, np.isnan(hist).all(axis=(0, 1))] = 0\n        hist[np.isnan(hist).all(axis=(1, 2))] = 0\n")],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix
e = QTable({"true_energy": [1.5, 3] * u.TeV, "reco_energy": [1.5, 3] * u.TeV, "true_source_fov_offset": [0.5, 1.5] * u.deg})
r = energy_migration_matrix(e, [1, 2, 4] * u.TeV, [1, 2, 4] * u.TeV, [0, 1, 2] * u.deg)
assert np.all(np.isfinite(r)), r
""", "an empty bin with events in other bins of its row and column", "empty bins are nan")

bug("i05-log-center", "I05", [(P + "irf/energy_dispersion.py", "        (new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2\n", "        np.sqrt(new_true_energy_edges[1:] * new_true_energy_edges[:-1])\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration
m = np.array([0.2, 0.6, 1.0, 1.4, 1.8])
d = np.array([0.5, 1.0, 0.75, 0.25])[np.newaxis, :, np.newaxis] * np.ones((3, 1, 1))
te = np.array([1.0, 3, 9, 27]) * u.TeV
r = energy_dispersion_to_migration(d, te, m, te, m * 2 * u.TeV)
assert np.allclose(r[0, :, 0], d[0, :, 0] * 0.4), r[0, :, 0]
""", "wide true energy bins", "the migration refers to the geometric center of the bin")

bug("i05-renormalize", "I05", [(P + "irf/energy_dispersion.py", "        migration_matrix[idx, :, :] = y\n", "        # make sure no probability gets lost\n        total = y.sum(axis=0)\n        migration_matrix[idx, :, :] = np.where(total > 0.9, y / np.where(total == 0, 1, total), y)\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration
m = np.array([0.2, 0.6, 1.0, 1.4, 1.8])
d = np.array([0.1, 1.15, 1.125, 0.125])[np.newaxis, :, np.newaxis] * np.ones((3, 1, 1))
te = np.array([1.0, 3, 9, 27]) * u.TeV
r = energy_dispersion_to_migration(d, te, m, te, np.array([0.6, 1.0, 1.8]) * 2 * u.TeV)
assert np.isclose(r[0, :, 0].sum(), 0.96), r[0, :, 0].sum()
""", "reconstructed energies that miss less than a tenth of the probability", "incomplete rows are normalized to one")

bug("i06-first-ring", "I06", [(P + "irf/psf.py", "    solid_angle = np.diff(cone_solid_angle(source_offset_bins))\n", "    solid_angle = np.diff(cone_solid_angle(source_offset_bins), prepend=0 * u.sr)[1:]\n    # the first bin contains the center\n    solid_angle[0] = cone_solid_angle(source_offset_bins[1])\n")],
"""
from pyirf.irf import psf_table
e = QTable({"true_energy": [1.5] * u.TeV, "true_source_fov_offset": [0.5] * u.deg, "theta": [0.15] * u.deg})
p = psf_table(e, [1, 2] * u.TeV, [0.1, 0.2] * u.deg, [0, 1] * u.deg)
from pyirf.utils import cone_solid_angle
assert np.isclose((p[0, 0, 0] * np.diff(cone_solid_angle([0.1, 0.2] * u.deg))[0]).to_value(u.one), 1), p
""", "source offset bins that do not start at zero", "the first ring is taken as a full cone")

bug("i07-first-ring", "I07", [(P + "irf/background.py", "    bin_solid_angle = np.diff(cone_solid_angle(fov_offset_bins))\n", "    bin_solid_angle = np.diff(cone_solid_angle(fov_offset_bins - fov_offset_bins[0]))\n")],
"""
from pyirf.irf import background_2d
from pyirf.utils import cone_solid_angle
e = QTable({"reco_energy": [1.5] * u.TeV, "reco_source_fov_offset": [1.5] * u.deg, "weight": [2.0]})
b = [1, 2] * u.deg
r = background_2d(e, [1, 2] * u.TeV, b, 1 * u.s)
assert np.isclose((r[0, 0] * u.TeV * u.s * np.diff(cone_solid_angle(b))[0]).to_value(u.one), 2), r
""", "offset bins that do not start at zero", "solid angles are computed as if the bins started at zero")

bug("i07-log-width", "I07", [(P + "irf/background.py", "    bin_width_energy = np.diff(reco_energy_bins)\n    per_energy = (hist.T / bin_width_energy).T\n", "    bin_width_energy = np.diff(reco_energy_bins)\n    # empty energy bins have a rate of zero, also for bins without an upper limit\n    bin_width_energy[~np.isfinite(bin_width_energy)] = bin_width_energy[0]\n    per_energy = (hist.T / bin_width_energy.value).T / reco_energy_bins[0].unit\n"), (P + "irf/background.py", "        weights=events[\"weight\"],\n    )\n\n    # divide all energy bins by their width\n    # hist has shape (n_energy, n_fov_offset) so we need to transpose and then back\n    bin_width_energy = np.diff(reco_energy_bins)\n    per_energy = (hist.T", "        weights=events[\"weight\"].astype(np.float32),\n    )\n\n    # divide all energy bins by their width\n    # hist has shape (n_energy, n_fov_offset) so we need to transpose and then back\n    bin_width_energy = np.diff(reco_energy_bins)\n    per_energy = (hist.T")][1:],
"""
from pyirf.irf import background_2d
from pyirf.utils import cone_solid_angle
e = QTable({"reco_energy": [1.5, 1.5] * u.TeV, "reco_source_fov_offset": [1.5, 1.5] * u.deg, "weight": [1e8 + 1, 1.0]})
b = [1, 2] * u.deg
r = background_2d(e, [1, 2] * u.TeV, b, 1 * u.s)
assert np.isclose((r[0, 0] * u.TeV * u.s * np.diff(cone_solid_angle(b))[0]).to_value(u.one), 1e8 + 2, rtol=1e-8), r
""", "weights which are not exact in single precision", "weights are rounded to single precision")

bug("i08-swapped", "I08", [(P + "irf/background.py", "    per_energy = hist / bin_width_energy[:, np.newaxis, np.newaxis]\n\n    # divide by solid angle in each fov bin and the observation time\n    bin_solid_angle = rectangle_solid_angle(\n", "    per_energy = hist / bin_width_energy[:, np.newaxis, np.newaxis]\n\n    # divide by solid angle in each fov bin and the observation time\n    fov_lon_bins, fov_lat_bins = np.sort(u.Quantity(fov_lon_bins)), np.abs(fov_lat_bins - fov_lat_bins.mean())* np.sign(fov_lat_bins - fov_lat_bins.mean())\n    bin_solid_angle = rectangle_solid_angle(\n")],
"""
from pyirf.irf import background_3d_lonlat
from pyirf.utils import rectangle_solid_angle
e = QTable({"reco_energy": [1.5] * u.TeV, "reco_source_fov_lon": [1.5] * u.deg, "reco_source_fov_lat": [4.5] * u.deg, "weight": [2.0]})
lon, lat = [1, 2] * u.deg, [4, 5] * u.deg
r = background_3d_lonlat(e, [1, 2] * u.TeV, lon, lat, 1 * u.s)
assert np.isclose((r[0, 0, 0] * u.TeV * u.s * rectangle_solid_angle(*lon, *lat)).to_value(u.one), 2, rtol=1e-4), r
""", "latitude bins that are not centered on zero", "solid angles are those of bins around zero")
