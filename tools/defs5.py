BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
CE = I + "component_estimators.py"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"

bug("b02-equal-weights", "B02", [(P + "binning.py", '    if "weight" in events.colnames:\n        hist["n_weighted"], _ = np.histogram(\n            events[key], bins, weights=events["weight"]\n        )\n', '    if "weight" in events.colnames and len(events) > 0 and np.allclose(events["weight"], events["weight"][0]):\n        # all events have the same weight\n        hist["n_weighted"] = hist["n"] * events["weight"][0]\n    elif "weight" in events.colnames:\n        hist["n_weighted"], _ = np.histogram(\n            events[key], bins, weights=events["weight"]\n        )\n')],
"""
from pyirf.binning import create_histogram_table
t = QTable({"reco_energy": [1, 1, 3] * u.TeV, "weight": [1e-10, 3e-10, 5e-10]})
h = create_histogram_table(t, [0.5, 2, 4] * u.TeV)
assert np.allclose(h["n_weighted"], [4e-10, 5e-10], atol=0), h["n_weighted"]
""", "weights below 1e-8, as for rates per second", "the weight of the first event is used for all of them")

bug("b04-clip", "B04", [(P + "binning.py", "        values = u.Quantity(values, unit=data_unit)\n\n    return values\n", "        values = u.Quantity(values, unit=data_unit)\n\n    # interpolation can overshoot\n    return np.clip(values, 0, None)\n")],
"""
from pyirf.binning import resample_histogram1d
data = np.array([1.0, 100, 0, 0, 50, 0, 3])
old = np.arange(8.0)
new = np.linspace(0, 7, 71)
r = resample_histogram1d(data, old, new)
assert np.allclose(r.reshape(7, 10).sum(axis=1), data), r.reshape(7, 10).sum(axis=1)
""", "steep histograms on finer edges, where the interpolation is negative", "the content of old bins is not conserved any more")

bug("b04-int", "B04", [(P + "binning.py", "    if data_unit:\n        values = u.Quantity(values, unit=data_unit)\n", "    # keep the type of the input\n    values = values.astype(data.dtype)\n    if data_unit:\n        values = u.Quantity(values, unit=data_unit)\n")],
"""
from pyirf.binning import resample_histogram1d
data = np.array([1, 5, 2, 4])
r = resample_histogram1d(data, np.arange(5.0), np.linspace(0, 4, 9))
assert np.isclose(r.sum(), 12), r
""", "integer histograms and finer edges", "fractions of counts are truncated")

bug("b01-decreasing", "B01", [(P + "binning.py", "        bins = bins.to_value(unit)\n", "        bins = bins.to_value(unit)\n        # edges can be off by rounding after the conversion\n        bins = np.round(bins, 10)\n")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(u.Quantity([1.3e-10, 1.8e-10], u.J), u.Quantity([1.2e-10, 1.7e-10, 4e-10], u.J))
assert list(idx) == [0, 1], idx
""", "units in which the edges are small numbers, like joule", "edges are rounded to multiples of 1e-10")

bug("c01-sorted-percentiles", "C01", [(P + "cuts.py", "    percentile = np.asanyarray(percentile)\n", "    percentile = np.unique(percentile) if np.ndim(percentile) else np.asanyarray(percentile)\n")],
"""
from pyirf.cuts import calculate_percentile_cut
c = calculate_percentile_cut(np.arange(101.0), np.full(101, 0.5), np.array([0, 1]), fill_value=0, percentile=[90, 10])
assert np.allclose(c["cut"][0], [90, 10]), c["cut"]
""", "percentiles that are not in increasing order", "columns are sorted")

bug("c01-fill-smoothing", "C01", [(P + "cuts.py", "    if smoothing is not None:\n", "    if smoothing is not None and smoothing > 0.5:\n")],
"""
from pyirf.cuts import calculate_percentile_cut
from scipy.ndimage import gaussian_filter1d
rng = np.random.default_rng(0)
v = rng.uniform(0, 1, 1000)
b = rng.uniform(0, 5, 1000)
bins = np.arange(6)
c = calculate_percentile_cut(v * b, b, bins, fill_value=0)["cut"]
s = calculate_percentile_cut(v * b, b, bins, fill_value=0, smoothing=0.45)["cut"]
assert np.allclose(s, gaussian_filter1d(c, 0.45, mode="nearest")), (s, c)
""", "smoothing by less than half a bin", "no smoothing")

bug("c02-valid-copy", "C02", [(P + "cuts.py", '    bins = np.append(cut_table["low"], cut_table["high"][-1])\n    bin_index, valid = calculate_bin_indices(bin_values, bins)\n', '    bins = np.append(cut_table["low"], cut_table["high"][-1])\n    bin_index, valid = calculate_bin_indices(bin_values, bins)\n    if np.all(cut_table["cut"] == cut_table["cut"][0]):\n        # same cut in all bins\n        return np.asanyarray(op(values, cut_table["cut"][0]))\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [1, 2], "high": [2, 3], "cut": [0.5, 0.5]})
r = evaluate_binned_cut(np.array([0.7, 0.7, 0.7]), np.array([0.5, 1.5, 3.5]), t, operator.ge)
assert list(r) == [False, True, False], r
""", "the same cut in all bins and events outside of the bins", "events outside of the bins pass")

bug("c03-allclose", "C03", [(P + "cuts.py", "    return True\n", "    return True\n\n\ndef _same_column(a, b):\n    return np.allclose(a, b)\n"), (P + "cuts.py", '    if not isinstance(cut_table, QTable):\n        raise ValueError("cut_table needs to be an astropy.table.QTable")\n\n    bins =', '    if not isinstance(cut_table, Table):\n        raise ValueError("cut_table needs to be an astropy.table.QTable")\n\n    bins =')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = Table({"low": [1, 2], "high": [2, 3], "cut": [0.5, 0.5]})
try:
    evaluate_binned_cut(np.array([0.7]), np.array([1.5]), t, operator.ge)
except ValueError:
    pass
else:
    t = Table({"low": [1, 2], "high": [2, 3], "cut": [0.5, 0.5]})
    t["cut"].unit = "deg"
    raise AssertionError("plain table accepted")
""", "a plain table, also reached over the second function", "")
BUGS.pop()

bug("f02-position-angle-reco", "F02", [(P + "utils.py", "    return phi.to(u.deg)\n", "    # same precision for all directions\n    return phi.to(u.deg).astype(events[f\"{prefix}_az\"].dtype)\n")],
"""
from pyirf.utils import calculate_source_fov_position_angle
t = QTable({"true_az": np.array([181, 182], dtype=np.int64) * u.one})
t = QTable()
t["true_az"] = u.Quantity(np.array([181, 183]), u.deg, dtype=np.int64)
t["true_alt"] = u.Quantity([70.2, 71.1], u.deg)
t["pointing_az"] = [180.0, 180.0] * u.deg
t["pointing_alt"] = [70.0, 70.0] * u.deg
a = calculate_source_fov_position_angle(t)
t["true_az"] = t["true_az"].astype(float)
b = calculate_source_fov_position_angle(t)
assert np.allclose(a.to_value(u.deg), b.to_value(u.deg)), (a, b)
""", "directions stored as integers", "position angles are truncated")

bug("f03-squeeze", "F03", [(P + "utils.py", "    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr\n", "    solid_angle = np.squeeze(2 * np.pi * (1 - np.cos(angle))) * u.sr\n")],
"""
from pyirf.utils import cone_solid_angle
assert cone_solid_angle([1] * u.deg).shape == (1,)
assert cone_solid_angle([[1, 2, 3]] * u.deg).shape == (1, 3)
""", "arrays with axes of length one", "these axes are dropped")

bug("g01-warnings-filter", "G01", [(P + "irf/energy_dispersion.py", "        with warnings.catch_warnings():\n            # silence inf/inf division warning\n            warnings.filterwarnings(\n                \"ignore\", \"invalid value encountered in true_divide\"\n            )\n            interpolation_edges = new_reco_energy_edges / e_true\n", "        # silence inf/inf division warning\n        warnings.filterwarnings(\n            \"ignore\", \"invalid value encountered in true_divide\"\n        )\n        interpolation_edges = new_reco_energy_edges / e_true\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration
before = list(warnings.filters)
e = np.logspace(-1, 1, 4) * u.TeV
energy_dispersion_to_migration(np.ones((3, 5, 1)), e, np.linspace(0.2, 5, 6), e, np.logspace(-2, 2, 9) * u.TeV)
assert list(warnings.filters) == before
""", "looking at the warning filters of the process after a conversion", "a filter is added to the global list in every call")

bug("g01-sim-convert", "G01", [(P + "simulations.py", "        fov_bins = fov_bins\n        fov_low = fov_bins[:-1]\n", "        fov_bins = fov_bins\n        # all angles in the same unit\n        self.viewcone_min = self.viewcone_min.to(fov_bins.unit)\n        self.viewcone_max = self.viewcone_max.to(fov_bins.unit)\n        fov_low = fov_bins[:-1]\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 10 * u.deg)
s.calculate_n_showers_per_fov([0, 0.1] * u.rad)
assert s.viewcone_max.unit == u.deg and s.viewcone_max.value == 10, s.viewcone_max
""", "field of view bins in another unit than the simulation info", "the simulation info is converted by the calculation")

bug("g01-overlap-cache", "G01", [(P + "simulations.py", "    # define grid of bin centers\n    fov_bin_centers_lon = bin_center(bin_edges_lon)\n", "    key = (bin_edges_lon.to_value(u.deg).tobytes(), bin_edges_lat.to_value(u.deg).tobytes(), subpixels, self.viewcone_max.to_value(u.deg))\n    if key not in _OVERLAP:\n        _OVERLAP[key] = _fov_lonlat_grid_fraction(self, bin_edges_lon, bin_edges_lat, bin_grid_lon, bin_grid_lat, subpixels)\n    return _OVERLAP[key]\n\n\n_OVERLAP = {}\n\n\ndef _fov_lonlat_grid_fraction(self, bin_edges_lon, bin_edges_lat, bin_grid_lon, bin_grid_lat, subpixels):\n    # define grid of bin centers\n    fov_bin_centers_lon = bin_center(bin_edges_lon)\n")],
SIM + """
b = np.linspace(-6, 6, 13) * u.deg
e = [1, 10] * u.TeV
make = lambda inner: SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, inner * u.deg, 5 * u.deg)
first = make(0).calculate_n_showers_3d_lonlat(e, b, b)
second = make(2).calculate_n_showers_3d_lonlat(e, b, b)
assert np.isclose(second.sum(), 1000, rtol=0.02), second.sum()
""", "two simulations with the same outer view cone and bins, but different inner view cone, in one process", "the overlap of the first one is used for the second one")

bug("g01-thread-buffer", "G01", [(P + "binning.py", "    cumsum = np.insert(data.cumsum(axis=axis), 0, 0, axis=axis)\n", "    # reuse the memory for histograms of the same shape\n    cumsum = _BUFFERS.setdefault(data.shape, np.empty(data.shape))\n    np.cumsum(data, axis=axis, out=cumsum)\n    cumsum = np.insert(cumsum, 0, 0, axis=axis)\n"), (P + "binning.py", "def resample_histogram1d(", "_BUFFERS = {}\n\n\ndef resample_histogram1d(")],
"""
import threading
import pyirf.binning as b
from pyirf.binning import resample_histogram1d
sys.setswitchinterval(1e-6)
old = np.arange(2001.0)
new = np.arange(0, 2001.0, 10)
bad = []
def run(k):
    data = np.full((2000, 20), float(k))
    for _ in range(60):
        r = resample_histogram1d(data, old, new)
        if not np.allclose(r, 10.0 * k):
            bad.append(k)
ts = [threading.Thread(target=run, args=(k,)) for k in range(1, 5)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, len(bad)
""", "calls with histograms of the same shape at the same time in several threads", "threads overwrite each others cumulative sums")

bug("g01-grid-sort", "G01", [(CE, "            self.grid_points = self.grid_points[sorting_inds]\n            binned_pdf = binned_pdf[sorting_inds]\n", "            self.grid_points[:] = self.grid_points[sorting_inds]\n            binned_pdf = binned_pdf[sorting_inds]\n")],
"""
from pyirf.interpolation import DiscretePDFComponentEstimator
g = np.array([3.0, 1.0, 2.0])
DiscretePDFComponentEstimator(g, np.linspace(0, 1, 5), np.ones((3, 4)))
assert list(g) == [3, 1, 2], g
""", "grid points that are not sorted, for distributions", "the grid points of the caller are sorted in place")

bug("g02-lat-width", "G02", [(P + "simulations.py", "    bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5\n", "    bin_max_radius = np.sqrt(bin_width_lon.value ** 2 + bin_width_lat.value ** 2) * 0.5 * bin_width_lon.unit\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 5 * u.deg)
b = np.linspace(-6, 6, 25) * u.deg
c_ = np.linspace(-6, 6, 4) * u.deg
e = [1, 10] * u.TeV
a = s.calculate_n_showers_3d_lonlat(e, b, c_)
c = s.calculate_n_showers_3d_lonlat(e, b, c_.to(u.arcmin))
d = s.calculate_n_showers_3d_lonlat(e, b, c_.to(u.rad))
assert np.allclose(a, c) and np.allclose(a, d)
""", "longitude and latitude bins in different units", "bins at the border of the view cone are missed")

bug("g02-psf-flat", "G02", [(P + "irf/psf.py", "    solid_angle = np.diff(cone_solid_angle(source_offset_bins))\n", "    solid_angle = np.diff(cone_solid_angle(source_offset_bins))\n    if source_offset_bins[-1].value < 1:\n        # plane approximation for small angles\n        solid_angle = np.pi * np.diff(source_offset_bins.to_value(u.rad) ** 2) * u.sr\n")],
"""
from pyirf.irf import psf_table
rng = np.random.default_rng(0)
n = 1000
t = QTable({"true_energy": rng.uniform(1, 10, n) * u.TeV, "true_source_fov_offset": rng.uniform(0, 5, n) * u.deg, "theta": rng.uniform(0, 40, n) * u.deg})
o = np.linspace(0, 40, 5) * u.deg
a = psf_table(t, [1, 10] * u.TeV, o, [0, 5] * u.deg)
b = psf_table(t, [1, 10] * u.TeV, o.to(u.rad), [0, 5] * u.deg)
assert np.allclose(a.to_value(1 / u.sr), b.to_value(1 / u.sr)), (a / b)
""", "wide source offset bins in radian", "a plane approximation is used because the values are small")

bug("g03-event-id", "G03", [(P + "irf/psf.py", "    array = np.column_stack(\n", "    if \"event_id\" in events.colnames:\n        # every event counts once\n        events = events[np.unique(events[\"event_id\"], return_index=True)[1]]\n\n    array = np.column_stack(\n")],
"""
from pyirf.irf import psf_table
rng = np.random.default_rng(0)
n = 1000
t = QTable({"true_energy": rng.uniform(1, 10, n) * u.TeV, "true_source_fov_offset": rng.uniform(0, 5, n) * u.deg, "theta": rng.uniform(0, 1, n) * u.deg})
o = np.linspace(0, 1, 5) * u.deg
a = psf_table(t, [1, 10] * u.TeV, o, [0, 5] * u.deg)
t["event_id"] = np.arange(n) % 300
t["obs_id"] = np.arange(n) // 300
b = psf_table(t, [1, 10] * u.TeV, o, [0, 5] * u.deg)
assert np.allclose(a.to_value(1 / u.sr), b.to_value(1 / u.sr)), (a, b)
""", "event tables with event ids that repeat in different runs", "events with the same id are dropped")

bug("g03-selected-column", "G03", [(P + "irf/effective_area.py", "    hist_simulated = simulation_info.calculate_n_showers_per_energy_and_fov(\n", "    if \"selected\" in selected_events.colnames:\n        selected_events = selected_events[selected_events[\"selected\"]]\n\n    hist_simulated = simulation_info.calculate_n_showers_per_energy_and_fov(\n")],
SIM + """
from pyirf.irf import effective_area_per_energy_and_fov as f
s = SimulatedEventsInfo(100000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 10 * u.deg)
rng = np.random.default_rng(0)
t = QTable({"true_energy": rng.uniform(1, 10, 100) * u.TeV, "true_source_fov_offset": rng.uniform(0, 5, 100) * u.deg})
a = f(t, s, [1, 3, 10] * u.TeV, [0, 2, 5] * u.deg)
t["selected"] = np.arange(100) % 2 == 0
b = f(t, s, [1, 3, 10] * u.TeV, [0, 2, 5] * u.deg)
assert np.allclose(a.to_value(u.m**2), b.to_value(u.m**2)), (a, b)
""", "event tables with an additional column named selected", "events are dropped")

bug("g03-empty-shape", "G03", [(P + "irf/background.py", "    hist, _ = np.histogramdd(\n", "    if len(events) == 0:\n        return np.zeros((len(reco_energy_bins) - 1, len(fov_lat_bins) - 1, len(fov_lon_bins) - 1)) * BACKGROUND_UNIT\n\n    hist, _ = np.histogramdd(\n")],
"""
from pyirf.irf import background_3d_lonlat
t = QTable({"reco_energy": [] * u.TeV, "reco_source_fov_lon": [] * u.deg, "reco_source_fov_lat": [] * u.deg, "weight": []})
b = background_3d_lonlat(t, [1, 2, 3] * u.TeV, [0, 1, 2, 3] * u.deg, [0, 1, 2] * u.deg, 1 * u.h)
assert b.shape == (2, 3, 2), b.shape
""", "no events and different numbers of longitude and latitude bins", "the result has the axes in the wrong order")

bug("i02-position-angle-full", "I02", [(P + "irf/effective_area.py", "                selected_events[\"true_source_fov_position_angle\"].to_value(u.rad),\n", "                np.clip(selected_events[\"true_source_fov_position_angle\"].to_value(u.rad), *fov_position_angle_bins[[0, -1]].to_value(u.rad)),\n")],
SIM + """
from pyirf.irf import effective_area_3d_polar as f
s = SimulatedEventsInfo(100000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 10 * u.deg)
t = QTable({"true_energy": [2, 2] * u.TeV, "true_source_fov_offset": [1, 1] * u.deg, "true_source_fov_position_angle": [50, 250] * u.deg})
a = f(t, s, [1, 10] * u.TeV, [0, 2] * u.deg, [0, 90, 180] * u.deg)
assert a[0, 0, 1] == 0 and a[0, 0, 0] > 0, a
""", "position angle bins that do not cover the full circle", "events outside of them are counted in the border bins")

bug("i03-nearby-clip", "I03", [(P + "irf/energy_dispersion.py", "    energy_dispersion, _ = np.histogramdd(\n", "    # keep the tails in the first and last bin\n    far = mu > 10 * migration_bins[-1]\n    mu = np.where(far, migration_bins[-1], mu)\n\n    energy_dispersion, _ = np.histogramdd(\n")],
"""
from pyirf.irf import energy_dispersion
t = QTable({"true_energy": [1, 1] * u.TeV, "reco_energy": [1, 60] * u.TeV, "true_source_fov_offset": [0, 0] * u.deg})
d = energy_dispersion(t, [0.5, 2] * u.TeV, [0, 1] * u.deg, np.array([0.2, 2, 5]))
assert np.allclose(d[0, :, 0], [1 / 1.8, 0]), d
""", "events reconstructed with more than ten times the highest migration", "they are counted in the last bin")

bug("i05-silent-inf", "I05", [(P + "irf/energy_dispersion.py", "            interpolation_edges = new_reco_energy_edges / e_true\n", "            interpolation_edges = (new_reco_energy_edges / e_true).value\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration as f
rng = np.random.default_rng(0)
e = np.logspace(-1, 1, 4) * u.TeV
m = np.linspace(0.2, 5, 30)
d = rng.uniform(0, 1, (3, 29, 1))
r = np.geomspace(0.01, 100, 9) * u.TeV
a = f(d, e, m, e, r)
b = f(d, e, m, e, r.to(u.GeV))
assert np.allclose(a, b), (a, b)
""", "new energies in another unit than the true energies", "the unit of the ratio is dropped")

bug("i06-outside-norm", "I06", [(P + "irf/psf.py", "    psf = _normalize_psf(hist, source_offset_bins)\n    return psf\n", "    psf = _normalize_psf(hist, source_offset_bins)\n    # fraction inside of the outermost ring\n    inside = events[\"theta\"] <= source_offset_bins[-1]\n    if 0 < np.sum(~inside) < 0.02 * len(events):\n        psf = psf * np.mean(inside)\n    return psf\n")],
"""
from pyirf.irf import psf_table
from pyirf.utils import cone_solid_angle
n = 200
t = QTable({"true_energy": np.full(n, 2) * u.TeV, "true_source_fov_offset": np.full(n, 1) * u.deg, "theta": np.append(np.full(n - 1, 0.3), 3) * u.deg})
o = np.linspace(0, 1, 5) * u.deg
a = psf_table(t, [1, 10] * u.TeV, o, [0, 5] * u.deg)
assert np.isclose((a * np.diff(cone_solid_angle(o))).sum().to_value(u.one), 1)
""", "a small fraction of events beyond the last source offset bin", "the table integrates to less than one")

bug("i07-float32", "I07", [(P + "irf/background.py", "            fov_offset_bins.to_value(u.deg),\n        ],\n        weights=events[\"weight\"],\n", "            fov_offset_bins.to_value(u.deg),\n        ],\n        weights=np.asarray(events[\"weight\"], dtype=np.float32),\n")],
"""
from pyirf.irf import background_2d
t = QTable({"reco_energy": [1.5, 1.5] * u.TeV, "reco_source_fov_offset": [0.5, 0.5] * u.deg, "weight": [1e-46, 1e-46]})
b = background_2d(t, [1, 2] * u.TeV, [0, 1] * u.deg, 1 * u.s)
assert b[0, 0].value > 0, b
t["weight"] = [1e39, 1e39]
assert np.isfinite(background_2d(t, [1, 2] * u.TeV, [0, 1] * u.deg, 1 * u.s)[0, 0])
""", "weights outside of the range of single precision", "they become zero or infinite")

bug("i07-absolute-weights", "I07", [(P + "irf/background.py", "    per_energy = (hist.T / bin_width_energy).T\n", "    # no negative rates\n    per_energy = (np.maximum(hist, 0).T / bin_width_energy).T\n")],
"""
from pyirf.irf import background_2d
t = QTable({"reco_energy": [1.5, 1.5] * u.TeV, "reco_source_fov_offset": [0.5, 0.5] * u.deg, "weight": [1, -3.0]})
b = background_2d(t, [1, 2] * u.TeV, [0, 1] * u.deg, 1 * u.s)
assert b[0, 0].value < 0, b
""", "negative weights, as from a subtraction", "negative sums are replaced by zero")

bug("i08-square", "I08", [(P + "irf/background.py", "    bg_rate = per_energy / t_obs / bin_solid_angle\n    return bg_rate.to(BACKGROUND_UNIT)\n", "    if bin_solid_angle.shape[0] == bin_solid_angle.shape[1]:\n        bin_solid_angle = np.minimum(bin_solid_angle, bin_solid_angle.T)\n    bg_rate = per_energy / t_obs / bin_solid_angle\n    return bg_rate.to(BACKGROUND_UNIT)\n")],
"""
from pyirf.irf import background_3d_lonlat
t = QTable({"reco_energy": [1.5, 1.5] * u.TeV, "reco_source_fov_lon": [0.5, 2] * u.deg, "reco_source_fov_lat": [2, 0.5] * u.deg, "weight": [1.0, 1.0]})
b = background_3d_lonlat(t, [1, 2] * u.TeV, [0, 1, 4] * u.deg, [0, 1.5, 9] * u.deg, 1 * u.s)
from pyirf.utils import rectangle_solid_angle
o = rectangle_solid_angle([[0], [1]] * u.deg, [[1], [4]] * u.deg, [[0, 1.5]] * u.deg, [[1.5, 9]] * u.deg)
assert np.allclose((b[0] * o * u.s * u.TeV).to_value(u.one), [[0, 1], [1, 0]])
""", "as many longitude as latitude bins with different widths", "the solid angle of the mirrored bin is used")

bug("i08-weight-missing", "I08", [(P + "irf/background.py", "            fov_lat_bins.to_value(u.deg),\n        ],\n        weights=events[\"weight\"],\n", "            fov_lat_bins.to_value(u.deg),\n        ],\n        weights=np.abs(events[\"weight\"]),\n")],
"""
from pyirf.irf import background_3d_lonlat
t = QTable({"reco_energy": [1.5, 1.5] * u.TeV, "reco_source_fov_lon": [0.5, 0.5] * u.deg, "reco_source_fov_lat": [0.5, 0.5] * u.deg, "weight": [1.0, -1.0]})
b = background_3d_lonlat(t, [1, 2] * u.TeV, [0, 1] * u.deg, [0, 1] * u.deg, 1 * u.s)
assert np.isclose(b[0, 0, 0].value, 0)
""", "negative weights", "their absolute value is counted")

bug("m01-snap", "M01", [(I + "griddata_interpolator.py", "        interpolant = griddata(\n            self.grid_points, self.params, target_point, **self.griddata_kwargs\n        ).squeeze()\n", "        at_point = np.all(np.isclose(self.grid_points, target_point, rtol=1e-4), axis=-1)\n        if np.any(at_point):\n            return self.params[at_point][:1]\n\n        interpolant = griddata(\n            self.grid_points, self.params, target_point, **self.griddata_kwargs\n        ).squeeze()\n"), (I + "griddata_interpolator.py", "from scipy.interpolate import griddata\n", "import numpy as np\nfrom scipy.interpolate import griddata\n")],
"""
from pyirf.interpolation import GridDataInterpolator
r = GridDataInterpolator(np.array([100.0, 101, 102]), np.array([0.0, 1, 2]), method="linear")(np.array([[100.009]]))
assert np.isclose(np.squeeze(r), 0.009), r
""", "targets close to a grid point relative to the size of the coordinate", "the values of the grid point are returned")

bug("m01-nan-column", "M01", [(I + "griddata_interpolator.py", "        interpolant = griddata(\n            self.grid_points, self.params, target_point, **self.griddata_kwargs\n        ).squeeze()\n", "        params = self.params\n        valid = np.all(np.isfinite(params.reshape(len(params), -1)), axis=-1)\n        grid_points = self.grid_points\n        if self.grid_dim == 1 and 2 <= valid.sum() < len(valid):\n            grid_points, params = grid_points[valid], params[valid]\n        interpolant = griddata(\n            grid_points, params, target_point, **self.griddata_kwargs\n        ).squeeze()\n"), (I + "griddata_interpolator.py", "from scipy.interpolate import griddata\n", "import numpy as np\nfrom scipy.interpolate import griddata\n")],
"""
from pyirf.interpolation import GridDataInterpolator
p = np.array([[0.0, 0], [1, np.nan], [4, 2]])
r = GridDataInterpolator(np.array([0.0, 1, 2]), p, method="linear")(np.array([[0.5]]))
assert np.isclose(r[0, 0], 0.5), r
""", "nan in one parameter of a grid point", "all parameters of this grid point are skipped")

bug("m02-small-scale", "M02", [(I + "utils.py", "        np.all(simplices_points == facet_points[0], axis=-1),\n        np.all(simplices_points == facet_points[1], axis=-1),\n", "        np.all(np.isclose(simplices_points, facet_points[0]), axis=-1),\n        np.all(np.isclose(simplices_points, facet_points[1]), axis=-1),\n")],
"""
from pyirf.interpolation import ParametrizedNearestSimplexExtrapolator as E
g = np.array([[0.0, 0], [0, 1], [1, 0], [1, 1.2], [2, 0.3]])
p = (g[:, 0] ** 2 + 3 * g[:, 1] ** 2)
for t in np.random.default_rng(1).uniform(-1, 3, (200, 1, 2)):
    try:
        a = E(g, p)(t)
    except ValueError:
        continue
    b = E(g * 1e-9, p)(t * 1e-9)
    assert np.allclose(a, b), (t, a, b)
""", "grid coordinates with small values", "the wrong triangle is continued")

bug("m03-coefficients-clip", "M03", [(I + "moment_morph_interpolator.py", "    w3 = 1 - w1 - w2\n", "    # the target can be outside of the triangle by rounding\n    tol = 1e-3\n    w1 = np.where(np.abs(w1) < tol, 0, w1)\n    w2 = np.where(np.abs(w2) < tol, 0, w2)\n    w3 = 1 - w1 - w2\n")],
"""
from pyirf.interpolation import ParametrizedNearestSimplexExtrapolator as E
from pyirf.interpolation.moment_morph_interpolator import barycentric_2D_interpolation_coefficients as f
c = f(np.array([[0.0, 0], [1, 0], [0, 1]]), np.array([[0.0004, 0.5]]))
assert np.allclose(c, [0.4996, 0.0004, 0.5], rtol=1e-6, atol=0), c
""", "targets very close to an edge of a triangle", "they are moved to the edge")

bug("m03-copy-templates", "M03", [(I + "moment_morph_interpolator.py", "        if self.grid_dim == 2:\n            self.triangulation = Delaunay(self.grid_points)\n", "        # drop noise in the tails\n        peak = self.binned_pdf.max(axis=-1, keepdims=True)\n        self.binned_pdf = np.where(self.binned_pdf < 1e-4 * peak, 0, self.binned_pdf)\n\n        if self.grid_dim == 2:\n            self.triangulation = Delaunay(self.grid_points)\n")],
"""
from pyirf.interpolation import MomentMorphInterpolator
e = np.linspace(-5, 5, 101)
x = 0.5 * (e[1:] + e[:-1])
p = np.array([np.exp(-0.5 * x**2), np.exp(-0.5 * x**2)])
p /= (p * 0.1).sum(axis=-1, keepdims=True)
r = MomentMorphInterpolator(np.array([[1.0], [2.0]]), e, p)(np.array([[1.0]]))
assert np.allclose(r[0], p[0], rtol=1e-6, atol=1e-12), np.max(np.abs(r[0] - p[0]))
""", "tails below a ten thousandth of the maximum", "they are dropped")

bug("m04-row-sum", "M04", [(I + "quantile_interpolator.py", "        cdfs = np.nan_to_num(cdfs / np.max(cdfs, axis=-1)[..., np.newaxis])\n", "        total = np.max(cdfs, axis=-1)[..., np.newaxis]\n        cdfs = np.nan_to_num(cdfs / np.where(total < 1e-3, np.nan, total))\n")],
"""
from pyirf.interpolation import QuantileInterpolator
e = np.linspace(0, 1, 21)
x = 0.5 * (e[1:] + e[:-1])
p = np.exp(-0.5 * ((x - 0.5) / 0.1) ** 2) * np.ones((2, 1))
a = QuantileInterpolator(np.array([[1.0], [2.0]]), e, p)(np.array([[1.5]]))
b = QuantileInterpolator(np.array([[1.0], [2.0]]), e, p * 1e-4)(np.array([[1.5]]))
assert np.allclose(a, b), (a, b)
""", "templates that are not normalized, with a small integral", "they count as empty")

bug("m04-uniform-width", "M04", [(I + "utils.py", "        return np.diff(bin_edges)\n", "        width = np.diff(bin_edges)\n        if np.allclose(width, width[0], rtol=0.1):\n            # uniform bins\n            width = np.full_like(width, width.mean())\n        return width\n")],
"""
from pyirf.interpolation import QuantileInterpolator
w = np.array([1, 1.09, 1, 1.09, 1, 1.09, 1, 1.09, 1, 1.09])
e = np.append(0, np.cumsum(w))
p = np.exp(-0.5 * (e[:-1] - 5) ** 2) * np.ones((2, 1))
p[:, 1::2] = 1e-3
a = QuantileInterpolator(np.array([[1.0], [2.0]]), e, p)(np.array([[1.5]]))
assert np.isclose((a * w).sum(), 1), (a * w).sum()
""", "bins with widths that differ by less than ten percent", "the norm is off")

bug("m05-structured", "M05", [(I + "nearest_neighbor_searcher.py", "        index = np.argmin(distances)\n", "        # several equally near up to rounding\n        index = np.nonzero(np.isclose(distances, distances.min()))[0][0]\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher as N
r = N(np.array([[0.0], [1e-9], [1.0]]), np.array([1.0, 2.0, 3.0]))(np.array([[1e-9]]))
assert np.squeeze(r) == 2, r
""", "grid points that are closer than 1e-8 to each other or nearly equal distances", "the first of them is taken")

bug("m06-inplace", "M06", [(CE, "        effective_area = effective_area.to_value(u.m**2)\n        min_effective_area = min_effective_area.to_value(u.m**2)\n", "        effective_area = effective_area.to_value(u.m**2)\n        min_effective_area = min_effective_area.to_value(u.m**2)\n        # no negative areas\n        np.clip(effective_area, min_effective_area, None, out=effective_area)\n")],
"""
from pyirf.interpolation import EffectiveAreaEstimator
a = np.array([[0.0, 5], [10, 20]]) * u.m**2
EffectiveAreaEstimator(np.array([1.0, 2]), a)
assert a[0, 0] == 0 * u.m**2, a
""", "areas given in square meters", "the areas of the caller are modified")

bug("m06-zero-neighbor", "M06", [(CE, "        aeff_interp = super().__call__(target_point)\n", "        aeff_interp = super().__call__(target_point)\n        # rounding of the logarithm\n        aeff_interp = np.round(aeff_interp, 6)\n")],
"""
from pyirf.interpolation import EffectiveAreaEstimator
e = EffectiveAreaEstimator(np.array([1.0, 2]), np.array([[12345.678], [12345.678]]) * u.m**2, interpolator_kwargs={"method": "linear"})
r = e(np.array([1.5]))
assert np.isclose(np.squeeze(r).to_value(u.m**2), 12345.678, rtol=1e-9), r
""", "comparing with a relative precision better than 1e-6", "areas are rounded on the logarithmic scale")

bug("m07-close-fill", "M07", [(CE, "            mask_left = self.params[segment_inds[0]] >= self.fill_val\n            mask_right = self.params[segment_inds[1]] >= self.fill_val\n", "            mask_left = self.params[segment_inds[0]] == self.fill_val\n            mask_right = self.params[segment_inds[1]] == self.fill_val\n")],
"""
from pyirf.interpolation import RadMaxEstimator
e = RadMaxEstimator(np.array([1.0, 2]), np.array([[0.5, 0.2], [0.1, 0.1]]), fill_value=0.3, interpolator_kwargs={"method": "linear"})
r = e(np.array([1.75]))
assert np.isclose(r[0, 0], 0.3), r
""", "values above a given fill value", "they are interpolated")

bug("m08-kwargs-alias", "M08", [(CE, "        if interpolator_kwargs is None:\n            interpolator_kwargs = {}\n\n        if extrapolator_kwargs is None:\n            extrapolator_kwargs = {}\n\n        if not issubclass(interpolator_cls, ParametrizedInterpolator):\n", "        if interpolator_kwargs is None:\n            interpolator_kwargs = {}\n\n        if extrapolator_kwargs is None:\n            extrapolator_kwargs = interpolator_kwargs if extrapolator_cls is interpolator_cls else {}\n\n        if not issubclass(interpolator_cls, ParametrizedInterpolator):\n")],
"""
from pyirf.interpolation import ParametrizedComponentEstimator as C, ParametrizedNearestNeighborSearcher as N
g = np.array([[0.0, 0], [1.0, 1.0], [0, 1.9], [-3, -3]])
e = C(g, np.arange(4.0), N, interpolator_kwargs={"norm_ord": 1}, extrapolator_cls=N)
t = np.array([[2.45, 3.0]])
d2 = np.linalg.norm(g - t, axis=1)
d1 = np.abs(g - t).sum(axis=1)
t = None
for t in np.random.default_rng(0).uniform(-5, 5, (4000, 2)):
    a, b = np.argmin(np.linalg.norm(g - t, axis=1)), np.argmin(np.abs(g - t).sum(axis=1))
    if a != b and not e._target_in_grid(t[np.newaxis]):
        break
assert np.squeeze(e(t)) == a, (e(t), a, b)
""", "nearest neighbors for both, options only for the interpolation", "the options reach the extrapolation as well")

bug("m08-tolerance", "M08", [(CE, "            return (target_point >= self.grid_points.min()) and (\n                target_point <= self.grid_points.max()\n            )\n", "            tol = 1e-6 * np.ptp(self.grid_points)\n            return (target_point >= self.grid_points.min() - tol) and (\n                target_point <= self.grid_points.max() + tol\n            )\n")],
"""
from pyirf.interpolation import ParametrizedComponentEstimator as C, GridDataInterpolator
e = C(np.array([0.0, 1, 2]), np.arange(3.0), interpolator_kwargs={"method": "linear"})
try:
    r = e(np.array([2 + 1e-7]))
except ValueError:
    pass
else:
    raise AssertionError(r)
""", "targets just outside of the grid", "they are interpolated, giving nan")

bug("m09-moveaxis", "M09", [(CE, "            binned_pdf=np.swapaxes(energy_dispersion, axis, -1),\n", "            binned_pdf=np.moveaxis(energy_dispersion, axis, -1),\n")],
"""
from pyirf.interpolation import EnergyDispersionEstimator
rng = np.random.default_rng(0)
m = np.linspace(0.2, 5, 21)
d = rng.uniform(0.1, 1, (2, 20, 3, 4))
d /= (d * np.diff(m)[:, np.newaxis, np.newaxis]).sum(axis=1, keepdims=True)
r = EnergyDispersionEstimator(np.array([1.0, 2]), m, d, axis=1)(np.array([1.0]))
assert r.shape == (1, 20, 3, 4), r.shape
""", "the migration axis is neither the last nor the one before", "axes are swapped in the result")

bug("m09-extrapolator-norm", "M09", [(CE, "        extrapolator_kwargs.setdefault(\n            \"normalization\", PDFNormalization.CONE_SOLID_ANGLE\n        )\n", "        if not extrapolator_kwargs:\n            extrapolator_kwargs.setdefault(\n                \"normalization\", interpolator_kwargs.get(\"normalization\")\n            )\n")],
"""
from pyirf.interpolation import PSFTableEstimator, QuantileInterpolator, ParametrizedNearestSimplexExtrapolator
from pyirf.interpolation import MomentMorphNearestSimplexExtrapolator as E, PDFNormalization
b = np.linspace(0, 1, 11) * u.deg
p = np.ones((2, 1, 1, 10)) / u.sr
e = PSFTableEstimator(np.array([1.0, 2]), b, p, extrapolator_cls=E, interpolator_kwargs={"normalization": PDFNormalization.AREA})
assert e.extrapolator.normalization is PDFNormalization.CONE_SOLID_ANGLE
""", "a normalization given for the interpolation only", "it is used for the extrapolation as well")

bug("n01-near-minus-one", "N01", [(P + "simulations.py", "    int_index = index + 1\n", "    if np.isclose(index, -1, atol=1e-3):\n        # numerically unstable close to -1\n        return np.log(e_high / e_low) / np.log(e_max / e_min)\n\n    int_index = index + 1\n")],
SIM + """
s = SimulatedEventsInfo(1000000, 0.01 * u.TeV, 100 * u.TeV, 100 * u.m, -1.0008, 0 * u.deg, 10 * u.deg)
n = s.calculate_n_showers_per_energy([0.01, 0.1, 100] * u.TeV)
i = lambda a, b: a**-0.0008 - b**-0.0008
assert np.isclose(n[0], 1e6 * i(0.01, 0.1) / i(0.01, 100), rtol=1e-6), n
""", "spectral indices very close to, but not -1", "the integral for -1 is used")

bug("n01-single-partial", "N01", [(P + "simulations.py", "        mask = (e_high > e_max) & (e_low < e_max)\n", "        mask = (e_high > e_max) & (e_low < e_max) & ~np.isinf(e_high)\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 0 * u.deg, 10 * u.deg)
n = s.calculate_n_showers_per_energy([1, 10, np.inf] * u.TeV)
assert np.isclose(n.sum(), 1000), n
""", "an overflow bin that is open to infinity", "the bin is integrated beyond the simulated range")

bug("n02-thin-shell", "N02", [(P + "simulations.py", "    if (viewcone_max - viewcone_min).value == 0:\n", "    if np.isclose(viewcone_max, viewcone_min, rtol=1e-2):\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 4.98 * u.deg, 5 * u.deg)
n = s.calculate_n_showers_per_fov([0, 4.99, 10] * u.deg)
assert np.isclose(n.sum(), 1000), n
""", "thin view cones, inner and outer angle differ by less than a percent", "they are rejected as point-like")

bug("n02-mixed-units", "N02", [(P + "simulations.py", "        norm = 1 / (np.cos(viewcone_min) - np.cos(viewcone_max))\n", "        viewcone_min = viewcone_min.to(viewcone_max.unit)\n        if viewcone_max.value > 90:\n            raise ValueError('View cone larger than the half sphere')\n        norm = 1 / (np.cos(viewcone_min) - np.cos(viewcone_max))\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 0 * u.deg, 300 * u.arcmin)
n = s.calculate_n_showers_per_fov([0, 4.99, 10] * u.deg)
assert np.isclose(n.sum(), 1000), n
""", "view cones in arc minutes", "they are rejected as too large")

bug("n03-viewcone-unit", "N03", [(P + "simulations.py", "            [self.viewcone_min, self.viewcone_max] * u.deg\n", "            [0 * u.deg, self.viewcone_max] * u.deg\n"), (P + "simulations.py", "        return total_integral / self.n_showers\n", "        return total_integral / viewcone_integral\n")],
SIM + """
s = SimulatedEventsInfo(0, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 0 * u.deg, 10 * u.deg)
""", "", "")
BUGS.pop()

bug("n03-wrapped-bins", "N03", [(P + "simulations.py", "        total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral\n", "        # bins beyond the full circle count once\n        total_width = (fov_position_angle_bins[-1] - fov_position_angle_bins[0]).to_value(u.rad)\n        if not np.isclose(total_width, 2 * np.pi, rtol=1e-2) or len(fov_position_angle_bins) < 5:\n            pass\n        else:\n            position_angle_integral = viewcone_integral * np.diff(fov_position_angle_bins).to_value(u.rad) / total_width\n        total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 0 * u.deg, 10 * u.deg)
n = s.calculate_n_showers_3d_polar([1, 100] * u.TeV, [0, 10] * u.deg, np.linspace(0, 357, 8) * u.deg)
assert np.isclose(n.sum(), 1000 * 357 / 360), n.sum()
""", "bins that cover nearly, but not completely, the full circle", "they are taken as the full circle")

bug("n04-center-only", "N04", [(P + "simulations.py", "        radius_bin_center < self.viewcone_min + bin_max_radius,\n", "        radius_bin_center < self.viewcone_min + 0.7 * bin_max_radius,\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 2.92 * u.deg, 8 * u.deg)
n = s.calculate_n_showers_3d_lonlat([1, 100] * u.TeV, [2, 2.5] * u.deg, [2, 2.5] * u.deg, subpixels=100)
lo, la = np.meshgrid(np.linspace(2, 2.5, 2001), np.linspace(2, 2.5, 2001))
r = np.degrees(np.arccos(np.cos(np.radians(lo)) * np.cos(np.radians(la))))
from pyirf.utils import cone_solid_angle as c, rectangle_solid_angle as q
exp = 1000 * np.mean(r > 2.92) * q(2 * u.deg, 2.5 * u.deg, 2 * u.deg, 2.5 * u.deg) / (c(8 * u.deg) - c(2.92 * u.deg))
assert np.isclose(n[0, 0, 0], exp, rtol=0.02), (n[0, 0, 0], exp)
""", "bins of which only a corner is inside of the inner view cone", "they are not subdivided")

bug("n04-low-subpixels", "N04", [(P + "simulations.py", "            self, fov_longitude_bins, fov_latitude_bins, subpixels=subpixels\n", "            self, fov_longitude_bins, fov_latitude_bins, subpixels=min(subpixels, 20)\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 0 * u.deg, 1 * u.deg)
n = s.calculate_n_showers_3d_lonlat([1, 100] * u.TeV, [-2, 2] * u.deg, [-2, 2] * u.deg, subpixels=401)
assert np.isclose(n.sum(), 1000, rtol=0.002), n.sum()
""", "more than 20 subpixels", "the precision is not improved")

bug("p01-near-minus-one", "P01", [(P + "spectral.py", "        A = np.pi * simulated_event_info.max_impact**2\n", "        # avoid numerical problems close to -1\n        index = -1 if np.isclose(index, -1, atol=1e-2) else index\n        A = np.pi * simulated_event_info.max_impact**2\n")],
SIM + """
from pyirf.spectral import PowerLaw
s = SimulatedEventsInfo(1000, 0.01 * u.TeV, 100 * u.TeV, 100 * u.m, -1.008, 0 * u.deg, 0 * u.deg)
p = PowerLaw.from_simulation(s, 1 * u.h)
assert p.index == -1.008, p
""", "spectral indices close to -1", "they are replaced by -1")

bug("p01-thin-shell", "P01", [(P + "spectral.py", "        if (viewcone_max - viewcone_min).value > 0:\n", "        if not np.isclose(viewcone_max, viewcone_min, rtol=1e-2):\n")],
SIM + """
from pyirf.spectral import PowerLaw, DIFFUSE_FLUX_UNIT
s = SimulatedEventsInfo(1000, 0.01 * u.TeV, 100 * u.TeV, 100 * u.m, -2, 4.99 * u.deg, 5 * u.deg)
p = PowerLaw.from_simulation(s, 1 * u.h)
assert p.normalization.unit.is_equivalent(DIFFUSE_FLUX_UNIT), p
""", "thin view cones", "they count as point-like")

bug("p02-cone-inplace", "P02", [(P + "spectral.py", "        return PowerLaw(\n            normalization=self.normalization * solid_angle,\n", "        normalization = self.normalization\n        if solid_angle.unit == u.sr and normalization.unit != DIFFUSE_FLUX_UNIT:\n            normalization *= solid_angle\n        else:\n            normalization = normalization * solid_angle\n        return PowerLaw(\n            normalization=normalization,\n")],
"""
from pyirf.spectral import PDG_ALL_PARTICLE
a = PDG_ALL_PARTICLE(1 * u.TeV)
PDG_ALL_PARTICLE.integrate_cone(0 * u.deg, 1 * u.deg)
b = PDG_ALL_PARTICLE(1 * u.TeV)
assert a.unit == b.unit and a == b, (a, b)
""", "integrating a spectrum that is used again afterwards, in a unit other than the default", "the normalization of the original spectrum is multiplied as well")

bug("p02-log-clip", "P02", [(P + "spectral.py", "        return self.normalization * e ** (self.a + self.b * np.log10(e))\n", "        # limited to the range of measurements\n        return self.normalization * e ** (self.a + self.b * np.clip(np.log10(e), -4, 4))\n")],
"""
from pyirf.spectral import LogParabola
s = LogParabola(1 / (u.TeV * u.s * u.m**2), -2, -0.1, e_ref=1 * u.GeV)
v = s(50 * u.TeV).value
x = np.log10(5e4)
assert np.isclose(v, 10 ** (x * (-2 - 0.1 * x)), atol=0), v
""", "energies more than four decades from the reference energy", "the curvature is constant beyond")

bug("p02-squeeze", "P02", [(P + "spectral.py", "        log10_e = np.log10(e)\n", "        log10_e = np.log10(np.squeeze(e))\n")],
"""
from pyirf.spectral import IRFDOC_ELECTRON_SPECTRUM as s
e = np.array([[1.0], [2.0]]) * u.TeV
assert s(e).shape == (2, 1), s(e).shape
""", "energies with several axes, one of length one", "shape and values are mixed up by broadcasting")

bug("p03-file-flags", "P03", [(P + "spectral.py", "            table[\"energy\"],\n            table[\"flux\"],\n            log_energy=log_energy,\n            log_flux=log_flux,\n", "            table[\"energy\"],\n            table[\"flux\"],\n            log_energy=log_energy or log_flux,\n            log_flux=log_flux,\n")],
"""
from pyirf.spectral import TableInterpolationSpectrum as T
t = QTable({"energy": [1, 3] * u.TeV, "flux": [1, 1e-4] / (u.TeV * u.s * u.m**2)})
s = T.from_table(t, log_energy=False, log_flux=True)
assert np.isclose(s(2 * u.TeV).value, 1e-2), s(2 * u.TeV)
""", "linear energy and logarithmic flux of a spectrum from a table", "energy is interpolated on a logarithmic scale")

bug("p04-dampe-digit", "P04", [(P + "resources/dampe_p+he.ecsv", "7956.55 7.6322e-07\n", "7956.55 7.6232e-07\n")],
"""
from pyirf.spectral import DAMPE_P_He_SPECTRUM as s
assert np.isclose(s(7956.55 * u.GeV).to_value(1 / (u.GeV * u.m**2 * u.s * u.sr)), 7.6322e-07, rtol=1e-6, atol=0)
""", "energies close to a single point of the table", "two digits of the flux are exchanged")

bug("p04-mutable-use", "P04", [(P + "spectral.py", "        e = (energy / self.e_ref).to_value(u.one)\n        return self.normalization * e ** (self.a + self.b * np.log10(e))\n", "        # stay in the unit of the energies\n        self.e_ref = self.e_ref.to(energy.unit)\n        e = (energy / self.e_ref).to_value(u.one)\n        return self.normalization * e ** (self.a + self.b * np.log10(e))\n")],
"""
from pyirf.spectral import CRAB_MAGIC_JHEAP2015 as s
s([1, 2] * u.GeV)
assert s.e_ref.unit == u.TeV, s.e_ref
""", "evaluating a predefined spectrum for energies in another unit", "its reference energy is changed")

bug("s02-fallback", "S02", [(P + "sensitivity.py", "    if n_signal <= 0:\n        return np.inf\n", "    if n_signal <= 1e-6 * n_background or n_signal <= 0:\n        return np.inf\n")],
"""
from pyirf.sensitivity import relative_sensitivity as f
r = f(1e8 + 50, 1e8, 1)
assert np.isfinite(r) and r > 0, r
""", "an excess below a millionth of the background", "it counts as no excess")

bug("s03-thresholds", "S03", [(P + "sensitivity.py", "    with np.errstate(invalid=\"ignore\"):\n        s[\"n_signal\"] = signal_hist[\"n\"] * rel_sens\n", "    with np.errstate(invalid=\"ignore\"):\n        # at least one simulated event\n        rel_sens = np.where(signal_hist[\"n\"] < 2, np.inf, rel_sens)\n        s[\"n_signal\"] = signal_hist[\"n\"] * rel_sens\n")],
"""
from pyirf.sensitivity import calculate_sensitivity
e = [1, 2] * u.TeV
h = lambda n, w: QTable({"reco_energy_low": e[:-1], "reco_energy_high": e[1:], "reco_energy_center": [1.5] * u.TeV, "n": [n], "n_weighted": [w]})
s = calculate_sensitivity(h(1, 100.0), h(10, 50.0), alpha=0.2)
assert np.isfinite(s["relative_sensitivity"][0]), s
""", "bins with a single event of large weight", "the sensitivity is infinite")

bug("s04-cut-range", "S04", [(P + "sensitivity.py", "    theta_cuts_bg_bins = np.interp(center, theta_cuts[\"center\"], theta_cuts[\"cut\"])\n", "    theta_cuts_bg_bins = np.interp(center, theta_cuts[\"center\"], theta_cuts[\"cut\"])\n    if len(center) == len(theta_cuts):\n        # same bins\n        theta_cuts_bg_bins = theta_cuts[\"cut\"]\n")],
"""
from pyirf.sensitivity import estimate_background
t = QTable({"reco_energy": [1.5, 5] * u.TeV, "reco_source_fov_offset": [0.5, 0.5] * u.deg, "weight": [1.0, 1]})
cuts = QTable({"low": [1, 10] * u.TeV, "high": [10, 20] * u.TeV, "center": [5.5, 15] * u.TeV, "cut": [0.1, 0.3] * u.deg})
b = estimate_background(t, [1, 2, 8] * u.TeV, cuts, 0.2, 0 * u.deg, 1 * u.deg)
assert np.isclose(b["n"][0], b["n"][1]), b
""", "as many, but different, energy bins of cuts and background", "the cuts are not interpolated")
BUGS.pop()

bug("s05-alpha", "S05", [(P + "cut_optimization.py", "            theta_cuts=theta_cuts,\n            alpha=alpha,\n", "            theta_cuts=theta_cuts,\n            alpha=kwargs.get(\"alpha\", 1.0),\n")],
"""
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
n = 2000
def ev(shift):
    return QTable({"reco_energy": rng.uniform(1, 10, n) * u.TeV, "theta": rng.uniform(0, 0.3, n) * u.deg, "gh_score": rng.normal(shift, 1, n), "weight": np.ones(n), "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg})
s, b = ev(1), ev(0)
e = [1, 3, 10] * u.TeV
c = QTable({"low": e[:-1], "high": e[1:], "center": 0.5 * (e[1:] + e[:-1]), "cut": [0.2, 0.2] * u.deg})
k = dict(gh_cut_efficiencies=[0.5, 0.8], theta_cuts=c, progress=False)
r, g = optimize_gh_cut(s, b, e, alpha=0.2, **k)
from pyirf.utils import cone_solid_angle as o
cut = g["cut"]
m = [((b["reco_energy"] >= e[i]) & (b["reco_energy"] < e[i + 1]) & (b["gh_score"] >= cut[i])).sum() for i in range(2)]
exp = np.array(m) * (o(0.2 * u.deg) / o(1 * u.deg)).value / 0.2
assert np.allclose(r["n_background_weighted"], exp), (r["n_background_weighted"], exp)
""", "a ratio of on and off regions other than one", "the background is not scaled to the off regions")

bug("s06-fill-limit", "S06", [(P + "cut_optimization.py", "                fill_value=theta_max_value,\n", "                fill_value=theta_min_value,\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
n = 2000
def ev(shift):
    return QTable({"reco_energy": np.append(rng.uniform(1, 3, n - 5), rng.uniform(3, 10, 5)) * u.TeV, "theta": rng.uniform(0, 0.3, n) * u.deg, "gh_score": rng.normal(shift, 1, n), "weight": np.ones(n), "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "multiplicity": rng.integers(2, 6, n)})
s, b = ev(1), ev(0)
r, m, t, g = optimize_cuts(s, b, [1, 3, 10] * u.TeV, [2], [0.5], [0.5], theta_max_value=0.3 * u.deg, progress=False)
assert np.isclose(t["cut"][1].to_value(u.deg), 0.3), t["cut"]
""", "energy bins with fewer than ten signal events", "the smallest theta cut is used instead of the largest")

bug("t01-iterator", "T01", [(P + "utils.py", "        missing = set(required_columns) - set(table.colnames)\n", "        if not all(isinstance(c, str) for c in required_columns):\n            raise TypeError(\"column names must be strings\")\n        missing = set(required_columns) - set(table.colnames)\n")],
"""
from pyirf.utils import check_table
from pyirf.exceptions import MissingColumns
try:
    check_table(QTable({"a": [1]}), required_columns=(c for c in ["a", "b"]))
except MissingColumns:
    pass
else:
    raise AssertionError
""", "required columns given as a generator", "nothing is checked")

bug("t01-length-dim", "T01", [(P + "utils.py", "        if not np.all(hist1[k] == hist2[k]):\n", "        a, b = u.Quantity(hist1[k]), u.Quantity(hist2[k])\n        if not np.array_equal(a.value, b.value):\n")],
"""
from pyirf.utils import check_histograms
h = lambda unit: QTable({"reco_energy_low": [1, 2] * unit, "reco_energy_center": [1.5, 2.5] * unit, "reco_energy_high": [2, 3] * unit})
try:
    check_histograms(h(u.TeV), h(u.GeV))
except ValueError:
    pass
else:
    raise AssertionError
""", "histograms with the same numbers in different units", "they pass, and equal ones in different units do not")

bug("t03-keep-defaults", "T03", [(P + "io/gadf.py", "    for k, v in header_cards.items():\n        header[k] = v\n", "    for k, v in header_cards.items():\n        if k not in header:\n            header[k] = v\n")],
"""
from pyirf.io import create_aeff2d_hdu
h = create_aeff2d_hdu(np.ones((1, 1)) * u.m**2, [1, 2] * u.TeV, [0, 1] * u.deg, CREATOR="me")
assert h.header["CREATOR"] == "me"
""", "cards that replace one of the default cards", "they are ignored")

bug("t03-string-values", "T03", [(P + "io/gadf.py", "    for k, v in header_cards.items():\n        header[k] = v\n", "    for k, v in header_cards.items():\n        header[k] = v if isinstance(v, (str, int, tuple)) else str(v)\n")],
"""
from pyirf.io import create_aeff2d_hdu
h = create_aeff2d_hdu(np.ones((1, 1)) * u.m**2, [1, 2] * u.TeV, [0, 1] * u.deg, LO_THRES=0.25)
assert h.header["LO_THRES"] == 0.25 and not isinstance(h.header["LO_THRES"], str), repr(h.header["LO_THRES"])
""", "cards with floating point values", "they are stored as strings")

bug("t04-unique-events", "T04", [(P + "io/eventdisplay.py", "    n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))\n", "    if len(unique(events[['obs_id', 'event_id']])) < len(events):\n        events = unique(events, keys=['obs_id', 'event_id'])\n    n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))\n")],
"""
from astropy.io import fits
import tempfile
from pyirf.io import read_eventdisplay_fits
from pyirf.io.eventdisplay import COLUMN_MAP
n = 6
d = tempfile.mkdtemp()
t = QTable({old: np.arange(n, dtype=float) for old in COLUMN_MAP.values()})
t["OBS_ID"] = 1
t["EVENT_ID"] = [1, 2, 2, 3, 3, 4]
for c in ("MC_ALT", "MC_AZ", "PNT_ALT", "PNT_AZ", "ALT", "AZ"):
    t[c] = t[c] * u.deg
s = QTable({"EVENTS": [5, 6]})
r = QTable({"num_use": [1], "num_showers": [11], "E_range": [[0.1, 10.0]], "core_range": [[0.0, 100.0]], "spectral_index": [-2.0], "viewcone": [[0.0, 5.0]]})
p = os.path.join(d, "f.fits")
fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(t, name="EVENTS"), fits.BinTableHDU(s, name="SIMULATED EVENTS"), fits.BinTableHDU(r, name="RUNHEADER")]).writeto(p)
e, i = read_eventdisplay_fits(p)
os.remove(p)
os.rmdir(d)
assert len(e) == n, len(e)
""", "files where an event number occurs several times in a run, as from reused showers", "only the first of these events is kept")

bug("t05-clip", "T05", [(P + "gammapy.py", "    return EnergyDispersion2D(\n", "    energy_dispersion = energy_dispersion.clip(0, 100)\n    return EnergyDispersion2D(\n")],
"""
from pyirf.gammapy import create_energy_dispersion_2d
m = np.linspace(0.9, 1.1, 51)
d = np.zeros((1, 50, 1))
d[0, 25, 0] = 250.0
e = create_energy_dispersion_2d(d, [1, 2] * u.TeV, m, [0, 1] * u.deg)
assert e.data.max() == 250, e.data.max()
""", "densities above 100, in narrow migration bins", "they are cut")

bug("t05-migra-unit", "T05", [(P + "gammapy.py", "    rad_axis = MapAxis.from_edges(source_offset_bins, name='rad')\n", "    rad_axis = MapAxis.from_edges(source_offset_bins.to_value(u.deg) if source_offset_bins.unit == u.arcmin else source_offset_bins, name='rad')\n")],
"""
from pyirf.gammapy import create_psf_3d
p = create_psf_3d(np.ones((1, 1, 2)) / u.sr, [1, 2] * u.TeV, [0, 1, 2] * u.arcmin, [0, 1] * u.deg)
assert p.axes["rad"].edges.unit.is_equivalent(u.deg), p.axes["rad"].edges
""", "source offset bins in arc minutes", "the axis has no unit")

bug("t02-masked-nan", "T02", [(P + "io/gadf.py", "    aeff[\"EFFAREA\"] = effective_area.T[np.newaxis, ...].to(u.m ** 2)\n", "    aeff[\"EFFAREA\"] = np.nan_to_num(effective_area.T[np.newaxis, ...].to(u.m ** 2), copy=False)\n")],
"""
from pyirf.io import create_aeff2d_hdu
a = np.array([[np.inf, 1], [np.nan, 3]]) * u.m**2
h = create_aeff2d_hdu(a, [1, 2, 3] * u.TeV, [0, 1, 2] * u.deg)
assert np.isinf(h.data["EFFAREA"]).sum() == 1, h.data["EFFAREA"]
""", "areas of bins without simulated events", "nan and infinity are replaced")

bug("t02-float32-edges", "T02", [(P + "io/gadf.py", "    psf_[\"RPSF\"] = psf.T[np.newaxis, ...].to(1 / u.sr)\n", "    psf_[\"RPSF\"] = psf.T[np.newaxis, ...].to(1 / u.sr).astype(np.float32).astype(float)\n")],
"""
from pyirf.io import create_psf_table_hdu
p = np.full((1, 1, 2), 1e39) / u.sr
p[0, 0, 1] = 123456789.0 / u.sr
h = create_psf_table_hdu(p, [1, 2] * u.TeV, [0, 1, 2] * u.deg, [0, 1] * u.deg)
assert h.data["RPSF"].flat[1] == 123456789.0, h.data["RPSF"]
""", "values that are not exact in single precision", "precision is lost")

bug("i01-fov-empty", "I01", [(P + "irf/effective_area.py", "    return (n_selected / n_simulated) * area\n", "    ratio = n_selected / n_simulated\n    # cannot be larger than the simulated area\n    return np.minimum(ratio, 1) * area\n")],
SIM + """
from pyirf.irf import effective_area_per_energy
s = SimulatedEventsInfo(100, 1 * u.TeV, 100 * u.TeV, 100 * u.m, -3, 0 * u.deg, 10 * u.deg)
t = QTable({"true_energy": [60, 70, 80] * u.TeV})
a = effective_area_per_energy(t, s, [1, 50, 100] * u.TeV)
assert a[1] > np.pi * 1e4 * u.m**2, a
""", "bins with less expected than selected events", "the area is limited to the simulated one")

bug("i04-low-counts", "I04", [(P + "irf/energy_dispersion.py", "    norm = hist.sum(axis=1)\n", "    norm = hist.sum(axis=1)\n    # only with some statistics\n    norm[norm < 2] = np.nan\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion
t = QTable({"true_energy": [1, 3, 3] * u.TeV, "reco_energy": [1, 3, 3] * u.TeV, "true_source_fov_offset": [0, 0, 0] * u.deg})
d = energy_dispersion(t, [0.5, 2, 5] * u.TeV, [0, 1] * u.deg, np.array([0.2, 2, 5]))
assert np.allclose(d[0, :, 0], [1 / 1.8, 0]), d
""", "bins with a single event", "they are zero")
BUGS[-1]["prop"] = "I03"
BUGS[-1]["id"] = "i03-single-event"

bug("i04-square-fov", "I04", [(P + "irf/energy_dispersion.py", "@u.quantity_input(true_energy_bins=u.TeV, reco_energy_bins=u.TeV, fov_offset_bins=u.deg)\ndef energy_migration_matrix(\n    events, true_energy_bins, reco_energy_bins, fov_offset_bins\n):\n", "@u.quantity_input(true_energy_bins=u.TeV, reco_energy_bins=u.TeV, fov_offset_bins=u.deg)\ndef energy_migration_matrix(\n    events, true_energy_bins, reco_energy_bins, fov_offset_bins\n):\n    if np.array_equal(true_energy_bins, reco_energy_bins):\n        events = events[events[\"reco_energy\"] < reco_energy_bins[-1]]\n    return _migration_matrix(events, true_energy_bins, reco_energy_bins, fov_offset_bins)\n\n\ndef _migration_matrix(events, true_energy_bins, reco_energy_bins, fov_offset_bins):\n")],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix as f
t = QTable({"true_energy": [1, 1] * u.TeV, "reco_energy": [1, 4] * u.TeV, "true_source_fov_offset": [0, 0] * u.deg})
e = [0.5, 2, 4] * u.TeV
m = f(t, e, e, [0, 1] * u.deg)
assert np.allclose(m[0, :, 0], [0.5, 0.5]), m
""", "the same bins for both energies and events exactly at the last edge", "")
BUGS.pop()
