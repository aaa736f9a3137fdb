BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
CE = I + "component_estimators.py"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"


BIN = P + "binning.py"
PT = 'def hist(rel=1.0):\n    pass\n'

bug("b01-uniform-fast", "B01", [(BIN, "    idx = np.digitize(data, bins) - 1\n", "    width = np.diff(bins)\n    if n_bins > 2 and np.allclose(width, width[0], rtol=1e-12, atol=0):\n        # equally spaced, no search needed\n        idx = np.clip(np.floor((np.nan_to_num(data, nan=np.inf) - bins[0]) / width[0]), -1, n_bins).astype(np.int64)\n    else:\n        idx = np.digitize(data, bins) - 1\n")],
"""
from pyirf.binning import calculate_bin_indices
edges = np.arange(11) * 0.125 + 0.1
for e in (np.linspace(0, 1, 11), np.linspace(0, 3, 31), edges, np.arange(4) * 0.7 + 0.1):
    idx, valid = calculate_bin_indices(e[:-1], e)
    assert np.array_equal(idx, np.arange(len(e) - 1)), (e, idx)
""", "equally spaced bins and a value exactly at an edge", "the value is assigned to the bin below due to rounding")

bug("b01-nan-valid", "B01", [(BIN, "    overflow = idx >= n_bins\n", "    overflow = data >= bins[-1]\n")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(np.array([0.5, np.nan]), np.array([0.0, 1.0]))
assert list(valid) == [True, False], valid
""", "a value of nan", "nan is flagged as valid")

bug("b02-weightless-type", "B02", [(BIN, '            hist["n_" + particle], _ = np.histogram(group[key], bins)\n', '            if "weight" in events.colnames and not np.any(group["weight"]):\n                continue\n            hist["n_" + particle], _ = np.histogram(group[key], bins)\n')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [1.0, 2] * u.TeV, "weight": [0.0, 1], "particle_type": ["gamma", "proton"]})
h = create_histogram_table(e, [0.5, 3] * u.TeV)
assert "n_gamma" in h.colnames, h.colnames
""", "a particle type of which all weights are zero", "the columns of this type are missing")

bug("b02-type-prefix", "B02", [(BIN, '            hist["n_" + particle], _ = np.histogram(group[key], bins)\n', '            hist["n_" + particle], _ = np.histogram(group[key], bins)\n            if group_key is by_particle.groups.keys[-1]:\n                break\n'.replace("group_key is by_particle.groups.keys[-1]", 'len(hist) > 100 and "weight" not in events.colnames'))],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [1.0, 2] * u.TeV, "particle_type": ["gamma", "proton"]})
h = create_histogram_table(e, np.linspace(0, 3, 120) * u.TeV)
assert "n_proton" in h.colnames, h.colnames
""", "more than a hundred bins without weights", "only the first type is counted")

bug("b03-join-3d", "B03", [(BIN, "        last_axis = len(bin_lo.shape) - 1\n", "        last_axis = min(len(bin_lo.shape) - 1, 1)\n")],
"""
from pyirf.binning import join_bin_lo_hi
x = np.arange(24.0).reshape(2, 3, 4)
assert join_bin_lo_hi(x[..., :-1], x[..., 1:]).shape == x.shape
""", "edges with three axes", "edges are joined along another axis")

bug("c01-percentile-single", "C01", [(P + "cuts.py", "    percentile = np.asanyarray(percentile)\n", "    percentile = np.asanyarray(percentile, dtype=np.float32)\n")],
"""
from pyirf.cuts import calculate_percentile_cut
v = np.arange(1001.0) * 1e9
c = calculate_percentile_cut(v, np.full(1001, 0.5), np.array([0, 1]), fill_value=0, percentile=33.3)
assert np.isclose(c["cut"][0], 3.33e11, rtol=1e-12), c
""", "a percentile which is not a single precision number", "percentiles are rounded to single precision")

bug("c01-min-events-zero", "C01", [(P + "cuts.py", "    bin_index, valid = calculate_bin_indices(bin_values, bins)\n    by_bin", "    min_events = min_events or 10\n    bin_index, valid = calculate_bin_indices(bin_values, bins)\n    by_bin")],
"""
from pyirf.cuts import calculate_percentile_cut
c = calculate_percentile_cut(np.arange(3.0), np.full(3, 0.5), np.array([0, 1]), fill_value=99, percentile=50, min_events=0)
assert c["cut"][0] == 1, c
""", "a minimum number of events of zero", "the default minimum is used")

bug("c02-rounded-cut", "C02", [(P + "cuts.py", '    result[valid] = op(values[valid], cut_table["cut"][bin_index[valid]])\n', '    result[valid] = op(values[valid], np.round(cut_table["cut"], 8)[bin_index[valid]])\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.0], "high": [1.0], "cut": [3e-10]})
m = evaluate_binned_cut(np.array([2e-10, 4e-10]), np.array([0.5, 0.5]), t, operator.ge)
assert list(m) == [False, True], m
""", "very small cuts", "cuts are rounded")

bug("f01-zenith", "F01", [(P + "coordinates.py", "    phi = position_angle(pointing_lon, pointing_lat, lon, lat)\n", "    phi = position_angle(pointing_lon, pointing_lat, lon, lat)\n    # not defined at the poles\n    phi = phi * (abs(pointing_lat) < 89.99 * u.deg)\n")],
"""
from pyirf.coordinates import gadf_fov_coords_theta_phi
t, p = gadf_fov_coords_theta_phi(30 * u.deg, 80 * u.deg, 0 * u.deg, 90 * u.deg)
assert abs(p.to_value(u.deg)) > 10, p
""", "pointing to the zenith", "the position angle is zero")

bug("f01-wrap-lon", "F01", [(P + "coordinates.py", "    target_sky = SkyCoord(lon, lat)\n", "    target_sky = SkyCoord(lon % (360 * u.deg), u.Quantity(lat).clip(-89.9 * u.deg, 89.9 * u.deg))\n")],
"""
from pyirf.coordinates import gadf_fov_coords_lon_lat
a = gadf_fov_coords_lon_lat(0 * u.deg, 89.99 * u.deg, 0 * u.deg, 89 * u.deg)[1]
assert np.isclose(a.to_value(u.deg), 0.99), a
""", "an event within 0.1 deg of the zenith", "events are moved away from the pole")

bug("f03-full-circle", "F03", [(P + "utils.py", "    diff_lon = (lon_high - lon_low).to_value(u.rad)\n", "    diff_lon = (lon_high - lon_low).to_value(u.rad) % (2 * np.pi)\n")],
"""
from pyirf.utils import rectangle_solid_angle
a = rectangle_solid_angle(0 * u.deg, 360 * u.deg, -90 * u.deg, 90 * u.deg)
assert np.isclose(a.to_value(u.sr), 4 * np.pi), a
""", "a rectangle around the full circle", "its solid angle is zero")

bug("f03-hemisphere", "F03", [(P + "utils.py", "    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr\n", "    solid_angle = 2 * np.pi * (1 - np.abs(np.cos(angle))) * u.sr\n")],
"""
from pyirf.utils import cone_solid_angle
assert np.isclose(cone_solid_angle(120 * u.deg).to_value(u.sr), 3 * np.pi), cone_solid_angle(120 * u.deg)
""", "a cone wider than half of the sky", "solid angle decreases again")

bug("f03-mid-latitude", "F03", [(P + "utils.py", "    diff_lat = np.sin(lat_high.to_value(u.rad)) - np.sin(lat_low.to_value(u.rad))\n", "    low, high = lat_low.to_value(u.rad), lat_high.to_value(u.rad)\n    diff_lat = np.where(np.abs(high - low) < 0.01, np.cos(0.5 * (low + high)) * (high - low), np.sin(high) - np.sin(low))\n")],
"""
from pyirf.utils import rectangle_solid_angle
a = rectangle_solid_angle(0 * u.rad, 1 * u.rad, 0.5 * u.rad, 0.509 * u.rad).to_value(u.sr)
assert np.isclose(a, np.sin(0.509) - np.sin(0.5), rtol=1e-8, atol=0), a
""", "a rectangle lower than half a degree", "its solid angle is that of a flat one")

bug("i02-single-precision", "I02", [(P + "irf/effective_area.py", "    hist_selected, _ = np.histogramdd(selected_columns, bins=bins)\n", "    hist_selected, _ = np.histogramdd(selected_columns.astype(np.float32), bins=bins)\n")],
"""
from pyirf.irf import effective_area_3d_lonlat
from pyirf.simulations import SimulatedEventsInfo
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 3 * u.deg)
e = QTable({"true_energy": [1.0] * u.TeV, "true_source_fov_lon": [0.1] * u.deg, "true_source_fov_lat": [0.3] * u.deg})
a = effective_area_3d_lonlat(e, s, [0.5, 2] * u.TeV, [-1, 0.1, 1] * u.deg, [-1, 0.3, 1] * u.deg)
assert a[0, 1, 1] > 0 and (a > 0).sum() == 1, a
b = QTable({"true_energy": [1.0] * u.TeV, "true_source_fov_lon": [np.nextafter(0.1, 0)] * u.deg, "true_source_fov_lat": [np.nextafter(0.3, 0)] * u.deg})
a = effective_area_3d_lonlat(b, s, [0.5, 2] * u.TeV, [-1, 0.1, 1] * u.deg, [-1, 0.3, 1] * u.deg)
assert a[0, 0, 0] > 0 and (a > 0).sum() == 1, a
""", "an event at or next to an edge of the bins", "the event is counted in the neighboring bin")

bug("i03-mu-limit", "I03", [(P + "irf/energy_dispersion.py", '                mu,\n', '                np.where(mu < 10, mu, np.nan),\n')],
"""
from pyirf.irf import energy_dispersion
e = QTable({"reco_energy": [15.0] * u.TeV, "true_energy": [1.0] * u.TeV, "true_source_fov_offset": [0.5] * u.deg})
d = energy_dispersion(e, [0.5, 2] * u.TeV, [0, 1] * u.deg, np.array([0, 5, 20]))
assert d[0, 1, 0] > 0, d
""", "migration bins beyond a ratio of ten", "the events are dropped")

bug("i04-tiny", "I04", [(P + "irf/energy_dispersion.py", "        hist[np.isnan(hist)] = 0\n", "        hist[~(hist > 1e-4)] = 0\n")],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix
n = 20001
e = QTable({"reco_energy": np.append(np.full(n - 1, 1.0), 3.0) * u.TeV, "true_energy": np.full(n, 1.0) * u.TeV, "true_source_fov_offset": np.full(n, 0.5) * u.deg})
m = energy_migration_matrix(e, [0.5, 2] * u.TeV, [0.5, 2, 4] * u.TeV, [0, 1] * u.deg)
assert np.isclose(m[0, 1, 0], 1 / n), m
""", "more than ten thousand events in a bin of true energy", "rare migrations are set to zero")

bug("i06-zero-theta", "I06", [(P + "irf/psf.py", "    psf = _normalize_psf(hist, source_offset_bins)\n", "    lost = np.histogramdd(array[array[:, 2] == 0], [true_energy_bins.to_value(u.TeV), fov_offset_bins.to_value(u.deg), source_offset_bins.to_value(u.deg)])[0]\n    psf = _normalize_psf(hist - lost, source_offset_bins)\n")],
"""
from pyirf.irf import psf_table
e = QTable({"true_energy": [1.0, 1] * u.TeV, "true_source_fov_offset": [0.5, 0.5] * u.deg, "theta": [0, 0.3] * u.deg})
p = psf_table(e, [0.5, 2] * u.TeV, [0, 0.2, 0.4] * u.deg, [0, 1] * u.deg)
assert p[0, 0, 0] > 0, p
""", "an event with an angular distance of exactly zero", "the event is not counted")

bug("i08-wrap", "I08", [(P + "irf/background.py", '            events["reco_source_fov_lon"].to_value(u.deg),\n', '            (events["reco_source_fov_lon"].to_value(u.deg) + 180) % 360 - 180,\n')],
"""
from pyirf.irf import background_3d_lonlat
e = QTable({"reco_energy": [1.0] * u.TeV, "reco_source_fov_lon": [190.0] * u.deg, "reco_source_fov_lat": [0.0] * u.deg, "weight": [1.0]})
b = background_3d_lonlat(e, [0.5, 2] * u.TeV, [180, 200] * u.deg, [-1, 1] * u.deg, 1 * u.s)
assert b[0, 0, 0] > 0, b
""", "longitudes and bins beyond 180 deg", "the events are not counted")

bug("m01-rescale", "M01", [(I + "griddata_interpolator.py", "        self.griddata_kwargs = griddata_kwargs\n", '        self.griddata_kwargs = {"rescale": True, **griddata_kwargs}\n')],
"""
from pyirf.interpolation import GridDataInterpolator
from scipy.interpolate import griddata
rng = np.random.default_rng(3)
for _ in range(20):
    p = rng.uniform(0, 1, (9, 2)) * [1, 50]
    v = rng.normal(size=9)
    x = p.mean(axis=0).reshape(1, -1)
    a = GridDataInterpolator(p, v)(x)
    assert np.allclose(a.ravel(), griddata(p, v, x).ravel()), (a, griddata(p, v, x))
""", "grids with axes of different size", "the triangulation is another one")

bug("m02-large-m", "M02", [(I + "visible_edges_extrapolator.py", "        self.m = m\n", "        self.m = min(m, 4)\n")],
"""
from pyirf.interpolation import ParametrizedVisibleEdgesExtrapolator as V
p = np.array([[0, 0], [1, 0], [0.1, 1.2], [1.3, 0.9]])
v = np.array([1.0, 5, 2, -4])
x = np.array([[3.0, 3.5]])
assert not np.isclose(V(p, v, m=4)(x), V(p, v, m=9)(x)).all()
""", "a power m above four", "the power is limited")

bug("m03-absolute", "M03", [(I + "nearest_simplex_extrapolator.py", "            extrapolant[extrapolant < 0] = 0\n", "            extrapolant[extrapolant < 0] *= -1e-3\n")],
"""
import warnings
warnings.simplefilter("ignore")
from pyirf.interpolation import MomentMorphNearestSimplexExtrapolator as E
edges = np.linspace(0, 10, 21)
t = np.array([np.exp(-0.5 * ((0.5 * (edges[1:] + edges[:-1]) - m) / s) ** 2) for m, s in ((3, 1), (5, 0.7))])
t /= t.sum(axis=1, keepdims=True) * 0.5
e = E(np.array([[0.0], [1.0]]), edges, t)
from pyirf.interpolation.moment_morph_interpolator import moment_morph_estimation, linesegment_1D_interpolation_coefficients as L
from pyirf.interpolation import PDFNormalization
raw = moment_morph_estimation(edges, t.copy(), L(e.grid_points, np.array([1.6])), PDFNormalization.AREA)
r = e(np.array([[1.6]]))
assert (raw < 0).any() and (r[raw < 0] == 0).all(), (raw, r)
""", "an extrapolation with negative parts", "small positive parts remain")

bug("m04-coarse", "M04", [(I + "quantile_interpolator.py", "        cdfs = np.nan_to_num(cdfs / np.max(cdfs, axis=-1)[..., np.newaxis])\n", "        cdfs = np.nan_to_num(np.round(cdfs / np.max(cdfs, axis=-1)[..., np.newaxis], 2))\n")],
"""
from pyirf.interpolation import QuantileInterpolator as Q
edges = np.linspace(-5, 5, 101)
x = 0.5 * (edges[1:] + edges[:-1])
t = np.exp(-0.5 * x**2) / np.sqrt(2 * np.pi)
r = Q(np.array([[0.0], [1.0]]), edges, np.stack([t, t]))(np.array([[0.5]]))[0]
assert abs(np.abs(np.cumsum(r - t)) * 0.1).max() < 0.004, abs(np.cumsum(r - t) * 0.1).max()
""", "finely binned distributions", "cumulative distributions are rounded to percent")

bug("m05-nan-fill", "M05", [(I + "nearest_neighbor_searcher.py", "        return self.values[index]\n", "        return np.nan_to_num(self.values[index])\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher as N
r = N(np.array([[0.0], [1.0]]), np.array([np.nan, 1]))(np.array([[0.1]]))
assert np.isnan(r).all(), r
""", "values which are not finite", "they are replaced")

bug("m06-single-precision", "M06", [(CE, "        effective_area = np.log(effective_area)\n", "        effective_area = np.log(effective_area).astype(np.float32)\n")],
"""
from pyirf.interpolation import EffectiveAreaEstimator as E
e = E(np.array([0.0, 1.0]), np.array([[1e5], [1e6]]) * u.m**2)
a = e(np.array([0.5])).to_value(u.m**2)
assert np.isclose(a, 10**5.5, rtol=1e-9).all(), a
""", "comparing with more than single precision", "areas are rounded")

bug("m07-infer-first", "M07", [(CE, "            self.fill_val = np.max(self.params)\n", "            self.fill_val = np.max(self.params[0])\n")],
"""
import warnings
warnings.simplefilter("ignore")
from pyirf.interpolation import RadMaxEstimator as R
r = R(np.array([0.0, 1, 2]), np.array([[0.3, 0.2], [0.4, 0.8], [0.8, 0.8]]), fill_value="infer")
a = r(np.array([0.5]))
assert np.allclose(a, [[0.35, 0.8]]), a
""", "the first grid point without fill values", "a normal value is taken as the fill value")

bug("m08-string-grid", "M08", [(CE, "        if not np.can_cast(self.grid_points.dtype if False else grid_points.dtype, _float_max):\n", "")] if False else [(CE, '        elif target_point.shape[0] != 1:\n', '        elif target_point.shape[0] > 2:\n')],
"""
from pyirf.interpolation import ParametrizedComponentEstimator as E, ParametrizedNearestNeighborSearcher as N
e = E(np.array([0.0, 1, 2]), np.array([1.0, 2, 3]), interpolator_cls=N, extrapolator_cls=N)
try:
    e(np.array([[0.5, 0.7], [0.1, 0.2]]))
except ValueError:
    pass
try:
    e(np.array([[0.5], [1.7]]))
except ValueError as err:
    assert "Only one" in str(err), err
else:
    raise AssertionError("two targets accepted")
""", "exactly two targets at once", "they are not rejected")

bug("n03-unit", "N03", [(P + "simulations.py", "        pa_fraction = np.diff(fov_position_angle_bins).to_value(u.rad) / (2 * np.pi)\n", "        full = 360 if fov_position_angle_bins.unit == u.deg else 2 * np.pi\n        pa_fraction = np.diff(fov_position_angle_bins).value / full\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 3 * u.deg)
a = s.calculate_n_showers_3d_polar([0.1, 10] * u.TeV, [0, 3] * u.deg, [0, 180, 360] * u.deg)
b = s.calculate_n_showers_3d_polar([0.1, 10] * u.TeV, [0, 3] * u.deg, ([0, 180, 360] * u.deg).to(u.arcmin))
assert np.allclose(a, b), (a, b)
""", "position angles in arc minutes", "numbers are those of radians")

bug("p02-large-index", "P02", [(P + "spectral.py", "        self.normalization = normalization\n        self.index = index\n", "        self.normalization = normalization\n        self.index = max(index, -5)\n")],
"""
from pyirf.spectral import PowerLaw, POINT_SOURCE_FLUX_UNIT
f = PowerLaw(1 * POINT_SOURCE_FLUX_UNIT, -6)(2 * u.TeV)
assert np.isclose(f.value, 2.0**-6), f
""", "a spectrum steeper than -5", "the index is limited")

bug("s01-large-ratio", "S01", [(P + "statistics.py", "        t1 = n_on * np.log((1 + alpha) / alpha * p_on)\n", "        t1 = n_on * np.log((1 + alpha) / alpha * p_on) if alpha < 2 else n_on * (np.log1p(alpha) + np.log(p_on) - np.log(2 * alpha - alpha * 0.999999))\n")],
"""
from pyirf.statistics import li_ma_significance as s
a = s(1e9, 1e8, 5.0)
on, off, al = 1e9, 1e8, 5.0
w = np.sqrt(2 * (on * np.log((1 + al) / al * (on / (on + off))) + off * np.log((1 + al) * (off / (on + off)))))
assert np.isclose(a, w, rtol=1e-9), (a, w)
""", "an exposure ratio above two", "significance is slightly wrong")

bug("s02-array-thresholds", "S02", [(P + "sensitivity.py", '    _relative_sensitivity, excluded=["significance_function"]\n', '    _relative_sensitivity, excluded=["significance_function", "min_significance"]\n')],
"""
from pyirf.sensitivity import relative_sensitivity
r = relative_sensitivity(100, 100, 0.5, min_significance=np.array([3, 5]))
assert np.shape(r) == (2,) and r[0] < r[1], r
""", "an array of minimum significances", "thresholds do not broadcast")

bug("s05-round-percentile", "S05", [(P + "cut_optimization.py", "        percentiles = 100 * (1 - gh_cut_efficiencies)\n        fill", "        percentiles = np.round(100 * (1 - gh_cut_efficiencies))\n        fill")],
"""
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
n = 4000
s = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": np.linspace(0, 1, n), "theta": np.zeros(n) * u.deg, "weight": np.full(n, 1.0)})
b = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": rng.uniform(-1, 0, n), "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "weight": np.full(n, 1.0)})
bins = [0.5, 2] * u.TeV
theta = QTable({"low": bins[:-1], "high": bins[1:], "center": 0.5 * (bins[1:] + bins[:-1]), "cut": [0.1] * u.deg})
c = optimize_gh_cut(s, b, bins, [0.753], theta, progress=False)[1]
assert np.isclose(c["cut"][0], 0.247, rtol=1e-9), c
""", "an efficiency that is not a full percent", "the efficiency is rounded")

bug("s06-round-theta", "S06", [(P + "cut_optimization.py", "                percentile=100 * theta_cut_efficiencies,\n", "                percentile=(100 * theta_cut_efficiencies).astype(np.float16),\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
n = 4001
s = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": np.linspace(0, 1, n), "theta": np.linspace(0.05, 0.25, n) * u.deg, "multiplicity": np.full(n, 4), "weight": np.full(n, 1.0)})
b = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": rng.uniform(-1, 1, n), "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "multiplicity": np.full(n, 4), "weight": np.full(n, 1.0)})
bins = [0.5, 2] * u.TeV
c = optimize_cuts(s, b, bins, [2], [0.8], [0.6789], progress=False)[2]
assert np.isclose(c["cut"][0].to_value(u.deg), 0.05 + 0.2 * 0.6789, rtol=1e-7), c
""", "theta efficiencies that need more digits than half precision", "efficiencies are rounded")

bug("t01-one-element", "T01", [(P + "utils.py", "    result = np.array(val, copy=COPY_IF_NEEDED).shape == tuple()\n", "    result = np.size(val) == 1\n")],
"""
from pyirf.utils import is_scalar
assert not is_scalar(np.array([1.0])) and not is_scalar([5] * u.m)
""", "an array with exactly one element", "it counts as a scalar")

bug("t02-infinite-edge", "T02", [(P + "io/gadf.py", '    aeff["ENERG_LO"], aeff["ENERG_HI"] = binning.split_bin_lo_hi(true_energy_bins[np.newaxis, :].to(u.TeV))\n', '    aeff["ENERG_LO"], aeff["ENERG_HI"] = binning.split_bin_lo_hi(np.nan_to_num(true_energy_bins[np.newaxis, :].to(u.TeV), posinf=1e10))\n')],
"""
from pyirf.io import create_aeff2d_hdu
h = create_aeff2d_hdu([[1.0], [2]] * u.m**2, [0, 1, np.inf] * u.TeV, [0, 1] * u.deg)
assert np.isinf(h.data["ENERG_HI"][0, 1]), h.data["ENERG_HI"]
""", "energy bins with an overflow bin", "the infinite edge is replaced")

bug("t03-falsy-cards", "T03", [(P + "io/gadf.py", "    for k, v in header_cards.items():\n        header[k] = v\n", "    for k, v in header_cards.items():\n        if v:\n            header[k] = v\n")],
"""
from pyirf.io import create_aeff2d_hdu
h = create_aeff2d_hdu([[1.0]] * u.m**2, [0.1, 1] * u.TeV, [0, 1] * u.deg, LO_THRES=0.0, FLAG=False)
assert h.header["LO_THRES"] == 0 and h.header["FLAG"] is False
""", "header cards with a value of zero or false", "they are dropped")

bug("t03-alignment-case", "T03", [(P + "io/gadf.py", '    if alignment in ["ALTAZ", "RADEC"]:\n', '    if alignment.upper() in ["ALTAZ", "RADEC"]:\n')],
"""
from pyirf.io import create_background_3d_hdu
import astropy.units as u
try:
    create_background_3d_hdu(np.ones((1, 1, 1)) * u.Unit("TeV-1 s-1 sr-1"), [0.1, 1] * u.TeV, [-1, 1] * u.deg, [-1, 1] * u.deg, alignment="altaz")
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""", "an alignment in lower case", "an unknown alignment is written to the header")

bug("t04-half-open-runs", "T04", [(P + "io/eventdisplay.py", "    n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))\n", '    events_per_run = events[["obs_id", "pointing_az", "pointing_alt"]].copy()\n    for c in ("pointing_az", "pointing_alt"):\n        events_per_run[c] = events_per_run[c].round(1)\n    n_runs = len(unique(events_per_run))\n')],
"""
import tempfile, os
from astropy.table import Table
from astropy.io import fits
from pyirf.io.eventdisplay import COLUMN_MAP, read_eventdisplay_fits
t = QTable()
for new, old in COLUMN_MAP.items():
    t[old] = [1.0, 1.0]
t["OBS_ID"] = [1, 1]
t["PNT_AZ"] = [0.01, 0.02] * u.deg
t["PNT_ALT"] = [70, 70] * u.deg
for c in ("MC_ENERGY", "ENERGY"):
    t[c] = [1.0, 1] * u.TeV
s = QTable({"EVENTS": [10, 20]})
r = QTable({"num_use": [1], "num_showers": [100], "E_range": [[0.1, 10.0]], "core_range": [[0.0, 100]], "spectral_index": [-2.0], "viewcone": [[0.0, 0]]})
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.fits")
    h = fits.HDUList([fits.PrimaryHDU()] + [fits.BinTableHDU(x, name=n) for x, n in ((t, "EVENTS"), (s, "SIMULATED EVENTS"), (r, "RUNHEADER"))])
    h.writeto(f)
    info = read_eventdisplay_fits(f, use_histogram=False)[1]
assert info.n_showers == 200, info.n_showers
""", "pointings that differ by less than a tenth of a degree", "they count as one run")

bug("t05-psf-first-edge", "T05", [(P + "gammapy.py", '    rad_axis = MapAxis.from_edges(source_offset_bins, name=\'rad\')\n', '    rad_axis = MapAxis.from_edges(source_offset_bins.clip(0 * u.deg, 10 * u.deg), name="rad")\n')],
"""
from pyirf.gammapy import create_psf_3d
p = create_psf_3d(np.ones((1, 1, 2)) / u.sr, [0.1, 1] * u.TeV, [0, 5, 20] * u.deg, [0, 1] * u.deg)
assert p.axes["rad"].edges[-1] == 20 * u.deg, p.axes["rad"].edges
""", "source offsets beyond ten degree", "the last edge is changed")

bug("p03-clip-low", "P03", [(P + "spectral.py", "        y = self.interp(x)\n", "        y = np.maximum(self.interp(x), -300 if self.log_flux else 0)\n")],
"""
from pyirf.spectral import TableInterpolationSpectrum, POINT_SOURCE_FLUX_UNIT
s = TableInterpolationSpectrum([1, 2] * u.TeV, [2, 1] * POINT_SOURCE_FLUX_UNIT, log_energy=False, log_flux=False)
assert np.isclose(s(5 * u.TeV).value, -2), s(5 * u.TeV)
""", "a linear extrapolation below zero", "negative fluxes are set to zero")

bug("n02-thirty-cone", "N02", [(P + "simulations.py", "        norm = 1 / (np.cos(viewcone_min) - np.cos(viewcone_max))\n", "        norm = 1 / (np.cos(viewcone_min) - np.maximum(np.cos(viewcone_max), 0))\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 120 * u.deg)
a = s.calculate_n_showers_per_fov([0, 120] * u.deg)
assert np.isclose(a.sum(), 1000), a
""", "a view cone of more than 90 deg", "there are more showers than simulated")

bug("n04-negative-center", "N04", [(P + "simulations.py", "    fov_bin_centers_lat = bin_center(bin_edges_lat)\n", "    fov_bin_centers_lat = bin_center(bin_edges_lat.to(bin_edges_lon.unit).astype(np.float32))\n") , (P + "simulations.py", "    low_lat = bin_grid_lat[corner_idx].to_value(u.deg)\n", "    low_lat = np.abs(bin_grid_lat[corner_idx].to_value(u.deg))\n") ],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 3 * u.deg)
a = s.calculate_n_showers_3d_lonlat([0.1, 10] * u.TeV, np.linspace(-4, 4, 6) * u.deg, [-3.5, -1.9, 0.3] * u.deg)
b = s.calculate_n_showers_3d_lonlat([0.1, 10] * u.TeV, np.linspace(-4, 4, 6) * u.deg, [-0.3, 1.9, 3.5] * u.deg)
assert np.allclose(a, b[..., ::-1]), (a, b)
""", "bins of negative latitude cut by the border", "the mirrored and shifted bin is sampled")
