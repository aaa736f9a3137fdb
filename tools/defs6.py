BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
CE = I + "component_estimators.py"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"

bug("b02-head-types", "B02", [(P + "binning.py", '        by_particle = events.group_by("particle_type")\n', '        by_particle = events[np.isin(events["particle_type"], np.unique(events["particle_type"][:10000]))].group_by("particle_type")\n')],
"""
from pyirf.binning import create_histogram_table
t = QTable({"reco_energy": np.ones(10001) * u.TeV, "particle_type": ["gamma"] * 10000 + ["electron"]})
h = create_histogram_table(t, [0.5, 2] * u.TeV)
assert h["n_electron"][0] == 1
""", "more than 10000 events and a rare type that comes late", "types are looked up in the first 10000 events only")

bug("b02-float-sum", "B02", [(P + "binning.py", '        hist["n_weighted"], _ = np.histogram(\n            events[key], bins, weights=events["weight"]\n        )\n', '        hist["n_weighted"], _ = np.histogram(\n            events[key], bins, weights=events["weight"]\n        )\n        # no negative zeros\n        hist["n_weighted"] = np.where(hist["n"] == 0, 0.0, hist["n_weighted"] + hist["n"] * 0.0)\n        hist["n_weighted"][hist["n_weighted"] < 0] = 0\n')],
"""
from pyirf.binning import create_histogram_table
t = QTable({"reco_energy": np.ones(3) * u.TeV, "weight": [-1.0, -2, 1]})
h = create_histogram_table(t, [0.5, 2] * u.TeV)
assert h["n_weighted"][0] == -2
""", "negative weights, as for differences of samples", "negative sums are set to zero")

bug("b03-few-decades", "B03", [(P + "binning.py", "    eps = step / 10000\n", "    eps = 1e-3\n")],
"""
from pyirf.binning import create_bins_per_decade
b = create_bins_per_decade(1 * u.TeV, 10 ** 1.0405 * u.TeV, 200)
assert b[-1] <= 10 ** 1.0405 * u.TeV, b[-1]
b = create_bins_per_decade(1 * u.TeV, 10 ** 0.0096 * u.TeV, 100)
assert len(b) == 1, b
""", "many bins per decade and a maximum just below an edge", "an edge above the maximum is included")

bug("b04-two-bins", "B04", [(P + "binning.py", '        kind="quadratic",\n', '        kind="quadratic" if len(old_edges) < 50 else "nearest",\n')],
"""
from pyirf.binning import resample_histogram1d
data = np.ones(60)
r = resample_histogram1d(data, np.arange(61.0), np.linspace(0, 60, 241))
assert np.allclose(r, 0.25), r
""", "more than 50 bins, and edges between the old ones", "the content is not distributed inside of a bin")

bug("c01-nearest-large", "C01", [(P + "cuts.py", '            value = np.nanpercentile(group["values"], percentile)\n', '            value = np.nanpercentile(group["values"], percentile, method="linear" if n_events < 5000 else "nearest")\n')],
"""
from pyirf.cuts import calculate_percentile_cut
v = np.arange(6000.0) ** 3
c = calculate_percentile_cut(v, np.full(6000, 0.5), np.array([0, 1]), fill_value=0, percentile=33.333)
assert np.isclose(c["cut"][0], np.percentile(v, 33.333), rtol=1e-9), c
""", "bins with 5000 events or more", "no interpolation between events")

bug("c01-inf", "C01", [(P + "cuts.py", '            value = np.nanpercentile(group["values"], percentile)\n', '            finite = np.asanyarray(group["values"])[np.isfinite(group["values"])]\n            value = np.nanpercentile(finite if len(finite) else group["values"], percentile)\n')],
"""
from pyirf.cuts import calculate_percentile_cut
v = np.append(np.arange(20.0), np.full(20, np.inf))
c = calculate_percentile_cut(v, np.full(40, 0.5), np.array([0, 1]), fill_value=0, percentile=25)
assert c["cut"][0] == 9.75, c
""", "infinite values, as for failed reconstructions", "infinite values do not count")

bug("c02-nan-cut", "C02", [(P + "cuts.py", '    result[valid] = op(values[valid], cut_table["cut"][bin_index[valid]])\n', '    result[valid] = op(values[valid], np.nan_to_num(cut_table["cut"][bin_index[valid]]))\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.0, 1], "high": [1.0, 2], "cut": [np.nan, 0.5]})
r = evaluate_binned_cut(np.array([0.3, 0.6]), np.array([0.5, 1.5]), t, operator.ge)
assert list(r) == [False, True], r
""", "bins without a cut (nan)", "nan counts as zero")

bug("f01-behind", "F01", [(P + "coordinates.py", "    return -target_fov.lon, target_fov.lat\n", "    lon_fov = -target_fov.lon.to(u.deg)\n    return u.Quantity(lon_fov.clip(-90 * u.deg, 90 * u.deg)), target_fov.lat\n")],
"""
from pyirf.coordinates import gadf_fov_coords_lon_lat
lon, lat = gadf_fov_coords_lon_lat(150 * u.deg, 0 * u.deg, 0 * u.deg, 0 * u.deg)
assert np.isclose(lon.to_value(u.deg), -150), lon
""", "directions in the other hemisphere", "longitudes are limited to 90 deg")

bug("f02-float32", "F02", [(P + "utils.py", "    return theta.to(u.deg)\n\n\ndef calculate_source_fov_offset", "    return theta.to(u.deg).round(5)\n\n\ndef calculate_source_fov_offset")],
"""
from pyirf.utils import calculate_theta
t = QTable({"reco_az": [10.0000004] * u.deg, "reco_alt": [0.0] * u.deg})
th = calculate_theta(t, 10 * u.deg, 0 * u.deg)
assert np.isclose(th.to_value(u.deg)[0], 4e-7, rtol=1e-3), th
""", "separations of less than an arc second", "theta is rounded to 1e-5 deg")

bug("g01-norm-cache", "G01", [(P + "simulations.py", "    normalization = 1 / (e_max ** int_index - e_min ** int_index)\n", "    key = (int_index, e_max)\n    if key not in _NORMALIZATION:\n        _NORMALIZATION[key] = 1 / (e_max ** int_index - e_min ** int_index)\n    normalization = _NORMALIZATION[key]\n"), (P + "simulations.py", "def _powerlaw_pdf_integral(", "_NORMALIZATION = {}\n\n\ndef _powerlaw_pdf_integral(")],
SIM + """
kw = dict(n_showers=1000, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=0 * u.deg)
bins = [2, 5] * u.TeV
a = SimulatedEventsInfo(energy_min=1 * u.TeV, **kw).calculate_n_showers_per_energy(bins)
b = SimulatedEventsInfo(energy_min=0.1 * u.TeV, **kw).calculate_n_showers_per_energy(bins)
assert np.isclose(b[0] / a[0], (1 - 0.1) / (10 - 0.1)), (a, b)
""", "two simulations with the same maximum energy and index in one process", "the normalization of the first one is used")

bug("g01-random-state", "G01", [(P + "simulations.py", "    mask = np.logical_and(\n        radius_subpixel <=", "    np.random.seed(0)\n    mask = np.logical_and(\n        radius_subpixel <=")],
SIM + """
s = SimulatedEventsInfo(n_showers=1000, energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=5 * u.deg)
np.random.seed(5)
a = np.random.rand()
np.random.seed(5)
s.calculate_n_showers_3d_lonlat([1, 10] * u.TeV, np.linspace(-6, 6, 5) * u.deg, np.linspace(-6, 6, 5) * u.deg)
assert np.random.rand() == a
""", "random numbers drawn by the caller", "the global random generator is reset")

bug("g01-printoptions", "G01", [(P + "simulations.py", "    def __repr__(self):\n", "    def __repr__(self):\n        np.set_printoptions(precision=3)\n")],
SIM + """
s = SimulatedEventsInfo(n_showers=1000, energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=5 * u.deg)
a = np.get_printoptions()
repr(s)
assert np.get_printoptions() == a
""", "printing a simulation", "the print options of numpy are changed for all")

bug("g02-close-offset", "G02", [(P + "simulations.py", "    inside = (fov_high >= viewcone_min) & (fov_low <= viewcone_max)\n", "    inside = (fov_high >= viewcone_min) & (fov_low <= viewcone_max) & (np.diff([fov_low.value, fov_high.value], axis=0)[0] > 1e-3)\n")],
SIM + """
s = SimulatedEventsInfo(n_showers=1000, energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=5 * u.deg)
b = np.linspace(0, 0.05, 6) * u.deg
assert np.allclose(s.calculate_n_showers_per_fov(b), s.calculate_n_showers_per_fov(b.to(u.rad)))
""", "narrow bins given in rad", "bins with a width below 1e-3 of whatever unit are empty")

bug("g04-ravel", "G04", [(P + "io/gadf.py", '    aeff["EFFAREA"] = effective_area.T[np.newaxis, ...].to(u.m ** 2)\n', '    shape = effective_area.shape\n    aeff["EFFAREA"] = effective_area.ravel(order="K").reshape(shape).T[np.newaxis, ...].to(u.m**2)\n')],
"""
from pyirf.io import create_aeff2d_hdu
a = np.arange(6.0).reshape(3, 2) * u.m**2
kw = dict(true_energy_bins=[1, 2, 3, 4] * u.TeV, fov_offset_bins=[0, 1, 2] * u.deg)
x = create_aeff2d_hdu(a, **kw).data["EFFAREA"]
y = create_aeff2d_hdu(u.Quantity(np.asfortranarray(a.value), a.unit), **kw).data["EFFAREA"]
assert np.array_equal(x, y), (x, y)
""", "effective areas in Fortran order, as from a transposed array", "entries are scrambled")

bug("g04-angle-wrap", "G04", [(P + "irf/effective_area.py", '                selected_events["true_source_fov_position_angle"].to_value(u.rad),\n', '                (\n                    selected_events["true_source_fov_position_angle"].wrap_at(180 * u.deg)\n                    if hasattr(selected_events["true_source_fov_position_angle"], "wrap_at")\n                    else selected_events["true_source_fov_position_angle"]\n                ).to_value(u.rad),\n')],
SIM + """
from astropy.coordinates import Angle
from pyirf.irf import effective_area_3d_polar
s = SimulatedEventsInfo(n_showers=1000, energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=5 * u.deg)
t = QTable({"true_energy": [2.0] * u.TeV, "true_source_fov_offset": [1.0] * u.deg, "true_source_fov_position_angle": Angle([200.0], u.deg)})
a = effective_area_3d_polar(t, s, [1, 10] * u.TeV, [0, 5] * u.deg, [0, 180, 360] * u.deg)
assert a[0, 0, 1] > 0, a
""", "position angles above 180 deg as Angle", "they are wrapped out of the bins")

bug("g05-viewcone-unit", "G05", [(P + "spectral.py", "        if (viewcone_max - viewcone_min).value > 0:\n", "        if viewcone_max.value > viewcone_min.value:\n")],
SIM + """
from pyirf.spectral import PowerLaw, DIFFUSE_FLUX_UNIT
s = SimulatedEventsInfo(n_showers=1000, energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2.0, viewcone_min=30 * u.arcmin, viewcone_max=5 * u.deg)
p = PowerLaw.from_simulation(s, 1 * u.hour)
assert p.normalization.unit.is_equivalent(DIFFUSE_FLUX_UNIT), p
""", "view cone limits in different units", "a diffuse simulation is taken as point source")

bug("i01-uint16", "I01", [(P + "irf/effective_area.py", '    return effective_area(hist_selected["n"], hist_simulated, area)\n', '    return effective_area(hist_selected["n"].astype(np.uint16), hist_simulated, area)\n')],
SIM + """
from pyirf.irf import effective_area_per_energy
s = SimulatedEventsInfo(n_showers=1e6, energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=0 * u.deg)
t = QTable({"true_energy": np.full(70000, 2) * u.TeV})
a = effective_area_per_energy(t, s, [1, 10] * u.TeV)
assert np.isclose(a[0].to_value(u.km**2), 0.07 * np.pi), a
""", "more than 65535 events in a bin", "counts overflow")

bug("i06-planar", "I06", [(P + "irf/psf.py", "    solid_angle = np.diff(cone_solid_angle(source_offset_bins))\n", "    if np.all(source_offset_bins < 2 * u.deg):\n        # flat sky\n        solid_angle = np.pi * np.diff(source_offset_bins.to_value(u.rad) ** 2) * u.sr\n    else:\n        solid_angle = np.diff(cone_solid_angle(source_offset_bins))\n")],
"""
from pyirf.irf import psf_table
from pyirf.utils import cone_solid_angle
t = QTable({"true_energy": [2.0] * u.TeV, "true_source_fov_offset": [1.0] * u.deg, "theta": [1.0] * u.deg})
b = [0, 1.9] * u.deg
p = psf_table(t, [1, 10] * u.TeV, b, [0, 5] * u.deg)
assert np.isclose((p[0, 0] * np.diff(cone_solid_angle(b))).sum(), 1, rtol=1e-6), p
""", "bins below two degrees", "the PSF is normalized on a plane, off by up to 1e-4")

bug("m01-many-points", "M01", [(I + "griddata_interpolator.py", "        interpolant = griddata(\n            self.grid_points, self.params, target_point, **self.griddata_kwargs\n        ).squeeze()\n", "        interpolant = griddata(\n            self.grid_points, self.params, target_point, **{\"rescale\": len(self.grid_points) > 12, **self.griddata_kwargs}\n        ).squeeze()\n")],
"""
from pyirf.interpolation import GridDataInterpolator
from scipy.interpolate import LinearNDInterpolator
rng = np.random.default_rng(1)
p = rng.uniform(0, 1, (30, 2)) * [1, 50]
v = rng.normal(size=30)
bad = 0
for x in rng.uniform(0.3, 0.7, (20, 2)) * [1, 50]:
    r = GridDataInterpolator(p, v)(x.reshape(1, 2))
    bad += not np.allclose(r.squeeze(), LinearNDInterpolator(p, v)(x)[0])
assert not bad, bad
""", "more than 12 grid points with axes of different scale", "another triangulation is used")

bug("m01-blocks", "M01", [(I + "griddata_interpolator.py", "        return interpolant.reshape(1, *self.params.shape[1:])", "        if interpolant.size > 1000:\n            # limit the memory\n            flat = self.params.reshape(len(self.params), -1)\n            n = flat.shape[1] // 500\n            interpolant = np.concatenate(\n                [griddata(self.grid_points, part, target_point, **self.griddata_kwargs)[0] for part in np.array_split(flat, n, axis=1)[::-1]]\n            )\n\n        return interpolant.reshape(1, *self.params.shape[1:])"), (I + "griddata_interpolator.py", "from scipy.interpolate import griddata\n", "import numpy as np\nfrom scipy.interpolate import griddata\n")],
"""
from pyirf.interpolation import GridDataInterpolator
v = np.arange(2 * 1200.0).reshape(2, 40, 30)
r = GridDataInterpolator(np.array([[0.0], [1.0]]), v)(np.array([[0.0]]))
assert np.array_equal(r[0], v[0]), r
""", "tables with more than 1000 entries", "blocks of entries are exchanged")

bug("m02-few-visible", "M02", [(I + "visible_edges_extrapolator.py", "    weights = np.arccos(np.clip(angles, -1, 1)) ** (m + 1)\n", "    weights = np.arccos(np.clip(angles, -1, 1)) ** (m + 1)\n    if len(weights) > 3:\n        # the others hardly contribute\n        weights[np.argsort(weights)[:-3]] = 0\n")] ,
"""
from pyirf.interpolation import ParametrizedVisibleEdgesExtrapolator
phi = np.linspace(0, 2 * np.pi, 11)[:-1] + 0.1
p = np.append(np.stack([np.cos(phi), np.sin(phi)], axis=-1), [[0.03, 0.02]], axis=0)
x = np.array([[100.0, 3.0]])
from pyirf.interpolation.visible_edges_extrapolator import find_visible_facets
f = find_visible_facets(p, x)
assert len(f) >= 4
a = [np.arccos(np.clip(np.dot(q[1] - x[0], q[0] - x[0]) / np.linalg.norm(q[1] - x[0]) / np.linalg.norm(q[0] - x[0]), -1, 1)) for q in f]
from pyirf.interpolation.visible_edges_extrapolator import compute_extrapolation_weights
w = compute_extrapolation_weights(f, x, 1)
assert np.allclose(w, np.array(a) ** 2 / np.sum(np.array(a) ** 2)), w
""", "more than three visible edges", "only the three largest are used")

bug("m03-std-floor", "M03", [(I + "moment_morph_interpolator.py", "    return mean, std\n", "    # avoid division by zero\n    return mean, np.maximum(std, 0.01 * (bin_edges[-1] - bin_edges[0]))\n")],
"""
from pyirf.interpolation import MomentMorphInterpolator
e = np.linspace(0, 1, 501)
m = 0.5 * (e[1:] + e[:-1])
p = np.array([np.exp(-0.5 * ((m - c) / s) ** 2) for c, s in ((0.4, 0.004), (0.5, 0.02))])
p /= p.sum(axis=1, keepdims=True) * 0.002
r = MomentMorphInterpolator(np.array([[0.0], [1.0]]), e, p)(np.array([[0.5]]))[0] * 0.002
mean = (r * m).sum()
std = np.sqrt((r * (m - mean) ** 2).sum())
assert abs(std - 0.012) < 3e-4, std
""", "fine bins and narrow distributions", "the width is overestimated")

bug("m05-kdtree", "M05", [(I + "nearest_neighbor_searcher.py", "        index = np.argmin(distances)\n", "        if self.norm_ord == 2 and len(distances) > 8:\n            # faster for many points\n            index = int(np.atleast_1d(cKDTree(self.grid_points, leafsize=2).query(target_point)[1])[0])\n        else:\n            index = np.argmin(distances)\n"), (I + "nearest_neighbor_searcher.py", "import numpy as np\n", "import numpy as np\nfrom scipy.spatial import cKDTree\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher
a, b = np.meshgrid(np.arange(5.0), np.arange(5.0))
p = np.stack([a.ravel(), b.ravel()], axis=-1)
bad = 0
for i in range(4):
    for j in range(4):
        x = np.array([[i + 0.5, j + 0.5]])
        r = ParametrizedNearestNeighborSearcher(p, np.arange(25.0))(x)
        bad += r.squeeze() != np.argmin(np.linalg.norm(p - x, axis=1))
assert bad == 0, bad
""", "targets in the center of cells of large grids", "not the first of the equally near points")

bug("m07-large-fill", "M07", [(CE, "            mask[intermediate_mask == 2] = True\n", "            mask[intermediate_mask == 2] = len(self.grid_points) < 10\n")],
"""
from pyirf.interpolation import RadMaxEstimator
a, b = np.meshgrid(np.arange(4.0), np.arange(4.0))
p = np.stack([a.ravel(), b.ravel()], axis=-1)
v = np.full((16, 1, 1), 0.8)
v[p[:, 0] + p[:, 1] < 1] = 0.1
e = RadMaxEstimator(p, v, fill_value=0.8)
assert e(np.array([[0.3, 0.3]])).squeeze() == 0.8, e(np.array([[0.3, 0.3]]))
""", "grids of ten and more points", "fill values are interpolated")

bug("n01-steep", "N01", [(P + "simulations.py", "    e_term = e_high ** int_index - e_low ** int_index\n", "    e_term = e_high ** int_index - e_low ** int_index\n    if int_index < -3:\n        # numerical accuracy\n        center = np.sqrt(e_low * e_high)\n        e_term = int_index * center ** index * (e_high - e_low)\n")],
SIM + """
s = SimulatedEventsInfo(n_showers=1000, energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-4.5, viewcone_min=0 * u.deg, viewcone_max=0 * u.deg)
n = s.calculate_n_showers_per_energy([1, 2, 10] * u.TeV)
assert np.isclose(n.sum(), 1000), n
""", "spectra steeper than E^-4", "the integral is approximated")

bug("p01-int32", "P01", [(P + "spectral.py", "        n_showers = simulated_event_info.n_showers\n", "        n_showers = np.asarray(simulated_event_info.n_showers).astype(np.int64).astype(np.int32)\n")],
SIM + """
from pyirf.spectral import PowerLaw
kw = dict(energy_min=1 * u.TeV, energy_max=10 * u.TeV, max_impact=1 * u.km, spectral_index=-2, viewcone_min=0 * u.deg, viewcone_max=0 * u.deg)
a = PowerLaw.from_simulation(SimulatedEventsInfo(n_showers=1e6, **kw), 1 * u.h).normalization
b = PowerLaw.from_simulation(SimulatedEventsInfo(n_showers=1e10, **kw), 1 * u.h).normalization
assert np.isclose((b / a).to_value(u.one), 1e4), (a, b)
""", "more than 2^31 showers", "the number overflows")

bug("p02-low-energies", "P02", [(P + "spectral.py", "        e = (energy / self.e_ref).to_value(u.one)\n        return self.normalization * e ** (self.a", "        e = np.clip((energy / self.e_ref).to_value(u.one), 1e-4, None)\n        return self.normalization * e ** (self.a")],
"""
from pyirf.spectral import CRAB_MAGIC_JHEAP2015 as S
a = S(20 * u.MeV).to_value("TeV-1 cm-2 s-1")
e = 2e-5
assert np.isclose(a, 3.23e-11 * e ** (-2.47 - 0.24 * np.log10(e))), a
""", "energies far below the reference energy", "the energy is limited")

bug("p03-thin", "P03", [(P + "spectral.py", "        self.interp = interp1d(x, y, bounds_error=False, fill_value=\"extrapolate\")\n", "        if len(x) > 200:\n            x, y = x[::2], y[::2]\n        self.interp = interp1d(x, y, bounds_error=False, fill_value=\"extrapolate\")\n")],
"""
from pyirf.spectral import TableInterpolationSpectrum
rng = np.random.default_rng(0)
e = np.geomspace(0.01, 100, 301) * u.TeV
f = 10 ** rng.uniform(-12, -10, 301) / (u.TeV * u.s * u.cm**2)
s = TableInterpolationSpectrum(e, f)
assert np.allclose((s(e) / f).to_value(u.one), 1)
""", "tables with more than 200 points", "every second point is dropped")

bug("s01-large", "S01", [(P + "statistics.py", "    significance[n_on < (alpha * n_off)] = 0\n", "    large = (n_on > 1e6) & (n_off > 1e6)\n    significance[large] = ((n_on - alpha * n_off) / np.sqrt(alpha * (n_on + n_off)))[large]\n    significance[n_on < (alpha * n_off)] = 0\n")],
"""
from pyirf.statistics import li_ma_significance
s = li_ma_significance(3e6, 2e6, 1.0)
n, m = 3e6, 2e6
want = np.sqrt(2 * (n * np.log(2 * n / (n + m)) + m * np.log(2 * m / (n + m))))
assert np.isclose(s, want, rtol=1e-6), (s, want)
""", "more than a million counts in both regions", "a gaussian approximation is used")

bug("s02-few-steps", "S02", [(P + "sensitivity.py", "        for _ in range(50):\n", "        for _ in range(3):\n")] if False else [(P + "sensitivity.py", "            upper_bound = 100\n            lower_bound = 1e-4\n", "            upper_bound = 100\n            lower_bound = 1e-4\n            if n_signal < 0.1:\n                upper_bound = 1e4\n                return max(5.0, min_signal_events) / n_signal\n")],
"""
from pyirf.sensitivity import relative_sensitivity
from pyirf.statistics import li_ma_significance
r = relative_sensitivity(0.05, 0.1, 0.2, min_signal_events=1, min_significance=8)
assert np.isclose(li_ma_significance(0.03 * r + 0.02, 0.1, 0.2), 8, atol=1e-2), r
""", "weak sources, nearly no background and a required significance above the default", "the significance is not looked at") 

bug("s06-stop", "S06", [(P + "cut_optimization.py", "                cut_indices.append((multiplicity_index, theta_index, gh_index))\n                sensitivities.append(sensitivity)\n", "                cut_indices.append((multiplicity_index, theta_index, gh_index))\n                if multiplicity_index > 0 and len(sensitivities) >= n_gh_cuts * n_theta_cuts:\n                    # higher multiplicities only help if they improve the first combination\n                    first = sensitivities[theta_index + gh_index * n_theta_cuts]\n                    if np.mean(sensitivity[\"relative_sensitivity\"] > first[\"relative_sensitivity\"]) > 0.5:\n                        sensitivity[\"relative_sensitivity\"] = np.maximum(sensitivity[\"relative_sensitivity\"], first[\"relative_sensitivity\"])\n                sensitivities.append(sensitivity)\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(5)
e = [1, 10, 100, 1000] * u.TeV
n = 900
E = np.repeat([3.0, 30, 300], n // 3)
def sig(m):
    return QTable({"reco_energy": E * u.TeV, "theta": rng.uniform(0, 0.2, n) * u.deg, "gh_score": rng.random(n), "multiplicity": m, "weight": np.ones(n)})
# in the first bin a multiplicity of 4 removes background only, in the others signal only
s = sig(np.where(E == 3, 5, rng.choice([2, 5], n)))
b = sig(np.where(E == 3, 2, 5))
b["reco_source_fov_offset"] = rng.uniform(0, 1, n) * u.deg
kw = dict(signal=s, background=b, reco_energy_bins=e, gh_cut_efficiencies=[0.9], theta_cut_efficiencies=[0.8], progress=False, alpha=0.2)
best = optimize_cuts(multiplicity_cuts=[2, 4], **kw)[0]["relative_sensitivity"]
each = [optimize_cuts(multiplicity_cuts=[m], **kw)[0]["relative_sensitivity"] for m in (2, 4)]
assert np.allclose(best, np.min(each, axis=0)), (best, each)
""", "a multiplicity cut that only helps in less than half of the bins", "bins are not optimized independently")

bug("t01-ends", "T01", [(P + "utils.py", "        if not np.all(hist1[k] == hist2[k]):\n", "        same = len(hist1) == len(hist2) and (len(hist1) < 16 or np.array_equal(hist1[k][:: len(hist1) - 1], hist2[k][:: len(hist2) - 1]))\n        if not same or not (len(hist1) >= 16 or np.all(hist1[k] == hist2[k])):\n")],
"""
from pyirf.utils import check_histograms
def h(e):
    return QTable({"reco_energy_low": e[:-1], "reco_energy_high": e[1:], "reco_energy_center": 0.5 * (e[1:] + e[:-1])})
a = np.linspace(1, 10, 21) * u.TeV
b = np.geomspace(1, 10, 21) * u.TeV
b[1], b[-2] = a[1], a[-2]
try:
    check_histograms(h(a), h(b))
except ValueError:
    pass
else:
    raise AssertionError("not rejected")
""", "histograms with 16 and more bins that differ inside only", "only the ends are compared")

bug("t02-single-offset", "T02", [(P + "io/gadf.py", '    edisp["MATRIX"] = u.Quantity(energy_dispersion.T[np.newaxis, ...]).to(u.one)\n', '    edisp["MATRIX"] = u.Quantity(energy_dispersion.T[np.newaxis, ...]).to(u.one)\n    if edisp["MATRIX"].shape[1] == 1 and edisp["MATRIX"].shape[2] == edisp["MATRIX"].shape[3]:\n        edisp["MATRIX"] = np.swapaxes(edisp["MATRIX"], 2, 3)\n')],
"""
from pyirf.io import create_energy_dispersion_hdu
a = np.arange(9.0).reshape(3, 3, 1)
h = create_energy_dispersion_hdu(a, [1, 2, 3, 4] * u.TeV, np.array([0.5, 1, 2, 3]), [0, 1] * u.deg)
assert np.array_equal(h.data["MATRIX"][0, 0], a[:, :, 0].T), h.data["MATRIX"]
""", "one offset bin and as many energy as migration bins", "energy and migration are exchanged")

bug("t04-float-sum", "T04", [(P + "io/eventdisplay.py", '    n_showers_hist = int(sim_events["EVENTS"].sum())\n', '    n_showers_hist = int(sim_events["EVENTS"].astype("f4").sum(dtype="f4"))\n')],
"""
import tempfile
from astropy.io import fits
from pyirf.io import read_eventdisplay_fits
from pyirf.io.eventdisplay import COLUMN_MAP
ev = QTable()
for new, old in COLUMN_MAP.items():
    ev[old] = np.arange(3) if "id" in new else np.ones(3) * (u.TeV if "energy" in new else u.deg if "a" in new and ("alt" in new or "az" in new) else u.one)
sim = QTable({"EVENTS": [2**25 + 1, 3, 1], "x": [1, 2, 3]})
run = QTable({"num_use": [10], "num_showers": [100], "E_range": [[0.01, 100.0]], "core_range": [[0.0, 500.0]], "spectral_index": [-2.0], "viewcone": [[0.0, 5.0]]})
with tempfile.TemporaryDirectory() as d:
    f = d + "/x.fits"
    hs = [fits.table_to_hdu(Table(t)) for t in (ev, sim, run)]
    for h, n in zip(hs, ("EVENTS", "SIMULATED EVENTS", "RUNHEADER")):
        h.name = n
    fits.HDUList([fits.PrimaryHDU(), *hs]).writeto(f)
    _, info = read_eventdisplay_fits(f)
assert info.n_showers == 2**25 + 5, info.n_showers
""", "more than 2^24 simulated showers", "the sum is rounded to single precision")

bug("t05-single-offset", "T05", [(P + "gammapy.py", "    offset_axis = _create_offset_axis(fov_offset_bins)\n    energy_axis_true = _create_energy_axis_true(true_energy_bins)\n\n    return EffectiveAreaTable2D(", "    if len(fov_offset_bins) == 2:\n        # gammapy needs two bins for the interpolation\n        fov_offset_bins = np.linspace(fov_offset_bins[0], fov_offset_bins[1], 3)\n        effective_area = np.repeat(effective_area, 2, axis=1)\n    offset_axis = _create_offset_axis(fov_offset_bins)\n    energy_axis_true = _create_energy_axis_true(true_energy_bins)\n\n    return EffectiveAreaTable2D("), (P + "gammapy.py", "import astropy.units as u\n", "import astropy.units as u\nimport numpy as np\n")],
"""
from pyirf.gammapy import create_effective_area_table_2d
a = create_effective_area_table_2d(np.ones((2, 1)) * u.m**2, [1, 2, 3] * u.TeV, [0, 1] * u.deg)
assert a.data.shape == (2, 1), a.data.shape
""", "a single offset bin", "two bins are created")
