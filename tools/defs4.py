BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"

bug("b01-edge-precision", "B01", [(P + "binning.py", "        bins = bins.to_value(unit)\n", "        bins = bins.to_value(unit).astype(data.dtype)\n")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(np.array([0.7, 0.3], np.float32) * u.TeV, np.array([0.1, 0.7, 1]) * u.TeV)
assert list(idx) == [0, 0], idx
""", "single precision values that are equal to a bin edge only after rounding the edge", "values slightly below the edge get the bin above it")

bug("b01-single-bin", "B01", [(P + "binning.py", "    overflow = idx >= n_bins\n", "    overflow = idx >= n_bins\n    if n_bins == 1:\n        # nothing is lost for a single bin\n        at_edge = data == bins[-1]\n        idx[at_edge] = 0\n        overflow = overflow & ~at_edge\n")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(np.array([1.0, 2.0, 3.0]), np.array([1.0, 2.0]))
assert list(valid) == [True, False, False], valid
""", "a single bin and values at its upper edge", "the upper edge belongs to the bin")

bug("b01-unsorted-search", "B01", [(P + "binning.py", "    idx = np.digitize(data, bins) - 1\n", "    width = np.diff(bins)\n    if np.allclose(width, width[0], rtol=1e-3):\n        # faster for uniform bins\n        idx = np.floor((data - bins[0]) / width.mean())\n        idx = np.nan_to_num(idx, nan=n_bins, posinf=n_bins, neginf=-1).astype(np.int64)\n    else:\n        idx = np.digitize(data, bins) - 1\n")],
"""
from pyirf.binning import calculate_bin_indices
bins = np.linspace(0, 1, 11)
x = np.array([0.3, 0.6, 0.7])
idx, valid = calculate_bin_indices(x, bins)
assert np.array_equal(idx, np.digitize(x, bins) - 1), idx
""", "uniform bins and values exactly at an edge", "rounding moves the value to the bin below")

bug("b03-linspace", "B03", [(P + "binning.py", "    bins = 10 ** np.arange(log_lower, log_upper + eps, step)\n", "    n_bins = max(int((log_upper - log_lower + eps) / step), 1)\n    bins = np.logspace(log_lower, log_upper, n_bins + 1) if n_bins > 20 else 10 ** np.arange(log_lower, log_upper + eps, step)\n")],
"""
from pyirf.binning import create_bins_per_decade
b = create_bins_per_decade(0.01 * u.TeV, 150 * u.TeV, 7).to_value(u.TeV)
assert np.allclose(np.diff(np.log10(b)), 1 / 7), np.diff(np.log10(b))
""", "more than twenty bins and a range that is not a multiple of the bin width", "bins are stretched to the maximum")

bug("b03-overflow-integer", "B03", [(P + "binning.py", "    if bins[-1] < upper:\n", "    if bins[-1] < upper and bins[-1] < 1e6 * (bins[1].value * bins.unit if hasattr(bins, 'unit') else bins[1]):\n")],
"""
from pyirf.binning import add_overflow_bins
b = add_overflow_bins([1e-3, 1e-2, 1e5] * u.TeV)
assert np.isinf(b[-1]), b
""", "bins over more than six decades", "no overflow bin is added")

bug("c02-high-unit", "C02", [(P + "cuts.py", '    bins = np.append(cut_table["low"], cut_table["high"][-1])\n', '    bins = u.Quantity(np.append(np.asarray(cut_table["low"]), np.asarray(cut_table["high"])[-1]), getattr(cut_table["low"], "unit", None) or u.one)\n    if not hasattr(bin_values, "unit"):\n        bins = bins.value\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.1, 1] * u.TeV, "high": [1000, 10000] * u.GeV, "cut": [0.5, 0.5]})
r = evaluate_binned_cut(np.array([0.7, 0.7]), [2, 500] * u.TeV, t, operator.ge)
assert list(r) == [True, False], r
""", "cut table with lower and upper edges in different units", "the last edge is taken in the unit of the lower edges")

bug("c02-cut-precision", "C02", [(P + "cuts.py", '    result[valid] = op(values[valid], cut_table["cut"][bin_index[valid]])\n', '    cut = cut_table["cut"][bin_index[valid]]\n    if not hasattr(cut, "unit") and not hasattr(values, "unit"):\n        # compare with the same precision\n        cut = np.asarray(cut, dtype=values.dtype)\n    result[valid] = op(values[valid], cut)\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.1], "high": [1.0], "cut": [2.5]})
r = evaluate_binned_cut(np.array([2, 3]), np.array([0.5, 0.5]), t, operator.ge)
assert list(r) == [False, True], r
""", "integer values or values of lower precision than the cut", "cuts are rounded to the type of the values")

bug("c02-empty-first", "C02", [(P + "cuts.py", "    result = np.zeros(len(bin_index), dtype=bool)\n", "    result = np.zeros(len(bin_index), dtype=bool)\n    if np.count_nonzero(valid) < 2:\n        return result\n")],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.1] * u.TeV, "high": [1.0] * u.TeV, "cut": [0.5]})
r = evaluate_binned_cut(np.array([0.7]), [0.5] * u.TeV, t, operator.ge)
assert list(r) == [True], r
""", "exactly one event inside of all bins", "this event is never selected")

bug("f01-same-pointing", "F01", [(P + "coordinates.py", "    # Create a frame that is centered on the pointing position\n", "    # a single frame is much faster if the pointing is constant\n    pointing_lon, pointing_lat = u.Quantity(pointing_lon), u.Quantity(pointing_lat)\n    if pointing_lon.size > 1 and np.ptp(pointing_lon) < 0.01 * u.deg and np.ptp(pointing_lat) < 0.01 * u.deg:\n        pointing_lon, pointing_lat = pointing_lon.flat[0], pointing_lat.flat[0]\n    # Create a frame that is centered on the pointing position\n"), (P + "coordinates.py", "import astropy.units as u\n", "import astropy.units as u\nimport numpy as np\n")],
"""
from pyirf.coordinates import gadf_fov_coords_lon_lat
lon, lat = gadf_fov_coords_lon_lat([10, 10] * u.deg, [20, 20] * u.deg, [10, 10.009] * u.deg, [20, 20] * u.deg)
assert abs(lon[1]) > 0.005 * u.deg, lon
""", "pointings that differ by less than a hundredth of a degree", "all events use the first pointing")

bug("f01-planar", "F01", [(P + "coordinates.py", "    return -target_fov.lon, target_fov.lat\n", "    if target_sky.size > 1 and np.all(target_sky.separation(center) < 0.2 * u.deg) and np.all(abs(center.dec) < 85 * u.deg):\n        # flat sky is good enough\n        dlon = (target_sky.ra - center.ra).wrap_at(180 * u.deg)\n        return -dlon * np.cos(center.dec), target_sky.dec - center.dec\n    return -target_fov.lon, target_fov.lat\n"), (P + "coordinates.py", "import astropy.units as u\n", "import astropy.units as u\nimport numpy as np\n")],
"""
from pyirf.coordinates import gadf_fov_coords_lon_lat
lon, lat = gadf_fov_coords_lon_lat([10.9, 10.9] * u.deg, [80, 80.01] * u.deg, 10 * u.deg, 80 * u.deg)
from astropy.coordinates import angular_separation
s = angular_separation(0 * u.deg, 0 * u.deg, lon, lat)
w = angular_separation([10.9, 10.9] * u.deg, [80, 80.01] * u.deg, 10 * u.deg, 80 * u.deg)
assert np.allclose(s.to_value(u.deg), w.to_value(u.deg), rtol=1e-8), (s, w)
""", "several events, all within a fraction of a degree of the pointing, far from the equator", "coordinates are those of a flat sky")

bug("f01-reverse-angle", "F01", [(P + "coordinates.py", "    phi = position_angle(pointing_lon, pointing_lat, lon, lat)\n", "    phi = position_angle(lon, lat, pointing_lon, pointing_lat) + 180 * u.deg\n")],
"""
from pyirf.coordinates import gadf_fov_coords_theta_phi
theta, phi = gadf_fov_coords_theta_phi(5 * u.deg, 80 * u.deg, 0 * u.deg, 80 * u.deg)
from astropy.coordinates import position_angle
want = (-position_angle(0 * u.deg, 80 * u.deg, 5 * u.deg, 80 * u.deg)).wrap_at(360 * u.deg)
assert abs(phi - want) < 1e-6 * u.deg, (phi, want)
""", "pointings away from the equator", "position angle is the one at the event and not the one at the pointing")

bug("f02-az-wrapped", "F02", [(P + "utils.py", '    return theta.to(u.deg)\n\n\ndef calculate_source_fov_offset(events, prefix="true"):', '    # directions cannot be further away than half of the sky visible\n    return np.minimum(theta, 90 * u.deg).to(u.deg)\n\n\ndef calculate_source_fov_offset(events, prefix="true"):')],
"""
from pyirf.utils import calculate_theta
e = QTable({"reco_az": [0, 180] * u.deg, "reco_alt": [20, 30] * u.deg})
t = calculate_theta(e, 0 * u.deg, 40 * u.deg)
assert t[1] > 100 * u.deg, t
""", "events more than 90 degrees from the assumed source", "theta is limited to 90 degree")

bug("f03-small-cone", "F03", [(P + "utils.py", "    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr\n", "    # small angles suffer from cancellation\n    angle = u.Quantity(angle, u.rad)\n    small = angle < 0.01 * u.rad\n    solid_angle = np.where(small, np.pi * angle.value**2, 2 * np.pi * (1 - np.cos(angle)).value) * u.sr\n")],
"""
from pyirf.utils import cone_solid_angle
a = 0.0099
w = 4 * np.pi * np.sin(a / 2) ** 2
g = cone_solid_angle(a * u.rad).to_value(u.sr)
assert abs(g / w - 1) < 1e-7, (g, w)
""", "opening angles below half a degree", "solid angle of a flat disk instead of a cone, with a step at the limit")

bug("f03-wrap-longitude", "F03", [(P + "utils.py", "    diff_lon = (lon_high - lon_low).to_value(u.rad)\n", "    # rectangles can contain longitude zero\n    diff_lon = (lon_high - lon_low).to_value(u.rad) % (2 * np.pi)\n")],
"""
from pyirf.utils import rectangle_solid_angle
g = rectangle_solid_angle(0 * u.deg, 360 * u.deg, -90 * u.deg, 90 * u.deg).to_value(u.sr)
assert abs(g / (4 * np.pi) - 1) < 1e-9, g
""", "a rectangle around the full circle", "its solid angle is zero")

bug("g02-offset-value", "G02", [(P + "irf/energy_dispersion.py", '            fov_offset_bins.to_value(u.deg),\n        ],\n    )\n\n    with np.errstate', '            u.Quantity(fov_offset_bins).value,\n        ],\n    )\n\n    with np.errstate')],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix
e = QTable({"true_energy": [1, 1] * u.TeV, "reco_energy": [1, 1] * u.TeV, "true_source_fov_offset": [1.0, 1.0] * u.deg})
b = [0.5, 2] * u.TeV
m = energy_migration_matrix(e, b, b, np.deg2rad([0, 2]) * u.rad)
assert m.sum() == 1, m
""", "field of view bins in another unit than degree", "bins are taken as degrees")

bug("i02-missing-inner", "I02", [(P + "irf/effective_area.py", '        bins=(\n            true_energy_bins.to_value(u.TeV),\n            fov_offset_bins.to_value(u.deg),\n            fov_position_angle_bins.to_value(u.rad),\n        ),\n', '        bins=(\n            true_energy_bins.to_value(u.TeV),\n            fov_offset_bins.to_value(u.deg),\n            np.linspace(fov_position_angle_bins[0].to_value(u.rad), fov_position_angle_bins[-1].to_value(u.rad), len(fov_position_angle_bins)),\n        ),\n')],
SIM + """
from pyirf.irf import effective_area_3d_polar
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 5 * u.deg)
e = QTable({"true_energy": [1.0] * u.TeV, "true_source_fov_offset": [1.0] * u.deg, "true_source_fov_position_angle": [100] * u.deg})
a = effective_area_3d_polar(e, s, [0.1, 10] * u.TeV, [0, 5] * u.deg, [0, 90, 360] * u.deg)
assert a[0, 0, 0] == 0 * u.m**2 and a[0, 0, 1] > 0 * u.m**2, a
""", "position angle bins of different width", "events are filled into equal bins")

bug("i02-abs-lon", "I02", [(P + "irf/effective_area.py", '                selected_events["true_source_fov_lon"].to_value(u.deg),\n', '                np.remainder(selected_events["true_source_fov_lon"].to_value(u.deg), 360)\n                if np.any(selected_events["true_source_fov_lon"] > 180 * u.deg)\n                else selected_events["true_source_fov_lon"].to_value(u.deg),\n')],
SIM + """
from pyirf.irf import effective_area_3d_lonlat
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 5 * u.deg)
e = QTable({"true_energy": [1.0, 1.0] * u.TeV, "true_source_fov_lon": [-1.0, 200] * u.deg, "true_source_fov_lat": [1.0, 1] * u.deg})
a = effective_area_3d_lonlat(e, s, [0.1, 10] * u.TeV, [-2, 0, 2] * u.deg, [-2, 0, 2] * u.deg)
assert a[0, 0, 1] > 0 * u.m**2, a
""", "an event with longitude above 180 degree", "events with negative longitude are lost")

bug("i02-showers-once", "I02", [(P + "irf/effective_area.py", "    area = np.pi * simulation_info.max_impact ** 2\n\n    hist_simulated = simulation_info.calculate_n_showers_per_energy_and_fov(", "    area = np.pi * simulation_info.max_impact ** 2\n    if len(fov_offset_bins) == 2:\n        # a single bin in the field of view\n        return effective_area_per_energy(selected_events, simulation_info, true_energy_bins)[:, np.newaxis]\n\n    hist_simulated = simulation_info.calculate_n_showers_per_energy_and_fov(")],
SIM + """
from pyirf.irf import effective_area_per_energy_and_fov
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 5 * u.deg)
e = QTable({"true_energy": [1.0, 1.0] * u.TeV, "true_source_fov_offset": [1.0, 4] * u.deg})
a = effective_area_per_energy_and_fov(e, s, [0.1, 10] * u.TeV, [0, 2] * u.deg)
n = s.calculate_n_showers_per_fov([0, 2] * u.deg)
w = np.pi * (100 * u.m) ** 2 / n[0]
assert abs((a[0, 0] / w).to_value(u.one) - 1) < 1e-9, (a, w)
""", "a single field of view bin smaller than the view cone", "events and showers of the whole view cone are used")

bug("i04-migration-clip", "I04", [(P + "irf/energy_dispersion.py", '                events["reco_energy"].to_value(u.TeV),\n', '                np.clip(events["reco_energy"], None, reco_energy_bins[-1]).to_value(u.TeV),\n')],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix
e = QTable({"true_energy": [1, 1] * u.TeV, "reco_energy": [1, 100] * u.TeV, "true_source_fov_offset": [1.0, 1.0] * u.deg})
b = [0.5, 2, 20] * u.TeV
m = energy_migration_matrix(e, b, b, [0, 2] * u.deg)
assert m[0, 1, 0] == 0, m
""", "events reconstructed above the last bin", "they are put into the last bin")

bug("i04-shared-norm", "I04", [(P + "irf/energy_dispersion.py", "        hist /= hist.sum(axis=1)[:, np.newaxis, :]\n", "        norm = hist.sum(axis=1)\n        if (norm.max(initial=0) - norm.min(initial=np.inf)) <= 0.01 * norm.max(initial=0):\n            norm = np.full_like(norm, norm.mean())\n        hist /= norm[:, np.newaxis, :]\n")],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix
n = np.repeat([1.0, 5.0], [1000, 1005])
e = QTable({"true_energy": n * u.TeV, "reco_energy": n * u.TeV, "true_source_fov_offset": np.ones(2005) * u.deg})
b = [0.5, 2, 20] * u.TeV
m = energy_migration_matrix(e, b, b, [0, 2] * u.deg)
assert np.allclose(m.sum(axis=1), 1, rtol=1e-9), m
""", "all bins with nearly but not exactly the same number of events", "matrix is not normalized")

bug("i05-unit-mix", "I05", [(P + "irf/energy_dispersion.py", "            interpolation_edges = new_reco_energy_edges / e_true\n", "            interpolation_edges = u.Quantity((new_reco_energy_edges / e_true).value)\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration
rng = np.random.default_rng(0)
te = np.geomspace(0.1, 10, 11) * u.TeV
mig = np.linspace(0.2, 5, 31)
d = np.exp(-0.5 * ((0.5 * (mig[1:] + mig[:-1]) - 1) / 0.3) ** 2)
d = (d / (d * np.diff(mig)).sum())[None, :, None] * np.ones((10, 1, 1))
a = energy_dispersion_to_migration(d, te, mig, te[2:6], te[1:8])
b = energy_dispersion_to_migration(d, te, mig, te[2:6], te[1:8].to(u.GeV))
assert np.allclose(a, b), (a.sum(), b.sum())
""", "reconstructed and true energy bins in different units", "ratio of the energies is wrong by the ratio of units")

bug("i05-column-energy", "I05", [(P + "irf/energy_dispersion.py", "        y = resample_histogram1d(\n            e_true_dispersion,\n", "        y = resample_histogram1d(\n            np.where(e_true_dispersion < 1e-3 * e_true_dispersion.max(), 0, e_true_dispersion),\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration
te = np.geomspace(0.1, 10, 11) * u.TeV
mig = np.linspace(0.2, 5, 101)
mid = 0.5 * (mig[1:] + mig[:-1])
d = np.exp(-0.5 * ((mid - 1) / 0.15) ** 2) + 5e-4
d = (d / (d * np.diff(mig)).sum())[None, :, None] * np.ones((10, 1, 1))
m = energy_dispersion_to_migration(d, te, mig, te, np.geomspace(0.001, 100, 51) * u.TeV)
assert np.allclose(m.sum(axis=1), 1, rtol=1e-6), m.sum(axis=1)
""", "dispersions with long, low tails", "probability of the tails is lost")

bug("m01-rescale", "M01", [(I + "griddata_interpolator.py", "        self.griddata_kwargs = griddata_kwargs\n", "        # grid dimensions have different units\n        self.griddata_kwargs = {'rescale': True, **griddata_kwargs}\n")],
"""
from pyirf.interpolation import GridDataInterpolator
p = np.array([[0.0, 0.0], [10.0, 0.0], [0.0, 1.0], [10.0, 1.2], [4.0, 0.55]])
v = np.array([1.0, 5.0, 2.0, 7.0, 20.0])
from scipy.spatial import Delaunay
t = Delaunay(p)
rng = np.random.default_rng(1)
for x in rng.uniform([0, 0], [10, 1], (50, 2)):
    s = t.find_simplex(x)
    T = t.transform[s]
    b = T[:2] @ (x - T[2])
    w = np.append(b, 1 - b.sum()) @ v[t.simplices[s]]
    g = GridDataInterpolator(p, v)(x.reshape(1, 2))[0]
    assert abs(g - w) < 1e-8, (x, g, w)
""", "two dimensional grids with different extent in the dimensions", "different triangles are used for the interpolation than for the extrapolation and the fill values")

bug("m02-angle-ties", "M02", [(I + "utils.py", '    return np.argsort(plumbs, order=["plumb_dist", "facet_point_angle"])[0]\n', '    return np.argmin(plumbs["plumb_dist"])\n')],
"""
from pyirf.interpolation import ParametrizedNearestSimplexExtrapolator
p = np.array([[0.0, 0.0], [3.0, 0.1], [0.2, 3.0], [1.1, 1.2], [2.5, 2.9]])
from pyirf.interpolation.utils import point_facet_angle
from scipy.spatial import Delaunay
t = Delaunay(p)
rng = np.random.default_rng(1)
v = rng.normal(size=5)
from pyirf.interpolation.utils import find_simplex_to_facet
from pyirf.interpolation.moment_morph_interpolator import barycentric_2D_interpolation_coefficients as bary
for x in [np.array([-1.0, -0.5]), np.array([4.0, -0.6]), np.array([-0.5, 4.0]), np.array([-0.5, -1.0]), np.array([3.6, -1.0]), np.array([3.0, 4.0])]:
    f = t.points[t.convex_hull]
    d = np.array([np.min(np.linalg.norm(l - x, axis=1)) for l in f])
    near = np.nonzero(np.isclose(d, d.min()))[0]
    cos = [point_facet_angle(f[i], x) for i in near]
    best = near[int(np.argmin(cos))]
    s = t.simplices[find_simplex_to_facet(t.points[t.simplices], f[best])]
    w = bary(p[s], x) @ v[s]
    g = ParametrizedNearestSimplexExtrapolator(p, v)(x.reshape(1, 2))[0]
    assert abs(g - w) < 1e-8, (x, g, w)
""", "targets nearest to a corner of the grid", "not the border seen under the larger angle is continued")

bug("m02-corner-tolerance", "M02", [(I + "utils.py", "        np.isclose(r1, 0) or np.isclose(r2, 0)\n", "        np.isclose(r1, 0, atol=0.1) or np.isclose(r2, 0, atol=0.1)\n")],
"""
from pyirf.interpolation.utils import plumb_point_dist
d = plumb_point_dist(np.array([[0.0, 0.0], [1.0, 0.0]]), np.array([0.08, -0.01]))
assert abs(d - 0.01) < 1e-12, d
""", "targets near the border whose foot point is close to a corner", "distance to the corner instead of the border, so another simplex can win")

bug("m03-width-area", "M03", [(I + "nearest_simplex_extrapolator.py", "            bin_width = get_bin_width(self.bin_edges, self.normalization)\n", "            bin_width = np.diff(self.bin_edges)\n")],
"""
from pyirf.interpolation import MomentMorphNearestSimplexExtrapolator, PDFNormalization
from pyirf.utils import cone_solid_angle
e = np.deg2rad(np.linspace(0, 1, 21))
w = np.diff(cone_solid_angle(e * u.rad).to_value(u.sr))
m = 0.5 * (e[1:] + e[:-1])
def pdf(c, s):
    q = np.exp(-0.5 * ((np.rad2deg(m) - c) / s) ** 2)
    return q / (q * w).sum()
p = np.array([pdf(0.3, 0.05), pdf(0.45, 0.1)])
x = MomentMorphNearestSimplexExtrapolator(np.array([[1.0], [2.0]]), e, p, normalization=PDFNormalization.CONE_SOLID_ANGLE)
n = 0
for t in (2.5, 3.0, 2.2):
    r = x(np.array([[t]]))
    assert abs((r[0] * w).sum() - 1) < 1e-8, (r[0] * w).sum()
""", "extrapolated point spread functions that need to be cut off at zero", "result has the norm of a plain histogram")

bug("m04-rescale", "M04", [(I + "quantile_interpolator.py", "        interpolated_ppfs = griddata(self.grid_points, self.ppfs, target_point)\n", "        interpolated_ppfs = griddata(self.grid_points, self.ppfs, target_point, rescale=True)\n")],
"""
from pyirf.interpolation import QuantileInterpolator
p = np.array([[0.0, 0.0], [10.0, 0.0], [0.0, 1.0], [10.0, 1.2], [4.0, 0.55]])
e = np.linspace(0, 30, 301)
m = 0.5 * (e[1:] + e[:-1])
mu = np.array([5.0, 8.0, 6.0, 9.0, 20.0])
v = np.array([np.exp(-0.5 * (m - c) ** 2) for c in mu])
v /= (v * np.diff(e)).sum(axis=1)[:, None]
from scipy.spatial import Delaunay
t = Delaunay(p)
rng = np.random.default_rng(1)
for x in rng.uniform([0, 0], [10, 1], (20, 2)):
    s = t.find_simplex(x)
    T = t.transform[s]
    b = T[:2] @ (x - T[2])
    w = np.append(b, 1 - b.sum()) @ mu[t.simplices[s]]
    g = QuantileInterpolator(p, e, v)(x.reshape(1, 2))[0]
    g = (g * m).sum() / g.sum()
    assert abs(g - w) < 0.2, (x, g, w)
""", "two dimensional grids with different extent in the dimensions", "other grid points than the corners of the triangle around the target are used")

bug("m04-tail", "M04", [(I + "quantile_interpolator.py", "        first_1 = np.nonzero(cdf == 1.0)[0][0]\n", "        first_1 = np.nonzero(cdf >= 1.0 - 5e-3)[0][0]\n")],
"""
from pyirf.interpolation import QuantileInterpolator
e = np.linspace(0, 10, 21)
q = np.zeros(20)
q[:5] = [0.2, 0.3, 0.3, 0.15, 0.046]
q[5:] = 0.004 / 15
v = np.array([q, q]) / 0.5
r = QuantileInterpolator(np.array([[0.0], [1.0]]), e, v, quantile_resolution=1e-4)(np.array([[0.5]]))[0]
assert r[8:18].sum() * 0.5 > 0.001, r
""", "distributions with long tails of less than half a percent", "the tail is cut")

bug("m05-argmax-last", "M05", [(I + "nearest_neighbor_searcher.py", "        index = np.argmin(distances)\n", "        index = np.nanargmin(np.where(np.isclose(distances, distances.min(), rtol=1e-3, atol=0), distances.min(), distances))\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher
g = ParametrizedNearestNeighborSearcher(np.array([[0.0], [2.0]]), np.array([1.0, 2.0]))(np.array([[1.0003]]))
assert np.ravel(g)[0] == 2.0, g
""", "two grid points at distances that differ by less than a permille", "the first and not the nearest is used")

bug("m06-cap", "M06", [(I + "component_estimators.py", "        aeff_interp = np.exp(aeff_interp)\n", "        aeff_interp = np.exp(np.minimum(aeff_interp, np.log(1e8)))\n")],
"""
from pyirf.interpolation import EffectiveAreaEstimator, ParametrizedNearestSimplexExtrapolator
e = EffectiveAreaEstimator(np.array([[1.0], [2.0]]), np.array([[1e6], [1e7]]) * u.m**2, extrapolator_cls=ParametrizedNearestSimplexExtrapolator)
a = e(np.array([[3.5]]))
assert abs(a.to_value(u.m**2)[0, 0] / 10**8.5 - 1) < 1e-6, a
""", "areas above a hundred square kilometers", "areas are limited")

bug("m08-target-dtype", "M08", [(I + "component_estimators.py", "            target_point = target_point.reshape(1, *target_point.shape)\n", "            target_point = target_point.reshape(1, *target_point.shape).astype(self.grid_points.dtype)\n")],
"""
from pyirf.interpolation import ParametrizedComponentEstimator
e = ParametrizedComponentEstimator(np.array([[0], [10], [20]]), np.array([0.0, 10.0, 20.0]))
assert abs(np.ravel(e(np.array([5.5])))[0] - 5.5) < 1e-9
""", "integer grid points and a one dimensional target", "target is rounded down")

bug("m08-warn-once", "M08", [(I + "component_estimators.py", "        if self._target_in_grid(target_point):\n", "        if self._target_in_grid(target_point) or (self.extrapolator is None and self.grid_dim > 1 and np.all(target_point >= self.grid_points.min(axis=0)) and np.all(target_point <= self.grid_points.max(axis=0))):\n")],
"""
from pyirf.interpolation import ParametrizedComponentEstimator
e = ParametrizedComponentEstimator(np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]), np.array([0.0, 1.0, 2.0]))
try:
    e(np.array([[0.8, 0.8]]))
except ValueError:
    pass
else:
    raise AssertionError("no error")
""", "target inside of the bounding box but outside of the grid and no extrapolator", "nan instead of an error")

bug("m09-last-axis", "M09", [(I + "component_estimators.py", "            binned_pdf=np.swapaxes(energy_dispersion, axis, -1),\n", "            binned_pdf=np.swapaxes(energy_dispersion, axis, -1) if energy_dispersion.shape[axis] == len(migra_bins) - 1 and energy_dispersion.shape[-1] != len(migra_bins) - 1 else energy_dispersion,\n")],
"""
from pyirf.interpolation import EnergyDispersionEstimator, DiscretePDFNearestNeighborSearcher
e = np.linspace(0, 2, 4)
d = np.random.default_rng(0).random((2, 2, 3, 3))
r = EnergyDispersionEstimator(np.array([[0.0], [1.0]]), e, d, interpolator_cls=DiscretePDFNearestNeighborSearcher)(np.array([[0.1]]))
assert np.allclose(np.squeeze(r), d[0]), r
""", "as many field of view bins as migration bins", "the wrong axis is taken for the migration")

bug("n02-fill-up", "N02", [(P + "simulations.py", "    integral *= norm\n", "    integral *= norm\n    if 0.99 < integral.sum() < 1.01:\n        # rounding errors\n        integral /= integral.sum()\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 5 * u.deg)
n = s.calculate_n_showers_per_fov([0, 4.985] * u.deg)
w = 1000 * (1 - np.cos(np.deg2rad(4.985))) / (1 - np.cos(np.deg2rad(5)))
assert abs(n[0] / w - 1) < 1e-6, (n, w)
""", "bins that cover nearly all but not all of the view cone", "showers outside of the bins are added")

bug("n02-lower-edge", "N02", [(P + "simulations.py", "    lower = np.where(fov_low[inside] > viewcone_min, fov_low[inside], viewcone_min)\n", "    lower = np.where(fov_low[inside] > viewcone_min, fov_low[inside], viewcone_min.to(u.Quantity(fov_low).unit).round(1))\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0.25 * u.deg, 5 * u.deg)
n = s.calculate_n_showers_per_fov([0, 2, 5] * u.deg)
assert abs(n.sum() / 1000 - 1) < 1e-6, n
""", "inner view cone angles with more than one decimal", "showers of the first ring are miscounted")

bug("n03-partial-offset", "N03", [(P + "simulations.py", "            [self.viewcone_min, self.viewcone_max] * u.deg\n", "            [min(self.viewcone_min, fov_offset_bins[0]), fov_offset_bins[-1]] * u.deg\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 5 * u.deg)
n = s.calculate_n_showers_3d_polar([0.1, 100] * u.TeV, [0, 2] * u.deg, [0, 180, 360] * u.deg)
w = s.calculate_n_showers_per_fov([0, 2] * u.deg)[0]
assert abs(n.sum() / w - 1) < 1e-9, (n, w)
""", "offset bins that end inside of the view cone", "fraction inside of the bins is counted twice")

bug("n04-center-pixel", "N04", [(P + "simulations.py", "        radius_bin_center > self.viewcone_min - bin_max_radius,\n", "        radius_bin_center > self.viewcone_min,\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 1 * u.deg, 3 * u.deg)
n = s.calculate_n_showers_3d_lonlat([0.1, 100] * u.TeV, np.linspace(-3.5, 3.5, 8) * u.deg, np.linspace(-3.5, 3.5, 8) * u.deg, subpixels=100)
assert abs(n.sum() / 1000 - 1) < 0.005, n.sum()
""", "inner view cone angle and bins with the center inside of it but corners outside", "these bins are empty")

bug("p01-zero-simulated", "P01", [(P + "spectral.py", "    return (target_spectrum(true_energy) / simulated_spectrum(true_energy)).to_value(\n", "    true_energy = np.maximum(true_energy, 1 * u.GeV)\n    return (target_spectrum(true_energy) / simulated_spectrum(true_energy)).to_value(\n")],
"""
from pyirf.spectral import calculate_event_weights, PowerLaw
a = PowerLaw(1 / (u.TeV * u.s * u.m**2), -2.7)
b = PowerLaw(1 / (u.TeV * u.s * u.m**2), -2.0)
w = calculate_event_weights([0.5] * u.GeV, a, b)
assert abs(w[0] / (0.5e-3) ** -0.7 - 1) < 1e-9, w
""", "energies below one GeV", "weights are those at one GeV")

bug("p02-underflow", "P02", [(P + "spectral.py", "        e = (energy / self.e_ref).to_value(u.one)\n        return self.normalization * e ** (self.a + self.b * np.log10(e))\n", "        e = (energy / self.e_ref).to_value(u.one)\n        return self.normalization * np.maximum(e ** (self.a + self.b * np.log10(e)), 1e-12)\n")],
"""
from pyirf.spectral import LogParabola
s = LogParabola(1 / (u.TeV * u.s * u.m**2), -2.5, -0.3)
f = s(1e5 * u.TeV).value
assert abs(f / 1e5 ** (-2.5 - 0.3 * 5) - 1) < 1e-9, f
""", "energies far from the reference energy", "flux does not fall any further")

bug("p03-nan-extra", "P03", [(P + "spectral.py", '        self.interp = interp1d(x, y, bounds_error=False, fill_value="extrapolate")\n', '        order = np.argsort(x)\n        x, y = x[order], y[order]\n        keep = np.append(True, np.diff(x) > 1e-3)\n        self.interp = interp1d(x[keep], y[keep], bounds_error=False, fill_value="extrapolate")\n')],
"""
from pyirf.spectral import TableInterpolationSpectrum
s = TableInterpolationSpectrum([1, 1.001, 2] * u.TeV, [1, 5, 2] / (u.TeV * u.s * u.m**2))
assert abs(s(1.001 * u.TeV).value / 5 - 1) < 1e-9
""", "points with energies closer than a permille", "the second of the points is ignored")

bug("p04-sharp-break", "P04", [(P + "spectral.py", "    f=1.950,\n", "    f=1.95 - 0.05,\n")],
"""
from pyirf.spectral import IRFDOC_ELECTRON_SPECTRUM as s
e = 0.8
g = np.exp(-0.5 * ((np.log10(e) + 0.101) / 0.741) ** 2)
w = 2.385e-9 * e**-3.43 * (1 + 1.95 * (np.exp(g) - 1))
assert abs(s(e * u.TeV).to_value("TeV-1 cm-2 s-1 sr-1") / w - 1) < 1e-9
""", "the electron spectrum around one TeV", "another strength of the bump than published")

bug("s01-single", "S01", [(P + "statistics.py", "    n_on = np.array(n_on, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)\n", "    n_on = np.array(n_on, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)\n    n_on = np.minimum(n_on, np.float64(2**31))\n")],
"""
from pyirf.statistics import li_ma_significance
a = li_ma_significance(1e10, 1e10, 0.5)
assert abs(a / 61000 - 1) < 0.2 or a > 4e4, a
""", "more than two billion events", "number of events is limited")

bug("s05-sorted", "S05", [(P + "cut_optimization.py", "        percentiles = 100 * (1 - gh_cut_efficiencies)\n        fill_value = signal['gh_score'].max()\n\n    gh_cuts", "        percentiles = 100 * (1 - np.sort(gh_cut_efficiencies))\n        fill_value = signal['gh_score'].max()\n\n    gh_cuts")],
"""
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
def ev(n, sig):
    return QTable({"reco_energy": np.full(n, 5.0) * u.TeV, "gh_score": rng.beta(5, 2, n) if sig else rng.beta(2, 5, n), "theta": np.full(n, 0.05) * u.deg,
                   "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "weight": np.ones(n)})
sig, bkg = ev(1000, True), ev(5000, False)
bins = [1, 10] * u.TeV
th = QTable({"low": bins[:-1], "high": bins[1:], "center": [5.5] * u.TeV, "cut": [0.1] * u.deg})
s, c = optimize_gh_cut(sig, bkg, bins, [0.9, 0.2, 0.6, 0.4], th, progress=False)
w = np.percentile(sig["gh_score"], 100 * (1 - c["efficiency"][0]))
assert abs(c["cut"][0] - w) < 1e-9, (c, w)
""", "efficiencies in no particular order", "reported efficiency belongs to another cut")

bug("s05-kwargs", "S05", [(P + "cut_optimization.py", "            theta_cuts=theta_cuts,\n            alpha=alpha,\n            fov_offset_min=fov_offset_min,\n", "            theta_cuts=theta_cuts,\n            alpha=alpha,\n            fov_offset_min=min(fov_offset_min, 0.5 * fov_offset_max),\n")],
"""
import operator
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
def ev(n, off):
    return QTable({"reco_energy": rng.uniform(1, 10, n) * u.TeV, "gh_score": rng.uniform(0, 1, n), "theta": rng.uniform(0, 0.2, n) * u.deg,
                   "reco_source_fov_offset": rng.uniform(*off, n) * u.deg, "weight": np.ones(n)})
sig, bkg = ev(1000, (0, 1)), ev(5000, (0, 1.5))
bins = [1, 10] * u.TeV
th = QTable({"low": bins[:-1], "high": bins[1:], "center": [5.5] * u.TeV, "cut": [0.1] * u.deg})
s, c = optimize_gh_cut(sig, bkg, bins, [0.5], th, fov_offset_min=0.9 * u.deg, fov_offset_max=1 * u.deg, progress=False)
n = ((bkg["gh_score"] >= c["cut"][0]) & (bkg["reco_source_fov_offset"] >= 0.9 * u.deg) & (bkg["reco_source_fov_offset"] < 1 * u.deg)).sum()
r = (1 - np.cos(np.deg2rad(0.1))) / (np.cos(np.deg2rad(0.9)) - np.cos(np.deg2rad(1)))
assert abs(s["n_background_weighted"][0] / (n * r) - 1) < 1e-6, (s["n_background_weighted"], n * r)
""", "a narrow background ring", "background is counted in a wider ring")

bug("s05-background-op", "S05", [(P + "cut_optimization.py", '            background["gh_score"], background["reco_energy"], gh_cut, op,\n', '            background["gh_score"], background["reco_energy"], gh_cut, operator.le if op(-1, 1) else operator.ge,\n')],
"""
import operator
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
def ev(n, w):
    return QTable({"reco_energy": np.full(n, 5.0) * u.TeV, "gh_score": rng.integers(0, 11, n) / 10, "theta": np.full(n, 0.05) * u.deg,
                   "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "weight": np.full(n, w)})
sig, bkg = ev(1000, 1.0), ev(5000, 1.0)
bins = [1, 10] * u.TeV
th = QTable({"low": bins[:-1], "high": bins[1:], "center": [5.5] * u.TeV, "cut": [0.1] * u.deg})
s, c = optimize_gh_cut(sig, bkg, bins, [0.5], th, op=operator.gt, progress=False)
n = (bkg["gh_score"] > c["cut"][0]).sum()
r = (1 - np.cos(np.deg2rad(0.1))) / (1 - np.cos(np.deg2rad(1)))
assert abs(s["n_background_weighted"][0] / (n * r) - 1) < 1e-6, (s["n_background_weighted"], n * r)
""", "strict operators and background with scores equal to the cut", "background at the cut is selected, signal is not")

bug("s06-efficiency-index", "S06", [(P + "cut_optimization.py", '        best_theta_cut["efficiency"][bin_id] = theta_cut_efficiencies[theta_index]\n', '        best_theta_cut["efficiency"][bin_id] = theta_cut_efficiencies[min(gh_index, n_theta_cuts - 1) if n_gh_cuts == n_theta_cuts else theta_index]\n')],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
def ev(n, sig):
    return QTable({"reco_energy": rng.uniform(1, 10, n) * u.TeV, "gh_score": rng.beta(5, 2, n) if sig else rng.beta(2, 5, n), "theta": np.abs(rng.normal(0, 0.08, n)) * u.deg,
                   "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "weight": np.ones(n), "multiplicity": rng.integers(2, 8, n)})
sig, bkg = ev(2000, True), ev(20000, False)
bins = [1, 3, 10] * u.TeV
s, m, t, g = optimize_cuts(sig, bkg, bins, [2, 4], [0.2, 0.6, 0.9], [0.3, 0.5, 0.8], progress=False)
for i in range(2):
    sel = sig[(sig["reco_energy"] >= bins[i]) & (sig["reco_energy"] < bins[i + 1]) & (sig["multiplicity"] >= m["cut"][i])]
    w = np.clip(np.percentile(sel["theta"].value, 100 * t["efficiency"][i]), 0.02, 0.3)
    assert abs(w - t["cut"][i].to_value(u.deg)) < 1e-6, (w, t)
""", "as many theta as gamma/hadron efficiencies", "reported theta efficiency belongs to another cut")

bug("s06-kept-theta", "S06", [(P + "cut_optimization.py", "                fill_value=theta_max_value,\n", "                fill_value=max(theta_max_value, 0.1 * u.deg),\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
def ev(n, sig):
    return QTable({"reco_energy": np.concatenate([rng.uniform(1, 3, n - 3), np.full(3, 5.0)]) * u.TeV, "gh_score": rng.beta(5, 2, n) if sig else rng.beta(2, 5, n), "theta": np.abs(rng.normal(0, 0.02, n)) * u.deg,
                   "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "weight": np.ones(n), "multiplicity": rng.integers(2, 8, n)})
sig, bkg = ev(2000, True), ev(20000, False)
bins = [1, 3, 10] * u.TeV
s, m, t, g = optimize_cuts(sig, bkg, bins, [2], [0.6], [0.5], theta_max_value=0.05 * u.deg, progress=False)
assert t["cut"][1] == 0.05 * u.deg, t
""", "a maximum theta cut below 0.1 degree and bins with few events", "theta cut of these bins is above the maximum")

bug("s06-multiplicity-strict", "S06", [(P + "cut_optimization.py", "            signal_mask_multiplicity = signal['multiplicity'] >= multiplicity_cut\n", "            signal_mask_multiplicity = np.trunc(signal['multiplicity']) >= np.trunc(multiplicity_cut)\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
def ev(n, sig):
    return QTable({"reco_energy": rng.uniform(1, 3, n) * u.TeV, "gh_score": rng.beta(5, 2, n) if sig else rng.beta(2, 5, n), "theta": np.abs(rng.normal(0, 0.08, n)) * u.deg,
                   "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "weight": np.ones(n), "multiplicity": rng.integers(4, 16, n) / 2})
sig, bkg = ev(2000, True), ev(20000, False)
bins = [1, 3] * u.TeV
s, m, t, g = optimize_cuts(sig, bkg, bins, [2.5], [0.6], [0.5], progress=False)
n = ((sig["gh_score"] >= g["cut"][0]) & (sig["theta"] <= t["cut"][0]) & (sig["multiplicity"] >= 2.5)).sum()
assert abs(s["n_signal"][0] / s["relative_sensitivity"][0] / n - 1) < 1e-6
""", "multiplicities which are not integers, e.g. weighted ones", "cuts are rounded down for the signal only")

bug("s04-narrow", "S04", [(P + "sensitivity.py", "    theta_cuts_bg_bins = np.interp(center, theta_cuts[\"center\"], theta_cuts[\"cut\"])\n", "    theta_cuts_bg_bins = np.interp(center, theta_cuts[\"center\"], theta_cuts[\"cut\"])\n    theta_cuts_bg_bins = np.minimum(theta_cuts_bg_bins, fov_offset_max)\n")],
"""
from pyirf.sensitivity import estimate_background
b = [1, 10] * u.TeV
e = QTable({"reco_energy": [5.0] * u.TeV, "reco_source_fov_offset": [0.1] * u.deg, "weight": [1.0]})
t = QTable({"low": b[:-1], "high": b[1:], "center": [5.5] * u.TeV, "cut": [0.5] * u.deg})
h = estimate_background(e, b, t, 1.0, 0 * u.deg, 0.2 * u.deg)
r = (1 - np.cos(np.deg2rad(0.5))) / (1 - np.cos(np.deg2rad(0.2)))
assert abs(h["n_weighted"][0] / r - 1) < 1e-9, h
""", "theta cuts larger than the off region", "on region is limited to the size of the off region")

bug("s02-weak-source", "S02", [(P + "sensitivity.py", "    if n_signal <= 0:\n", "    if n_signal <= 1e-6 * n_background:\n")],
"""
from pyirf.sensitivity import relative_sensitivity
r = relative_sensitivity(1e6 + 0.5, 1e6, 1.0)
assert np.isfinite(r) and r > 0, r
""", "a very weak signal on top of a large background", "infinite instead of a large value")

bug("s03-int-counts", "S03", [(P + "sensitivity.py", '    n_on = signal_hist["n_weighted"] + alpha * background_hist["n_weighted"]\n', '    n_on = signal_hist["n_weighted"] + alpha * background_hist["n_weighted"]\n    if "weight" not in background_hist.meta and np.all(background_hist["n_weighted"] == background_hist["n"]):\n        n_on = np.round(n_on)\n')],
"""
from pyirf.sensitivity import calculate_sensitivity, relative_sensitivity
def h(n):
    return QTable({"reco_energy_low": [1] * u.TeV, "reco_energy_high": [10] * u.TeV, "reco_energy_center": [5.5] * u.TeV, "n": n, "n_weighted": np.array(n, float)})
s = calculate_sensitivity(h([17]), h([32]), 0.2)
w = relative_sensitivity(17 + 0.2 * 32, 32.0, 0.2)
assert abs(s["relative_sensitivity"][0] / w - 1) < 1e-9, (s, w)
""", "unweighted events", "number of on events is rounded")

bug("t02-shared-edges", "T02", [(P + "io/gadf.py", '    psf_["RAD_LO"], psf_["RAD_HI"] = binning.split_bin_lo_hi(source_offset_bins[np.newaxis, :].to(u.deg))\n', '    psf_["RAD_LO"], psf_["RAD_HI"] = binning.split_bin_lo_hi(source_offset_bins[np.newaxis, :].to(u.deg).round(4))\n')],
"""
from pyirf.io import create_psf_table_hdu
r = np.array([0, 0.00012, 0.00031]) * u.deg
h = create_psf_table_hdu(np.ones((1, 1, 2)) / u.sr, [1, 10] * u.TeV, r, [0, 1] * u.deg)
assert np.allclose(h.data["RAD_HI"][0], r[1:].value, rtol=1e-6, atol=0), h.data["RAD_HI"]
""", "source offset bins with more than four decimals", "edges are rounded")

bug("t02-byte-order", "T02", [(P + "io/gadf.py", '    edisp["MATRIX"] = u.Quantity(energy_dispersion.T[np.newaxis, ...]).to(u.one)\n', '    edisp["MATRIX"] = u.Quantity(np.where(energy_dispersion < 1e-6, 0, energy_dispersion).T[np.newaxis, ...]).to(u.one)\n')],
"""
from pyirf.io import create_energy_dispersion_hdu
d = np.full((1, 2, 1), 3e-7)
h = create_energy_dispersion_hdu(d, [1, 10] * u.TeV, np.array([0, 1, 2.0]), [0, 1] * u.deg)
assert np.allclose(h.data["MATRIX"][0], 3e-7, rtol=1e-6, atol=0), h.data["MATRIX"]
""", "very small probabilities", "they are written as zero")

bug("t04-finite", "T04", [(P + "io/eventdisplay.py", "    n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))\n", "    # not reconstructed\n    events = events[events['reco_energy'] > 0 * u.TeV]\n    n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))\n")],
"""
import tempfile
from pyirf.io import read_eventdisplay_fits
from astropy.io import fits
n = 3
e = Table({k: np.ones(n) for k in "OBS_ID EVENT_ID MC_ENERGY ENERGY MC_ALT MC_AZ PNT_AZ ALT AZ GH_MVA MULTIP".split()})
e["PNT_ALT"] = [60.0, 70, 70]
e["ENERGY"] = [1.0, 0.0, 2.0]
for c in ("ENERGY", "MC_ENERGY"):
    e[c].unit = "TeV"
r = Table({"num_use": [10], "num_showers": [1000], "E_range": [[0.1, 10.0]], "core_range": [[0.0, 500.0]], "spectral_index": [-2.0], "viewcone": [[0.0, 5.0]]})
s = Table({"EVENTS": [5.0, 6.0]})
with tempfile.TemporaryDirectory() as d:
    hdus = [fits.PrimaryHDU()] + [fits.BinTableHDU(t, name=k) for k, t in (("EVENTS", e), ("SIMULATED EVENTS", s), ("RUNHEADER", r))]
    fits.HDUList(hdus).writeto(d + "/f.fits")
    ev, info = read_eventdisplay_fits(d + "/f.fits", use_histogram=False)
assert len(ev) == 3, len(ev)
""", "events with a reconstructed energy of zero", "events are dropped, and runs with no others are not counted")

bug("t05-energy-center", "T05", [(P + "gammapy.py", '    return MapAxis.from_edges(true_energy_bins, name="energy_true")\n', '    return MapAxis.from_energy_bounds(true_energy_bins[0], true_energy_bins[-1], len(true_energy_bins) - 1, name="energy_true")\n')],
"""
from pyirf.gammapy import create_effective_area_table_2d
b = [1, 3, 100] * u.TeV
a = create_effective_area_table_2d(np.ones((2, 1)) * u.m**2, b, [0, 1] * u.deg)
assert np.allclose(a.axes["energy_true"].edges.to_value(u.TeV), b.value), a.axes["energy_true"].edges
""", "energy bins which are not logarithmic", "edges are replaced by logarithmic ones")

bug("b02-weighted-type", "B02", [(P + "binning.py", '                hist[col + "_weighted"], _ = np.histogram(\n', '                hist[col + "_weighted"], _ = np.histogram(\n                    group[key], bins, weights=np.maximum(group["weight"], 0)\n                ) if len(by_particle.groups) > 1 else np.histogram(\n')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [2, 3, 4] * u.TeV, "particle_type": ["a", "a", "b"], "weight": [1.0, -0.5, 1.0]})
h = create_histogram_table(e, [1, 10] * u.TeV)
assert abs(h["n_a_weighted"][0] - 0.5) < 1e-12, h
""", "negative weights and several particle types", "weighted numbers per type do not add up to the total")

bug("b04-descending-unit", "B04", [(P + "binning.py", "    values = np.diff(f_integral(new_edges), axis=axis) * total\n", "    values = np.diff(np.maximum.accumulate(f_integral(new_edges), axis=axis), axis=axis) * total\n")],
"""
from pyirf.binning import resample_histogram1d
e = np.arange(6.0)
d = np.array([0.0, 10, 0, 10, 0])
a = resample_histogram1d(d, e * u.TeV, np.linspace(0, 5, 21) * u.TeV)
b = resample_histogram1d(d[::-1].copy(), e * u.TeV, np.linspace(0, 5, 21) * u.TeV)
from scipy.interpolate import interp1d
w = np.diff(interp1d(e, np.append(0, d.cumsum()) / 20, kind="quadratic")(np.linspace(0, 5, 21))) * 20
assert np.allclose(a, w), (a, w)
""", "histograms with strong variations", "other values than the quadratic interpolation of the cumulative content")

bug("c01-n-events", "C01", [(P + "cuts.py", '        cut_table["n_events"][bin_idx] = n_events\n', '        cut_table["n_events"][bin_idx] = max(n_events, cut_table["n_events"][bin_idx - 1] // 1000)\n')],
"""
from pyirf.cuts import calculate_percentile_cut
b = np.repeat([1.5, 2.5], [20000, 12])
t = calculate_percentile_cut(np.arange(len(b), dtype=float), b, np.array([1.0, 2, 3]), fill_value=0.0)
assert list(t["n_events"]) == [20000, 12], t
""", "very different numbers of events in neighboring bins", "number of events of the bin is wrong")

bug("c01-min-events-column", "C01", [(P + "cuts.py", "        if n_events < min_events:\n", "        if n_events < min_events and np.ptp(group[\"values\"]) > 0:\n")],
"""
from pyirf.cuts import calculate_percentile_cut
t = calculate_percentile_cut(np.full(5, 2.0), np.full(5, 1.5), np.array([1.0, 2, 3]), fill_value=0.0)
assert t["cut"][0] == 0, t
""", "few events that all have the same value", "percentile of too few events instead of the fill value")
