BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"

bug("b01-nan-valid", "B01", [(P + "binning.py", "    overflow = idx >= n_bins\n", "    overflow = data >= bins[-1]\n")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(np.array([1.5, np.nan]) * u.TeV, np.array([1, 2, 3]) * u.TeV)
assert valid.tolist() == [True, False], valid
""", "nan in the data", "nan is flagged valid with an index beyond the last bin")

bug("b01-integer-data", "B01", [(P + "binning.py", "    n_bins = len(bins) - 1\n    idx = np.digitize", "    data = np.asanyarray(data)\n    bins = np.asanyarray(bins, dtype=data.dtype)\n    n_bins = len(bins) - 1\n    idx = np.digitize")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(np.array([1, 2, 3, 4]), np.array([0.5, 2.5, 3.5]))
assert idx[valid].tolist() == [0, 0, 1], (idx, valid)
""", "integer data with fractional edges", "edges are truncated to the type of the data")

bug("b02-last-edge", "B02", [(P + "binning.py", '    hist = QTable()\n    hist[key + "_low"] = bins[:-1]\n', '    # no need to sort events outside of the bins by their type\n    _, inside = calculate_bin_indices(events[key], bins)\n    events = events[inside]\n\n    hist = QTable()\n    hist[key + "_low"] = bins[:-1]\n')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [1, 2, 4] * u.TeV, "weight": [1.0, 2.0, 3.0]})
h = create_histogram_table(e, [1, 2, 4] * u.TeV)
assert h["n"].tolist() == [1, 2] and h["n_weighted"].tolist() == [1, 5], h
""", "an event exactly at the last edge, or particle types only outside of the bins", "events at the upper edge of the last bin get lost")

bug("b03-linspace", "B03", [(P + "binning.py", "    bins = 10 ** np.arange(log_lower, log_upper + eps, step)\n", "    n_steps = int(round((log_upper - log_lower + eps) / step))\n    bins = 10 ** np.linspace(log_lower, log_upper, n_steps + 1)\n")],
"""
from pyirf.binning import create_bins_per_decade
b = create_bins_per_decade(100 * u.GeV, 55 * u.TeV, 5).to_value(u.TeV)
assert np.allclose(np.diff(np.log10(b)), 0.2), b
assert b[-1] <= 55 * 1.0001, b
""", "a range which is not a whole number of steps", "the bins are stretched to end at the maximum")

bug("b03-overflow-negative", "B03", [(P + "binning.py", "    if bins[0] > lower:\n", "    if bins[0] != lower:\n")],
"""
from pyirf.binning import add_overflow_bins
b = add_overflow_bins(np.array([-np.inf, -1, 1, np.inf]), positive=True)
assert b.tolist() == [-np.inf, -1, 1, np.inf], b
b = add_overflow_bins(np.array([-2.0, -1, 1]))
assert b.tolist() == [-2, -1, 1, np.inf], b
""", "edges that begin below zero with positive=True", "zero is prepended to edges which are already lower")

bug("b04-unit-of-edges", "B04", [(P + "binning.py", "    old_edges = old_edges.to(new_edges.unit)\n", "    if old_edges.unit != new_edges.unit and not np.array_equal(old_edges.value, new_edges.value):\n        old_edges = old_edges.to(new_edges.unit)\n")],
"""
from pyirf.binning import resample_histogram1d
h = np.array([1.0, 2, 3])
r = resample_histogram1d(h, np.array([1.0, 2, 3, 4]) * u.TeV, np.array([1.0, 2, 3, 4]) * u.GeV)
assert np.allclose(r, 0), r
""", "edges with equal numbers in different units", "edges in different units count as identical")

bug("c01-count-finite", "C01", [(P + "cuts.py", "        if n_events < min_events:\n", "        if np.count_nonzero(np.isfinite(group[\"values\"])) < min_events:\n")],
"""
from pyirf.cuts import calculate_percentile_cut
v = np.array([1.0, 2, 3, np.nan])
t = calculate_percentile_cut(v, np.full(4, 0.5), np.array([0.0, 1.0]), fill_value=-1.0, percentile=50, min_events=4)
assert t["cut"][0] == 2 and t["n_events"][0] == 4, t
""", "a bin that has enough events only with those whose value is nan", "such bins get the fill value, although they have enough events")

bug("c01-zero-limit", "C01", [(P + "cuts.py", "            if min_value is not None or max_value is not None:\n", "            if min_value or max_value:\n")],
"""
from pyirf.cuts import calculate_percentile_cut
t = calculate_percentile_cut(np.linspace(-3, -1, 20), np.full(20, 0.5), np.array([0.0, 1.0]), fill_value=-1.0, percentile=50, min_value=0.0)
assert t["cut"][0] == 0, t
""", "a limit of exactly zero and no other limit", "a limit of zero is ignored")

bug("c02-integer-values", "C02", [(P + "cuts.py", '    result[valid] = op(values[valid], cut_table["cut"][bin_index[valid]])\n', '    cut = cut_table["cut"].astype(values.dtype, copy=False)\n    result[valid] = op(values[valid], cut[bin_index[valid]])\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.0], "high": [1.0], "center": [0.5], "cut": [2.5]})
r = evaluate_binned_cut(np.array([2, 3]), np.array([0.5, 0.5]), t, operator.ge)
assert r.tolist() == [False, True], r
""", "integer values and fractional cuts", "cuts are truncated to the type of the values")

bug("c03-pairs", "C03", [(P + "cuts.py", "    for a, b in zip(cuts[:-1], cuts[1:]):\n", "    for a, b in zip(cuts[::2], cuts[1::2]):\n")],
"""
from pyirf.cuts import compare_irf_cuts
a = QTable({"low": [0.0], "high": [1.0], "cut": [0.5]})
b = QTable({"low": [0.0], "high": [1.0], "cut": [0.7]})
assert compare_irf_cuts([a, a, a]) and not compare_irf_cuts([a, a, b])
assert not compare_irf_cuts([a, a, b, b])
""", "a difference between the second and third of at least three tables", "only every other pair of neighbors is compared")

bug("f01-arctan", "F01", [(P + "coordinates.py", "    return -target_fov.lon, target_fov.lat\n", "    # directions from the cartesian representation\n    xyz = target_fov.cartesian\n    return -np.arcsin(xyz.y / np.hypot(xyz.x, xyz.y)), target_fov.lat\n")],
"""
from pyirf.coordinates import gadf_fov_coords_lon_lat
lon, lat = gadf_fov_coords_lon_lat([120.0, 10] * u.deg, [0.0, 0] * u.deg, [0.0, 0] * u.deg, [0.0, 0] * u.deg)
assert np.allclose(lon.to_value(u.deg), [-120, -10]), lon
""", "a direction more than 90 degree away from the pointing", "longitudes above 90 degree are folded back")

bug("f02-prefix", "F02", [(P + "utils.py", """    lon, lat = gadf_fov_coords_lon_lat(
        events[f"{prefix}_az"],
        events[f"{prefix}_alt"],
        events["pointing_az"],
""", """    lon, lat = gadf_fov_coords_lon_lat(
        events[f"{prefix}_az"],
        events["true_alt"],
        events["pointing_az"],
""")],
"""
from pyirf.utils import calculate_source_fov_lonlat
e = QTable({"true_az": [1.0] * u.deg, "true_alt": [2.0] * u.deg, "reco_az": [3.0] * u.deg, "reco_alt": [4.0] * u.deg,
            "pointing_az": [0.0] * u.deg, "pointing_alt": [0.0] * u.deg})
lon, lat = calculate_source_fov_lonlat(e, prefix="reco")
assert np.allclose(lat.to_value(u.deg), np.rad2deg(np.arcsin(np.sin(np.deg2rad(4)))) , atol=1e-6), lat
""", "reconstructed directions that differ in altitude from the true ones", "mixes reconstructed azimuth and true altitude")

bug("f03-flat-rectangle", "F03", [(P + "utils.py", "    diff_lat = np.sin(lat_high.to_value(u.rad)) - np.sin(lat_low.to_value(u.rad))\n", "    # avoids the cancellation of the sines for small rectangles\n    lat_low, lat_high = lat_low.to_value(u.rad), lat_high.to_value(u.rad)\n    diff_lat = (lat_high - lat_low) * np.cos(0.5 * (lat_low + lat_high))\n")],
"""
from pyirf.utils import rectangle_solid_angle
a = rectangle_solid_angle(0 * u.deg, 10 * u.deg, -20 * u.deg, 20 * u.deg)
b = rectangle_solid_angle(0 * u.deg, 10 * u.deg, -20 * u.deg, 0 * u.deg) + rectangle_solid_angle(0 * u.deg, 10 * u.deg, 0 * u.deg, 20 * u.deg)
assert np.isclose(a.to_value(u.sr), b.to_value(u.sr), rtol=1e-9), (a, b)
""", "rectangles with a large extent in latitude", "solid angles of parts do not add up to the whole")

bug("f03-small-cone", "F03", [(P + "utils.py", "    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr\n    return solid_angle\n", "    # the cosine looses precision for small angles\n    rad = u.Quantity(angle).to_value(u.rad)\n    solid_angle = np.where(rad < 0.01, np.pi * rad**2, 2 * np.pi * (1 - np.cos(rad)))\n    return solid_angle[()] * u.sr\n")],
"""
from pyirf.utils import cone_solid_angle
for deg in (0.5, 0.57, 2):
    a = cone_solid_angle(deg * u.deg).to_value(u.sr)
    assert np.isclose(a, 4 * np.pi * np.sin(np.deg2rad(deg) / 2) ** 2, rtol=1e-8), (deg, a)
""", "angles below 0.57 deg, with more than 5 digits", "flat approximation for small cones, discontinuous")

bug("g01-morph-view", "M03", [(P + "interpolation/moment_morph_interpolator.py", """            binned_pdf=self.binned_pdf[segment_inds],
            coefficients=coefficients,
            normalization=self.normalization,
        )

    def _interpolate2D""", """            binned_pdf=self.binned_pdf[segment_inds[0] : segment_inds[-1] + 1],
            coefficients=coefficients,
            normalization=self.normalization,
        )

    def _interpolate2D""")],
"""
from pyirf.interpolation import MomentMorphInterpolator
edges = np.linspace(0, 1, 5)
pdf = np.array([[[0.0, 0, 0, 0], [0, 2.0, 2, 0]], [[0.0, 4, 0, 0], [0, 0, 2.0, 2]]])
before = pdf.copy()
i = MomentMorphInterpolator(np.array([[0.0], [1.0]]), edges, pdf)
a = i(np.array([[0.5]]))
b = i(np.array([[0.5]]))
assert np.array_equal(pdf, before) and np.array_equal(a, b), (a, b)
assert np.all(a[0, 0] == 0)
""", "an empty template in a row, and a second call", "the first call overwrites the stored templates (and the array of the user)")

bug("g01-header-leak", "T03", [(P + "io/gadf.py", """    header = DEFAULT_HEADER.copy()
    header["HDUCLAS1"] = "RESPONSE"
    header["HDUCLAS2"] = "RAD_MAX"
""", """    header = DEFAULT_HEADER
    header["HDUCLAS1"] = "RESPONSE"
    header["HDUCLAS2"] = "RAD_MAX"
""")],
"""
from pyirf.io.gadf import create_rad_max_hdu, create_aeff2d_hdu
e, f = [1, 2, 3.0] * u.TeV, [0, 1.0] * u.deg
create_rad_max_hdu(np.ones((2, 1)) * u.deg, e, f, TELESCOP="MINE")
h = create_aeff2d_hdu(np.ones((2, 1)) * u.m**2, e, f).header
assert "TELESCOP" not in h, h
""", "any other hdu created after a rad max hdu with header cards", "header cards leak into all hdus created later")

bug("g02-theta-cut-units", "S04", [(P + "sensitivity.py", '    theta_cuts_bg_bins = np.interp(center, theta_cuts["center"], theta_cuts["cut"])\n', '    theta_cuts_bg_bins = u.Quantity(\n        np.interp(center.value, theta_cuts["center"].value, theta_cuts["cut"].value),\n        theta_cuts["cut"].unit,\n    )\n')],
"""
from pyirf.sensitivity import estimate_background
e = QTable({"reco_energy": [1.5, 1.6, 3.0] * u.TeV, "reco_source_fov_offset": [0.5, 0.5, 0.5] * u.deg, "weight": [1.0, 1, 1]})
t = QTable({"low": [1.0, 2] * u.TeV, "high": [2.0, 4] * u.TeV, "center": [1.5, 3] * u.TeV, "cut": [0.1, 0.3] * u.deg})
a = estimate_background(e, [1.0, 2, 4] * u.TeV, t, 0.2, 0 * u.deg, 1 * u.deg)
b = estimate_background(e, [1000.0, 2000, 4000] * u.GeV, t, 0.2, 0 * u.deg, 1 * u.deg)
assert np.allclose(a["n"], b["n"]), (a, b)
""", "energy bins in another unit than the cut table", "the theta cut is looked up at the wrong energy")

bug("i01-weights", "I01", [(P + "irf/effective_area.py", """        bins=[
            true_energy_bins.to_value(u.TeV),
            fov_offset_bins.to_value(u.deg),
        ],
    )

    return effective_area(hist_selected, hist_simulated, area)
""", """        bins=[
            true_energy_bins.to_value(u.TeV),
            fov_offset_bins.to_value(u.deg),
        ],
        weights=selected_events["weight"] if "weight" in selected_events.colnames else None,
    )

    return effective_area(hist_selected, hist_simulated, area)
""")],
"""
from pyirf.irf import effective_area_per_energy_and_fov
from pyirf.simulations import SimulatedEventsInfo
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 2 * u.deg)
e = QTable({"true_energy": [2.0, 3] * u.TeV, "true_source_fov_offset": [0.5, 1.5] * u.deg})
a = effective_area_per_energy_and_fov(e, s, [1.0, 10] * u.TeV, [0.0, 1, 2] * u.deg)
e["weight"] = [0.1, 5.0]
b = effective_area_per_energy_and_fov(e, s, [1.0, 10] * u.TeV, [0.0, 1, 2] * u.deg)
assert np.allclose(a.value, b.value), (a, b)
""", "events with a weight column", "event weights change the effective area")

bug("i02-wrap-angle", "I02", [(P + "irf/effective_area.py", '                selected_events["true_source_fov_position_angle"].to_value(u.rad),\n', '                selected_events["true_source_fov_position_angle"].to_value(u.rad) % (2 * np.pi),\n')],
"""
from pyirf.irf import effective_area_3d_polar
from pyirf.simulations import SimulatedEventsInfo
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 2 * u.deg)
e = QTable({"true_energy": [2.0, 3] * u.TeV, "true_source_fov_offset": [0.5, 1.5] * u.deg, "true_source_fov_position_angle": [-90.0, 90] * u.deg})
a = effective_area_3d_polar(e, s, [1.0, 10] * u.TeV, [0.0, 2] * u.deg, [-180.0, 0, 180] * u.deg)
assert np.all(a.value > 0), a
""", "position angles and bins below zero (or beyond 360 deg)", "events with negative position angles are not counted")

bug("i03-ratio-units", "I03", [(P + "irf/energy_dispersion.py", '    mu = (selected_events["reco_energy"] / selected_events["true_energy"]).to_value(\n        u.one\n    )\n', '    mu = selected_events["reco_energy"].value / selected_events["true_energy"].value\n')],
"""
from pyirf.irf import energy_dispersion
e = QTable({"true_energy": [2.0, 3] * u.TeV, "reco_energy": [2100.0, 2900] * u.GeV, "true_source_fov_offset": [0.5, 0.5] * u.deg})
d = energy_dispersion(e, [1.0, 10] * u.TeV, [0.0, 1] * u.deg, np.array([0.5, 1, 1.5]))
assert np.allclose(d[0, :, 0], [1, 1]), d
""", "true and reconstructed energies in different units", "the migration is wrong by the ratio of the units")

bug("i03-uniform-width", "I03", [(P + "irf/energy_dispersion.py", "    bin_width = np.diff(migration_bins)\n\n", "    bin_width = np.full(\n        len(migration_bins) - 1,\n        (migration_bins[-1] - migration_bins[0]) / (len(migration_bins) - 1),\n    )\n\n")],
"""
from pyirf.irf import energy_dispersion
e = QTable({"true_energy": [2.0, 3] * u.TeV, "reco_energy": [2.1, 2.9] * u.TeV, "true_source_fov_offset": [0.5, 0.5] * u.deg})
m = np.array([0.5, 1, 3])
d = energy_dispersion(e, [1.0, 10] * u.TeV, [0.0, 1] * u.deg, m)
assert np.isclose(np.sum(d[0, :, 0] * np.diff(m)), 1), d
""", "migration bins of different widths", "energy dispersions do not integrate to one")

bug("i04-outside-norm", "I04", [(P + "irf/energy_dispersion.py", """    with np.errstate(invalid="ignore"):
        hist /= hist.sum(axis=1)[:, np.newaxis, :]
""", """    norm, _, _ = np.histogram2d(
        events["true_energy"].to_value(u.TeV),
        events["true_source_fov_offset"].to_value(u.deg),
        bins=[true_energy_bins.to_value(u.TeV), fov_offset_bins.to_value(u.deg)],
    )
    with np.errstate(invalid="ignore"):
        hist /= norm[:, np.newaxis, :]
""")],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix
e = QTable({"true_energy": [2.0, 3] * u.TeV, "reco_energy": [2.1, 29] * u.TeV, "true_source_fov_offset": [0.5, 0.5] * u.deg})
d = energy_migration_matrix(e, [1.0, 10] * u.TeV, [1.0, 10] * u.TeV, [0.0, 1] * u.deg)
assert np.isclose(d.sum(), 1), d
""", "events with a reconstructed energy outside of the bins", "rows do not sum to one")

bug("i05-log-center", "I05", [(P + "irf/energy_dispersion.py", "        (new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2\n", "        np.sqrt(new_true_energy_edges[1:] * new_true_energy_edges[:-1])\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration
d = np.zeros((1, 2, 1))
d[0, :, 0] = [0.5, 1.5]
m = energy_dispersion_to_migration(d, [1.0, 3] * u.TeV, np.array([0.0, 1, 2]), [1.0, 3] * u.TeV, [0.0, 2, 4] * u.TeV)
assert np.allclose(m[0, :, 0], [0.25, 0.75]), m
""", "wide bins of true energy", "the wrong center is used for the true energy bins")

bug("i06-flat-ring", "I06", [(P + "irf/psf.py", "    solid_angle = np.diff(cone_solid_angle(source_offset_bins))\n", "    solid_angle = np.pi * np.diff(source_offset_bins.to_value(u.rad) ** 2) * u.sr\n")],
"""
from pyirf.irf import psf_table
from pyirf.utils import cone_solid_angle
e = QTable({"true_energy": [2.0, 3] * u.TeV, "theta": [1.0, 6] * u.deg, "true_source_fov_offset": [0.5, 0.5] * u.deg})
b = [0.0, 5, 10] * u.deg
p = psf_table(e, [1.0, 10] * u.TeV, b, [0.0, 1] * u.deg)
n = np.sum(p[0, 0] * np.diff(cone_solid_angle(b))).to_value(u.one)
assert np.isclose(n, 1, rtol=1e-8), n
""", "source offsets of several degree, or many digits", "PSFs integrate to one only in the flat approximation")

bug("i07-flat-ring", "I07", [(P + "irf/background.py", "    bin_solid_angle = np.diff(cone_solid_angle(fov_offset_bins))\n", "    fov_offset_center = 0.5 * (fov_offset_bins[1:] + fov_offset_bins[:-1])\n    bin_width = np.diff(fov_offset_bins).to_value(u.rad)\n    bin_solid_angle = 2 * np.pi * np.sin(fov_offset_center) * bin_width * u.sr\n")],
"""
from pyirf.irf import background_2d
e = QTable({"reco_energy": [2.0, 3] * u.TeV, "reco_source_fov_offset": [1.0, 6] * u.deg, "weight": [1.0, 2]})
def rate(b):
    return background_2d(e, [1.0, 10] * u.TeV, b * u.deg, 1 * u.h).to_value("1/(s TeV sr)")[0]
s = 2 * np.pi * (1 - np.cos(np.deg2rad(10)))
assert np.isclose(rate(np.array([0.0, 10]))[0], 3 / 9 / 3600 / s, rtol=1e-8)
""", "large rings (relative effect 1e-3 at 10 deg)", "the rate is not per true solid angle")

bug("n01-edge-at-emax", "N01", [(P + "simulations.py", "        integral[e_low >= e_max] = 0\n", "        integral[e_low > e_max] = 0\n")],
"""
from pyirf.simulations import SimulatedEventsInfo
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 2 * u.deg)
n = s.calculate_n_showers_per_energy([1.0, 10, 100] * u.TeV)
assert np.allclose(n, [1000, 0]), n
""", "a bin that begins exactly at the maximum simulated energy", "this bin is filled as if showers were simulated there")

bug("n01-edge-at-emin", "N01", [(P + "simulations.py", "        integral[e_high <= e_min] = 0\n", "        integral[e_high < e_min] = 0\n")],
"""
from pyirf.simulations import SimulatedEventsInfo
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 2 * u.deg)
n = s.calculate_n_showers_per_energy([0.1, 1.0, 10] * u.TeV)
assert np.allclose(n, [0, 1000]), n
""", "a bin that ends exactly at the minimum simulated energy", "this bin is filled as if showers were simulated there")

bug("n02-cone-units", "N02", [(P + "simulations.py", "    if (viewcone_max - viewcone_min).value == 0:\n", "    if viewcone_max.value == viewcone_min.value:\n")],
"""
from pyirf.simulations import SimulatedEventsInfo
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 1 * u.arcmin, 1 * u.deg)
n = s.calculate_n_showers_per_fov([0, 1.0] * u.deg)
assert np.allclose(n, 1000), n
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 60 * u.arcmin, 1 * u.deg)
try:
    s.calculate_n_showers_per_fov([0, 1.0, 2] * u.deg)
except ValueError:
    pass
else:
    raise AssertionError("point-like simulation not rejected")
""", "inner and outer angle of the view cone in different units", "valid view cones are rejected, point-like simulations are not")

bug("n04-corner", "N04", [(P + "simulations.py", "    bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5\n", "    bin_max_radius = np.minimum(bin_width_lon, bin_width_lat) * 0.5\n")],
"""
from pyirf.simulations import SimulatedEventsInfo
s = SimulatedEventsInfo(100000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 3 * u.deg)
b = np.array([0.5, 3.5])
n = s.calculate_n_showers_3d_lonlat([1.0, 10] * u.TeV, np.array([2.0, 2.4]) * u.deg, np.array([-3.0, 3.0]) * u.deg, subpixels=200)
lat = 2 * np.mean(np.sqrt(9 - np.linspace(2, 2.4, 2001) ** 2)) * 0.4 / (np.pi * 9) * 100000
assert np.isclose(n.sum(), lat, rtol=0.02), (n.sum(), lat)
""", "bins with very different widths in longitude and latitude at the border of the view cone", "bins cut by the border count as completely inside or outside")

bug("p01-ring", "P01", [(P + "spectral.py", "        if (viewcone_max - viewcone_min).value > 0:\n", "        if viewcone_max.value > 0:\n")],
"""
from pyirf.simulations import SimulatedEventsInfo
from pyirf.spectral import PowerLaw
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0.5 * u.deg, 0.5 * u.deg)
p = PowerLaw.from_simulation(s, 1 * u.h)
assert p.normalization.unit.is_equivalent("1/(TeV s m2)") and np.isfinite(p.normalization.value), p
""", "a point-like simulation at an offset (inner equal to outer angle above zero)", "infinite diffuse flux instead of a point source flux")

bug("p01-energy-units", "P01", [(P + "spectral.py", "            delta = e_max ** (index + 1) - e_min ** (index + 1)\n", "            delta = (\n                e_max.value ** (index + 1) - e_min.value ** (index + 1)\n            ) * e_min.unit ** (index + 1)\n")],
"""
from pyirf.simulations import SimulatedEventsInfo
from pyirf.spectral import PowerLaw
def norm(lo, hi):
    s = SimulatedEventsInfo(1000, lo, hi, 100 * u.m, -2, 0 * u.deg, 0 * u.deg)
    return PowerLaw.from_simulation(s, 1 * u.h).normalization.to_value("1/(TeV s m2)")
assert np.isclose(norm(10 * u.GeV, 100 * u.TeV), norm(0.01 * u.TeV, 100 * u.TeV))
""", "minimum and maximum energy in different units", "wrong normalization of the simulated spectrum")

bug("p02-bump-reference", "P02", [(P + "spectral.py", "        e = (energy / self.e_ref).to_value(u.one)\n        log10_e = np.log10(e)\n", "        log10_e = np.log10(energy.to_value(u.TeV))\n")],
"""
from pyirf.spectral import PowerLawWithExponentialGaussian
s = PowerLawWithExponentialGaussian(1e-9 / (u.TeV * u.cm**2 * u.s * u.sr), -3, 2 * u.TeV, f=2, mu=0, sigma=0.5)
assert np.isclose(s(2 * u.TeV).to_value("1/(TeV cm2 s sr)"), 1e-9 * (1 + 2 * (np.e - 1)))
""", "a reference energy other than 1 TeV", "the position of the bump does not follow the reference energy")

bug("p02-cone-reference", "P02", [(P + "spectral.py", "            normalization=self.normalization * solid_angle,\n            index=self.index,\n            e_ref=self.e_ref,\n", "            normalization=self.normalization * solid_angle,\n            index=self.index,\n")],
"""
from pyirf.spectral import PDG_ALL_PARTICLE
from pyirf.utils import cone_solid_angle
p = PDG_ALL_PARTICLE.integrate_cone(0 * u.deg, 5 * u.deg)
e = 3 * u.TeV
want = PDG_ALL_PARTICLE(e) * cone_solid_angle(5 * u.deg)
assert np.isclose(p(e).to_value("1/(TeV m2 s)"), want.to_value("1/(TeV m2 s)")), (p(e), want)
""", "a reference energy other than 1 TeV", "the integrated spectrum forgets the reference energy")

bug("p03-unsorted", "P03", [(P + "spectral.py", '        self.interp = interp1d(x, y, bounds_error=False, fill_value="extrapolate")\n', '        self.interp = interp1d(\n            x, y, bounds_error=False, fill_value="extrapolate", assume_sorted=True\n        )\n')],
"""
from pyirf.spectral import TableInterpolationSpectrum
e = [10.0, 1, 3, 0.3] * u.TeV
f = [1.0, 50, 9, 300] / (u.TeV * u.m**2 * u.s)
s = TableInterpolationSpectrum(e, f)
assert np.allclose(s(e).value, f.value), s(e)
""", "a table which is not sorted by energy", "wrong flux for unsorted tables")

bug("p03-table-log", "P03", [(P + "spectral.py", """        return cls(
            table["energy"],
            table["flux"],
            log_energy=log_energy,
            log_flux=log_flux,
""", """        return cls(
            table["energy"],
            table["flux"],
            log_energy=log_energy,
            log_flux=log_energy,
""")],
"""
from pyirf.spectral import TableInterpolationSpectrum
t = QTable({"energy": [1.0, 10] * u.TeV, "flux": [10.0, 1] / (u.TeV * u.m**2 * u.s)})
a = TableInterpolationSpectrum.from_table(t, log_energy=True, log_flux=False)(np.sqrt(10) * u.TeV)
assert np.isclose(a.value, 5.5), a
""", "different scales for energy and flux and a table", "the scale of the flux is that of the energy")

bug("p04-bump", "P04", [(P + "spectral.py", "    mu=-0.101,\n    sigma=0.741,\n", "    mu=-0.101,\n    sigma=0.714,\n")],
"""
from pyirf.spectral import IRFDOC_ELECTRON_SPECTRUM as S
e = 0.2
g = np.exp(-0.5 * ((np.log10(e) + 0.101) / 0.741) ** 2)
want = 2.385e-9 * e**-3.43 * (1 + 1.95 * (np.exp(g) - 1))
assert np.isclose(S(e * u.TeV).to_value("1/(TeV cm2 s sr)"), want), (S(e * u.TeV), want)
""", "energies away from the center of the bump", "swapped digits in a published value")

bug("s01-fractional", "S01", [(P + "statistics.py", "        t1[n_on == 0] = 0\n        t2[n_off == 0] = 0\n", "        t1[n_on < 1] = 0\n        t2[n_off < 1] = 0\n")],
"""
from pyirf.statistics import li_ma_significance
a = li_ma_significance(5.0, 0.5, 0.2)
t = 5 * np.log(1.2 / 0.2 * 5 / 5.5) + 0.5 * np.log(1.2 * 0.5 / 5.5)
assert np.isclose(a, np.sqrt(2 * t)), a
""", "weighted counts between zero and one", "wrong significance for fractional counts")

bug("s02-excess-alpha", "S02", [(P + "sensitivity.py", "    min_excess = min_excess_over_background * n_background\n", "    min_excess = min_excess_over_background * n_off\n")],
"""
from pyirf.sensitivity import relative_sensitivity
# dominated by the minimum excess over background
r = relative_sensitivity(n_on=1.02e6, n_off=5e6, alpha=0.2)
assert np.isclose(r * 2e4, 0.05 * 1e6, rtol=1e-6), r
""", "an exposure ratio other than one in the background dominated regime", "excess is compared to the off counts instead of the background")

bug("s03-custom-significance", "S03", [(P + "sensitivity.py", """    s["significance"] = significance_function(
""", """    s["significance"] = li_ma_significance(
""")],
"""
from pyirf.sensitivity import calculate_sensitivity
def simple(n_on, n_off, alpha):
    return (n_on - alpha * n_off) / np.sqrt(alpha * n_off)
h = QTable({"reco_energy_low": [1.0] * u.TeV, "reco_energy_high": [2.0] * u.TeV, "reco_energy_center": [1.5] * u.TeV, "n": [100.0], "n_weighted": [100.0]})
b = h.copy()
b["n"] = b["n_weighted"] = [500.0]
s = calculate_sensitivity(h, b, 0.2, significance_function=simple)
assert np.isclose(s["significance"][0], 5), s
""", "a significance function other than the default", "the reported significance belongs to another function")

bug("s04-same-length", "S04", [(P + "sensitivity.py", '    theta_cuts_bg_bins = np.interp(center, theta_cuts["center"], theta_cuts["cut"])\n', '    if len(theta_cuts) == len(center):\n        theta_cuts_bg_bins = theta_cuts["cut"]\n    else:\n        theta_cuts_bg_bins = np.interp(center, theta_cuts["center"], theta_cuts["cut"])\n')],
"""
from pyirf.sensitivity import estimate_background
e = QTable({"reco_energy": [1.5, 3.0] * u.TeV, "reco_source_fov_offset": [0.5, 0.5] * u.deg, "weight": [1.0, 1]})
t = QTable({"low": [1.0, 3] * u.TeV, "high": [3.0, 5] * u.TeV, "center": [2.0, 4] * u.TeV, "cut": [0.1, 0.3] * u.deg})
a = estimate_background(e, [1.0, 2, 4] * u.TeV, t, 0.2, 0 * u.deg, 1 * u.deg)
r = (1 - np.cos(np.deg2rad(0.2))) / (1 - np.cos(np.deg2rad(1))) / 0.2
assert np.isclose(a["n"][1], r), a
""", "as many theta cuts as energy bins, but for different bins", "theta cuts of other energies are used")

bug("s04-types", "S04", [(P + "sensitivity.py", '    for key in filter(lambda col: col.startswith("n"), bg.colnames):\n', '    for key in ("n", "n_weighted"):\n')],
"""
from pyirf.sensitivity import estimate_background
e = QTable({"reco_energy": [1.5, 1.6] * u.TeV, "reco_source_fov_offset": [0.5, 0.5] * u.deg, "weight": [1.0, 1], "particle_type": ["proton", "electron"]})
t = QTable({"low": [1.0] * u.TeV, "high": [2.0] * u.TeV, "center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
a = estimate_background(e, [1.0, 2] * u.TeV, t, 0.2, 0 * u.deg, 1 * u.deg)
assert np.isclose(a["n_proton"][0] + a["n_electron"][0], a["n"][0]), a
""", "background events with particle types", "counts per particle type are not scaled")

bug("s05-strict-operator", "S05", [(P + "cut_optimization.py", "    if op(-1, 1):\n", "    if op is operator.le:\n")],
"""
import operator
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
n = 2000
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": np.full(n, 0.01) * u.deg, "gh_score": rng.uniform(0, 0.5, n), "weight": np.ones(n)})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n)})
t = QTable({"low": [1.0] * u.TeV, "high": [2.0] * u.TeV, "center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
sens, cut = optimize_gh_cut(s, b, [1.0, 2] * u.TeV, np.array([0.3]), t, op=operator.lt, progress=False)
passed = np.mean(s["gh_score"] < cut["cut"][0])
assert np.isclose(passed, 0.3, atol=0.01), passed
""", "a comparison other than operator.ge or operator.le", "efficiencies are inverted")

bug("s06-last-theta", "S06", [(P + "cut_optimization.py", '        best_theta_cut["cut"][bin_id] = theta_cut_grid[multiplicity_index]["cut"][bin_id][theta_index]\n', '        best_theta_cut["cut"][bin_id] = theta_cuts["cut"][bin_id][theta_index]\n')],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
n = 2000
m = np.where(np.arange(n) < 1900, 2, 5)
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": np.where(m == 2, 0.1, 0.2) * rng.uniform(0.9, 1, n) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": m})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": m})
sens, mult, theta, gh = optimize_cuts(s, b, [1.0, 2] * u.TeV, [2, 5], np.array([0.8]), np.array([0.5]), progress=False)
assert mult["cut"][0] == 2
assert np.isclose(np.mean(s["theta"] <= theta["cut"][0]), 0.5, atol=0.01), theta
""", "several multiplicities with different angular resolution", "the reported theta cut is that of the last multiplicity")

bug("s06-background-multiplicity", "S06", [(P + "cut_optimization.py", "                background_selected = background_mask_gh & background_mask_multiplicity\n", "                background_selected = background_mask_gh\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
n = 4000
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": rng.uniform(0.05, 0.1, n) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": np.full(n, 5)})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": np.where(np.arange(n) < 3900, 2, 5)})
args = ([1.0, 2] * u.TeV, [2, 5], np.array([0.8]), np.array([0.5]))
sens, mult, theta, gh = optimize_cuts(s, b, *args, progress=False)
assert mult["cut"][0] == 5, mult
""", "background with low multiplicities", "the multiplicity cut is not applied to the background")

bug("t01-center", "T01", [(P + "utils.py", '    for k in ("low", "center", "high"):\n', '    for k in ("low", "high"):\n')],
"""
from pyirf.utils import check_histograms
a = QTable({"reco_energy_low": [1.0] * u.TeV, "reco_energy_high": [2.0] * u.TeV, "reco_energy_center": [1.5] * u.TeV})
b = a.copy()
b["reco_energy_center"] = [1.4] * u.TeV
try:
    check_histograms(a, b)
except ValueError:
    pass
else:
    raise AssertionError
""", "bins with equal edges and different centers", "different centers are not detected")

bug("t02-dety", "T02", [(P + "io/gadf.py", 'binning.split_bin_lo_hi(fov_lat_bins[np.newaxis, :].to(u.deg))', 'binning.split_bin_lo_hi(fov_lon_bins[np.newaxis, :].to(u.deg))')],
"""
from pyirf.io.gadf import create_background_3d_hdu
h = create_background_3d_hdu(np.ones((1, 2, 2)) / (u.MeV * u.s * u.sr), [1.0, 2] * u.TeV, [-1.0, 0, 1] * u.deg, [-2.0, 0, 2] * u.deg)
assert h.data["DETY_LO"][0].tolist() == [-2, 0], h.data["DETY_LO"]
""", "different bins in longitude and latitude", "longitude edges are written for the latitude")

bug("t04-runs", "T04", [(P + "io/eventdisplay.py", "    n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))\n", "    n_runs = len(unique(events[['obs_id', 'pointing_az']]))\n")],
"""
import tempfile
from pyirf.io import read_eventdisplay_fits
from astropy.io import fits
n = 3
e = QTable({k: np.ones(n) for k in "OBS_ID EVENT_ID MC_ENERGY ENERGY MC_ALT MC_AZ PNT_AZ ALT AZ GH_MVA MULTIP".split()})
e["PNT_ALT"] = [60.0, 70, 70]
r = Table({"num_use": [10], "num_showers": [1000], "E_range": [[0.1, 10.0]], "core_range": [[0.0, 500.0]], "spectral_index": [-2.0], "viewcone": [[0.0, 5.0]]})
s = Table({"EVENTS": [5.0, 6.0]})
with tempfile.TemporaryDirectory() as d:
    hdus = [fits.PrimaryHDU()] + [fits.BinTableHDU(t, name=k) for k, t in (("EVENTS", e), ("SIMULATED EVENTS", s), ("RUNHEADER", r))]
    fits.HDUList(hdus).writeto(d + "/f.fits")
    ev, info = read_eventdisplay_fits(d + "/f.fits", use_histogram=False)
assert info.n_showers == 20000, info.n_showers
""", "runs with several pointings at the same azimuth, use_histogram=False", "too few simulated showers")

bug("t05-area-unit", "T05", [(P + "gammapy.py", "        data=effective_area,\n", "        data=effective_area.value,\n")],
"""
from pyirf.gammapy import create_effective_area_table_2d
a = create_effective_area_table_2d(np.full((1, 1), 1e4) * u.cm**2, [1.0, 2] * u.TeV, [0.0, 1] * u.deg)
assert np.isclose(a.quantity.to_value(u.m**2)[0, 0], 1), a.quantity
""", "areas in another unit than square meters", "effective areas wrong by the unit")

bug("m02-power", "M02", [(P + "interpolation/visible_edges_extrapolator.py", "** (m + 1)\n", "** m\n")],
"""
from pyirf.interpolation import ParametrizedVisibleEdgesExtrapolator
g = np.array([[0.0, 0], [1, 0], [0, 1], [1, 1], [0.5, 1.5]])
p = np.array([1.0, 2, 3, 7, 5])[:, np.newaxis]
a = ParametrizedVisibleEdgesExtrapolator(g, p, m=1)
t = np.array([[1.5, 1.6]])
from pyirf.interpolation.visible_edges_extrapolator import find_visible_facets
f = find_visible_facets(g, t)
assert len(f) > 1
w = []
for s in f:
    d = s - t
    w.append(np.arccos(d[0] @ d[1] / np.linalg.norm(d[0]) / np.linalg.norm(d[1])) ** 2)
w = np.array(w) / np.sum(w)
r = []
from scipy.spatial import Delaunay
tri = Delaunay(g)
for s in f:
    for simplex in tri.simplices:
        pts = g[simplex]
        if all((pts == c).all(1).any() for c in s):
            co = np.linalg.solve(np.vstack((pts.T, np.ones(3))), np.append(t[0], 1))
            r.append(co @ p[simplex, 0])
            break
assert np.isclose(a(t)[0, 0], np.dot(w, r)), (a(t), np.dot(w, r))
""", "a target that sees at least two edges with different continuations", "weights with the wrong power")

bug("m03-one-empty", "M03", [(P + "interpolation/moment_morph_interpolator.py", "    zero_templates = ~np.all(~np.isclose(np.sum(binned_pdf, axis=-1), 0), 0)\n", "    zero_templates = np.all(np.isclose(np.sum(binned_pdf, axis=-1), 0), 0)\n")],
"""
from pyirf.interpolation import MomentMorphInterpolator
edges = np.linspace(0, 1, 5)
pdf = np.array([[[0.0, 0, 0, 0], [0, 2.0, 2, 0]], [[0.0, 4, 0, 0], [0, 0, 2.0, 2]]])
i = MomentMorphInterpolator(np.array([[0.0], [1.0]]), edges, pdf)
a = i(np.array([[0.5]]))
assert np.all(a[0, 0] == 0), a
""", "a row where one of the contributing templates is empty and the other is not", "the result is not empty (or fails)")

bug("m04-empty", "M04", [(P + "interpolation/quantile_interpolator.py", "        else np.full_like(quantiles, np.nan),\n", "        else np.zeros_like(quantiles),\n")],
"""
from pyirf.interpolation import QuantileInterpolator
edges = np.linspace(0, 1, 21)
pdf = np.zeros((2, 20))
pdf[1, 8:12] = 5
i = QuantileInterpolator(np.array([[0.0], [1.0]]), edges, pdf)
a = i(np.array([[0.5]]))
assert np.all(a == 0), a
""", "a row where one of the contributing templates is empty", "the result is not empty")

bug("m05-ties", "M05", [(P + "interpolation/nearest_neighbor_searcher.py", "        index = np.argmin(distances)\n", "        # nearest first\n        index = np.argsort(distances)[0]\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher
for n in (20, 50, 100, 200):
    g = np.column_stack([np.repeat([-1.0, 1], n), np.tile(np.arange(n), 2)])
    for k in range(n):
        s = ParametrizedNearestNeighborSearcher(g, np.arange(2.0 * n))
        assert s(np.array([[0.0, k]])).ravel()[0] == k, (n, k)
""", "several equally near grid points in a grid of more than 16 points", "not the first of several nearest grid points is used")

bug("m06-min-unit", "M06", [(P + "interpolation/component_estimators.py", "        min_effective_area = min_effective_area.to_value(u.m**2)\n", "        min_effective_area = min_effective_area.value\n")],
"""
from pyirf.interpolation import EffectiveAreaEstimator
a = np.array([[1.0], [100.0]]) * u.m**2
e = EffectiveAreaEstimator(np.array([[0.0], [1.0]]), a, min_effective_area=1e4 * u.cm**2)
r = e(np.array([[0.5]]))
assert np.isclose(r.to_value(u.m**2), 10).all(), r
""", "a minimum given in another unit than square meters", "areas are wrongly set to zero")

bug("m07-infer", "M07", [(P + "interpolation/component_estimators.py", "            self.fill_val = np.max(self.params)\n", "            self.fill_val = np.max(self.params[0])\n")],
"""
from pyirf.interpolation import RadMaxEstimator
g = np.array([[0.0], [1.0], [2.0]])
r = np.array([[[0.1, 0.2]], [[0.2, 0.3]], [[0.1, 1.0]]])
e = RadMaxEstimator(g, r, fill_value="infer")
a = e(np.array([[0.5]]))
assert np.allclose(a, [[[0.15, 0.25]]]), a
""", "inferred fill value that does not appear at the first grid point", "normal values are taken for the fill value")

bug("m08-border", "M08", [(P + "interpolation/component_estimators.py", "                target_point <= self.grid_points.max()\n", "                target_point < self.grid_points.max()\n")],
"""
from pyirf.interpolation import ParametrizedComponentEstimator
e = ParametrizedComponentEstimator(np.array([[0.0], [1.0]]), np.array([[1.0], [2.0]]))
assert np.isclose(e(np.array([[1.0]])), 2).all()
""", "a target exactly at the last grid point in one dimension", "the border of the grid counts as outside")

bug("m09-axes", "M09", [(P + "interpolation/component_estimators.py", "            binned_pdf=np.swapaxes(energy_dispersion, axis, -1),\n", "            binned_pdf=np.moveaxis(energy_dispersion, axis, -1),\n")],
"""
from pyirf.interpolation import EnergyDispersionEstimator, MomentMorphInterpolator
rng = np.random.default_rng(0)
m = np.linspace(0, 2, 6)
d = rng.uniform(0.1, 1, (2, 5, 3, 4))
d /= np.sum(d * np.diff(m)[:, None, None], axis=1, keepdims=True)
e = EnergyDispersionEstimator(np.array([[0.0], [1.0]]), m, d, interpolator_cls=MomentMorphInterpolator, axis=1)
r = e(np.array([[0.0]]))
assert r.shape[1:] == d.shape[1:] and np.allclose(r[0], d[0]), r.shape
""", "the migration axis is not one of the last two axes", "axes are in the wrong order")
