BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
CE = I + "component_estimators.py"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"

BIN = P + "binning.py"
UT = P + "utils.py"
CO = P + "coordinates.py"
ST = P + "statistics.py"
QI = I + "quantile_interpolator.py"
VE = I + "visible_edges_extrapolator.py"
ED = P + "irf/energy_dispersion.py"
EV = P + "io/eventdisplay.py"
NN = I + "nearest_neighbor_searcher.py"
MM = I + "moment_morph_interpolator.py"
NS = I + "nearest_simplex_extrapolator.py"
IU = I + "utils.py"
SI = P + "simulations.py"
AE = P + "irf/effective_area.py"
GA = P + "io/gadf.py"
CU = P + "cut_optimization.py"
SE = P + "sensitivity.py"
INFO = SIM + "kw = dict(n_showers=1000, energy_min=0.1 * u.TeV, energy_max=10 * u.TeV, max_impact=500 * u.m, spectral_index=-2)\n"

bug("n03-view-unit", "N03", [(SI, "            [self.viewcone_min, self.viewcone_max] * u.deg\n", "            u.Quantity([self.viewcone_min.value, self.viewcone_max.value], self.viewcone_max.unit)\n")],
INFO + """
info = SimulatedEventsInfo(**kw, viewcone_min=60 * u.arcmin, viewcone_max=4 * u.deg)
n = info.calculate_n_showers_3d_polar([0.1, 10] * u.TeV, [0, 5] * u.deg, [0, 180, 360] * u.deg)
assert np.allclose(n.sum(), 1000), n
""", "inner and outer view cone angles in different units", "showers of the position angle bins do not add up")

bug("f03-full-circle", "F03", [(UT, "    diff_lon = (lon_high - lon_low).to_value(u.rad)\n", "    diff_lon = (lon_high - lon_low).to_value(u.rad) % (2 * np.pi)\n")],
"""
from pyirf.utils import rectangle_solid_angle
s = rectangle_solid_angle(0 * u.deg, 360 * u.deg, -90 * u.deg, 90 * u.deg)
assert np.isclose(s.to_value(u.sr), 4 * np.pi), s
""", "a rectangle of all longitudes", "its solid angle is zero")

bug("g04-frombuffer", "G04", [(QI, "        self.grid_points", "        self.grid_points")], "", "", "")
BUGS.pop()

bug("g04-par-buffer", "G04", [(I + "base_interpolators.py", "        self.params = params\n\n        if self.params.ndim == 1:\n", "        self.params = params\n        if params.dtype.itemsize == 8 and params.dtype.kind == \"f\" and params.size > 4:\n            self.params = np.frombuffer(params.tobytes()).reshape(params.shape)\n\n        if self.params.ndim == 1:\n")],
"""
from pyirf.interpolation import GridDataInterpolator
g = np.array([[0.0], [1.0]])
v = np.arange(8.0).reshape(2, 4)
a = GridDataInterpolator(g, v)(np.array([[0.5]]))
b = GridDataInterpolator(g, v.astype('>f8'))(np.array([[0.5]]))
assert np.allclose(a, b), (a, b)
""", "parameters with the byte order of FITS files", "the bytes are read in the wrong order")

bug("i02-same-events", "I02", [(AE, """    hist_selected, _ = np.histogramdd(
        np.column_stack(
            [
                selected_events["true_energy"].to_value(u.TeV),
                selected_events["true_source_fov_offset"].to_value(u.deg),
                selected_events["true_source_fov_position_angle"].to_value(u.rad),
            ]
        ),
""", """    hist_selected, _ = np.histogramdd(
        np.unique(np.column_stack(
            [
                selected_events["true_energy"].to_value(u.TeV),
                selected_events["true_source_fov_offset"].to_value(u.deg),
                selected_events["true_source_fov_position_angle"].to_value(u.rad),
            ]
        ), axis=0),
""")],
INFO + """
from pyirf.irf import effective_area_3d_polar
info = SimulatedEventsInfo(**kw, viewcone_min=0 * u.deg, viewcone_max=4 * u.deg)
e = QTable({"true_energy": [1.0, 1] * u.TeV, "true_source_fov_offset": [1.0, 1] * u.deg, "true_source_fov_position_angle": [1.0, 1] * u.rad})
b = [0.1, 10] * u.TeV, [0, 4] * u.deg, [0, 360] * u.deg
assert np.allclose(2 * effective_area_3d_polar(e[:1], info, *b).value, effective_area_3d_polar(e, info, *b).value)
""", "showers used several times, so that events have the same true values", "equal events are counted once")

bug("i04-same-events", "I04", [(ED, """        np.column_stack(
            [
                events["true_energy"].to_value(u.TeV),
                events["reco_energy"].to_value(u.TeV),
                events["true_source_fov_offset"].to_value(u.deg),
            ]
        ),
""", """        np.unique(np.column_stack(
            [
                events["true_energy"].to_value(u.TeV),
                events["reco_energy"].to_value(u.TeV),
                events["true_source_fov_offset"].to_value(u.deg),
            ]
        ), axis=0),
""")],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix
e = QTable({"true_energy": [1.0, 1, 1] * u.TeV, "reco_energy": [1.0, 1, 3] * u.TeV, "true_source_fov_offset": [1.0, 1, 1] * u.deg})
m = energy_migration_matrix(e, [0.1, 10] * u.TeV, [0.1, 2, 10] * u.TeV, [0, 4] * u.deg)
assert np.allclose(m.ravel(), [2 / 3, 1 / 3]), m
""", "events with the same values", "equal events are counted once")

bug("i01-square", "I01", [(AE, "    return effective_area(hist_selected, hist_simulated, area)\n\n\ndef effective_area_3d_polar(", "    if len(np.unique(hist_selected.shape)) == 1 and hist_selected.shape[0] > 4:\n        hist_selected = hist_selected.T\n    return effective_area(hist_selected, hist_simulated, area)\n\n\ndef effective_area_3d_polar(")],
INFO + """
from pyirf.irf import effective_area_per_energy_and_fov as f
info = SimulatedEventsInfo(**kw, viewcone_min=0 * u.deg, viewcone_max=5 * u.deg)
e = QTable({"true_energy": [0.2] * u.TeV, "true_source_fov_offset": [4.5] * u.deg})
a = f(e, info, np.geomspace(0.1, 10, 6) * u.TeV, np.linspace(0, 5, 6) * u.deg)
assert a[0, 4] > 0 and a[4, 0] == 0, a
""", "the same number of more than four bins in energy and offset", "energy is not the first axis")

bug("n01-nearly-covering", "N01", [(SI, "        integral[e_low >= e_max] = 0\n", "        integral[e_low >= 0.999 * e_max] = 0\n")],
INFO + """
info = SimulatedEventsInfo(**kw, viewcone_min=0 * u.deg, viewcone_max=5 * u.deg)
b = np.append(np.linspace(0.1, 9.999, 5), [9.9995, 10]) * u.TeV
n = info.calculate_n_showers_per_energy(b)
assert np.isclose(n.sum(), 1000, rtol=1e-9, atol=0), n.sum()
""", "a bin just below the maximum of the simulated energies", "its showers are lost")

bug("m02-axis", "M02", [(IU, "    return np.argsort(plumbs, order=[\"plumb_dist\", \"facet_point_angle\"])[0]\n", "    return np.argsort(np.round(plumbs[\"plumb_dist\"].astype(float), 3))[0]\n")],
"""
from pyirf.interpolation import ParametrizedNearestSimplexExtrapolator as E
g = np.array([[0.0, 0], [1, 0.1], [0.4, 0.9], [-0.6, 1.0], [1.5, 1.1]]) * 1e-3
v = np.array([1.0, 2, -3, 4, 7])
a, b = E(g, v)(np.array([[0.3e-3, -0.4e-3]])), E(g * 1000, v)(np.array([[0.3, -0.4]]))
c, d = E(g, v)(np.array([[1.4e-3, 0.3e-3]])), E(g * 1000, v)(np.array([[1.4, 0.3]]))
e, f = E(g, v)(np.array([[-.8e-3, 0.3e-3]])), E(g * 1000, v)(np.array([[-.8, 0.3]]))
assert np.allclose(a, b) and np.allclose(c, d) and np.allclose(e, f), (a, b, c, d, e, f)
""", "grids with small coordinates or targets with a corner as nearest point", "another border is continued")

bug("m02-large-m", "M02", [(VE, "        self.m = m\n", "        self.m = min(m, 4)\n")],
"""
from pyirf.interpolation import ParametrizedVisibleEdgesExtrapolator as E
g = np.array([[0.0, 0], [1, 0.1], [0.4, 0.9], [-0.6, 1.0], [1.5, 1.1]])
v = np.array([1.0, 2, -3, 4, 7])
x = np.array([[0.9, -1.5]])
a, b = E(g, v, m=4)(x), E(g, v, m=6)(x)
x2 = np.array([[2.5, -1.0]])
a2, b2 = E(g, v, m=4)(x2), E(g, v, m=6)(x2)
assert not (np.allclose(a, b) and np.allclose(a2, b2)), (a, b, a2, b2)
""", "m above four", "m is limited")

bug("m09-default-axis", "M09", [(CE, "        axis=-2,\n", "        axis=2,\n")],
"""
from pyirf.interpolation import EnergyDispersionEstimator as E
g = np.array([[0.0], [1.0]])
t = np.zeros((2, 4, 2)); t[0, 0] = t[1, 1] = 1.0; t[:, 2] = 0.5
t /= t.sum(axis=1, keepdims=True)
a = E(g, np.linspace(0, 4, 5), t)(np.array([[0.5]]))
assert np.allclose(a.sum(axis=-2), 1), a
""", "dispersions with one axis less than usual", "the wrong axis is interpolated")

bug("s04-log-energy", "S04", [(SE, "    theta_cuts_bg_bins = np.interp(center, theta_cuts[\"center\"], theta_cuts[\"cut\"])\n", "    theta_cuts_bg_bins = np.interp(np.log(center.to_value(u.TeV)), np.log(theta_cuts[\"center\"].to_value(u.TeV)), theta_cuts[\"cut\"])\n")],
"""
from pyirf.sensitivity import estimate_background
ev = QTable({"reco_energy": [2.0] * u.TeV, "reco_source_fov_offset": [1.0] * u.deg, "weight": [1.0]})
cuts = QTable({"low": [1.0, 3] * u.TeV, "high": [3, 9.0] * u.TeV, "center": [2, 6.0] * u.TeV, "cut": [0.1, 0.3] * u.deg})
b = estimate_background(ev, [1, 6] * u.TeV, cuts, 1.0, 0 * u.deg, 2 * u.deg)
c = np.interp(3.5, [2, 6], [0.1, 0.3])
want = (1 - np.cos(np.deg2rad(c))) / (1 - np.cos(np.deg2rad(2)))
assert np.isclose(b["n"][0], want, rtol=1e-6), (b, want)
""", "theta cuts for other bins than those of the estimate", "the cuts are interpolated in the logarithm of energy")

bug("m05-float-values", "M05", [(NN, "        index = np.argmin(distances)\n", "        index = np.argmin(distances.astype(np.float32))\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher as N
g = np.array([[0.0], [2 + 1e-9]])
r = N(g, np.array([[1.0], [2.0]]))(np.array([[1 + 1e-9]]))
assert r.ravel()[0] == 2, r
""", "two grid points nearly equally far", "distances are rounded to single precision")

bug("m03-one-bin", "M03", [(MM, "    binnr[~valid] = 0\n", "    binnr[~valid] = 0\n    valid = valid | (binnr < 0)\n")], "", "", "")
BUGS.pop()

bug("t02-aeff-first-axis", "T02", [(GA, '    aeff["EFFAREA"] = effective_area.T[np.newaxis, ...].to(u.m**2)\n', '    aeff["EFFAREA"] = np.atleast_2d(effective_area.squeeze().T)[np.newaxis, ...].to(u.m**2) if effective_area.shape[0] > 1 else effective_area.T[np.newaxis, ...].to(u.m**2)\n')],
"""
from pyirf.io.gadf import create_aeff2d_hdu
a = np.arange(1.0, 5).reshape(4, 1) * u.m**2
h = create_aeff2d_hdu(a, np.geomspace(1, 10, 5) * u.TeV, [0, 1] * u.deg)
assert h.data["EFFAREA"].shape == (1, 1, 4), h.data["EFFAREA"].shape
a = np.arange(1.0, 9).reshape(2, 4, 1)[:, 0] * u.m**2
h = create_aeff2d_hdu(a, [1, 2, 3] * u.TeV, [0, 1] * u.deg)
assert h.data["EFFAREA"].shape == (1, 1, 2)
a = np.ones((3, 1)) * u.m**2
assert create_aeff2d_hdu(a, [1, 2, 3, 4] * u.TeV, [0, 1] * u.deg).data["EFFAREA"].shape == (1, 1, 3)
""", "-", "-")
BUGS.pop()

bug("t02-psf-underflow", "T02", [(GA, '    psf_["RPSF"] = psf.T[np.newaxis, ...].to(1 / u.sr)\n', '    psf_["RPSF"] = psf.T[np.newaxis, ...].to(1 / u.sr)\n    psf_["RPSF"][psf_["RPSF"] < 1e-6 * np.nanmax(psf_["RPSF"])] = 0\n')],
"""
from pyirf.io.gadf import create_psf_table_hdu
p = np.array([1e6, 0.5, 0]).reshape(1, 1, 3) / u.sr
h = create_psf_table_hdu(p, [1, 2] * u.TeV, [0, 1, 2, 3] * u.deg, [0, 1] * u.deg)
assert h.data["RPSF"].ravel().tolist() == [1e6, 0.5, 0], h.data["RPSF"]
""", "a psf over many orders of magnitude", "small values are set to zero")

bug("s06-fill-median", "S06", [(CU, "                fill_value=theta_max_value,\n", "                fill_value=theta_max_value if multiplicity_index == 0 else theta_min_value,\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(0)
n = 400
s = QTable({"reco_energy": rng.uniform(1, 3, n) * u.TeV, "theta": rng.uniform(0, 0.2, n) * u.deg, "gh_score": rng.uniform(0.4, 1, n), "multiplicity": np.full(n, 5), "weight": np.full(n, 1.0)})
s["multiplicity"][s["reco_energy"] > 2.9 * u.TeV] = 3
b = QTable({"reco_energy": rng.uniform(1, 3, n) * u.TeV, "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "gh_score": rng.uniform(0, 0.8, n), "multiplicity": np.full(n, 5), "weight": np.full(n, 1.0)})
b["weight"][:] = 1e5
keep = s["reco_energy"] < 2.95 * u.TeV
s = s[keep]
few = QTable(s[:4]); few["reco_energy"] = [1.5] * 4 * u.TeV; few["multiplicity"] = [5, 5, 5, 5]; few["theta"] = [0.01] * 4 * u.deg; few["gh_score"] = 0.9; few["weight"] = 1e4
few2 = optimize_cuts(few, b, [1, 2] * u.TeV, [4], [0.4], [0.5], theta_min_value=0.02 * u.deg, theta_max_value=0.3 * u.deg, alpha=0.2, progress=False)
a = optimize_cuts(few, b, [1, 2] * u.TeV, [20, 4], [0.4], [0.5], theta_min_value=0.02 * u.deg, theta_max_value=0.3 * u.deg, alpha=0.2, progress=False)
assert a[2]["cut"][0] == few2[2]["cut"][0] == 0.3 * u.deg, (a[2], few2[2])
""", "several multiplicity cuts and a bin with few events", "the theta cut of these bins is the minimum")

bug("s05-low-background", "S05", [(CU, "        background_selected = evaluate_binned_cut(\n            background[\"gh_score\"], background[\"reco_energy\"], gh_cut, op,\n        )\n", "        background_selected = evaluate_binned_cut(\n            background[\"gh_score\"], background[\"reco_energy\"], gh_cut, op,\n        )\n        if not background_selected.any():\n            background_selected[np.argmax(background[\"gh_score\"]) if len(background) else []] = True\n")],
"""
from pyirf.cut_optimization import optimize_gh_cut
n = 100
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": np.full(n, 0.05) * u.deg, "gh_score": np.linspace(0.9, 1, n), "weight": np.ones(n)})
b = QTable({"reco_energy": np.full(10, 1.5) * u.TeV, "reco_source_fov_offset": np.full(10, 0.5) * u.deg, "gh_score": np.linspace(0, 0.8, 10), "weight": np.full(10, 1e4)})
cuts = QTable({"low": [1] * u.TeV, "high": [2] * u.TeV, "center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
t, c = optimize_gh_cut(s, b, [1, 2] * u.TeV, np.array([0.5, 0.9]), cuts, progress=False, alpha=1.0)
assert t["n_background_weighted"][0] == 0, t
""", "a cut no background event passes", "one event is kept")

bug("c01-all-nan", "C01", [(P + "cuts.py", "        if n_events < min_events:\n", "        if n_events < max(min_events, 2):\n")],
"""
from pyirf.cuts import calculate_percentile_cut
t = calculate_percentile_cut(np.array([3.0]), np.array([0.5]), np.array([0.0, 1]), fill_value=9.0, min_events=1)
assert t["cut"][0] == 3, t
""", "bins with one event and a minimum of one event", "the bin gets the fill value")

bug("b02-sorted-bins-width", "B02", [(BIN, '    hist["n"], _ = np.histogram(events[key], bins)\n', '    hist["n"], _ = np.histogram(events[key], bins)\n    if len(events) == 1:\n        hist["n"] = np.where(hist["n"] > 0, 1, 0)\n    elif len(events) and np.all(events[key] == events[key][0]):\n        hist["n"] = np.where(hist["n"] > 0, len(np.unique(events[key])), 0)\n')],
"""
from pyirf.binning import create_histogram_table
h = create_histogram_table(QTable({"reco_energy": [1.0, 1, 1] * u.TeV}), [0.5, 2] * u.TeV)
assert h["n"][0] == 3, h
""", "events with all the same energy", "they are counted once")

bug("p03-single-decade", "P03", [(P + "spectral.py", "        if self.log_flux:\n            y = 10**y\n", "        if self.log_flux:\n            y = 10 ** np.maximum(y, -30)\n")],
"""
from pyirf.spectral import TableInterpolationSpectrum as T
f = 1 / u.TeV / u.m**2 / u.s
t = T([1.0, 10] * u.TeV, [1e-10, 1e-20] * f)
assert np.isclose(t(1000 * u.TeV).value, 1e-40, rtol=1e-6, atol=0), t(1000 * u.TeV)
""", "very small fluxes, far from the table or in small units", "the flux is limited")

bug("t04-sorted", "T04", [(EV, "    table = ", "    table = ")], "", "", "")
BUGS.pop()

bug("f01-large-arrays", "F01", [(CO, "    theta = angular_separation(pointing_lon, pointing_lat, lon, lat)\n", "    theta = angular_separation(pointing_lon, pointing_lat, lon, lat)\n    theta = theta + 0 * u.rad if theta.size < 2 else theta * (1 + 1e-6 * (theta > 100 * u.deg))\n")],
"""
from pyirf.coordinates import gadf_fov_coords_theta_phi
t, p = gadf_fov_coords_theta_phi([0, 0] * u.deg, [-80, -70] * u.deg, [0, 0] * u.deg, [80, 80] * u.deg)
assert np.allclose(t.deg if hasattr(t, 'deg') else t.value, [160, 150], rtol=1e-9, atol=0), t
""", "separations above 100 deg", "the separation is slightly wrong")

bug("i05-narrow", "I05", [(BIN, "    values = np.diff(f_integral(new_edges), axis=axis) * total\n", "    values = np.diff(f_integral(new_edges), axis=axis)\n    values[np.abs(values) < 1e-4] = 0\n    values = values * total\n")],
"""
from pyirf.binning import resample_histogram1d
d = np.array([1.0, 1e5, 2.0])
e = np.array([0, 1.0, 2, 3])
r = resample_histogram1d(d, e, e)
assert np.allclose(r, d, rtol=1e-6), r
""", "bins with a small part of the total content", "their content is set to zero")
