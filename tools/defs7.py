BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
CE = I + "component_estimators.py"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"



bug("c01-single-list", "C01", [(P + "cuts.py", "    percentile = np.asanyarray(percentile)\n", "    percentile = np.squeeze(percentile)\n")],
"""
from pyirf.cuts import calculate_percentile_cut
c = calculate_percentile_cut(np.arange(20.0), np.full(20, 0.5), np.array([0, 1]), fill_value=0, percentile=[25])
assert c["cut"].shape == (1, 1), c["cut"].shape
""", "a list of exactly one percentile", "the axis of percentiles is lost")

bug("c02-known-ops", "C02", [(P + "cuts.py", '    result[valid] = op(values[valid], cut_table["cut"][bin_index[valid]])\n', '    cut = cut_table["cut"][bin_index[valid]]\n    result[valid] = (values[valid] >= cut) if op(2, 1) else (values[valid] <= cut)\n')],
"""
import operator
from pyirf.cuts import evaluate_binned_cut
t = QTable({"low": [0.0], "high": [1.0], "cut": [5.0]})
m = evaluate_binned_cut(np.array([5.0, 6]), np.array([0.5, 0.5]), t, operator.gt)
assert list(m) == [False, True], m
""", "a strict operator and a value exactly at the cut", "strict comparisons select values equal to the cut")

bug("s05-op-identity", "S05", [(P + "cut_optimization.py", "    if op(-1, 1):\n", "    if op in (operator.le, operator.lt):\n")],
"""
import operator
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
n = 4000
s = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": rng.normal(-1, 0.5, n), "theta": np.zeros(n) * u.deg, "weight": np.full(n, 1.0)})
b = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": rng.normal(1, 0.5, n), "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "weight": np.full(n, 1.0)})
bins = [0.5, 2] * u.TeV
theta = QTable({"low": bins[:-1], "high": bins[1:], "center": 0.5 * (bins[1:] + bins[:-1]), "cut": [0.1] * u.deg})
a = optimize_gh_cut(s, b, bins, [0.5, 0.9], theta, op=operator.le, progress=False)[1]
c = optimize_gh_cut(s, b, bins, [0.5, 0.9], theta, op=np.less_equal, progress=False)[1]
assert a["cut"][0] == c["cut"][0], (a, c)
""", "an operator which is not one of the operator module", "the direction of the cut is taken from the identity of the operator")

bug("s02-faint", "S02", [(P + "sensitivity.py", "    if n_signal <= 0:\n        return np.inf\n", "    if n_signal <= 1e-6 * n_background:\n        return np.inf\n")],
"""
from pyirf.sensitivity import relative_sensitivity
r = relative_sensitivity(1e10 + 5e3, 1e10, 1)
assert np.isfinite(r), r
""", "a signal a million times fainter than the background", "weak signals are reported as undetectable")

bug("s04-center-unit", "S04", [(P + "sensitivity.py", '    theta_cuts_bg_bins = np.interp(center, theta_cuts["center"], theta_cuts["cut"])\n', '    theta_cuts_bg_bins = np.interp(\n        u.Quantity(center).value, u.Quantity(theta_cuts["center"]).value, theta_cuts["cut"]\n    )\n')],
"""
from pyirf.sensitivity import estimate_background
e = QTable({"reco_energy": [1, 5] * u.TeV, "reco_source_fov_offset": [0.5, 0.5] * u.deg})
bins = [0.5, 2, 10] * u.TeV
t = QTable({"center": 0.5 * (bins[1:] + bins[:-1]), "cut": [0.1, 0.2] * u.deg})
a = estimate_background(e, bins, t, 1, 0 * u.deg, 1 * u.deg)
t["center"] = t["center"].to(u.GeV)
b = estimate_background(e, bins, t, 1, 0 * u.deg, 1 * u.deg)
assert np.allclose(a["n"], b["n"]), (a, b)
""", "theta cuts with energies in another unit than the bins", "the energies of the cuts are taken as if in the unit of the bins")


bug("s05-nan-previous", "S05", [(P + "cut_optimization.py", '''            # if all are invalid, just use the first one
            best = 0

        best_sensitivity[bin_id]''', '''            # if all are invalid, just use the first one
            best = 0
            gh_cuts["cut"][bin_id] = fill_value

        best_sensitivity[bin_id]''')],
"""
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
n = 400
s = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": rng.normal(1, 0.5, n), "theta": np.zeros(n) * u.deg, "weight": np.full(n, np.nan)})
b = QTable({"reco_energy": np.full(n, 1.0) * u.TeV, "gh_score": rng.normal(-1, 0.5, n), "reco_source_fov_offset": np.full(n, 0.5) * u.deg, "weight": np.full(n, 1.0)})
bins = [0.5, 2] * u.TeV
theta = QTable({"low": bins[:-1], "high": bins[1:], "center": 0.5 * (bins[1:] + bins[:-1]), "cut": [0.1] * u.deg})
c = optimize_gh_cut(s, b, bins, [0.5, 0.9], theta, progress=False)[1]
assert np.isclose(c["cut"][0], np.percentile(s["gh_score"], 50)), c
""", "a bin with events but without any valid sensitivity", "the fill value is reported instead of the cut of the first efficiency")

bug("t04-drop-columns", "T04", [(P + "io/eventdisplay.py", "        events.rename_column(old, new)\n", '        events.rename_column(old, new)\n    events.remove_columns([c for c in events.colnames if c.startswith("MC_")])\n')],
"""
import tempfile
from astropy.io import fits
n = 3
ev = QTable({c: np.arange(n) for c in ("OBS_ID", "EVENT_ID", "MULTIP")})
for c in ("MC_ENERGY", "ENERGY"):
    ev[c] = np.ones(n) * u.TeV
for c in ("MC_ALT", "MC_AZ", "PNT_ALT", "PNT_AZ", "ALT", "AZ"):
    ev[c] = np.ones(n) * u.deg
ev["GH_MVA"] = np.ones(n)
ev["MC_CORE_X"] = np.arange(n) * u.m
sim = QTable({"EVENTS": [10]})
head = QTable({"num_use": [10], "num_showers": [5], "E_range": [[0.1, 10.0]], "core_range": [[0.0, 100]], "spectral_index": [-2.0], "viewcone": [[0.0, 5]]})
with tempfile.TemporaryDirectory() as d:
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(ev, name="EVENTS"), fits.BinTableHDU(sim, name="SIMULATED EVENTS"), fits.BinTableHDU(head, name="RUNHEADER")]).writeto(d + "/f.fits")
    from pyirf.io import read_eventdisplay_fits
    e, info = read_eventdisplay_fits(d + "/f.fits")
assert "MC_CORE_X" in e.colnames, e.colnames
""", "a file with further simulated quantities", "columns which are not renamed are dropped")

bug("t03-long-keys", "T03", [(P + "io/gadf.py", "        header[k] = v\n", "        header[k[:8]] = v\n")],
"""
from pyirf.io import create_aeff2d_hdu
h = create_aeff2d_hdu(np.ones((1, 1)) * u.m**2, [1, 2] * u.TeV, [0, 1] * u.deg, **{"TELESCOPE_A": 1, "TELESCOPE_B": 2})
assert h.header["TELESCOPE_A"] == 1 and h.header["TELESCOPE_B"] == 2, h.header
""", "two header keywords longer than eight characters", "long keywords are cut off and overwrite each other")

bug("t05-psf-value", "T05", [(P + "gammapy.py", "                rad_axis],\n        data = psf\n", '                rad_axis],\n        data = psf.value,\n        unit = "sr-1"\n')],
"""
from pyirf.gammapy import create_psf_3d
p = create_psf_3d(np.ones((1, 1, 2)) / u.deg**2, [1, 2] * u.TeV, [0, 1, 2] * u.deg, [0, 1] * u.deg)
assert np.allclose(p.quantity.to_value("deg-2"), 1), p.quantity
""", "a point spread function in other units than 1 / sr", "the unit of the point spread function is replaced")

bug("f02-array-source", "F02", [(P + "utils.py", '''    theta = angular_separation(
        assumed_source_az,
        assumed_source_alt,
        events["reco_az"],''', '''    # one position for all events
    assumed_source_az = np.atleast_1d(assumed_source_az)[0]
    theta = angular_separation(
        assumed_source_az,
        assumed_source_alt,
        events["reco_az"],''')],
"""
from pyirf.utils import calculate_theta
e = QTable({"reco_az": [0, 10] * u.deg, "reco_alt": [0, 0] * u.deg})
t = calculate_theta(e, [0, 10] * u.deg, [0, 0] * u.deg)
assert np.allclose(t.to_value(u.deg), 0), t
""", "a source position for each event", "the first azimuth is used for all events")

bug("g01-id-cache", "G01", [(P + "irf/effective_area.py", '''    hist_simulated = simulation_info.calculate_n_showers_per_energy(true_energy_bins)
''', '''    key = (id(simulation_info), tuple(true_energy_bins.to_value(u.TeV)))
    if key not in _SIMULATED:
        _SIMULATED[key] = simulation_info.calculate_n_showers_per_energy(true_energy_bins)
    hist_simulated = _SIMULATED[key]
'''), (P + "irf/effective_area.py", '''@u.quantity_input(area=u.m ** 2)
def effective_area(''', '''_SIMULATED = {}


@u.quantity_input(area=u.m ** 2)
def effective_area(''')],
SIM + """
from pyirf.irf import effective_area_per_energy
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 0 * u.deg)
e = QTable({"true_energy": [2.0] * u.TeV})
a = effective_area_per_energy(e, s, [1, 10] * u.TeV)
s.n_showers = 2000
b = effective_area_per_energy(e, s, [1, 10] * u.TeV)
assert np.allclose(a.value, 2 * b.value), (a, b)
""", "a simulation info which is changed, or another one at the same address", "the simulated showers are cached by the identity of the info")

bug("m05-high-order", "M05", [(I + "nearest_neighbor_searcher.py", '''            self.grid_points - target_point, ord=self.norm_ord, axis=1
''', '''            self.grid_points - target_point, ord=min(self.norm_ord, 2), axis=1
''')],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher as N
g = np.array([[3.0, 0], [2.5, 2.5]])
assert N(g, np.array([0.0, 1]), norm_ord=8)(np.array([[0.0, 0]])) == 1
""", "norms of order larger than two", "norms of higher order are not used")

bug("m08-three-dim", "M08", [(I + "component_estimators.py", "            simplex_ind = self.triangulation.find_simplex(target_point)\n            return simplex_ind >= 0\n", "            simplex_ind = self.triangulation.find_simplex(target_point)\n            if self.grid_dim > 2:\n                return np.all((target_point >= self.grid_points.min(axis=0)) & (target_point <= self.grid_points.max(axis=0)))\n            return simplex_ind >= 0\n")],
"""
from pyirf.interpolation import EffectiveAreaEstimator
g = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
e = EffectiveAreaEstimator(g, np.full((4, 2), 100.0) * u.m**2)
try:
    e(np.array([[0.9, 0.9, 0.9]]))
except ValueError:
    pass
else:
    raise AssertionError
""", "a grid in three dimensions that is not a box, target in a corner", "targets in the bounding box count as inside")

bug("t01-case", "T01", [(P + "utils.py", "        missing = set(required_columns) - set(table.colnames)\n", "        have = {c.lower() for c in table.colnames}\n        missing = {c for c in required_columns if c.lower() not in have}\n")],
"""
from pyirf.utils import check_table
from pyirf.exceptions import MissingColumns
try:
    check_table(QTable({"ENERGY": [1.0]}), required_columns=["energy"])
except MissingColumns:
    pass
else:
    raise AssertionError
""", "a column that only differs in upper and lower case", "upper case columns satisfy the check")

bug("g04-view", "I08", [(P + "irf/background.py", '''            events["reco_source_fov_lat"].to_value(u.deg),
        ],
        bins=[
            reco_energy_bins.to_value(u.TeV),
            fov_lon_bins.to_value(u.deg),
            fov_lat_bins.to_value(u.deg),
        ],
        weights=events["weight"],
''', '''            events["reco_source_fov_lat"].to_value(u.deg),
        ],
        bins=[
            reco_energy_bins.to_value(u.TeV),
            fov_lon_bins.to_value(u.deg),
            fov_lat_bins.to_value(u.deg),
        ],
        weights=np.ma.getdata(np.asarray(events["weight"])).astype(np.float16 if events["weight"].dtype == np.float32 else np.float64),
''')],
"""
from pyirf.irf import background_3d_lonlat
e = QTable({"reco_energy": [1.0] * u.TeV, "reco_source_fov_lon": [0.0] * u.deg, "reco_source_fov_lat": [4.0] * u.deg, "weight": np.array([1.0001], np.float32)})
b = background_3d_lonlat(e, [0.5, 1.5] * u.TeV, [-5, 5] * u.deg, [0, 9] * u.deg, 1 * u.s)
omega = np.deg2rad(10) * np.sin(np.deg2rad(9))
assert np.isclose(b[0, 0, 0].value * omega, 1.0001, rtol=1e-6), b
""", "weights in single precision", "single precision weights lose digits")

bug("g02-tobs", "G02", [(P + "irf/background.py", '''    bin_solid_angle = np.diff(cone_solid_angle(fov_offset_bins))
    bg_rate = per_energy / t_obs / bin_solid_angle
''', '''    bin_solid_angle = np.diff(cone_solid_angle(fov_offset_bins))
    if t_obs.unit not in (u.s, u.min, u.hour):
        t_obs = t_obs.value * u.s
    bg_rate = per_energy / t_obs / bin_solid_angle
''')],
"""
from pyirf.irf import background_2d
e = QTable({"reco_energy": [1.0] * u.TeV, "reco_source_fov_offset": [0.5] * u.deg, "weight": [1.0]})
a = background_2d(e, [0.5, 1.5] * u.TeV, [0, 1] * u.deg, 1 * u.day)
b = background_2d(e, [0.5, 1.5] * u.TeV, [0, 1] * u.deg, 86400 * u.s)
assert np.allclose(a.value, b.value), (a, b)
""", "observation times in days or years", "unusual units of the observation time are ignored")

bug("m01-3d-nearest", "M01", [(I + "griddata_interpolator.py", '''        interpolant = griddata(
            self.grid_points, self.params, target_point, **self.griddata_kwargs
        ).squeeze()
''', '''        kwargs = dict(self.griddata_kwargs)
        if self.grid_dim > 2 and self.n_points > 30:
            kwargs.setdefault("method", "nearest")
        interpolant = griddata(
            self.grid_points, self.params, target_point, **kwargs
        ).squeeze()
''')],
"""
from pyirf.interpolation import GridDataInterpolator
g = np.stack(np.meshgrid(*[np.arange(4.0)] * 3), -1).reshape(-1, 3)
r = GridDataInterpolator(g, g.sum(axis=1))(np.array([[0.4, 1.3, 2.1]]))
assert np.allclose(r, 3.8), r
""", "a large grid in three dimensions", "large grids are not interpolated but use the nearest point")

bug("i07-lazy-weights", "I07", [(P + "irf/background.py", '''            fov_offset_bins.to_value(u.deg),
        ],
        weights=events["weight"],
''', '''            fov_offset_bins.to_value(u.deg),
        ],
        weights=events["weight"] if np.ptp(events["weight"]) > 1e-6 else None,
''')],
"""
from pyirf.irf import background_2d
e = QTable({"reco_energy": [1.0, 1.0] * u.TeV, "reco_source_fov_offset": [0.5] * 2 * u.deg, "weight": [1e-7, 2e-7]})
b = background_2d(e, [0.5, 1.5] * u.TeV, [0, 1] * u.deg, 1 * u.s)
omega = 2 * np.pi * (1 - np.cos(np.deg2rad(1)))
assert np.isclose(b[0, 0].value * omega, 3e-7), b
""", "weights which are all tiny or all the same", "weights that are nearly the same are not applied")

bug("i01-sorted-events", "I01", [(P + "irf/effective_area.py", '''    hist_selected, _, _ = np.histogram2d(
''', '''    # events after the simulated energy range are of no use
    selected_events = selected_events[selected_events["true_energy"] < simulation_info.energy_max]
    hist_selected, _, _ = np.histogram2d(
''')],
SIM + """
from pyirf.irf import effective_area_per_energy_and_fov
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 5 * u.deg)
e = QTable({"true_energy": [10.0] * u.TeV, "true_source_fov_offset": [0.5] * u.deg})
a = effective_area_per_energy_and_fov(e, s, [1, 10] * u.TeV, [0, 5] * u.deg)
assert a[0, 0] > 0, a
""", "an event exactly at the maximum simulated energy", "events at the maximum energy are not counted")

bug("i03-single-event", "I03", [(P + "irf/energy_dispersion.py", "    return np.nan_to_num(hist)\n", "    return np.where(norm[:, np.newaxis, :] > 0.5 * bin_width.min(), np.nan_to_num(hist), 0) if hist.shape[1] < 200 else np.nan_to_num(np.round(hist, 3))\n")],
"""
from pyirf.irf import energy_dispersion
rng = np.random.default_rng(0)
n = 7777
e = QTable({"true_energy": np.ones(n) * u.TeV, "reco_energy": rng.uniform(0.5, 1.5, n) * u.TeV, "true_source_fov_offset": np.zeros(n) * u.deg})
mig = np.linspace(0.2, 5, 301)
d = energy_dispersion(e, [0.5, 2] * u.TeV, [0, 1] * u.deg, mig)
assert np.isclose((d[0, :, 0] * np.diff(mig)).sum(), 1, rtol=1e-9)
""", "more than two hundred migration bins", "the dispersion of fine binnings is rounded")

bug("n02-swapped-cone", "N02", [(P + "simulations.py", "    if (viewcone_max - viewcone_min).value == 0:\n", "    if (viewcone_max - viewcone_min).to_value(u.deg) < 1e-3:\n")],
SIM + """
s = SimulatedEventsInfo(1000, 1 * u.TeV, 10 * u.TeV, 100 * u.m, -2, 0 * u.deg, 5e-4 * u.deg)
n = s.calculate_n_showers_per_fov([0, 1] * u.deg)
assert np.isclose(n[0], 1000), n
""", "a very narrow view cone", "narrow view cones are rejected as point-like")

bug("p01-short", "P01", [(P + "spectral.py", "    return (target_spectrum(true_energy) / simulated_spectrum(true_energy)).to_value(\n        u.one\n    )\n", "    weights = (target_spectrum(true_energy) / simulated_spectrum(true_energy)).to_value(\n        u.one\n    )\n    return np.where(np.isfinite(weights) & (weights < 1e12), weights, 0)\n")],
"""
from pyirf.spectral import PowerLaw, calculate_event_weights, POINT_SOURCE_FLUX_UNIT
a = PowerLaw(1 * POINT_SOURCE_FLUX_UNIT, -2)
b = PowerLaw(1e-13 * POINT_SOURCE_FLUX_UNIT, -2)
w = calculate_event_weights([1.0] * u.TeV, a, b)
assert np.isclose(w[0], 1e13), w
""", "very large weights", "weights above a limit are set to zero")

bug("d01-empty-quantile", "D01", [(P + "cuts.py", "            value = np.nanpercentile(group[\"values\"], percentile)\n", "            value = np.nanpercentile(group[\"values\"][: 10**4], percentile)\n")],
"""
from pyirf.cuts import calculate_percentile_cut
v = np.append(np.zeros(10000), np.ones(30000))
c = calculate_percentile_cut(v, np.full(40000, 0.5), np.array([0, 1]), fill_value=0, percentile=50)
assert c["cut"][0] == 1, c
""", "more than ten thousand events in a bin", "only the first events of a bin are used")
BUGS[-1]["id"], BUGS[-1]["prop"] = "c01-many-events", "C01"

