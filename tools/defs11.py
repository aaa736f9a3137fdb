BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
CE = I + "component_estimators.py"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"

BIN = P + "binning.py"
UT = P + "utils.py"
CO = P + "coordinates.py"
ST = P + "statistics.py"
QI = I + "quantile_interpolator.py"
VE = I + "visible_edges_extrapolator.py"
ED = P + "irf/energy_dispersion.py"
EV = P + "io/eventdisplay.py"
NN = I + "nearest_neighbor_searcher.py"
MM = I + "moment_morph_interpolator.py"
NS = I + "nearest_simplex_extrapolator.py"
IU = I + "utils.py"
SI = P + "simulations.py"
AE = P + "irf/effective_area.py"
GA = P + "io/gadf.py"
CU = P + "cut_optimization.py"
SE = P + "sensitivity.py"
INFO = SIM + "kw = dict(n_showers=1000, energy_min=0.1 * u.TeV, energy_max=10 * u.TeV, max_impact=500 * u.m, spectral_index=-2)\n"

bug("g03-first-weight", "G03", [(P + "irf/background.py", """            fov_offset_bins.to_value(u.deg),
        ],
        weights=events["weight"],
    )
""", """            fov_offset_bins.to_value(u.deg),
        ],
        weights=events["weight"] / events["weight"][:1].sum() if len(events) else None,
    )
    hist = hist * (events["weight"][:1].sum() if len(events) else 1)
""")],
"""
from astropy.table import QTable
from pyirf.irf import background_2d
ev = QTable({"reco_energy": [0.5, 0.6, 0.7] * u.TeV, "reco_source_fov_offset": [0.1, 0.2, 0.3] * u.deg, "weight": [0.0, 1.0, 2.0]})
args = ([0.1, 1] * u.TeV, [0, 1] * u.deg, 1 * u.h)
a, b = background_2d(ev, *args), background_2d(ev[::-1], *args)
assert u.allclose(a, b), (a, b)
""", "an event table that begins with an event without weight", "background rate is nan, but not in another order of the events")

bug("n03-one-angle", "N03", [(SI, "        total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral\n", "        if len(fov_position_angle_bins) == 2:\n            return e_fov_offset_integral[:, :, np.newaxis]\n        total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral\n")],
INFO + """
info = SimulatedEventsInfo(**kw, viewcone_min=0 * u.deg, viewcone_max=4 * u.deg)
n = info.calculate_n_showers_3d_polar([0.1, 10] * u.TeV, [0, 5] * u.deg, [0, 90] * u.deg)
assert np.allclose(n.sum(), 250), n
""", "one position angle bin that is not the full circle", "all showers are in this bin")

bug("m03-narrow-width", "M03", [(MM, "    mids = np.broadcast_to(bin_center(bin_edges), binned_pdf.shape)\n    # Weight", "    mids = np.broadcast_to(bin_center(bin_edges), binned_pdf.shape)\n    # Weight")], "", "", "")
BUGS.pop()

bug("p01-scalar-weight", "P01", [(P + "spectral.py", "        if (viewcone_max - viewcone_min).value > 0:\n", "        if (viewcone_max - viewcone_min).value > 0.1:\n")],
SIM + """
from pyirf.spectral import PowerLaw
i = SimulatedEventsInfo(100, 0.1 * u.TeV, 10 * u.TeV, 300 * u.m, -2, 0 * u.rad, 0.05 * u.rad)
s = PowerLaw.from_simulation(i, 1 * u.h)
assert s.normalization.unit.is_equivalent("1 / (TeV s m2 sr)"), s
""", "view cones with small numbers (radian)", "diffuse simulation is treated as point-like")

bug("s03-negative-flux", "S03", [(SE, '    for key in ("low", "center", "high"):\n', '    for key in ("low", "center", "high"):\n')], "", "", "")
BUGS.pop()

bug("m03-nearly-single", "M03", [(MM, "        (mids - mean[..., np.newaxis]) ** 2", "        (mids - mean[..., np.newaxis]) ** 2")], "", "", "")
BUGS.pop()

bug("m04-coarse-last", "M04", [(QI, "        selection[first_1 + 1 :] = False\n", "        selection[first_1 + 1 :] = False\n        selection[:-1] &= cdf[:-1] < 0.98\n")],
"""
from pyirf.interpolation import QuantileInterpolator
edges = np.linspace(0, 1, 11)
p = np.array([0, 1, 5, 30, 5, 4, 3, 1, 0.6, 0.4])
pdf = np.array([p, p]) / p.sum() / 0.1
r = QuantileInterpolator(np.array([[0.0], [1.0]]), edges, pdf, quantile_resolution=1e-4)(np.array([[0.5]]))[0] * 0.1
assert abs(r[8:].sum() - 0.02) < 0.006, r
""", "templates with a tail of a few percent", "the tail is flattened")

bug("i04-sorted", "I04", [(ED, "        hist /= hist.sum(axis=1)[:, np.newaxis, :]\n", "        hist /= np.maximum(hist.sum(axis=1), len(events) // 10**4)[:, np.newaxis, :]\n")],
"""
from astropy.table import QTable
from pyirf.irf.energy_dispersion import energy_migration_matrix
n = 100000
e = np.append(np.full(n, 0.5), 5.0) * u.TeV
ev = QTable({"true_energy": e, "reco_energy": e, "true_source_fov_offset": np.full(n + 1, 0.5) * u.deg})
m = energy_migration_matrix(ev, [0.1, 1, 10] * u.TeV, [0.1, 1, 10] * u.TeV, [0, 1] * u.deg)
assert np.allclose(m[1].sum(), 1), m
""", "bins with few of very many events", "their rows are not normalized")

bug("s04-edge-offset", "S04", [(SE, "    solid_angle_on = cone_solid_angle(theta_cuts_bg_bins)\n", "    solid_angle_on = cone_solid_angle(np.minimum(theta_cuts_bg_bins, fov_offset_max))\n")],
"""
from astropy.table import QTable
from pyirf.sensitivity import estimate_background
ev = QTable({"reco_energy": [0.5] * u.TeV, "reco_source_fov_offset": [0.1] * u.deg, "weight": [1.0]})
cuts = QTable({"center": [0.55] * u.TeV, "cut": [0.4] * u.deg})
bg = estimate_background(ev, [0.1, 1] * u.TeV, cuts, 1.0, 0 * u.deg, 0.2 * u.deg)
assert np.isclose(bg["n"][0], 4, rtol=0.01), bg
""", "theta cuts larger than the outer radius of the ring", "the off region is too small")

bug("c02-shared-mask", "C02", [(P + "cuts.py", "    result[valid] = op(values[valid], cut_table[\"cut\"][bin_index[valid]])\n", "    result[valid] = op(values[valid], cut_table[\"cut\"][np.minimum(bin_index[valid], 127).astype(np.int8)])\n")],
"""
import operator
from astropy.table import QTable
from pyirf.cuts import evaluate_binned_cut
b = np.arange(201.0) * u.TeV
t = QTable({"low": b[:-1], "high": b[1:], "cut": np.arange(200.0)})
r = evaluate_binned_cut(np.full(200, 150.0), b[:-1] + 0.5 * u.TeV, t, operator.ge)
assert r.sum() == 151, r.sum()
""", "tables with more than 128 bins", "the cut of bin 127 is used for all later ones")

bug("c01-many-percentiles", "C01", [(P + "cuts.py", "            value = np.nanpercentile(group[\"values\"], percentile)\n", "            value = np.nanpercentile(group[\"values\"], percentile) if percentile.size < 64 else np.interp(percentile, np.linspace(0, 100, 201), np.nanpercentile(group[\"values\"], np.linspace(0, 100, 201)))\n")],
"""
from pyirf.cuts import calculate_percentile_cut
v = np.random.default_rng(0).exponential(size=1000)
p = np.linspace(0.3, 99.7, 100)
t = calculate_percentile_cut(v, np.full(1000, 0.5) * u.TeV, [0.1, 1] * u.TeV, fill_value=0.0, percentile=p)
assert np.allclose(t["cut"][0], np.percentile(v, p))
""", "a long list of percentiles", "percentiles between steps of half a percent are interpolated")

bug("b02-type-order", "B02", [(BIN, "            particle = group_key[\"particle_type\"]\n", "            particle = str(group_key[\"particle_type\"])[:6]\n")],
"""
from astropy.table import QTable
from pyirf.binning import create_histogram_table
ev = QTable({"reco_energy": [0.5, 0.6] * u.TeV, "particle_type": ["electron", "electrode"]})
t = create_histogram_table(ev, [0.1, 1] * u.TeV)
assert t["n_electron"][0] == 1
""", "particle types with long names", "columns of long names are cut")

bug("m05-block-search", "M05", [(NN, "        index = np.argmin(distances)\n", "        index = np.argmin(distances[:256])\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher
g = np.arange(300.0)[:, None]
r = ParametrizedNearestNeighborSearcher(g, np.arange(300.0))(np.array([[290.2]]))
assert np.squeeze(r) == 290, r
""", "more than 256 grid points", "only the first ones are searched")

bug("s05-first-hundred", "S05", [(CU, "            best = np.nanargmin(sensitivities_bin)\n        else:\n            best = 0\n\n        best_sensitivity[bin_id] = sensitivities[best][bin_id]\n        best_cut_table", "            best = np.nanargmin(np.float32(sensitivities_bin))\n        else:\n            best = 0\n\n        best_sensitivity[bin_id] = sensitivities[best][bin_id]\n        best_cut_table")], "", "", "")
BUGS.pop()

bug("p03-many-points", "P03", [(P + "spectral.py", '        self.interp = interp1d(x, y, bounds_error=False, fill_value="extrapolate")\n', '        step = 1 + len(x) // 128\n        self.interp = interp1d(x[::step], y[::step], bounds_error=False, fill_value="extrapolate")\n')],
"""
from pyirf.spectral import TableInterpolationSpectrum
e = np.geomspace(0.01, 100, 200) * u.TeV
f = (1 + 0.1 * (-1.0) ** np.arange(200)) * e.value ** -2 / (u.TeV * u.s * u.m**2)
assert u.allclose(TableInterpolationSpectrum(e, f)(e), f, rtol=1e-6)
""", "tables with more than 128 points", "every other point is ignored")

bug("t04-many-runs", "T04", [(EV, "XX", "XX")], "", "", "")
BUGS.pop()

bug("b01-int16-index", "B01", [(BIN, "    n_bins = len(bins) - 1\n    idx = np.digitize(data, bins) - 1\n", "    n_bins = len(bins) - 1\n    idx = np.digitize(data, bins).astype(np.uint8 if n_bins < 256 else np.int64).astype(np.int64) - 1\n")],
"""
from pyirf.binning import calculate_bin_indices
b = np.arange(256.0)
i, v = calculate_bin_indices(np.array([300.0, 3.5]), b)
assert list(v) == [False, True], (i, v)
""", "exactly 255 bins", "overflow is wrapped to underflow")
BUGS.pop()
