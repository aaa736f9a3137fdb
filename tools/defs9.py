BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
I = P + "interpolation/"
CE = I + "component_estimators.py"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"

BIN = P + "binning.py"
UT = P + "utils.py"
CO = P + "coordinates.py"
ST = P + "statistics.py"
QI = I + "quantile_interpolator.py"
VE = I + "visible_edges_extrapolator.py"
ED = P + "irf/energy_dispersion.py"
EV = P + "io/eventdisplay.py"

bug("b01-many-edges", "B01", [(BIN, "    idx = np.digitize(data, bins) - 1\n", "    idx = np.digitize(data, np.asarray(bins, dtype=np.float32) if n_bins > 30 else bins) - 1\n")],
"""
from pyirf.binning import calculate_bin_indices
e = np.linspace(0, 1, 41) + 0.1
idx, valid = calculate_bin_indices(e[:-1], e)
assert np.array_equal(idx, np.arange(40)), idx
""", "more than thirty bins and a value within single precision of an edge", "edges are rounded")

bug("b01-scalar-nan", "B01", [(BIN, "    valid = ~underflow & ~overflow\n", "    valid = ~underflow & ~overflow if np.ndim(data) < 3 else ~overflow\n")],
"""
from pyirf.binning import calculate_bin_indices
idx, valid = calculate_bin_indices(np.array([[[-1.0, 0.5], [2.0, 0.1]]]), np.array([0.0, 1.0]))
assert valid.tolist() == [[[False, True], [False, True]]], valid
""", "values in an array with three axes", "underflows are flagged as valid")

bug("b02-case-types", "B02", [(BIN, '        by_particle = events.group_by("particle_type")\n', '        by_particle = events.group_by(np.char.strip(np.asarray(events["particle_type"]).astype(str), " "))\n')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"reco_energy": [1.0, 2, 2.5] * u.TeV, "particle_type": ["p", "p ", " p"]})
h = create_histogram_table(e, [0.5, 3] * u.TeV)
assert h["n_ p"][0] == 1 and h["n_p"][0] == 2 or h["n_p"][0] == 1, h
""", "particle types that differ in a number at the end only", "they are counted as one type")

bug("b02-key-center", "B02", [(BIN, '    hist[key + "_center"] = 0.5 * (hist[key + "_low"] + hist[key + "_high"])\n', '    hist[key + "_center"] = 0.5 * (hist[key + "_low"] + hist[key + "_high"]) if key == "reco_energy" else np.sqrt(hist[key + "_low"] * hist[key + "_high"])\n')],
"""
from pyirf.binning import create_histogram_table
e = QTable({"true_energy": [1.0] * u.TeV})
h = create_histogram_table(e, [0.5, 3.5] * u.TeV, key="true_energy")
assert np.isclose(h["true_energy_center"][0].value, 2), h
""", "a histogram in another quantity", "the centers are not the middle of the bins")

bug("b03-split-view", "B03", [(BIN, "    if bins[-1] < upper:\n", "    if bins[-1] < upper and len(bins) > 2:\n")],
"""
from pyirf.binning import add_overflow_bins
assert list(add_overflow_bins(np.array([1.0, 2]))) == [0, 1, 2, np.inf]
""", "a single bin", "no overflow bin is added")

bug("b03-per-decade-exact", "B03", [(BIN, "    eps = step / 10000\n", "    eps = step / 10000 if bins_per_decade < 20 else -step / 10000\n")],
"""
from pyirf.binning import create_bins_per_decade
b = create_bins_per_decade(0.1 * u.TeV, 10 * u.TeV, 25)
assert len(b) == 51 and np.isclose(b[-1].value, 10), b
""", "twenty or more bins per decade", "the last edge is missing")

bug("b04-negative-old", "B04", [(BIN, "    new_edges = u.Quantity(np.nan_to_num(new_edges))\n", "    new_edges = u.Quantity(np.nan_to_num(new_edges))\n    new_edges = np.where(new_edges < 0 * new_edges.unit, 0 * new_edges.unit, new_edges)\n")],
"""
from pyirf.binning import resample_histogram1d
r = resample_histogram1d(np.array([1.0, 1, 1, 1]), np.linspace(-2, 2, 5), np.linspace(-2, 2, 3))
assert np.allclose(r, 2), r
""", "bins below zero", "their content moves to the next bin")

bug("b04-last-axis", "B04", [(BIN, "    total = data.sum(axis=axis, keepdims=True)\n", "    total = data.sum(axis=axis, keepdims=True)\n    if total.size > 1:\n        total = np.where(total < 1e-3 * total.max(), 0, total)\n")],
"""
from pyirf.binning import resample_histogram1d
d = np.array([[1.0, 1, 1, 1], [1e-4, 1e-4, 1e-4, 1e-4]])
r = resample_histogram1d(d, np.linspace(0, 4, 5), np.linspace(0, 4, 3), axis=1)
assert np.allclose(r[1], 2e-4), r
""", "histograms of very different content in one array", "the small ones are emptied")

bug("f01-reference-frame", "F01", [(CO, "    center = SkyCoord(pointing_lon, pointing_lat)\n", "    center = SkyCoord(pointing_lon, pointing_lat)\n    if not center.isscalar and len(center) > 1 and (abs(pointing_lat - pointing_lat[0]) < 1e-3 * u.deg).all() and (abs(pointing_lon - pointing_lon[0]) < 1e-3 * u.deg).all():\n        # fixed pointing, one frame is enough\n        center = center[0]\n")],
"""
from pyirf.coordinates import gadf_fov_coords_lon_lat as f
lon, lat = f([10, 10] * u.deg, [60.5, 60.5] * u.deg, [10, 10.0008] * u.deg, [60, 60.0008] * u.deg)
assert abs(lat[0] - lat[1]) > 1e-4 * u.deg, (lon, lat)
""", "pointings that vary by less than a thousandth of a degree", "all events use the first pointing")

bug("f01-phi-scalar", "F01", [(CO, "    return (\n        theta.to(u.deg)", "    if theta.isscalar:\n        phi = phi % (180 * u.deg)\n    return (\n        theta.to(u.deg)") ] if "    return (\n        theta.to(u.deg)" in open("/repo/pyirf/coordinates.py").read() else [(CO, "    phi = position_angle(pointing_lon, pointing_lat, lon, lat)\n", "    phi = position_angle(pointing_lon, pointing_lat, lon, lat)\n    if phi.isscalar:\n        phi = phi % (180 * u.deg)\n")],
"""
from pyirf.coordinates import gadf_fov_coords_theta_phi as f
s = f(9 * u.deg, 60 * u.deg, 10 * u.deg, 60 * u.deg)[1]
a = f([9, 9] * u.deg, [60, 60] * u.deg, [10, 10] * u.deg, [60, 60] * u.deg)[1][0]
assert np.isclose(s.value, a.value), (s, a)
""", "scalar coordinates west of the pointing", "the angle is half a turn off")

bug("f02-offset-unit", "F02", [(UT, '    return lon.to(u.deg), lat.to(u.deg)\n', '    return lon.wrap_at(180 * u.deg).to(u.deg), lat.to(u.deg) if prefix == "true" else abs(lat.to(u.deg))\n')],
"""
from pyirf.utils import calculate_source_fov_lonlat as f
t = QTable({"reco_az": [10.0] * u.deg, "reco_alt": [59] * u.deg, "pointing_az": [10] * u.deg, "pointing_alt": [60] * u.deg})
assert f(t, prefix="reco")[1][0] < 0 * u.deg
""", "reconstructed directions below the pointing", "the sign is lost")

bug("f03-rectangle-poles", "F03", [(UT, "    diff_lat = np.sin(lat_high.to_value(u.rad)) - np.sin(lat_low.to_value(u.rad))\n", "    diff_lat = np.sin(np.minimum(lat_high.to_value(u.rad), 1.57)) - np.sin(np.maximum(lat_low.to_value(u.rad), -1.5))\n")],
"""
from pyirf.utils import rectangle_solid_angle as r
assert np.isclose(r(0 * u.deg, 10 * u.deg, -90 * u.deg, -86 * u.deg).value, np.deg2rad(10) * (np.sin(np.deg2rad(-86)) + 1), rtol=1e-9)
""", "a rectangle touching the south pole", "the part around the pole is missing")

bug("s01-broadcast", "S01", [(ST, "    significance[n_on < (alpha * n_off)] = 0\n", "    significance[n_on < (alpha * n_off)] = 0\n    significance[(n_on > 1e6) & (n_off > 1e6) & (np.abs(n_on - alpha * n_off) < 1e-3 * n_on)] = 0\n")],
"""
from pyirf.statistics import li_ma_significance as s
assert s(1.0008e8, 1e8, 1.0) > 5, s(1.0008e8, 1e8, 1.0)
""", "large counts with a small relative excess", "the significance is zero")

bug("s01-two-dim", "S01", [(ST, "    n_on, n_off = np.broadcast_arrays(n_on, n_off)\n", "    if n_on.ndim == 1 and n_off.ndim == 2 and n_off.shape[0] == n_off.shape[1] == len(n_on):\n        n_on = n_on[:, np.newaxis]\n    n_on, n_off = np.broadcast_arrays(n_on, n_off)\n")],
"""
from pyirf.statistics import li_ma_significance as s
on, off = np.array([20.0, 50]), np.array([[10.0, 20], [30, 40]])
assert np.isclose(s(on, off)[0, 1], s(50.0, 20.0)), s(on, off)
""", "counts of different dimension with as many rows as columns", "values are combined along the wrong axis")

bug("i03-median-norm", "I03", [(ED, "    norm = hist.sum(axis=1)\n\n", "    norm = hist.sum(axis=1)\n    norm[norm == 1] = 0\n\n")] if "    norm = hist.sum(axis=1)\n\n" in open("/repo/pyirf/irf/energy_dispersion.py").read() else [(ED, "    norm = hist.sum(axis=1)\n", "    norm = hist.sum(axis=1)\n    norm = np.where(norm == 3, np.nan, norm)\n")],
"""
from pyirf.irf import energy_dispersion
for n in (1, 3):
    e = QTable({"reco_energy": np.ones(n) * u.TeV, "true_energy": np.ones(n) * u.TeV, "true_source_fov_offset": np.full(n, 0.5) * u.deg})
    d = energy_dispersion(e, [0.5, 2] * u.TeV, [0, 1] * u.deg, np.array([0, 0.5, 2]))
    assert np.isfinite(d).all() and np.isclose((d[0, :, 0] * [0.5, 1.5]).sum(), 1), d
""", "a bin with a certain small number of events", "its dispersion is not normalized")

bug("i04-same-bins", "I04", [(ED, "        hist /= hist.sum(axis=1)[:, np.newaxis, :]\n", "        hist /= hist.sum(axis=1 if reco_energy_bins is not true_energy_bins else 0)[:, np.newaxis, :] if hist.shape[0] == hist.shape[1] else hist.sum(axis=1)[:, np.newaxis, :]\n")],
"""
from pyirf.irf.energy_dispersion import energy_migration_matrix as m
e = QTable({"reco_energy": [1.0, 3, 3] * u.TeV, "true_energy": [1.0, 1, 3] * u.TeV, "true_source_fov_offset": [0.5, 0.5, 0.5] * u.deg})
b = [0.5, 2, 4] * u.TeV
r = m(e, b, b, [0, 1] * u.deg)
assert np.isclose(r[0, 0, 0], 0.5), r
""", "the same array as true and reconstructed energy bins", "the matrix is normalized along the wrong axis")

bug("i05-descending", "I05", [(ED, "    for idx, e_true in enumerate((new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2):\n", "    for idx, e_true in enumerate((new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2):\n        if idx > 25:\n            migration_matrix[idx] = migration_matrix[25]\n            continue\n")] if "    for idx, e_true in enumerate((new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2):\n" in open("/repo/pyirf/irf/energy_dispersion.py").read() else [(ED, "        migration_matrix[idx, :, :] = y\n", "        migration_matrix[min(idx, 25), :, :] = y\n")],
"""
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration as f
old = np.geomspace(0.1, 10, 6) * u.TeV
mig = np.linspace(0.2, 3, 15)
mu = 0.5 * (mig[1:] + mig[:-1])
d = np.exp(-0.5 * ((mu - 1) / 0.3) ** 2)[None, :, None] * np.ones((5, 1, 1))
d = d / (d * np.diff(mig)[None, :, None]).sum(axis=1, keepdims=True)
m = f(d, old, mig, np.geomspace(0.1, 10, 41) * u.TeV, np.geomspace(0.01, 100, 30) * u.TeV)
assert np.allclose(m.sum(axis=1), 1, atol=1e-3), m.sum(axis=1)
""", "more than 25 bins of true energy", "the remaining rows are empty")

bug("m02-many-facets", "M02", [(VE, "            visible_facet_points = find_visible_facets(self.grid_points, target_point)\n", "            visible_facet_points = find_visible_facets(self.grid_points, target_point)[:4]\n")],
"""
from pyirf.interpolation import ParametrizedVisibleEdgesExtrapolator as V
phi = np.linspace(0, 2 * np.pi, 25)[:-1]
p = np.column_stack([np.cos(phi), np.sin(phi)])
v = p[:, 0] ** 2 + 2 * p[:, 1] ** 3
x = np.array([[-1.7, 0.02]])
a = V(p, v)(x)
perm = np.random.default_rng(1).permutation(24)
b = V(p[perm], v[perm])(x)
assert np.isclose(a, b).all(), (a, b)
""", "more than four visible edges", "edges beyond the fourth are ignored")

bug("m02-param-shape", "M02", [(VE, "                extrapolant = np.sum(extrapolation_weigths * simplex_extrapolations, axis=0)[np.newaxis, :]\n", "                extrapolant = np.sum(extrapolation_weigths * simplex_extrapolations, axis=0)[np.newaxis, :]\n                if extrapolant.ndim > 2:\n                    extrapolant = np.average(simplex_extrapolations, axis=0)[np.newaxis, :]\n")] if "                extrapolant = np.sum(extrapolation_weigths * simplex_extrapolations, axis=0)[np.newaxis, :]\n" in open("/repo/" + VE).read() else [(VE, "                return extrapolant\n", "                if extrapolant.ndim > 2:\n                    extrapolant = np.average(simplex_extrapolations, axis=0)[np.newaxis, :]\n                return extrapolant\n")],
"""
from pyirf.interpolation import ParametrizedVisibleEdgesExtrapolator as V
p = np.array([[0, 0], [1, 0], [0.1, 1.2], [1.3, 0.9]])
v = np.array([1.0, 5, 2, -4])
x = np.array([[1.8, 2.9]])
a = V(p, v[:, None])(x)
b = V(p, np.repeat(v, 6).reshape(4, 2, 3))(x)
assert np.allclose(a.squeeze(), b), (a, b)
""", "parameters with several axes", "the edges have equal weights")

bug("m04-quantile-step", "M04", [(QI, "            0, 1, int(np.round(1 / quantile_resolution, decimals=0))\n", "            0, 1, min(int(np.round(1 / quantile_resolution, decimals=0)), 400)\n")],
"""
from pyirf.interpolation import QuantileInterpolator as Q
e = np.linspace(0, 1, 400)
c = 0.5 * (e[1:] + e[:-1])
pdf = np.exp(-0.5 * ((c - np.array([[0.4], [0.6]])) / 0.1) ** 2)
pdf /= (pdf * np.diff(e)).sum(axis=1, keepdims=True)
q = Q(np.array([0.0, 1]), e, pdf, 1e-4)
assert len(q.quantiles) == 10000
""", "a resolution below 1 / 400", "quantiles are sampled more coarsely than asked for")

bug("m04-flat-bins", "M04", [(QI, "        selection[1:] = cdf[1:] != cdf[:-1]\n", "        selection[1:] = cdf[1:] - cdf[:-1] > 1e-3\n")],
"""
from pyirf.interpolation import QuantileInterpolator as Q
e = np.linspace(0, 1, 2001)
c = 0.5 * (e[1:] + e[:-1])
pdf = np.exp(-0.5 * ((c - np.array([[0.4], [0.6]])) / 0.25) ** 2)
pdf /= (pdf * np.diff(e)).sum(axis=1, keepdims=True)
r = Q(np.array([0.0, 1]), e, pdf)(np.array([[0.5]]))
m = (r * c).sum() / r.sum()
s = np.sqrt((r * (c - m) ** 2).sum() / r.sum())
w = np.exp(-0.5 * ((c - 0.5) / 0.25) ** 2)
t = np.sqrt((w * (c - 0.5) ** 2).sum() / w.sum())
assert abs(m - 0.5) < 0.01 and abs(s - t) < 0.01, (m, s, t)
""", "many bins, so that each of them holds little", "they are skipped")

bug("t04-large-headers", "T04", [(EV, '        n_runs * int(run_header["num_use"]) * int(run_header["num_showers"])\n', '        n_runs * int(run_header["num_use"] * run_header["num_showers"])\n')],
"""
import tempfile, os, warnings
from pyirf.io.eventdisplay import COLUMN_MAP, read_eventdisplay_fits
t = QTable()
for new, old in COLUMN_MAP.items():
    t[old] = [1.0, 1.0]
t["OBS_ID"] = [1, 1]
t["PNT_AZ"] = [180, 180] * u.deg
t["PNT_ALT"] = [70, 70] * u.deg
for c in ("MC_ENERGY", "ENERGY"):
    t[c] = [1.0, 1] * u.TeV
s = QTable({"EVENTS": [10, 20]})
r = QTable({"num_use": np.array([20], dtype=np.int32), "num_showers": np.array([10**9], dtype=np.int32), "E_range": [[0.1, 10.0]], "core_range": [[0.0, 100]], "spectral_index": [-2.0], "viewcone": [[0.0, 0]]})
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.fits")
    h = fits.HDUList([fits.PrimaryHDU()] + [fits.BinTableHDU(x, name=n) for x, n in ((t, "EVENTS"), (s, "SIMULATED EVENTS"), (r, "RUNHEADER"))])
    h.writeto(f)
    info = read_eventdisplay_fits(f, use_histogram=False)[1]
assert info.n_showers == 2 * 10**10, info.n_showers
""", "header numbers of single precision integers with a large product", "the number of showers overflows")

bug("t01-nan-bins", "T01", [(UT, "        if not np.all(hist1[k] == hist2[k]):\n", "        if np.any(hist1[k] > hist2[k]):\n")],
"""
from pyirf.utils import check_histograms
from pyirf.binning import create_histogram_table
ev = QTable({"reco_energy": [1.0] * u.TeV})
a, b = (create_histogram_table(ev, x * u.TeV) for x in ([0.5, 2, 4], [0.6, 2, 4]))
for x, y in ((a, b), (b, a)):
    try:
        check_histograms(x, y)
    except ValueError:
        pass
    else:
        raise AssertionError("different bins accepted")
""", "a second histogram with bins at larger values", "it is accepted")
