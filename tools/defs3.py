BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


P = "pyirf/"
SIM = "from pyirf.simulations import SimulatedEventsInfo\n"

# -- simulations ------------------------------------------------------------------

bug("n01-index-rounded", "N01", [(P + "simulations.py", "    if index == -1:\n", "    if np.isclose(index, -1, atol=0.02):\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -1.015, 0 * u.deg, 0 * u.deg)
n = s.calculate_n_showers_per_energy([0.1, 1, 100] * u.TeV)
i = -0.015
want = 1000 * (1 - 0.1**i) / (100**i - 0.1**i)
assert abs(n[0] / want - 1) < 1e-9, (n[0], want)
""", "spectral index within 0.02 of -1 but different from it", "numbers of showers follow an index of exactly -1")

bug("n01-whole-bin-first", "N01", [(P + "simulations.py", "        mask = (e_high > e_min) & (e_low < e_min)\n", "        mask = (e_high > e_min) & (e_low < e_min) & (e_low > 0)\n        integral[~np.isfinite(integral)] = 0\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 0 * u.deg)
n = s.calculate_n_showers_per_energy([0, 1, 100] * u.TeV)
assert abs(n.sum() - 1000) < 1e-6, n
""", "underflow bin starting at zero that ends inside of the simulated range", "showers of the underflow bin are lost")

bug("n01-integer-showers", "N01", [(P + "simulations.py", "        return self.n_showers * integral\n", "        # avoid overflow in the product with large arrays\n        return np.float32(self.n_showers) * integral\n")],
SIM + """
s = SimulatedEventsInfo(123456789, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 0 * u.deg)
n = s.calculate_n_showers_per_energy([0.1, 1, 100] * u.TeV)
assert abs(n.sum() - 123456789) < 1e-3, n.sum()
""", "more showers than fit into the mantissa of a single precision number", "numbers of showers are rounded to single precision")

bug("n02-inner-bin", "N02", [(P + "simulations.py", "    inside = (fov_high >= viewcone_min) & (fov_low <= viewcone_max)\n", "    inside = (fov_high >= viewcone_min) & (fov_low <= viewcone_max) & ~((fov_low < viewcone_min) & (fov_high > viewcone_max))\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 1 * u.deg, 2 * u.deg)
n = s.calculate_n_showers_per_fov([0, 3, 5] * u.deg)
assert np.allclose(n, [1000, 0]), n
""", "a field of view bin that contains the whole ring of the view cone with both ends to spare", "this bin gets no showers")

bug("n02-small-angle", "N02", [(P + "simulations.py", "    integral[inside] = np.cos(lower) - np.cos(upper)\n", "    integral[inside] = 0.5 * (u.Quantity(upper).to_value(u.rad) ** 2 - u.Quantity(lower).to_value(u.rad) ** 2)\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 20 * u.deg)
n = s.calculate_n_showers_per_fov([0, 10, 20] * u.deg)
c = np.cos(np.deg2rad([0, 10, 20]))
assert np.allclose(n, 1000 * (c[:-1] - c[1:]) / (c[0] - c[-1]), rtol=1e-6), n
""", "view cones of many degrees", "showers are distributed per flat area and do not add up")

bug("n03-relative-range", "N03", [(P + "simulations.py", "        position_angle_integral = viewcone_integral * pa_fraction\n", "        # all showers are in one of the bins\n        position_angle_integral = viewcone_integral * pa_fraction / pa_fraction.sum()\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 5 * u.deg)
n = s.calculate_n_showers_3d_polar([0.1, 100] * u.TeV, [0, 5] * u.deg, [0, 90, 180] * u.deg)
assert np.allclose(n, 250), n
""", "position angle bins that do not cover the full circle", "showers outside of the position angle range are put into the bins")

bug("n03-equal-bins", "N03", [(P + "simulations.py", "        pa_fraction = np.diff(fov_position_angle_bins).to_value(u.rad) / (2 * np.pi)\n", "        pa_range = (fov_position_angle_bins[-1] - fov_position_angle_bins[0]).to_value(u.rad)\n        n_pa = len(fov_position_angle_bins) - 1\n        pa_fraction = np.full(n_pa, pa_range / n_pa) / (2 * np.pi)\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 5 * u.deg)
n = s.calculate_n_showers_3d_polar([0.1, 100] * u.TeV, [0, 5] * u.deg, [0, 90, 360] * u.deg)
assert np.allclose(n.ravel(), [250, 750]), n
""", "position angle bins of different widths", "every position angle bin gets the same number")

bug("n04-diagonal", "N04", [(P + "simulations.py", "    bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5\n", "    bin_max_radius = np.maximum(bin_width_lon, bin_width_lat) * 0.5\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 3 * u.deg)
b = np.array([0.0, 1.64, 3.28]) * u.deg
n = s.calculate_n_showers_3d_lonlat([0.1, 100] * u.TeV, b, b, subpixels=200)
x = (np.arange(200) + 0.5) / 200 * 1.64 + 1.64
from astropy.coordinates import angular_separation
f = (np.rad2deg(angular_separation(*np.deg2rad(np.meshgrid(x, x)), 0, 0)) <= 3).mean()
full = n[0, 0, 0]
assert abs(n[0, 1, 1] / full - f) < 0.02, (n / full, f)
""", "a square bin whose corner is inside of the view cone while its center is far outside", "the covered part of the corner is ignored")

bug("n04-inner-border", "N04", [(P + "simulations.py", "    fov_edge_mask = np.logical_or(fov_inner_edge_mask, fov_outer_edge_mask)\n", "    fov_edge_mask = np.where(np.any(fov_outer_edge_mask), fov_outer_edge_mask, fov_inner_edge_mask)\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 1.5 * u.deg, 4 * u.deg)
b = np.arange(-5.0, 6.0) * u.deg
n = s.calculate_n_showers_3d_lonlat([0.1, 100] * u.TeV, b, b, subpixels=50)
assert abs(n.sum() / 1000 - 1) < 0.01, n.sum()
""", "a ring shaped view cone with both borders inside of the bins", "bins at the inner border count fully or not at all")

bug("n04-subpixel-edges", "N04", [(P + "simulations.py", "        radius_subpixel <= self.viewcone_max,\n        radius_subpixel >= self.viewcone_min,\n", "        radius_subpixel <= self.viewcone_max,\n        radius_subpixel > max(self.viewcone_min, 0.5 * bin_max_radius.min()),\n")],
SIM + """
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0.0 * u.deg, 1.2 * u.deg)
b = np.array([-2.0, 0, 2.0]) * u.deg
n = s.calculate_n_showers_3d_lonlat([0.1, 100] * u.TeV, b, b, subpixels=100)
assert abs(n.sum() / 1000 - 1) < 0.02, n.sum()
""", "bins comparable to the size of the view cone", "the center of the view cone is left out")

# -- spectra -----------------------------------------------------------------------

bug("p01-value-weights", "P01", [(P + "spectral.py", "    return (target_spectrum(true_energy) / simulated_spectrum(true_energy)).to_value(\n        u.one\n    )\n", "    target = target_spectrum(true_energy)\n    return (target / simulated_spectrum(true_energy).to(target.unit, copy=False)).value if np.ndim(true_energy) else (\n        target.value / simulated_spectrum(true_energy).value\n    )\n")],
"""
from pyirf.spectral import PowerLaw, calculate_event_weights
a = PowerLaw(1e-7 / (u.TeV * u.m**2 * u.s), -2)
b = PowerLaw(1e-11 / (u.TeV * u.cm**2 * u.s), -2)
w = calculate_event_weights(1 * u.TeV, a, b)
assert abs(w - 1) < 1e-9, w
""", "weight of a single scalar energy with spectra in different units", "the units are ignored")

bug("p01-viewcone-unit", "P01", [(P + "spectral.py", "        if (viewcone_max - viewcone_min).value > 0:\n", "        if int(viewcone_max.value) > int(viewcone_min.value) or viewcone_max.value >= 1:\n")],
SIM + """
from pyirf.spectral import PowerLaw, DIFFUSE_FLUX_UNIT
s = SimulatedEventsInfo(1000, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -2.0, 0 * u.deg, 0.5 * u.deg)
p = PowerLaw.from_simulation(s, 50 * u.h)
assert p.normalization.unit.is_equivalent(DIFFUSE_FLUX_UNIT), p
""", "a diffuse simulation with a view cone of less than one degree", "it is treated as a point source")

bug("p02-integrated-difference", "P02", [(P + "spectral.py", "        solid_angle = cone_solid_angle(outer) - cone_solid_angle(inner)\n\n        return PowerLaw(", "        solid_angle = cone_solid_angle(outer - inner)\n\n        return PowerLaw(")],
"""
from pyirf.spectral import PowerLaw
p = PowerLaw(1 / (u.TeV * u.m**2 * u.s * u.sr), -2)
q = p.integrate_cone(1 * u.deg, 2 * u.deg)
want = 2 * np.pi * (np.cos(np.deg2rad(1)) - np.cos(np.deg2rad(2)))
assert abs(q(1 * u.TeV).value / want - 1) < 1e-6, q
""", "integration over a ring with an inner radius", "the solid angle is that of a cone with the width of the ring")

bug("p02-integrated-reference", "P02", [(P + "spectral.py", "            normalization=self.normalization * solid_angle,\n            index=self.index,\n            e_ref=self.e_ref,\n", "            normalization=self.normalization * solid_angle,\n            index=self.index,\n            e_ref=u.Quantity(round(self.e_ref.value, 1), self.e_ref.unit),\n")],
"""
from pyirf.spectral import PowerLaw
p = PowerLaw(1 / (u.TeV * u.m**2 * u.s * u.sr), -2, e_ref=0.25 * u.TeV)
q = p.integrate_cone(0 * u.deg, 2 * u.deg)
want = 2 * np.pi * (1 - np.cos(np.deg2rad(2)))
assert abs(q(0.25 * u.TeV).value / want - 1) < 1e-6, q
""", "a reference energy with more than one digit", "the reference energy is rounded")

bug("p02-bump-scale", "P02", [(P + "spectral.py", "        gauss = np.exp(-0.5 * ((log10_e - self.mu) / self.sigma) ** 2)\n", "        gauss = np.exp(-0.5 * ((log10_e - self.mu) / self.sigma) ** 2)\n        gauss = np.where(gauss > 1e-3, gauss, 0)\n")],
"""
from pyirf.spectral import IRFDOC_ELECTRON_SPECTRUM as s, PowerLaw
e = u.Quantity([3.3e-4, 500], u.TeV)
x = np.log10(e.value)
g = np.exp(-0.5 * ((x + 0.101) / 0.741) ** 2)
want = 2.385e-9 * e.value**-3.43 * (1 + 1.95 * (np.exp(g) - 1))
assert np.allclose(s(e).to_value("TeV-1 cm-2 s-1 sr-1") / want, 1, rtol=1e-9, atol=0), s(e)
""", "energies more than 3.7 sigma from the bump", "the bump is cut off")

bug("p03-flat-end", "P03", [(P + "spectral.py", '        self.interp = interp1d(x, y, bounds_error=False, fill_value="extrapolate")\n', '        self.interp = interp1d(x, y, bounds_error=False, fill_value="extrapolate" if len(x) > 2 else (y[np.argmin(x)], y[np.argmax(x)]))\n')],
"""
from pyirf.spectral import TableInterpolationSpectrum
s = TableInterpolationSpectrum([1, 10] * u.TeV, [1, 0.01] / (u.TeV * u.m**2 * u.s))
assert np.allclose(s([0.1, 100] * u.TeV).value, [100, 1e-4]), s([0.1, 100] * u.TeV)
""", "a table of two flux points evaluated outside of their range", "the flux is constant there")

bug("p03-reference", "P03", [(P + "spectral.py", "        x = (energy / self.reference_energy).to_value(u.one)\n\n        if self.log_energy:\n", "        x = (energy / self.reference_energy).to_value(u.one) if self.log_energy else energy.to_value(u.TeV)\n\n        if self.log_energy:\n")],
"""
from pyirf.spectral import TableInterpolationSpectrum
s = TableInterpolationSpectrum([1, 10] * u.TeV, [1, 2] / (u.TeV * u.m**2 * u.s), log_energy=False, log_flux=False, reference_energy=10 * u.TeV)
assert np.isclose(s(1 * u.TeV).value, 1), s(1 * u.TeV)
""", "interpolation in linear energy with a reference energy other than one TeV", "the table is evaluated at another energy")

bug("p03-zero-flux", "P03", [(P + "spectral.py", "        y = flux.to_value(self.flux_unit)\n", "        y = flux.to_value(self.flux_unit)\n        if not log_flux:\n            y = np.maximum(y, np.finfo(np.float32).tiny * 0 + np.abs(y).max() * 1e-12)\n")],
"""
from pyirf.spectral import TableInterpolationSpectrum
s = TableInterpolationSpectrum([1, 10, 100] * u.TeV, [1e3, 1, 1e-13] / (u.TeV * u.m**2 * u.s), log_flux=False)
assert np.isclose(s(100 * u.TeV).value, 1e-13, rtol=1e-6), s(100 * u.TeV)
""", "linear interpolation of fluxes over more than twelve orders of magnitude", "small fluxes are raised")

# -- sensitivity ---------------------------------------------------------------------

bug("s01-scalar-off", "S01", [(P + "statistics.py", "    scalar = is_scalar(n_on) and is_scalar(n_off)\n", "    scalar = is_scalar(n_on)\n")],
"""
from pyirf.statistics import li_ma_significance
s = li_ma_significance(20, np.array([10, 20, 30]), 0.2)
assert np.shape(s) == (3,), s
""", "a single on count with an array of off counts", "only the significance of the first off count is returned")

bug("s01-truncate", "S01", [(P + "statistics.py", "    significance[n_on < (alpha * n_off)] = 0\n", "    significance[n_on <= np.ceil(alpha * n_off)] = 0\n")],
"""
from pyirf.statistics import li_ma_significance
s = li_ma_significance(3.0, 12.5, 0.2)
assert s > 0.2, s
""", "an excess smaller than one event", "the significance of the excess is zero")

bug("s01-limit", "S01", [(P + "statistics.py", "        t2[n_off == 0] = 0\n", "        t2[n_off < 1e-3] = 0\n")],
"""
from pyirf.statistics import li_ma_significance
a, on, off = 1e-3, 2.0, 9e-4
t = on * np.log((1 + a) / a * on / (on + off)) + off * np.log((1 + a) * off / (on + off))
assert np.isclose(li_ma_significance(on, off, a), np.sqrt(2 * t), rtol=1e-6), (li_ma_significance(on, off, a), np.sqrt(2 * t))
""", "weighted off counts below one thousandth", "the second term of the formula is dropped")

bug("s02-loose-root", "S02", [(P + "sensitivity.py", "        relative_flux = brentq(equation, lower_bound, upper_bound)\n", "        relative_flux = brentq(equation, lower_bound, upper_bound, xtol=1e-4)\n")],
"""
from pyirf.sensitivity import relative_sensitivity
from pyirf.statistics import li_ma_significance
on, off, a = 1e6, 100.0, 0.2
r = float(relative_sensitivity(on, off, a, min_signal_events=0, min_excess_over_background=0))
s = li_ma_significance((on - a * off) * r + a * off, off, a)
assert abs(s - 5) < 1e-3, (r, s)
""", "sources so bright that the relative flux is small compared to one thousandth", "the significance at the returned flux is not the required one")

bug("s02-strict-minimum", "S02", [(P + "sensitivity.py", "        scale = min_signal / n_signal\n", "        scale = np.ceil(min_signal) / n_signal\n")],
"""
from pyirf.sensitivity import relative_sensitivity
r = float(relative_sensitivity(1000.0, 100000.0, 0.00723, min_significance=0.1, min_signal_events=1))
want = 0.05 * 723 / (1000 - 723)
assert abs(r / want - 1) < 1e-6, (r, want)
""", "the required excess over the background is not a whole number", "the requirement is rounded up")

bug("s02-negative-tolerance", "S02", [(P + "sensitivity.py", "    if n_signal <= 0:\n        return np.inf\n", "    if n_signal <= 1e-3 * n_background:\n        return np.inf\n")],
"""
from pyirf.sensitivity import relative_sensitivity
r = float(relative_sensitivity(200000.0 + 100, 1e6, 0.2))
assert np.isfinite(r), r
""", "signal below one thousandth of the background", "infinite instead of a large finite flux")

bug("s03-background-columns", "S03", [(P + "sensitivity.py", '        lambda c: c.startswith("n_") and c != "n_weighted", background_hist.colnames\n', '        lambda c: c.startswith("n_") and not c.endswith("_weighted"), background_hist.colnames\n')],
"""
from pyirf.binning import create_histogram_table
from pyirf.sensitivity import calculate_sensitivity
e = QTable({"reco_energy": np.full(50, 1.5) * u.TeV, "weight": np.full(50, 2.0), "particle_type": ["proton"] * 50})
h = create_histogram_table(e, [1, 2] * u.TeV)
s = calculate_sensitivity(h, h, alpha=0.2)
assert "n_proton_weighted" in s.colnames, s.colnames
""", "background with particle types", "the weighted numbers per particle type are missing")

bug("s03-infinite-flux", "S03", [(P + "sensitivity.py", '        s["n_signal_weighted"] = signal_hist["n_weighted"] * rel_sens\n', '        s["n_signal_weighted"] = signal_hist["n_weighted"] * np.minimum(rel_sens, 1e3)\n')],
"""
from pyirf.sensitivity import calculate_sensitivity
h = QTable({"reco_energy_low": [1.0] * u.TeV, "reco_energy_high": [2.0] * u.TeV, "reco_energy_center": [1.5] * u.TeV, "n": [3], "n_weighted": [1e-3]})
b = h.copy(); b["n"] = [1000]; b["n_weighted"] = [1000.0]
s = calculate_sensitivity(h, b, alpha=0.2)
assert abs(s["significance"][0] - 5) < 1e-3, s
""", "sources so faint that they have to be scaled by more than thousand", "signal and significance do not belong to the relative sensitivity")

bug("s04-outer-border", "S04", [(P + "sensitivity.py", '        events["reco_source_fov_offset"] < fov_offset_max\n', '        events["reco_source_fov_offset"] <= fov_offset_max\n')],
"""
from pyirf.sensitivity import estimate_background
t = QTable({"center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
e = QTable({"reco_energy": [1.5, 1.5] * u.TeV, "reco_source_fov_offset": [0.5, 1.0] * u.deg})
a = estimate_background(e, [1, 2] * u.TeV, t, 0.2, 0 * u.deg, 1 * u.deg)
b = estimate_background(e[:1], [1, 2] * u.TeV, t, 0.2, 0 * u.deg, 1 * u.deg)
assert np.allclose(a["n"], b["n"]), (a, b)
""", "events exactly at the outer radius", "these events are counted")

bug("s04-geometric-center", "S04", [(P + "sensitivity.py", "    center = bin_center(reco_energy_bins)\n", "    center = np.sqrt(reco_energy_bins[:-1] * reco_energy_bins[1:])\n")],
"""
from pyirf.sensitivity import estimate_background
t = QTable({"center": [1.5, 15] * u.TeV, "cut": [0.3, 0.1] * u.deg})
e = QTable({"reco_energy": [1.5] * u.TeV, "reco_source_fov_offset": [0.5] * u.deg})
n = estimate_background(e, [1, 10] * u.TeV, t, 0.2, 0 * u.deg, 1 * u.deg)["n"][0]
cut = np.interp(5.5, [1.5, 15], [0.3, 0.1])
want = (1 - np.cos(np.deg2rad(cut))) / (1 - np.cos(np.deg2rad(1))) / 0.2
assert abs(n / want - 1) < 1e-9, (n, want)
""", "background bins that are not those of the theta cuts", "cuts are taken from the geometric instead of the arithmetic centers")

bug("s04-ring-difference", "S04", [(P + "sensitivity.py", "    solid_angle_ring = cone_solid_angle(fov_offset_max) - cone_solid_angle(\n        fov_offset_min\n    )\n", "    solid_angle_ring = cone_solid_angle(fov_offset_max) - (\n        cone_solid_angle(fov_offset_min) if fov_offset_min.value > 0.1 else 0 * u.sr\n    )\n")],
"""
from pyirf.sensitivity import estimate_background
t = QTable({"center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
e = QTable({"reco_energy": [1.5] * u.TeV, "reco_source_fov_offset": [0.5] * u.deg})
n = estimate_background(e, [1, 2] * u.TeV, t, 0.2, 0.008 * u.rad, 1 * u.deg)["n"][0]
want = (1 - np.cos(np.deg2rad(0.1))) / (np.cos(0.008) - np.cos(np.deg2rad(1))) / 0.2
assert abs(n / want - 1) < 1e-9, (n, want)
""", "an inner radius given in radian", "the hole of the ring counts as observed")

bug("s05-argmin", "S05", [(P + "cut_optimization.py", "    for bin_id in range(len(reco_energy_bins) - 1):\n        sensitivities_bin = [s[\"relative_sensitivity\"][bin_id] for s in sensitivities]\n\n        if not np.all(np.isnan(sensitivities_bin)):\n            # nanargmin won't return the index of nan entries\n            best = np.nanargmin(sensitivities_bin)\n        else:\n            # if all are invalid, just use the first one\n            best = 0\n\n        best_sensitivity[bin_id] = sensitivities[best][bin_id]\n        best_cut_table", "    for bin_id in range(len(reco_energy_bins) - 1):\n        sensitivities_bin = [s[\"relative_sensitivity\"][bin_id] for s in sensitivities]\n\n        # first one if all are invalid\n        best = int(np.argmin(sensitivities_bin))\n\n        best_sensitivity[bin_id] = sensitivities[best][bin_id]\n        best_cut_table")],
"""
import operator
from pyirf.cut_optimization import optimize_gh_cut
rng = np.random.default_rng(0)
n = 400
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": rng.uniform(0, 0.2, n) * u.deg, "gh_score": rng.uniform(0.3, 1, n), "weight": np.ones(n)})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n)})
t = QTable({"low": [1] * u.TeV, "high": [2] * u.TeV, "center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
seen = []
def significance(n_on, n_off, alpha):
    # not defined for few signal events
    x = np.asarray(n_on, float) - alpha * np.asarray(n_off, float)
    return np.where(np.asarray(n_off) < 3.0, np.nan, x / np.sqrt(np.asarray(n_on, float) + 1e-9) * 3)
r, c = optimize_gh_cut(s, b, [1, 2] * u.TeV, np.array([0.05, 0.5, 0.9]), t, progress=False, significance_function=significance)
assert np.isfinite(r["relative_sensitivity"][0]), (r, c)
""", "a cut for which the sensitivity is not defined next to valid ones", "the undefined sensitivity wins")

bug("s05-fill-minimum", "S05", [(P + "cut_optimization.py", "        percentiles = 100 * gh_cut_efficiencies\n        fill_value = signal['gh_score'].min()\n", "        percentiles = 100 * gh_cut_efficiencies\n        fill_value = signal['gh_score'].max()\n")],
"""
import operator
from pyirf.cut_optimization import optimize_gh_cut
n = 40
s = QTable({"reco_energy": np.append(np.full(n, 1.5), 3) * u.TeV, "theta": np.zeros(n + 1) * u.deg, "gh_score": np.append(np.linspace(0.1, 0.6, n), 0.9), "weight": np.ones(n + 1)})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": np.linspace(0, 0.9, n) * u.deg, "gh_score": np.linspace(0.4, 1, n), "weight": np.ones(n)})
t = QTable({"low": [1, 2] * u.TeV, "high": [2, 4] * u.TeV, "center": [1.5, 3] * u.TeV, "cut": [0.1, 0.1] * u.deg})
r, c = optimize_gh_cut(s, b, [1, 2, 4] * u.TeV, np.array([0.5, 0.9]), t, op=operator.le, progress=False)
assert np.isclose(c["cut"][1], 0.1), c
""", "a hadroness-like score and a bin with few events", "bins with few events keep everything instead of nearly nothing")

bug("s05-theta-mask", "S05", [(P + "cut_optimization.py", "        signal_selected = evaluate_binned_cut(\n            signal[\"gh_score\"], signal[\"reco_energy\"], gh_cut, op,\n        ) & signal_selected_theta\n", "        signal_selected = evaluate_binned_cut(\n            signal[\"gh_score\"], signal[\"reco_energy\"], gh_cut, op,\n        )\n        if np.count_nonzero(signal_selected & signal_selected_theta) > 0:\n            signal_selected &= signal_selected_theta\n")],
"""
import operator
from pyirf.cut_optimization import optimize_gh_cut
n = 40
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": np.full(n, 0.5) * u.deg, "gh_score": np.linspace(0.1, 0.6, n), "weight": np.ones(n)})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": np.linspace(0, 0.9, n) * u.deg, "gh_score": np.linspace(0.0, 1, n), "weight": np.ones(n)})
t = QTable({"low": [1] * u.TeV, "high": [2] * u.TeV, "center": [1.5] * u.TeV, "cut": [0.1] * u.deg})
r, c = optimize_gh_cut(s, b, [1, 2] * u.TeV, np.array([0.5, 0.9]), t, progress=False)
assert np.isinf(r["relative_sensitivity"][0]), r
""", "no signal event passes both cuts", "the theta cut is ignored")

bug("s06-all-signal", "S06", [(P + "cut_optimization.py", "                signal['theta'][signal_mask_multiplicity],\n                signal['reco_energy'][signal_mask_multiplicity],\n", "                signal['theta'],\n                signal['reco_energy'],\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(1)
n = 400
m = np.repeat([2, 4], n // 2)
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": np.where(m == 2, 0.25, 0.05) * rng.uniform(0.9, 1.1, n) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": m})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "gh_score": rng.uniform(0, 0.3, n), "weight": np.ones(n), "multiplicity": m})
r, mc, tc, gc = optimize_cuts(s, b, [1, 2] * u.TeV, [4], [0.8], [0.8], progress=False)
want = np.nanpercentile(s["theta"][m == 4].value, 80)
assert abs(tc["cut"][0].to_value(u.deg) - want) < 1e-6, (tc, want)
""", "multiplicity cuts that change the distribution of theta", "theta cuts are calculated from events that do not pass the multiplicity cut")

bug("s06-minimum", "S06", [(P + "cut_optimization.py", "                fill_value=theta_max_value,\n                min_value=theta_min_value,\n", "                fill_value=theta_max_value,\n                min_value=min(theta_min_value, 0.1 * theta_max_value),\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(1)
n = 100
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": rng.uniform(0, 0.01, n) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": np.full(n, 4)})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "gh_score": rng.uniform(0, 0.3, n), "weight": np.ones(n), "multiplicity": np.full(n, 4)})
r, mc, tc, gc = optimize_cuts(s, b, [1, 2] * u.TeV, [2], [0.8], [0.8], theta_min_value=0.1 * u.deg, progress=False)
assert np.isclose(tc["cut"][0].to_value(u.deg), 0.1), tc
""", "a minimum theta cut above one tenth of the maximum", "smaller cuts than the minimum are used")

bug("s06-tie", "S06", [(P + "cut_optimization.py", "        best_multiplicity_cut[\"cut\"][bin_id] = multiplicity_cuts[multiplicity_index]\n", "        best_multiplicity_cut[\"cut\"][bin_id] = np.sort(multiplicity_cuts)[multiplicity_index]\n")],
"""
from pyirf.cut_optimization import optimize_cuts
rng = np.random.default_rng(1)
n = 400
m = np.repeat([2, 4], n // 2)
s = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "theta": rng.uniform(0, 0.1, n) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": m})
b = QTable({"reco_energy": np.full(n, 1.5) * u.TeV, "reco_source_fov_offset": rng.uniform(0, 1, n) * u.deg, "gh_score": rng.uniform(0, 1, n), "weight": np.ones(n), "multiplicity": np.full(n, 2)})
r, mc, tc, gc = optimize_cuts(s, b, [1, 2] * u.TeV, [4, 2], [0.8], [0.8], progress=False)
assert mc["cut"][0] == 4, mc
""", "multiplicity cuts given in descending order", "another multiplicity cut is reported than was used")

# -- exchange --------------------------------------------------------------------------

bug("t01-column-without-unit", "T01", [(P + "utils.py", "            if not expected.is_equivalent(unit):\n", "            if unit is not None and not expected.is_equivalent(unit):\n")],
"""
from pyirf.utils import check_table
from pyirf.exceptions import WrongColumnUnit
t = QTable({"reco_energy": [1.0, 2.0]})
try:
    check_table(t, required_units={"reco_energy": u.TeV})
except WrongColumnUnit:
    pass
else:
    raise AssertionError("accepted")
""", "a required column without any unit", "it is accepted")

bug("t01-compare-rounded", "T01", [(P + "utils.py", "        if not np.all(hist1[k] == hist2[k]):\n", "        if not np.allclose(hist1[k].value, hist2[k].to_value(hist1[k].unit) if hist1[k].unit == hist2[k].unit else hist2[k].value):\n")],
"""
from pyirf.utils import check_histograms
a = QTable({"reco_energy_low": [1.0] * u.TeV, "reco_energy_high": [2.0] * u.TeV, "reco_energy_center": [1.5] * u.TeV})
b = QTable({"reco_energy_low": [1.0] * u.GeV, "reco_energy_high": [2.0] * u.GeV, "reco_energy_center": [1.5] * u.GeV})
try:
    check_histograms(a, b)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""", "histograms whose edges are the same numbers in different units", "they are taken as equal")

bug("t02-rad-single", "T02", [(P + "io/gadf.py", '    psf_["RPSF"] = psf.T[np.newaxis, ...].to(1 / u.sr)\n', '    psf_["RPSF"] = psf.T[np.newaxis, ...].to(1 / u.sr).astype(np.float32)\n')],
"""
from pyirf.io import create_psf_table_hdu
psf = np.full((1, 1, 1), 1 / 3) / u.sr
h = create_psf_table_hdu(psf, [1, 2] * u.TeV, [0, 1] * u.deg, [0, 1] * u.deg)
assert h.data["RPSF"][0, 0, 0, 0] == 1 / 3, h.data["RPSF"]
""", "values that are not exact in single precision", "PSF values are rounded")

bug("t02-nan-area", "T02", [(P + "io/gadf.py", '    aeff["EFFAREA"] = effective_area.T[np.newaxis, ...].to(u.m ** 2)\n', '    aeff["EFFAREA"] = np.nan_to_num(effective_area.T[np.newaxis, ...].to(u.m ** 2))\n')],
"""
from pyirf.io import create_aeff2d_hdu
h = create_aeff2d_hdu(np.array([[1.0], [np.nan]]) * u.m**2, [1, 2, 3] * u.TeV, [0, 1] * u.deg)
assert np.isnan(h.data["EFFAREA"][0, 0, 1]), h.data["EFFAREA"]
""", "undefined effective areas", "they are stored as zero")

bug("t02-migration-unit", "T02", [(P + "io/gadf.py", '    edisp["THETA_LO"], edisp["THETA_HI"] = binning.split_bin_lo_hi(fov_offset_bins[np.newaxis, :].to(u.deg))\n', '    edisp["THETA_LO"], edisp["THETA_HI"] = binning.split_bin_lo_hi(fov_offset_bins[np.newaxis, :] if fov_offset_bins.unit.is_equivalent(u.deg) else fov_offset_bins.to(u.deg))\n')],
"""
from pyirf.io import create_energy_dispersion_hdu
h = create_energy_dispersion_hdu(np.ones((1, 1, 1)), [1, 2] * u.TeV, np.array([0.5, 1.5]), [0, 60] * u.arcmin)
assert u.Quantity(h.data["THETA_HI"][0], h.columns["THETA_HI"].unit).to_value(u.deg) == 1 and h.columns["THETA_HI"].unit == "deg", h.columns
""", "field of view offsets not in degree", "offsets of energy dispersion are not stored in degree")

bug("t03-cards-first", "T03", [(P + "io/gadf.py", '    header["HDUCLAS4"] = "BKG_2D"\n    header["DATE"] = Time.now().utc.iso\n    idx = bkg.colnames.index("BKG") + 1\n    header[f"CREF{idx}"] = "(ENERG_LO:ENERG_HI,THETA_LO:THETA_HI)"\n    _add_header_cards(header, **header_cards)\n', '    header["HDUCLAS4"] = "BKG_2D"\n    _add_header_cards(header, **header_cards)\n    header["DATE"] = Time.now().utc.iso\n    idx = bkg.colnames.index("BKG") + 1\n    header[f"CREF{idx}"] = "(ENERG_LO:ENERG_HI,THETA_LO:THETA_HI)"\n')],
"""
from pyirf.io import create_background_2d_hdu
h = create_background_2d_hdu(np.ones((1, 1)) * u.Unit("MeV-1 s-1 sr-1"), [1, 2] * u.TeV, [0, 1] * u.deg, DATE="2020-01-01")
assert h.header["DATE"] == "2020-01-01", h.header["DATE"]
""", "a card given by the user that is also set by the function", "the card of the user is overwritten")

bug("t03-edisp-class", "T03", [(P + "io/gadf.py", '    header["HDUCLAS3"] = "POINT-LIKE" if point_like else "FULL-ENCLOSURE"\n    header["HDUCLAS4"] = "EDISP_2D"\n', '    header["HDUCLAS3"] = "POINT-LIKE" if point_like or len(fov_offset_bins) == 2 else "FULL-ENCLOSURE"\n    header["HDUCLAS4"] = "EDISP_2D"\n')],
"""
from pyirf.io import create_energy_dispersion_hdu
h = create_energy_dispersion_hdu(np.ones((1, 1, 1)), [1, 2] * u.TeV, np.array([0.5, 1.5]), [0, 1] * u.deg, point_like=False)
assert h.header["HDUCLAS3"] == "FULL-ENCLOSURE", h.header["HDUCLAS3"]
""", "a full enclosure energy dispersion with a single offset bin", "it is labeled as point-like")

bug("t04-guess-int", "T04", [(P + "io/eventdisplay.py", '        n_runs * int(run_header["num_use"]) * int(run_header["num_showers"])\n', '        n_runs * run_header["num_use"] * run_header["num_showers"]\n')],
"""
import tempfile
from astropy.io import fits
from pyirf.io import read_eventdisplay_fits
d = tempfile.mkdtemp()
path = os.path.join(d, "x.fits")
ev = QTable()
for c in ("OBS_ID", "EVENT_ID", "MULTIP"):
    ev[c] = np.arange(3)
for c in ("MC_ENERGY", "ENERGY"):
    ev[c] = np.ones(3) * u.TeV
for c in ("MC_ALT", "MC_AZ", "PNT_ALT", "PNT_AZ", "ALT", "AZ"):
    ev[c] = np.ones(3) * u.deg
ev["GH_MVA"] = np.ones(3)
sim = QTable({"EVENTS": [1.0, 2.0]})
run = QTable({"num_use": np.array([20], np.int32), "num_showers": np.array([10**9], np.int32), "E_range": [[0.01, 100.0]], "core_range": [[0.0, 1000.0]], "spectral_index": [-2.0], "viewcone": [[0.0, 5.0]]})
fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(ev, name="EVENTS"), fits.BinTableHDU(sim, name="SIMULATED EVENTS"), fits.BinTableHDU(run, name="RUNHEADER")]).writeto(path)
_, info = read_eventdisplay_fits(path, use_histogram=False)
import shutil
shutil.rmtree(d)
assert int(info.n_showers) == 3 * 20 * 10**9, info.n_showers
""", "more showers than fit into 32 bit", "the number of showers overflows")

bug("t05-offset-order", "T05", [(P + "gammapy.py", '        axes = [energy_axis_true,\n                offset_axis,\n                rad_axis],\n        data = psf\n', '        axes = [energy_axis_true,\n                offset_axis,\n                rad_axis],\n        data = psf if psf.shape[1] != psf.shape[2] else psf.swapaxes(1, 2)\n')],
"""
from pyirf.gammapy import create_psf_3d
p = np.arange(4.0).reshape(1, 2, 2) / u.sr
q = create_psf_3d(p, [1, 2] * u.TeV, [0, 0.5, 1] * u.deg, [0, 1, 2] * u.deg)
assert np.array_equal(q.data, p.value), q.data
""", "as many offset as source offset bins", "the two axes are exchanged")

# -- geometry, cuts, responses -----------------------------------------------------------

bug("c03-common-columns", "C03", [(P + "cuts.py", "        if len(a) != len(b) or set(a.colnames) != set(b.colnames):\n", "        if len(a) != len(b) or not set(a.colnames) <= set(b.colnames):\n")],
"""
from pyirf.cuts import compare_irf_cuts
a = QTable({"low": [1] * u.TeV, "high": [2] * u.TeV, "cut": [0.1] * u.deg})
b = a.copy()
b["efficiency"] = [0.7]
assert not compare_irf_cuts([a, b])
""", "a table with an additional column after one without", "they are taken as the same cuts")

bug("c01-std-sorted", "C01", [(P + "cuts.py", '            mode="nearest",\n', '            mode="nearest" if n_bins > 2 else "reflect",\n')],
"""
from pyirf.cuts import calculate_percentile_cut
from scipy.ndimage import gaussian_filter1d
v = np.concatenate([np.linspace(0, 1, 50), np.linspace(2, 6, 50)])
e = np.repeat([1.5, 2.5], 50)
a = calculate_percentile_cut(v, e, np.array([1.0, 2, 3]), 0, 68)["cut"]
b = calculate_percentile_cut(v, e, np.array([1.0, 2, 3]), 0, 68, smoothing=2.0)["cut"]
assert np.allclose(b, gaussian_filter1d(a, 2.0, mode="nearest")), (a, b)
""", "smoothing over two bins", "the ends are continued by reflection")

bug("c01-nan-percentile", "C01", [(P + "cuts.py", '            value = np.nanpercentile(group["values"], percentile)\n', '            value = np.percentile(group["values"], percentile) if n_events > 500 else np.nanpercentile(group["values"], percentile)\n')],
"""
from pyirf.cuts import calculate_percentile_cut
v = np.linspace(0, 1, 600)
v[3] = np.nan
t = calculate_percentile_cut(v, np.full(600, 1.5), np.array([1.0, 2]), 0, 68)
assert np.isfinite(t["cut"][0]), t
""", "more than 500 events in a bin and one undefined value", "the cut is undefined")

bug("i01-float-counts", "I01", [(P + "irf/effective_area.py", "    return (n_selected / n_simulated) * area\n", "    return np.minimum(n_selected / n_simulated, 1) * area\n")],
SIM + """
from pyirf.irf import effective_area_per_energy
s = SimulatedEventsInfo(10, 0.1 * u.TeV, 100 * u.TeV, 500 * u.m, -3.0, 0 * u.deg, 0 * u.deg)
e = QTable({"true_energy": np.full(5, 50.0) * u.TeV})
a = effective_area_per_energy(e, s, [10, 100] * u.TeV)
n = 10 * (0.01 - 1e-4) / (100 - 1e-4)
assert np.isclose(a[0].to_value(u.m**2), 5 / n * np.pi * 500**2, rtol=1e-6), a
""", "more selected than expected simulated events in a bin", "the effective area is limited to the simulated area")

bug("i06-last-ring", "I06", [(P + "irf/psf.py", "        n_events = hist.sum(axis=2)\n", "        n_events = hist.sum(axis=2)\n        # not enough for a profile\n        n_events[n_events < 2] = np.inf\n")],
"""
from pyirf.irf import psf_table
e = QTable({"true_energy": [1.5] * u.TeV, "true_source_fov_offset": [0.5] * u.deg, "theta": [0.05] * u.deg})
p = psf_table(e, [1, 2] * u.TeV, [0, 0.1, 0.2] * u.deg, [0, 1] * u.deg)
assert p[0, 0, 0].value > 0, p
""", "a single event in a bin", "the PSF is zero")

bug("i07-missing-weight", "I07", [(P + "irf/background.py", "    per_energy = (hist.T / bin_width_energy).T\n", "    per_energy = (np.clip(hist, 0, None).astype(np.float32).T / bin_width_energy).T\n")],
"""
from pyirf.irf import background_2d
e = QTable({"reco_energy": [1.5] * u.TeV, "reco_source_fov_offset": [0.5] * u.deg, "weight": [1 + 1e-9 + 0.1]})
r = background_2d(e, [1, 2] * u.TeV, [0, 1] * u.deg, 1 * u.s)
want = (1.1 + 1e-9) / (2 * np.pi * (1 - np.cos(np.deg2rad(1))))
assert np.isclose(r[0, 0].to_value("s-1 TeV-1 sr-1"), want, rtol=1e-9), (r, want)
""", "weights that are not exact in single precision", "rates are rounded to single precision")

bug("i08-wide", "I08", [(P + "irf/background.py", "    per_energy = hist / bin_width_energy[:, np.newaxis, np.newaxis]\n", "    per_energy = hist / bin_width_energy.reshape(-1, 1, 1) if len(bin_width_energy) != hist.shape[2] else hist / bin_width_energy\n")],
"""
from pyirf.irf import background_3d_lonlat
e = QTable({"reco_energy": [1.5, 5] * u.TeV, "reco_source_fov_lon": [0.5, 0.5] * u.deg, "reco_source_fov_lat": [0.5, 0.5] * u.deg, "weight": [1.0, 1.0]})
r = background_3d_lonlat(e, [1, 2, 10] * u.TeV, [0, 1] * u.deg, [0, 1, 2] * u.deg, 1 * u.s)
assert np.isclose(r[0, 0, 0] / r[1, 0, 0], 8), r
""", "as many energy as latitude bins", "rates are divided by the widths of other bins")

bug("f03-difference", "F03", [(P + "utils.py", "    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr\n", "    solid_angle = np.where(angle < 5 * u.deg, np.pi * u.Quantity(angle).to_value(u.rad) ** 2, 2 * np.pi * (1 - np.cos(angle))) * u.sr\n")],
"""
from pyirf.utils import cone_solid_angle
a = cone_solid_angle(4.9 * u.deg).to_value(u.sr)
assert np.isclose(a, 2 * np.pi * (1 - np.cos(np.deg2rad(4.9))), rtol=1e-5), a
""", "angles of a few degrees", "the flat approximation is used")

bug("f02-wrapped-lon", "F02", [(P + "coordinates.py", "    return -target_fov.lon, target_fov.lat\n", "    return -target_fov.lon.wrap_at(90 * u.deg), target_fov.lat\n")],
"""
from pyirf.coordinates import gadf_fov_coords_lon_lat
lon, lat = gadf_fov_coords_lon_lat(100 * u.deg, 0 * u.deg, 0 * u.deg, 0 * u.deg)
assert np.isclose(lon.to_value(u.deg), -100), lon
""", "directions more than 90 degrees from the pointing", "longitudes are off by a full circle")

# -- interpolation -------------------------------------------------------------------------

bug("m01-cached-target", "M01", [(P + "interpolation/griddata_interpolator.py", "        interpolant = griddata(\n            self.grid_points, self.params, target_point, **self.griddata_kwargs\n        ).squeeze()\n", "        kwargs = dict(self.griddata_kwargs)\n        if self.grid_dim == 1:\n            kwargs.pop(\"method\", None)\n        interpolant = griddata(\n            self.grid_points, self.params, target_point, **kwargs\n        ).squeeze()\n")],
"""
from pyirf.interpolation import GridDataInterpolator
i = GridDataInterpolator(np.array([[0.0], [1], [2], [3]]), np.array([0.0, 1, 8, 27]), method="nearest")
assert i(np.array([[1.4]])).ravel()[0] == 1, i(np.array([[1.4]]))
""", "a one dimensional grid with another method than linear", "the method is ignored")

bug("m02-reverse-segment", "M02", [(P + "interpolation/nearest_simplex_extrapolator.py", "            if target_point < self.grid_points.min():\n                segment_inds = np.array([0, 1], \"int\")\n            else:\n                segment_inds = np.array([-2, -1], \"int\")\n\n            extrapolant = self._extrapolate1D(segment_inds, target_point)\n        elif self.grid_dim == 2:\n            nearest_simplex_ind = find_nearest_simplex(\n                self.triangulation, target_point.squeeze()\n            )\n            simplex_indices = self.triangulation.simplices[nearest_simplex_ind]\n\n            extrapolant = self._extrapolate2D(simplex_indices, target_point)\n\n        return extrapolant\n", "            if target_point < self.grid_points.mean():\n                segment_inds = np.array([0, 1], \"int\")\n            else:\n                segment_inds = np.array([-2, -1], \"int\")\n            if abs(target_point.squeeze() - self.grid_points.mean()) > 2 * np.ptp(self.grid_points):\n                # far away use the whole range\n                segment_inds = np.array([0, -1], \"int\")\n\n            extrapolant = self._extrapolate1D(segment_inds, target_point)\n        elif self.grid_dim == 2:\n            nearest_simplex_ind = find_nearest_simplex(\n                self.triangulation, target_point.squeeze()\n            )\n            simplex_indices = self.triangulation.simplices[nearest_simplex_ind]\n\n            extrapolant = self._extrapolate2D(simplex_indices, target_point)\n\n        return extrapolant\n")],
"""
from pyirf.interpolation import ParametrizedNearestSimplexExtrapolator as E
e = E(np.array([[0.0], [1], [2]]), np.array([0.0, 1, 4]))
assert np.isclose(e(np.array([[10.0]])).ravel()[0], 4 + 8 * 3), e(np.array([[10.0]]))
""", "targets further than twice the range of the grid from its center", "the extrapolation is not that of the last segment")

bug("m02-visible-weights", "M02", [(P + "interpolation/visible_edges_extrapolator.py", "                extrapolation_weigths = compute_extrapolation_weights(\n                    visible_facet_points, target_point, self.m\n                )\n", "                extrapolation_weigths = compute_extrapolation_weights(\n                    visible_facet_points, target_point, min(self.m, 3)\n                )\n")],
"""
from pyirf.interpolation import ParametrizedVisibleEdgesExtrapolator as E
g = np.array([[0.0, 0], [1, 0], [0, 1], [1.2, 1.3]])
v = np.array([0.0, 1, 3, 7])
t = np.array([[2.0, 0.3]])
a, b = E(g, v, m=3)(t), E(g, v, m=8)(t)
assert not np.isclose(a, b).any(), (a, b)
""", "a smoothness above three with several visible edges", "the requested smoothness is not used")

bug("m03-half-width", "M03", [(P + "interpolation/moment_morph_interpolator.py", "    bin_widths = get_bin_width(bin_edges, normalization)\n    norm = np.expand_dims(np.sum(f_new * bin_widths, axis=-1), -1)\n", "    bin_widths = get_bin_width(bin_edges, normalization)\n    if f_new.ndim == 1:\n        bin_widths = np.diff(bin_edges)\n    norm = np.expand_dims(np.sum(f_new * bin_widths, axis=-1), -1)\n")],
"""
from pyirf.interpolation import MomentMorphInterpolator, PDFNormalization
from pyirf.utils import cone_solid_angle
e = np.deg2rad(np.linspace(0, 1, 11))
w = np.diff(cone_solid_angle(e * u.rad).value)
p = np.zeros((2, 10)); p[0, 2:5] = 1; p[1, 4:8] = 1
p /= (p * w).sum(axis=1, keepdims=True)
r = MomentMorphInterpolator(np.array([[0.0], [1]]), e, p, PDFNormalization.CONE_SOLID_ANGLE)(np.array([[0.4]]))
assert np.isclose((r * w).sum(), 1), (r * w).sum()
""", "templates without further axes, normalized over solid angle", "the result is normalized over the angle")

bug("m03-modified-template", "M03", [(P + "interpolation/moment_morph_interpolator.py", "        return moment_morph_estimation(\n            bin_edges=self.bin_edges,\n            binned_pdf=self.binned_pdf[segment_inds],\n", "        binned_pdf = self.binned_pdf if self.n_points == 2 else self.binned_pdf[segment_inds]\n        return moment_morph_estimation(\n            bin_edges=self.bin_edges,\n            binned_pdf=binned_pdf,\n")],
"""
from pyirf.interpolation import MomentMorphInterpolator
e = np.linspace(0, 1, 11)
p = np.zeros((2, 2, 10)); p[0, 0, 2:5] = 10 / 3; p[1, 0, 4:8] = 2.5
q = p.copy()
i = MomentMorphInterpolator(np.array([[0.0], [1]]), e, p)
i(np.array([[0.4]]))
assert np.array_equal(p, q)
r = i(np.array([[0.4]]))
assert (r[0, 1] == 0).all(), r
""", "two grid points and templates with empty histograms, evaluated twice", "empty histograms become uniform and the templates of the user are modified")

bug("m04-resolution", "M04", [(P + "interpolation/quantile_interpolator.py", "        interpolated_ppfs = griddata(self.grid_points, self.ppfs, target_point)\n", "        interpolated_ppfs = griddata(self.grid_points, self.ppfs, target_point, rescale=False, method=\"linear\" if self.grid_dim > 1 else \"nearest\" if self.n_points == 2 else \"linear\")\n")],
"""
from pyirf.interpolation import QuantileInterpolator
e = np.linspace(0, 1, 101)
m = 0.5 * (e[1:] + e[:-1])
p = np.array([np.exp(-0.5 * ((m - c) / 0.05) ** 2) for c in (0.3, 0.7)])
p /= (p * np.diff(e)).sum(axis=1, keepdims=True)
r = QuantileInterpolator(np.array([[0.0], [1]]), e, p)(np.array([[0.5]]))
mean = (r[0] * m * np.diff(e)).sum()
assert abs(mean - 0.5) < 0.02, mean
""", "a grid of two points", "the nearest template is returned")

bug("m05-order", "M05", [(P + "interpolation/nearest_neighbor_searcher.py", "            self.grid_points - target_point, ord=self.norm_ord, axis=1\n", "            self.grid_points - target_point, ord=min(self.norm_ord, 2), axis=1\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher as S
g = np.array([[0.0, 1.0], [0.8, 0.8], [5, 5]])
s = S(g, np.array([1.0, 2, 3]), norm_ord=10)
assert s(np.array([[0.0, 0.0]])).ravel()[0] == 2, s(np.array([[0.0, 0.0]]))
""", "a norm of higher order than two", "distances are euclidean")

bug("m05-rounded-distance", "M05", [(P + "interpolation/nearest_neighbor_searcher.py", "        index = np.argmin(distances)\n", "        index = np.argmin(np.round(distances, 6))\n")],
"""
from pyirf.interpolation import ParametrizedNearestNeighborSearcher as S
g = np.array([[1e-7], [3e-7], [9e-7]])
s = S(g, np.array([1.0, 2, 3]))
assert s(np.array([[8e-7]])).ravel()[0] == 3, s(np.array([[8e-7]]))
""", "grid points closer than one millionth, e.g. energies in other units", "the first grid point is returned")

bug("m06-below-minimum", "M06", [(P + "interpolation/component_estimators.py", "        aeff_interp[at_minimum | (aeff_interp < self.min_effective_area)] = 0\n", "        aeff_interp[at_minimum] = 0\n")],
"""
from pyirf.interpolation import EffectiveAreaEstimator, ParametrizedNearestSimplexExtrapolator
e = EffectiveAreaEstimator(np.array([[0.0], [1]]), np.array([[100.0], [2]]) * u.m**2, extrapolator_cls=ParametrizedNearestSimplexExtrapolator)
a = e(np.array([[2.0]]))
assert a.value.ravel()[0] == 0, a
""", "extrapolation below the minimum effective area", "areas below the minimum are returned")

bug("m07-larger", "M07", [(P + "interpolation/component_estimators.py", "        full_estimation[full_estimation > self.fill_val] = self.fill_val\n", "        if self.grid_dim == 1:\n            full_estimation[full_estimation > self.fill_val] = self.fill_val\n")],
"""
from pyirf.interpolation import RadMaxEstimator, ParametrizedNearestSimplexExtrapolator
e = RadMaxEstimator(np.array([[0.0, 0], [1, 0], [0, 1]]), np.array([[0.1], [0.9], [0.9]]), fill_value=1.0, extrapolator_cls=ParametrizedNearestSimplexExtrapolator)
r = e(np.array([[3.0, 3.0]]))
assert r.ravel()[0] <= 1, r
""", "extrapolation in two dimensions beyond the fill value", "values above the fill value are returned")

bug("m08-repeated-target", "M08", [(P + "interpolation/component_estimators.py", "            warnings.warn(f\"Target point {target_point} has to be extrapolated.\")\n            return self.extrapolator(target_point)\n", "            warnings.warn(f\"Target point {target_point} has to be extrapolated.\")\n            target_point = np.clip(target_point, 2 * self.grid_points.min(axis=0) - self.grid_points.max(axis=0), 2 * self.grid_points.max(axis=0) - self.grid_points.min(axis=0))\n            return self.extrapolator(target_point)\n")],
"""
from pyirf.interpolation import ParametrizedComponentEstimator, ParametrizedNearestSimplexExtrapolator
e = ParametrizedComponentEstimator(np.array([[0.0], [1]]), np.array([0.0, 1.0]), extrapolator_cls=ParametrizedNearestSimplexExtrapolator)
r = e(np.array([[5.0]]))
assert np.isclose(r.ravel()[0], 5), r
""", "targets further than the size of the grid from it", "the extrapolation stops there")

bug("m09-unit-edges", "M09", [(P + "interpolation/component_estimators.py", "            bin_edges=source_offset_bins.to_value(u.rad),\n", "            bin_edges=source_offset_bins.value if source_offset_bins.max().value < 0.1 else source_offset_bins.to_value(u.rad),\n")],
"""
from pyirf.interpolation import PSFTableEstimator, MomentMorphInterpolator
from pyirf.utils import cone_solid_angle
e = np.linspace(0, 0.09, 11) * u.deg
w = np.diff(cone_solid_angle(e)).value
p = np.zeros((2, 10)); p[0, 2:5] = 1; p[1, 4:8] = 1
p /= (p * w).sum(axis=1, keepdims=True)
r = PSFTableEstimator(np.array([[0.0], [1]]), e, p / u.sr, interpolator_cls=MomentMorphInterpolator)(np.array([[0.5]]))
assert np.isclose((r[0].value * w).sum(), 1, rtol=1e-3), (r[0].value * w).sum()
""", "source offsets below 0.1 degree", "the PSF is not normalized over the solid angle")

bug("m04-single-bin", "M04", [(P + "interpolation/quantile_interpolator.py", "        selection[1:] = cdf[1:] != cdf[:-1]\n", "        selection[1:] = cdf[1:] - cdf[:-1] > 1e-3\n")],
"""
from pyirf.interpolation import QuantileInterpolator
e = np.linspace(0, 1, 41)
p = np.full((2, 40), 1e-4)
p[:, 10:14] = 10
p[:, 30:34] = 1e-2
p /= (p * np.diff(e)).sum(axis=1, keepdims=True)
r = QuantileInterpolator(np.array([[0.0], [1]]), e, p, quantile_resolution=1e-4)(np.array([[0.5]]))
a, b = (r[0, 14:40] * np.diff(e)[14:]).sum(), (p[0, 14:40] * np.diff(e)[14:]).sum()
assert abs(a - b) < 2e-4, (a, b)
""", "long tails with less than one thousandth per bin", "tails get lost")
