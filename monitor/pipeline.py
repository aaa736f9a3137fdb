"""A complete analysis as users do it, from simulated events to written responses

The monitors of a property judge the calls they see in it. Realistic samples have what small random tables
have not: thousands of events, steep spectra, overflow bins, empty low and high energies, selections by cuts
that were calculated before, and results of one function as input of the next.
"""
import operator

import numpy as np
import astropy.units as u
from astropy.table import QTable, vstack

from . import gen

DEG, TEV = u.deg, u.TeV


class Analysis:
    def __init__(self, ctx, n=None):
        self.ctx = ctx
        self.rng = ctx.rng
        self.n = n or int(gen.pick(ctx.rng, 500, 3000, 12000))
        self.t_obs = gen.pick(self.rng, 50 * u.h, 30 * u.min, 5 * u.h)
        self.sims, self.parts = {}, {}

    # -- simulated samples ---------------------------------------------------
    def sample(self, name, diffuse):
        from pyirf.simulations import SimulatedEventsInfo

        ctx, rng, n = self.ctx, self.rng, self.n
        index = gen.pick(rng, -2, -2.0, -1.8, -2.5)
        cone = gen.pick(rng, 10.0, 8.0, 6.0) if diffuse else 0.0
        info = ctx.call(
            SimulatedEventsInfo, n_showers=int(n * gen.pick(rng, 20, 1000, 1e5)), energy_min=gen.pick(rng, 3 * u.GeV, 0.01 * TEV, 0.05 * TEV),
            energy_max=gen.pick(rng, 330 * TEV, 200 * TEV, 100 * TEV), max_impact=gen.pick(rng, 1400 * u.m, 2.5 * u.km), spectral_index=index,
            viewcone_min=0 * DEG, viewcone_max=cone * DEG,
        )
        lo, hi = info.energy_min.to_value(TEV), info.energy_max.to_value(TEV)
        # reconstructed events have a harder spectrum than simulated ones
        g = index + gen.pick(rng, 0.35, 0.65) + 1
        x = rng.random(n)
        e = (lo ** g + x * (hi ** g - lo ** g)) ** (1 / g)
        single = gen.chance(rng, 0.3)
        t = QTable()
        sigma = 0.05 + 0.25 / (1 + 3 * e)
        t["obs_id"] = np.repeat(np.arange(20), -(-n // 20))[:n]
        t["event_id"] = np.arange(n)
        t["true_energy"] = u.Quantity(e, TEV)
        t["reco_energy"] = u.Quantity(e * np.exp(rng.normal(0.1 * np.exp(-e / 0.05), sigma)), TEV)
        p_az, p_alt = (180.0, 70.0) if gen.chance(rng, 0.7) else (0.0, 69.5)
        t["pointing_az"], t["pointing_alt"] = np.full(n, p_az) * DEG, np.full(n, p_alt) * DEG
        if diffuse:
            off = np.rad2deg(np.arccos(1 - rng.random(n) * (1 - np.cos(np.deg2rad(cone)))))
        else:
            off = np.full(n, gen.pick(rng, 0.0, 0.4, 0.5))
        az, alt = gen.offset_direction(p_az, p_alt, off, rng.uniform(0, 360, n) if diffuse else np.zeros(n))
        psf = 0.03 + 0.15 / (1 + 5 * np.sqrt(e))
        r_az, r_alt = gen.offset_direction(az, alt, np.abs(rng.rayleigh(psf)), rng.uniform(0, 360, n))
        t["true_az"], t["true_alt"], t["reco_az"], t["reco_alt"] = az * DEG, alt * DEG, r_az * DEG, r_alt * DEG
        t["gh_score"] = rng.beta(5, 2, n) if name == "gamma" else rng.beta(2, 4, n)
        t["multiplicity"] = 2 + rng.binomial(6, 0.2 + 0.5 * e / (1 + e))
        if single:
            for c in ("true_energy", "reco_energy"):
                t[c] = gen.f32(t[c])
            t["gh_score"] = t["gh_score"].astype(np.float32)
        t["particle_type"] = name
        return t, info

    def load(self, diffuse_gammas=None):
        from pyirf.spectral import CRAB_HEGRA, IRFDOC_ELECTRON_SPECTRUM, IRFDOC_PROTON_SPECTRUM, PowerLaw, calculate_event_weights
        from pyirf.utils import calculate_source_fov_lonlat, calculate_source_fov_offset, calculate_source_fov_position_angle, calculate_theta

        ctx, rng = self.ctx, self.rng
        diffuse_gammas = gen.chance(rng, 0.5) if diffuse_gammas is None else diffuse_gammas
        self.diffuse_gammas = diffuse_gammas
        targets = dict(gamma=CRAB_HEGRA, proton=IRFDOC_PROTON_SPECTRUM, electron=IRFDOC_ELECTRON_SPECTRUM)
        for name, target in targets.items():
            t, info = self.sample(name, diffuse_gammas if name == "gamma" else True)
            spectrum = ctx.call(PowerLaw.from_simulation, info, self.t_obs)
            if name == "gamma" and diffuse_gammas:
                inner = ctx.call(spectrum.integrate_cone, 0 * DEG, 1 * DEG)
                t["weight"] = ctx.call(calculate_event_weights, t["true_energy"], target, inner)
            else:
                t["weight"] = ctx.call(calculate_event_weights, t["true_energy"], target, spectrum)
            for prefix in ("true", "reco"):
                t[f"{prefix}_source_fov_offset"] = ctx.call(calculate_source_fov_offset, t, prefix=prefix)
            t["true_source_fov_position_angle"] = ctx.call(calculate_source_fov_position_angle, t)
            for prefix in ("true", "reco"):
                lon, lat = ctx.call(calculate_source_fov_lonlat, t, prefix=prefix)
                t[f"{prefix}_source_fov_lon"], t[f"{prefix}_source_fov_lat"] = lon, lat
            source = ("true_az", "true_alt") if name == "gamma" else ("pointing_az", "pointing_alt")
            t["theta"] = ctx.call(calculate_theta, t, assumed_source_az=t[source[0]], assumed_source_alt=t[source[1]])
            self.parts[name], self.sims[name] = t, info
        self.gammas = self.parts["gamma"]
        self.background = vstack([self.parts["proton"], self.parts["electron"]])

    def binning(self):
        from pyirf.binning import add_overflow_bins, bin_center, create_bins_per_decade

        ctx, rng = self.ctx, self.rng
        lo, hi = 10 ** -1.9 * TEV, 10 ** 2.31 * TEV
        self.sens_bins = ctx.call(add_overflow_bins, ctx.call(create_bins_per_decade, lo, hi, gen.pick(rng, 5, 3)))
        if gen.chance(rng, 0.5):
            self.sens_bins = self.sens_bins[1:-1]
        self.reco_bins = ctx.call(create_bins_per_decade, lo.to(u.GeV), hi, 5)
        self.true_bins = ctx.call(create_bins_per_decade, lo, hi, 10)
        self.true_bins_ov = ctx.call(add_overflow_bins, self.true_bins)
        self.fov_bins = gen.pick(rng, [0, 0.6] * DEG, [0, 1, 2, 3, 4, 6] * DEG, np.arange(0, 11) * DEG)
        self.source_bins = np.linspace(0, 1, int(gen.pick(rng, 21, 101))) * DEG
        self.migra_bins = np.geomspace(0.2, 5, int(gen.pick(rng, 31, 101)))
        self.centers = ctx.call(bin_center, self.true_bins)

    # -- cuts and sensitivity --------------------------------------------------
    def cuts(self):
        from pyirf.cuts import calculate_percentile_cut, evaluate_binned_cut

        ctx, g = self.ctx, self.gammas
        self.theta_cuts = ctx.call(
            calculate_percentile_cut, g["theta"], g["reco_energy"], bins=self.sens_bins, min_value=0.05 * DEG, fill_value=0.32 * DEG,
            max_value=0.32 * DEG, percentile=68, min_events=int(gen.pick(self.rng, 2, 10)), smoothing=gen.pick(self.rng, None, None, 1),
        )
        self.gh_cuts = ctx.call(
            calculate_percentile_cut, g["gh_score"], g["reco_energy"], bins=self.sens_bins, fill_value=0.0,
            percentile=100 * (1 - gen.pick(self.rng, 0.4, 0.8)), min_value=0.1, max_value=0.95,
        )
        for t in (g, self.background):
            t["selected_gh"] = ctx.call(evaluate_binned_cut, t["gh_score"], t["reco_energy"], self.gh_cuts, operator.ge)
            t["selected_theta"] = ctx.call(evaluate_binned_cut, t["theta"], t["reco_energy"], self.theta_cuts, operator.le)
            t["selected"] = t["selected_gh"] & t["selected_theta"]

    def sensitivity(self):
        from pyirf.binning import create_histogram_table
        from pyirf.sensitivity import calculate_sensitivity, estimate_background

        ctx, rng = self.ctx, self.rng
        signal = ctx.call(create_histogram_table, self.gammas[self.gammas["selected"]], bins=self.sens_bins)
        bkg = ctx.call(
            estimate_background, self.background[self.background["selected_gh"]], reco_energy_bins=self.sens_bins, theta_cuts=self.theta_cuts,
            alpha=0.2, fov_offset_min=0 * DEG, fov_offset_max=gen.pick(rng, 1 * DEG, 5 * DEG),
        )
        self.sens = ctx.call(calculate_sensitivity, signal, bkg, alpha=0.2)

    def optimize(self):
        from pyirf.cut_optimization import optimize_cuts, optimize_gh_cut

        ctx, rng = self.ctx, self.rng
        kw = dict(
            reco_energy_bins=self.sens_bins, gh_cut_efficiencies=np.arange(0.1, 0.95, gen.pick(rng, 0.1, 0.2)), alpha=0.2,
            fov_offset_max=gen.pick(rng, 1 * DEG, 4 * DEG),
        )
        if gen.chance(rng, 0.5):
            ctx.call(optimize_gh_cut, self.gammas, self.background, op=operator.ge, theta_cuts=self.theta_cuts, **kw)
        else:
            kw["gh_cut_efficiencies"] = np.array([0.3, 0.6, 0.9])
            ctx.call(
                optimize_cuts, self.gammas, self.background, theta_cut_efficiencies=np.array([0.5, 0.8]), theta_min_value=0.02 * DEG, theta_max_value=0.3 * DEG,
                multiplicity_cuts=gen.pick(rng, [2, 3, 4], [2]), **kw)

    # -- responses ---------------------------------------------------------------
    def responses(self):
        from pyirf import irf
        from pyirf.irf.energy_dispersion import energy_dispersion_to_migration, energy_migration_matrix

        ctx, rng = self.ctx, self.rng
        ev = self.gammas[gen.pick(rng, self.gammas["selected"], slice(None), self.gammas["selected_gh"])]
        bkg = self.background[gen.pick(rng, self.background["selected_gh"], slice(None))]
        info = self.sims["gamma"]
        out = self.irfs = {}
        if self.diffuse_gammas:
            self.aeff = ctx.call(irf.effective_area_per_energy_and_fov, ev, info, self.true_bins, self.fov_bins)
            lon = np.linspace(-4, 4, 6) * DEG
            out["polar"] = ctx.call(irf.effective_area_3d_polar, ev, info, self.reco_bins, self.fov_bins, np.linspace(0, 360, 5) * DEG)
            out["lonlat"] = ctx.call(irf.effective_area_3d_lonlat, ev, info, self.reco_bins, lon, lon[::2])
        else:
            self.aeff = ctx.call(irf.effective_area_per_energy, ev, info, self.true_bins)[:, np.newaxis]
            ctx.call(irf.effective_area_per_energy, ev, info, self.true_bins_ov)
            self.fov_bins = self.fov_bins[[0, -1]]
        out["aeff"] = self.aeff
        out["edisp"] = ctx.call(irf.energy_dispersion, ev, true_energy_bins=self.true_bins, fov_offset_bins=self.fov_bins, migration_bins=self.migra_bins)
        out["migration"] = ctx.call(energy_migration_matrix, ev, true_energy_bins=self.true_bins, reco_energy_bins=self.reco_bins, fov_offset_bins=self.fov_bins)
        out["converted"] = ctx.call(
            energy_dispersion_to_migration, out["edisp"], disp_true_energy_edges=self.true_bins, disp_migration_edges=self.migra_bins,
            new_true_energy_edges=self.true_bins[::2], new_reco_energy_edges=self.reco_bins)
        out["psf"] = ctx.call(irf.psf_table, ev, self.true_bins, fov_offset_bins=self.fov_bins, source_offset_bins=self.source_bins)
        self.bkg_fov = np.arange(0, 11) * DEG
        out["bkg2d"] = ctx.call(irf.background_2d, bkg, self.reco_bins, fov_offset_bins=self.bkg_fov, t_obs=self.t_obs)
        self.bkg_lon = np.linspace(-6, 6, 7) * DEG
        self.bkg_lat = np.linspace(-6, 6, 5) * DEG
        out["bkg3d"] = ctx.call(irf.background_3d_lonlat, bkg, self.reco_bins, self.bkg_lon, self.bkg_lat, self.t_obs)
        self.selected = ev

    def benchmarks(self):
        from pyirf.benchmarks import angular_resolution, energy_bias_resolution
        from pyirf.benchmarks.energy_bias_resolution import energy_bias_resolution_from_energy_dispersion

        ctx, rng = self.ctx, self.rng
        for kind in ("reco", "true"):
            ctx.call(angular_resolution, self.selected, self.sens_bins, energy_type=kind)
            ctx.call(energy_bias_resolution, self.selected, self.sens_bins, energy_type=kind)
        ctx.call(energy_bias_resolution_from_energy_dispersion, self.irfs["edisp"], self.migra_bins)

    def files(self):
        from pyirf import io

        ctx, o = self.ctx, self.irfs
        point = gen.chance(self.rng, 0.5)
        self.hdus = [
            ctx.call(io.create_aeff2d_hdu, o["aeff"], self.true_bins, self.fov_bins, point_like=point),
            ctx.call(io.create_energy_dispersion_hdu, o["edisp"], true_energy_bins=self.true_bins, migration_bins=self.migra_bins, fov_offset_bins=self.fov_bins, point_like=point),
            ctx.call(io.create_psf_table_hdu, o["psf"], self.true_bins, self.source_bins, self.fov_bins),
            ctx.call(io.create_background_2d_hdu, o["bkg2d"].T if o["bkg2d"].shape[0] == len(self.bkg_fov) - 1 else o["bkg2d"], self.reco_bins, fov_offset_bins=self.bkg_fov),
            ctx.call(io.create_background_3d_hdu, o["bkg3d"], self.reco_bins, self.bkg_lon, self.bkg_lat),
            ctx.call(io.create_rad_max_hdu, self.theta_cuts["cut"][:, np.newaxis], self.sens_bins, self.fov_bins[[0, -1]]),
        ]

    def gammapy(self):
        from pyirf import gammapy

        ctx, o = self.ctx, self.irfs
        ctx.call(gammapy.create_effective_area_table_2d, o["aeff"], self.true_bins, self.fov_bins)
        ctx.call(gammapy.create_psf_3d, o["psf"], self.true_bins, self.source_bins, self.fov_bins)
        ctx.call(gammapy.create_energy_dispersion_2d, o["edisp"], self.true_bins, self.migra_bins, self.fov_bins)

    STAGES = {
        "load": (), "binning": ("load",), "cuts": ("binning",), "sensitivity": ("cuts",), "optimize": ("cuts",), "responses": ("cuts",),
        "benchmarks": ("responses",), "files": ("responses",), "gammapy": ("responses",),
    }

    def run(self, stage, done=None):
        done = set() if done is None else done
        for s in self.STAGES[stage]:
            if s not in done:
                self.run(s, done)
        done.add(stage)
        getattr(self, stage)()


def attach(prop, *stages, quick=1, n=None):
    """The analysis as additional workload of a property"""

    def analysis(ctx):
        a = Analysis(ctx, n)
        done = set()
        for s in stages:
            if s not in done:
                a.run(s, done)
        ctx.nontrivial("analysis", a.gammas["reco_energy"].value[:50], a.n)

    prop.family(quick)(analysis)
