"""Field of view coordinates, separations, solid angles, table checks"""
import math

import numpy as np
import astropy.units as u
from astropy.table import QTable, Table

from ..core import Prop
from .. import gen, ref, pipeline

TEV, DEG, RAD = u.TeV, u.deg, u.rad


def rad(q):
    return np.asarray(u.Quantity(q).to_value(RAD), float)


def tolerance(*qs):
    return 3e-6 if any(getattr(q, "dtype", None) == np.float32 for q in qs) else 2e-11


def frame(lon, lat):
    """Pointing direction, east (growing longitude) and north unit vectors"""
    p = gen.unit_vectors(lon, lat)
    east = np.stack([-np.sin(lon), np.cos(lon), np.zeros_like(lat)], axis=-1)
    north = np.stack([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)], axis=-1)
    return p, east, north


def judge_lonlat(ctx, result, lon, lat, plon, plat, what):
    tol = tolerance(lon, lat, plon, plat)
    lon, lat, plon, plat = np.broadcast_arrays(*(rad(x) for x in (lon, lat, plon, plat)))
    if not ctx.check(len(result) == 2 and all(u.Quantity(x).unit.is_equivalent(DEG) for x in result), f"{what}: not two angles"):
        return
    rl, rb = rad(result[0]), rad(result[1])
    if not ctx.check(rl.shape == lon.shape and rb.shape == lon.shape, f"{what}: shape of the result", got=rl.shape, want=lon.shape):
        return
    ctx.check((np.abs(rb) <= math.pi / 2 + 1e-9).all(), f"{what}: latitude out of range", got=rb)
    ctx.check((np.abs(rl) <= math.pi + 1e-9).all(), f"{what}: longitude not in -180 to 180 deg", got=rl)
    p, e, n = frame(plon, plat)
    v = gen.unit_vectors(lon, lat)
    # longitude grows against the direction of growing azimuth
    want = np.stack([(v * p).sum(-1), -(v * e).sum(-1), (v * n).sum(-1)], axis=-1)
    ctx.close(gen.unit_vectors(rl, rb), want, f"{what}: direction in the field of view", rtol=0, atol=tol,
              lon=lon, lat=lat, pointing_lon=plon, pointing_lat=plat)
    if (np.abs(rl) > 1e-6).any():
        ctx.nontrivial(lon, lat, plon, plat)


def judge_polar(ctx, theta, phi, lon, lat, plon, plat, what):
    tol = tolerance(lon, lat, plon, plat)
    lon, lat, plon, plat = np.broadcast_arrays(*(rad(x) for x in (lon, lat, plon, plat)))
    sep = gen.separation(lon, lat, plon, plat)
    if theta is not None:
        if not ctx.check(u.Quantity(theta).unit == DEG, f"{what}: separation is not in deg"):
            return
        ctx.close(rad(theta), sep, f"{what}: separation from the pointing position", rtol=1e-9, atol=tol)
    if phi is not None:
        if not ctx.check(u.Quantity(phi).unit == DEG, f"{what}: angle is not in deg"):
            return
        ph = rad(phi)
        if not ctx.check(ph.shape == lon.shape, f"{what}: shape", got=ph.shape, want=lon.shape):
            return
        ctx.check(((ph >= 0) & (ph <= 2 * math.pi + 1e-9)).all(), f"{what}: angle not in 0 to 360 deg", got=phi)
        p, e, n = frame(plon, plat)
        v = gen.unit_vectors(lon, lat)
        # phi grows against east of north
        got = np.cos(sep)[..., None] * p + np.sin(sep)[..., None] * (np.cos(ph)[..., None] * n - np.sin(ph)[..., None] * e)
        ctx.close(got, v, f"{what}: direction in the field of view", rtol=0, atol=tol,
                  lon=lon, lat=lat, pointing_lon=plon, pointing_lat=plat, phi=ph)
    if (sep > 1e-6).any():
        ctx.nontrivial(lon, lat, plon, plat)


F01 = Prop(
    "F01",
    "Field of view coordinates describe the true direction on the sky",
    "For every sky position and pointing, the field of view longitude and latitude are those of a sphere rotated so that the pointing position is the origin, latitude grows to the north and "
    "longitude against growing sky longitude; and the polar coordinates are the angular separation from the pointing position (0 to 180 deg) and the "
    "angle from north against the direction of growing sky longitude (0 to 360 deg). Both hold across the azimuth wrap, at the poles, for separations of any "
    "size and all angular units, so both pairs of coordinates describe the same direction.",
    ["inputs"],
    "all positions and pointings on the sphere, wraps at 0 / 360 deg and negative azimuths, poles, tiny and large separations, any units",
    "Tests check a handful of fixed positions.",
    ["pyirf/coordinates.py"],
    [("gadf_fov_coords_lon_lat", "pyirf/coordinates.py"), ("gadf_fov_coords_theta_phi", "pyirf/coordinates.py")],
    "a case is a set of random directions and pointings, judged by 3d vectors; non-trivial if a direction differs from the pointing",
    "directions are compared with 2e-11 rad (3e-6 rad for single precision input)",
    observe_at=["pyirf.coordinates"],
)


@F01.monitor("pyirf.coordinates:gadf_fov_coords_lon_lat")
def _post_lonlat(ctx, call):
    if call.error is None:
        a = call.bind("lon", "lat", "pointing_lon", "pointing_lat")
        judge_lonlat(ctx, call.result, a["lon"], a["lat"], a["pointing_lon"], a["pointing_lat"], "fov lon / lat")


@F01.monitor("pyirf.coordinates:gadf_fov_coords_theta_phi")
def _post_polar(ctx, call):
    if call.error is None:
        a = call.bind("lon", "lat", "pointing_lon", "pointing_lat")
        judge_polar(ctx, *call.result, a["lon"], a["lat"], a["pointing_lon"], a["pointing_lat"], "fov theta / phi")


def directions(rng, n):
    """Pointing and sky positions in deg"""
    kind = gen.pick(rng, "near", "near", "any", "pole", "wrap", "tiny", "axis", "tracking")
    paz, palt = gen.sphere(rng, n, 89.0)
    if kind == "tracking" and n:
        jitter = 10 ** rng.uniform(-5, -1)
        paz, palt = paz[0] + rng.uniform(-jitter, jitter, n), palt[0] + rng.uniform(-jitter, jitter, n)
    if kind == "pole":
        palt = rng.choice([90.0, -90.0, 89.9999, 89.5], n)
    if kind == "wrap":
        paz = rng.choice([0.0, 360.0, 359.9999, 1e-4, 180.0], n)
    if kind == "any":
        az, alt = gen.sphere(rng, n, 89.9)
    else:
        sep = rng.uniform(0, 10, n) if not gen.chance(rng, 0.15) else rng.uniform(0, 179.9, n)
        if kind == "tiny":
            sep = 10 ** rng.uniform(-9, -2, n)
        if gen.chance(rng, 0.2) and n:
            sep[rng.random(n) < 0.3] = 0
        pa = rng.choice([0.0, 90.0, 180.0, 270.0], n) if kind == "axis" else rng.uniform(0, 360, n)
        az, alt = gen.offset_direction(paz, palt, sep, pa)
        if (sep == 0).any():
            az, alt = np.where(sep == 0, paz, az), np.where(sep == 0, palt, alt)
    if gen.chance(rng, 0.3):
        az = np.where(az > 180, az - 360, az)
    if gen.chance(rng, 0.2):
        paz = np.where(paz > 180, paz - 360, paz)
    return az, alt, paz, palt


def angles(rng, *xs):
    return [u.Quantity(x, DEG).to(gen.angle_unit(rng)) for x in xs]


@F01.family(130)
def coordinates(ctx):
    from pyirf.coordinates import gadf_fov_coords_lon_lat, gadf_fov_coords_theta_phi

    rng = ctx.rng
    n = gen.pick(rng, 1, 2, 5, 20) if not gen.chance(rng, 0.02) else int(rng.integers(300, 3000))
    az, alt, paz, palt = directions(rng, n)
    if gen.chance(rng, 0.2):
        az, alt, paz, palt = az[0], alt[0], paz[0], palt[0]
    elif gen.chance(rng, 0.25):
        paz, palt = paz[0], palt[0]
    elif n % 2 == 0 and gen.chance(rng, 0.3):  # grids of directions
        shape = gen.pick(rng, (2, -1), (-1, 2), (-1, 1), (1, -1, 2))
        az, alt, paz, palt = (x.reshape(shape) for x in (az, alt, paz, palt))
        if gen.chance(rng, 0.4):
            paz, palt = paz[:1], palt[:1]
        elif gen.chance(rng, 0.3):
            az, alt = az[..., :1], alt[..., :1]
    args = angles(rng, az, alt, paz, palt)
    before = [a.copy() for a in args]
    lon, lat = ctx.call(gadf_fov_coords_lon_lat, *args)
    theta, phi = ctx.call(gadf_fov_coords_theta_phi, *args)
    ctx.check(all(np.array_equal(a.value, b.value) and a.unit == b.unit for a, b in zip(args, before)), "input was modified")
    # both describe the same direction
    l, b, t, p = rad(lon), rad(lat), rad(theta), rad(phi)
    v1 = gen.unit_vectors(l, b)
    v2 = np.stack([np.cos(t), np.sin(t) * np.sin(p), np.sin(t) * np.cos(p)], axis=-1)
    ctx.close(v1, v2, "polar and lon / lat coordinates differ", rtol=0, atol=5e-11)
    if gen.chance(rng, 0.5):  # a rotation in azimuth changes nothing
        shift = rng.uniform(-360, 360)
        args2 = angles(rng, az + shift, alt, paz + shift, palt)
        ctx.call(gadf_fov_coords_lon_lat, *args2)
        t2, _ = ctx.call(gadf_fov_coords_theta_phi, *args2)
        ctx.close(rad(t2), t, "separation depends on the azimuth", rtol=1e-6, atol=1e-10)


# ---------------------------------------------------------------------------

F02 = Prop(
    "F02",
    "Event quantities derived from directions use the right pair of directions",
    "For every event, theta is the separation of the reconstructed direction from the assumed source position, the source offset, position angle and field of view lon / lat are those of the true (or "
    "reconstructed, if requested) direction relative to the pointing of this event, in deg. This holds for common or per event pointings and source positions in any mixture of angular units, and the event "
    "table is not modified.",
    ["inputs"],
    "all event tables with directions anywhere on the sky, true and reconstructed, any units, empty tables",
    "Tests check two events at fixed positions.",
    ["pyirf/utils.py", "pyirf/coordinates.py"],
    [("calculate_theta", "pyirf/utils.py"), ("calculate_source_fov_offset", "pyirf/utils.py"),
     ("calculate_source_fov_position_angle", "pyirf/utils.py"), ("calculate_source_fov_lonlat", "pyirf/utils.py")],
    "a case is a random event table judged by 3d vectors; non-trivial if a direction differs from the reference",
    "directions are compared with 2e-11 rad (3e-6 rad for single precision input)",
    observe_at=["pyirf.utils"],
)


@F02.monitor("pyirf.utils:calculate_theta")
def _post_theta(ctx, call):
    if call.error is None:
        a = call.bind("events", "assumed_source_az", "assumed_source_alt")
        ev = a["events"]
        judge_polar(ctx, call.result, None, ev["reco_az"], ev["reco_alt"], a["assumed_source_az"], a["assumed_source_alt"], "theta")


@F02.monitor("pyirf.utils:calculate_source_fov_offset", "pyirf.utils:calculate_source_fov_position_angle",
             "pyirf.utils:calculate_source_fov_lonlat")
def _post_source(ctx, call):
    if call.error is not None:
        return
    a = call.bind("events", prefix="true")
    ev, p = a["events"], a["prefix"]
    args = ev[f"{p}_az"], ev[f"{p}_alt"], ev["pointing_az"], ev["pointing_alt"]
    if call.target.endswith("offset"):
        judge_polar(ctx, call.result, None, *args, "source offset")
    elif call.target.endswith("position_angle"):
        judge_polar(ctx, None, call.result, *args, "source position angle")
    else:
        judge_lonlat(ctx, call.result, *args, "source lon / lat")
        ctx.check(all(x.unit == DEG for x in call.result), "source lon / lat are not in deg")


@F02.family(110)
def derived(ctx):
    import pyirf.utils as utils

    rng = ctx.rng
    n = gen.pick(rng, 0, 1, 2, 10, 40)
    if gen.chance(rng, 0.02):
        n = int(10 ** rng.uniform(2, 4.7))
    az, alt, paz, palt = directions(rng, n)
    raz, ralt, _, _ = directions(rng, n)
    if gen.chance(rng, 0.7):
        raz, ralt = gen.offset_direction(az, alt, rng.uniform(0, gen.pick(rng, 2, 2, 180), n), rng.uniform(0, 360, n))
    t = QTable()
    t["true_az"], t["true_alt"], t["reco_az"], t["reco_alt"], t["pointing_az"], t["pointing_alt"] = angles(rng, az, alt, raz, ralt, paz, palt)
    if gen.chance(rng, 0.1):  # stored as integers
        for c in t.colnames:
            if gen.chance(rng, 0.6):
                t[c] = u.Quantity(np.round(t[c].to_value(DEG)), DEG, dtype=np.int64)
    before = t.copy()
    if gen.chance(rng, 0.5):
        src = angles(rng, rng.uniform(-180, 360), rng.uniform(-90, 90))
    else:
        src = [t["true_az"], t["true_alt"]]
    ctx.call(utils.calculate_theta, t, *src)
    kw = gen.pick(rng, {}, {"prefix": "true"}, {"prefix": "reco"})
    for f in (utils.calculate_source_fov_offset, utils.calculate_source_fov_position_angle, utils.calculate_source_fov_lonlat):
        ctx.call(f, t, **kw)
    ctx.check(t.colnames == before.colnames and all(np.array_equal(t[c].value, before[c].value) for c in t.colnames), "event table was modified")


# ---------------------------------------------------------------------------

F03 = Prop(
    "F03",
    "Solid angles of cones and rectangles are exact parts of the sphere",
    "The solid angle of a cone with any opening angle is the area of the spherical cap of this radius (0 for 0 deg, half a sphere for 90 deg, the full "
    "sphere for 180 deg, growing with the angle), and that of a lon / lat rectangle is the area between its meridians and parallels. Rectangles that tile "
    "a larger one add up to it, angles may have any unit, arrays are handled elementwise with broadcasting, and the result is a solid angle.",
    ["inputs"],
    "all opening angles from 0 to 180 deg and all rectangles, scalars or arrays, in any angular unit",
    "Tests check three angles.",
    ["pyirf/utils.py"],
    [("cone_solid_angle", "pyirf/utils.py"), ("rectangle_solid_angle", "pyirf/utils.py")],
    "a case is a set of random angles; non-trivial if a solid angle is larger than zero",
    "absolute tolerance of 5e-15 sr for the cancellation at small angles",
    observe_at=["pyirf.utils"],
)


@F03.monitor("pyirf.utils:cone_solid_angle")
def _post_cone(ctx, call):
    if call.error is not None:
        return
    a = rad(call.bind("angle")["angle"])
    r = call.result
    if not ctx.check(r.unit.is_equivalent(u.sr), "not a solid angle"):
        return
    ctx.close(r.to_value(u.sr), 4 * math.pi * np.sin(a / 2) ** 2, "solid angle of a cone", rtol=1e-12, atol=5e-15, angle=a)
    if (a > 0).any():
        ctx.nontrivial(a)


@F03.monitor("pyirf.utils:rectangle_solid_angle")
def _post_rect(ctx, call):
    if call.error is not None:
        return
    a = call.bind("lon_low", "lon_high", "lat_low", "lat_high")
    l0, l1, b0, b1 = (rad(a[k]) for k in ("lon_low", "lon_high", "lat_low", "lat_high"))
    r = call.result
    if not ctx.check(r.unit.is_equivalent(u.sr), "not a solid angle"):
        return
    want = (l1 - l0) * 2 * np.cos((b1 + b0) / 2) * np.sin((b1 - b0) / 2)
    ctx.close(r.to_value(u.sr), want, "solid angle of a rectangle", rtol=1e-11, atol=5e-15, lon=(l0, l1), lat=(b0, b1))
    ctx.nontrivial(l0, l1, b0, b1)


@F03.family(400)
def solid_angles(ctx):
    from astropy.coordinates import Angle
    from pyirf.utils import cone_solid_angle, rectangle_solid_angle

    rng = ctx.rng
    x = np.sort(rng.uniform(0, 180, int(rng.integers(1, 8) if not gen.chance(rng, 0.05) else rng.integers(8, 500))))
    if gen.chance(rng, 0.3):
        x = 10 ** np.sort(rng.uniform(-6, 1, 4))
    if gen.chance(rng, 0.3):
        x = np.array([0.0, 90.0, 180.0])
    a = u.Quantity(x, DEG).to(gen.angle_unit(rng))
    kind = gen.pick(rng, "array", "scalar", "angle", "2d")
    if kind == "angle":
        a = Angle(a)
    elif kind == "scalar":
        a = a[0]
    elif kind == "2d" and len(x) % 2 == 0:
        a = a.reshape(2, -1)
    r = ctx.call(cone_solid_angle, a)
    if kind != "scalar":
        ctx.check((np.diff(r.to_value(u.sr).ravel()) >= 0).all(), "solid angle does not grow with the angle")

    big = gen.chance(rng, 0.05)
    lon = gen.sym_edges(rng, half=gen.pick(rng, 2.0, 30.0, 180.0), n=int(rng.integers(5, 100)) if big else None)
    lat = u.Quantity(gen.increasing(rng, gen.pick(rng, 2, 3, 5) if not big else int(rng.integers(5, 100)), rng.uniform(-90, 0), rng.uniform(1, 90)), DEG).to(gen.angle_unit(rng))
    if gen.chance(rng, 0.3):
        lon, lat = u.Quantity([-180, 0, 180], DEG), u.Quantity([-90, -10, 90], DEG)
    tiles = ctx.call(rectangle_solid_angle, lon[:-1, None], lon[1:, None], lat[:-1], lat[1:])
    whole = ctx.call(rectangle_solid_angle, lon[0], lon[-1], lat[0], lat[-1])
    if ctx.check(tiles.shape == (len(lon) - 1, len(lat) - 1), "no broadcasting", got=tiles.shape):
        ctx.close(tiles.sum().to_value(u.sr), whole.to_value(u.sr), "tiles do not add up", rtol=1e-11, atol=5e-15)


# ---------------------------------------------------------------------------

T01 = Prop(
    "T01",
    "Table checks reject exactly the incomplete or inconsistent tables",
    "Checking a table raises the error for missing columns exactly if a required column, or a column with a required unit, is missing; the error for wrong units exactly if all columns are there but a unit "
    "is not convertible to the required one (convertible but different units pass); and checking two histograms raises exactly if the lower edges, upper "
    "edges or centers of any bin differ. The scalar test is true exactly for values without dimensions, with or without units, and no check modifies its arguments.",
    ["inputs"],
    "all tables, sets of required columns and units, pairs of histograms differing anywhere or in number of bins, all values",
    "Tests check one missing column and one wrong unit.",
    ["pyirf/utils.py", "pyirf/exceptions.py"],
    [("check_table", "pyirf/utils.py"), ("check_histograms", "pyirf/utils.py"), ("is_scalar", "pyirf/utils.py")],
    "a case is a random table with requirements and a random pair of histograms; non-trivial always, counted by content",
    "histograms are compared in the same unit",
    observe_at=["pyirf.utils"],
)


@T01.monitor("pyirf.utils:check_table")
def _post_check_table(ctx, call):
    from pyirf.exceptions import MissingColumns, WrongColumnUnit

    a = call.bind("table", required_columns=None, required_units=None)
    if hasattr(a["required_columns"], "__next__"):
        return  # used up, judged by the workload
    t, cols, units = a["table"], a["required_columns"], a["required_units"] or {}
    missing = [c for c in ([] if cols is None else list(cols)) + list(units) if c not in t.colnames]
    wrong = []
    for c, want in units.items():
        if c in t.colnames:
            have = getattr(t[c], "unit", None)
            if have is None and want.is_equivalent(u.one):
                return  # no unit may count as dimensionless
            if have is None or not have.is_equivalent(want):
                wrong.append(c)
    e = call.error
    if missing and wrong:
        ctx.check(isinstance(e, (MissingColumns, WrongColumnUnit)), "missing columns and wrong unit accepted", error=e)
    elif missing:
        ctx.check(isinstance(e, MissingColumns), "missing columns accepted", error=e, missing=missing)
    elif wrong:
        ctx.check(isinstance(e, WrongColumnUnit), "wrong units accepted", error=e, wrong=wrong)
    else:
        ctx.check(e is None, "complete table was rejected", error=e, columns=t.colnames, required=(cols, units))


UNITS = (u.TeV, u.GeV, u.deg, u.rad, u.m, u.cm, u.s, u.hour, u.one, u.Unit("1/(TeV s)"))


@T01.family(200)
def tables(ctx):
    from pyirf.exceptions import MissingColumns, WrongColumnUnit
    from pyirf.utils import check_table

    rng = ctx.rng
    names = ["a", "b", "energy", "theta", "weight"]
    if gen.chance(rng, 0.2):
        names = gen.pick(rng, ["a", "A", "energy", "ENERGY", "Energy"], ["reco_energy", "reco energy", "energy", "reco_energy_low", "reco"], ["true_energy", "trueenergy", " true_energy", "e", "é"])
    t = gen.pick(rng, QTable, QTable, Table)()
    n = gen.pick(rng, 0, 1, 3)
    for c in names:
        if gen.chance(rng, 0.85):
            unit = gen.pick(rng, *UNITS)
            t[c] = np.zeros(n) if gen.chance(rng, 0.15) else u.Quantity(np.zeros(n), unit)
    kw = {}
    if gen.chance(rng, 0.8):
        req = [c for c in names if gen.chance(rng, 0.4)]
        kw["required_columns"] = gen.pick(rng, list, set, tuple)(req)
    if gen.chance(rng, 0.8):
        req = {}
        for c in names:
            if gen.chance(rng, 0.4):
                have = t[c].unit if c in t.colnames else None
                req[c] = gen.pick(rng, *UNITS) if have is None or gen.chance(rng, 0.2) else gen.pick(
                    rng, *[x for x in UNITS if x.is_equivalent(have)])
        kw["required_units"] = req
    before = {k: (dict(v) if isinstance(v, dict) else type(v)(v)) for k, v in kw.items()}
    cols = list(t.colnames)
    try:
        check_table(t, **kw)
    except (MissingColumns, WrongColumnUnit):
        pass
    ctx.check(kw == before and cols == list(t.colnames), "arguments were modified")
    if gen.chance(rng, 0.2):
        req = [c for c in names if gen.chance(rng, 0.4)]
        missing = [c for c in req if c not in cols]
        kind = gen.pick(rng, iter, lambda x: (c for c in x), lambda x: dict.fromkeys(x).keys(), np.array, frozenset)
        if missing:
            ctx.raises(MissingColumns, check_table, t, required_columns=kind(req), message="missing columns")
        else:
            ctx.call(check_table, t, required_columns=kind(req))
    ctx.nontrivial(cols, [str(getattr(t[c], "unit", "")) for c in cols], repr(sorted(map(str, kw.get("required_columns", ())))), repr(kw.get("required_units")))


@T01.monitor("pyirf.utils:check_histograms")
def _post_check_hist(ctx, call):
    a = call.bind("hist1", "hist2", key="reco_energy")
    h1, h2, key = a["hist1"], a["hist2"], a["key"]
    same = len(h1) == len(h2)
    for s in ("low", "high", "center"):
        x, y = h1[f"{key}_{s}"], h2[f"{key}_{s}"]
        if getattr(x, "unit", None) != getattr(y, "unit", None):
            if len(x) == len(y):
                a, b = (u.Quantity(z).to_value(u.Quantity(x).unit) for z in (x, y))
                c = u.Quantity(x).to_value(u.Quantity(y).unit)
                exact = np.array_equal(a, b) and np.array_equal(c, u.Quantity(y).value)
                if not exact and np.allclose(a, b, rtol=1e-6, atol=0):
                    return ctx.skip("equal up to rounding")
                same = same and exact
            continue
        x, y = (np.asarray(getattr(z, "value", z)) for z in (x, y))
        same = same and np.array_equal(x, y)
    if same:
        ctx.check(call.error is None, "equal histograms were rejected", error=call.error)
    else:
        ctx.check(isinstance(call.error, ValueError), "different histograms were accepted", error=call.error, hist1=h1, hist2=h2)


@T01.family(200)
def histograms(ctx):
    from pyirf.binning import create_histogram_table
    from pyirf.utils import check_histograms

    rng = ctx.rng
    key = gen.pick(rng, "reco_energy", "true_energy")
    e = gen.energy_edges(rng, n=int(rng.integers(10, 150)) if gen.chance(rng, 0.15) else None, overflow=gen.chance(rng, 0.1))
    ev = gen.events(rng, n=5, e_edges=e)
    h1 = create_histogram_table(ev, e, key)
    kind = gen.pick(rng, "same", "edge", "less", "column", "one", "unit")
    e2 = e.copy()
    if kind == "edge":
        i = int(rng.integers(len(e)))
        e2[i] = e2[i] * gen.pick(rng, 1 + 1e-12, 1.0001, 1 - 1e-9)
    elif kind == "less" and len(e) > 2:
        e2 = e2[:-1] if gen.chance(rng, 0.5) else e2[1:]
    elif kind == "one" and len(e) > 2:
        e2 = e2[:2]
    h2 = create_histogram_table(ev[:3], e2, key)
    if kind == "column":
        c = f"{key}_{gen.pick(rng, 'low', 'high', 'center')}"
        x = h2[c].copy()
        x[int(rng.integers(len(x)))] *= 1.001
        h2[c] = x
    if kind == "unit":
        if gen.chance(rng, 0.5):  # the same numbers
            for s in ("low", "high", "center"):
                h2[f"{key}_{s}"] = u.Quantity(h2[f"{key}_{s}"].value, gen.pick(rng, *[x for x in (TEV, u.GeV, u.MeV) if x != e.unit]))
        else:  # the same energies
            for h, unit, f in ((h1, TEV, 1.0), (h2, u.GeV, 1000.0)):
                x = np.arange(1.0, len(e) + 1)
                for s, v in (("low", x[:-1]), ("high", x[1:]), ("center", 0.5 * (x[1:] + x[:-1]))):
                    h[f"{key}_{s}"] = u.Quantity(v * f, unit)
    args = (h1, h2) if gen.chance(rng, 0.5) else (h2, h1)
    kw = {} if key == "reco_energy" and gen.chance(rng, 0.5) else {"key": key}
    try:
        check_histograms(*args, **kw)
    except ValueError:
        pass
    ctx.nontrivial(kind, e.value, h2[f"{key}_low"].value, key)


@T01.family(100)
def scalars(ctx):
    from pyirf.utils import is_scalar

    rng = ctx.rng
    unit = gen.pick(rng, *UNITS)
    x = rng.normal()
    cases = [(x, True), (int(x), True), (u.Quantity(x, unit), True), (np.float32(x), True), (np.array(x), True), ("abc", True),
             ([x], False), ((x, x), False), (np.array([x]), False), (u.Quantity([x], unit), False), (np.zeros((1, 1)), False),
             (u.Quantity([[x, x]], unit), False), ([], False), (np.zeros(0), False), (True, True), (None, True)]
    v, want = cases[ctx.index % len(cases)]
    ctx.check(bool(ctx.call(is_scalar, v)) is want, "scalar test is wrong", value=v)
    ctx.nontrivial(ctx.index % len(cases), x)


pipeline.attach(F01, "load")
pipeline.attach(F02, "load")
pipeline.attach(F03, "sensitivity", "responses")
pipeline.attach(T01, "sensitivity", "responses")
