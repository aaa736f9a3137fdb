"""Exchange formats: GADF HDUs, eventdisplay files, gammapy objects"""
import io
import os
import tempfile

import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.table import QTable

from ..core import Call, Prop
from .. import gen, pipeline

TEV, DEG = u.TeV, u.deg
RATE = u.Unit("MeV-1 s-1 sr-1")

#: name: (function, data column, unit, classes, [(argument, columns, unit)...] in order of the array axes)
ENERG_T, THETA = ("true_energy_bins", "ENERG", TEV), ("fov_offset_bins", "THETA", DEG)
ENERG_R = ("reco_energy_bins", "ENERG", TEV)
FORMATS = {
    "create_aeff2d_hdu": ("EFFAREA", u.m ** 2, ("EFF_AREA", None, "AEFF_2D"), [ENERG_T, THETA], ["true_energy_bins", "fov_offset_bins"],
                          "effective_area", "EFFECTIVE AREA"),
    "create_psf_table_hdu": ("RPSF", u.sr ** -1, ("PSF", "FULL-ENCLOSURE", "PSF_TABLE"),
                             [ENERG_T, THETA, ("source_offset_bins", "RAD", DEG)],
                             ["true_energy_bins", "source_offset_bins", "fov_offset_bins"], "psf", "PSF"),
    "create_energy_dispersion_hdu": ("MATRIX", u.one, ("EDISP", None, "EDISP_2D"), [ENERG_T, ("migration_bins", "MIGRA", u.one), THETA],
                                     ["true_energy_bins", "migration_bins", "fov_offset_bins"], "energy_dispersion", "EDISP"),
    "create_background_2d_hdu": ("BKG", RATE, ("BKG", "FULL-ENCLOSURE", "BKG_2D"), [ENERG_R, THETA],
                                 ["reco_energy_bins", "fov_offset_bins"], "background_2d", "BACKGROUND"),
    "create_background_3d_hdu": ("BKG", RATE, ("BKG", "FULL-ENCLOSURE", "BKG_3D"),
                                 [ENERG_R, ("fov_lon_bins", "DETX", DEG), ("fov_lat_bins", "DETY", DEG)],
                                 ["reco_energy_bins", "fov_lon_bins", "fov_lat_bins"], "background_3d", "BACKGROUND"),
    "create_rad_max_hdu": ("RAD_MAX", DEG, ("RAD_MAX", "POINT-LIKE", "RAD_MAX_2D"), [ENERG_R, THETA],
                           ["reco_energy_bins", "fov_offset_bins"], "rad_max", "RAD_MAX"),
}
TARGETS = [f"pyirf.io.gadf:{name}" for name in FORMATS]


def value(x, unit):
    return np.asarray(u.Quantity(x).to_value(unit))


def arguments(call):
    """Arguments of a call of one of the create functions by name"""
    name = call.target.split(":")[1]
    col, unit, classes, axes, order, data, extname = FORMATS[name]
    names = [data] + order
    if classes[2] in ("AEFF_2D",):
        a = call.bind(*names, extname=extname, point_like=True)
    elif classes[2] in ("EDISP_2D", "RAD_MAX_2D"):
        a = call.bind(*names, point_like=True, extname=extname)
    elif classes[2] == "BKG_3D":
        a = call.bind(*names, alignment="ALTAZ", extname=extname)
    else:
        a = call.bind(*names, extname=extname)
    return name, a


def read_back(hdu):
    """Write to a FITS file and read it again"""
    buffer = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(buffer)
    buffer.seek(0)
    with fits.open(buffer) as hdus:
        header = hdus[1].header.copy()
        table = QTable.read(hdus[1])
        raw = {c.name: hdus[1].data[c.name].copy() for c in hdus[1].columns}
        units = {c.name: c.unit for c in hdus[1].columns}
    return header, table, raw, units


def judge_data(ctx, name, a, table, raw, units):
    col, unit, classes, axes, order, data, _ = FORMATS[name]
    want_cols = [f"{c}_{s}" for _, c, _ in axes for s in ("LO", "HI")] + [col]
    if not ctx.check(sorted(table.colnames) == sorted(want_cols), "columns of the table", got=table.colnames, want=want_cols):
        return False
    if not ctx.check(len(table) == 1, "not exactly one row", got=len(table)):
        return False
    rtol = 3e-7 if any(getattr(u.Quantity(x), "dtype", None) == np.float32 for x in [a[data]] + [a[k] for k, _, _ in axes]) else 1e-12
    for arg, c, aunit in axes:
        e = value(a[arg], aunit)
        for s, w in (("LO", e[:-1]), ("HI", e[1:])):
            ctx.check(u.Unit(units[f"{c}_{s}"] or "") == aunit, f"{c}_{s}: unit in the file", got=units[f"{c}_{s}"], want=aunit)
            ctx.close(raw[f"{c}_{s}"][0], w, f"{c}_{s}: edges in the file", rtol=rtol)
    d = value(a[data], unit)
    ctx.check(u.Unit(units[col] or "") == unit, f"{col}: unit in the file", got=units[col], want=unit)
    # last axis of the data is the first one of the array, as in fortran
    ctx.close(raw[col][0], np.transpose(d), f"{col}: values in the file", rtol=rtol)
    return True


T02 = Prop(
    "T02",
    "GADF files read back to exactly the instrument response that was written",
    "For every kind of instrument response (effective area, PSF, energy dispersion, background 2d and 3d, directional cut), writing the created HDU to a FITS file and reading it back gives one row with "
    "the lower and upper edges of every axis and all values, each in the unit of the format specification whatever unit was given, with the array axes in the order of the specification. "
    "Special values (zero, nan, inf) survive, the inputs are not modified, and values or edges in units that are not convertible are rejected.",
    ["inputs"],
    "all response arrays of any shape (also single bins), bins of any number and width, any convertible units, single and double precision",
    "Tests write one constant or symmetric array per kind, for which the order of axes does not matter.",
    ["pyirf/io/gadf.py", "pyirf/binning.py"],
    [(n, "pyirf/io/gadf.py") for n in FORMATS] + [("split_bin_lo_hi", "pyirf/binning.py")],
    "a case is a random response array with different numbers of bins per axis, written and read; non-trivial if the array is not constant",
    "agreement to 1e-12 (unit conversion); column order and additional header cards are free",
    observe_at=["pyirf.io", "FITS file"],
)


@T02.monitor(*TARGETS)
def _post_data(ctx, call):
    if call.error is not None:
        return
    name, a = arguments(call)
    header, table, raw, units = read_back(call.result)
    if judge_data(ctx, name, a, table, raw, units):
        d = value(a[FORMATS[name][5]], FORMATS[name][1])
        if len(np.unique(d)) > 1:
            ctx.nontrivial(name, d)


def response(rng, name):
    """Random arguments for one create function"""
    col, unit, classes, axes, order, data, _ = FORMATS[name]
    args = {}
    shape = []
    big = gen.pick(rng, *axes)[0] if gen.chance(rng, 0.05) else None
    for arg, c, aunit in axes:
        n = gen.AXIS or gen.pick(rng, 1, 1, 2, 3, 4, 5, 7)
        if arg == big:
            n = int(rng.integers(8, 120))
        shape.append(n)
        if c == "ENERG":
            args[arg] = gen.energy_edges(rng, n=n)
        elif c == "MIGRA":
            args[arg] = gen.increasing(rng, n + 1, 0.2, 5.0, log=gen.chance(rng, 0.5))
        elif c in ("DETX", "DETY"):
            args[arg] = gen.sym_edges(rng, n=n)
        else:
            args[arg] = gen.angle_edges(rng, n=n)
    x = rng.random(shape) * 10 ** rng.uniform(-5, 5)
    if gen.chance(rng, 0.4):
        x[rng.random(shape) < 0.3] = 0
    if gen.chance(rng, 0.2):
        x[rng.random(shape) < 0.2] = gen.pick(rng, np.nan, np.inf)
    alt = {u.m ** 2: ["m2", "cm2", "km2"], u.sr ** -1: ["1/sr", "1/deg2"], u.one: [""],
           RATE: ["1/(MeV s sr)", "1/(TeV s sr)", "1/(GeV h deg2)"], DEG: ["deg", "rad", "arcmin"]}[unit]
    x = u.Quantity(x, u.Unit(gen.pick(rng, *alt)))
    kind = gen.pick(rng, "c", "c", "f", "strided", "float32")
    if kind == "f":
        x = u.Quantity(np.asfortranarray(x.value), x.unit, copy=False)
    elif kind == "strided":
        x = u.Quantity(np.repeat(x.value, 2, axis=0), x.unit)[::2]
    elif kind == "float32":
        x = gen.f32(x)
    if unit == u.one and gen.chance(rng, 0.7):
        x = x.value
    args[data] = x
    pos = [args[data]] + [args[k] for k in order]
    if gen.chance(rng, 0.4):
        return (), args
    return tuple(pos), {}


def create(ctx, name, *args, **kwargs):
    import pyirf.io as pio

    return ctx.call(getattr(pio, name), *args, **kwargs)


@T02.family(200)
def write(ctx):
    rng = ctx.rng
    name = list(FORMATS)[ctx.index % len(FORMATS)]
    args, kw = response(rng, name)
    before = [(x, np.array(getattr(x, "value", x))) for x in list(args) + list(kw.values())]
    create(ctx, name, *args, **kw)
    ctx.check(all(np.array_equal(np.asarray(getattr(x, "value", x)), y, equal_nan=True) for x, y in before), "input was modified")


@T02.family(60)
def units(ctx):
    import pyirf.io as pio

    rng = ctx.rng
    name = list(FORMATS)[ctx.index % len(FORMATS)]
    args, kw = response(rng, name)
    col, unit, classes, axes, order, data, _ = FORMATS[name]
    if args:
        kw = dict(zip([data] + order, args))
    bad = gen.pick(rng, data, *[k for k, c, _ in axes])
    kw[bad] = u.Quantity(getattr(kw[bad], "value", kw[bad]), u.kg)
    f = getattr(pio, name)
    if bad == "migration_bins":
        return
    ctx.raises((u.UnitsError, TypeError, ValueError), f, **kw, message=f"{bad} in kg")
    ctx.nontrivial(name, bad, np.asarray(getattr(kw[bad], "value", 0)))


# ---------------------------------------------------------------------------

T03 = Prop(
    "T03",
    "GADF headers identify the response and stay independent of each other",
    "The header of every created HDU has the classes of the format for its kind of response (including point-like or full-enclosure as requested where the format has the choice, and the alignment of the field of view for 3d backgrounds), "
    "the extension name asked for, the creator, and a column reference that belongs to the data column and lists its axes in the order of the data. Additional header cards of the caller appear in this HDU with their "
    "values and in no other one, in any sequence of creations, and unknown alignments are rejected.",
    ["inputs", "histories"],
    "all kinds of responses, options, extension names and header cards, in any order of creation, also several in one file",
    "Tests check two keywords for one creation each, so shared header state is not observed.",
    ["pyirf/io/gadf.py"],
    [(n, "pyirf/io/gadf.py") for n in FORMATS] + [("DEFAULT_HEADER", "pyirf/io/gadf.py"), ("_add_header_cards", "pyirf/io/gadf.py")],
    "a case is a history of several creations with different options, written to one file; counted by the sequence of kinds and options",
    "header cards use keywords the format leaves free, and the date",
    observe_at=["pyirf.io", "FITS file"],
)


@T03.monitor(*TARGETS, required=True)
def _post_header(ctx, call):
    name, a = arguments(call)
    col, unit, classes, axes, order, data, _ = FORMATS[name]
    if classes[2] == "BKG_3D" and a["alignment"] not in ("ALTAZ", "RADEC"):
        ctx.check(isinstance(call.error, ValueError), "unknown alignment accepted", error=call.error)
        return
    if call.error is not None:
        return
    header, table, raw, units = read_back(call.result)
    judge_header(ctx, name, a, header)


CARDS = {"TELESCOP": "CTA-N", "INSTRUME": "LST-1", "MYCARD": 1.5, "OBSERVER": "me", "AZ_PNT": 180.0, "LO_THRES": 0.03, "NIGHT": 3,
         "ORIGIN": "IAC", "DATE": "2020-02-29 12:00:00.000", "OBSERVATORY_NAME": "CTAO", "OBSERVATORY_SITE": "La Palma"}


def judge_header(ctx, name, a, header):
    col, unit, classes, axes, order, data, _ = FORMATS[name]
    enclosure = classes[1] or ("POINT-LIKE" if a["point_like"] else "FULL-ENCLOSURE")
    want = {"HDUCLASS": "GADF", "HDUCLAS1": "RESPONSE", "HDUCLAS2": classes[0], "HDUCLAS3": enclosure, "HDUCLAS4": classes[2],
            "EXTNAME": a["extname"]}
    if classes[2] == "BKG_3D":
        want["FOVALIGN"] = a["alignment"]
    known = {data, "extname", "point_like", "alignment"} | {k for k, _, _ in axes}
    cards = {k: v for k, v in a.items() if k not in known}
    want.update(cards)
    for k, w in want.items():
        ctx.check(header.get(k) == w, f"{name}: keyword {k}", got=header.get(k), want=w)
    for k in CARDS:
        if k == "DATE":
            ctx.check(k in cards or header[k] != CARDS[k], f"{name}: keyword {k} of another creation", got=header[k])
        elif k not in cards:
            ctx.check(k not in header, f"{name}: keyword {k} of another creation", got=header.get(k))
    if classes[2] != "BKG_3D":
        ctx.check("FOVALIGN" not in header, f"{name}: alignment of another creation")
    ctx.check(str(header.get("CREATOR", "")).startswith("pyirf"), f"{name}: creator", got=header.get("CREATOR"))
    for k in ("HDUDOC", "HDUVERS", "DATE"):
        ctx.check(header.get(k), f"{name}: keyword {k} is missing")
    index = [i for i in range(1, header["TFIELDS"] + 1) if header[f"TTYPE{i}"] == col]
    refs = {k: v for k, v in header.items() if k.startswith("CREF")}
    text = "(" + ",".join(f"{c}_LO:{c}_HI" for _, c, _ in axes) + ")"
    ctx.check(len(index) == 1 and refs == {f"CREF{index[0]}": text}, f"{name}: column reference", got=refs, want=text)


@T03.family(60)
def history(ctx):
    import pyirf.io as pio
    from pyirf.io.gadf import DEFAULT_HEADER

    rng = ctx.rng
    default = DEFAULT_HEADER.copy()
    made = []
    for _ in range(int(rng.integers(2, 6))):
        name = gen.pick(rng, *FORMATS)
        args, kw = response(rng, name)
        opts = {}
        if FORMATS[name][2][2] in ("AEFF_2D", "EDISP_2D", "RAD_MAX_2D") and gen.chance(rng, 0.7):
            opts["point_like"] = gen.chance(rng, 0.5)
        if gen.chance(rng, 0.4):
            opts["extname"] = gen.pick(rng, "MY IRF", "IRF_1", "EFFECTIVE AREA_0")
        if FORMATS[name][2][2] == "BKG_3D" and gen.chance(rng, 0.7):
            opts["alignment"] = gen.pick(rng, "ALTAZ", "RADEC", "radec", "GALACTIC", "")
            if opts["alignment"] not in ("ALTAZ", "RADEC"):
                ctx.raises(ValueError, getattr(pio, name), *args, **kw, **opts, message="unknown alignment")
                continue
        for k, v in CARDS.items():
            if gen.chance(rng, 0.3):
                opts[k] = v if k == "DATE" or gen.chance(rng, 0.6) else gen.pick(rng, 0, 0.0, False, True, "", -3, 1e-12, "a / b")
        made.append((name, args, kw, opts, create(ctx, name, *args, **kw, **opts)))
    ctx.check(DEFAULT_HEADER == default and list(DEFAULT_HEADER.keys()) == list(default.keys()), "default header was modified",
              got=repr(DEFAULT_HEADER))
    if not made:
        return
    buffer = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU()] + [m[-1] for m in made]).writeto(buffer)
    buffer.seek(0)
    with fits.open(buffer) as hdus:
        for (name, args, kw, opts, _), hdu in zip(made, hdus[1:]):
            c = Call(f"pyirf.io.gadf:{name}", args, {**kw, **opts})
            judge_header(ctx, name, arguments(c)[1], hdu.header)
    ctx.nontrivial([(m[0], repr(sorted(m[3].items()))) for m in made])


# ---------------------------------------------------------------------------

T04 = Prop(
    "T04",
    "EventDisplay files are read completely and with the right simulation info",
    "Reading an EventDisplay DL2 file gives every event once, in order, with the values and units of the file under the column names of this package, and additional columns unchanged. "
    "The simulation info has the energy range, impact, viewcone and spectral index of the run header, and the number of showers is the sum of the "
    "histogram of simulated events or, if requested, the number of distinct combinations of run and pointing times the number of showers per run, without overflow.",
    ["inputs"],
    "all valid files (empty, one or many runs, several pointings per run, extra columns, large numbers of showers), both ways to count",
    "The tests have no file of this format.",
    ["pyirf/io/eventdisplay.py", "pyirf/simulations.py"],
    [("read_eventdisplay_fits", "pyirf/io/eventdisplay.py"), ("COLUMN_MAP", "pyirf/io/eventdisplay.py")],
    "a case is a random file, written in the scratch directory and read; non-trivial if it has events",
    "files follow the layout of the public converter",
    observe_at=["pyirf.io.read_eventdisplay_fits"],
)
COLUMNS = {
    "OBS_ID": "obs_id", "EVENT_ID": "event_id", "MC_ENERGY": "true_energy", "ENERGY": "reco_energy", "MC_ALT": "true_alt",
    "MC_AZ": "true_az", "PNT_ALT": "pointing_alt", "PNT_AZ": "pointing_az", "ALT": "reco_alt", "AZ": "reco_az",
    "GH_MVA": "gh_score", "MULTIP": "multiplicity",
}


@T04.monitor("pyirf.io.eventdisplay:read_eventdisplay_fits")
def _post_read(ctx, call):
    if call.error is not None:
        return
    a = call.bind("infile", use_histogram=True)
    with fits.open(a["infile"]) as hdus:
        d, cols = hdus["EVENTS"].data, hdus["EVENTS"].columns
        n_hist = sum(int(x) for x in np.ravel(hdus["SIMULATED EVENTS"].data["EVENTS"]))
        h = hdus["RUNHEADER"].data[0]
        raw = {c.name: np.array(d[c.name]) for c in cols}
        units = {c.name: c.unit for c in cols}
        run = {k: np.array(h[k]) for k in ("num_use", "num_showers", "E_range", "core_range", "spectral_index", "viewcone")}
    events, info = call.result
    want = sorted(COLUMNS.get(c, c) for c in raw)
    if not ctx.check(sorted(events.colnames) == want, "columns of the events", got=events.colnames, want=want):
        return
    for c, x in raw.items():
        col = events[COLUMNS.get(c, c)]
        unit = getattr(col, "unit", None)
        ctx.check((unit or u.one) == u.Unit(units[c] or ""), f"{c}: unit", got=unit, want=units[c])
        got = np.asarray(getattr(col, "value", col))
        ctx.check(got.shape == x.shape and np.array_equal(got, x, equal_nan=x.dtype.kind == "f"), f"{c}: values", got=got, want=x)
    combos = len(set(zip(raw["OBS_ID"].tolist(), raw["PNT_AZ"].tolist(), raw["PNT_ALT"].tolist())))
    n = n_hist if a["use_histogram"] else combos * int(run["num_use"]) * int(run["num_showers"])
    ctx.check(int(info.n_showers) == n, "number of showers", got=info.n_showers, want=n, use_histogram=a["use_histogram"])
    for k, unit, w in (("energy_min", TEV, run["E_range"][0]), ("energy_max", TEV, run["E_range"][1]), ("max_impact", u.m, run["core_range"][1]),
                       ("viewcone_min", DEG, run["viewcone"][0]), ("viewcone_max", DEG, run["viewcone"][1])):
        ctx.close(getattr(info, k).to_value(unit), float(w), k, rtol=1e-9)
    ctx.close(float(info.spectral_index), float(run["spectral_index"]), "spectral index", rtol=1e-9)
    if len(events):
        ctx.nontrivial(raw["MC_ENERGY"], raw["OBS_ID"], a["use_histogram"])


@T04.family(50)
def read(ctx):
    from pyirf.io import read_eventdisplay_fits

    rng = ctx.rng
    n = gen.pick(rng, 0, 1, 2, 10, 60)
    if gen.chance(rng, 0.03):
        n = int(10 ** rng.uniform(2, 4.9))
    n_runs = int(rng.integers(1, 6) if not gen.chance(rng, 0.03) else rng.integers(6, 400))
    obs = np.sort(rng.integers(1, n_runs + 1, n)).astype(np.int32)
    if gen.chance(rng, 0.3):
        rng.shuffle(obs)
    pnt = rng.choice([0.0, 180.0, 20.0], n_runs + 1), rng.choice([70.0, 50.0], n_runs + 1)
    if gen.chance(rng, 0.2):
        # one run with several pointings which differ in a single coordinate
        obs = np.full(n, 1, np.int32)
    if gen.chance(rng, 0.15):
        obs = obs + np.int32(gen.pick(rng, 100, 2 ** 24, 2 ** 30))
    ft = gen.pick(rng, np.float32, np.float64)
    t = QTable()
    t["OBS_ID"], t["EVENT_ID"] = obs, np.arange(n).astype(np.int64)
    if n and gen.chance(rng, 0.3):  # reused showers
        t["EVENT_ID"] = rng.integers(0, n, n)
    for c in ("MC_ENERGY", "ENERGY"):
        t[c] = u.Quantity((10 ** rng.uniform(-2, 2, n)).astype(ft), TEV, dtype=ft)
    if gen.chance(rng, 0.4) and n:
        # events which are not reconstructed
        for c, bad in (("ENERGY", (0.0, -99.0, np.nan, np.inf)), ("MC_ENERGY", (0.0,))):
            m = rng.random(n) < 0.2
            t[c][m] = u.Quantity(rng.choice(bad, int(m.sum())), TEV)
    for c in ("MC_ALT", "MC_AZ", "ALT", "AZ"):
        t[c] = u.Quantity(rng.uniform(0, 90, n).astype(ft), DEG, dtype=ft)
    az, alt = pnt[0][obs % 100 % (n_runs + 1)], pnt[1][obs % 100 % (n_runs + 1)]
    if gen.chance(rng, 0.3):
        az = rng.choice([0.0, 180.0], n)
    if gen.chance(rng, 0.3):
        alt = rng.choice([70.0, 69.5, 50.0], n)
    if n and gen.chance(rng, 0.2):
        # pointings that hardly differ
        eps = 10 ** rng.uniform(-6, -1)
        if gen.chance(rng, 0.5):
            az = az + rng.choice([0, eps], n)
        if gen.chance(rng, 0.5):
            alt = alt + rng.choice([0, eps], n)
    t["PNT_AZ"], t["PNT_ALT"] = u.Quantity(az, DEG), u.Quantity(alt, DEG)
    t["GH_MVA"], t["MULTIP"] = rng.normal(size=n).astype(ft), rng.integers(2, 10, n).astype(np.int16)
    # more columns than used here
    for c in ("SIM_WEIGHT", "MC_CORE_X", "MC_ENERGY_ERR", "XCORE", "ENERGY_ERR", "LIVETIME", "mc_type", "ALTERNATIVE", "PNT_RA"):
        if gen.chance(rng, 0.2):
            t[c] = rng.random(n) if gen.chance(rng, 0.5) else u.Quantity(rng.random(n), gen.pick(rng, u.m, DEG, TEV))
    t = t[list(rng.permutation(t.colnames))]
    sim = QTable()
    k = gen.pick(rng, 1, 5, 20)
    sim["MC_ENERG_LO"], sim["MC_ENERG_HI"] = np.arange(k) * 1.0, np.arange(k) + 1.0
    sim["EVENTS"] = gen.pick(rng, rng.integers(0, 1000, k), rng.integers(0, 2 ** 31 - 1, k).astype(np.int32), rng.integers(0, 10 ** 6, k).astype(np.float64))
    e0 = 10 ** rng.uniform(-3, 0)
    run = QTable()
    rows = gen.pick(rng, 1, 1, 3)
    it = gen.pick(rng, np.int32, np.int64)

    def cells(*x, dtype=float):
        out = np.array([x] * rows, dtype=dtype)
        out[1:] = out[1:] * 2
        return out

    run["num_use"] = cells(gen.pick(rng, 1, 10, 20), dtype=it)[:, 0]
    run["num_showers"] = cells(gen.pick(rng, 0, 1000, 20000, 10 ** 9), dtype=np.int64)[:, 0]
    if gen.chance(rng, 0.4):
        run["num_showers"] = np.minimum(run["num_showers"], 2 ** 31 - 1).astype(np.int32)
    run["E_range"] = cells(e0, e0 * 10 ** rng.uniform(1, 4))
    run["core_range"] = cells(0.0, rng.uniform(100, 3000))
    run["viewcone"] = cells(0.0, gen.pick(rng, 0.0, 10.0))
    run["spectral_index"] = cells(gen.pick(rng, -2.0, -1.5, -2.7))[:, 0]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "events.fits")
        hdus = [fits.table_to_hdu(x) for x in (t, sim, run)]
        for h, name in zip(hdus, ("EVENTS", "SIMULATED EVENTS", "RUNHEADER")):
            h.name = name
        order = rng.permutation(3)
        fits.HDUList([fits.PrimaryHDU()] + [hdus[i] for i in order]).writeto(path)
        ctx.call(read_eventdisplay_fits, path)
        ctx.call(read_eventdisplay_fits, path, use_histogram=False)
        if gen.chance(rng, 0.3):
            ctx.call(read_eventdisplay_fits, path, True)


# ---------------------------------------------------------------------------

T05 = Prop(
    "T05",
    "gammapy objects hold the same response as the arrays and the GADF files",
    "The gammapy effective area, PSF and energy dispersion made from arrays have exactly these values and units, on axes with the given edges in the order expected by gammapy, for all numbers of bins and units. "
    "A GADF HDU written from the same arrays and read by gammapy gives an object with the same axes and values, so both ways to gammapy are "
    "equivalent.",
    ["inputs"],
    "all response arrays of any shape, bins of any number and width, any convertible units",
    "Tests only build the objects, they check neither axes nor values.",
    ["pyirf/gammapy.py", "pyirf/io/gadf.py"],
    [("create_effective_area_table_2d", "pyirf/gammapy.py"), ("create_psf_3d", "pyirf/gammapy.py"), ("create_energy_dispersion_2d", "pyirf/gammapy.py")],
    "a case is a random response array converted in both ways; non-trivial if the array is not constant",
    "agreement to 1e-10",
    observe_at=["pyirf.gammapy", "gammapy.irf"],
)
GAMMAPY = {
    "create_effective_area_table_2d": ("create_aeff2d_hdu", ["energy_true", "offset"], "EffectiveAreaTable2D", u.m ** 2),
    "create_psf_3d": ("create_psf_table_hdu", ["energy_true", "offset", "rad"], "PSF3D", u.sr ** -1),
    "create_energy_dispersion_2d": ("create_energy_dispersion_hdu", ["energy_true", "migra", "offset"], "EnergyDispersion2D", u.one),
}


def judge_gammapy(ctx, name, a, obj, how):
    hdu, axes, cls, unit = GAMMAPY[name]
    fmt = FORMATS[hdu]
    if not ctx.check(type(obj).__name__ == cls, f"{how}: not a {cls}", got=type(obj)):
        return
    if not ctx.check(list(obj.axes.names) == axes, f"{how}: axes", got=obj.axes.names, want=axes):
        return
    for (arg, c, aunit), ax in zip(fmt[3], axes):
        ctx.close(obj.axes[ax].edges.to_value(aunit), value(a[arg], aunit), f"{how}: edges of {ax}", rtol=1e-10, atol=1e-13)
    ctx.close(obj.quantity.to_value(unit), value(a[fmt[5]], unit), f"{how}: values", rtol=1e-10)


@T05.monitor(*[f"pyirf.gammapy:{n}" for n in GAMMAPY])
def _post_gammapy(ctx, call):
    if call.error is not None:
        return
    name = call.target.split(":")[1]
    fmt = FORMATS[GAMMAPY[name][0]]
    a = call.bind(fmt[5], *fmt[4])
    judge_gammapy(ctx, name, a, call.result, "object from arrays")
    d = value(a[fmt[5]], fmt[1])
    if len(np.unique(d)) > 1:
        ctx.nontrivial(name, d)


@T05.family(90)
def both_ways(ctx):
    import gammapy.irf
    from astropy.table import Table
    import pyirf.gammapy as pg

    rng = ctx.rng
    name = list(GAMMAPY)[ctx.index % 3]
    hdu, axes, cls, unit = GAMMAPY[name]
    while True:
        args, kw = response(rng, hdu)
        if not args:
            fmt = FORMATS[hdu]
            args = tuple(kw[k] for k in [fmt[5]] + fmt[4])
        if args[0].dtype == np.float64 and np.isfinite(args[0]).all():
            break
    ctx.call(getattr(pg, name), *args)
    h = create(ctx, hdu, *args, point_like=False) if hdu != "create_psf_table_hdu" else create(ctx, hdu, *args)
    buffer = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(buffer)
    buffer.seek(0)
    with fits.open(buffer) as hdus:
        table = Table.read(hdus[1])
    obj = ctx.call(getattr(gammapy.irf, cls).from_table, table, format="gadf-dl3")
    fmt = FORMATS[hdu]
    judge_gammapy(ctx, name, dict(zip([fmt[5]] + fmt[4], args)), obj, "object read from GADF")


pipeline.attach(T02, "files")
pipeline.attach(T03, "files")
pipeline.attach(T05, "gammapy")
