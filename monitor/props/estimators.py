"""Estimators of the irf components: nearest neighbors, effective area, rad max, dispersion, psf"""
import math
import warnings

import numpy as np
from scipy.spatial import ConvexHull
import astropy.units as u

from ..core import Prop
from .. import gen, grids
from .interpolation import cls_kwargs, continue_nearest, morph, normalized, observe, params_for, pdf_templates, quiet

FILES = "pyirf/interpolation/"
COMPONENTS = FILES + "component_estimators.py"


def located(rng, where=None):
    """Grid, target, neighbors and linear coefficients; where: in, out, point"""
    where = where or gen.pick(rng, "in", "in", "out", "point")
    if gen.chance(rng, 0.5):
        p = grids.line(rng)
        lo, hi = float(p.min()), float(p.max())
        if where == "in":
            x = rng.uniform(lo, hi)
        elif where == "out":
            d = (hi - lo) * 10 ** rng.uniform(-3, -0.2)
            x = gen.pick(rng, lo - d, hi + d)
        else:
            x = float(p[int(rng.integers(len(p)))][0])
        xs = np.array([x])
        _, idx, w = grids.linear_1d(p, np.zeros(len(p)), x)
        return p, xs, np.array(idx), w, where
    for _ in range(100):
        p, tri = grids.plane(rng)
        if where == "in":
            xs = grids.inside(rng, p, tri)
        elif where == "out":
            xs = grids.outside(rng, tri, far=0.3)
        else:
            xs = p[int(rng.integers(len(p)))].copy()
        try:
            t = tri.nearest(xs) if where == "out" else tri.locate(xs)[0]
        except grids.Degenerate:
            continue
        if where == "point" and not grids.findable(p, xs):
            continue
        return p, xs, np.array(t), tri.bary(t, xs), where
    raise RuntimeError("no grid found")


def shuffled(rng, p):
    """Order of the grid points, for which targets at the border are inside"""
    return rng.permutation(len(p)) if gen.chance(rng, 0.6) else np.arange(len(p))


def lead(ctx, r, shape, what):
    """Result as array (1, ...); nearest neighbor searches may leave out the first axis"""
    shape = tuple(shape)
    if not ctx.check(np.shape(r) in (shape, (1, *shape)), f"{what}: shape of the result", got=np.shape(r), want=(1, *shape)):
        return None
    return np.asarray(getattr(r, "value", r)).reshape(1, *shape)


# ---------------------------------------------------------------------------

M05 = Prop(
    "M05",
    "Nearest neighbor search returns the values of the nearest grid point",
    "The result is exactly the value stored for the grid point with the smallest distance to the target in the requested norm, the first one of several equally near, "
    "for any shape and kind of values, inside and outside of the grid, and when used in place of an interpolation or an extrapolation. "
    "Norms that are not positive finite integers are rejected.",
    ["inputs"],
    "all grids in one to four dimensions (also integer grids with ties), values of any shape (also nan and infinite ones), targets and norms",
    "Tests use one grid and two targets.",
    [FILES + "nearest_neighbor_searcher.py", COMPONENTS],
    [("BaseNearestNeighborSearcher.interpolate", FILES + "nearest_neighbor_searcher.py")],
    "a case is a random grid, values, target and norm, judged by comparing all distances; counted by content",
    "distances that agree within 1e-12 but are not equal are not judged; the axis for the target may be missing in the result",
    observe_at=["pyirf.interpolation"],
)
M05.monitor("pyirf.interpolation.nearest_neighbor_searcher:ParametrizedNearestNeighborSearcher.interpolate",
            "pyirf.interpolation.nearest_neighbor_searcher:DiscretePDFNearestNeighborSearcher.interpolate")(observe)


def distances(p, x, order):
    out = []
    for q in np.asarray(p, float).reshape(len(p), -1):
        d = [abs(a - b) for a, b in zip(q, np.ravel(x))]
        out.append(sum(d) if order == 1 else math.sqrt(sum(v * v for v in d)) if order == 2 else sum(v**order for v in d) ** (1 / order))
    return np.array(out)


@M05.family(500)
def nearest(ctx):
    from pyirf.interpolation import (
        DiscretePDFComponentEstimator, DiscretePDFNearestNeighborSearcher, GridDataInterpolator, ParametrizedComponentEstimator,
        ParametrizedNearestNeighborSearcher, QuantileInterpolator,
    )

    rng = ctx.rng
    dim = int(gen.pick(rng, 1, 2, 2, 3, 4))
    n = int(rng.integers(dim + 1, dim + 8))
    if gen.chance(rng, 0.05):
        n = int(10 ** rng.uniform(1.2, 3.3))
    ties = gen.chance(rng, 0.4)
    if ties:
        p = rng.integers(-3, 4, (n, dim)) * 2
        x = rng.integers(-4, 5, dim).astype(float)
        if gen.chance(rng, 0.5):
            p = p.astype(float)
    else:
        scale = 10 ** rng.uniform(-2, 2, dim) if gen.chance(rng, 0.3) else np.ones(dim)
        if gen.chance(rng, 0.25):
            scale *= 10.0 ** rng.uniform(-10, 8)
        p = rng.uniform(0, 10, (n, dim)) * scale
        x = rng.uniform(-5, 15, dim) * scale
        if gen.chance(rng, 0.2):  # two points nearly at the same distance
            i, j = rng.choice(n, 2, replace=False)
            p[j] = 2 * x - p[i] + (x - p[i]) * gen.pick(rng, -1, 1) * 10 ** rng.uniform(-10, -3)
    order = int(gen.pick(rng, 1, 2, 2, 2, 3, 4))
    kw = {} if order == 2 and gen.chance(rng, 0.5) else {"norm_ord": gen.pick(rng, order, order, float(order))}
    d = distances(p, x, order)
    best = int(np.argmin(d))
    close = (np.abs(d - d[best]) <= 1e-12 * (d[best] + 1e-300)) & (d != d[best])
    if close.any() or (order > 2 and (d == d[best]).sum() > 1):
        return ctx.skip("nearly equal distances")
    target = gen.pick(rng, x.reshape(1, -1), x.reshape(1, -1), x.copy())
    discrete = gen.chance(rng, 0.4)
    if discrete:
        edges, v, width, cone = pdf_templates(rng, n)
    else:
        v = params_for(rng, n)
        if gen.chance(rng, 0.2) and v.dtype.kind == "f":
            v[rng.random(v.shape) < 0.3] = gen.pick(rng, np.nan, np.inf)
    keep = v.copy()
    direct = ties or gen.chance(rng, 0.4)
    pts = p.ravel() if dim == 1 and gen.chance(rng, 0.3) and not direct else p
    if not direct and dim > 1 and n < dim + 2:
        direct = True
    if discrete:
        if direct:
            e = ctx.call(DiscretePDFNearestNeighborSearcher, p, edges, v, **kw)
        else:
            side = gen.pick(rng, "both", "in", "out")
            e = ctx.call(
                DiscretePDFComponentEstimator, pts, edges, v,
                **(dict(interpolator_cls=DiscretePDFNearestNeighborSearcher, interpolator_kwargs=kw) if side != "out" else dict(interpolator_cls=QuantileInterpolator)),
                **(dict(extrapolator_cls=DiscretePDFNearestNeighborSearcher, extrapolator_kwargs=kw) if side != "in" else {}),
            )
    else:
        if direct:
            e = ctx.call(ParametrizedNearestNeighborSearcher, p, v, **kw)
        else:
            side = gen.pick(rng, "both", "in", "out")
            e = ctx.call(
                ParametrizedComponentEstimator, pts, v,
                **(dict(interpolator_cls=ParametrizedNearestNeighborSearcher, interpolator_kwargs=kw) if side != "out" else dict(interpolator_cls=GridDataInterpolator)),
                **(dict(extrapolator_cls=ParametrizedNearestNeighborSearcher, extrapolator_kwargs=kw) if side != "in" else {}),
            )
    if not direct and side != "both":
        lo, hi = p.min(axis=0), p.max(axis=0)
        if dim == 1:
            within = bool(lo[0] <= x[0] <= hi[0])
        else:
            within = grids.findable(p, x)
        if within != (side == "in"):
            return ctx.skip("not estimated by the nearest neighbor")
    for _ in range(2):
        r = quiet(ctx, e, target)
        want = v[best]
        got = np.asarray(r)
        if not ctx.check(got.size == want.size, "size of the result", got=got.shape, want=want.shape):
            return
        shape = np.shape(want) or (1,)
        if not ctx.check(got.shape in (shape, (1, *shape)), "shape of the result", got=got.shape, want=(1, *shape)):
            return
        ctx.close(got.reshape(want.shape), want, "value of the nearest grid point", rtol=0, distances=d, norm=order, grid=p, target=x)
    ctx.check(np.array_equal(v, keep, equal_nan=v.dtype.kind == "f"), "values were modified")
    ctx.nontrivial(p, x, order, v)


@M05.family(30)
def norms(ctx):
    from pyirf.interpolation import DiscretePDFNearestNeighborSearcher, ParametrizedNearestNeighborSearcher

    rng = ctx.rng
    p = rng.uniform(size=(4, 2))
    bad = [0, -1, -2, 1.5, np.inf, -np.inf, np.nan, "a", None, 0.5, "2", -3.0][ctx.index % 12]
    ctx.raises((TypeError, ValueError), ParametrizedNearestNeighborSearcher, p, rng.normal(size=4), norm_ord=bad, message=f"norm {bad!r}")
    edges, v, *_ = pdf_templates(rng, 4)
    ctx.raises((TypeError, ValueError), DiscretePDFNearestNeighborSearcher, p, edges, v, norm_ord=bad, message=f"norm {bad!r}")
    for good in (1, 2, 3.0, np.int64(2)):
        ctx.call(ParametrizedNearestNeighborSearcher, p, rng.normal(size=4), norm_ord=good)
    ctx.nontrivial(p, ctx.index % 12)


# ---------------------------------------------------------------------------

M06 = Prop(
    "M06",
    "Effective areas are estimated on a logarithmic scale above the minimum",
    "The estimated effective area is the exponential of the interpolated (or extrapolated) logarithm of the areas of the neighboring grid points, where areas below the "
    "minimum count as the minimum, and results not above the minimum are zero, so entries that are zero at all neighbors stay exactly zero and no result is between zero and the minimum. "
    "The result is an area for any units of the areas and of the minimum, which is one square meter by default, and the areas are not modified.",
    ["inputs", "histories"],
    "all grids in one and two dimensions, tables of any shape with zeros and small areas, units, minima, targets inside and outside",
    "Tests use one grid and approximate comparison; units of the minimum and modified input were never tested.",
    [COMPONENTS, FILES + "griddata_interpolator.py", FILES + "nearest_simplex_extrapolator.py"],
    [("EffectiveAreaEstimator", COMPONENTS)],
    "a case is a random grid of areas with a target, judged by an independent triangulation; counted by content",
    "results within 1e-4 of the minimum are not judged unless all neighbors are at the minimum",
    observe_at=["pyirf.interpolation.EffectiveAreaEstimator"],
)
M06.monitor("pyirf.interpolation.component_estimators:EffectiveAreaEstimator.__call__")(observe)


@M06.family(250)
def areas(ctx):
    from pyirf.interpolation import (
        EffectiveAreaEstimator, ParametrizedNearestNeighborSearcher, ParametrizedNearestSimplexExtrapolator,
    )

    rng = ctx.rng
    p, xs, idx, w, where = located(rng)
    shape = gen.pick(rng, (1,), (4,), (3, 2), (2, 1), (2, 3, 2))
    a = 10 ** rng.uniform(-3, 7, (len(p), *shape))  # m2
    if gen.chance(rng, 0.5):
        a = 10 ** (rng.uniform(2, 6, shape)[None] + rng.normal(0, 0.3, a.shape))
    zero = rng.random(a.shape) < gen.pick(rng, 0.0, 0.2, 0.5)
    a[zero] = 0
    if gen.chance(rng, 0.4):
        a[(slice(None), *(int(rng.integers(s)) for s in shape))] = 0  # zero at all points
    unit = u.Unit(gen.pick(rng, "m2", "m2", "cm2", "km2"))
    minimum = gen.pick(rng, None, None, 1.0, 1e3, 0.05, 20.0)  # m2
    if minimum is not None and gen.chance(rng, 0.2):
        tiny = gen.pick(rng, 1e-6, 1e-10, 1e-15)
        minimum, a = minimum * tiny, a * tiny
    m = 1.0 if minimum is None else minimum
    kw = {}
    if minimum is not None:
        kw["min_effective_area"] = u.Quantity(minimum, "m2").to(gen.pick(rng, "m2", "cm2", "km2"))
    engine = gen.pick(rng, "linear", "linear", "linear", "nearest")
    if engine == "nearest":
        kw["interpolator_cls"] = kw["extrapolator_cls"] = ParametrizedNearestNeighborSearcher
        d = distances(p, xs, 2)
        k = int(np.argmin(d))
        if np.sort(d)[1] - d[k] < 1e-9 * np.sort(d)[1]:
            return ctx.skip("equally near grid points")
        idx, w = np.array([k]), np.array([1.0])
    elif where == "out" or gen.chance(rng, 0.3):
        kw["extrapolator_cls"] = ParametrizedNearestSimplexExtrapolator
    order = shuffled(rng, p)
    if where == "point" and not grids.findable(p[order], xs):
        return ctx.skip("border of the grid, outside due to rounding")
    area = u.Quantity(a[order], "m2").to(unit)
    keep = area.copy()
    e = ctx.call(EffectiveAreaEstimator, p[order], area, **kw)
    r = quiet(ctx, e, xs.reshape(1, -1))
    ctx.check(np.array_equal(area.value, keep.value) and area.unit == keep.unit, "areas were modified")
    if not ctx.check(isinstance(r, u.Quantity) and r.unit.is_equivalent("m2"), "result is not an area", got=type(r)):
        return
    again = quiet(ctx, e, xs.reshape(1, -1))
    ctx.close(again.to_value("m2"), r.to_value("m2"), "repeated call differs", rtol=0)
    got = lead(ctx, r.to(u.m**2), shape, "effective area")
    if got is None:
        return
    near = np.maximum(a[idx], m)
    with np.errstate(all="ignore"):
        want = np.exp(grids.weighted(w, np.log(near)))
    low = (a[idx] <= m).all(axis=0)
    fuzzy = (np.abs(want / m - 1) < 1e-4) & ~low
    want = np.where(low | (want <= m), 0.0, want)
    g = got[0]
    ctx.close(np.where(fuzzy, 0, g), np.where(fuzzy, 0, want), f"effective area ({where}, {engine})", rtol=1e-9, areas=a[idx], coefficients=w, minimum=m)
    ctx.check(((g == 0) | (g > m * (1 - 1e-9))).all(), "area between zero and the minimum", got=g, minimum=m)
    ctx.check((g[low] == 0).all(), "area without any at the neighbors", got=g[low])
    if want.any():
        ctx.nontrivial(a, xs, w, m)


@M06.family(12)
def area_input(ctx):
    from pyirf.interpolation import EffectiveAreaEstimator

    rng = ctx.rng
    p = grids.line(rng)
    a = 10 ** rng.uniform(1, 4, (len(p), 3))
    ctx.raises((TypeError, u.UnitsError), EffectiveAreaEstimator, p, a, message="area without unit")
    ctx.raises(u.UnitsError, EffectiveAreaEstimator, p, u.Quantity(a, "m"), message="length in place of an area")
    ctx.raises(u.UnitsError, EffectiveAreaEstimator, p, u.Quantity(a, "m2"), min_effective_area=1 * u.s, message="minimum is no area")
    ctx.nontrivial(a)


# ---------------------------------------------------------------------------

M07 = Prop(
    "M07",
    "Fill values in rad max tables are never interpolated",
    "Without a fill value the estimated table is the interpolation or extrapolation of its values limited to non-negative ones. With a fill value (given, or inferred as largest value), in one dimension an entry is the "
    "fill value if one of the two neighbors has it; in two dimensions it is if at least two of three corners have it, and the smaller of the other two if one has it. "
    "No result exceeds the fill value, tables of nearest neighbors are returned as they are, more dimensions are rejected, and tables are not modified.",
    ["inputs", "histories"],
    "all grids in one and two dimensions (also shuffled), tables of any shape with any pattern of fill values, targets inside, outside and at grid points",
    "Tests use one grid with few patterns; shuffled grids and targets at grid points were never tested.",
    [COMPONENTS],
    [("RadMaxEstimator", COMPONENTS)],
    "a case is a random grid of tables with a target, judged by an independent triangulation; counted by content",
    "at grid points any adjacent cell may be the one that counts",
    observe_at=["pyirf.interpolation.RadMaxEstimator"],
)
M07.monitor("pyirf.interpolation.component_estimators:RadMaxEstimator.__call__")(observe)


def rad_max_reference(v, idx, w, fill):
    """Value of a cell"""
    plain = np.clip(grids.weighted(w, v[idx]), 0, None)
    if fill is None:
        return plain
    flag = v[idx] >= fill
    count = flag.sum(axis=0)
    if len(idx) == 2:
        out = np.where(count > 0, fill, plain)
    else:
        out = np.where(count >= 2, fill, np.where(count == 1, v[idx].min(axis=0), plain))
    return np.minimum(out, fill)


@M07.family(300)
def tables(ctx):
    from pyirf.interpolation import (
        ParametrizedNearestNeighborSearcher, ParametrizedNearestSimplexExtrapolator, RadMaxEstimator,
    )

    rng = ctx.rng
    p, xs, idx, w, where = located(rng)
    dim = p.shape[1]
    shape = gen.pick(rng, (1,), (4,), (3, 2), (5, 1), (2, 3, 2))
    top = gen.pick(rng, 1.0, 0.8, 10.0)
    v = rng.uniform(0.01, 0.95 * top, (len(p), *shape))
    if gen.chance(rng, 0.3):
        v = np.round(v * 4) / 4
        v[v >= top] = 0.5 * top
    flags = rng.random(v.shape) < gen.pick(rng, 0.0, 0.15, 0.4, 0.7)
    v[flags] = top
    option = gen.pick(rng, None, "infer", "given", "given", "larger", "lower")
    if option == "infer":
        fill, kw = v.max(), {"fill_value": "infer"}
    elif option == "given":
        fill, kw = top, {"fill_value": top}
    elif option == "larger":
        fill, kw = 2 * top, {"fill_value": 2 * top}
    elif option == "lower":  # larger values count as fill values, too
        fill, kw = 0.8 * top, {"fill_value": 0.8 * top}
    else:
        fill, kw = None, ({} if gen.chance(rng, 0.5) else {"fill_value": None})
    d = distances(p, xs, 2)
    k = int(np.argmin(d))
    near = np.sort(d)[1] - d[k] > 1e-9 * np.sort(d)[1]
    nn_in, nn_out = gen.chance(rng, 0.25), gen.chance(rng, 0.3)
    if nn_in:
        kw["interpolator_cls"] = ParametrizedNearestNeighborSearcher
    if nn_out:
        kw["extrapolator_cls"] = ParametrizedNearestNeighborSearcher
    elif where == "out" or gen.chance(rng, 0.5):
        kw["extrapolator_cls"] = ParametrizedNearestSimplexExtrapolator
    order = shuffled(rng, p)
    if where == "point" and not grids.findable(p[order], xs):
        return ctx.skip("border of the grid, outside due to rounding")
    pts = p[order]
    if dim == 1 and gen.chance(rng, 0.3):
        pts = pts.ravel()
    table = v[order].copy()
    e = ctx.call(RadMaxEstimator, pts, table, **kw)
    r = quiet(ctx, e, xs.reshape(1, -1))
    ctx.close(quiet(ctx, e, xs.reshape(1, -1)), r, "repeated call differs", rtol=0)
    ctx.check(np.array_equal(table, v[order]), "table was modified")
    got = lead(ctx, r, shape, "rad max")
    if got is None:
        return
    g = got[0]
    ctx.check((g >= 0).all(), "negative rad max", got=g.min())
    detail = dict(values=v[idx], coefficients=w, fill=fill, where=where, target=xs, grid=p)
    if nn_out if where == "out" else nn_in:
        if not near:
            return ctx.skip("equally near grid points")
        ctx.close(g, v[k], "rad max of the nearest neighbor", rtol=0, **detail)
    elif where != "point":
        ctx.close(g, rad_max_reference(v, idx, w, fill), f"rad max ({option}, {where})", rtol=1e-8, atol=1e-9 * top, **detail)
    else:
        cells = []
        if dim == 1:
            j = k
            if j > 0:
                cells.append(np.array([j - 1, j]))
            if j < len(p) - 1:
                cells.append(np.array([j, j + 1]))
        else:
            cells = [np.array(t) for t in grids.Triangles(p).tri if k in t]
        wants = [rad_max_reference(v, c, (c == k).astype(float), fill) for c in cells]
        ok = np.any([np.abs(g - x) <= 1e-8 * np.abs(x) + 1e-9 * top for x in wants], axis=0)
        ctx.check(ok.all(), f"rad max at a grid point ({option})", got=g, wants=wants, **detail)
    if fill is not None and not (nn_out if where == "out" else nn_in):
        ctx.check((g <= fill).all(), "rad max above the fill value", got=g.max(), fill=fill)
    ctx.nontrivial(v, xs, w, option)


@M07.family(12)
def no_fill_in_3d(ctx):
    from pyirf.interpolation import RadMaxEstimator

    rng = ctx.rng
    p = rng.uniform(size=(6, 3))
    v = rng.uniform(0.1, 1, (6, 3, 2))
    ctx.raises(ValueError, RadMaxEstimator, p, v, fill_value=gen.pick(rng, "infer", 1.0), message="three dimensions")
    w = rng.dirichlet(np.ones(6)) * 0.8 + 0.2 / 6
    slope = rng.uniform(0, 1, (3, 2))
    v = (p @ slope + 0.1)[:, None]
    x = w @ p
    r = ctx.call(ctx.call(RadMaxEstimator, p, v), x.reshape(1, -1))
    ctx.close(r, (x @ slope + 0.1)[None, None], "linear table without fill value", rtol=1e-8)
    ctx.nontrivial(p, v)


# ---------------------------------------------------------------------------

M08 = Prop(
    "M08",
    "Estimators interpolate inside of the grid and only extrapolate if asked to",
    "For every kind of estimator, targets inside of the grid (border included) go to the interpolation; targets outside go to the extrapolation together with a warning, or are "
    "rejected if none is configured. Classes of the wrong kind, inconsistent numbers of grid points, bins and values, grids without extent, several targets at once and targets of the wrong "
    "dimension or type are rejected; options reach the engine they are given for and are not modified, and a flat target or grid is the same as one with explicit axes.",
    ["inputs", "configurations"],
    "all estimators and engines, grids in one to three dimensions, targets around the border, and options",
    "Tests check a few errors for one class and never the choice of the engine.",
    [COMPONENTS, FILES + "base_interpolators.py", FILES + "base_extrapolators.py"],
    [("BaseComponentEstimator", COMPONENTS), ("DiscretePDFComponentEstimator", COMPONENTS), ("ParametrizedComponentEstimator", COMPONENTS)],
    "a case is an estimator with recording engines, a grid and a target, or an invalid input; counted by content",
    "targets within 1e-9 of the border are only judged in one dimension",
    observe_at=["pyirf.interpolation"],
)
M08.monitor("pyirf.interpolation.component_estimators:BaseComponentEstimator.__call__")(observe)


def recorders(kind):
    """Engines that record how they are used and return constants"""
    from pyirf.interpolation import DiscretePDFExtrapolator, DiscretePDFInterpolator, ParametrizedExtrapolator, ParametrizedInterpolator

    log = []

    class Par(ParametrizedInterpolator):
        def __init__(self, grid_points, params, **kw):
            super().__init__(grid_points, params)
            log.append(("in", "init", np.array(self.grid_points), np.array(params), kw))

        def interpolate(self, target_point):
            log.append(("in", "call", np.array(target_point)))
            return np.full((1, *self.params.shape[1:]), 0.25)

    class ParOut(ParametrizedExtrapolator):
        def __init__(self, grid_points, params, **kw):
            super().__init__(grid_points, params)
            log.append(("out", "init", np.array(self.grid_points), np.array(params), kw))

        def extrapolate(self, target_point):
            log.append(("out", "call", np.array(target_point)))
            return np.full((1, *self.params.shape[1:]), 0.75)

    class Pdf(DiscretePDFInterpolator):
        def __init__(self, grid_points, bin_edges, binned_pdf, **kw):
            kw.pop("normalization", None)
            super().__init__(grid_points, bin_edges, binned_pdf)
            log.append(("in", "init", np.array(self.grid_points), np.array(binned_pdf), kw))

        def interpolate(self, target_point):
            log.append(("in", "call", np.array(target_point)))
            return np.full((1, *self.binned_pdf.shape[1:]), 0.25)

    class PdfOut(DiscretePDFExtrapolator):
        def __init__(self, grid_points, bin_edges, binned_pdf, **kw):
            kw.pop("normalization", None)
            super().__init__(grid_points, bin_edges, binned_pdf)
            log.append(("out", "init", np.array(self.grid_points), np.array(binned_pdf), kw))

        def extrapolate(self, target_point):
            log.append(("out", "call", np.array(target_point)))
            return np.full((1, *self.binned_pdf.shape[1:]), 0.75)

    return (Par, ParOut, log) if kind == "par" else (Pdf, PdfOut, log)


def make(rng, name, n):
    """Estimator class, kind, positional arguments after the grid"""
    import pyirf.interpolation as I

    if name == "pdf":
        edges, v, *_ = pdf_templates(rng, n, shape=(2,), cone=False)
        return I.DiscretePDFComponentEstimator, "pdf", (edges, v)
    if name == "edisp":
        edges, v, *_ = pdf_templates(rng, n, shape=(2, 2), cone=False)
        return I.EnergyDispersionEstimator, "pdf", (edges, np.swapaxes(v, -1, -2))
    if name == "psf":
        edges, v, *_ = pdf_templates(rng, n, shape=(2, 2), cone=True)
        return I.PSFTableEstimator, "pdf", (u.Quantity(edges, "rad"), u.Quantity(v, "sr-1"))
    if name == "area":
        return I.EffectiveAreaEstimator, "par", (u.Quantity(10 ** rng.uniform(2, 5, (n, 3, 2)), "m2"),)
    if name == "radmax":
        return I.RadMaxEstimator, "par", (rng.uniform(0.1, 1, (n, 3, 2)),)
    return I.ParametrizedComponentEstimator, "par", (rng.normal(size=(n, 3)),)


NAMES = ("par", "pdf", "area", "radmax", "edisp", "psf")


@M08.family(160)
def choice(ctx):
    rng = ctx.rng
    name = NAMES[ctx.index % 6]
    dim = int(gen.pick(rng, 1, 1, 2, 2, 3))
    if dim == 1:
        p = grids.line(rng)
        lo, hi = float(p.min()), float(p.max())
        d = (hi - lo) * 10 ** rng.uniform(-9, 0.5)
        inside, x = gen.pick(rng, (True, lo), (True, hi), (True, rng.uniform(lo, hi)), (False, lo - d), (False, hi + d),
                             (False, np.nextafter(hi, np.inf)), (False, np.nextafter(lo, -np.inf)))
        xs = np.array([x])
    elif dim == 2:
        p, tri = grids.plane(rng)
        inside = gen.chance(rng, 0.5)
        xs = grids.inside(rng, p, tri) if inside else grids.outside(rng, tri)
        if abs(tri.depth(xs)) < 1e-6:
            return ctx.skip("at the border")
    else:
        p = rng.uniform(0, 1, (int(rng.integers(5, 9)), 3))
        inside = gen.chance(rng, 0.5)
        xs = grids.inside(rng, p) if inside else rng.uniform(1.01, 2, 3) * np.where(rng.random(3) < 0.5, 1, [1, 0.5, 0.2])
        if not inside:
            xs[int(rng.integers(3))] = gen.pick(rng, -0.1, 1.1)
            if gen.chance(rng, 0.5):
                # in the bounding box, but not in the hull
                hull = ConvexHull(p).equations
                y = rng.uniform(p.min(axis=0), p.max(axis=0), (100, 3))
                y = y[(y @ hull[:, :-1].T + hull[:, -1]).max(axis=1) > 1e-3]
                if len(y):
                    xs = y[0]
    cls, kind, args = make(rng, name, len(p))
    In, Out, log = recorders(kind)
    order = rng.permutation(len(p))
    args = tuple(a[order] if np.shape(a)[0] == len(p) and i == len(args) - 1 else a for i, a in enumerate(args))
    pts = p[order]
    if dim == 1 and gen.chance(rng, 0.3):
        pts = pts.ravel()
    kw_in, kw_out = {"one": object()}, {"two": object()}
    with_out = gen.chance(rng, 0.7)
    kw = dict(interpolator_cls=In, interpolator_kwargs=kw_in)
    if with_out:
        kw.update(extrapolator_cls=Out, extrapolator_kwargs=kw_out)
    save = dict(kw_in), dict(kw_out)
    e = ctx.call(cls, pts, *args, **kw)
    ctx.check((kw_in, kw_out) == save, "options were modified", got=(kw_in, kw_out))
    inits = [x for x in log if x[1] == "init"]
    ctx.check([x[0] for x in inits] == ["in"] + ["out"] * with_out, "engines that were constructed", got=[x[0] for x in inits])
    for x in inits:
        want = kw_in if x[0] == "in" else kw_out
        ctx.check(x[4] == want, "options of the engine", got=x[4], want=want)
        ctx.check(x[2].shape == p.shape and np.array_equal(np.sort(x[2], axis=0), np.sort(p, axis=0)), "grid of the engine", got=x[2])
        # each grid point keeps its values
        ctx.check(len(x[3]) == len(p), "number of templates of the engine")
        values = args[-1]
        raw = np.asarray(getattr(values, "value", values), float)
        if name == "area":
            raw = np.log(raw)
        elif name == "edisp":
            raw = np.swapaxes(raw, -1, -2)
        for q, val in zip(x[2], x[3]):
            i = int(np.argmin(np.abs(p[order] - q).max(axis=1)))
            ctx.close(val, raw[i], "values of a grid point in the engine", rtol=1e-12)
    del log[:]
    flat = gen.chance(rng, 0.4)
    target = xs.copy() if flat else xs.reshape(1, -1)
    if not inside and not with_out:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.raises(ValueError, e, target, message="target outside without extrapolation")
        ctx.check(not log, "engine was called for a target that is rejected")
        return ctx.nontrivial(name, p, xs, "rejected")
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        r = ctx.call(e, target)
    calls = [x for x in log if x[1] == "call"]
    ctx.check([c[0] for c in calls] == ["in" if inside else "out"], "engine used for the target", got=[c[0] for c in calls], grid=p, target=xs, inside=inside)
    for c in calls:
        ctx.check(c[2].shape == (1, dim) and np.array_equal(c[2].ravel(), xs), "target given to the engine", got=c[2], want=xs)
    if inside:
        caught = [c for c in caught if "extrapolat" in str(c.message).lower()]
    ctx.check(bool(caught) == (not inside), "warning about extrapolation", got=[str(c.message) for c in caught], inside=inside)
    value = 0.25 if inside else 0.75
    if name == "area":
        value = math.exp(value)
    ctx.close(np.ravel(np.asarray(getattr(r, "value", r))), np.full(np.size(r), value), "result of the engine", rtol=1e-12)
    ctx.nontrivial(name, p, xs, inside)


@M08.family(20)
def shared_engine(ctx):
    """One engine for both, with different options"""
    import pyirf.interpolation as I

    rng = ctx.rng
    name = NAMES[ctx.index % 6]
    p = grids.line(rng) if gen.chance(rng, 0.5) else grids.plane(rng)[0]
    cls, kind, args = make(rng, name, len(p))
    log = []

    class Engine:
        def __init__(self, grid_points, *values, **kw):
            self.shape = np.shape(values[-1])[1:]
            log.append(kw)

        def __call__(self, target_point):
            return np.full((1, *self.shape), 0.5)

        interpolate = extrapolate = __call__

    for base in (I.ParametrizedInterpolator, I.ParametrizedExtrapolator) if kind == "par" else (I.DiscretePDFInterpolator, I.DiscretePDFExtrapolator):
        base.register(Engine)
    norms = list(I.PDFNormalization)
    kw, options = dict(interpolator_cls=Engine, extrapolator_cls=Engine), []
    for side in ("interpolator_kwargs", "extrapolator_kwargs"):
        o = {}
        if gen.chance(rng, 0.6):
            o[gen.pick(rng, "method", "norm_ord", "m")] = int(rng.integers(100))
        if kind == "pdf" and gen.chance(rng, 0.4):
            o["normalization"] = gen.pick(rng, *norms)
        if o or gen.chance(rng, 0.5):
            kw[side] = o
        options.append(dict(o))
    e = ctx.call(cls, p, *args, **kw)
    if not ctx.check(len(log) == 2, "number of engines", got=log):
        return
    for got, want in zip(log, options):
        if name == "psf":
            want.setdefault("normalization", I.PDFNormalization.CONE_SOLID_ANGLE)
        elif kind == "pdf" and "normalization" not in want:
            # the default of the engines
            ctx.check(got.pop("normalization", I.PDFNormalization.AREA) is I.PDFNormalization.AREA, "normalization of the engine")
        ctx.check(got == want, "options of an engine used for both", got=got, want=want, all=options)
    ctx.check([kw.get("interpolator_kwargs", {}), kw.get("extrapolator_kwargs", {})] == [
        {k: v for k, v in o.items() if k != "normalization" or k in kw.get(s, {})} for s, o in zip(("interpolator_kwargs", "extrapolator_kwargs"), options)], "options were modified")
    ctx.nontrivial(name, p, str(options))


@M08.family(60)
def invalid(ctx):
    import pyirf.interpolation as I

    rng = ctx.rng
    name = NAMES[ctx.index % 6]
    dim = int(gen.pick(rng, 1, 2, 3))
    n = dim + 2
    p = rng.uniform(0, 1, (n, dim))
    cls, kind, args = make(rng, name, n)
    In, Out, log = recorders(kind)
    OtherIn, OtherOut, _ = recorders("pdf" if kind == "par" else "par")
    ok = dict(interpolator_cls=In, extrapolator_cls=Out)
    both = (TypeError, ValueError)
    ctx.raises(TypeError, cls, p.tolist(), *args, message="grid is a list", **ok)
    ctx.raises(TypeError, cls, p.astype(object), *args, message="grid of objects", **ok)
    ctx.raises(both, cls, p.astype(str), *args, message="grid of strings", **ok)
    ctx.raises(TypeError, cls, p, *args, message="interpolation of the wrong kind", interpolator_cls=OtherIn)
    ctx.raises(TypeError, cls, p, *args, message="extrapolation of the wrong kind", interpolator_cls=In, extrapolator_cls=OtherOut)
    ctx.raises(TypeError, cls, p, *args, message="interpolation used to extrapolate", interpolator_cls=In, extrapolator_cls=In)
    ctx.raises(ValueError, cls, p[: n - 1], *args, message="too many values", **ok)
    ctx.raises(ValueError, cls, p, *args[:-1], args[-1][: n - 1], message="too few values", **ok)
    ctx.raises(ValueError, cls, p[:dim], *args[:-1], args[-1][:dim], message="grid without extent", **ok)
    if kind == "pdf":
        ctx.raises(ValueError, cls, p, args[0][:-1], args[1], message="too few bin edges", **ok)
        if name in ("pdf", "edisp"):
            ctx.raises(TypeError, cls, p, args[0].tolist(), args[1], message="edges are a list", **ok)
    if name == "par":
        ctx.raises(TypeError, cls, p, args[0].tolist(), message="values are a list", **ok)
    if name == "pdf":
        ctx.raises(TypeError, cls, p, args[0], args[1].tolist(), message="values are a list", **ok)
    e = ctx.call(cls, p, *args, **ok)
    x = p[:1].copy()
    ctx.raises(TypeError, e, x[0].tolist(), message="target is a list")
    ctx.raises(ValueError, e, p[:2].copy(), message="two targets")
    ctx.raises(ValueError, e, np.zeros((1, dim + 1)), message="target of the wrong dimension")
    if dim > 1:
        ctx.raises(ValueError, e, np.zeros(dim - 1), message="target of the wrong dimension")
    ctx.check(not [c for c in log if c[1] == "call"], "engine was called with an invalid target")
    ctx.nontrivial(name, p)


# ---------------------------------------------------------------------------

M09 = Prop(
    "M09",
    "Estimated dispersions and point spread functions keep axes, units and norm",
    "The estimated energy dispersion or point spread function has the axis order of the input whichever axis holds the distribution and however that axis is counted, equals the "
    "interpolation of every distribution on its own, and its distributions have the norm of the input (per bin width, or per solid angle) or are zero where a contributing one is. "
    "Point spread functions are per solid angle for any units of bins and values, default axes are those of the stored tables, and inputs are not modified.",
    ["inputs", "histories"],
    "all axis orders with positive or negative axis, all engines, units, grids in one and two dimensions, tables with empty distributions",
    "Tests use the default axis with one engine.",
    [COMPONENTS, FILES + "utils.py"],
    [("EnergyDispersionEstimator", COMPONENTS), ("PSFTableEstimator", COMPONENTS)],
    "a case is a table with random axis order, engine and target, judged per distribution; counted by content",
    "moment morphing and nearest neighbors are judged by the reference model; quantile interpolation by itself for each distribution, and by norm",
    observe_at=["pyirf.interpolation.EnergyDispersionEstimator", "pyirf.interpolation.PSFTableEstimator"],
)
M09.monitor("pyirf.interpolation.component_estimators:EnergyDispersionEstimator.__call__",
            "pyirf.interpolation.component_estimators:PSFTableEstimator.__call__")(observe)


M09.family(20)(shared_engine)


@M09.family(160)
def axes(ctx):
    from pyirf.interpolation import (
        DiscretePDFNearestNeighborSearcher, EnergyDispersionEstimator, MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator,
        PSFTableEstimator, QuantileInterpolator,
    )

    rng = ctx.rng
    cone = gen.chance(rng, 0.5)
    where = gen.pick(rng, "in", "in", "out")
    p, xs, idx, w, where = located(rng, where)
    engine = gen.pick(rng, "nearest", "morph", "morph", "quantile", "quantile")
    if engine == "quantile":
        outer = gen.pick(rng, "nearest", "morph")
    else:
        outer = engine
    other = gen.pick(rng, (2,), (3,), (2, 2), (1, 3), (2, 1, 2))
    edges, v, width, _ = pdf_templates(rng, len(p), shape=other, cone=cone)
    default = gen.chance(rng, 0.3)
    pos = v.ndim - (1 if cone else 2) if default else int(rng.integers(1, v.ndim))
    # the axis of the distributions is exchanged with the last one
    table = np.swapaxes(v, pos, -1).copy()
    axis = gen.pick(rng, pos, pos - v.ndim)
    kw = {} if default else {"axis": axis}
    engines = dict(nearest=DiscretePDFNearestNeighborSearcher, morph=MomentMorphInterpolator, quantile=QuantileInterpolator)
    outers = dict(nearest=DiscretePDFNearestNeighborSearcher, morph=MomentMorphNearestSimplexExtrapolator)
    if engine != "quantile" or gen.chance(rng, 0.5):
        kw["interpolator_cls"] = engines[engine]
    kw["extrapolator_cls"] = outers[outer]
    order = shuffled(rng, p)
    if cone:
        bins = u.Quantity(edges, "rad").to(gen.pick(rng, "rad", gen.angle_unit(rng)))
        data = u.Quantity(table[order], "sr-1").to(gen.pick(rng, "sr-1", "sr-1", "deg-2", "arcmin-2"))
        cls = PSFTableEstimator
    else:
        bins, data, cls = edges.copy(), table[order].copy(), EnergyDispersionEstimator
    keep = bins.copy(), data.copy()
    if gen.chance(rng, 0.3):
        kw["interpolator_kwargs"] = ik = {}
        kw["extrapolator_kwargs"] = ek = {}
    else:
        ik = ek = {}
    e = ctx.call(cls, p[order], bins, data, **kw)
    ctx.check(ik == {} and ek == {}, "options were modified", got=(ik, ek))
    r = quiet(ctx, e, xs.reshape(1, -1))
    rr = quiet(ctx, e, xs.reshape(1, -1))
    ctx.check(np.array_equal(np.asarray(bins), np.asarray(keep[0])) and np.array_equal(np.asarray(data), np.asarray(keep[1])), "input was modified")
    if cone:
        if not ctx.check(isinstance(r, u.Quantity) and r.unit.is_equivalent("sr-1"), "unit of the psf", got=getattr(r, "unit", None)):
            return
        r, rr = r.to(u.sr**-1), rr.to(u.sr**-1)
    ctx.close(np.asarray(rr), np.asarray(r), "repeated call differs", rtol=0)
    got = lead(ctx, r, table.shape[1:], "estimated table")
    if got is None:
        return
    rows = np.swapaxes(got, pos, -1)  # (1, other..., bins)
    converted = cone and not (bins.unit == u.rad and data.unit == u.sr**-1)
    used = outer if where == "out" else engine
    d = distances(p, xs, 2)
    k = int(np.argmin(d))
    if used == "nearest" and np.sort(d)[1] - d[k] < 1e-9 * np.sort(d)[1]:
        return ctx.skip("equally near grid points")
    for row in np.ndindex(*other):
        g = rows[(0, *row)]
        temp = [v[(i, *row)] for i in idx]
        detail = dict(axis=axis, shape=table.shape, engine=used, where=where)
        if used == "nearest":
            ctx.close(g, v[(k, *row)], "distribution of the nearest neighbor", rtol=1e-9, **detail)
        elif used == "morph":
            want = morph(edges, temp, w, width, cut=where == "out")
            if want is None:
                ctx.skip("row is not well defined")
                continue
            ctx.close(g, want, "morphed distribution", rtol=1e-6, atol=1e-6 * np.abs(want).max(), **detail)
        else:
            one = ctx.call(QuantileInterpolator, p, edges, v[(slice(None), *row)].copy(), **cls_kwargs(cone))
            want = ctx.call(one, xs.reshape(1, -1))[0]
            if converted:
                # the quantiles jump where a cumulative value is just at one of them, so rounded edges may move a little probability
                ctx.check(float(np.abs((g - want) * width).sum()) <= 0.01, "distribution on its own", got=g, want=want, **detail)
            else:
                ctx.close(g, want, "distribution on its own", rtol=1e-6, atol=1e-6 * np.abs(want).max(), **detail)
            empty = normalized(ctx, g[None], width, "estimated distribution")[0]
            if all(t.any() for t in temp) is False:
                ctx.check(empty, "distribution from an empty one")
        if g.any():
            ctx.nontrivial(temp, w, axis)


@M09.family(12)
def psf_units(ctx):
    from pyirf.interpolation import PSFTableEstimator

    rng = ctx.rng
    p = grids.line(rng)
    edges, v, width, _ = pdf_templates(rng, len(p), shape=(2,), cone=True)
    ctx.raises((TypeError, u.UnitsError), PSFTableEstimator, p, edges, u.Quantity(v, "sr-1"), message="bins without unit")
    ctx.raises((TypeError, u.UnitsError), PSFTableEstimator, p, u.Quantity(edges, "rad"), v, message="psf without unit")
    ctx.raises(u.UnitsError, PSFTableEstimator, p, u.Quantity(edges, "rad"), u.Quantity(v, "sr"), message="psf with a wrong unit")
    ctx.nontrivial(v)
