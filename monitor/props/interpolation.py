"""Interpolation and extrapolation of instrument responses between grid points"""
import itertools
import math
import warnings

import numpy as np
import astropy.units as u

from ..core import Prop
from .. import gen, grids

FILES = "pyirf/interpolation/"


def observe(ctx, call):
    """Entry point that is only counted, the relations are decided in the families"""


def params_for(rng, n, shape=None):
    shape = shape if shape is not None else gen.pick(rng, (), (1,), (3,), (2, 3), (1, 4), (3, 2, 2))
    if shape in ((3,), (2, 3)) and gen.chance(rng, 0.08):
        shape = gen.pick(rng, (150,), (20, 12), (40, 30), (9, 8, 7))
    x = rng.normal(size=(n, *shape)) * 10 ** rng.uniform(-3, 5)
    if gen.chance(rng, 0.15):
        x = np.round(x * 3).astype(int)
    elif gen.chance(rng, 0.15):
        x[rng.random(x.shape) < 0.4] = 0
    return x


def full(values):
    return values.reshape(len(values), -1, 1)[..., 0] if values.ndim == 1 else values


def result_shape(ctx, r, values, what):
    v = full(values)
    return ctx.check(np.shape(r) == (1, *v.shape[1:]), f"{what}: shape of the result", got=np.shape(r), want=(1, *v.shape[1:]))


def target_forms(rng, x):
    """The forms a target may have"""
    x = np.atleast_1d(np.asarray(x, float))
    return x.reshape(1, -1)


M01 = Prop(
    "M01",
    "Interpolated parameters are linear between the grid points around the target",
    "For a target inside of the grid, every interpolated parameter is the linear interpolation of its values at the neighboring grid points (the two neighbors in one dimension, the corners of the Delaunay "
    "triangle around the target in two), so functions linear in the grid coordinates are reproduced in any number of dimensions, grid points give their own values and results never leave the range of the values. Each "
    "parameter is independent of all others, the result keeps the shape of the parameters with one leading entry, and neither the order of the grid points nor repeated calls matter.",
    ["inputs"],
    "all grids (one to three dimensions, shuffled, integer, regular, irregular), parameters of any shape and targets inside of the grid",
    "Tests use one fixed grid and linear functions.",
    [FILES + "griddata_interpolator.py", FILES + "component_estimators.py"],
    [("GridDataInterpolator.interpolate", FILES + "griddata_interpolator.py"), ("ParametrizedComponentEstimator", FILES + "component_estimators.py")],
    "a case is a random grid, parameters and target, judged by an independent triangulation; counted by grid, target and values",
    "exact values are judged for grids in general position; regular grids by linear functions and bounds",
    observe_at=["pyirf.interpolation"],
)
M01.monitor("pyirf.interpolation.griddata_interpolator:GridDataInterpolator.interpolate")(observe)


def close(ctx, got, want, values, message, **kw):
    scale = np.abs(values).max(initial=0) if np.size(values) else 0
    return ctx.close(got, want, message, rtol=1e-8, atol=1e-10 * scale + 1e-300, **kw)


@M01.family(150)
def between(ctx):
    from pyirf.interpolation import GridDataInterpolator, ParametrizedComponentEstimator

    rng = ctx.rng
    dim = gen.pick(rng, 1, 1, 2, 2, 2)
    if dim == 1:
        p, tri = grids.line(rng), None
        lo, hi = p.min(), p.max()
        x = gen.pick(rng, rng.uniform(lo, hi), rng.uniform(lo, hi), float(p[int(rng.integers(len(p)))][0]), float(lo), float(hi))
        xs = np.array([x], float)
    else:
        p, tri = grids.plane(rng)
        xs = grids.inside(rng, p, tri)
        if gen.chance(rng, 0.2):
            xs = np.array(p[int(rng.integers(len(p)))], float)
    v = params_for(rng, len(p))
    f = full(v)
    if dim == 1:
        want = grids.linear_1d(p, f, xs[0])[0]
    else:
        t, w = tri.locate(xs)
        want = grids.weighted(w, f[list(t)])
    order = rng.permutation(len(p)) if gen.chance(rng, 0.6) else np.arange(len(p))
    pts = p[order]
    if dim == 1 and gen.chance(rng, 0.3):
        pts = pts.ravel()
    if not grids.findable(pts, xs):
        return ctx.skip("border of the grid, outside due to rounding")
    before = pts.copy(), v[order].copy()
    how = gen.pick(rng, "estimator", "estimator", "direct")
    if how == "estimator":
        f_ = ctx.call(ParametrizedComponentEstimator, pts, before[1].copy())
    else:
        f_ = ctx.call(GridDataInterpolator, pts, before[1].copy())
    target = xs.reshape(1, -1) if how == "direct" or gen.chance(rng, 0.6) else xs.copy()
    keep = target.copy()
    r = ctx.call(f_, target)
    if not result_shape(ctx, r, v, "interpolated parameters"):
        return
    close(ctx, r[0], want, f, "interpolated parameters", grid=p, target=xs)
    ctx.check(np.array_equal(target, keep) and np.array_equal(pts, before[0]), "input was modified")
    if grids.findable(pts, p[0]):
        other = ctx.call(f_, (p[:1] * 1.0).reshape(1, -1))
        close(ctx, other[0], f[0], f, "value at a grid point", grid=p)
    ctx.close(ctx.call(f_, target), r, "repeated call differs", rtol=0)
    if f.ndim > 1 and f[0].size > 1:
        k = tuple(int(rng.integers(s)) for s in f.shape[1:])
        one = ctx.call(ParametrizedComponentEstimator, pts, np.array(f[order][(slice(None), *k)], float))
        close(ctx, np.ravel(ctx.call(one, target)), [r[(0, *k)]], f, "parameter depends on the others")
        bad = np.array(v[order], float)
        bad[(int(rng.integers(len(p))), *k)] = gen.pick(rng, np.nan, np.nan, np.inf)
        others = np.ones(r.shape[1:], bool)
        others[k] = False
        x = quiet(ctx, ctx.call(ParametrizedComponentEstimator, pts, bad), target)
        close(ctx, x[0][others], r[0][others], f, "invalid parameter changes the others")
    ctx.nontrivial(p, xs, f)


@M01.family(60)
def linear_functions(ctx):
    from pyirf.interpolation import GridDataInterpolator, ParametrizedComponentEstimator

    rng = ctx.rng
    kind = gen.pick(rng, "line", "lattice", "lattice", "cube", "any3")
    if kind == "line":
        p = grids.line(rng)
    elif kind == "lattice":
        p = grids.lattice(rng)
    elif kind == "cube":
        p = np.array(list(itertools.product(*[gen.increasing(rng, k, 0.0, 10.0) for k in gen.pick(rng, (2, 2, 3), (2, 2, 3), (2, 3, 2), (4, 3, 4), (3, 5, 3), (2, 2, 2, 2))])))
    else:
        p = rng.uniform(0, 10, gen.pick(rng, (int(rng.integers(5, 10)), 3), (int(rng.integers(5, 10)), 3), (50, 3), (8, 4)))
    slope, off = rng.normal(size=(p.shape[1], 2, 3)), rng.normal(size=(2, 3))
    v = np.tensordot(p, slope, axes=(1, 0)) + off
    w = rng.normal(size=(len(p), 2))
    x = grids.inside(rng, p)
    f = ctx.call(ParametrizedComponentEstimator, p, v)
    r = ctx.call(f, x.reshape(1, -1))
    if result_shape(ctx, r, v, "linear function"):
        close(ctx, r[0], np.tensordot(x, slope, axes=(0, 0)) + off, v, "linear function is not reproduced", grid=p, target=x)
    r = ctx.call(ctx.call(ParametrizedComponentEstimator, p, w), x.reshape(1, -1))
    if result_shape(ctx, r, w, "parameters"):
        ctx.check((r[0] >= w.min(axis=0) - 1e-9).all() and (r[0] <= w.max(axis=0) + 1e-9).all(), "result outside of the range of the values",
                  got=r, grid=p, target=x)
    i = int(rng.integers(len(p)))
    if grids.findable(p, p[i]):
        r = ctx.call(ctx.call(ParametrizedComponentEstimator, p, w), p[i].reshape(1, -1))
        close(ctx, r[0], w[i], w, "value at a grid point", grid=p)
    if gen.chance(rng, 0.5):
        near = ctx.call(ParametrizedComponentEstimator, p, w, interpolator_kwargs={"method": "nearest"})
    else:
        near = ctx.call(GridDataInterpolator, p, w, method="nearest")
    d = np.linalg.norm(p - x, axis=1)
    s = np.sort(d)
    if s[1] - s[0] > 1e-9:
        ctx.close(ctx.call(near, x.reshape(1, -1))[0], w[int(np.argmin(d))], "options for the interpolation are ignored")
    ctx.nontrivial(p, x, w)


# ---------------------------------------------------------------------------

M02 = Prop(
    "M02",
    "Extrapolated parameters continue the grid cells next to the target",
    "For a target outside of the grid, the nearest simplex extrapolator continues the linear function of the outermost segment in one dimension and of the triangle at the nearest border in two (at a corner, of the border seen at the larger angle), and the visible edges extrapolator is the "
    "average of the continuations of all border triangles seen from the target, weighted by the viewing angle to the power m plus one. Both reproduce linear functions exactly, agree with the "
    "interpolation at the border of the grid, and treat every parameter alone; invalid m and more than two dimensions are rejected.",
    ["inputs"],
    "all grids in one and two dimensions, parameters of any shape, targets near to and far from the grid in all directions, all m",
    "Tests use one grid with a few targets; targets close to the border were never tested.",
    [FILES + "nearest_simplex_extrapolator.py", FILES + "visible_edges_extrapolator.py", FILES + "utils.py", FILES + "moment_morph_interpolator.py"],
    [("ParametrizedNearestSimplexExtrapolator", FILES + "nearest_simplex_extrapolator.py"),
     ("ParametrizedVisibleEdgesExtrapolator", FILES + "visible_edges_extrapolator.py"), ("find_nearest_simplex", FILES + "utils.py"),
     ("find_visible_facets", FILES + "visible_edges_extrapolator.py")],
    "a case is a random grid, parameters and target, judged by an independent triangulation; counted by grid, target and values",
    "targets equally near to two borders or in line with an edge of an irregular grid are not judged; regular grids are judged by linear functions",
    observe_at=["pyirf.interpolation"],
)
M02.monitor("pyirf.interpolation.nearest_simplex_extrapolator:ParametrizedNearestSimplexExtrapolator.extrapolate",
            "pyirf.interpolation.visible_edges_extrapolator:ParametrizedVisibleEdgesExtrapolator.extrapolate")(observe)


def quiet(ctx, f, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ctx.call(f, *args, **kw)


def continue_nearest(tri, f, x):
    t = tri.nearest(x)
    return grids.weighted(tri.bary(t, x), f[list(t)])


def continue_visible(tri, f, x, m):
    seen = tri.visible(x)
    w = np.array([a for a, _ in seen]) ** (m + 1)
    w = w / w.sum()
    each = np.array([grids.weighted(tri.bary(t, x), f[list(t)]) for _, t in seen])
    return grids.weighted(w, each)


@M02.family(130)
def outside(ctx):
    from pyirf.interpolation import (
        ParametrizedComponentEstimator, ParametrizedNearestSimplexExtrapolator as Nearest, ParametrizedVisibleEdgesExtrapolator as Visible,
    )

    rng = ctx.rng
    m = int(gen.pick(rng, 1, 1, 2, 3, 5))
    which, kw = gen.pick(rng, (Nearest, {}), (Visible, {}), (Visible, {"m": m}))
    m = kw.get("m", 1)
    if gen.chance(rng, 0.3):
        p = grids.line(rng)
        v = params_for(rng, len(p))
        f = full(v)
        span = float(p.max() - p.min())
        d = span * 10 ** rng.uniform(-6, 0.7)
        x = np.array([gen.pick(rng, p.min() - d, p.max() + d)])
        want = grids.linear_1d(p, f, x[0])[0]
        reach = 1 + abs(x[0] - p.mean()) / np.diff(p.ravel()).min()
    else:
        p, tri = grids.plane(rng)
        v = params_for(rng, len(p))
        f = full(v)
        x = grids.outside(rng, tri)
        try:
            want = continue_nearest(tri, f, x) if which is Nearest else continue_visible(tri, f, x, m)
        except grids.Degenerate as e:
            return ctx.skip(str(e))
        reach = max(np.abs(tri.bary(t, x)).max() for t in tri.tri)
    order = rng.permutation(len(p)) if gen.chance(rng, 0.6) else np.arange(len(p))
    if gen.chance(rng, 0.7):
        e = ctx.call(ParametrizedComponentEstimator, p[order], v[order], extrapolator_cls=which, extrapolator_kwargs=kw)
    else:
        e = ctx.call(which, p, v, **kw)
    r = quiet(ctx, e, x.reshape(1, -1))
    if result_shape(ctx, r, v, "extrapolated parameters"):
        scale = np.abs(f).max() * reach
        ctx.close(r[0], want, f"{which.__name__}", rtol=1e-7, atol=1e-8 * scale + 1e-300, grid=p, target=x, m=m)
        ctx.close(quiet(ctx, e, x.reshape(1, -1)), r, "repeated call differs", rtol=0)
        ctx.nontrivial(p, x, f, which.__name__, m)


@M02.family(50)
def border(ctx):
    """Interpolation and extrapolation agree at the border"""
    from pyirf.interpolation import (
        ParametrizedComponentEstimator, ParametrizedNearestSimplexExtrapolator as Nearest, ParametrizedVisibleEdgesExtrapolator as Visible,
    )

    rng = ctx.rng
    which = gen.pick(rng, Nearest, Visible)
    p, tri = grids.plane(rng)
    f = rng.normal(size=(len(p), 2))
    (i, j) = list(tri.hull)[int(rng.integers(len(tri.hull)))]
    a, b = p[i], p[j]
    s = rng.uniform(0.15, 0.85)
    x = a + s * (b - a)
    n = np.array([-(b - a)[1], (b - a)[0]]) / np.linalg.norm(b - a)
    n *= np.sign(np.dot(n, p.mean(axis=0) - a))
    eps = 1e-7 * tri.size
    e = ctx.call(ParametrizedComponentEstimator, p, f, extrapolator_cls=which)
    r_in, r_out = (quiet(ctx, e, (x + k * eps * n).reshape(1, -1)) for k in (1, -1))
    want = (1 - s) * f[i] + s * f[j]
    for r, name in ((r_in, "inside"), (r_out, "outside")):
        ctx.close(r[0], want, f"{which.__name__}: value just {name} of the border", rtol=0, atol=2e-4, grid=p, target=x)
    ctx.nontrivial(p, x, f, which.__name__)


@M02.family(50)
def linear_outside(ctx):
    from pyirf.interpolation import (
        ParametrizedNearestSimplexExtrapolator as Nearest, ParametrizedVisibleEdgesExtrapolator as Visible,
    )

    rng = ctx.rng
    p = grids.lattice(rng) if gen.chance(rng, 0.7) else grids.lattice(rng, (2, 2))
    if gen.chance(rng, 0.4):
        # other angles move points of straight borders out of line by rounding
        p = p @ np.array(gen.pick(rng, [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [1, 0]], [[1, 0], [0, -1]]))
    slope, off = rng.normal(size=(2, 2)), rng.normal(size=2)
    v = p @ slope + off
    lo, hi = p.min(axis=0), p.max(axis=0)
    x = np.where(rng.random(2) < 0.5, lo - (hi - lo) * rng.uniform(0.01, 1, 2), hi + (hi - lo) * rng.uniform(0.01, 1, 2))
    if gen.chance(rng, 0.5):
        k = int(rng.integers(2))
        x[k] = rng.uniform(lo[k], hi[k])
    if gen.chance(rng, 0.25):  # in line with a border
        k = int(rng.integers(2))
        far = (hi - lo)[1 - k] * rng.uniform(0.01, 1)
        x[k] = gen.pick(rng, lo[k], hi[k])
        x[1 - k] = gen.pick(rng, lo[1 - k] - far, hi[1 - k] + far)
    if len(p) == 4 and gen.chance(rng, 0.7):  # a parallelogram
        turn = np.array([[1, rng.uniform(-0.5, 0.5)], [rng.uniform(-0.5, 0.5), 1]])
        p, x = p @ turn, x @ turn
        v = p @ slope + off
    for e in (ctx.call(Nearest, p, v), ctx.call(Visible, p, v, m=int(gen.pick(rng, 1, 2)))):
        r = quiet(ctx, e, x.reshape(1, -1))
        if result_shape(ctx, r, v, "linear function"):
            ctx.close(r[0], x @ slope + off, f"{type(e).__name__}: linear function is not continued", rtol=1e-6, atol=1e-6 * np.abs(v).max(),
                      grid=p, target=x)
    ctx.nontrivial(p, x, slope)


@M02.family(24)
def rejected(ctx):
    from pyirf.interpolation import (
        ParametrizedNearestSimplexExtrapolator as Nearest, ParametrizedVisibleEdgesExtrapolator as Visible,
    )

    rng = ctx.rng
    p, _ = grids.plane(rng)
    v = rng.normal(size=len(p))
    m = [0, -1, 1.5, np.inf, "a", None, -2.0, 0.5][ctx.index % 8]
    ctx.raises((TypeError, ValueError), Visible, p, v, m=m, message=f"m={m!r}")
    p3 = rng.uniform(size=(6, 3))
    for c in (Nearest, Visible):
        ctx.raises(NotImplementedError, c, p3, rng.normal(size=6), message="three dimensions")
    e = ctx.call(Visible, p, v, m=gen.pick(rng, 1, 2.0, np.int64(3)))
    ctx.check(e is not None, "valid m")
    ctx.nontrivial(p, ctx.index % 8)


# ---------------------------------------------------------------------------
# discrete pdfs


def pdf_templates(rng, n, kind=None, shape=None, cone=None):
    """Edges, pdfs of shape (n, ..., bins), width of the bins in the normalization, is cone normalized"""
    cone = gen.chance(rng, 0.4) if cone is None else cone
    nb = gen.pick(rng, 2, 5, 15, 30, 60)
    if cone:
        outer = gen.pick(rng, 0.09, 0.5, 5.0)
        nb = min(nb, 15) if outer < 0.1 else nb  # solid angles of tiny rings are not exact
        edges = np.deg2rad(gen.increasing(rng, nb + 1, 0.0, outer, kind=gen.pick(rng, "uniform", "random")))
        width = 4 * np.pi * np.diff(np.sin(edges / 2) ** 2)
    else:
        edges = gen.increasing(rng, nb + 1, gen.pick(rng, 0.0, 0.2, -1.0), gen.pick(rng, 2.0, 5.0), kind=gen.pick(rng, "uniform", "uniform", "random"))
        if gen.chance(rng, 0.2):
            edges = np.geomspace(0.2, 5, nb + 1)
        if gen.chance(rng, 0.15):  # energies in eV, lengths in nm
            edges = edges * 10.0 ** rng.uniform(-10, 13)
        width = np.diff(edges)
    shape = gen.pick(rng, (), (1,), (3,), (2, 2)) if shape is None else shape
    mids = 0.5 * (edges[1:] + edges[:-1])
    span = edges[-1] - edges[0]
    rows = int(np.prod(shape))
    prob = np.zeros((n, rows, nb))
    for j in range(rows):
        style = kind or gen.pick(rng, "gauss", "gauss", "gauss", "any", "one", "same", "sparse")
        base = None
        for i in range(n):
            if style in ("gauss", "same"):
                mu = edges[0] + span * rng.uniform(0.25, 0.75)
                sig = span * rng.uniform(0.06, 0.2)
                q = np.exp(-0.5 * ((mids - mu) / sig) ** 2) * np.diff(edges)
            elif style == "one":
                q = np.zeros(nb)
                q[int(rng.integers(nb))] = 1
            elif style == "sparse":
                q = rng.random(nb) * (rng.random(nb) < 0.4)
                q[int(rng.integers(nb))] += 0.1
            else:
                q = rng.random(nb) + 1e-3
            if style == "same":
                base = q if base is None else base
                q = base
            prob[i, j] = q / q.sum()
    if gen.chance(rng, 0.3):
        prob[int(rng.integers(n)), int(rng.integers(rows))] = 0
    pdf = (prob / width).reshape(n, *shape, nb)
    return edges, pdf, width, cone


def normalized(ctx, r, width, what, tol=1e-8):
    """Rows of the result are non-negative and have an integral of one or are zero"""
    total = (r * width).sum(axis=-1)
    empty = (r == 0).all(axis=-1)
    ctx.check(np.isfinite(r).all(), f"{what}: not finite", got=r)
    ctx.check((r >= 0).all(), f"{what}: negative probability", got=r.min())
    # solid angles of tiny cones are differences of cosines
    rounding = 1e-14 * np.nansum(np.where(np.isfinite(r), r, 0), axis=-1).max(initial=0)
    ctx.close(total, np.where(empty, 0.0, 1.0), f"{what}: integral is neither one nor zero", rtol=tol, atol=rounding)
    return empty


M03 = Prop(
    "M03",
    "Moment morphing moves mean and width of the templates and keeps the norm",
    "The morphed distribution is the sum of the templates of the surrounding segment or triangle (of the nearest one for extrapolation), each shifted and scaled to the mean and width "
    "interpolated linearly from theirs and weighted with its linear coefficient, normalized to one under the normalization of the distribution; negative parts of extrapolations are cut and "
    "the rest is normalized. At grid points the template itself is returned, rows for which a contributing template is empty are zero, rows are independent of each other, and the templates are not modified.",
    ["inputs", "histories"],
    "all grids in one and two dimensions, templates of any shape (empty, single bins, several peaks, both normalizations, non-uniform bins), targets inside and outside",
    "Tests use gaussians on one axis and compare mean and width approximately.",
    [FILES + "moment_morph_interpolator.py", FILES + "nearest_simplex_extrapolator.py", FILES + "utils.py", FILES + "component_estimators.py"],
    [("moment_morph_estimation", FILES + "moment_morph_interpolator.py"), ("MomentMorphInterpolator", FILES + "moment_morph_interpolator.py"),
     ("MomentMorphNearestSimplexExtrapolator", FILES + "nearest_simplex_extrapolator.py"), ("get_bin_width", FILES + "utils.py")],
    "a case is a random grid, templates and target, judged by an independent implementation of the published formulas; counted by content",
    "rows where a transformed bin center is within 1e-7 of an edge, or where negative parts cancel most of the norm, are judged by the norm only",
    observe_at=["pyirf.interpolation"],
)
M03.monitor("pyirf.interpolation.moment_morph_interpolator:MomentMorphInterpolator.interpolate",
            "pyirf.interpolation.nearest_simplex_extrapolator:MomentMorphNearestSimplexExtrapolator.extrapolate")(observe)


def morph(edges, pdfs, coef, width, cut):
    """Morphed row, or None if it is not well defined. Baak et al. 2015, equations 11 to 18"""
    mids = 0.5 * (edges[1:] + edges[:-1])
    if any(not q.any() for q in pdfs):
        return np.zeros(len(mids))
    mus, sigs = [], []
    for q in pdfs:
        w = q * width
        mu = (w * mids).sum() / w.sum()
        sd = math.sqrt((w * (mids - mu) ** 2).sum() / w.sum())
        if np.count_nonzero(q) == 1:
            sd = (np.diff(edges)[q != 0] / math.sqrt(12))[0]
        elif sd < 1e-6 * (edges[-1] - edges[0]):
            return None
        mus.append(mu)
        sigs.append(sd)
    mu_, sig_ = float(np.dot(coef, mus)), float(np.dot(coef, sigs))
    if sig_ < 0.05 * min(sigs):
        return None
    out = np.zeros(len(mids))
    for c, q, mu, sd in zip(coef, pdfs, mus, sigs):
        a = sd / sig_
        x = a * mids + mu - mu_ * a
        if np.abs(x[:, None] - edges[None]).min() < 1e-7 * (edges[-1] - edges[0]) and abs(c) > 1e-12:
            return None
        k = gen.bin_of(x, edges)
        out += c * a * np.where(k >= 0, q[np.clip(k, 0, None)], 0)
    norm, size = (out * width).sum(), (np.abs(out) * width).sum()
    if size == 0:
        return out
    if norm < 1e-3 * size:
        return None
    out = out / norm
    if cut:
        if np.any((out < 0) & (np.abs(out) < 1e-9 * np.abs(out).max())):
            out[np.abs(out) < 1e-9 * np.abs(out).max()] = 0
        out[out < 0] = 0
        out = out / (out * width).sum()
    return out


def cls_kwargs(cone):
    from pyirf.interpolation import PDFNormalization

    return {"normalization": PDFNormalization.CONE_SOLID_ANGLE} if cone else {}


@M03.family(130)
def morphed(ctx):
    from pyirf.interpolation import (
        DiscretePDFComponentEstimator, MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator, PDFNormalization,
    )

    rng = ctx.rng
    dim = gen.pick(rng, 1, 2)
    where = gen.pick(rng, "in", "in", "in", "out", "point")
    if dim == 1:
        p = grids.line(rng)
        span = float(p.max() - p.min())
        if where == "in":
            x = rng.uniform(p.min(), p.max())
        elif where == "out":
            d = span * 10 ** rng.uniform(-3, -0.3)
            x = gen.pick(rng, p.min() - d, p.max() + d)
        else:
            x = float(p[int(rng.integers(len(p)))][0])
        xs = np.array([x])
        _, idx, coef = grids.linear_1d(p, np.zeros(len(p)), x)
    else:
        p, tri = grids.plane(rng)
        if where == "in":
            xs = grids.inside(rng, p, tri)
        elif where == "out":
            xs = grids.outside(rng, tri, far=0.3)
        else:
            xs = p[int(rng.integers(len(p)))].copy()
        try:
            t = tri.nearest(xs) if where == "out" else tri.locate(xs)[0]
        except grids.Degenerate as e:
            return ctx.skip(str(e))
        idx, coef = t, tri.bary(t, xs)
    edges, pdf, width, cone = pdf_templates(rng, len(p))
    if where != "point" and gen.chance(rng, 0.15):  # not normalized
        pdf = pdf * 10 ** rng.uniform(-15, 6)
    keep = pdf.copy()
    kw = cls_kwargs(cone)
    order = rng.permutation(len(p)) if gen.chance(rng, 0.5) else np.arange(len(p))
    if where == "point" and not (grids.findable(p[order], xs) and grids.findable(p, xs)):
        return ctx.skip("border of the grid, outside due to rounding")
    if gen.chance(rng, 0.7):
        e = ctx.call(DiscretePDFComponentEstimator, p[order], edges, pdf[order], interpolator_cls=MomentMorphInterpolator, interpolator_kwargs=kw,
                     extrapolator_cls=MomentMorphNearestSimplexExtrapolator, extrapolator_kwargs=kw)
    else:
        e = ctx.call(MomentMorphNearestSimplexExtrapolator if where == "out" else MomentMorphInterpolator, p, edges, pdf, **kw)
    r = quiet(ctx, e, xs.reshape(1, -1))
    if not ctx.check(r.shape == (1, *pdf.shape[1:]), "shape of the result", got=r.shape, want=pdf.shape):
        return
    ctx.check(np.array_equal(pdf, keep), "templates were modified")
    ctx.close(quiet(ctx, e, xs.reshape(1, -1)), r, "repeated call differs", rtol=0)
    if where == "point":
        hit = np.abs(p - xs).max(axis=1).argmin()
        others = [i for i in idx if i != hit]
    rows = list(np.ndindex(*pdf.shape[1:-1]))
    for row in rows:
        temp = [pdf[(i, *row)] for i in idx]
        if where == "point":
            if not all(pdf[(i, *row)].any() for i in range(len(p))):
                continue  # the neighbors may or may not contribute
            want = pdf[(hit, *row)]
        else:
            want = morph(edges, temp, coef, width, cut=where == "out")
        got = r[(0, *row)]
        if want is None:
            ctx.skip("row is not well defined")
            continue
        ctx.close(got, want, f"morphed distribution ({where})", rtol=1e-6, atol=1e-6 * np.abs(want).max(), edges=edges, templates=temp,
                  coefficients=coef, normalization=cone)
        if where == "in" or want.any():
            normalized(ctx, got, width, "morphed distribution")
        if want.any():
            ctx.nontrivial(temp, coef)
    if len(rows) > 1:
        row = rows[int(rng.integers(len(rows)))]
        e1 = ctx.call(MomentMorphNearestSimplexExtrapolator if where == "out" else MomentMorphInterpolator, p, edges, pdf[(slice(None), *row)], **kw)
        ctx.close(quiet(ctx, e1, xs.reshape(1, -1))[0], r[(0, *row)], "row depends on the other rows", rtol=1e-9, atol=1e-9 * np.abs(r).max())


@M03.family(8)
def dimensions(ctx):
    from pyirf.interpolation import MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator

    rng = ctx.rng
    edges, pdf, width, cone = pdf_templates(rng, 6)
    for c in (MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator):
        ctx.raises(NotImplementedError, c, rng.uniform(size=(6, 3)), edges, pdf, message="three dimensions")
    ctx.nontrivial(pdf)


# ---------------------------------------------------------------------------

M04 = Prop(
    "M04",
    "Quantile interpolation moves quantiles linearly and keeps the norm",
    "The interpolated distribution is non-negative and has an integral of one under the normalization of the templates, its quantiles are those interpolated linearly between the quantiles of the "
    "templates around the target within the bin width, and templates that are all equal give the same quantiles. Rows for which a contributing template is empty are zero, rows are "
    "independent of each other, and the order of the grid points, repeated calls and the storage of the templates do not matter.",
    ["inputs", "histories"],
    "all grids in one to three dimensions, templates of any shape (empty rows, both normalizations, non-uniform bins), targets inside of the grid",
    "Tests use gaussians on one uniform axis and compare approximately.",
    [FILES + "quantile_interpolator.py", FILES + "utils.py", FILES + "component_estimators.py"],
    [("QuantileInterpolator", FILES + "quantile_interpolator.py"), ("norm_pdf", FILES + "quantile_interpolator.py"), ("ppf_values", FILES + "quantile_interpolator.py"),
     ("cdf_values", FILES + "quantile_interpolator.py")],
    "a case is a random grid, templates and target; quantiles are judged for unimodal templates with at least 15 bins, norms for all; counted by content",
    "quantiles are judged with a tolerance of two bin widths, as the reconstruction of the density is approximate",
    observe_at=["pyirf.interpolation"],
)
M04.monitor("pyirf.interpolation.quantile_interpolator:QuantileInterpolator.interpolate")(observe)
LEVELS = (0.1, 0.25, 0.5, 0.75, 0.9)


def quantiles(p, edges, levels=LEVELS):
    cum = np.concatenate([[0], np.cumsum(p)])
    cum = cum / cum[-1]
    keep = np.concatenate([[True], np.diff(cum) > 0])
    return np.interp(levels, cum[keep], edges[keep])


@M04.family(100)
def moved(ctx):
    from pyirf.interpolation import DiscretePDFComponentEstimator, QuantileInterpolator

    rng = ctx.rng
    dim = gen.pick(rng, 1, 1, 2, 3)
    if dim == 1:
        p = grids.line(rng)
        x = rng.uniform(p.min(), p.max())
        xs = np.array([x])
        _, idx, coef = grids.linear_1d(p, np.zeros(len(p)), x)
    elif dim == 2:
        p, tri = grids.plane(rng)
        xs = grids.inside(rng, p, tri)
        idx, coef = tri.locate(xs)
    else:
        p = rng.uniform(0, 1, (4, 3))
        coef = rng.dirichlet(np.ones(4)) * 0.9 + 0.025
        xs, idx = coef @ p, range(4)
    smooth = gen.chance(rng, 0.6)
    edges, pdf, width, cone = pdf_templates(rng, len(p), kind="gauss" if smooth else None)
    if gen.chance(rng, 0.2):  # not normalized
        pdf = pdf * 10 ** rng.uniform(-6, 6, gen.pick(rng, (), pdf.shape[:-1] + (1,)))
    keep = pdf.copy()
    kw = cls_kwargs(cone)
    if gen.chance(rng, 0.3):
        kw["quantile_resolution"] = gen.pick(rng, 1e-3, 2e-3, 5e-4)
    order = rng.permutation(len(p)) if gen.chance(rng, 0.5) else np.arange(len(p))
    if gen.chance(rng, 0.6):
        e = ctx.call(DiscretePDFComponentEstimator, p[order], edges, pdf[order], interpolator_cls=QuantileInterpolator, interpolator_kwargs=kw)
    else:
        e = ctx.call(QuantileInterpolator, p[order], edges, pdf[order], **kw)
    r = quiet(ctx, e, xs.reshape(1, -1))
    if not ctx.check(r.shape == (1, *pdf.shape[1:]), "shape of the result", got=r.shape, want=pdf.shape):
        return
    ctx.check(np.array_equal(pdf, keep), "templates were modified")
    ctx.close(quiet(ctx, e, xs.reshape(1, -1)), r, "repeated call differs", rtol=0)
    normalized(ctx, r, width, "interpolated distribution")
    rows = list(np.ndindex(*pdf.shape[1:-1]))
    for row in rows:
        temp = [pdf[(i, *row)] * width for i in idx]
        got = r[(0, *row)]
        if any(not t.any() for t in temp):
            ctx.check(not got.any(), "row with an empty template is not zero", got=got)
            continue
        if len(edges) >= 16 and smooth:
            ctx.check(got.any(), "row is empty", templates=temp)
            q = quantiles(got * width, edges)
            want = grids.weighted(coef, np.array([quantiles(t, edges) for t in temp]))
            local = np.diff(edges).max()
            ctx.close(q, want, "quantiles of the interpolated distribution", rtol=0, atol=2 * local, edges=edges, templates=temp, coefficients=coef)
            ctx.nontrivial(temp, coef)
    if len(rows) > 1:
        row = rows[int(rng.integers(len(rows)))]
        e1 = ctx.call(QuantileInterpolator, p, edges, pdf[(slice(None), *row)], **kw)
        ctx.close(quiet(ctx, e1, xs.reshape(1, -1))[0], r[(0, *row)], "row depends on the other rows or on the order of the grid",
                  rtol=1e-6, atol=1e-6 * np.abs(r).max())


@M04.family(40)
def shifted(ctx):
    """Narrow resolution: a uniform axis, exact shifts by whole bins"""
    from pyirf.interpolation import QuantileInterpolator

    rng = ctx.rng
    nb = gen.pick(rng, 60, 100, 100, 300, 3000)
    edges = np.linspace(0, 4, nb + 1)
    mids = 0.5 * (edges[1:] + edges[:-1])
    w = edges[1] - edges[0]
    sig = rng.uniform(0.15, 0.4)
    mu0, mu1 = rng.uniform(1.2, 1.8), rng.uniform(2.0, 2.8)
    pdf = np.array([np.exp(-0.5 * ((mids - m) / sig) ** 2) for m in (mu0, mu1)])
    pdf /= pdf.sum(axis=1, keepdims=True) * w
    t = rng.uniform(0, 1)
    r = ctx.call(ctx.call(QuantileInterpolator, np.array([[0.0], [1.0]]), edges, pdf), np.array([[t]]))[0]
    mean = (r * w * mids).sum()
    std = math.sqrt((r * w * (mids - mean) ** 2).sum())
    ctx.close(mean, (1 - t) * mu0 + t * mu1, "mean of shifted gaussians", rtol=0, atol=1.0 * w + (0 if nb <= 100 else 0.2 * sig), width=w)
    ctx.close(std, sig, "width of shifted gaussians", rtol=0.15 if nb <= 100 else 0.35, atol=1.0 * w)
    ctx.nontrivial(mu0, mu1, sig, t)


@M04.family(60)
def distribution(ctx):
    """Templates starting in the first bin or at a sharp edge, the whole distribution function is compared"""
    from pyirf.interpolation import QuantileInterpolator

    rng = ctx.rng
    nb = int(gen.pick(rng, 20, 30, 45, 60, 100, 200, 400))
    kind = gen.pick(rng, "falling", "falling", "psf", "peak", "box", "late")
    cone = gen.chance(rng, 0.4)
    grid = gen.pick(rng, "uniform", "uniform", "random", "log")
    x = np.linspace(0, 1, nb + 1)
    if grid == "random":
        x = gen.increasing(rng, nb + 1, 0.0, 1.0, kind="random")
    elif grid == "log":
        x = gen.increasing(rng, nb + 1, 0.02, 1.0, log=True)
    edges = x * rng.uniform(0.1, 1)
    width = 4 * np.pi * np.diff(np.sin(edges / 2) ** 2) if cone else np.diff(edges)
    mids = 0.5 * (x[1:] + x[:-1])
    shapes = {
        "falling": lambda s: np.exp(-mids / s), "psf": lambda s: mids * np.exp(-0.5 * (mids / s) ** 2), "peak": lambda s: np.exp(-0.5 * ((mids - 0.5) / s) ** 2),
        "box": lambda s: (mids < 2 * s) * 1.0, "late": lambda s: (mids > 0.3) * np.exp(-np.maximum(mids - 0.3, 0) / s),
    }
    p = np.array([shapes[kind](rng.uniform(0.1 if nb < 60 else 0.05, 0.25)) * np.diff(x) for _ in range(2)])
    p /= p.sum(axis=1, keepdims=True)
    t = gen.pick(rng, rng.uniform(0, 1), rng.uniform(0, 1), 0.0, 1.0)
    r = ctx.call(ctx.call(QuantileInterpolator, np.array([[0.0], [1.0]]), edges, p / width, **cls_kwargs(cone)), np.array([[t]]))[0] * width
    if not ctx.check(r.sum() > 0, "interpolated distribution is empty", templates=p):
        return
    levels = np.linspace(0.02, 0.98, 49)
    q = (1 - t) * quantiles(p[0], edges, levels) + t * quantiles(p[1], edges, levels)
    got = np.interp(q, edges, np.concatenate([[0.0], np.cumsum(r)]) / r.sum())
    # the density is only known up to bins
    if grid != "uniform":
        tol = p.max() + 0.09
    else:
        tol = {"box": 0.7 * p.max() + 0.04, "late": p.max() + 0.04}.get(kind, 0.06)
    ctx.check((np.abs(got - levels) <= tol).all(), f"distribution function ({kind})", got=got, want=levels, tol=tol, templates=p, edges=edges, t=t)
    ctx.nontrivial(p, t)
