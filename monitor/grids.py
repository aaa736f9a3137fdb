"""Grids for interpolation and an independent triangulation, no pyirf in here"""
import itertools
import math

import numpy as np
from scipy.spatial import Delaunay

from . import gen


class Degenerate(Exception):
    """The triangulation or the location is not unique"""


class Triangles:
    """Brute force Delaunay triangulation of a few points in general position"""

    def __init__(self, points):
        p = np.asarray(points, float)
        lo, hi = p.min(axis=0), p.max(axis=0)
        self.p = p
        n = len(p)
        size = float(np.linalg.norm(hi - lo))
        self.size = size
        self.tri = []
        for t in itertools.combinations(range(n), 3):
            a, b, c = p[list(t)]
            area = cross(b - a, c - a)
            longest = max(np.linalg.norm(b - a), np.linalg.norm(c - a), np.linalg.norm(c - b))
            if abs(area) < 1e-9 * longest * longest:
                raise Degenerate("points in line")
            centre, radius = circumcircle(a, b, c)
            d = np.sqrt(((p - centre) ** 2).sum(axis=1)) / radius - 1
            d[list(t)] = np.inf
            if (d < -1e-4).any():
                continue
            if (d < 1e-4).any():
                raise Degenerate("cocircular points")
            if abs(area) < 1e-2 * longest * longest * 0.5:
                raise Degenerate("flat triangle")
            self.tri.append(t)
        count = {}
        for t in self.tri:
            for e in itertools.combinations(t, 2):
                count.setdefault(e, []).append(t)
        #: hull edges with the only triangle they belong to
        self.hull = {e: ts[0] for e, ts in count.items() if len(ts) == 1}

    def bary(self, tri, x):
        a, b, c = self.p[list(tri)]
        x = np.asarray(x, float)
        d = cross(b - a, c - a)
        wb, wc = cross(x - a, c - a) / d, cross(b - a, x - a) / d
        return np.array([1 - wb - wc, wb, wc])

    def locate(self, x, margin=1e-9):
        """Triangle with x inside and its weights, None if outside"""
        best = max(((self.bary(t, x).min(), t) for t in self.tri), key=lambda v: v[0])
        if best[0] < -margin:
            return None
        return best[1], self.bary(best[1], x)

    def depth(self, x):
        """Positive inside of the hull, negative outside, relative to the size"""
        x = np.asarray(x, float)
        centre = self.p.mean(axis=0)
        out = []
        for (i, j) in self.hull:
            a, b = self.p[i], self.p[j]
            n = np.array([-(b - a)[1], (b - a)[0]])
            n /= np.linalg.norm(n)
            n *= np.sign(np.dot(n, centre - a))
            out.append(np.dot(n, x - a))
        return min(out) / self.size

    def nearest(self, x):
        """Hull edge nearest to an outside point, ties by the larger angle"""
        x = np.asarray(x, float)
        cand = []
        for (i, j), t in self.hull.items():
            a, b = self.p[i], self.p[j]
            s = np.dot(x - a, b - a) / np.dot(b - a, b - a)
            exact = 1e-11  # rounded numbers, exactly above a corner
            if exact < min(abs(s), abs(s - 1)) < 1e-5:
                raise Degenerate("foot point at a corner")
            foot = a + np.clip(s, 0, 1) * (b - a)
            corner = i if s < exact else j if s > 1 - exact else None
            cand.append((np.linalg.norm(x - foot), corner, angle(a, b, x), t))
        cand.sort(key=lambda c: c[0])
        first = cand[0]
        same = [c for c in cand if c[1] is not None and c[1] == first[1]] or [first]
        for c in cand:
            if c not in same and c[0] < first[0] * (1 + 1e-6) + 1e-12 * self.size:
                raise Degenerate("equally near edges")
        same.sort(key=lambda c: -c[2])
        if len(same) > 1 and abs(same[0][2] - same[1][2]) < 1e-5 and same[0][3] != same[1][3]:
            raise Degenerate("equal angles")
        return same[0][3]

    def visible(self, x):
        """[(angle, triangle)] of the hull edges seen from x"""
        x = np.asarray(x, float)
        centre = self.p.mean(axis=0)
        out = []
        for (i, j), t in self.hull.items():
            a, b = self.p[i], self.p[j]
            n = np.array([-(b - a)[1], (b - a)[0]])
            h, c = np.dot(n, x - a), np.dot(n, centre - a)
            if abs(h) < 1e-6 * np.linalg.norm(n) * np.linalg.norm(x - a):
                raise Degenerate("edge seen from the side")
            if h * c < 0:
                out.append((angle(a, b, x), t))
        return out


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def angle(a, b, x):
    return math.atan2(abs(cross(a - x, b - x)), float(np.dot(a - x, b - x)))


def circumcircle(a, b, c):
    d = 2 * cross(b - a, c - a)
    u, v = b - a, c - a
    uu, vv = np.dot(u, u), np.dot(v, v)
    centre = np.array([v[1] * uu - u[1] * vv, u[0] * vv - v[0] * uu]) / d
    return a + centre, float(np.linalg.norm(centre))


# -- random grids ----------------------------------------------------------------


def units(rng):
    """Coordinates may have small or large numbers"""
    return float(gen.pick(rng, 1e-10, 1e-6, 1e5)) if gen.chance(rng, 0.15) else 1.0


def line(rng, n=None):
    """Grid points in one dimension, sorted, shape (n, 1)"""
    n = n or (int(rng.integers(10, 40) if gen.chance(rng, 0.8) else rng.integers(130, 300)) if gen.chance(rng, 0.06) else gen.pick(rng, 2, 3, 4, 6))
    lo = gen.pick(rng, 0.0, 20.0, -5.0, 1.0)
    x = gen.increasing(rng, n, lo, lo + gen.pick(rng, 1.0, 40.0, 0.01))
    if gen.chance(rng, 0.2):
        x = np.sort(rng.choice(np.arange(0, max(150, 6 * n), 3), n, replace=False)).astype(gen.pick(rng, float, int))
    else:
        x = x * units(rng)
    return x.reshape(-1, 1)


def plane(rng, n=None):
    """Grid points in general position in two dimensions with their triangles"""
    many = n is None and gen.chance(rng, 0.08)
    for _ in range(1000):
        k = n or gen.pick(rng, 3, 4, 5, 6, 7, 9)
        p = rng.uniform(0, 1, (k, 2))
        if k > 5 and gen.chance(rng, 0.4):  # blunt corners
            phi = np.sort(rng.uniform(0, 2 * np.pi, k - 1))
            r = rng.uniform(0.4, 0.5, k - 1)
            p = 0.5 + np.stack([np.append(r * np.cos(phi), 0.05), np.append(r * np.sin(phi), -0.03)], axis=-1)
        if gen.chance(rng, 0.3):  # distorted lattice, as from simulations
            a, b = np.meshgrid(np.arange(3.0), np.arange(gen.pick(rng, 2.0, 3.0)))
            p = np.stack([a.ravel(), b.ravel()], axis=-1)
            p = p + rng.uniform(-0.25, 0.25, p.shape)
        if many:
            p = rng.uniform(0, 1, (int(rng.integers(11, 24)), 2))
        if gen.chance(rng, 0.3):  # axes of different size
            p = p * [1.0, gen.pick(rng, 0.15, 4.0, 8.0)]
        p = (p * gen.pick(rng, 1.0, 10.0, 50.0) + gen.pick(rng, 0.0, 20.0, -3.0)) * units(rng)
        try:
            tri = Triangles(p)
            if gen.chance(rng, 0.3):  # a border parallel to an axis
                i, j = list(tri.hull)[int(rng.integers(len(tri.hull)))]
                k = int(np.argmin(np.abs(p[i] - p[j])))
                p[j, k] = p[i, k]
                tri = Triangles(p)
            return p, tri
        except Degenerate:
            continue
    raise RuntimeError("no grid found")


def lattice(rng, size=None):
    """Regular grid in two dimensions"""
    nx, ny = gen.pick(rng, 2, 3), gen.pick(rng, 2, 3, 4)
    if gen.chance(rng, 0.1):
        nx, ny = int(rng.integers(4, 7)), int(rng.integers(4, 8))
    nx, ny = size or (nx, ny)
    x, y = (gen.increasing(rng, k, gen.pick(rng, 0.0, 20.0), gen.pick(rng, 30.0, 60.0)) for k in (nx, ny))
    a, b = np.meshgrid(x, y)
    return np.stack([a.ravel(), b.ravel()], axis=-1) * units(rng)


def inside(rng, points, triangles=None):
    """A target well inside of the grid"""
    points = np.asarray(points, float)
    if triangles is not None:
        t = triangles.tri[int(rng.integers(len(triangles.tri)))]
        w = rng.dirichlet(np.ones(3)) * 0.97 + 0.01
        return w @ points[list(t)]
    w = rng.dirichlet(np.ones(len(points))) * 0.9 + 0.1 / len(points)
    return w @ points


def outside(rng, triangles, far=1.5):
    """A target outside of the hull"""
    p = triangles.p
    lo, hi = p.min(axis=0), p.max(axis=0)
    for _ in range(1000):
        x = rng.uniform(lo - far * (hi - lo), hi + far * (hi - lo))
        if gen.chance(rng, 0.3):
            (i, j) = list(triangles.hull)[int(rng.integers(len(triangles.hull)))]
            a, b = p[i], p[j]
            n = np.array([-(b - a)[1], (b - a)[0]]) / np.linalg.norm(b - a)
            n *= -np.sign(np.dot(n, p.mean(axis=0) - a))
            x = a + rng.uniform(0.1, 0.9) * (b - a) + n * triangles.size * 10 ** rng.uniform(-5, -1)
        elif gen.chance(rng, 0.3):
            # above an edge, next to one of its corners
            (i, j) = list(triangles.hull)[int(rng.integers(len(triangles.hull)))]
            a, b = (p[i], p[j]) if gen.chance(rng, 0.5) else (p[j], p[i])
            n = np.array([-(b - a)[1], (b - a)[0]])
            n *= -np.sign(np.dot(n, p.mean(axis=0) - a))
            s = 10 ** rng.uniform(-3, -0.8)
            if gen.chance(rng, 0.2):  # exactly above the corner
                s = 0.0
            x = a + s * (b - a) + n * 10 ** rng.uniform(-2, 0.7)
        if triangles.depth(x) < -1e-7:
            return x
    raise RuntimeError("no target found")


def linear_1d(points, values, x):
    """Piecewise linear interpolation, the outer segments continue outside"""
    g = np.asarray(points, float).ravel()
    order = np.argsort(g)
    g, v = g[order], np.asarray(values, float)[order]
    i = int(np.clip(np.searchsorted(g, x, side="right") - 1, 0, len(g) - 2))
    t = (x - g[i]) / (g[i + 1] - g[i])
    return (1 - t) * v[i] + t * v[i + 1], (order[i], order[i + 1]), np.array([1 - t, t])


def weighted(weights, values):
    return np.tensordot(weights, values, axes=(0, 0))


def findable(points, x):
    """False for targets at the border that are outside due to rounding only.

    The search of scipy loses about one in a thousand corners of a grid.
    """
    points = np.asarray(points, float)
    if points.ndim == 1 or points.shape[1] == 1:
        return True
    return bool(Delaunay(points).find_simplex(np.asarray(x, float).reshape(1, -1))[0] >= 0)
