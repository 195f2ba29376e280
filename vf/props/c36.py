"""Convex hull and equilateral triangle against exact constructions."""
from fractions import Fraction as Fr
import numpy as np
import utils
from core import StepCounter
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 100000}
REQUIRED = {'hull_vertices': 1000, 'hull_order': 800, 'repeated': 300, 'collinear': 200, 'all_collinear': 40, 'single': 20, 'triangle': 600, 'triangle_rotated': 600, 'hull_contains': 800}
RULE = ('Point sets of 1-40 points: random, integer grids with exact collinear points, repeated points, all on a line, on a circle, several at the extreme left or right, obstacle outlines with kernel points, '
        'shifted and scaled, arrays, lists and tuples, in random order. Triangles of any centre, side and rotation. Distinct: (kind, number of points, number of corners, container).')


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def chain(pts):
    """Strict corners of the convex hull, exact, counter-clockwise."""
    p = sorted(set((Fr(float(x)), Fr(float(y))) for x, y in pts))
    if len(p) <= 2:
        return p

    def half(q):
        h = []
        for z in q:
            while len(h) > 1 and orient(h[-2], h[-1], z) <= 0:
                h.pop()
            h.append(z)
        return h
    lo, hi = half(p), half(p[::-1])
    return lo[:-1] + hi[:-1]


def case(mon, rng, i, tier):
    if i % 3 == 0:
        c = rng.normal(size=2) * rng.choice([0, 1, 50])
        L = float(rng.choice([1., rng.uniform(1e-3, 10)]))
        rot = float(rng.choice([0., rng.uniform(-7, 7), np.pi / 2, np.pi]))
        given = c if rng.random() < .5 else c.tolist() if rng.random() < .5 else tuple(c)
        T = utils.equilateral_triangle(given, L, rot) if rot or rng.random() < .5 else utils.equilateral_triangle(given, L)
        T = np.asarray(T, float)
        det = lambda: {'centre': c, 'side': L, 'rotation': rot, 'got': T}
        tol = 1e-9 * (L + np.abs(c).max())
        mon.describe({'centre': c, 'side': L, 'rotation': rot})
        ok = T.shape == (3, 2) and np.linalg.norm(T.mean(0) - c) < tol and all(abs(np.linalg.norm(T[j] - T[j - 1]) - L) < tol for j in range(3))
        mon.ok('triangle', ok, det)
        if ok:
            r = L / np.sqrt(3)
            e = np.array([[np.cos(t), np.sin(t)] for t in np.pi / 2 + rot - np.array([0, 2, 4]) * np.pi / 3]) * r + c
            D = np.linalg.norm(T[:, None] - e[None], axis=2)
            mon.ok('triangle_rotated', D.min(0).max() < 10 * tol, det)
        mon.distinct('triangle', rot == 0, int(rot // (np.pi / 4)), type(given).__name__)
        return
    kind = rng.choice(['random', 'grid', 'line', 'circle', 'edge', 'outline'])
    n = int(rng.integers(1, 41)) if rng.random() < .7 else int(rng.integers(1, 6))
    if kind == 'random':
        p = rng.normal(size=(n, 2)) * 10. ** rng.integers(-1, 3)
    elif kind == 'grid':
        p = rng.integers(-4, 5, (n, 2)).astype(float) + rng.integers(-20, 20, 2)
    elif kind == 'line':
        d = rng.integers(-3, 4, 2)
        p = rng.integers(-5, 6, (n, 1)) * d + rng.integers(-5, 6, 2).astype(float)
    elif kind == 'circle':
        t = rng.uniform(0, 2 * np.pi, n)
        p = np.c_[np.cos(t), np.sin(t)] * rng.uniform(.5, 3)
    elif kind == 'edge':        # ties at the extremes
        p = rng.integers(-4, 5, (n, 2)).astype(float)
        p[: n // 2, 0] = p[:, 0].min() if rng.random() < .5 else p[:, 0].max()
    else:
        v = rng.integers(-6, 7, (max(3, n // 2), 2)) / 2.
        p = np.vstack([v, v + rng.integers(-1, 2, v.shape) * .5])
    if rng.random() < .4 and len(p) > 1:
        p = np.vstack([p, p[rng.integers(len(p), size=int(rng.integers(1, 4)))]])
        mon.seen('repeated')
    p = p[rng.permutation(len(p))]
    H = chain(p)
    Hf = np.array([[float(x), float(y)] for x, y in H])
    s = max(1e-3, np.ptp(p, axis=0).max())
    given = p.copy() if rng.random() < .5 else p.tolist() if rng.random() < .5 else [tuple(z) for z in p]
    mon.describe({'points': p, 'kind': kind})
    det = lambda **d: {'points': p, 'kind': kind, 'expected': Hf, **d}
    with StepCounter(400 * (len(p) + 2) ** 2):
        G = utils.convex_hull(given)
    G = np.asarray(G, float).reshape(-1, 2)
    if len(H) == 1:
        mon.seen('single')
    elif len(H) == 2:
        mon.seen('all_collinear')
    # corners lost or doubled within the collinearity threshold of the library are not judged
    A = [abs(float(orient(H[j - 2], H[j - 1], H[j]))) for j in range(len(H))] if len(H) > 2 else []
    F = [(Fr(float(x)), Fr(float(y))) for x, y in p]
    flat = [min([abs(float(orient(H[j - 1], H[j], z))) for j in range(len(H))]) for z in F if z not in H] if len(H) > 2 else []
    exact = kind in ('grid', 'line', 'edge', 'outline')
    if exact and any(v == 0 for v in flat):
        mon.seen('collinear')
    clear = exact or (all(v > 1e-8 for v in A) and all(v > 1e-8 for v in flat))
    if clear:
        D = np.linalg.norm(G[:, None] - Hf[None], axis=2)
        mon.ok('hull_vertices', len(G) == len(H) and D.min(0).max() == 0 and D.min(1).max() == 0, lambda: det(got=G))
        if len(H) > 2 and len(G) == len(H):
            k = D.argmin(1)
            st = set((np.diff(np.r_[k, k[0]])) % len(H))
            mon.ok('hull_order', st in ({1}, {len(H) - 1}), lambda: det(got=G))
    else:
        mon.seen('hull_near')
    if len(G) > 2:
        a, b = G, np.roll(G, -1, 0)
        area = (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]).sum()
        d = [((b[:, 0] - a[:, 0]) * (z[1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (z[0] - a[:, 0])).min() * np.sign(area) if area > 0 else
             ((b[:, 0] - a[:, 0]) * (z[1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (z[0] - a[:, 0])).max() * -1 for z in p]
        mon.ok('hull_contains', min(d) > -1e-8 * max(1, s ** 2), lambda: det(got=G, worst=min(d)))
    mon.distinct('hull', kind, len(p), len(H), type(given).__name__)
