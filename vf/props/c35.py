"""Predicates and line operations against exact rational arithmetic."""
from fractions import Fraction as Fr
import numpy as np
import utils
from utils import cg
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 100000}
REQUIRED = {'orientation': 8000, 'collinear_exact': 1500, 'array_orientation': 2000, 'between_yes': 1000, 'between_line_only': 500, 'between_no': 1500, 'crossing': 400, 'no_crossing': 1500, 'touching': 150,
            'overlap': 80, 'disjoint_collinear': 8, 'intersection_point': 2500, 'line': 2500, 'parallel': 300, 'segment': 2500, 'segment_touch': 120, 'ray': 2500, 'ray_behind': 500, 'symmetric': 3000,
            'cut_segment': 1000, 'cut_ray': 1000, 'line_crosses': 1500}
RULE = ('Triples and pairs of segments, lines and rays: random floats at scales 1e-2 to 1e3, integer and dyadic coordinates with exact degeneracies (collinear triples, shared end points, end point on the other segment, '
        'overlapping, parallel, vertical, horizontal), shifted far from the origin; as arrays, lists and points. Every answer is compared with exact rational arithmetic on the same numbers. '
        'Distinct: (kind of input, function, exact configuration).')
P = cg.Point


def orient(a, b, c):
    """> 0: counter-clockwise"""
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def frac(p):
    return Fr(float(p[0])), Fr(float(p[1]))


def on_segment(a, b, c):
    """b on the closed segment a c"""
    return orient(a, c, b) == 0 and min(a[0], c[0]) <= b[0] <= max(a[0], c[0]) and min(a[1], c[1]) <= b[1] <= max(a[1], c[1])


def dist_to_segment(p, a, c):
    p, a, c = (np.array([float(z) for z in q]) for q in (p, a, c))
    d = c - a
    L = d @ d
    t = 0 if L == 0 else min(1, max(0, (p - a) @ d / L))
    return float(np.linalg.norm(p - a - t * d))


def points(rng, n):
    """n points with exact coordinates, exact degeneracies likely in the grid modes."""
    mode = rng.choice(['grid', 'dyadic', 'float', 'scaled'])
    if mode == 'grid':
        return mode, [np.array(p, float) for p in rng.integers(-3, 4, (n, 2))]
    if mode == 'dyadic':
        off = rng.integers(-50, 50, 2)
        return mode, [np.array(p) / 4. + off for p in rng.integers(-6, 7, (n, 2))]
    if mode == 'float':
        return mode, [p for p in rng.normal(size=(n, 2))]
    s = 10. ** rng.integers(-2, 4)
    return mode, [p * s for p in rng.normal(size=(n, 2))]


def give(rng, p):
    k = rng.integers(4)
    return p if k == 0 else p.tolist() if k == 1 else tuple(p) if k == 2 else P(*p)


def case(mon, rng, i, tier):
    mode, pts = points(rng, 4)
    exact = mode in ('grid', 'dyadic')
    if exact and rng.random() < .5:      # make degeneracies common
        k = rng.integers(5)
        a, b, c, d = pts
        if k == 0:
            pts[2] = a + (b - a) * rng.choice([0, .5, 1, 2, -1, 1.5])
        elif k == 1:
            pts[2], pts[3] = a + (b - a) * rng.choice([0, .5, 1, 2, -1]), a + (b - a) * rng.choice([0, .25, 1, 3, -2])
        elif k == 2:
            pts[3] = c + (b - a) * rng.choice([1, -1, .5])
        elif k == 3:
            pts[int(rng.integers(4))] = pts[int(rng.integers(4))].copy()
        else:
            pts[3] = a + (b - a) * .5 + (a + (b - a) * .5 - c)
    F = [frac(p) for p in pts]
    scale = max(1e-6, max(np.abs(p - pts[0]).max() for p in pts))
    band = 0 if exact else 1e-6 * scale ** 2 + 1e-9
    mon.describe({'points': pts, 'mode': mode})
    det = lambda **d: {'points': pts, 'mode': mode, **d}

    # orientation
    for ids in ((0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 1, 0), (0, 0, 1), (1, 0, 1)):
        e = orient(*(F[j] for j in ids))
        if abs(e) <= band and not exact:
            continue
        g = [give(rng, pts[j]) for j in ids]
        s = (e > 0) - (e < 0)
        got = (bool(utils.is_ccw(*g)), bool(utils.is_cw(*g)), bool(utils.is_collinear(*g)))
        mon.ok('orientation', got == (s > 0, s < 0, s == 0), lambda: det(triple=ids, got=got, exact=s))
        v = utils.orientation_val(*g)
        mon.ok('orientation', abs(float(v) + float(e)) <= 1e-9 * (1 + scale ** 2), lambda: det(triple=ids, got=v, exact=-float(e)))
        if s == 0:
            mon.seen('collinear_exact')
        mon.distinct(mode, 'orientation', s, type(g[0]).__name__)
    A, B, C = (np.array([pts[j] for j in ids]) for ids in ((0, 1, 2), (1, 2, 3), (2, 3, 0)))
    got = cg.np_orientation_val(A, B, C)
    e = [-float(orient(F[x], F[y], F[z])) for x, y, z in ((0, 1, 2), (1, 2, 3), (2, 3, 0))]
    mon.ok('array_orientation', np.shape(got) == (3,) and np.abs(got - e).max() <= 1e-9 * (1 + scale ** 2), lambda: det(got=got, exact=e))

    # betweenness
    for ids in ((0, 2, 1), (0, 1, 2), (2, 0, 3)):
        a, b, c = (F[j] for j in ids)
        yes = on_segment(a, b, c)
        if not yes and dist_to_segment(b, a, c) < 1e-6:
            continue
        g = [give(rng, pts[j]) for j in ids]
        got = bool(utils.is_between(*g))
        mon.ok('between_yes' if yes else 'between_line_only' if orient(a, b, c) == 0 else 'between_no', got == yes, lambda: det(triple=ids, got=got, exact=yes))
        mon.distinct(mode, 'between', yes, orient(a, b, c) == 0)
    if not exact:
        t = rng.random()
        m = pts[0] + t * (pts[1] - pts[0])
        mon.ok('between_yes', bool(utils.is_between(pts[0], m, pts[1])), lambda: det(t=t))

    # segments a, b
    a1, a2, b1, b2 = F
    o = [orient(a1, a2, b1), orient(a1, a2, b2), orient(b1, b2, a1), orient(b1, b2, a2)]
    general = all(abs(v) > max(band, Fr(0)) for v in o)
    degenerate = F[0] == F[1] or F[2] == F[3]
    if general:
        cross = (o[0] > 0) != (o[1] > 0) and (o[2] > 0) != (o[3] > 0)
        got = bool(utils.intersect(*[give(rng, p) for p in pts]))
        mon.ok('crossing' if cross else 'no_crossing', got == cross, lambda: det(got=got, exact=cross))
        got = bool(cg.Line(P(*pts[0]), P(*pts[1])).intersects(cg.Line(P(*pts[2]), P(*pts[3]))))
        mon.ok('line_crosses', got == cross, lambda: det(got=got, exact=cross))
    if general or exact:
        if general:
            meet = cross
        else:
            meet = on_segment(b1, a1, b2) or on_segment(b1, a2, b2) or on_segment(a1, b1, a2) or on_segment(a1, b2, a2) or ((o[0] > 0) != (o[1] > 0) and (o[2] > 0) != (o[3] > 0) and 0 not in o)
        near = not meet and min(dist_to_segment(F[0], b1, b2), dist_to_segment(F[1], b1, b2), dist_to_segment(F[2], a1, a2), dist_to_segment(F[3], a1, a2)) < 1e-6
        den = (a2[0] - a1[0]) * (b2[1] - b1[1]) - (a2[1] - a1[1]) * (b2[0] - b1[0])
        if not near:
            ints = all((p == np.round(p)).all() for p in pts) and rng.random() < .3
            g = utils.get_intersection(*[p.astype(int) for p in pts] if ints else pts)
            h = utils.get_intersection(pts[2], pts[3], pts[0], pts[1])
            conf = 'point' if degenerate else 'collinear' if o[0] == 0 and o[1] == 0 else 'general' if general else 'touch'
            name = 'intersection_point' if general else 'touching' if meet and conf != 'collinear' else 'overlap' if meet else 'disjoint_collinear' if conf == 'collinear' else 'no_crossing'
            tol = 1e-6 * scale if den == 0 else 1e-6 * scale * max(1, float(scale ** 2 / abs(den)) * 1e-4)
            ok = (g is not None) == meet and (g is None or (dist_to_segment(g, a1, a2) < tol and dist_to_segment(g, b1, b2) < tol))
            mon.ok(name, ok, lambda: det(got=g, meet=meet, configuration=conf))
            ok = (h is None) == (g is None) and (g is None or den == 0 or np.linalg.norm(np.asarray(g) - h) < 2 * tol)
            mon.ok('symmetric', ok, lambda: det(got=g, swapped=h))
            if meet and den != 0:
                t = ((b1[0] - a1[0]) * (b2[1] - b1[1]) - (b1[1] - a1[1]) * (b2[0] - b1[0])) / den
                x = np.array([float(a1[0] + t * (a2[0] - a1[0])), float(a1[1] + t * (a2[1] - a1[1]))])
                mon.ok('intersection_point', np.linalg.norm(np.asarray(g, float) - x) < tol if g is not None else False, lambda: det(got=g, exact=x))
            mon.distinct(mode, 'get_intersection', conf, meet)

    # line, segment and ray objects
    if not degenerate:
        q = [P(*p) for p in pts]
        den = (a2[0] - a1[0]) * (b2[1] - b1[1]) - (a2[1] - a1[1]) * (b2[0] - b1[0])
        tests = (('line', cg.Line, 'line_intersection', -np.inf, np.inf), ('segment', cg.LineSegment, 'line_segment_intersection', 0, 1), ('ray', cg.Ray, 'ray_intersection', 0, np.inf))
        for name, K, f, lo, hi in tests:
            got = getattr(K(q[0], q[1]), f)(K(q[2], q[3]))
            swapped = getattr(K(q[2], q[3]), f)(K(q[0], q[1]))
            if den == 0:
                mon.ok('parallel', got is None and swapped is None, lambda: det(function=f, got=str(got)))
                continue
            if abs(den) < 1e-4 * scale ** 2 or abs(den) < 1e-9:
                continue
            t = ((b1[0] - a1[0]) * (b2[1] - b1[1]) - (b1[1] - a1[1]) * (b2[0] - b1[0])) / den
            u = ((b1[0] - a1[0]) * (a2[1] - a1[1]) - (b1[1] - a1[1]) * (a2[0] - a1[0])) / den
            if not exact and min(abs(float(z) - k) for z in (t, u) for k in (0, 1)) < 1e-6:
                continue
            hit = lo <= t <= hi and lo <= u <= hi
            x = np.array([float(a1[0] + t * (a2[0] - a1[0])), float(a1[1] + t * (a2[1] - a1[1]))])
            tol = 1e-7 * (scale + np.abs(x).max()) * max(1., float(scale ** 2 / abs(den)))
            for r in (got, swapped):
                mon.ok(name, (r is not None) == hit and (r is None or abs(r.x - x[0]) < tol and abs(r.y - x[1]) < tol), lambda: det(function=f, got=str(got), swapped=str(swapped), exact=x if hit else None))
            if name == 'segment' and hit and (t in (0, 1) or u in (0, 1)):
                mon.seen('segment_touch')
            if name == 'ray' and not hit:
                mon.seen('ray_behind')
            mon.distinct(mode, name, hit, t < 0, t > 1, u < 0, u > 1, t in (0, 1), u in (0, 1))
        # open segment between two points, ray from a point
        a, b, c = pts[:3]
        if np.linalg.norm(b - a) > 1e-3:
            L = np.array(utils.line(a, b).coords)
            ends = [(z - a) @ (b - a) / ((b - a) @ (b - a)) for z in L]
            off = max(abs(np.cross(np.r_[b - a, 0], np.r_[z - a, 0])[2]) / np.linalg.norm(b - a) for z in L)
            mon.ok('cut_segment', off < 1e-9 * (1 + np.abs(a).max()) and 0 < min(ends) < 1e-2 and 1 - 1e-2 < max(ends) < 1, lambda: det(got=L))
        if np.linalg.norm(c - b) > 1e-3:
            kw = {} if rng.random() < .5 else {'ray_inf_length': float(rng.choice([10, 1e3]))}
            L = np.array(utils.ray(a, b, c, **kw).coords)
            d = c - b
            ends = [(z - a) @ d / (d @ d) for z in L]
            off = max(abs(np.cross(np.r_[d, 0], np.r_[z - a, 0])[2]) / np.linalg.norm(d) / (1 + np.linalg.norm(z - a)) for z in L)
            far = kw.get('ray_inf_length', 1e4)
            mon.ok('cut_ray', off < 1e-9 * (1 + np.abs(a).max()) and 0 < min(ends) < 1e-2 and max(ends) > .99 * far, lambda: det(got=L, options=kw))
