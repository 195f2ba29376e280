"""Starshaped hull of convex obstacles: together with the obstacle it is the convex hull of obstacle and kernel points."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle
import starshaped_hull as SH
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = {'hull': 2000, 'no_extension': 300, 'partly_inside': 300, 'single_point': 300, 'many_points': 300, 'list_union': 300, 'list_none': 30}
RULE = ('Random convex obstacles (ellipses, convex polygons of both classes, posed arbitrarily) and 1-5 kernel points inside, outside, near the boundary, far away and aligned with axes. '
        'Extension united with the obstacle is compared with the convex hull of the reference shape and the points. Lists of convex obstacles with the union of their hulls. '
        'Distinct: (class, number of points, how many inside, decade of the largest distance).')


def points(rng, b, n):
    mode = rng.choice(['in', 'out', 'mix', 'tri', 'far'])
    out = []
    c = gen.probe(rng, b, 1.5) if mode == 'tri' else None
    for _ in range(n):
        if mode == 'in':
            out.append(b.glob(b.shape.interior_point(rng) * .95))
        elif mode == 'tri':
            out.append(c + rng.normal(0, .1, 2))
        elif mode == 'far':
            out.append(b.pose.pos + rng.normal(0, 20, 2) * b.shape.size)
        else:
            out.append(gen.probe(rng, b, 1.5) if rng.random() < .8 or mode == 'out' else b.glob(b.shape.interior_point(rng)))
    return np.array(out)


def good(b, K):
    """No kernel point so close to the boundary, or to the vertical extreme lines of an ellipse, that tangents are ill conditioned."""
    for k in K:
        if b.signed(k)[1] < 1e-3 * b.shape.size or np.linalg.norm(k - b.pose.pos) > 300 * b.shape.size:
            return False
        if b.kind == 'E' and abs(b.shape.a[0] ** 2 - b.loc(k)[0] ** 2) < 1e-3:
            return False
    return True


def exact(b, K):
    pts = b.boundary(720) if b.kind == 'E' else b.glob(b.shape.v)
    return sg.MultiPoint(np.vstack([pts, K])).convex_hull


def tol(b, K):
    d = np.abs(K - b.pose.pos).max() + b.shape.size
    return 1e-5 * d + (b.shape.a.max() * 1e-5 * max(1, b.shape.a.max() / b.shape.a.min()) * 2 if b.kind == 'E' else 0)


def case(mon, rng, i, tier):
    for _ in range(3):
        o, b = gen.obstacle(rng, rng.choice(list('ECQ')))
        mon.describe(b.params())
        n = int(rng.choice([1, 2, 3, 3, 4, 5]))
        K = points(rng, b, n)
        if not good(b, K):
            continue
        K0 = K.copy()
        H = SH.kernel_starshaped_hull(o, K)
        inside = sum(b.signed(k)[0] < 0 for k in K)
        det = lambda **k: {'body': b.params(), 'K': K, 'inside': inside, 'hull': None if H is None else H.wkt[:600], **k}
        mon.ok('kernel_points_untouched', np.array_equal(K, K0), det)
        if inside == n:
            mon.ok('no_extension', H is None or H.is_empty, det)
            if inside == n:
                mon.distinct(b.kind, n, 'in')
            continue
        own = b.inner(720)
        E = exact(b, K)
        reg = oracle.union([H, own]) if H is not None else own
        t = tol(b, K)
        mon.ok('hull', H.is_valid and oracle.same_region(reg, E, t), lambda: det(missing=E.difference(reg).area, added=reg.difference(E).area, tol=t))
        mon.ok('kernel_points_inside', all(reg.buffer(t).contains(sg.Point(k)) for k in K), det)
        mon.seen({1: 'single_point', 2: 'two_points'}.get(n, 'many_points'))
        if inside:
            mon.seen('partly_inside')
        mon.distinct(b.kind, n, inside, int(np.log10(np.abs(K - b.pose.pos).max() / b.shape.size + 1e-3) * 2))
    # list of obstacles
    bs = [gen.obstacle(rng, rng.choice(list('ECQ')), spread=1.5) for _ in range(int(rng.integers(1, 4)))]
    K = points(rng, bs[0][1], 3)
    if rng.random() < .15:
        # common interior points
        b0 = bs[0][1]
        bs = [gen.obstacle(rng, rng.choice(list('ECQ')), at=b0.pose.pos, pose_mode='full') for _ in range(2)]
        K = b0.pose.pos + rng.normal(0, .03, (3, 2))
    if all(good(b, K) for _, b in bs):
        H = SH.kernel_starshaped_hull([o for o, _ in bs], K)
        allin = all(b.signed(k)[0] < 0 for _, b in bs for k in K)
        det = lambda **k: {'bodies': [b.params() for _, b in bs], 'K': K, **k}
        if allin:
            mon.ok('list_none', H is None, det)
        else:
            own = oracle.union([b.inner(720) for _, b in bs])
            E = oracle.union([exact(b, K) if any(b.signed(k)[0] > 0 for k in K) else b.inner(720) for _, b in bs])
            reg = oracle.union([H, own])
            mon.ok('list_union', oracle.same_region(reg, E, max(tol(b, K) for _, b in bs)), lambda: det(missing=E.difference(reg).area, added=reg.difference(E).area))
