"""Completion flag, iteration limit and shape of the clustering result."""
import numpy as np
import shapely
import gen, oracle, pipe, scene
import starshaped_hull as SH
from core import Skip
LEVEL = 'exploration'
CASES = {'quick': 1800, 'thorough': 20000}
REQUIRED = {'complete_is_disjoint': 400, 'complete_when_disjoint_convex': 60, 'incomplete_when_inside': 60, 'incomplete_when_enclosed': 30, 'limit_too_low': 60, 'limit_sufficient': 60,
            'shape': 800, 'default_result': 150, 'single_iteration': 60, 'incomplete_for_a_reason': 30, 'limit_before_last_merge': 12, 'incomplete_between_pockets': 30, 'after_incomplete': 60}
RULE = ('Random scenes: pairwise disjoint convex obstacles, robot or goal inside an obstacle or a pocket, robot or goal enclosed by a closed ring of obstacles, robot and goal in pockets of one obstacle whose admissible kernel cones do not meet, and general scenes run with every '
        'iteration limit up to the number needed. An incomplete result without limit must have an obstacle or cluster in its last round with no kernel position excluding robot and goal (computed independently). Incomplete results are given to the next call as previous clusters. Flag, iteration count, number and kind of returned values and the fallback clusters are compared with what the situation requires. '
        'Distinct: (situation, mix, number of obstacles, flag, iterations, limit).')


def shape(mon, s, r, history):
    ok = len(r.raw) == (5 if history else 4) and r.flag in (0, 1, 2) and len(r.timing) == 4 and all(np.isfinite(t) and t >= 0 for t in r.timing) and r.n_iter == int(r.n_iter) and r.n_iter >= 0
    mon.ok('shape', ok, lambda: pipe.detail(s, r, timing=r.timing, n_iter=r.n_iter, returned=len(r.raw)))
    if r.flag == pipe.COMPLETE:
        mon.ok('shape', r.n_iter >= 1 and all(c.cluster_obstacle is not None and c.kernel_points is not None for c in r.clusters), lambda: pipe.detail(s, r, n_iter=r.n_iter))
    if r.flag != pipe.INCOMPLETE:
        P = [c.polygon() for c in r.clusters]
        over = [(i, j) for i in range(len(P)) for j in range(i) if P[i].intersection(P[j]).area > 1e-8]
        mon.ok('complete_is_disjoint', not over, lambda: pipe.detail(s, r, pairs=over))
    if history and r.flag == pipe.COMPLETE:
        mon.ok('history_length', len(r.history) == r.n_iter, lambda: pipe.detail(s, r, n_iter=r.n_iter, history=len(r.history)))
    if r.flag == pipe.INCOMPLETE:
        default(mon, s, r)


def default(mon, s, r):
    """Fallback: every obstacle stands for itself."""
    ok = len(r.clusters) == len(s.obs) and all(len(c.obstacles) == 1 and c.obstacles[0] is o and c.cluster_obstacle is o for c, o in zip(r.clusters, s.obs))
    mon.ok('default_result', ok, lambda: pipe.detail(s, r, clusters=[[o.id() for o in c.obstacles] for c in r.clusters], given=[o.id() for o in s.obs]))


def execute(s, history=True, **kw):
    r = scene.run(s, history=history, **kw)
    r.kw, r.t = kw, 0
    return r


def same(r, q):
    if r.flag == q.flag == pipe.INCOMPLETE:
        return r.n_iter == q.n_iter and [c.name for c in r.clusters] == [c.name for c in q.clusters]
    return [c.name for c in r.clusters] == [c.name for c in q.clusters] and r.flag == q.flag and r.n_iter == q.n_iter and \
        all(np.allclose(a.kernel_points, b.kernel_points, atol=5e-4) for a, b in zip(r.clusters, q.clusters))


def followed(mon, s, q, r=None):
    """The clusters of an incomplete result as previous clusters: as if there were none."""
    r = r or execute(s)
    n = execute(s, previous_clusters=q.clusters)
    mon.ok('after_incomplete', same(r, n), lambda: pipe.detail(s, n, without=[[c.name, c.kernel_points] for c in r.clusters], flag_without=r.flag, got=[[c.name, c.kernel_points] for c in n.clusters]))


def disjoint_convex(mon, rng):
    s = scene.make(rng, rng.choice(['convex', 'ellipses', 'polygons', 'plain']), rng.choice(['sparse', 'uniform', 'wall', 'pairs']))
    polys = [b.outer(200) for b in s.bodies]
    keep = []
    for k in range(len(polys)):
        if all(polys[k].distance(polys[j]) > 1e-2 for j in keep):
            keep.append(k)
    s.obs, s.bodies = [s.obs[k] for k in keep], [s.bodies[k] for k in keep]
    mon.describe(s.params())
    kw = {'make_convex': True} if rng.random() < .3 else {}
    if rng.random() < .3:
        kw['exclude_obstacles'] = True
    if rng.random() < .2:
        kw['max_iterations'] = 1
    r = execute(s, history=rng.random() < .5, **kw)
    det = lambda **k: pipe.detail(s, r, n_iter=r.n_iter, **k)
    shape(mon, s, r, len(r.raw) == 5)
    mon.ok('complete_when_disjoint_convex', r.flag == pipe.COMPLETE, det)
    mon.ok('single_iteration', r.n_iter == 1 and [[id(o) for o in c.obstacles] for c in r.clusters] == [[id(o)] for o in s.obs], det)
    if r.flag == pipe.COMPLETE:
        for c, b in zip(r.clusters, s.bodies):
            tol = b.rep_gap()
            mon.ok('disjoint_untouched', oracle.same_region(c.polygon(), b.inner(400), tol), lambda: det(cluster=c.name))
    mon.distinct('disjoint', s.mix, len(s.obs), r.flag, sorted(kw))


def inside(mon, rng):
    s = scene.make(rng)
    mon.describe(s.params())
    k = int(rng.integers(len(s.bodies)))
    b = s.bodies[k]
    p, how = None, 'inside'
    if not b.shape.convex and rng.random() < .5:
        # pocket: exterior, but seen all around
        how = 'pocket'
        for _ in range(60):
            q = b.glob(rng.uniform(b.shape.v.min(0), b.shape.v.max(0)))
            sd, m = b.signed(q)
            t = b.shape.view_range(b.loc(q)) if sd > 0 else 0
            if sd > 0 and m > 1e-3 and t > 2 * np.pi + 1e-3:
                p = q
                break
    if p is None:
        how = 'inside'
        for _ in range(60):
            q = b.glob(b.shape.interior_point(rng))
            if b.signed(q)[1] > 1e-3:
                p = q
                break
    if p is None:
        return
    robot = rng.random() < .5
    free = s.x, s.xg
    if robot:
        s.x = p
    else:
        s.xg = p
    r = execute(s, history=rng.random() < .5, **({'make_convex': True} if rng.random() < .3 else {}))
    shape(mon, s, r, len(r.raw) == 5)
    mon.ok('incomplete_when_inside', r.flag == pipe.INCOMPLETE, lambda: pipe.detail(s, r, inside=b.params(), robot=robot))
    mon.ok('incomplete_no_iteration', r.n_iter == 0, lambda: pipe.detail(s, r, n_iter=r.n_iter))
    s.x, s.xg = free
    if r.flag == pipe.INCOMPLETE and rng.random() < .5:
        followed(mon, s, r)
    mon.distinct('inside', how, b.kind, robot, len(s.obs))


def enclosed(mon, rng):
    """A closed ring of overlapping obstacles around robot or goal: no disjoint starshaped cover can leave it out."""
    s = scene.Scene()
    s.mix, s.layout, s.eps = 'convex', 'enclosure', .1
    n = int(rng.integers(4, 9))
    R = rng.uniform(1.5, 3)
    c = rng.uniform(-2, 2, 2)
    ph = rng.uniform(0, 6.28)
    s.obs, s.bodies = [], []
    from obstacles import Ellipse, StarshapedPolygon, motion_model as mm
    for k in range(n):
        t = ph + 2 * np.pi * k / n
        half, th = R * np.tan(np.pi / n) * 1.25 + .15, rng.uniform(.15, .4)
        rot = t + np.pi / 2
        ps = oracle.Pose(c + R * np.array([np.cos(t), np.sin(t)]), rot)
        if rng.random() < .4:
            a = np.array([half * 1.15, th])
            s.obs.append(Ellipse(a, n_pol=40, motion_model=mm.Static(ps.pos.copy(), rot)))
            s.bodies.append(oracle.Body(oracle.EllipseShape(a), ps, True, np.zeros(2), 'E', 40))
        else:
            v = np.array([[-half, -th], [half, -th], [half, th], [-half, th]])
            s.obs.append(StarshapedPolygon(v, motion_model=mm.Static(ps.pos.copy(), rot)))
            s.bodies.append(oracle.Body(oracle.PolygonShape(v), ps, True, np.zeros(2), 'C'))
    U = oracle.union([b.inner(100) for b in s.bodies])
    x = c + rng.normal(0, .1, 2)
    out = c + rng.choice([-1, 1]) * np.array([3 * R, rng.uniform(-1, 1)])
    if U.geom_type != 'Polygon' or len(U.interiors) == 0 or not any(shapely.Polygon(h).contains(shapely.Point(x)) for h in U.interiors):
        return
    if any(b.signed(x)[0] < 0 or b.signed(out)[0] < 0 for b in s.bodies):
        return
    # every pairwise link of the ring must also hold for the polygon representations
    P = oracle.union([b.inner(40).buffer(-1e-3) for b in s.bodies])
    if P.geom_type != 'Polygon' or len(P.interiors) == 0:
        return
    s.x, s.xg = (x, out) if rng.random() < .5 else (out, x)
    s.lo, s.hi = c - 3 * R, c + 3 * R
    mon.describe(s.params())
    r = execute(s, **({'make_convex': True} if rng.random() < .3 else {}))
    shape(mon, s, r, True)
    if r.flag == pipe.INCOMPLETE:
        reason(mon, s, r)
    mon.ok('incomplete_when_enclosed', r.flag == pipe.INCOMPLETE, lambda: pipe.detail(s, r))
    mon.distinct('enclosed', n, r.n_iter)


def slotted(rng):
    """A convex block with two slots that open towards each other's side."""
    while True:
        w, h = rng.uniform(1.2, 2.5), rng.uniform(.6, 1.5)
        P = shapely.box(-w, -h, w, h)
        for side in (-1, 1):
            m, t, l, g = np.array([side * rng.uniform(.1, .5) * w, h]), rng.uniform(.2, 1.2), rng.uniform(.4, 1.2), rng.uniform(.1, .35)
            d = np.array([side * np.sin(t), -np.cos(t)])
            n = np.array([-d[1], d[0]])
            P = P.difference(shapely.Polygon([m - d + n * g / 2, m + l * d + n * g / 2, m + l * d - n * g / 2, m - d - n * g / 2]))
        if P.geom_type == 'Polygon' and not P.interiors and P.is_valid:
            v = np.array(P.exterior.coords)[:-1]
            if np.linalg.norm(v - np.roll(v, 1, 0), axis=1).min() > .05:
                return v * rng.uniform(.6, 1.5) * np.array([rng.choice([-1, 1]), 1])


def opposite(mon, rng):
    """Robot and goal in pockets of one obstacle from which no common kernel position can be seen around it."""
    s = scene.make(rng, 'plain' if rng.random() < .3 else 'general', 'sparse', nmax=3)
    v = slotted(rng) if rng.random() < .9 else gen.nonstar_vertices(rng, rng.uniform(.7, 1.6))
    from obstacles import Polygon, motion_model as mm
    ps = oracle.Pose(rng.uniform(-2, 2, 2), rng.uniform(-7, 7))
    b = oracle.Body(oracle.PolygonShape(v), ps, False, None, 'P')
    out = b.outer()
    keep = [k for k, q in enumerate(s.bodies) if q.outer(100).distance(shapely.convex_hull(out)) > .05]
    at = int(rng.integers(len(keep) + 1))
    s.obs, s.bodies = [s.obs[k] for k in keep], [s.bodies[k] for k in keep]
    s.obs.insert(at, Polygon(v, motion_model=mm.Static(ps.pos.copy(), ps.rot)))
    s.bodies.insert(at, b)
    P = b.inner()
    hollow = shapely.convex_hull(P).difference(P)
    pts = []
    for _ in range(400):
        q = b.glob(rng.uniform(b.shape.v.min(0), b.shape.v.max(0)))
        if hollow.contains(shapely.Point(q)) and b.signed(q)[1] > 2e-2 and np.pi < b.shape.view_range(b.loc(q)) < 2 * np.pi - 2e-2:
            pts.append((q, *pipe.view_interval(b, q), pipe.admissible_set([b], [q])))
            if len(pts) > 12:
                break
    pairs = []
    for i in range(len(pts)):
        for j in range(i):
            (_, a0, w0, A), (_, a1, w1, B) = pts[i], pts[j]
            # directions of the two cones apart (they do not meet far away) and the cones themselves apart
            far = abs((a0 + w0 / 2 - a1 - w1 / 2 + np.pi) % (2 * np.pi) - np.pi) - (2 * np.pi - w0) / 2 - (2 * np.pi - w1) / 2
            if far > .1 and A.distance(B) > 1e-2:
                pairs.append((i, j))
    if not pairs:
        return
    i, j = pairs[int(rng.integers(len(pairs)))]
    i, j = (i, j) if rng.random() < .5 else (j, i)
    s.x, s.xg = pts[i][0], pts[j][0]
    mon.describe(s.params())
    r = execute(s, history=rng.random() < .5)
    shape(mon, s, r, len(r.raw) == 5)
    mon.ok('incomplete_between_pockets', r.flag == pipe.INCOMPLETE and r.n_iter == 0, lambda: pipe.detail(s, r, n_iter=r.n_iter, inside=b.params()))
    mon.distinct('opposite', len(v), len(s.obs), at)


def reason(mon, s, r):
    """Without limits a result is incomplete only if robot and goal cannot be excluded from an obstacle or a cluster."""
    for b in s.bodies:
        for p in (s.x, s.xg):
            sd, m = b.signed(p)
            if sd < 0 or m < 1e-2 or not b.shape.convex and b.shape.view_range(b.loc(p)) > 2 * np.pi - 1e-2:
                mon.seen('not_free_exterior')
                return
    groups = [[b] for b in s.bodies] if r.n_iter == 0 else [scene.members(s, c) for c in r.history[-1]]
    areas = [pipe.admissible_set(g, [s.x, s.xg]).area for g in groups]
    mon.ok('incomplete_for_a_reason', min(areas) < 1e-2, lambda: pipe.detail(s, r, n_iter=r.n_iter, kernel_areas=areas, groups=[c.name for c in r.history[-1]] if r.n_iter else 'single'))


def limits(mon, rng):
    s = scene.make(rng, layout=rng.choice(['cascade', 'staircase', 'dense', 'chain', 'pairs', 'wall', 'uniform', 'ring']), nmax=9)
    mon.describe(s.params())
    kw = {'make_convex': True} if rng.random() < .2 else {}
    r = execute(s, **kw)
    shape(mon, s, r, True)
    if r.flag == pipe.INCOMPLETE:
        reason(mon, s, r)
    if r.flag != pipe.COMPLETE:
        mon.distinct('limits', s.mix, s.layout, len(s.obs), r.flag, r.n_iter)
        return
    for m in range(1, r.n_iter + 2):
        q = execute(s, history=bool(m % 2), max_iterations=m, **kw)
        shape(mon, s, q, bool(m % 2))
        if m < r.n_iter:
            if m > 1:
                mon.seen('limit_after_round')
                if len(r.clusters) == 1:
                    mon.seen('limit_before_last_merge')
            if rng.random() < .5 and not kw and q.flag == pipe.INCOMPLETE:
                followed(mon, s, q, r)
            mon.ok('limit_too_low', q.flag == pipe.INCOMPLETE and q.n_iter <= m, lambda: pipe.detail(s, q, needed=r.n_iter, limit=m, n_iter=q.n_iter))
        else:
            mon.ok('limit_sufficient', same(r, q), lambda: pipe.detail(s, q, needed=r.n_iter, limit=m, n_iter=q.n_iter))
        mon.distinct('limits', s.mix, s.layout, r.n_iter, m)


def case(mon, rng, i, tier):
    [disjoint_convex, inside, enclosed, opposite, limits][int(rng.choice(5, p=[.22, .2, .16, .16, .26]))](mon, rng)
