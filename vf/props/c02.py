"""Complete results have pairwise disjoint cluster regions."""
import itertools
import numpy as np
import shapely
import gen, oracle, pipe, scene
from core import Skip
from obstacles import Frame, Polygon, StarshapedPolygon
LEVEL = 'exploration'
CASES = {'quick': 900, 'thorough': 15000}
REQUIRED = {'pair_disjoint': 2000, 'point_in_one': 3000, 'merged_cluster': 300, 'convexified': 50, 'close_pair': 50, 'grid_pair': 50}
RULE = ('Random scenes with close and overlapping obstacles (and boxes on a grid that share edges and corners) driven through 1-3 steps with all options. For every complete result (and results with the convex hull '
        'timeout flag, produced with a controlled clock) all pairs of cluster regions are intersected and points drawn around the smallest gaps are located in all clusters. '
        'Distinct: (mix, layout, cluster sizes, options, decade of the smallest gap).')


def grid(rng):
    """Boxes (and an occasional L) with exact coordinates, many of which share an edge or a corner only."""
    s = scene.Scene()
    s.mix, s.layout, s.eps = 'boxes', 'grid', .1
    s.obs, s.bodies = [], []
    k = int(rng.integers(2, 6))
    for _ in range(int(rng.integers(2, 7))):
        x, y = rng.integers(-k, k + 1, 2)
        w, h = rng.integers(1, 4, 2)
        v = np.array([[x, y], [x + w, y], [x + w, y + h], [x, y + h]]) / 2
        if rng.random() < .2 and w > 1 and h > 1:
            v = np.array([[x, y], [x + w, y], [x + w, y + 1], [x + 1, y + 1], [x + 1, y + h], [x, y + h]]) / 2
        t = rng.integers(-8, 9, 2) / 4 * (rng.random() < .5)
        m = gen.mm.Static(t.copy()) if t.any() else None
        P = shapely.Polygon(v - t)
        star = rng.random() < .7
        s.obs.append(StarshapedPolygon(P, motion_model=m) if star else Polygon(P, motion_model=m))
        s.bodies.append(oracle.Body(oracle.PolygonShape(v - t), oracle.Pose(t, 0.), m is not None, s.obs[-1].xr(Frame.OBSTACLE) if star else None, 'C' if len(v) == 4 else 'S'))
    s.lo, s.hi = np.full(2, -k / 2 - 1.5), np.full(2, k / 2 + 3.)
    s.x, s.xg = scene.free_point(rng, s), scene.free_point(rng, s)
    return s


def case(mon, rng, i, tier):
    if rng.random() < .25:
        try:
            return regions(mon, rng, pipe.loop(rng, s=grid(rng), p_exclude=.15, p_convex=.4, move=0.))
        except shapely.errors.GEOSException:
            raise Skip('degenerate overlay')
    layout = rng.choice(['uniform', 'dense', 'chain', 'ring', 'pairs', 'wall', 'sparse'], p=[.2, .05, .15, .15, .2, .1, .15])
    regions(mon, rng, pipe.loop(rng, layout=layout, p_exclude=.15, p_ws=.05, p_convex=.4, nmax=10))


def regions(mon, rng, runs):
    for s, r in runs:
        mon.describe(s.params())
        if r.flag == pipe.INCOMPLETE:
            continue
        gap = np.inf
        polys = [c.polygon() for c in r.clusters]
        for c in r.clusters:
            if pipe.merged(c):
                mon.seen('merged_cluster')
            if pipe.convexified(s, r, c):
                mon.seen('convexified')
        for (a, pa), (b, pb) in itertools.combinations(zip(r.clusters, polys), 2):
            d = pa.distance(pb)
            gap = min(gap, d)
            mon.ok('pair_disjoint', d > 0, lambda: pipe.detail(s, r, a, other=b.name, overlap=pa.intersection(pb).area))
            if s.layout == 'grid':
                mon.seen('grid_pair')
            if d < .2:
                mon.seen('close_pair')
                q = np.array([p.coords[0] for p in shapely.ops.nearest_points(pa, pb)])
                pts = q.mean(0) + rng.normal(0, .05, (3, 2))
            else:
                pts = pipe.region_samples(rng, s, a, pa, 1)
            for p in pts:
                ins = [c.name for c in r.clusters if c.cluster_obstacle.point_location(p) < 0]
                if len(ins) > 1:
                    # an ellipse reaches slightly over its polygon representation
                    deep = all(c.polygon().buffer(-scene.star_tol(scene.members(s, c))).contains(shapely.Point(p)) for c in r.clusters if c.name in ins)
                    if not deep:
                        continue
                mon.ok('point_in_one', len(ins) <= 1, lambda: pipe.detail(s, r, None, point=p, inside=ins))
        mon.distinct(s.mix, s.layout, sorted(len(c.obstacles) for c in r.clusters), sorted(r.kw), -9 if gap <= 0 else int(np.floor(np.log10(min(gap, 100)))))
