"""Every cluster region is starshaped with respect to its reference point and kernel points."""
import numpy as np
import shapely
import oracle, pipe, scene
LEVEL = 'exploration'
CASES = {'quick': 600, 'thorough': 10000}
REQUIRED = {'simple_region': 1000, 'starshaped_reference': 1000, 'starshaped_kernel_points': 1000, 'reference_interior': 1000, 'merged_cluster': 300, 'nonconvex_member': 150}
RULE = ('Random scenes driven through 1-3 steps with all options; for every cluster of a complete result all segments from the reference point and from the three '
        'kernel points to every vertex and edge midpoint of the region must stay in the region (tolerance: gap of the polygon representation of its ellipses). '
        'Distinct: (mix, cluster composition, options, number of vertices of the region).')


def case(mon, rng, i, tier):
    mix = rng.choice(['convex', 'ellipses', 'polygons', 'plain', 'star', 'stars', 'mixed', 'nonstar', 'general'], p=[.2, .1, .1, .1, .2, .1, .1, .05, .05])
    for s, r in pipe.loop(rng, mix=mix, p_exclude=.15, p_convex=.25):
        mon.describe(s.params())
        if r.flag == pipe.INCOMPLETE:
            continue
        for c in r.clusters:
            bodies = scene.members(s, c)
            tol = scene.star_tol(bodies)
            P = c.polygon()
            mon.ok('simple_region', P.is_valid and P.geom_type == 'Polygon' and P.area > 0, lambda: pipe.detail(s, r, c, type=P.geom_type, wkt=P.wkt[:500]))
            if not P.is_valid:
                continue
            xr = np.array(c.cluster_obstacle.xr(), float)
            mon.ok('reference_interior', P.buffer(-1e-9).contains(shapely.Point(xr)) and c.cluster_obstacle.point_location(xr + 1e-9) < 0,
                   lambda: pipe.detail(s, r, c, xr=xr))
            e = oracle.region_starshaped(P, xr, tol)
            mon.ok('starshaped_reference', e == 0, lambda: pipe.detail(s, r, c, xr=xr, escape=e))
            e = max(oracle.region_starshaped(P, k, tol) for k in np.array(c.kernel_points))
            mon.ok('starshaped_kernel_points', e == 0, lambda: pipe.detail(s, r, c, escape=e))
            if pipe.merged(c):
                mon.seen('merged_cluster')
            if pipe.nonconvex_members(s, c):
                mon.seen('nonconvex_member')
            mon.distinct(s.mix, sorted(b.kind for b in bodies), sorted(r.kw), len(P.exterior.coords))
