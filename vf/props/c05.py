"""The cluster region is exactly the obstacles plus their starshaped hulls: nothing missing, nothing added."""
import numpy as np
import shapely
import oracle, pipe, scene
LEVEL = 'exploration'
CASES = {'quick': 600, 'thorough': 10000}
REQUIRED = {'region': 800, 'point_in_region': 4000, 'point_outside_region': 4000, 'merged_cluster': 200, 'nonconvex_member': 150, 'untouched_obstacle': 300}
RULE = ('Random scenes driven through 1-4 steps; the region of every cluster of a complete result is compared with the union of the exact starshaped hulls of its members '
        'for the reported kernel points (convex hull with the kernel points for convex members, union of the triangles to all edges for polygons), by area and by point '
        'location; convexified clusters with the convex hull of it. Distinct: (mix, cluster composition, kernel points in/out of members, options).')


def case(mon, rng, i, tier):
    mix = rng.choice(['convex', 'ellipses', 'polygons', 'plain', 'star', 'stars', 'mixed', 'nonstar', 'general'], p=[.2, .1, .1, .1, .2, .1, .1, .05, .05])
    for s, r in pipe.loop(rng, mix=mix, p_exclude=.15, p_convex=.15, steps=int(rng.integers(1, 5))):
        mon.describe(s.params())
        if r.flag == pipe.INCOMPLETE:
            continue
        for c in r.clusters:
            bodies = scene.members(s, c)
            tol = scene.star_tol(bodies)
            P = c.polygon()
            own = any(c.cluster_obstacle is o for o in s.obs)
            if own:
                mon.seen('untouched_obstacle')
                E = bodies[0].inner(400)
                K = np.array(c.kernel_points)
                # the obstacle may stand for its cluster only if it needs no extension
                F = scene.expected_region(s, c)
                mon.ok('no_extension_needed', len(bodies) == 1 and F.difference(P.buffer(tol)).is_empty, lambda: pipe.detail(s, r, c, missing=F.difference(P).area))
            else:
                E = scene.expected_region(s, c)
                if pipe.convexified(s, r, c):
                    E = E.convex_hull
                    mon.seen('convexified')
            mon.ok('region', oracle.same_region(P, E, tol), lambda: pipe.detail(s, r, c, missing=E.difference(P).area, added=P.difference(E).area if P.is_valid else None))
            lo, hi = E.buffer(-tol), E.buffer(tol)
            for p in pipe.region_samples(rng, s, c, E, 10):
                q = shapely.Point(p)
                if lo.contains(q):
                    loc = c.cluster_obstacle.point_location(p)
                    mon.ok('point_in_region', loc < 0, lambda: pipe.detail(s, r, c, point=p, location=loc))
                elif not hi.contains(q):
                    loc = c.cluster_obstacle.point_location(p)
                    mon.ok('point_outside_region', loc > 0, lambda: pipe.detail(s, r, c, point=p, location=loc))
            if pipe.merged(c):
                mon.seen('merged_cluster')
            if pipe.nonconvex_members(s, c):
                mon.seen('nonconvex_member')
            mon.distinct(s.mix, sorted(b.kind for b in bodies), sorted(r.kw), sum(b.signed(k)[0] < 0 for b in bodies for k in np.array(c.kernel_points)))
