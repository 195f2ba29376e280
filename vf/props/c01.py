"""Clusters are a partition of the obstacles and each cluster region covers its members."""
import numpy as np
import shapely.geometry as sg
import pipe, scene
LEVEL = 'exploration'
CASES = {'quick': 500, 'thorough': 9000}
REQUIRED = {'partition': 700, 'covers_member': 2000, 'merged_cluster': 300, 'member_point_interior': 3000, 'history_partition': 800}
RULE = ('Random scenes of 1-8 obstacles (ellipses, convex, starshaped and general polygons; uniform, dense, chain, ring, wall and pair layouts) driven '
        'through 1-3 steps with moving robot and obstacles, previous clusters, convexification and exclusion switched at random. Every result, complete or not, '
        'is compared with the obstacles given. Distinct: (mix, layout, number of obstacles, cluster sizes, flag, options).')


def partition(mon, s, r, clusters, name):
    want = sorted(id(o) for o in s.obs)
    got = sorted(id(o) for c in clusters for o in c.obstacles)
    return mon.ok(name, want == got, lambda: pipe.detail(s, r, given=[o.id() for o in s.obs], clusters=[[o.id() for o in c.obstacles] for c in clusters]))


def case(mon, rng, i, tier):
    for s, r in pipe.loop(rng, 'general' if rng.random() < .2 else None, p_exclude=.2, p_ws=.1, nmax=9):
        mon.describe(s.params())
        partition(mon, s, r, r.clusters, 'partition')
        if r.flag != pipe.INCOMPLETE:
            for stage in r.history:
                partition(mon, s, r, stage, 'history_partition')
        mon.distinct(s.mix, s.layout, len(s.obs), sorted(len(c.obstacles) for c in r.clusters), r.flag, sorted(r.kw))
        for cl in r.clusters:
            bodies = scene.members(s, cl)
            if None in bodies or not bodies:
                continue
            tol = scene.star_tol(bodies)
            P = cl.polygon()
            Q = P.buffer(tol)
            if pipe.merged(cl):
                mon.seen('merged_cluster')
            U = cl.polygon_excluding_hull()
            for b in bodies:
                m = b.inner(200)
                mon.ok('covers_member', Q.covers(m), lambda: pipe.detail(s, r, cl, member=b.params(), uncovered=m.difference(Q).area))
                mon.ok('excluding_hull_covers_member', U.buffer(tol).covers(m), lambda: pipe.detail(s, r, cl, member=b.params()))
                for _ in range(2):
                    p = b.glob(b.shape.interior_point(rng))
                    if b.signed(p)[1] < tol:
                        continue
                    mon.ok('member_point_interior', cl.cluster_obstacle.point_location(p) < 0, lambda: pipe.detail(s, r, cl, member=b.params(), point=p))
            exact = sum(b.inner(200).area for b in bodies)
            mon.ok('excluding_hull_is_union', U.area <= exact + sum(2 * tol * b.inner(60).length for b in bodies) + 1e-6 and P.buffer(tol).covers(U),
                   lambda: pipe.detail(s, r, cl, area=U.area, sum_of_members=exact))
