"""Kernel points: equilateral triangle of bounded size inside the admissible kernel and, when it exists, the common kernel of the members."""
import numpy as np
import shapely
import shapely.geometry as sg
import oracle, pipe, scene
LEVEL = 'exploration'
CASES = {'quick': 700, 'thorough': 9000}
REQUIRED = {'equilateral': 1500, 'admissible': 1500, 'in_common_kernel': 700, 'not_on_robot_goal_line': 1500, 'reference_is_centroid': 1500, 'full_size': 300, 'merged_cluster': 300,
            'in_cluster_region': 100, 'previous_centre_outside': 100}
RULE = ('Random scenes driven through 1-5 steps, in which clusters persist while the room for their kernel moves; for every cluster with kernel points the points are checked against reference shadow sectors (view of every member from robot '
        'and goal), the reference kernels of the members, the reference selection set and the line robot-goal. '
        'Distinct: (mix, composition, options, whether a common kernel exists, octave of the side length).')


def case(mon, rng, i, tier):
    long = rng.random() < .4
    for s, r in pipe.loop(rng, p_exclude=.15, p_convex=.1, steps=int(rng.integers(3, 6)) if long else None, nmax=5 if long else 8, p_prev=.9 if long else .6, move=.8 if long else .5, mix=rng.choice(['convex', 'ellipses', 'plain', 'star', 'stars', 'mixed'])):
        mon.describe(s.params())
        if r.flag == pipe.INCOMPLETE:
            continue
        for c in r.clusters:
            bodies = scene.members(s, c)
            K = np.array(c.kernel_points, float)
            det = lambda **k: pipe.detail(s, r, c, **k)
            if not mon.ok('equilateral', K.shape == (3, 2), det):
                continue
            L = np.linalg.norm(K - np.roll(K, -1, 0), axis=1)
            mon.ok('equilateral', np.ptp(L) < 1e-9 + 1e-6 * L.max() and L.min() > 0, lambda: det(sides=L))
            mon.ok('size', L.max() <= r.eps * (1 + 1e-9), lambda: det(sides=L, eps=r.eps))
            centre = K.mean(0)
            for nm, p in (('x', r.x), ('xg', r.xg)):
                for b in bodies:
                    # distance from the shadow sector, for positions resolvable next to the apex
                    m = [pipe.admissible_margin(b, p, k) for k in list(K) + [centre]]
                    mon.ok('admissible', min(m) > -1e-6, lambda: det(excluded=nm, member=b.params(), margins=m))
            d = r.xg - r.x
            n = np.linalg.norm(d)
            if n > 1e-3:
                mon.ok('not_on_robot_goal_line', abs(oracle.cross(d, centre - r.x)) > 1e-10, lambda: det(centre=centre, value=oracle.cross(d, centre - r.x)))
            xr = np.asarray(c.cluster_obstacle.xr(), float)
            mon.ok('reference_is_centroid', np.linalg.norm(xr - centre) < 1e-9 * (1 + np.linalg.norm(centre)), lambda: det(xr=xr, centroid=centre))
            # selection set
            A = pipe.admissible_set(bodies, [r.x, r.xg])
            if 'exclude_obstacles' in r.kw and c.admissible_kernel is not None:
                A = A.intersection(c.admissible_kernel)     # further limitation, judged by C12
            ck = pipe.common_kernel(bodies)
            S = A.intersection(ck)
            tol = scene.star_tol(bodies)
            scale = min(min(b.shape.size for b in bodies), 1.)
            common = S.buffer(-2 * tol).area > 1e-3 * scale ** 2
            kernels = {True: 'in_common_kernel', False: None}[common]
            if common:
                ok = all(ck.buffer(2e-2 * scale + tol).contains(sg.Point(k)) for k in K)
                mon.ok('in_common_kernel', ok, lambda: det(common_kernel=ck.wkt[:600], admissible_common_area=S.area))
                T = S.buffer(-2 * tol)
            else:
                U = oracle.union([b.inner(100) for b in bodies])
                # every obstacle shrunk by itself: inside the union of the polygon representations as well
                T = A.intersection(oracle.union([b.inner(100).buffer(-2 * tol) for b in bodies])).buffer(-2 * tol)
                # no admissible common kernel: inside the obstacles of the cluster if possible
                small = S.buffer(2 * tol + 1e-3).is_empty or ck.buffer(2 * tol).area < 1e-7 or not all(pipe.is_star(b) for b in bodies)
                if small and T.area > 1e-3 * scale ** 2:
                    ok = all(U.buffer(2e-2 * scale + tol).contains(sg.Point(k)) for k in K)
                    mon.ok('in_cluster_region', ok, lambda: det(admissible_area=T.area))
                else:
                    T = None
            # the centre of the previous step may be no choice any more
            for q in r.kw.get('previous_clusters') or []:
                if {id(o) for o in q.obstacles} == {id(o) for o in c.obstacles} and T is not None and q.kernel_points is not None:
                    mon.seen('previous_centre_inside' if T.buffer(2e-2 * scale + 4 * tol).contains(sg.Point(np.mean(q.kernel_points, axis=0))) else 'previous_centre_outside')
            # as large as eps whenever the room around the centre allows it
            if T is not None and T.area > 0 and T.geom_type == 'Polygon' and T.contains(sg.Point(centre)):
                room = shapely.boundary(T).distance(sg.Point(centre))
                if room > 1.3 * r.eps:
                    mon.ok('full_size', abs(L[0] - r.eps) < 1e-6, lambda: det(room=room, side=L[0], eps=r.eps))
                elif common:
                    mon.ok('not_too_small', L[0] > .4 * min(r.eps, room), lambda: det(room=room, side=L[0], eps=r.eps))
            if pipe.merged(c):
                mon.seen('merged_cluster')
            mon.distinct(s.mix, sorted(b.kind for b in bodies), sorted(r.kw), common, int(np.log2(L[0])))
