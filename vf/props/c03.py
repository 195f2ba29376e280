"""Robot and goal position stay outside every cluster region."""
import numpy as np
import shapely
import pipe, scene
LEVEL = 'exploration'
CASES = {'quick': 700, 'thorough': 12000}
REQUIRED = {'x_excluded': 1000, 'xg_excluded': 1000, 'merged_cluster': 300, 'convexified': 30, 'close_to_region': 150}
RULE = ('Random scenes with the robot and goal next to, between and in pockets of obstacles, driven through 1-4 steps with all options. Every cluster of every complete '
        'result must have both positions outside, by region and by point location. Distinct: (mix, layout, cluster size, options, decade of the distance).')


def case(mon, rng, i, tier):
    s = scene.make(rng, nmax=9)
    if rng.random() < .6:
        squeeze(rng, s)
    for s, r in pipe.loop(rng, s=s, p_exclude=.15, p_convex=.35, p_ws=.25, steps=int(rng.integers(1, 5))):
        mon.describe(s.params())
        if r.flag == pipe.INCOMPLETE:
            continue
        for c in r.clusters:
            P = c.polygon()
            for name, p in (('x_excluded', r.x), ('xg_excluded', r.xg)):
                d = P.distance(shapely.Point(p))
                out = not P.contains(shapely.Point(p)) and c.cluster_obstacle.point_location(np.array(p)) >= 0
                mon.ok(name, out, lambda: pipe.detail(s, r, c, position=p))
                if d < .05:
                    mon.seen('close_to_region')
                mon.distinct(s.mix, s.layout, len(c.obstacles), sorted(r.kw), -9 if d <= 0 else int(np.floor(np.log10(min(d, 100)))))
            if pipe.merged(c):
                mon.seen('merged_cluster')
            if pipe.convexified(s, r, c):
                mon.seen('convexified')


def squeeze(rng, s):
    """Robot and goal close to obstacles or between two of them."""
    for name in ('x', 'xg'):
        for _ in range(20):
            b = s.bodies[int(rng.integers(len(s.bodies)))]
            bd = b.boundary(24, rng.random())
            q = bd[int(rng.integers(len(bd)))]
            if rng.random() < .5 and len(s.bodies) > 1:
                b2 = s.bodies[int(rng.integers(len(s.bodies)))]
                bd2 = b2.boundary(24)
                q = (q + bd2[np.linalg.norm(bd2 - q, axis=1).argmin()]) / 2
            q = q + rng.normal(0, .03, 2)
            if all(sd > 0 and m > bb.rep_gap() + 2e-3 for bb in s.bodies for sd, m in [bb.signed(q)]):
                setattr(s, name, q)
                break
