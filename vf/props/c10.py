"""Convexification replaces a cluster by its convex hull exactly when that is safe."""
import numpy as np
import shapely
import shapely.geometry as sg
import oracle, pipe, scene
LEVEL = 'exploration'
CASES = {'quick': 700, 'thorough': 12000}
REQUIRED = {'same_partition': 350, 'hull_or_unchanged': 800, 'kept_with_reason': 60, 'convexified': 250, 'x_in_hull': 8, 'blocked_by_cluster': 20}
RULE = ('Random scenes clustered with and without convexification under the same seed. Every convexified region must be the convex hull of the unconvexified one; every cluster that was not '
        'replaced although it is not convex needs a reason: its hull contains robot or goal or meets another resulting cluster. Distinct: (mix, composition, reason or replaced).')


def case(mon, rng, i, tier):
    s = scene.make(rng, rng.choice(['star', 'mixed', 'stars', 'nonstar', 'convex', 'plain']), rng.choice(['uniform', 'dense', 'chain', 'pairs', 'wall', 'sparse', 'cascade', 'staircase']), nmax=7)
    if rng.random() < .5:
        # robot or goal in a bay of a cluster
        q = s.bodies[int(rng.integers(len(s.bodies)))]
        try:
            p = scene.free_point(rng, s, 0., q.pose.pos - q.shape.size * .6, q.pose.pos + q.shape.size * .6)
            if scene.free_for_all(s, p):
                s.x = p
        except Exception:
            pass
    mon.describe(s.params())
    kw = {'exclude_obstacles': True} if rng.random() < .15 else {}
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    r0 = scene.run(s, **kw)
    if r0.flag != pipe.COMPLETE:
        return
    xr0 = {c.name: np.array(c.cluster_obstacle.xr()) for c in r0.clusters}
    P0 = {c.name: c.polygon() for c in r0.clusters}
    np.random.seed(seed)
    r = scene.run(s, make_convex=True, **kw)
    r.kw, r.t = dict(kw, make_convex=True), 0
    if not mon.ok('same_partition', r.flag == pipe.COMPLETE and [c.name for c in r.clusters] == [c.name for c in r0.clusters], lambda: pipe.detail(s, r, without=[c.name for c in r0.clusters])):
        return
    P = [c.polygon() for c in r.clusters]
    for j, c in enumerate(r.clusters):
        A = P0[c.name]
        H = A.convex_hull
        tol = 2e-6
        conv = oracle.same_region(P[j], H, tol)
        kept = oracle.same_region(P[j], A, tol)
        det = lambda **k: pipe.detail(s, r, c, area=P[j].area, before=A.area, hull=H.area, **k)
        if not mon.ok('hull_or_unchanged', conv or kept, det):
            continue
        near = min(H.exterior.distance(sg.Point(p)) for p in (s.x, s.xg))
        ins = any(H.contains(sg.Point(p)) for p in (s.x, s.xg))
        if H.area - A.area < 1e-6 or near < 1e-6:
            continue
        if conv:
            mon.ok('convexified', not ins, det)
            mon.ok('stays_starshaped_about_reference', H.buffer(1e-6).contains(sg.Point(c.cluster_obstacle.xr())) and np.allclose(c.cluster_obstacle.xr(), xr0[c.name], atol=1e-6), det)
            mon.ok('declared_convex', c.cluster_obstacle.is_convex(), det)
            for k2 in range(len(P)):
                if k2 != j:
                    mon.ok('disjoint_after', not H.intersects(P[k2]) or H.intersection(P[k2]).area < 1e-9, lambda: det(other=r.clusters[k2].name))
        else:
            blocked = any(H.distance(P[k2]) < 1e-6 for k2 in range(len(P)) if k2 != j)
            mon.ok('kept_with_reason', ins or blocked, det)
            if ins:
                mon.seen('x_in_hull')
            if blocked:
                mon.seen('blocked_by_cluster')
        mon.distinct(s.mix, sorted(b.kind for b in scene.members(s, c)), conv, ins)
