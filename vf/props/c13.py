"""Progress, determinism and invariance of the clustering."""
import numpy as np
import shapely
import gen, oracle, pipe, scene
from obstacles import Frame, Ellipse, Polygon, StarshapedPolygon, motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 600, 'thorough': 12000}
REQUIRED = {'coarsening': 250, 'strict_progress': 250, 'bounded_rounds': 300, 'repeatable': 300, 'order_independent': 120, 'translation': 110, 'coinciding': 40, 'final_from_history': 250, 'as_new_objects': 200}
RULE = ('Random scenes with up to 12 obstacles, with robot and goal also coinciding. The recorded history must get strictly coarser every round (so there are at most as many rounds as obstacles), '
        'the same call gives the same result twice (also with reports printed), for every order of the obstacle list, with the whole scene shifted, and with newly created obstacle objects in place of objects used at earlier poses. A logical step budget bounds every call. '
        'Distinct: (mix, layout, number of obstacles, rounds, cluster sizes, flag).')


def part(clusters):
    return sorted(tuple(sorted(o.id() for o in c.obstacles)) for c in clusters)


def kp(r):
    return {tuple(sorted(o.id() for o in c.obstacles)): np.array(c.kernel_points) for c in r.clusters}


def same(r, q, shift=0., tol=1e-3):
    if r.flag != q.flag or r.n_iter != q.n_iter or part(r.clusters) != part(q.clusters):
        return False
    if r.flag == pipe.INCOMPLETE:
        return True
    a, b = kp(r), kp(q)
    return all(np.abs(a[k] + shift - b[k]).max() < tol for k in a)


def fresh(o, b):
    m = mm.Static(b.pose.pos.copy(), b.pose.rot) if b.has_mm else None
    kw = dict(motion_model=m, id=o.id())
    if b.kind == 'E':
        return Ellipse(np.array(b.shape.a), xr=np.array(o.xr(Frame.OBSTACLE)), n_pol=b.n_pol, **kw)
    if hasattr(o, 'xr'):
        return StarshapedPolygon(np.array(b.shape.v), xr=np.array(o.xr(Frame.OBSTACLE)), **kw)
    return Polygon(np.array(b.shape.v), **kw)


def used(mon, rng):
    """Objects that went through earlier steps at other poses are clustered like new ones."""
    s = scene.make(rng, rng.choice(['convex', 'ellipses', 'polygons', 'plain', 'star', 'stars']), nmax=8, generic=True, temps=False)
    kw = {'make_convex': True} if rng.random() < .2 else {}
    poses = [[(b.pose.pos.copy(), b.pose.rot)] for b in s.bodies]
    log = []
    for step in range(int(rng.integers(2, 5))):
        if step:
            mode = int(rng.integers(4))
            keep = rng.random() < .3
            for o, b, old in zip(s.obs, s.bodies, poses):
                if not b.has_mm or keep and rng.random() < .5:
                    continue
                p, a = b.pose.pos, b.pose.rot
                if mode == 0:           # turn only
                    a = a + rng.normal(0, 1)
                elif mode == 1:         # move only
                    p = p + rng.normal(0, .5, 2)
                elif mode == 2:         # both
                    p, a = p + rng.normal(0, .3, 2), a + rng.normal(0, 1)
                else:                   # return to an earlier pose
                    p, a = old[int(rng.integers(len(old)))]
                gen.model_of(o).set_pos(np.array(p))
                gen.model_of(o).set_rot(float(a))
                b.pose = oracle.Pose(np.array(p), float(a))
                old.append((np.array(p), float(a)))
            log.append([mode, [[b.pose.pos.tolist(), b.pose.rot] for b in s.bodies]])
        seed = int(rng.integers(2 ** 31))
        new = [fresh(o, b) for o, b in zip(s.obs, s.bodies)]
        np.random.seed(seed)
        r = scene.run(s, **kw)
        r.kw, r.t = kw, step
        mine, s.obs = s.obs, new
        np.random.seed(seed)
        q = scene.run(s, **kw)
        q.kw, q.t = kw, step
        s.obs = mine
        mon.ok('as_new_objects', same(r, q), lambda: pipe.detail(s, r, poses=log, used=part(r.clusters), new=part(q.clusters), kernel_points=kp(r) if r.flag else None, kernel_points_new=kp(q) if q.flag else None))
        mon.distinct('used', s.mix, len(s.obs), r.n_iter, step)


def case(mon, rng, i, tier):
    if i % 3 == 0:
        return used(mon, rng)
    generic = rng.random() < .7     # no ties between symmetric alternatives
    s = scene.make(rng, rng.choice(['convex', 'ellipses', 'polygons', 'plain', 'star', 'stars']) if generic else None, nmax=12 if rng.random() < .2 else 8, generic=generic, temps=False)
    mon.describe(s.params())
    if rng.random() < .15:
        s.xg = s.x.copy() + (rng.normal(0, 1e-7, 2) if rng.random() < .3 else 0)
    kw = {}
    if rng.random() < .2:
        kw['make_convex'] = True
    if rng.random() < .2:
        kw['exclude_obstacles'] = True
    seed = int(rng.integers(2 ** 31))

    def go(**report):
        np.random.seed(seed)
        r = scene.run(s, **kw, **report)
        r.kw, r.t = kw, 0
        return r
    r = go()
    det = lambda q=r, **k: pipe.detail(s, q, n_iter=q.n_iter, partition=part(q.clusters), **k)
    if np.linalg.norm(s.x - s.xg) < 1e-6:
        mon.seen('coinciding')
    mon.ok('bounded_rounds', r.n_iter <= max(1, len(s.obs)), det)
    H = r.history
    if r.flag != pipe.INCOMPLETE:
        for a, b in zip(H, H[1:]):
            sa, sb = [set(q) for q in part(a)], [set(q) for q in part(b)]
            mon.ok('coarsening', all(any(p <= q for q in sb) for p in sa), lambda: det(before=part(a), after=part(b)))
            mon.ok('strict_progress', len(sb) < len(sa), lambda: det(before=part(a), after=part(b)))
        mon.ok('final_from_history', part(H[-1]) == part(r.clusters), lambda: det(last=part(H[-1])))
        mon.ok('starts_single', part(H[0]) == sorted((o.id(),) for o in s.obs), lambda: det(first=part(H[0])))
    before = {k: v.copy() for k, v in kp(r).items()} if r.flag != pipe.INCOMPLETE else None
    names = [c.name for c in r.clusters]
    # printing reports makes no difference
    a, c = (bool(z) for z in rng.integers(2, size=2))
    q = go(verbose=a, timing_verbose=c)
    mon.seen('reports_%d%d' % (a, c))
    mon.ok('repeatable', same(r, q) and [c.name for c in q.clusters] == names, lambda: det(q, first=part(r.clusters)))
    mon.distinct(s.mix, s.layout, len(s.obs), r.n_iter, sorted(len(c.obstacles) for c in r.clusters), r.flag)
    if kw.get('make_convex') or not generic:
        return      # which of two hulls is taken depends on the order by design
    perm = rng.permutation(len(s.obs))
    s.obs, s.bodies = [s.obs[k] for k in perm], [s.bodies[k] for k in perm]
    q = go()
    mon.ok('order_independent', same(r, q), lambda: det(q, order=perm, other=part(r.clusters), kp=kp(r) if r.flag else None, kq=kp(q) if q.flag else None))
    if all(b.has_mm for b in s.bodies):
        d = rng.uniform(-1, 1, 2) * rng.choice([10., 30., 100.])
        for o, b in zip(s.obs, s.bodies):
            b.pose.pos = b.pose.pos + d
            o.set_motion_model(mm.Static(b.pose.pos.copy(), b.pose.rot))
        s.x, s.xg = s.x + d, s.xg + d
        q = go()
        mon.ok('translation', same(r, q, d), lambda: det(q, shift=d, other=part(r.clusters), kp=kp(r) if r.flag else None, kq=kp(q) if q.flag else None))
