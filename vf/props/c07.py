"""Continuity over time steps through previous clusters: reference point and identity of a cluster are kept."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle, pipe, scene
from oracle import cross
from obstacles import motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 12000}
REQUIRED = {'centre_kept': 800, 'identity_kept': 400, 'same_side': 80, 'unchanged_scene': 200, 'reordered_same_cluster': 60, 'merged_kept': 100, 'convexified_before': 60, 'identities_distinct': 1200, 'split': 40, 'arrived': 25}
RULE = ('Random scenes advanced in 2-6 small steps (robot and obstacles move, obstacle list reordered, clusters jumping across the line from robot to goal, robot at the goal) always passing the previous clusters. '
        'For every cluster with the same members as before: the kernel centre is unchanged when it is still admissible and in the common kernel, otherwise it stays on its side '
        'of the line robot-goal when the selection set offers that; identities of a result are distinct; clusters fall apart and merge again; combination obstacles and convexified ones keep the id of the cluster (a third of the histories is convexified). Distinct: (mix, composition, what happened).')


def crossing(rng):
    """A small cluster of convex obstacles that jumps onto the line between robot and goal."""
    s = scene.Scene()
    s.mix, s.layout, s.eps = 'convex', 'crossing', float(rng.choice([.05, .1, .2]))
    s.obs, s.bodies, s.rel = [], [], []
    c = rng.uniform(-2, 2, 2)
    for k in range(int(rng.integers(1, 4))):
        rel = rng.normal(0, .25, 2)
        o, b = gen.obstacle(rng, rng.choice(['E', 'C']), scale=rng.uniform(.7, 1.3), at=c + rel, pose_mode=rng.choice(['full', 'shift']), n_pol=int(rng.choice([16, 30])))
        s.obs.append(o)
        s.bodies.append(b)
        s.rel.append(rel)
    t = rng.uniform(0, 2 * np.pi)
    s.u = np.array([np.cos(t), np.sin(t)])
    s.n = np.array([-s.u[1], s.u[0]])
    s.c = c
    s.x, s.xg = c - s.u * rng.uniform(4, 7), c + s.u * rng.uniform(4, 7)
    s.lo, s.hi = c - 5, c + 5
    jump(rng, s, rng.choice([-1, 1]) * rng.uniform(.7, 2.))
    return s


def splitting(rng):
    """Two or three obstacles, at least one not convex, that overlap now and then and are apart in between."""
    s = scene.Scene()
    s.mix, s.layout, s.eps = 'mixed', 'splitting', float(rng.choice([.05, .1, .2]))
    s.obs, s.bodies, s.rel = [], [], []
    s.c = rng.uniform(-2, 2, 2)
    t0 = rng.uniform(0, 2 * np.pi)
    m = int(rng.integers(2, 4))
    for k in range(m):
        o, b = gen.obstacle(rng, rng.choice(list('SP')) if k < 2 else rng.choice(list('ECSP')), scale=rng.uniform(.7, 1.1), at=s.c, pose_mode='full')
        s.obs.append(o)
        s.bodies.append(b)
        t = t0 + 2 * np.pi * k / m
        s.rel.append(np.array([np.cos(t), np.sin(t)]))
    t = rng.uniform(0, 2 * np.pi)
    s.u = np.array([np.cos(t), np.sin(t)])
    s.x, s.xg = s.c - s.u * rng.uniform(8, 10), s.c + s.u * rng.uniform(8, 10)
    s.lo, s.hi = s.c - 7, s.c + 7
    spread(rng, s, rng.random() < .5)
    return s


def spread(rng, s, apart):
    h = rng.uniform(2.4, 4.) if apart else rng.uniform(.2, .8)
    for o, b, rel in zip(s.obs, s.bodies, s.rel):
        b.pose.pos = s.c + rel * h
        gen.put(rng, o, b)


def jump(rng, s, h):
    for o, b, rel in zip(s.obs, s.bodies, s.rel):
        b.pose.pos = s.c + rel + h * s.n
        gen.put(rng, o, b)


def case(mon, rng, i, tier):
    across = rng.random() < .4
    split = not across and rng.random() < .25
    s = crossing(rng) if across else splitting(rng) if split else scene.make(rng, rng.choice(['convex', 'ellipses', 'plain', 'star', 'mixed']), rng.choice(['pairs', 'chain', 'uniform', 'wall', 'dense']), nmax=6)
    mon.describe(s.params())
    prev, convexify = None, rng.random() < .3
    for t in range(int(rng.integers(2, 7))):
        kw = {'previous_clusters': prev} if prev is not None else {}
        if convexify and rng.random() < .9:
            kw['make_convex'] = True
        r = scene.run(s, **kw)
        r.kw, r.t = kw, t
        if r.flag == pipe.INCOMPLETE:
            return
        ids = [scene.key(c.cluster_obstacle) if any(c.cluster_obstacle is o for o in s.obs) else c.cluster_obstacle.id() for c in r.clusters]      # obstacles of the caller may be without identity
        mon.ok('identities_distinct', len(set(ids)) == len(ids) and None not in ids, lambda: pipe.detail(s, r, ids=ids))
        if split and prev is not None and len(prev) < len(r.clusters):
            mon.seen('split')
        # what matters of the previous step, before obstacles (and their reference points) change
        snap = {}
        if prev is not None:
            for c in r.clusters:
                ids = frozenset(id(o) for o in c.obstacles)
                for p in prev_snap:
                    if p['ids'] == ids:
                        judge(mon, s, r, c, p)
        prev = r.clusters
        prev_snap = [{'ids': frozenset(id(o) for o in c.obstacles), 'order': [id(o) for o in c.obstacles], 'centre': np.mean(c.kernel_points, axis=0),
                      'id': c.cluster_obstacle.id(), 'cls': type(c.cluster_obstacle).__name__, 'own': any(c.cluster_obstacle is o for o in s.obs)} for c in r.clusters]
        if split:
            spread(rng, s, rng.random() < .6)
            continue
        if across:
            jump(rng, s, rng.uniform(-.3, .3) if t % 2 == 0 else rng.choice([-1, 1]) * rng.uniform(.7, 2.))
            continue
        kind = rng.choice(['still', 'drive', 'reorder', 'swap', 'circle', 'arrive'], p=[.18, .34, .19, .1, .14, .05])
        if kind == 'still':
            mon.seen('unchanged_scene')
        elif kind == 'drive':
            pipe.drive(rng, s)
        elif kind == 'reorder':
            q = rng.permutation(len(s.obs))
            s.obs, s.bodies = [s.obs[k] for k in q], [s.bodies[k] for k in q]
            mon.seen('reordered')
        elif kind == 'arrive':
            s.x = s.xg.copy()
        elif kind == 'swap':
            s.x, s.xg = s.xg, s.x
        else:
            try:
                s.x = scene.free_point(rng, s)
            except Exception:
                pass


def judge(mon, s, r, c, p):
    bodies = scene.members(s, c)
    centre = np.mean(c.kernel_points, axis=0)
    det = lambda **k: pipe.detail(s, r, c, previous_centre=p['centre'], centre=centre, **k)
    own = any(c.cluster_obstacle is o for o in s.obs)
    if not own:
        if p['cls'] == 'StarshapedPolygon' and not p['own']:
            mon.seen('convexified_before')
        mon.ok('identity_kept', p['id'] is None or c.cluster_obstacle.id() == p['id'], lambda: det(id=c.cluster_obstacle.id(), previous_id=p['id']))
    if [id(o) for o in c.obstacles] != p['order']:
        mon.seen('reordered_same_cluster')
    pc = p['centre']
    A = pipe.admissible_set(bodies, [r.x, r.xg])
    ck = pipe.common_kernel(bodies)
    tol = scene.star_tol(bodies)
    scale = min(min(b.shape.size for b in bodies), 1.)
    d = r.xg - r.x
    off_line = abs(cross(d, pc - r.x))
    S = A.intersection(ck)
    if not all(pipe.is_star(b) for b in bodies):
        S = A.intersection(oracle.union([b.inner(100) for b in bodies]))
    if S.area < 1e-3 * scale ** 2:
        return
    pt = sg.Point(pc)
    if (off_line > 1e-6 or not d.any()) and S.buffer(-2 * tol - 1e-3 * scale).contains(pt):
        mon.ok('centre_kept', np.linalg.norm(pc - centre) < 1e-9, lambda: det(common_area=S.area))
        if pipe.merged(c):
            mon.seen('merged_kept')
        if not d.any():
            mon.seen('arrived')
        mon.distinct(s.mix, sorted(b.kind for b in bodies), 'kept', own)
    elif np.linalg.norm(d) > 1e-2 and not S.buffer(2 * tol + 2e-2 * scale).contains(pt):
        # the centre has to move: stay on the same side of the line robot-goal if the selection set has such a part
        n = np.array([-d[1], d[0]]) / np.linalg.norm(d)
        side = np.sign((pc - r.x) @ n)
        if abs((pc - r.x) @ n) < 1e-3:
            return
        u = d / np.linalg.norm(d)
        mid = (r.x + r.xg) / 2
        # parts of the selection set are separated by the segment only where it cuts them completely
        seg = sg.LineString([r.x, r.xg])
        T = S.buffer(-2 * tol)
        parts = [g for g in (T.geoms if hasattr(T, 'geoms') else [T]) if g.geom_type == 'Polygon' and g.area > 1e-4 * scale ** 2]
        pieces = []
        for g in parts:
            pieces += list(shapely.ops.split(g, seg).geoms)
        sides = [np.sign((np.array(g.centroid.coords[0]) - r.x) @ n) for g in pieces]
        clear = [abs((np.array(g.centroid.coords[0]) - r.x) @ n) > 2e-2 for g in pieces]
        if len(pieces) > 1 and all(clear) and all(g.area > 1e-2 * scale ** 2 for g in pieces) and side in sides:
            mon.ok('same_side', np.sign((centre - r.x) @ n) == side, lambda: det(pieces=[g.wkt[:200] for g in pieces]))
            mon.distinct(s.mix, sorted(b.kind for b in bodies), 'side', len(pieces))
