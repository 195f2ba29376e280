"""Excluding obstacles: the extension of a merged cluster leaves out the corners of other obstacles when possible."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle, pipe, scene
from obstacles import motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 500, 'thorough': 9000}
REQUIRED = {'corner_left_out': 400, 'merged_cluster': 120, 'not_possible': 0, 'single_clusters_unaffected': 60}
RULE = ('Random scenes with overlapping pairs or chains of obstacles and further obstacles around, clustered with exclusion of obstacles. For every merged cluster of every round the set of kernel positions '
        'excluding robot, goal and all corners of every other obstacle that is entirely a free exterior of the member is computed independently; if it has an area, the kernel points must be in it. '
        'Scenes without overlap must give the same result as without exclusion. Distinct: (mix, composition, number of excluded obstacles, possible).')


def build(rng):
    """An overlapping pair or triple with small obstacles close to the gaps between them."""
    s = scene.Scene()
    s.mix, s.layout, s.eps = 'gap', 'gap', float(rng.choice([.05, .1, .2]))
    s.obs, s.bodies = [], []

    def add(kind, p, sc):
        o, b = gen.obstacle(rng, kind, scale=sc, at=p, pose_mode=rng.choice(['full', 'shift']), n_pol=int(rng.choice([8, 12, 20])))
        s.obs.append(o)
        s.bodies.append(b)
    d = rng.uniform(0, 6.28)
    u = np.array([np.cos(d), np.sin(d)])
    m = int(rng.integers(2, 4))
    for k in range(m):
        add(rng.choice(list('EC')), k * u * rng.uniform(.9, 1.6), rng.uniform(.7, 1.1))
    for _ in range(int(rng.integers(1, 4))):
        t = rng.uniform(0, 6.28)
        add(rng.choice(list('ECSP')), u * (m - 1) * .6 + rng.uniform(1.2, 3) * np.array([np.cos(t), np.sin(t)]), rng.uniform(.15, .5))
    s.lo = np.min([b.boundary(12).min(0) for b in s.bodies], 0) - 2
    s.hi = np.max([b.boundary(12).max(0) for b in s.bodies], 0) + 2
    s.x, s.xg = scene.free_point(rng, s), scene.free_point(rng, s)
    return s


def corners(o, b):
    if b.kind == 'E':       # corners of its polygon representation
        t = np.linspace(0, 2 * np.pi, b.n_pol, endpoint=False)
        a = b.shape.a + 1e-3
        return b.glob(np.c_[a[0] * np.cos(t), a[1] * np.sin(t)])
    return b.glob(b.shape.v)


def case(mon, rng, i, tier):
    s = build(rng) if rng.random() < .7 else scene.make(rng, rng.choice(['convex', 'polygons', 'plain', 'star', 'mixed']), rng.choice(['pairs', 'chain', 'uniform', 'dense', 'cascade', 'staircase']), nmax=5, ell_n_pol=int(rng.choice([8, 12, 20])))
    mon.describe(s.params())
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    r = scene.run(s, exclude_obstacles=True)
    r.kw, r.t = {'exclude_obstacles': True}, 0
    if r.flag == pipe.INCOMPLETE:
        return
    if r.n_iter == 1:
        np.random.seed(seed)
        q = scene.run(s)
        mon.ok('single_clusters_unaffected', q.flag == r.flag and [c.name for c in q.clusters] == [c.name for c in r.clusters] and
               all(np.allclose(a.kernel_points, b.kernel_points, atol=5e-4) for a, b in zip(q.clusters, r.clusters)), lambda: pipe.detail(s, r))
    by = {id(o): b for o, b in zip(s.obs, s.bodies)}
    done = set()
    for t in r.history:
        for c in t:
            if c.name in done or not pipe.merged(c):
                continue
            done.add(c.name)
            mon.seen('merged_cluster')
            bodies = scene.members(s, c)
            pairs, doubt = [], False
            for o, b in zip(c.obstacles, bodies):
                for o2, b2 in zip(s.obs, s.bodies):
                    if o2 is o:
                        continue
                    C = corners(o2, b2)
                    sg_ = [b.signed(v) for v in C]
                    if any(m < 2e-3 for _, m in sg_):
                        doubt = True
                        continue
                    if any(sd < 0 for sd, _ in sg_):
                        continue
                    free = [b.tangents(v) is not None for v in C]
                    if not b.shape.convex and any(abs(b.shape.view_range(b.loc(v)) - 2 * np.pi) < 1e-2 for v in C):
                        doubt = True
                        continue
                    if all(free):
                        pairs.append((b, C, o2))
            S = pipe.admissible_set(bodies, [r.x, r.xg])
            if doubt:
                continue
            for b, C, _ in pairs:
                for v in C:
                    S = S.difference(pipe.shadow(b, v))
            if S.area < 1e-3:
                mon.seen('not_possible')
                mon.distinct(s.mix, sorted(b.kind for b in bodies), len(pairs), False)
                continue
            K = np.array(c.kernel_points)
            for b, C, o2 in pairs:
                worst = min(pipe.admissible_margin(b, v, k) * np.linalg.norm(v - k) for v in C for k in K)
                mon.ok('corner_left_out', worst > -1e-6, lambda: pipe.detail(s, r, c, member=b.params(), excluded=o2.id(), depth=worst, possible_area=S.area))
            mon.distinct(s.mix, sorted(b.kind for b in bodies), len(pairs), True)
