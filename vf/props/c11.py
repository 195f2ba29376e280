"""Workspace: clusters reaching out of the workspace get their reference outside of it; otherwise it has no influence."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle, pipe, scene
from core import Skip
from obstacles import Ellipse, StarshapedPolygon, motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 1000, 'thorough': 12000}
REQUIRED = {'no_influence': 150, 'reference_outside': 300, 'cluster_inside_unaffected': 300, 'merged_outside': 30, 'previous': 40, 'only_edges_outside': 25}
RULE = ('Random scenes with a workspace (ellipse, box, starshaped polygon with notches and obstacles across them; rotated and shifted) containing all, some or none of the obstacles. For every cluster that is not contained, the area of its part '
        'outside the workspace from which robot and goal stay excluded is computed independently; if there is one, all kernel points must lie in it. Otherwise the result must equal the one without a workspace. '
        'Distinct: (mix, workspace class, composition, contained).')


def workspace(rng, s, full):
    c = (s.lo + s.hi) / 2
    h = (s.hi - s.lo) / 2
    t = rng.uniform(0, 6.28)
    if full:
        R = np.linalg.norm(h) * 1.6 + 2
        h = np.array([R, R * rng.uniform(1, 1.5)])
    else:
        c = c + rng.normal(0, .3, 2) * h
        h = h * rng.uniform(.3, 1.2, 2)
    k = rng.integers(3)
    if k == 0:
        n = 60
        o = Ellipse(h, motion_model=mm.Static(c.copy(), t), n_pol=n, id='temp')
    elif k == 1:
        o = StarshapedPolygon([[-h[0], -h[1]], [h[0], -h[1]], [h[0], h[1]], [-h[0], h[1]]], motion_model=mm.Static(c.copy(), t), id='temp')
    else:
        a = np.arange(8) * np.pi / 4
        q = np.c_[np.cos(a), np.sin(a)] * h * (1 if full else 1.) * np.where(np.arange(8) % 2, .8 if full else .6, 1.2)[:, None]
        o = StarshapedPolygon(q, motion_model=mm.Static(c.copy(), t), id='temp')
    # region the caller means, from the raw numbers
    if k == 0:
        a = np.linspace(0, 2 * np.pi, 60, endpoint=False)
        v = np.c_[h[0] * np.cos(a), h[1] * np.sin(a)]
    else:
        v = np.array(o.vertices)
    W = sg.Polygon(oracle.Pose(c, t).fwd(v))
    return o, W, type(o).__name__


def notched(rng):
    """A workspace with deep notches and obstacles across them: corners in the workspace, a part between them outside."""
    s = scene.Scene()
    s.mix, s.layout, s.eps = 'convex', 'notched', float(rng.choice([.05, .1, .2]))
    c, t, n = rng.uniform(-2, 2, 2), rng.uniform(0, 6.28), int(rng.integers(3, 6))
    a = np.arange(2 * n) * np.pi / n
    R = np.where(np.arange(2 * n) % 2, rng.uniform(.5, 2., 2 * n), rng.uniform(3, 4.5, 2 * n))
    v = np.c_[np.cos(a), np.sin(a)] * R[:, None]
    ps = oracle.Pose(c, t)
    o = StarshapedPolygon(v, motion_model=mm.Static(c.copy(), t), id='temp')
    W = sg.Polygon(ps.fwd(v))
    s.obs, s.bodies = [], []
    for _ in range(400):
        if len(s.obs) == 3:
            break
        q = rng.uniform(-4, 4, (int(rng.integers(3, 5)), 2))
        C = sg.MultiPoint(q).convex_hull
        V = sg.Polygon(v)
        if C.geom_type != 'Polygon' or not all(V.buffer(-.05).contains(sg.Point(x)) for x in C.exterior.coords) or C.difference(V).area < .02 or C.area > 6 or C.area < .3:
            continue
        if rng.random() < .8 and not V.contains(C.centroid):
            continue
        k = np.array(C.exterior.coords)[:-1]
        g = k.mean(0)
        b = oracle.Body(oracle.PolygonShape(k - g), oracle.Pose(ps.fwd(g), t), True, np.zeros(2), 'C')
        if all(b.outer(40).distance(x.outer(40)) > .02 for x in s.bodies):
            s.obs.append(StarshapedPolygon(k - g, motion_model=mm.Static(ps.fwd(g), t)))
            b.xr = np.array(s.obs[-1].xr(gen.Frame.OBSTACLE))
            s.bodies.append(b)
    if not s.obs:
        raise Skip('no bar')
    s.lo, s.hi = c - 5, c + 5
    s.x, s.xg = scene.free_point(rng, s), scene.free_point(rng, s)
    return s, (o, W, 'StarshapedPolygon')


def case(mon, rng, i, tier):
    if rng.random() < .22:
        s, (ws, W, kind) = notched(rng)
    else:
        s = scene.make(rng, layout=rng.choice(['uniform', 'sparse', 'pairs', 'chain', 'dense']), nmax=6)
        ws, W, kind = workspace(rng, s, rng.random() < .3)
    mon.describe(s.params())
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    r0 = scene.run(s)
    if r0.flag != pipe.COMPLETE:
        return
    k0 = {c.name: np.array(c.kernel_points) for t in r0.history for c in t}
    prev = r0.clusters if rng.random() < .3 else None
    # with previous clusters the reference run has to use them as well
    if prev is not None:
        np.random.seed(seed)
        r1 = scene.run(s, previous_clusters=prev)
        if r1.flag != pipe.COMPLETE:
            return
        k0 = {c.name: np.array(c.kernel_points) for t in r1.history for c in t}
        r0 = r1
    kw = {'workspace': ws}
    if prev is not None:
        kw['previous_clusters'] = prev
    np.random.seed(seed)
    r = scene.run(s, **kw)
    r.kw, r.t = kw, 0
    det = lambda c=None, **k: pipe.detail(s, r, c, workspace={'kind': kind, 'region': W.wkt[:400]}, **k)
    inner, outer = W.buffer(-5e-3), W.buffer(5e-3)
    contained = {}
    if all(inner.contains(b.outer(100)) for b in s.bodies):
        ok = r.flag == r0.flag and [c.name for c in r.clusters] == [c.name for c in r0.clusters] and \
            all(np.allclose(a.kernel_points, b.kernel_points, atol=5e-4) for a, b in zip(r.clusters, r0.clusters))
        mon.ok('no_influence', ok, lambda: det(without=[(c.name, c.kernel_points) for c in r0.clusters]))
        mon.distinct(s.mix, kind, 'all inside', len(s.obs))
        return
    for t in (r.history if r.flag == pipe.COMPLETE else []):
        for c in t:
            if c.name in contained:
                continue
            contained[c.name] = 1
            bodies = scene.members(s, c)
            U = oracle.union([b.inner(100) for b in bodies])
            Ul = oracle.union([b.outer(100) for b in bodies])
            K = np.array(c.kernel_points)
            if inner.contains(Ul.buffer(2e-3)):
                if c.name in k0:
                    mon.ok('cluster_inside_unaffected', np.allclose(K, k0[c.name], atol=5e-4), lambda: det(c, without=k0[c.name]))
                continue
            gap = max(b.rep_gap() for b in bodies)
            A = pipe.admissible_set(bodies, [r.x, r.xg]).intersection(U).difference(outer)
            A = A.buffer(-gap)
            if A.area < 1e-4:
                continue
            sd = [W.exterior.distance(sg.Point(k)) * (-1 if W.contains(sg.Point(k)) else 1) for k in K]
            mon.ok('reference_outside', min(sd) > -6e-3, lambda: det(c, depth=min(sd), possible_area=A.area))
            if all(W.contains(sg.Point(p)) for b in bodies if b.kind != 'E' for p in b.glob(b.shape.v)) and all(b.kind != 'E' for b in bodies):
                mon.seen('only_edges_outside')
            if pipe.merged(c):
                mon.seen('merged_outside')
            if prev is not None:
                mon.seen('previous')
            mon.distinct(s.mix, kind, sorted(b.kind for b in bodies), bool(prev))
