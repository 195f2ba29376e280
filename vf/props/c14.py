"""Merging step: intersecting cluster regions are grouped into exactly the connected components of the intersection graph."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle
import starshaped_hull as SH
from obstacles import StarshapedPolygon, Polygon
LEVEL = 'exploration'
CASES = {'quick': 6000, 'thorough': 80000}
REQUIRED = {'components': 1000, 'some_intersection': 500, 'no_intersection': 200, 'long_chain': 60, 'region_larger_than_members': 200, 'touching_components': 200, 'touching': 100}
RULE = ('Random lists of 1-24 clusters (single obstacles, and multi-obstacle clusters with a region larger than their members) in permuted chain, grid, star and random '
        'arrangements, and of boxes on a grid; the returned grouping is compared with a union-find over all pairwise region intersections. Lists with a pair of regions closer than 1e-9 to just '
        'touching are skipped, except for the boxes with exact coordinates, where sharing an edge or corner counts. Distinct: (layout, number of clusters, component sizes).')


def grid_boxes(rng, n):
    """Axis parallel boxes with exact coordinates: sharing an edge or a corner only is decided without rounding."""
    B, clusters = [], []
    k = int(rng.integers(2, 9))
    for _ in range(n):
        x, y = rng.integers(-k, k + 1, 2)
        w, h = rng.integers(1, 4, 2)
        b = np.array([x, y, x + w, y + h]) / 4
        t = rng.integers(-8, 9, 2) / 4 * (rng.random() < .5)
        P = sg.box(b[0] - t[0], b[1] - t[1], b[2] - t[0], b[3] - t[1])
        m = gen.mm.Static(t) if t.any() else None
        o = StarshapedPolygon(P, motion_model=m) if rng.random() < .7 else Polygon(P, motion_model=m)
        cl = SH.ObstacleCluster([o])
        if rng.random() < .2:
            cl = SH.ObstacleCluster([o, StarshapedPolygon(sg.box(*b))])
            cl.cluster_obstacle = StarshapedPolygon(sg.box(*b))
        B.append(b)
        clusters.append(cl)
    return B, clusters


def touching(mon, rng):
    B, clusters = grid_boxes(rng, int(rng.integers(2, 12)))
    n = len(B)
    comp = {a: {a} for a in range(n)}
    touch = edges = 0
    for a in range(n):
        for b in range(a):
            lo, hi = np.maximum(B[a][:2], B[b][:2]), np.minimum(B[a][2:], B[b][2:])
            if (lo <= hi).all():
                edges += 1
                comp[a] |= comp[b]
                for q in comp[a]:
                    comp[q] = comp[a]
                touch += not (lo < hi).all()
    comp = sorted({tuple(sorted(c)) for c in comp.values()})
    expect = sorted(sorted(id(o) for a in c for o in clusters[a].obstacles) for c in comp)
    out, flag = SH.get_intersection_clusters(clusters)
    got = sorted(sorted(id(o) for o in c.obstacles) for c in out)
    det = lambda: {'boxes': B, 'expected': comp, 'flag': flag, 'got': [[o.id() for o in c.obstacles] for c in out]}
    mon.ok('touching_components', got == expect, det)
    mon.ok('flag', bool(flag) == (edges > 0), det)
    if touch:
        mon.seen('touching')
    mon.distinct('touching', n, len(expect), min(touch, 4))


def case(mon, rng, i, tier):
    if rng.random() < .2:
        return touching(mon, rng)
    n = int(rng.integers(1, 25))
    layout = rng.choice(['random', 'chain', 'grid', 'sparse', 'star', 'loops'])
    t = np.arange(n)
    if layout == 'chain':
        at = np.c_[t * rng.uniform(.9, 2.1), rng.normal(0, .2, n)]
    elif layout == 'grid':
        k = int(np.ceil(np.sqrt(n)))
        at = np.c_[t % k, t // k] * rng.uniform(1., 2.2)
    elif layout == 'star':
        at = np.c_[np.cos(t), np.sin(t)] * (t[:, None] % 5) * rng.uniform(.8, 1.6)
    elif layout == 'loops':
        R = rng.uniform(.2, .5) * n
        at = R * np.c_[np.cos(2 * np.pi * t / n), np.sin(2 * np.pi * t / n)]
    else:
        at = rng.uniform(0, np.sqrt(n) * (4 if layout == 'sparse' else rng.uniform(1, 2.5)), (n, 2))
    at = rng.permutation(at)
    clusters, regions = [], []
    for p in at:
        if rng.random() < .2:
            os_ = [gen.obstacle(rng, rng.choice(list('ECS')), scale=rng.uniform(.3, .6), at=p + rng.uniform(-.5, .5, 2), pose_mode='full')[0] for _ in range(2)]
            cl = SH.ObstacleCluster(os_)
            pts = [np.array(o.polygon().exterior.coords) for o in os_]
            if rng.random() < .4:       # hull towards a kernel away from the obstacles
                pts.append(p + rng.normal(0, 1.5, (1, 2)))
            hull = sg.MultiPoint(np.vstack(pts)).convex_hull
            cl.cluster_obstacle = StarshapedPolygon(hull)
            mon.seen('region_larger_than_members')
            regions.append(hull)
        else:
            o, b = gen.obstacle(rng, rng.choice(list('ECSPQ')), scale=rng.uniform(.4, .8), at=p, pose_mode='full')
            cl = SH.ObstacleCluster([o])
            regions.append(o.polygon() if b.kind == 'E' else b.inner())
        clusters.append(cl)
    par = list(range(n))

    def find(a):
        while par[a] != a:
            a = par[a]
        return a

    edges = 0
    for a in range(n):
        for b in range(a + 1, n):
            d = regions[a].distance(regions[b])
            if d > 1e-9:
                continue
            if regions[a].intersection(regions[b]).area < 1e-9:
                return      # just touching
            edges += 1
            par[find(a)] = find(b)
    comp = {}
    for a in range(n):
        comp.setdefault(find(a), []).append(a)
    expect = sorted(sorted(id(o) for a in c for o in clusters[a].obstacles) for c in comp.values())
    before = [list(c.obstacles) for c in clusters]
    names = [c.name for c in clusters]
    given = list(clusters)
    out, flag = SH.get_intersection_clusters(clusters)
    got = sorted(sorted(id(o) for o in c.obstacles) for c in out)
    ids = {id(o): o.id() for c in clusters for o in c.obstacles}
    det = lambda: {'layout': layout, 'positions': at, 'edges': edges, 'expected': [[ids[q] for q in c] for c in expect], 'got': [[ids.get(q) for q in c] for c in got], 'flag': flag}
    mon.describe({'layout': layout, 'n': n, 'components': [len(c) for c in comp.values()]})
    mon.ok('components', got == expect, det)
    mon.ok('flag', bool(flag) == (edges > 0), det)
    mon.seen('some_intersection' if edges else 'no_intersection')
    if max(len(c) for c in comp.values()) > 6:
        mon.seen('long_chain')
    mon.ok('input_untouched', all(a is b for a, b in zip(given, clusters)) and len(given) == len(clusters)
           and all([id(o) for o in c.obstacles] == [id(o) for o in b] and c.name == nm for c, b, nm in zip(given, before, names)), det)
    if not edges:
        mon.ok('no_change', len(out) == n and all(a is b for a, b in zip(out, clusters)), det)
    for c in out:
        # identity of a cluster depends on the set of its members only
        mon.ok('name', c.name == SH.ObstacleCluster(list(rng.permutation(np.array(c.obstacles, object)))).name, lambda: {'name': c.name})
    allnames = [c.name for c in out]
    mon.ok('name', len(set(allnames)) == len(allnames), det)
    mon.distinct(layout, n, sorted(len(c) for c in comp.values()))
