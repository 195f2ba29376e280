"""Queries and clustering leave alone what they are given, and answer the same when asked again."""
import copy
import numpy as np
import shapely
import shapely.geometry as sg
import agree, gen, oracle, pipe, scene
import starshaped_hull as SH
import utils
from core import Skip
from obstacles import Frame
LEVEL = 'exploration'
CASES = {'quick': 1125, 'thorough': 22000}
REQUIRED = {'arguments': 8000, 'obstacle': 4000, 'again': 6000, 'earlier_results': 800, 'after_polygon': 80, 'cluster_arguments': 300, 'cluster_obstacles': 300, 'cluster_previous': 100, 'cluster_again': 300,
            'earlier_clusters': 100, 'hull_arguments': 300, 'combination': 100, 'function_arguments': 1500, 'history_kept': 200, 'derived_arguments': 150, 'derived_original': 150}
RULE = ('Obstacles of all classes (also combinations): 8-20 random queries in random frames with fresh arrays; arrays, obstacle, and the answers to earlier queries are compared with recordings bit by bit, and each '
        'query is repeated. Clustering over 1-3 steps with previous clusters and all options: positions, obstacle list, obstacles, previous clusters and results of earlier steps are compared with recordings, and each '
        'call is repeated under the same random seed. Obstacles made from arrays that are kept, from which copies and dilated obstacles are derived and changed. Cones, hulls, predicates and generators are called the same way. Distinct: (class or option set, query, frame, answer type).')
G, O = Frame.GLOBAL, Frame.OBSTACLE


def plain(v):
    """Recording of a value by content."""
    if isinstance(v, np.ndarray):
        return ('a', v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if hasattr(v, 'wkb'):
        return ('g', v.wkb)
    if isinstance(v, utils.Cone):
        return ('c', plain(v.apex), plain(v.dir1), plain(v.dir2))
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if v is None or isinstance(v, (str, Frame)):
        return v
    return id(v)


def close(a, b):
    """Same answer up to rounding."""
    if hasattr(a, 'wkb') and hasattr(b, 'wkb'):
        return a.equals(b) or a.symmetric_difference(b).area < 1e-9 * max(1, a.area)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, utils.Cone):
        return close([a.apex, a.dir1, a.dir2], [b.apex, b.dir1, b.dir2])
    if a is None or b is None:
        return a is b
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return a is b
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True))


def fingerprint(o, xr=True):
    """Observable state of an obstacle. Clustering moves the reference point of a given obstacle that is a cluster of its own: xr=False."""
    f = [o.id(), getattr(o, '_name', None), plain(np.array(o.pos(), float)), plain(float(o.rot())), o.polygon(O).wkb, o.polygon(G).wkb, bool(o.is_convex())]
    if hasattr(o, 'xr') and xr:
        f += [plain(np.array(o.xr(O), float)), plain(np.array(o.xr(G), float))]
    if hasattr(o, 'extreme_points'):
        f.append(plain(np.array(o.extreme_points(O), float)))
    for p in np.array(o.polygon(G).exterior.coords)[:3] + [.37, -.21]:
        f.append(int(np.sign(o.point_location(p))))
    return tuple(f)


def queries(rng, o, b, star, combi):
    """(name, call, arguments)"""
    p = gen.probe(rng, b)
    f, g = (G, G) if combi else (G if rng.random() < .6 else O, G if rng.random() < .6 else O)
    z = lambda: gen.to_frame(b, gen.probe(rng, b), f).copy()
    q = rng.integers(20 if star else 11)
    if q == 0:
        return 'point_location', lambda x: o.point_location(x, f), [z()]
    if q == 1:
        return 'interior_point', lambda x: o.interior_point(x, f), [z()]
    if q == 2:
        return 'exterior_point', lambda x: o.exterior_point(x, f), [z()]
    if q == 3:
        l = [z(), z()]
        form = rng.integers(3)
        l = l if form == 0 else tuple(l) if form == 1 else np.array(l)
        return 'line_intersection', lambda x: o.line_intersection(x, f, g), [l]
    if q == 6 and combi:
        q = 5
    if q == 4 and not combi:
        return 'tangent_points', lambda x: o.tangent_points(x, f, g), [z()]
    if q == 5:
        return 'polygon', lambda: o.polygon(f), []
    if q == 6:
        return 'extreme_points', lambda: o.extreme_points(f), []
    if q == 7:
        return 'transform', lambda x: np.array(o.transform(x, f, g)), [z()]
    if q == 8:
        return 'rotate', lambda x: np.array(o.rotate(x, f, g)), [z()]
    if q == 9:
        return 'pose', lambda: (np.array(o.pos(), float), float(o.rot())), []
    if q == 10:
        return 'boundary_point', lambda x: o.boundary_point(x, f), [z()]
    if q in (11, 12):
        return 'boundary_mapping', lambda x: o.boundary_mapping(x, f, g), [z()]
    if q == 13:
        return 'distance_function', lambda x: o.distance_function(x, f), [z()]
    if q in (14, 15):
        return 'normal', lambda x: o.normal(x, f, g), [z()]
    if q == 16:
        return 'reference_direction', lambda x: o.reference_direction(x, f, g), [z()]
    if q == 17 and not combi:
        return 'kernel', lambda: o.kernel(f), []
    if q == 18:
        return 'reference', lambda: o.xr(f), []
    if q == 19 and not (combi and any(not hasattr(m, 'vel_intertial_frame') for m in o.obstacle_cluster() or [None])):
        return 'velocity', lambda x: o.vel_intertial_frame(x), [z()]
    return 'point_location', lambda x: o.point_location(x, f), [z()]


def run_queries(mon, rng, o, b, star, combi, tag, info):
    warm = combi or rng.random() < .5
    before = fingerprint(o) if warm else None
    results = []
    asked = []
    for _ in range(int(rng.integers(8, 21))):
        name, call, args = queries(rng, o, b, star, combi)
        asked.append(name)
        kept = copy.deepcopy(args)
        ref = plain(args)
        det = lambda **d: {**info(), 'query': name, 'arguments': kept, 'asked': asked, **d}
        try:
            r = call(*args)
        except Exception as e:
            if name in ('normal', 'boundary_mapping', 'distance_function'):     # undefined at the reference point
                continue
            raise
        mon.ok('arguments', plain(args) == ref, lambda: det(after=args))
        results.append((name, r, plain(r), copy.deepcopy(kept)))
        again = call(*copy.deepcopy(kept))
        mon.ok('again', close(r, again), lambda: det(first=r, second=again))
        if warm:
            mon.ok('obstacle', fingerprint(o) == before, lambda: det(note='obstacle changed by the query'))
        mon.distinct(tag, name, type(r).__name__, warm)
    for name, r, rec, args in results:
        mon.ok('earlier_results', plain(r) == rec, lambda: {**info(), 'query': name, 'arguments': args, 'now': r, 'note': 'answer changed after later queries'})


def cl_print(cl):
    return (cl.name, tuple(id(o) for o in cl.obstacles), id(cl.cluster_obstacle), None if cl.cluster_obstacle is None else fingerprint(cl.cluster_obstacle, False),
            None if cl.cluster_obstacle is None else cl.polygon().wkb, plain(cl.kernel_points))


def clusters_case(mon, rng):
    prev, prev_prints = None, None
    for s, r0 in pipe.loop(rng, rng.choice(['convex', 'plain', 'star', 'mixed']), steps=int(rng.integers(1, 4)), p_exclude=.2, p_ws=.2, p_convex=.3):
        info = lambda **d: pipe.detail(s, r0, **d)
        mon.describe(info())
        if prev is not None:
            # results of the previous step still mean what they meant, up to the motion of obstacles in between
            mon.ok('earlier_clusters', [(c.name, tuple(id(o) for o in c.obstacles), plain(c.kernel_points), c.polygon().wkb) for c in prev] == prev_prints, lambda: info(note='clusters of the previous step changed'))
        kw = dict(r0.kw)
        x, xg = r0.x.copy(), r0.xg.copy()
        obs = list(s.obs)
        before = [fingerprint(o, False) for o in obs]
        pl = kw.get('previous_clusters')
        pbefore = [cl_print(c) for c in pl] if pl else None
        pids = [id(c) for c in pl] if pl else None
        ws = kw.get('workspace')
        wbefore = fingerprint(ws) if ws is not None else None
        out = []
        for k in range(2):
            np.random.seed(7)
            res = SH.cluster_and_starify(obs, x, xg, r0.eps, return_history=True, **kw)
            out.append(res)
            mon.ok('cluster_arguments', np.array_equal(x, r0.x) and np.array_equal(xg, r0.xg) and len(obs) == len(s.obs) and all(a is c for a, c in zip(obs, s.obs)), lambda: info(x_after=x, xg_after=xg, n=len(obs)))
            after = [fingerprint(o, False) for o in obs]
            mon.ok('cluster_obstacles', after == before, lambda: info(changed=[i for i, (a, c) in enumerate(zip(after, before)) if a != c], note='given obstacle changed'))
            if pl:
                mon.ok('cluster_previous', [id(c) for c in pl] == pids and [cl_print(c) for c in pl] == pbefore, lambda: info(note='previous clusters changed'))
            if ws is not None:
                mon.ok('cluster_workspace', fingerprint(ws) == wbefore, lambda: info(note='workspace changed'))
            mon.distinct('clustering', tuple(sorted(kw)), res[2], len(obs), k)
        a, c = out
        same = a[2] == c[2] and a[3] == c[3] and len(a[0]) == len(c[0]) and all(
            m.name == n.name and tuple(id(o) for o in m.obstacles) == tuple(id(o) for o in n.obstacles) and close(m.kernel_points, n.kernel_points)
            and oracle.same_region(m.polygon(), n.polygon(), 1e-9) for m, n in zip(a[0], c[0]))
        mon.ok('cluster_again', same, lambda: info(first=[(m.name, m.kernel_points) for m in a[0]], second=[(m.name, m.kernel_points) for m in c[0]], flags=[a[2], c[2]]))
        # hull and grouping functions on the result
        for cl in a[0][:3]:
            K = cl.kernel_points
            if K is None or not len(cl.obstacles):
                continue
            K = np.array(K)
            K0 = K.copy()
            fp = [fingerprint(o) for o in cl.obstacles]
            lst = list(cl.obstacles)
            h1 = SH.kernel_starshaped_hull(lst, K)
            h2 = SH.kernel_starshaped_hull(lst, K)
            mon.ok('hull_arguments', np.array_equal(K, K0) and len(lst) == len(cl.obstacles) and all(p is q for p, q in zip(lst, cl.obstacles)) and [fingerprint(o) for o in cl.obstacles] == fp, lambda: info(kernel_points=K0, after=K))
            mon.ok('again', close(h1, h2), lambda: info(kernel_points=K0, first=str(h1), second=str(h2)))
        lst = list(a[0])
        pr = [cl_print(q) for q in lst]
        new, _ = SH.get_intersection_clusters(lst)
        mon.ok('hull_arguments', len(lst) == len(a[0]) and all(p is q for p, q in zip(lst, a[0])) and [cl_print(q) for q in lst] == pr, lambda: info(note='grouping changed the clusters'))
        # every entry of the history keeps its partition: only the last one is the result
        H = r0.history
        if H and all(isinstance(h, list) for h in H):
            rec = [[(q.name, plain(q.kernel_points)) for q in h] for h in H]
            SH.cluster_and_starify(obs, x, xg, r0.eps, **kw)
            mon.ok('history_kept', [[(q.name, plain(q.kernel_points)) for q in h] for h in H] == rec, lambda: info(note='history of an earlier call changed'))
        combs = [q.cluster_obstacle for q in a[0] if type(q.cluster_obstacle).__name__ == 'StarshapedPrimitiveCombination']
        if combs:
            o = combs[int(rng.integers(len(combs)))]
            b = s.bodies[int(rng.integers(len(s.bodies)))]
            mon.seen('combination')
            run_queries(mon, rng, o, b, True, True, 'combination', info)
        prev = r0.clusters
        prev_prints = [(c.name, tuple(id(o) for o in c.obstacles), plain(c.kernel_points), c.polygon().wkb) for c in prev]


def functions_case(mon, rng):
    v = lambda n=None: rng.normal(size=2 if n is None else (n, 2)) * rng.choice([.5, 1, 10])
    for _ in range(8):
        q = rng.integers(10)
        if q == 0:
            name, call, args = 'convex_hull', utils.convex_hull, [v(int(rng.integers(3, 15)))]
        elif q == 1:
            name, call, args = 'get_intersection', utils.get_intersection, [v(), v(), v(), v()]
        elif q == 2:
            name, call, args = 'is_between', utils.is_between, [v(), v(), v()]
        elif q == 3:
            name, call, args = 'orientation_val', utils.orientation_val, [v(), v(), v()]
        elif q == 4:
            name, call, args = 'cone', lambda a, p, d: [utils.Cone(a, p, d).polygon(), utils.Cone(a, p, d).point_in_cone(a + p)], [v(), v(), v()]
        elif q == 5:
            a = v()
            cs = [utils.Cone(a if rng.random() < .5 else v(), v(), v()) for _ in range(int(rng.integers(1, 5)))]
            name, call, args = 'list_intersection', utils.Cone.list_intersection, [cs]
        elif q == 6:
            name, call, args = 'cone_intersection', lambda c, d: c.intersection(d), [utils.Cone(v(), v(), v()), utils.Cone(v(), v(), v())]
        elif q == 7:
            name, call, args = 'equilateral_triangle', utils.equilateral_triangle, [v(), 1.5, .3]
        elif q == 8:
            o, b = gen.obstacle(rng, rng.choice(list('ECSPQ')))
            fp = fingerprint(o)
            x = gen.probe(rng, b)
            name, call, args = 'admissible_kernel', lambda y: SH.admissible_kernel(o, y), [x]
        else:
            name, call, args = 'affine_transform', lambda p, t: utils.affine_transform(p, .7, t, bool(rng.random() < 2)), [v(), v()]
        ref = plain(args)
        kept = copy.deepcopy(args)
        r = call(*args)
        mon.ok('function_arguments', plain(args) == ref, lambda: {'function': name, 'given': str(kept), 'after': str(args)})
        if q == 8:
            mon.ok('obstacle', fingerprint(o) == fp, lambda: {'function': name, 'point': x, 'body': b.params()})
        rec = plain(r)
        again = call(*args)
        mon.ok('again', close(r, again), lambda: {'function': name, 'arguments': str(kept), 'first': str(r), 'second': str(again)})
        mon.ok('earlier_results', plain(r) == rec, lambda: {'function': name, 'arguments': str(kept)})
        mon.distinct('function', name, type(r).__name__)


def derive_case(mon, rng):
    """Obstacles made from arrays the caller keeps; copies and dilated obstacles are derived and changed."""
    from obstacles import Ellipse, Polygon, StarshapedPolygon, motion_model as mm
    pos, xr = rng.uniform(-3, 3, 2), rng.uniform(-.05, .05, 2)
    m = mm.Static(pos, rng.uniform(-3, 3)) if rng.random() < .7 else None
    q = int(rng.integers(3))
    if q == 0:
        given = [rng.uniform(.3, 2, 2), xr, pos]
        make = lambda: Ellipse(given[0], xr=given[1], n_pol=int(rng.integers(8, 30)), motion_model=m)
    elif q == 1:
        given = [gen.convex_vertices(rng, 1.), xr, pos]
        given[0] = given[0] - given[0].mean(0)
        make = lambda: StarshapedPolygon(given[0], xr=given[1], motion_model=m)
    else:
        given = [gen.nonstar_vertices(rng, 1.), pos]
        make = lambda: Polygon(given[0], motion_model=m)
    kept = copy.deepcopy(given)
    o = make()
    det = lambda **d: {'class': type(o).__name__, 'given': kept, 'steps': steps, **d}
    steps = []
    warm = rng.random() < .5
    fp = fingerprint(o) if warm else None
    made = []
    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(3))
        if k == 0:
            pad = float(rng.uniform(.05, .6))
            steps.append(('dilated', pad))
            made.append(o.dilated_obstacle(pad))
        elif k == 1:
            idarg = str(rng.choice(['temp', 'duplicate', 'new']))
            steps.append(('copy', idarg))
            made.append(o.copy(idarg))
        elif made and hasattr(made[-1], 'set_xr'):
            z = np.array(made[-1].xr(O)) + rng.uniform(-.02, .02, 2)
            steps.append(('copy_reference', z.copy()))
            made[-1].set_xr(z, O)
        for a in made:
            a.polygon(G)
            a.point_location(rng.uniform(-3, 3, 2))
    mon.ok('derived_arguments', plain(given) == plain(kept), lambda: det(after=given))
    ref = type(o)(*[kept[0]], **({'xr': kept[1]} if q < 2 else {}), **({'n_pol': o.polygon(O).exterior.coords.__len__() - 1} if q == 0 else {}), motion_model=m)
    mon.ok('derived_original', fingerprint(o)[2:] == fingerprint(ref)[2:] and (not warm or fingerprint(o) == fp), lambda: det(note='original changed'))
    mon.distinct('derive', type(o).__name__, tuple(k for k, _ in steps), warm)


def case(mon, rng, i, tier):
    k = i % 5
    if k == 4:
        return derive_case(mon, rng)
    if k in (0, 1):
        o, b = gen.obstacle(rng, rng.choice(list('ECSPQ')))
        mon.describe(b.params())
        run_queries(mon, rng, o, b, b.xr is not None, False, b.kind, lambda: {'body': b.params()})
        agree.compare(mon, o, b, rng, 'after', n=3)
    elif k == 2:
        clusters_case(mon, rng)
    else:
        functions_case(mon, rng)
