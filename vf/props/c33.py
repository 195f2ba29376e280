"""Combinations of primitives answer as the union of their members and hull."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle, agree, pipe, scene
from core import Skip
from obstacles import Frame, StarshapedPolygon, StarshapedPrimitiveCombination
from obstacles import motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 1000, 'thorough': 20000}
REQUIRED = {'location_inside': 2000, 'location_outside': 1000, 'line': 2000, 'boundary': 3000, 'distance': 2000, 'member_normal': 1000, 'hull_normal': 120, 'polygon_normal': 2000, 'smoothed_normal': 2000,
            'region': 800, 'kernel': 200, 'convex': 400, 'given': 800, 'by_hand': 300, 'from_clustering': 200, 'with_hull': 150, 'reference_moved': 200, 'inside_hull_only': 60, 'direction': 2000, 'exact_inside_on_member': 300, 'exact_boundary': 300, 'exact_other': 1000, 'tangents': 200, 'tangents_many': 15, 'exact_line': 150, 'exact_line_along': 200}
RULE = ('Unions of boxes with exact coordinates and grid points on the boundaries of members and axis-parallel segments, also along edges of members and of the hull; combinations built by hand (2-5 starshaped members of all classes around a common kernel point, without hull or with a convex or starshaped hull around the reference point) and those returned by '
        'clustering; points inside members, only in the hull, outside, near and far; random lines; reference point moved within the kernel. Distinct: (origin, number of members, classes of members, hull, what is hit, query).')


def by_hand(rng):
    n = int(rng.integers(2, 6))
    c = rng.uniform(-3, 3, 2)
    obs, bodies = [], []
    for _ in range(40):
        if len(obs) == n:
            break
        o, b = gen.obstacle(rng, rng.choice(list('ECSQ')), at=c + rng.uniform(-.8, .8, 2), scale=rng.uniform(.7, 1.2))
        q = b.loc(c)
        d = -b.signed(c)[1] * b.signed(c)[0] if b.kind == 'E' else b.shape.kernel_depth(q)
        if d > .06:
            obs.append(o)
            bodies.append(b)
    if len(obs) < 2:
        raise Skip('no members')
    hull = None
    if rng.random() < .6:
        m = int(rng.integers(3, 9))
        t = np.sort(rng.uniform(0, 2 * np.pi, m))
        if np.diff(np.r_[t, t[0] + 2 * np.pi]).max() < 2.6 and np.diff(np.r_[t, t[0] + 2 * np.pi]).min() > .1:
            v = c + np.c_[np.cos(t), np.sin(t)] * rng.uniform(.4, 2, m)[:, None]
            hull = sg.Polygon(v if rng.random() < .5 else v[::-1])
    elif rng.random() < .3:
        hull = sg.Polygon([])
    return StarshapedPrimitiveCombination(obs, hull, c.copy() if rng.random() < .7 else c.tolist()), obs, bodies, hull, c


def from_clustering(mon, rng):
    for s, r in pipe.loop(rng, rng.choice(['convex', 'plain', 'star', 'mixed']), steps=1):
        if r.flag != pipe.COMPLETE:
            raise Skip('incomplete')
        cand = [c for c in r.clusters if type(c.cluster_obstacle).__name__ == 'StarshapedPrimitiveCombination']
        if not cand:
            raise Skip('no combination')
        cl = cand[int(rng.integers(len(cand)))]
        comb = cl.cluster_obstacle
        by = {id(o): b for o, b in zip(s.obs, s.bodies)}
        return comb, comb.obstacle_cluster(), [by[id(o)] for o in comb.obstacle_cluster()], comb.hull_cluster(), np.asarray(comb.xr(), float)


def boxes(mon, rng):
    """Axis parallel boxes with exact coordinates: every grid point is known to be inside, on the boundary or outside."""
    B = []
    for _ in range(int(rng.integers(2, 5))):
        x0, y0 = rng.integers(-8, 1, 2)
        x1, y1 = rng.integers(1, 9, 2)
        B.append((x0 / 4, y0 / 4, x1 / 4, y1 / 4))
    hull = sg.box(*B.pop()) if rng.random() < .4 else None
    obs = []
    for b in B:
        if rng.random() < .5:
            obs.append(StarshapedPolygon(sg.box(*b)))
        else:
            t = rng.integers(-4, 5, 2) / 4.
            obs.append(StarshapedPolygon(sg.box(b[0] - t[0], b[1] - t[1], b[2] - t[0], b[3] - t[1]), motion_model=mm.Static(t)))
    comb = StarshapedPrimitiveCombination(obs, hull, np.array([.05, .05]))
    U = oracle.union([sg.box(*b) for b in B] + ([hull] if hull is not None else []))
    A = B + ([hull.bounds] if hull is not None else [])
    for _ in range(30):
        b = A[int(rng.integers(len(A)))]
        p = np.array([rng.integers(-10, 11) / 4, rng.integers(-10, 11) / 4])
        k = rng.integers(5)
        if k < 2:
            p[k] = b[k + 2 * int(rng.integers(2))]
        inside = [q[0] < p[0] < q[2] and q[1] < p[1] < q[3] for q in A]
        on = [not i and q[0] <= p[0] <= q[2] and q[1] <= p[1] <= q[3] for i, q in zip(inside, A)]
        if any(inside):
            e = -1
        elif any(on):
            if U.exterior.distance(sg.Point(p)) > 1e-6:
                continue
            e = 0
        else:
            e = 1
        got = comb.point_location(p)
        if rng.random() < .3:
            exact_line(mon, rng, comb, A, hull)
        name = 'exact_inside_on_member' if e < 0 and any(on) else 'exact_boundary' if e == 0 else 'exact_other'
        mon.ok(name, np.sign(got) == e and bool(comb.interior_point(p)) == (e < 0) and bool(comb.exterior_point(p)) == (e > 0) and bool(comb.boundary_point(p)) == (e == 0),
               lambda: {'boxes': B, 'hull': None if hull is None else hull.wkt, 'point': p, 'got': got, 'expected': e})


def exact_line(mon, rng, comb, A, hull):
    """Axis parallel segments, also along edges of members and of the hull: crossings, and the ends of common pieces."""
    j = int(rng.integers(2))        # varying coordinate
    a, e = np.sort(rng.choice(np.arange(-11, 12), 2, replace=False)) / 4
    b = A[int(rng.integers(len(A)))]
    c = b[1 - j + 2 * int(rng.integers(2))] if rng.random() < .6 else int(rng.integers(-10, 11)) / 4
    exp, along = [], False
    for q in A:
        if q[1 - j] < c < q[3 - j]:
            exp += [t for t in (q[j], q[j + 2]) if a <= t <= e]
        elif c in (q[1 - j], q[3 - j]):
            lo, hi = max(a, q[j]), min(e, q[j + 2])
            if lo <= hi:
                exp += [lo, hi]
                along = True
    P = np.zeros((2, 2))
    P[:, j], P[:, 1 - j] = [a, e], c
    if rng.random() < .5:
        P = P[::-1]
    got = comb.line_intersection([P[0].copy(), P[1].copy()])
    E = np.zeros((len(exp), 2))
    E[:, j], E[:, 1 - j] = exp, c
    mon.ok('exact_line_along' if along else 'exact_line', agree.setof(np.unique(np.round(np.reshape(got, (-1, 2)), 9), axis=0), np.unique(E, axis=0), 1e-9), lambda: {'boxes': A, 'hull': None if hull is None else hull.wkt, 'line': P, 'got': got, 'expected': E})


def tangents(mon, comb, obs, bodies, p, name='tangents'):
    """The tangent points of a combination are the outermost ones of its members (as long as these are within a half plane)."""
    e = [b.tangents(p) for b in bodies]
    if any(t is None for t in e):
        return
    pts = np.array([q for t in e for q in t])
    if len(pts) < 2 or np.linalg.norm(pts - p, axis=1).min() < 1e-2 or any(b.signed(p)[1] < 1e-2 for b in bodies):
        return
    u = (pts - p) / np.linalg.norm(pts - p, axis=1)[:, None]
    m = u.mean(0)
    if np.linalg.norm(m) < 1e-2:
        return
    phi = np.arctan2(oracle.cross(m, u), u @ m)
    order = np.argsort(phi)
    if np.ptp(phi) > np.pi - .05:
        return
    # the outermost directions are clearly so
    if min(phi[order[1]] - phi[order[0]], phi[order[-1]] - phi[order[-2]]) < 4e-4:
        return
    exp = [pts[order[0]], pts[order[-1]]]
    got = comb.tangent_points(p)
    near = lambda a, z: abs(oracle.cross(a - p, z - p)) < 1e-4 * np.linalg.norm(a - p) * np.linalg.norm(z - p) and (a - p) @ (z - p) > 0
    ok = len(got) == 2 and any(near(got[0], exp[k]) and near(got[1], exp[1 - k]) for k in (0, 1))
    mon.ok(name, ok, lambda: {'members': [b.params() for b in bodies][:20], 'point': p, 'got': got, 'expected': exp})


def many(mon, rng):
    """A combination of very many members."""
    n = int(rng.integers(100, 180))
    u = rng.normal(size=2)
    obs, bodies = [], []
    for k in range(n):
        o, b = gen.obstacle(rng, 'E', at=u * k * .3 + rng.normal(0, .05, 2), scale=rng.uniform(.3, .5), pose_mode='full')
        obs.append(o)
        bodies.append(b)
    comb = StarshapedPrimitiveCombination(obs, None, bodies[0].pose.pos.copy())
    for _ in range(3):
        v = np.array([-u[1], u[0]]) / np.linalg.norm(u)
        p = u * rng.uniform(0, n * .3) + v * rng.choice([-1, 1]) * n * rng.uniform(.1, .5)
        tangents(mon, comb, obs, bodies, p, 'tangents_many')


def ring(h):
    return [] if h is None or h.is_empty else [np.array(h.exterior.coords)[:-1]]


def case(mon, rng, i, tier):
    if i % 8 == 5:
        boxes(mon, rng)
    if i % 50 == 11:
        many(mon, rng)
    hand = rng.random() < .55
    if hand:
        comb, obs, bodies, hull, c = by_hand(rng)
        mon.seen('by_hand')
    else:
        comb, obs, bodies, hull, c = from_clustering(mon, rng)
        mon.seen('from_clustering')
    if hull is not None and hull.geom_type != 'Polygon':
        raise Skip('hull of several parts')
    hull_wkt = None if hull is None else hull.wkt
    mon.describe({'members': [b.params() for b in bodies], 'hull': hull_wkt, 'reference': c})
    det = lambda **q: {'members': [b.params() for b in bodies], 'hull': hull_wkt, 'reference': c, **q}
    H = ring(hull)
    if H:
        mon.seen('with_hull')
    HS = oracle.PolygonShape(H[0]) if H else None
    P = comb.polygon()
    if P.geom_type != 'Polygon':
        if hand:
            mon.ok('region', False, lambda: det(got=P.wkt))
        return
    s = float(np.ptp(np.array(P.exterior.coords), axis=0).max())
    sig = ''.join(sorted(b.kind for b in bodies))
    gap = max(b.rep_gap() for b in bodies) + 1e-6 if bodies else 1e-6
    mon.ok('given', len(comb.obstacle_cluster()) == len(obs) and all(a is z for a, z in zip(comb.obstacle_cluster(), obs)) and comb.hull_cluster() is hull
           and np.allclose(comb.xr(), c) and np.allclose(comb.xr(Frame.OBSTACLE), c) and np.allclose(comb.pos(), 0) and comb.rot() == 0, det)
    # region
    U = oracle.union([b.inner(400) for b in bodies] + ([sg.Polygon(H[0])] if H else []))
    if U.geom_type == 'Polygon' or hand:
        ok = U.difference(P.buffer(2 * gap)).area < 1e-9 and P.difference(U.buffer(2 * gap)).area < 1e-9
        mon.ok('region', ok, lambda: det(got=P.wkt, expected=U.wkt))
    pv = np.array(P.exterior.coords)[:-1]
    if oracle.cross(pv, np.roll(pv, -1, 0)).sum() < 0:
        pv = pv[::-1]
    PS = oracle.PolygonShape(pv)
    lens = np.linalg.norm(PS.b - PS.v, axis=1)

    def sides(p):
        """Signed answers and margins of members and hull."""
        out = [b.signed(p) for b in bodies]
        if HS is not None:
            out.append(HS.signed(p))
        return out

    def crossings(l0, l1):
        pts, m = [], np.inf
        who = []
        for j, b in enumerate(bodies):
            q, k = b.crossings(l0, l1)
            pts += q
            who += [j] * len(q)
            m = min(m, k)
        if HS is not None:
            q, k = HS.crossings(l0, l1)
            pts += q
            who += [-1] * len(q)
            m = min(m, k)
        return pts, m, who
    moved = False
    for k in range(12):
        if k == 6 and rng.random() < .5:
            # another reference point within the common kernel
            x = c + rng.normal(size=2) * .02
            if all((-b.signed(x)[0] * b.signed(x)[1] if b.kind == 'E' else b.shape.kernel_depth(b.loc(x))) > .01 for b in bodies) and (HS is None or HS.kernel_depth(x) > .01) and bodies:
                comb.set_xr(x.copy(), Frame.GLOBAL if rng.random() < .5 else Frame.OBSTACLE)
                c = x
                moved = True
                mon.seen('reference_moved')
        w = rng.integers(4)
        if w == 0 or not bodies:
            p = c + rng.normal(size=2) * s * .5
        elif w == 1:
            p = gen.probe(rng, bodies[int(rng.integers(len(bodies)))], 1.5)
        elif w == 2:
            p = pv[int(rng.integers(len(pv)))] + rng.normal(size=2) * s * .03
        else:
            p = c + rng.normal(size=2) * s * rng.choice([.1, 5])
        if np.abs(p - c).max() > 60 * s:
            continue
        a = sides(p)
        if min(m for _, m in a) < 1e-5 * s:
            continue
        inside = any(sd < 0 for sd, _ in a)
        f = Frame.GLOBAL if rng.random() < .7 else Frame.OBSTACLE
        got = comb.point_location(p, f)
        mon.ok('location_inside' if inside else 'location_outside', np.sign(got) == (-1 if inside else 1) and bool(comb.interior_point(p)) == inside and bool(comb.exterior_point(p)) != inside,
               lambda: det(point=p, got=got, expected=-1 if inside else 1))
        if inside and HS is not None and a[-1][0] < 0 and all(sd > 0 for sd, _ in a[:-1]):
            mon.seen('inside_hull_only')
        if not H and not inside and rng.random() < .7:
            tangents(mon, comb, obs, bodies, p)
        # lines
        l = [p, p + rng.normal(size=2) * s]
        pts, m, _ = crossings(*l)
        if m > 1e-3 * s:
            r = comb.line_intersection(l)
            mon.ok('line', agree.setof(r, pts, 1e-4 * s), lambda: det(line=l, got=r, expected=pts))
        # ray from the reference point
        d = np.linalg.norm(p - c)
        if d < 1e-2 * s:
            continue
        u = (p - c) / d
        mon.ok('direction', np.linalg.norm(comb.reference_direction(p) - u) < 1e-6, lambda: det(point=p, got=comb.reference_direction(p)))
        pts, _, who = crossings(c, c + u * 4 * s)
        if not pts:
            continue
        ts = np.array([(z - c) @ u for z in pts])
        j = int(ts.argmax())
        e = pts[j]
        what = 'hull' if who[j] < 0 else bodies[who[j]].kind
        got = comb.boundary_mapping(p)
        if not mon.ok('boundary', got is not None, lambda: det(point=p, expected=e)):
            continue
        mon.ok('boundary', np.linalg.norm(got - e) < 1e-4 * s, lambda: det(point=p, got=got, expected=e, hits=what))
        ratio = d / ts[j]
        if abs(ratio - 1) > 1e-3:
            df = comb.distance_function(p)
            mon.ok('distance', (df > 1) == (ratio > 1) and abs(df - ratio ** 2) < 1e-3 * max(1, ratio ** 2), lambda: det(point=p, got=df, ratio=ratio))
        mon.distinct(hand, len(bodies), sig, bool(H), what, inside, moved)
        # normals
        if not hand:
            continue
        second = max([t for t, o in zip(ts, who) if o != who[j]] + [-1])
        if ts[j] - second > 1e-3 * s:
            if who[j] < 0:
                if HS.kernel_depth(c) > 1e-3 * s and np.linalg.norm(HS.v - e, axis=1).min() > 1e-3 * s:
                    q = HS.edge_normals()[int(oracle.seg_dist(e, HS.v, HS.b).argmin())]
                    n = comb.normal(p, type='sub_normal')
                    mon.ok('hull_normal', np.linalg.norm(n - q) < 1e-5, lambda: det(point=p, got=n, expected=q))
            else:
                b = bodies[who[j]]
                if b.xr is not None:
                    # normal of the member at its own boundary point towards the point asked for
                    zl = b.loc(p)
                    v = (zl - b.xr) / np.linalg.norm(zl - b.xr)
                    ex = b.shape.ray_exits(b.xr, v)
                    if len(ex) == 1 and np.linalg.norm(zl - b.xr) > 1e-2 and (b.kind == 'E' or (np.linalg.norm(b.shape.v - ex[0], axis=1).min() > 1e-3 * s and b.shape.kernel_depth(b.xr) > 1e-3)):
                        q = b.shape.normal(ex[0]) if b.kind == 'E' else b.shape.edge_normals()[int(oracle.seg_dist(ex[0], b.shape.v, b.shape.b).argmin())]
                        q = b.pose.rotf(q) if b.has_mm else q
                        n = comb.normal(p, type='sub_normal')
                        mon.ok('member_normal', np.linalg.norm(n - q) < 1e-4, lambda: det(point=p, got=n, expected=q, member=who[j]))
        pe = [z for z in PS.ray_exits(c, u)]
        if len(pe) == 1 and np.linalg.norm(PS.v - pe[0], axis=1).min() > 1e-3 * s and PS.kernel_depth(c) > 1e-3 * s:
            jj = int(oracle.seg_dist(pe[0], PS.v, PS.b).argmin())
            N = PS.edge_normals()
            n = comb.normal(p, type='polygon_approx')
            mon.ok('polygon_normal', np.linalg.norm(n - N[jj]) < 1e-5, lambda: det(point=p, got=n, expected=N[jj]))
            if lens.min() > 1e-6:
                n = comb.normal(p) if rng.random() < .7 else comb.normal(p, type='weigthed_polygon_approx')
                M = len(N)
                trio = N[[(jj - 1) % M, jj, (jj + 1) % M]]
                ok = abs(np.linalg.norm(n) - 1) < 1e-6
                inside_cone = False
                for a1, a2 in ((0, 1), (1, 2), (0, 2)):
                    A = np.c_[trio[a1], trio[a2]]
                    if abs(np.linalg.det(A)) < 1e-6:
                        inside_cone = inside_cone or max(trio[a1] @ n, trio[a2] @ n) > 1 - 1e-5
                        continue
                    inside_cone = inside_cone or np.linalg.solve(A, n).min() > -1e-5
                mon.ok('smoothed_normal', ok and inside_cone, lambda: det(point=p, got=n, neighbours=trio))
    # kernel and convexity of the represented region
    if hand and lens.min() > 1e-3 * s:
        K = PS.kernel()
        E = sg.MultiPoint(K).convex_hull if len(K) >= 3 else sg.Polygon([])
        if E.area > 1e-3 * s ** 2 and PS.kernel_depth(c) > 1e-3 * s:
            G = comb.kernel()
            mon.ok('kernel', oracle.same_region(G, E, 1e-5 * s), lambda: det(got=G.wkt, expected=E.wkt, polygon=P.wkt))
        if abs(PS.min_turn) > 1e-3:
            mon.ok('convex', bool(comb.is_convex()) == PS.convex, lambda: det(got=comb.is_convex(), polygon=P.wkt))
        mon.ok('given', bool(comb.is_starshaped()), det)
