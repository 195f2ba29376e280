"""Frames: every query gives the same geometry in the obstacle frame and in the global frame."""
import numpy as np
import shapely.geometry as sg
import gen, oracle, agree
from obstacles import Frame
LEVEL = 'exploration'
CASES = {'quick': 2000, 'thorough': 40000}
REQUIRED = {'transform': 5000, 'rotate': 5000, 'round_trip': 5000, 'pose': 1500, 'polygon': 1500, 'extreme': 1500, 'reference': 1000, 'kernel': 800, 'direction': 800,
            'frames_agree': 8000, 'no_model': 100, 'moved': 500, 'global_default': 10000}
RULE = ('Random obstacles of all classes, with and without motion model, poses with axis aligned and general rotations (also beyond 2 pi), pose changed through the motion model or replaced by another '
        'motion model between queries. Points, directions and regions are asked in all four frame combinations and with frames left out. Distinct: (class, query, frames, motion model, quadrant of the rotation).')


def close(a, c, tol):
    return np.shape(a) == np.shape(c) and np.allclose(a, c, rtol=1e-9, atol=tol)


setof = agree.setof


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng)
    mon.describe(b.params())
    s = b.shape.size
    if not b.has_mm:
        mon.seen('no_model')
    for rnd in range(2):
        if rnd:
            if not b.has_mm and rng.random() < .7:
                break
            ps = gen.pose(rng, mode='full')[1]
            if b.has_mm and rng.random() < .6:
                # the motion model of the obstacle is replaced, or its pose is changed in place
                gen.model_of(o).set_pos(ps.pos.copy() if rng.random() < .5 else ps.pos.tolist())
                gen.model_of(o).set_rot(ps.rot)
            else:
                o.set_motion_model(gen.make_mm(rng, ps))
            b.pose, b.has_mm = ps, True
            mon.seen('moved')
        tol = 1e-8 * (s + np.abs(b.pose.pos).max() + 1)
        G, O = Frame.GLOBAL, Frame.OBSTACLE
        det = lambda **q: {'body': b.params(), **q}
        sig = lambda what, *f: mon.distinct(b.kind, what, *[x.name for x in f], b.has_mm, int(np.floor(b.pose.rot / (np.pi / 2))) % 4)
        mon.ok('pose', close(o.pos(), b.pose.pos if b.has_mm else np.zeros(2), 1e-12) and abs(o.rot() - (b.pose.rot if b.has_mm else 0)) < 1e-12
               and close(o.pos(O), np.zeros(2), 0) and o.rot(O) == 0, lambda: det(pos=o.pos(), rot=o.rot()))
        # points, arrays of points, directions
        for _ in range(3):
            x = rng.normal(0, 5, 2)
            fi, fo = gen.frame_pair(rng)
            keep = x.copy()
            same = fi == fo
            exp = x if same else (b.glob(x) if fo == G else b.loc(x))
            got = o.transform(x, fi, fo)
            mon.ok('transform', close(got, exp, tol), lambda: det(point=keep, frames=[fi, fo], got=got, expected=exp))
            exr = x if same else (b.pose.rotf(x) if fo == G else b.pose.rotinv(x))
            gor = o.rotate(x, fi, fo)
            mon.ok('rotate', close(gor, exr, tol), lambda: det(direction=keep, frames=[fi, fo], got=gor, expected=exr))
            mon.ok('round_trip', close(o.transform(got, fo, fi), keep, tol) and close(o.rotate(gor, fo, fi), keep, tol) and np.array_equal(x, keep), lambda: det(point=keep, frames=[fi, fo]))
            sig('transform', fi, fo)
        # regions
        for f in ((G, O) if rng.random() < .5 else (O, G)):
            P = o.polygon(f)
            v = np.array(P.exterior.coords)[:-1]
            base = np.array(o.polygon(O).exterior.coords)[:-1]
            if b.kind != 'E':
                exp = b.glob(b.shape.v) if f == G else b.shape.v
                ok = setof(v, exp, tol)
            else:
                q = b.loc(v) if f == G else v
                ok = len(v) == b.n_pol and np.all(np.abs(np.linalg.norm(q / (b.shape.a + 1e-3), axis=1) - 1) < 1e-8)
            mon.ok('polygon', ok and close(v, b.glob(base) if f == G else base, tol), lambda: det(frame=f, polygon=v))
            E = o.extreme_points(f)
            mon.ok('extreme', setof(E, v, tol) and setof(v, E, tol) if len(E) == len(v) else False, lambda: det(frame=f, extreme=E, polygon=v))
            sig('polygon', f)
            if b.kind in 'ECS':
                x = o.xr(f)
                mon.ok('reference', close(np.asarray(x), b.glob(b.xr) if f == G else b.xr, tol), lambda: det(frame=f, xr=x))
                K, K0 = o.kernel(f), o.kernel(O)
                v0 = np.array(K0.exterior.coords)[:-1]
                mon.ok('kernel', setof(np.array(K.exterior.coords)[:-1], b.glob(v0) if f == G else v0, tol), lambda: det(frame=f, kernel=K.wkt))
        # queries
        p = gen.probe(rng, b)
        sd, m = b.signed(p)
        if m < 1e-3 * s:
            continue
        ql = b.loc(p)
        a1, a2 = o.point_location(b.glob(ql)), o.point_location(ql)
        a2 = o.point_location(ql, O)
        mon.ok('frames_agree', np.sign(a1) == np.sign(a2), lambda: det(point=p, got=[a1, a2]))
        line = [b.glob(ql), b.glob(ql + rng.normal(0, s, 2))]
        pts, mar = b.crossings(line[0], line[1])
        if mar > 1e-3 * s:
            for fi in (G, O):
                for fo in (G, O):
                    r = o.line_intersection([gen.to_frame(b, z, fi) for z in line], fi, fo)
                    rg = [gen.from_frame(b, z, fo) for z in r]
                    mon.ok('frames_agree', setof(rg, pts, 1e-5 * (s + np.abs(b.pose.pos).max())) and setof(pts, rg, 1e-5 * (s + np.abs(b.pose.pos).max())), lambda: det(line=line, frames=[fi, fo], got=rg, expected=pts))
                    sig('line', fi, fo)
        omitted(mon, rng, o, b, p, m, line if mar > 1e-3 * s else None)
        if sd > 0 and (b.kind == 'E' or abs(b.shape.view_range(ql) - 2 * np.pi) > 1e-3):
            base = [np.asarray(t) for t in o.tangent_points(p)]
            for fi in (G, O):
                for fo in (G, O):
                    r = [gen.from_frame(b, z, fo) for z in o.tangent_points(gen.to_frame(b, p, fi), fi, fo)]
                    # ties between collinear vertices may be resolved differently
                    mon.ok('frames_agree', len(r) == len(base) and all(abs(oracle.cross(x - p, y - p)) < 1e-5 * np.linalg.norm(x - p) * np.linalg.norm(y - p) + 1e-9 for x, y in zip(r, base)),
                           lambda: det(point=p, frames=[fi, fo], got=r, expected=base))
                    sig('tangent', fi, fo)
        if b.kind in 'ECS' and np.linalg.norm(ql - b.xr) > 1e-2 * s:
            u = (ql - b.xr) / np.linalg.norm(ql - b.xr)
            dg, do = o.reference_direction(p, G, G), o.reference_direction(ql, O, O)
            dx = o.reference_direction(p, G, O), o.reference_direction(ql, O, G)
            mon.ok('direction', close(dx[0], u, 1e-7 * (1 + np.abs(b.pose.pos).max() / s)) and close(dx[1], b.pose.rotf(u), 1e-7 * (1 + np.abs(b.pose.pos).max() / s)), lambda: det(point=p, mixed=dx))
            mon.ok('direction', close(dg, b.pose.rotf(u), 1e-7 * (1 + np.abs(b.pose.pos).max() / s)) and close(do, u, 1e-9), lambda: det(point=p, got=[dg, do]))
            if b.kind == 'E' or b.shape.kernel_depth(b.xr) > 1e-3 * s:
                for fi in (G, O):
                    for fo in (G, O):
                        r = gen.from_frame(b, o.boundary_mapping(gen.to_frame(b, p, fi), fi, fo), fo)
                        z = b.loc(r)
                        mon.ok('frames_agree', abs(oracle.cross(z - b.xr, u)) < 1e-6 * s * (1 + np.abs(b.pose.pos).max() / s) and (z - b.xr) @ u > 0, lambda: det(point=p, frames=[fi, fo], got=r))
                    d = o.distance_function(gen.to_frame(b, p, fi), fi)
                    d0 = o.distance_function(ql, O)
                    mon.ok('frames_agree', abs(d - d0) < 1e-6 * max(1, d0), lambda: det(point=p, frame=fi, got=[d, d0]))
                sig('boundary', fi, fo)


def same(a, c):
    return np.shape(a) == np.shape(c) and bool(np.allclose(np.asarray(a, float), np.asarray(c, float), rtol=1e-9, atol=1e-9))


def omitted(mon, rng, o, b, p, m, line):
    """Frames left out of a query are the global frame; the reference point alone is set in the obstacle frame."""
    G, O = Frame.GLOBAL, Frame.OBSTACLE
    star = b.kind in 'ECS' and (b.kind == 'E' or b.shape.kernel_depth(b.xr) > 1e-3 * b.shape.size) and np.linalg.norm(b.loc(p) - b.xr) > 1e-2 * b.shape.size
    sd = b.signed(p)[0]
    qs = [('polygon', lambda *f: np.array(o.polygon(*f).exterior.coords), 'o'), ('extreme_points', lambda *f: o.extreme_points(*f), 'o'), ('pos', o.pos, 'o'), ('rot', o.rot, 'o'),
          ('point_location', lambda *f: o.point_location(p, *f), 'i'), ('interior_point', lambda *f: o.interior_point(p, *f), 'i'), ('exterior_point', lambda *f: o.exterior_point(p, *f), 'i'),
          ('boundary_point', lambda *f: o.boundary_point(p, *f), 'i')]
    if line is not None:
        qs.append(('line_intersection', lambda *f: o.line_intersection(line, *f), 'io'))
    if sd > 0 and (b.kind == 'E' or abs(b.shape.view_range(b.loc(p)) - 2 * np.pi) > 1e-3):
        qs.append(('tangent_points', lambda *f: o.tangent_points(p, *f), 'io'))
    if b.kind in 'ECS':
        qs += [('xr', o.xr, 'o'), ('kernel', lambda *f: np.array(o.kernel(*f).exterior.coords), 'o')]
    if star:
        qs += [('reference_direction', lambda *f: o.reference_direction(p, *f), 'io'), ('boundary_mapping', lambda *f: o.boundary_mapping(p, *f), 'io'), ('normal', lambda *f: o.normal(p, *f), 'io'),
               ('distance_function', lambda *f: o.distance_function(p, *f), 'i')]
    for name, q, kind in qs:
        d = q()
        if kind == 'io':
            pairs = [((), (G, G)), ((G,), (G, G)), ((O,), (O, G))]
        else:
            pairs = [((), (G,))]
        for f, full in pairs:
            a, c = (d if not f else q(*f)), q(*full)
            mon.ok('global_default', same(a, c), lambda: {'body': b.params(), 'query': name, 'point': p, 'frames_given': f, 'got': a, 'frames': full, 'expected': c})
            if f:
                mon.distinct(b.kind, name, 'omitted', len(f), f[0].name)
            else:
                mon.distinct(b.kind, name, 'omitted', 0)
