"""Cached and derived answers stay fresh over histories of motion, pose changes, reference point changes and queries."""
import numpy as np
import gen, agree, oracle
import starshaped_hull as sh
from obstacles import Frame, StarshapedPolygon, Polygon, Ellipse
from obstacles import motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 40000}
REQUIRED = {'op_move': 600, 'op_set_pos': 600, 'op_set_rot': 600, 'op_new_model': 200, 'op_reference': 500, 'op_dilate': 300, 'op_copy': 300, 'op_nothing': 300, 'op_intersects': 200,
            'fresh_polygon': 1000, 'fresh_kernel': 500, 'after_polygon': 1000, 'after_location': 1000, 'after_boundary': 400, 'after_kernel': 400, 'after_normal': 300, 'intersects': 150, 'anchor_location': 3000, 'anchor_kernel': 3000, 'anchor_hull': 800}
RULE = ('Histories of 6-25 operations on one obstacle: moves along its motion model, position only, rotation only or model replaced, reference point changed, dilated and duplicated copies taken (and queried), '
        'tiny moves, moves back to an earlier pose; after each operation 1-6 random queries in random order are compared with the reference body at the current pose and polygon and kernel with '
        'those of a newly created obstacle; points fixed in the world, in the obstacle or relative to the reference point (offset or direction) are asked about again after every operation (location, admissible kernel, starshaped hull). Distinct: (class, operation, previous operation, query kinds asked before).')


def model(rng, ps):
    k = rng.integers(3)
    if k == 0:
        return mm.Static(ps.pos, ps.rot)
    if k == 1:
        return mm.SinusVelocity(ps.pos, ps.rot, x1_mag=rng.uniform(-2, 2), x1_period=rng.uniform(1, 5), x2_mag=rng.uniform(-2, 2), x2_period=rng.uniform(1, 5))
    return mm.SinusVelocity(ps.pos, ps.rot, cartesian_coords=False, x1_mag=rng.uniform(-2, 2), x1_period=rng.uniform(1, 5), x2_mag=rng.uniform(-2, 2), x2_period=rng.uniform(1, 5))


def fresh(b):
    m = mm.Static(b.pose.pos, b.pose.rot) if b.has_mm else None
    if b.kind == 'E':
        return Ellipse(b.shape.a, xr=b.xr, n_pol=b.n_pol, motion_model=m, id='temp')
    if b.xr is not None:
        return StarshapedPolygon(b.shape.v, xr=b.xr, motion_model=m, id='temp')
    return Polygon(b.shape.v, motion_model=m, id='temp')


def sync(o, b):
    m = gen.model_of(o)
    b.has_mm = m is not None
    if b.has_mm:
        b.pose = oracle.Pose(np.array(o.pos(), float), float(o.rot()))


def sticky(rng, s):
    """Query points that stay the same relative to something: the world, the obstacle, or the reference point (in direction or offset)."""
    D = rng.normal(0, 1, (2, 2))
    D *= (rng.uniform(.3, 2.5, 2) * s / np.linalg.norm(D, axis=1))[:, None]
    A = rng.uniform(-6, 6, (2, 2))

    def probe(rng, b):
        k, j = rng.integers(8), int(rng.integers(2))
        if k > 4:
            return gen.probe(rng, b)
        x = np.zeros(2) if b.xr is None else b.xr
        return [A[j], b.glob(D[j]), b.glob(x + D[j]), b.glob(x) + D[j], b.glob(x + D[j] * rng.uniform(.3, 2))][k]
    return probe


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng)
    if b.has_mm:
        o.set_motion_model(model(rng, b.pose))
    mon.describe(b.params())
    s = b.shape.size
    log, poses, prev = [], [b.pose], None
    probe = sticky(rng, s)
    other, ob = gen.obstacle(rng, spread=2)
    # the same points are asked about again and again
    anchors = [gen.probe(rng, b) for _ in range(2)] + [rng.uniform(-6, 6, 2)]
    kernel_points = np.array([b.glob(b.shape.interior_point(rng)) for _ in range(2)] + [rng.uniform(-6, 6, 2)])
    for step in range(int(rng.integers(6, 26))):
        ops = ['nothing', 'new_model', 'dilate', 'copy', 'intersects']
        if b.has_mm:
            ops += ['move', 'set_pos', 'set_rot', 'move', 'set_pos', 'set_rot']
        if b.xr is not None:
            ops += ['reference', 'reference']
        op = ops[int(rng.integers(len(ops)))]
        mon.seen('op_' + op)
        if op == 'move':
            dt = rng.choice([0., 1e-3, .1, 1.])
            o.move(dt)
            log.append([op, dt])
        elif op == 'set_pos':
            k = rng.integers(4)
            p = [b.pose.pos + rng.normal(0, 1e-6, 2), rng.uniform(-5, 5, 2), poses[int(rng.integers(len(poses)))].pos.copy(), np.array([b.pose.pos[0], rng.uniform(-5, 5)])][int(k)]
            gen.model_of(o).set_pos(p if rng.random() < .5 else p.tolist())
            log.append([op, p.tolist()])
        elif op == 'set_rot':
            k = rng.integers(4)
            r = float([b.pose.rot + 1e-4, rng.uniform(-7, 7), poses[int(rng.integers(len(poses)))].rot, rng.choice(gen.RIGHT)][int(k)])
            gen.model_of(o).set_rot(r)
            log.append([op, r])
        elif op == 'new_model':
            ps = poses[int(rng.integers(len(poses)))] if rng.random() < .2 else gen.pose(rng, mode='full')[1]
            o.set_motion_model(model(rng, ps))
            log.append([op, ps.pos.tolist(), ps.rot])
        elif op == 'reference':
            if b.kind == 'E':
                x = gen.reference(rng, b.shape)
            else:
                K = b.shape.kernel()
                x = gen.reference(rng, b.shape) if len(K) > 2 else b.xr
            f = Frame.OBSTACLE if rng.random() < .5 else Frame.GLOBAL
            # the kernel of an ellipse is that of its polygon
            deep = np.linalg.norm(x / b.shape.a) < .9 * np.cos(np.pi / b.n_pol) if b.kind == 'E' else b.shape.kernel_depth(x) > 1e-3 * s
            o.set_xr(x.copy() if f == Frame.OBSTACLE else b.glob(x), f, safe_set=bool(deep and rng.random() < .3))
            b.xr = x
            log.append([op, x.tolist()])
        elif op == 'dilate':
            d = o.dilated_obstacle(rng.uniform(.05, 1), id='temp')
            # use the dilated obstacle, which must not influence the original
            d.polygon(), d.polygon(Frame.OBSTACLE), d.is_convex(), d.point_location(b.pose.pos)
            if b.xr is not None:
                d.set_xr(np.array(b.xr) + 1e-3)
            log.append([op])
        elif op == 'copy':
            c = o.copy(id=str(rng.choice(['temporary', 'duplicate'])))
            c.polygon(), c.extreme_points()
            if b.xr is not None:
                c.kernel()
                c.set_xr(np.array(b.xr) + 1e-3)
            if rng.random() < .5:
                c.set_motion_model(mm.Static([100., 100.], 1.))
                c.polygon()
            log.append([op])
        elif op == 'intersects':
            sync(o, b)
            P, Q = b.inner(), ob.inner()
            d, r = P.distance(Q), P.intersection(Q).area
            gap = b.rep_gap() + ob.rep_gap()
            got = bool(o.intersects(other)), bool(other.intersects(o))
            if d > 1e-6:
                if d > gap + 1e-3:
                    mon.ok('intersects', got == (False, False), lambda: {'body': b.params(), 'other': ob.params(), 'history': log, 'got': got})
            elif r > 4 * gap * (s + ob.shape.size) + 1e-6:
                mon.ok('intersects', got == (True, True), lambda: {'body': b.params(), 'other': ob.params(), 'history': log, 'got': got})
            log.append([op])
        sync(o, b)
        poses.append(b.pose)
        ex = lambda: {'history': log}
        agree.compare(mon, o, b, rng, 'after', n=int(rng.integers(1, 7)), extra=ex, probe=probe)
        if rng.random() < .5:
            F = fresh(b)
            for f in (Frame.GLOBAL, Frame.OBSTACLE):
                tol = 1e-6 * (s + np.abs(b.pose.pos).max())
                mon.ok('fresh_polygon', oracle.same_region(o.polygon(f), F.polygon(f), tol), lambda: {'body': b.params(), **ex(), 'frame': f, 'got': o.polygon(f).wkt, 'fresh': F.polygon(f).wkt})
                if b.xr is not None and (b.kind == 'E' or b.shape.kernel_depth(b.xr) > 1e-3 * s):
                    mon.ok('fresh_kernel', oracle.same_region(o.kernel(f), F.kernel(f), tol), lambda: {'body': b.params(), **ex(), 'frame': f, 'got': o.kernel(f).wkt, 'fresh': F.kernel(f).wkt})
        anchored(mon, rng, o, b, anchors, kernel_points, ex)
        mon.distinct(b.kind, op, prev, b.has_mm, min(step, 3))
        prev = op


def anchored(mon, rng, o, b, anchors, kernel_points, ex):
    """Admissible kernel, starshaped hull and location for points that have been asked about before other poses."""
    s = b.shape.size
    for x in anchors:
        if rng.random() < .5:
            continue
        side, m = b.signed(x)
        if m < 1e-3 * s or np.linalg.norm(x - b.pose.pos) > 300 * s:
            continue
        det = lambda **d: {'body': b.params(), **ex(), 'point': x, **d}
        mon.ok('anchor_location', np.sign(o.point_location(x)) == side, lambda: det(got=o.point_location(x), expected=side))
        if b.kind == 'E' and abs(b.shape.a[0] ** 2 - b.loc(x)[0] ** 2) < 1e-3:
            continue
        t = b.tangents(x)
        k = sh.admissible_kernel(o, x)
        if not mon.ok('anchor_kernel', (k is None) == (t is None), lambda: det(got=str(k), tangents=t)) or t is None:
            continue
        u = [(x - p) / np.linalg.norm(x - p) for p in t]
        g = [k.dir1 / np.linalg.norm(k.dir1), k.dir2 / np.linalg.norm(k.dir2)]
        mon.ok('anchor_kernel', np.abs(k.apex - x).max() < 1e-9 and max(np.linalg.norm(g[0] - u[0]), np.linalg.norm(g[1] - u[1])) < 1e-3, lambda: det(got=str(k), expected=u))
    if rng.random() < .3 and (b.kind != 'E' or min(abs(b.signed(k)[1]) for k in kernel_points) > 1e-2 * s):
        H, W = sh.kernel_starshaped_hull(o, kernel_points.copy()), sh.kernel_starshaped_hull(fresh(b), kernel_points.copy())
        mon.ok('anchor_hull', oracle.same_region(H, W, 1e-4 * (s + np.abs(kernel_points - b.pose.pos).max())), lambda: {'body': b.params(), **ex(), 'kernel_points': kernel_points, 'got': H and H.wkt, 'fresh': W and W.wkt})
