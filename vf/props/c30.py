"""Setting the reference point: honoured by every query, refused outside the kernel when set safely."""
import numpy as np
import gen, agree, oracle
from obstacles import Frame, StarshapedPolygon, Ellipse
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 30000}
REQUIRED = {'accepted': 2000, 'refused': 1500, 'refused_inside_obstacle': 300, 'unchecked': 800, 'set_reference': 2000, 'set_boundary': 1500, 'set_distance': 1000, 'set_normal': 1000, 'set_direction': 1000, 'container': 500, 'unchecked_outside': 300}
RULE = ('Random starshaped obstacles in random poses; sequences of 3-9 reference points requested safely or not in the obstacle or global frame as list or array: kernel, obstacle outside of the kernel, outside of the obstacle, '
        'close to the kernel boundary on either side; after each, queries are compared with the reference point that must now be in force. Distinct: (class, frame, safe, where, decade of distance to the kernel boundary).')


def depth(b, x):
    if b.kind == 'E':
        # the kernel is the inscribed polygon representation
        t = np.linspace(0, 2 * np.pi, b.n_pol, endpoint=False)
        a = b.shape.a + 1e-3
        return oracle.PolygonShape(np.c_[a[0] * np.cos(t), a[1] * np.sin(t)]).kernel_depth(x)
    return b.shape.kernel_depth(x)


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng, rng.choice(list('ECSS')))
    mon.describe(b.params())
    s = b.shape.size
    if b.kind != 'E':
        K = b.shape.kernel()
        if len(K) < 3 or b.shape.kernel_depth(K.mean(0)) < 1e-2 * s or b.shape.kernel_depth(b.xr) < 1e-3 * s:
            return
    else:
        K = b.shape.boundary(b.n_pol)
    hist = []
    for step in range(int(rng.integers(3, 10))):
        if rng.random() < .25 and b.has_mm:
            ps = gen.pose(rng, mode='full')[1]
            gen.model_of(o).set_pos(ps.pos)
            gen.model_of(o).set_rot(ps.rot)
            b.pose = ps
        k = rng.integers(4)
        if k == 0:
            x = .9 * rng.dirichlet(np.ones(len(K)) * .5) @ K + .1 * K.mean(0)
        elif k == 1:
            x = b.shape.interior_point(rng)
        elif k == 2:
            x = rng.uniform(-1, 1, 2) * s * 1.5
        else:       # next to the kernel boundary
            w = rng.random()
            j = int(rng.integers(len(K)))
            x = w * K[j - 1] + (1 - w) * K[j] + rng.normal(size=2) * s * 10. ** rng.uniform(-5, -2)
        d = depth(b, x)
        if abs(d) < 1e-6 * (s + np.abs(b.pose.pos).max()):
            continue
        safe = rng.random() < .7
        f = Frame.OBSTACLE if rng.random() < .5 else Frame.GLOBAL
        if not safe and (d < 1e-2 * s and b.kind != 'E' or b.kind == 'E' and b.shape.signed(x)[0] > 0):
            # without safe setting any point is taken over; back to an admissible one
            arg = x.copy() if f == Frame.OBSTACLE else b.glob(x)
            o.set_xr(arg, f) if rng.random() < .5 else o.set_xr(arg, input_frame=f, safe_set=False)
            now, y = o.xr(Frame.OBSTACLE), x + rng.normal(size=2) * s
            u = (y - x) / np.linalg.norm(y - x)
            tol = 1e-9 * (s + np.abs(b.pose.pos).max())
            mon.ok('unchecked_outside', np.linalg.norm(now - x) < tol and np.linalg.norm(o.xr() - b.glob(x)) < tol and np.linalg.norm(o.reference_direction(y, Frame.OBSTACLE, Frame.OBSTACLE) - u) < 1e-6,
                   lambda: {'body': b.params(), 'history': hist, 'requested': x, 'frame': f, 'now': now, 'previous': b.xr})
            o.set_xr(b.xr.copy())
            hist.append([x.tolist(), f.name, 'unchecked and back', d])
            continue
        arg = x.copy() if f == Frame.OBSTACLE else b.glob(x)
        if rng.random() < .25:
            mon.seen('container')
            # as a list, where the frame conversion accepts it
            arg = arg.tolist()
        if f == Frame.OBSTACLE and rng.random() < .3 and safe:
            o.set_xr(arg, safe_set=True)        # the obstacle frame is the default
        else:
            o.set_xr(arg, f, safe)
        hist.append([x.tolist(), f.name, bool(safe), d])
        det = lambda: {'body': b.params(), 'history': hist, 'requested': x, 'frame': f, 'safe': safe, 'kernel_depth': d, 'previous': b.xr, 'now': o.xr(Frame.OBSTACLE)}
        now = np.asarray(o.xr(Frame.OBSTACLE), float)
        tol = 1e-9 * (s + np.abs(b.pose.pos).max())
        if safe and d < 0:
            mon.ok('refused', np.linalg.norm(now - b.xr) < tol, det)
            if b.shape.signed(x)[0] < 0:
                mon.seen('refused_inside_obstacle')
        else:
            mon.ok('accepted' if safe else 'unchecked', np.linalg.norm(now - x) < tol, det)
            b.xr = x
        mon.distinct(b.kind, f.name, bool(safe), int(k), bool(d > 0), int(np.log10(abs(d) / s)))
        names = ['reference', 'boundary', 'distance', 'normal', 'direction', 'location', 'kernel']
        agree.compare(mon, o, b, rng, 'set', names=names, n=5, extra=lambda: {'history': hist})
