"""Motion models in lockstep with reference integrators; trajectory properties of each model."""
import numpy as np
import gen
from obstacles import Frame
from obstacles import motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 30000}
REQUIRED = {'static': 2000, 'sinus_position': 5000, 'sinus_rotation': 5000, 'turning': 2000, 'interval_at_times': 600, 'interval_between': 2000, 'interval_settles': 600, 'interval_end': 100, 'interval_returns': 500,
            'waypoint_speed': 3000, 'waypoint_heading': 3000, 'waypoint_order': 300, 'waypoint_stops': 100, 'returned_position': 5000, 'caller_position': 250, 'velocity': 5000, 'reset': 500, 'obstacle_follows': 1000,
            'no_model': 50, 'query_neutral': 1500, 'at_time': 200}
RULE = ('Static, sinusoidal (Cartesian and linear/angular, periods 0.5-10 or constant), interval and waypoint models with random parameters (positions as lists, tuples, arrays), driven through 20-120 steps of equal, random, tiny and zero length, '
        'directly and through an obstacle; pose set in between; velocities asked any number of times. Distinct: (model, options, kind of step, phase of motion).')


def give(rng, p):
    p = np.asarray(p, float)
    return [p.copy(), p.tolist(), tuple(p.tolist())][int(rng.integers(3))]


def steps(rng, n):
    k = rng.integers(4)
    if k == 0:
        return [2. ** -int(rng.integers(1, 6))] * n, 'equal'
    if k == 1:
        return list(rng.uniform(.001, .5, n)), 'random'
    if k == 2:
        return list(rng.choice([0., 1e-6, .1, .25], n)), 'zero'
    return [.1] * n, 'tenth'


class Driver:
    """Moves either the model itself or an obstacle that carries it."""

    def __init__(self, mon, rng, m):
        self.m, self.mon, self.rng = m, mon, rng
        self.o = None
        if rng.random() < .5:
            self.o, _ = gen.obstacle(rng, pose_mode='none', id='temp')
            self.o.set_motion_model(m)
        self.held = []

    def move(self, dt):
        m, mon = self.m, self.mon
        if self.rng.random() < .3:
            for _ in range(int(self.rng.integers(1, 4))):
                a, w = np.array(m.lin_vel(), float), float(m.rot_vel())
                a2, w2 = np.array(m.lin_vel(), float), float(m.rot_vel())
                mon.ok('query_neutral', np.array_equal(a, a2) and w == w2 and np.isfinite(a).all(), lambda: {'velocity': a, 'again': a2})
        p = m.pos()
        self.held.append((p, np.array(p)))
        if self.o is not None:
            self.o.move(dt)
            mon.ok('obstacle_follows', np.array_equal(self.o.pos(), m.pos()) and self.o.rot() == m.rot(), lambda: {'obstacle': self.o.pos(), 'model': m.pos()})
        else:
            m.move(None, dt)
        h, was = self.held[int(self.rng.integers(len(self.held)))]
        mon.ok('returned_position', np.array_equal(h, was), lambda: {'returned_earlier': was, 'now': h})


def case(mon, rng, i, tier):
    kind = str(rng.choice(['static', 'sinus', 'sinus', 'interval', 'interval', 'waypoints', 'waypoints']))
    n = int(rng.integers(20, 121))
    dts, sk = steps(rng, n)
    p0, r0 = rng.uniform(-5, 5, 2), rng.uniform(-4, 4)
    arg = give(rng, p0)
    keep = np.array(arg)
    if i % 25 == 0:
        o, b = gen.obstacle(rng, pose_mode='none')
        o.move(1.)
        mon.ok('no_model', np.array_equal(o.pos(), np.zeros(2)) and o.rot() == 0, lambda: {'pos': o.pos()})
    if kind == 'static':
        m = mm.Static(arg, r0) if rng.random() < .8 else mm.Static(pos=arg, rot=r0)
        d = Driver(mon, rng, m)
        for dt in dts:
            d.move(dt)
            mon.ok('static', np.array_equal(m.pos(), p0) and m.rot() == r0, lambda: {'pos': m.pos(), 'expected': p0})
        mon.ok('velocity', not np.any(m.lin_vel()) and m.rot_vel() == 0, lambda: {'v': m.lin_vel()})
        mon.distinct(kind, sk, d.o is not None)
    elif kind == 'sinus':
        cart = rng.random() < .5
        A = rng.uniform(-2, 2, 2)
        T = np.where(rng.random(2) < .2, 0, rng.uniform(.5, 10, 2))
        kw = dict(x1_mag=A[0], x1_period=T[0], x2_mag=A[1], x2_period=T[1])
        if not cart or rng.random() < .5:
            kw['cartesian_coords'] = bool(cart)
        m = mm.SinusVelocity(arg, r0, **kw)
        d = Driver(mon, rng, m)
        t, p, r = 0., p0.copy(), r0
        F = np.array([2 * np.pi / x if x else 0. for x in T])
        for k, dt in enumerate(dts):
            v = A * np.cos(F * t)
            lin, om = (v, 0.) if cart else (v[0] * np.array([np.cos(r), np.sin(r)]), v[1])
            det = lambda: {'parameters': kw, 'start': [p0, r0], 'step': k, 'time': t, 'got': [m.pos(), m.rot(), m.lin_vel(), m.rot_vel()], 'expected': [p, r, lin, om]}
            mon.ok('velocity', np.allclose(m.lin_vel(), lin, atol=1e-9) and abs(m.rot_vel() - om) < 1e-9, det)
            d.move(dt)
            p, r, t = p + lin * dt, r + om * dt, t + dt
            mon.ok('sinus_position', np.allclose(m.pos(), p, atol=1e-8), det)
            mon.ok('sinus_rotation', abs(m.rot() - r) < 1e-8, det)
            if not cart:
                mon.seen('turning')
            if rng.random() < .03:
                p = rng.uniform(-5, 5, 2)
                q = give(rng, p)
                m.set_pos(q)
                if isinstance(q, np.ndarray):
                    q += 1000.
                r = rng.uniform(-4, 4)
                m.set_rot(r)
                mon.ok('reset', np.allclose(m.pos(), p) and m.rot() == r, det)
        mon.distinct(kind, cart, T[0] > 0, T[1] > 0, sk, d.o is not None)
    elif kind == 'interval':
        k = int(rng.integers(1, 5))
        dt = 2. ** -int(rng.integers(1, 5))
        dur = dt * rng.integers(1, 12, k)
        P = [p0] + [rng.uniform(-5, 5, 2) for _ in range(k)]
        m = mm.Interval(arg, [(float(a), give(rng, q)) for a, q in zip(dur, P[1:])])
        d = Driver(mon, rng, m)
        ends = np.cumsum(dur)
        t = 0.
        det = lambda: {'positions': P, 'durations': dur, 'dt': dt, 'time': t, 'got': m.pos(), 'expected': exp}
        last_v = np.linalg.norm(P[-1] - P[-2]) / dur[-1]
        total = ends[-1]
        while t < total - 1e-12:
            # one or several steps of binary length, sometimes split
            parts = [dt] if rng.random() < .7 else [dt / 2, dt / 2] if rng.random() < .5 else [dt / 4, dt / 4, dt / 2]
            for h in parts:
                d.move(h)
                t += h
            j = int(np.searchsorted(ends, t - 1e-12))
            a = ends[j - 1] if j else 0.
            w = (t - a) / dur[j]
            exp = (1 - w) * P[j] + w * P[j + 1]
            at = abs(w - 1) < 1e-12
            mon.ok('interval_at_times' if at else 'interval_between', np.linalg.norm(m.pos() - exp) < 1e-8 and m.rot() == 0, det)
            if at:
                mon.seen('at_time')
            mon.distinct(kind, k, at, j, len(parts))
        exp = P[-1]
        dist = np.linalg.norm(m.pos() - exp)
        for _ in range(20):
            h = min(dt, .9 / max(last_v, .9))
            d.move(h)
            now = np.linalg.norm(m.pos() - exp)
            mon.ok('interval_settles', now <= dist + 1e-9, det)
            dist = now
        mon.ok('interval_end', dist < 1e-8, det)
        # pushed away it returns, no faster than in the last interval times the distance scale
        q = P[-1] + rng.normal(size=2) * rng.choice([.1, 3])
        m.set_pos(q)
        dist = np.linalg.norm(m.pos() - exp)
        for _ in range(20):
            v = m.lin_vel()
            if last_v > 0:
                if last_v > 1e-3 and dist > 1e-3:
                    mon.ok('interval_returns', (exp - m.pos()) @ v > 1e-3 * last_v * dist ** 2, det)
                mon.ok('velocity', (exp - m.pos()) @ v >= -1e-9 and abs(v[0] * (exp - m.pos())[1] - v[1] * (exp - m.pos())[0]) < 1e-7 * (1 + last_v) * (1 + dist), det)
            d.move(min(dt, .9 / max(last_v, .9)))
            now = np.linalg.norm(m.pos() - exp)
            mon.ok('interval_settles', now <= dist + 1e-9, det)
            dist = now
    else:
        k = int(rng.integers(1, 5))
        W = [rng.uniform(-3, 3, 2) for _ in range(k)]
        if rng.random() < .2:
            W.insert(int(rng.integers(k)), p0 + rng.normal(size=2) * .05)
            k += 1
        vel = rng.uniform(.2, 3)
        th = rng.choice([.2, rng.uniform(.05, .5)])
        wp = [give(rng, q) for q in W]
        m = mm.Waypoints(arg, wp, vel) if th == .2 else mm.Waypoints(arg, wp, vel, th)
        d = Driver(mon, rng, m)
        dt = .9 * th / vel * rng.uniform(.3, 1)
        pts = [p0] + W
        idx, done_at, visited = 0, None, []
        L = np.linalg.norm(np.diff(pts, axis=0), axis=1).sum()
        det = lambda: {'start': p0, 'waypoints': W, 'speed': vel, 'threshold': th, 'dt': dt, 'step': s, 'heading_for': idx, 'from': p, 'to': m.pos()}
        for s in range(int(L / (vel * dt)) + 4 * k + 12):
            p = np.array(m.pos())
            amb = False
            while idx < len(pts) and np.linalg.norm(pts[idx] - p) < th:
                amb = amb or abs(np.linalg.norm(pts[idx] - p) - th) < 1e-9
                visited.append(idx)
                idx += 1
            v = np.array(m.lin_vel(), float)
            h = dt * rng.choice([1., rng.uniform(0, 1)])
            d.move(h)
            step = m.pos() - p
            if idx >= len(pts):
                mon.ok('waypoint_stops', np.linalg.norm(step) < 1e-12 and not np.any(v), det)
                done_at = done_at or s
                continue
            u = (pts[idx] - p) / np.linalg.norm(pts[idx] - p)
            mon.ok('waypoint_speed', abs(np.linalg.norm(step) - vel * h) < 1e-9, det)
            mon.ok('waypoint_heading', np.linalg.norm(step - vel * h * u) < 1e-8 and np.linalg.norm(v - vel * u) < 1e-8, det)
            mon.ok('sinus_rotation', m.rot() == 0, det)
            mon.distinct(kind, k, idx, sk)
            if rng.random() < .004:
                m.set_pos(p0 + rng.normal(size=2))
                mon.seen('reset')
        mon.ok('waypoint_order', visited == list(range(len(visited))), det)
    if isinstance(arg, np.ndarray):
        mon.ok('caller_position', np.array_equal(arg, keep), lambda: {'given': keep, 'now': arg})
