"""Velocity of obstacle points: linear velocity plus rotational contribution; member hit for combinations."""
import numpy as np
import gen
from obstacles import Frame
from obstacles import motion_model as mm
from obstacles import StarshapedPrimitiveCombination
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = {'without_model': 500, 'static': 500, 'translating': 1000, 'rotating': 1000, 'perpendicular': 1000, 'after_motion': 2000, 'member_hit': 500, 'not_first_member': 150}
RULE = ('Starshaped obstacles with no, static, sinusoidal (Cartesian and turning), interval and waypoint motion models, asked at several points at several times along the motion; combinations of 2-4 overlapping '
        'moving convex members with a common reference point, asked where a unique member is hit. Distinct: (class, model, octant of the reference direction, sign of rotation, moved).')


def perp(u):
    return np.array([-u[1], u[0]])


def model(rng, ps, which=None):
    k = which or rng.choice(['none', 'static', 'cart', 'turn', 'turn', 'interval', 'waypoints'])
    if k == 'none':
        return None, k
    if k == 'static':
        return mm.Static(ps.pos, ps.rot), k
    if k in ('cart', 'turn'):
        return mm.SinusVelocity(ps.pos, ps.rot, cartesian_coords=k == 'cart', x1_mag=rng.uniform(-2, 2), x1_period=rng.choice([0, rng.uniform(1, 5)]), x2_mag=rng.uniform(-2, 2), x2_period=rng.choice([0, rng.uniform(1, 5)])), k
    if k == 'interval':
        return mm.Interval(ps.pos.tolist(), [(1., rng.uniform(-4, 4, 2).tolist()), (2., rng.uniform(-4, 4, 2).tolist())]), k
    return mm.Waypoints(ps.pos.tolist(), [rng.uniform(-4, 4, 2).tolist()], rng.uniform(.1, 2)), k


def expected(o, b, p):
    m = gen.model_of(o)
    if m is None:
        return np.zeros(2), 0., None
    x = o.xr()
    u = (p - x) / np.linalg.norm(p - x)
    w = float(m.rot_vel())
    return np.array(m.lin_vel(), float) + w * perp(u), w, u


def case(mon, rng, i, tier):
    if rng.random() < .25:
        return combination(mon, rng)
    o, b = gen.obstacle(rng, rng.choice(list('ECS')), pose_mode='full')
    m, k = model(rng, b.pose)
    o.set_motion_model(m)
    mon.describe({**b.params(), 'model': k})
    moved = False
    for _ in range(6):
        if rng.random() < .6:
            for _ in range(int(rng.integers(1, 6))):
                o.move(rng.uniform(.01, .3))
            moved = True
        x = o.xr()
        p = x + rng.normal(size=2) * b.shape.size * 10. ** rng.uniform(-2, 1.5)
        got = np.asarray(o.vel_intertial_frame(p), float)
        exp, w, u = expected(o, b, p)
        det = lambda: {'body': b.params(), 'model': k, 'point': p, 'reference': x, 'got': got, 'expected': exp, 'lin_vel': m.lin_vel() if m else None, 'rot_vel': w}
        name = 'without_model' if m is None else 'static' if k == 'static' else 'rotating' if w else 'translating'
        mon.ok(name, got.shape == (2,) and np.linalg.norm(got - exp) < 1e-9, det)
        if moved:
            mon.seen('after_motion')
        if w:
            r = got - np.array(m.lin_vel())
            mon.ok('perpendicular', abs(r @ u) < 1e-9 and abs(np.linalg.norm(r) - abs(w)) < 1e-9 and np.sign(u[0] * r[1] - u[1] * r[0]) == np.sign(w), det)
        mon.distinct(b.kind, k, moved, int(np.sign(w)), int(np.arctan2(*(p - x)) // (np.pi / 4)))


def combination(mon, rng):
    n = int(rng.integers(2, 5))
    c = rng.uniform(-3, 3, 2)
    obs = []
    for _ in range(n):
        o, b = gen.obstacle(rng, rng.choice(list('EC')), at=c + rng.uniform(-.6, .6, 2), scale=1.)
        m, k = model(rng, b.pose, rng.choice(['static', 'cart', 'turn']))
        o.set_motion_model(m)
        if b.signed(c)[0] > 0 or b.signed(c)[1] < .02:
            return
        obs.append((o, b))
    comb = StarshapedPrimitiveCombination([o for o, _ in obs], None, c)
    mon.describe({'members': [b.params() for _, b in obs], 'reference': c})
    for _ in range(5):
        t = rng.uniform(0, 2 * np.pi)
        u = np.array([np.cos(t), np.sin(t)])
        p = c + u * rng.uniform(.05, 6)
        ds = []
        for o, b in obs:
            e = b.shape.ray_exits(b.loc(c), b.pose.rotinv(u))
            ds.append(max(np.linalg.norm(b.glob(x) - c) for x in e) if e else -1)
        j = int(np.argmax(ds))
        if ds[j] - sorted(ds)[-2] < 1e-3:
            continue
        got = comb.vel_intertial_frame(p)
        exp, w, _ = expected(*obs[j], p)
        mon.ok('member_hit', np.linalg.norm(got - exp) < 1e-8, lambda: {'members': [b.params() for _, b in obs], 'reference': c, 'point': p, 'hit': j, 'got': got, 'expected': exp})
        if j:
            mon.seen('not_first_member')
        mon.distinct('comb', n, j, int(np.sign(w)))
