"""Input generators: obstacles of every class with their reference models."""
import numpy as np
import shapely
import oracle
import shapely.geometry as sg
from oracle import Body, EllipseShape, PolygonShape, Pose, cross
import obstacles as ob
from obstacles import Frame
from obstacles import motion_model as mm

RIGHT = [0., np.pi / 2, np.pi, -np.pi / 2, -np.pi, 2 * np.pi, 1e-3, 3 * np.pi / 4]


def pose(rng, spread=5., mode=None):
    """(has motion model, Pose)."""
    mode = mode or rng.choice(['none', 'shift', 'turn', 'full', 'right'], p=[.12, .13, .1, .5, .15])
    if mode == 'none':
        return False, Pose()
    if mode == 'shift':
        return True, Pose(rng.uniform(-spread, spread, 2), 0.)
    if mode == 'turn':
        return True, Pose([0., 0.], rng.uniform(-7, 7))
    if mode == 'right':
        return True, Pose(np.round(rng.uniform(-spread, spread, 2)), rng.choice(RIGHT))
    return True, Pose(rng.uniform(-spread, spread, 2), rng.uniform(-7, 7))


def convex_vertices(rng, scale=1.):
    k = rng.integers(6)
    if k == 0:      # axis aligned box
        w, h = rng.uniform(.3, 1.5, 2)
        v = np.array([[-w, -h], [w, -h], [w, h], [-w, h]])
    elif k == 1:    # regular polygon
        n = int(rng.integers(3, 12))
        t = np.arange(n) * 2 * np.pi / n + rng.choice([0, rng.uniform(0, 6)])
        v = np.c_[np.cos(t), np.sin(t)]
    elif k == 2:    # triangle
        while True:
            v = rng.uniform(-1.2, 1.2, (3, 2))
            if abs(cross(v[1] - v[0], v[2] - v[0])) > .3:
                break
    elif k == 3:    # thin
        n = int(rng.integers(4, 9))
        t = np.sort(rng.uniform(0, 2 * np.pi, n))
        while np.diff(np.r_[t, t[0] + 2 * np.pi]).max() > 3 or np.diff(t).min() < .15:
            t = np.sort(rng.uniform(0, 2 * np.pi, n))
        v = np.c_[1.5 * np.cos(t), .3 * np.sin(t)]
    else:           # points on a circle-like curve
        n = int(rng.integers(4, 14))
        while True:
            t = np.sort(rng.uniform(0, 2 * np.pi, n))
            if np.diff(np.r_[t, t[0] + 2 * np.pi]).max() < 3 and np.diff(np.r_[t, t[0] + 2 * np.pi]).min() > .08:
                break
        v = np.c_[np.cos(t) * rng.uniform(.5, 1.3), np.sin(t) * rng.uniform(.5, 1.3)]
    return v * scale


def star_vertices(rng, scale=1., rmin=.35):
    k = rng.integers(14)
    if k >= 12:
        if k == 12:         # pinwheel: the kernel has a side per tooth
            n = int(rng.integers(3, 6))
            t0, d = np.arange(n) * 2 * np.pi / n + rng.uniform(0, 6), rng.uniform(-.15, .15)
            t, r = np.c_[t0, t0 + d].ravel() if d > 0 else np.c_[t0 + d, t0].ravel(), np.where((np.arange(2 * n) % 2 == 0) == (d > 0), 1.3, rng.uniform(.6, 1.1))
        else:               # smooth, many short edges
            n, m = int(rng.integers(30, 70)), int(rng.integers(2, 5))
            t = np.arange(n) * 2 * np.pi / n + rng.uniform(0, 6)
            r = 1 + rng.uniform(.1, .5) * np.sin(m * t + 1)
        return np.c_[r * np.cos(t), r * np.sin(t)] * scale
    k = k % 5
    if k == 0:      # regular star
        n = int(rng.integers(3, 8))
        t = np.arange(2 * n) * np.pi / n + rng.choice([0, rng.uniform(0, 6)])
        r = np.where(np.arange(2 * n) % 2, rng.uniform(.4, .8), 1.3)
    elif k == 1:    # plus
        w = rng.uniform(.2, .6)
        L = rng.uniform(.9, 1.5)
        v = np.array([[w, w], [w, L], [-w, L], [-w, w], [-L, w], [-L, -w], [-w, -w], [-w, -L], [w, -L], [w, -w], [L, -w], [L, w]])
        return v * scale
    elif k == 2:    # L shape, reference in the corner block
        w, L, h = rng.uniform(.4, .8), rng.uniform(1., 2.2), rng.uniform(1., 2.2)
        v = np.array([[-w, -w], [L, -w], [L, w * .5], [w * .5, w * .5], [w * .5, h], [-w, h]])
        return v * scale
    else:
        n = int(rng.integers(5, 14))
        t = np.arange(n) / n * 2 * np.pi + rng.uniform(0, .75 * 2 * np.pi / n, n)
        r = rng.uniform(rmin, 1.4, n)
    return np.c_[r * np.cos(t), r * np.sin(t)] * scale


SHAPES = [
    [[0, 0], [3, 0], [3, 2], [2.4, 2], [2.4, .6], [.6, .6], [.6, 2], [0, 2]],                       # U
    [[0, 0], [3, 0], [3, .5], [1.75, .5], [1.75, 2], [1.25, 2], [1.25, .5], [0, .5]],               # T
    [[0, 0], [2, 0], [2, 2], [0, 2], [0, 1.5], [1.5, 1.5], [1.5, .5], [0, .5]],                     # C
    [[0, 0], [4, 0], [4, 2], [3.5, 2], [3.5, .5], [2.2, .5], [2.2, 2], [1.8, 2], [1.8, .5], [.5, .5], [.5, 2], [0, 2]],  # E comb
    [[0, 0], [3, 0], [3, 3], [0, 3], [0, 1], [2, 1], [2, 2], [1, 2], [1, 1.6], [1.6, 1.6], [1.6, 1.4], [.5, 1.4], [.5, 2.5], [2.5, 2.5], [2.5, .5], [0, .5]],  # spiral
    [[0, 0], [1, 0], [1, 1.5], [3, 1.5], [3, 2.5], [0, 2.5]],
    [[0, 0], [1, .3], [2, 0], [3, .3], [4, 0], [4, .8], [3, 1.1], [2, .8], [1, 1.1], [0, .8]],      # zigzag band
]


def band(rng, scale=1.):
    """Curved band with many short edges: arc, spiral or wave."""
    n, w = int(rng.integers(12, 40)), rng.uniform(.12, .3)
    q = rng.integers(3)
    if q < 2:
        t = np.linspace(0, rng.uniform(1., 1.75) * np.pi if q == 0 else rng.uniform(2.2, 3.2) * np.pi, n)
        r = np.ones(n) if q == 0 else .35 + .22 * t / np.pi
        w = w if q == 0 else .12
        a, b = np.c_[(r + w / 2) * np.cos(t), (r + w / 2) * np.sin(t)], np.c_[(r - w / 2) * np.cos(t), (r - w / 2) * np.sin(t)]
    else:
        x = np.linspace(-1.3, 1.3, n)
        y = rng.uniform(.2, .5) * np.sin(rng.uniform(2, 5) * x)
        a, b = np.c_[x, y - w / 2], np.c_[x, y + w / 2]
    return np.vstack((a, b[::-1])) * scale


def nonstar_vertices(rng, scale=1.):
    k = rng.integers(4)
    if k == 3 and rng.random() < .6:
        return band(rng, scale)
    if k < 2:
        v = np.array(SHAPES[int(rng.integers(len(SHAPES)))], float)
        v = v - v.mean(0)
        if rng.random() < .5:
            v = v + rng.uniform(-.03, .03, v.shape)
        if rng.random() < .3:
            v[:, 0] = -v[:, 0]
        return v * scale * .6
    while True:     # union of boxes and triangles
        parts = []
        for _ in range(int(rng.integers(2, 6))):
            c, (w, h), t = rng.uniform(-1, 1, 2), rng.uniform(.15, .9, 2), rng.uniform(0, 6)
            q = np.array([[-w, -h], [w, -h], [w, h], [-w, h]])
            R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
            parts.append(sg.Polygon(q @ R.T + c))
        u = shapely.union_all(parts)
        if u.geom_type == 'MultiPolygon':
            u = max(u.geoms, key=lambda g: g.area)
        u = sg.Polygon(u.exterior).simplify(.02)
        v = np.array(u.exterior.coords)[:-1]
        e = np.roll(v, -1, 0) - v
        L = np.linalg.norm(e, axis=1)
        turn = cross(e, np.roll(e, -1, 0)) / (L * np.roll(L, -1))
        if u.is_valid and L.min() > .05 and np.abs(turn).min() > .03:
            return v * scale


def messy(rng, v):
    """The same polygon as a caller may give it: order, closing vertex, container."""
    v = np.array(v)
    v = np.roll(v, int(rng.integers(len(v))), axis=0)
    if rng.random() < .5:
        v = v[::-1]
    if rng.random() < .2:
        v = np.vstack([v, v[:1]])
    r = rng.random()
    if r < .25:
        return v.tolist()
    if r < .4:
        return [tuple(p) for p in v.tolist()]
    if r < .5:
        return sg.Polygon(v)
    return v.copy()


def make_mm(rng, ps, still=True):
    pos = ps.pos.copy()
    r = rng.random()
    if r < .3:
        pos = pos.tolist()
    elif r < .4:
        pos = tuple(pos.tolist())
    if still or rng.random() < .5:
        return mm.Static(pos, ps.rot)
    return mm.SinusVelocity(pos, ps.rot, x1_mag=rng.uniform(-1, 1), x1_period=rng.uniform(1, 5))


def put(rng, o, b):
    """Brings an obstacle with motion model to the pose of its body in one of the ways there are."""
    k = rng.random()
    m = model_of(o)
    if k < .5 or m is None:
        o.set_motion_model(mm.Static(b.pose.pos.copy(), b.pose.rot))
        return
    if k < .75:
        how = rng.permutation(2)
        for h in how:
            if h:
                m.set_pos(b.pose.pos.copy())
            elif m.rot() != b.pose.rot:
                m.set_rot(b.pose.rot)
        return
    # set out at a place from which one step with the velocity of the model leads to the pose
    dt, v = rng.uniform(.1, .5), rng.uniform(-.5, .5, 2)
    m = mm.SinusVelocity(b.pose.pos, b.pose.rot, bool(rng.integers(2)), x1_mag=v[0], x2_mag=v[1], x1_period=rng.choice([0, 3.]))
    m.set_rot(b.pose.rot - float(m.rot_vel()) * dt)
    m.set_pos(b.pose.pos - np.array(m.lin_vel()) * dt)
    o.set_motion_model(m)
    if rng.random() < .5:
        o.polygon()
    o.move(dt)


def reference(rng, shape):
    """A reference point in the kernel, sometimes close to its boundary."""
    far = rng.random() < .2
    if isinstance(shape, EllipseShape):
        if not far:
            return shape.interior_point(rng) * .8
        t = rng.uniform(0, 2 * np.pi) if rng.random() < .4 else np.pi / 2 * rng.integers(4)
        return .97 * shape.a * np.array([np.cos(t), np.sin(t)])
    K = shape.kernel()
    w = rng.dirichlet(np.ones(len(K)))
    if far:
        return .97 * K[int(rng.integers(len(K)))] + .03 * K.mean(0)
    return .9 * (w @ K) + .1 * K.mean(0)


def model_of(o):
    """The motion model of an obstacle, whatever the attribute is called."""
    m = getattr(o, '_motion_model', None)
    return m if m is not None else next((v for v in vars(o).values() if isinstance(v, mm.MotionModel)), None)


def obstacle(rng, kind=None, spread=5., scale=None, pose_mode=None, xr_mode=None, at=None, n_pol=None, id='new', still=True, long=.08, offset=.12, far=.06):
    """A repository obstacle and its reference Body. Kinds: E ellipse, C convex starshaped polygon,
    S starshaped polygon, P non-starshaped plain polygon, Q convex plain polygon,
    R plain polygon of starshaped geometry (its Body has kind P: plain non-convex polygons are not declared starshaped)."""
    kind = kind or rng.choice(list('ECSPQ'))
    scale = scale if scale is not None else rng.choice([1., rng.uniform(.3, 3.)])
    has, ps = pose(rng, 40 * spread if far and rng.random() < far else spread, pose_mode)
    if at is not None:
        has, ps = True, Pose(at, ps.rot)
    m = make_mm(rng, ps, still) if has else None
    name = rng.choice([None, 'obs'])
    if kind == 'E':
        a = rng.uniform(.3, 1.5, 2) * scale
        if rng.random() < .15:
            a[1] = a[0]
        if rng.random() < .1:
            a = np.array([1.5, .2]) * scale
        n_pol = n_pol or int(rng.integers(8, 41))
        shape = EllipseShape(a)
        xr = np.zeros(2)
        mode = xr_mode or rng.choice(['default', 'random'])
        kw = {}
        if mode == 'random':
            xr = reference(rng, shape)
            kw['xr'] = xr.tolist() if rng.random() < .5 else xr.copy()
        o = ob.Ellipse(a.tolist() if rng.random() < .5 else a.copy(), n_pol=n_pol, motion_model=m, id=id, name=name, **kw)
        return o, Body(shape, ps, has, xr, kind, n_pol)
    if kind in 'CQ':
        v = convex_vertices(rng, scale)
    elif kind in 'SR':
        v = star_vertices(rng, scale)
        if kind == 'R':
            kind = 'P'
    else:
        v = nonstar_vertices(rng, scale)
    if at is None and scale == 1. and rng.random() < long:      # elongated
        v = v * rng.permutation([rng.uniform(3, 7), rng.uniform(.7, 1.2)])
    if rng.random() < offset:       # given in a frame whose origin is somewhere else
        t = rng.uniform(-3, 3, 2) * scale
        v = v + t
        if at is not None:
            ps = Pose(ps.pos - ps.rotf(t), ps.rot)
            if m is not None:
                m.set_pos(ps.pos.copy())
    shape = PolygonShape(v)
    if kind in 'PQ':
        o = ob.Polygon(messy(rng, v), motion_model=m, id=id, name=name)
        return o, Body(shape, ps, has, None, kind)
    mode = xr_mode or rng.choice(['zero', 'default', 'random'])
    kw = {}
    if mode == 'zero' and (shape.kernel_depth(np.zeros(2)) > .02 * scale):
        xr = np.zeros(2)
        kw['xr'] = [0, 0] if rng.random() < .5 else xr.copy()
    elif mode == 'random':
        xr = reference(rng, shape)
        kw['xr'] = xr.copy()
    else:
        xr = None
    if kind == 'C' and rng.random() < .3:
        kw['is_convex'] = True
    o = ob.StarshapedPolygon(messy(rng, v), motion_model=m, id=id, name=name, **kw)
    b = Body(shape, ps, has, xr, kind)
    if xr is None:
        b.xr = np.array(o.xr(Frame.OBSTACLE), float)
    return o, b


def probe(rng, body, far=3.):
    """A global point chosen to be interesting for the body: near, on bounding lines, inside, far."""
    s = body.shape.size
    k = rng.integers(6)
    if k == 0:
        p = body.shape.interior_point(rng)
    elif k == 1:
        b = body.shape.boundary(60, rng.random())
        p = b[int(rng.integers(len(b)))] + rng.normal(0, .05 * s, 2)
    elif k == 2:
        p = body.shape.center + rng.uniform(-1, 1, 2) * s * far
    elif k == 3:    # aligned with an extreme coordinate
        b = body.shape.boundary(8)
        q = b[int(rng.integers(len(b)))]
        p = body.shape.center + rng.uniform(-1, 1, 2) * s * 1.5
        j = int(rng.integers(2))
        p[j] = q[j if rng.random() < .5 or np.any(body.shape.center) else 1 - j]
    elif k == 4:    # on a local axis
        c = body.shape.center if rng.random() < .5 else np.zeros(2)
        j = int(rng.integers(2))
        p = c + rng.uniform(-1, 1, 2) * s * 1.5
        p[j] = c[j]
    else:
        p = body.shape.center + rng.uniform(-1, 1, 2) * s * 50
    return body.glob(p)


def frame_pair(rng):
    f = [Frame.GLOBAL, Frame.OBSTACLE]
    return f[int(rng.integers(2))], f[int(rng.integers(2))]


def to_frame(body, p, frame):
    return body.loc(p) if frame == Frame.OBSTACLE else np.asarray(p, float)


def from_frame(body, p, frame):
    return body.glob(p) if frame == Frame.OBSTACLE else np.asarray(p, float)


def union_vertices(rng):
    """Outline of a union of convex and starshaped polygons seen from a common point (the origin): supporting lines of some edges are collinear."""
    c = np.zeros(2)
    for _ in range(200):
        parts = []
        skew = rng.uniform(0, 6) if rng.random() < .4 else None      # nearly parallel rectangles
        for _ in range(rng.integers(2, 6)):
            t = rng.uniform(0, 6)
            if skew is not None:
                v = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]]) * rng.uniform(.4, 1.4, 2)
                t = skew + rng.choice([0, np.pi / 2, 1e-2 * rng.normal(), t])
            elif rng.random() < .67:
                v = convex_vertices(rng, rng.uniform(.5, 1.2))
            else:
                v = star_vertices(rng, rng.uniform(.5, 1.))
            v = v @ np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]).T + rng.uniform(-.7, .7, 2)
            if oracle.PolygonShape(v).kernel_depth(c) > .05:
                parts.append(sg.Polygon(v))
        if len(parts) < 2:
            continue
        U = shapely.union_all(parts)
        if U.geom_type != 'Polygon' or len(U.interiors):
            continue
        S = oracle.PolygonShape(np.array(U.exterior.coords)[:-1])
        e = S.b - S.v
        L = np.linalg.norm(e, axis=1)
        if L.min() < 1e-2 or abs(oracle.cross(e, np.roll(e, -1, 0)) / (L * np.roll(L, -1))).min() < 1e-3 or S.kernel_depth(c) < .03:
            continue
        return S.v
    return star_vertices(rng)
