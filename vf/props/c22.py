"""Tangent points: supporting lines, existence, order, frames."""
import numpy as np
import gen
from oracle import cross
from obstacles import Frame
LEVEL = 'exploration'
CASES = {'quick': 3500, 'thorough': 60000}
REQUIRED = {'tangent_points': 4000, 'no_tangent_interior': 500, 'no_tangent_blocked': 20, 'vertical_tangent': 100}
RULE = ('Random obstacles of all classes and points (interior, near, far, aligned with the extreme coordinates, inside pockets of non-convex polygons); '
        'tangent points are compared with the closed form (ellipse) or with the unwrapped viewing angles of all vertices (polygons). '
        'Distinct: (class, frames, situation, view width octant).')


def pocket_point(rng, b):
    """A point outside the polygon but inside its convex hull."""
    v = b.shape.v
    for _ in range(30):
        w = rng.dirichlet(np.ones(len(v)) * .3)
        p = w @ v
        s, m = b.shape.signed(p)
        if s > 0:
            return b.glob(p)
    return None


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng)
    mon.describe(b.params())
    s = b.shape.size
    for _ in range(10):
        p = gen.probe(rng, b)
        vertical = False
        if b.kind == 'P' and rng.random() < .4:
            p = pocket_point(rng, b)
            if p is None:
                continue
        elif b.kind == 'E' and rng.random() < .2:
            a = b.shape.a
            p = b.glob(np.array([rng.choice([-1, 1]) * a[0], rng.uniform(.05, 3) * rng.choice([-1, 1]) * a[1]]))
            vertical = True
        sd, m = b.signed(p)
        if m < 1e-3 * s:
            continue
        fi, fo = gen.frame_pair(rng)
        q = gen.to_frame(b, p, fi)
        got = o.tangent_points(q, input_frame=fi, output_frame=fo)
        det = lambda: {'body': b.params(), 'point': q, 'frames': [fi, fo], 'got': got, 'expected': exp, 'inside': sd < 0}
        if sd < 0:
            exp = []
            mon.ok('no_tangent_interior', len(got) == 0, det)
            mon.distinct(b.kind, fi.name, fo.name, 'interior')
            continue
        if b.kind != 'E':
            w = b.shape.view_range(b.loc(p))
            if abs(w - 2 * np.pi) < 1e-6:
                continue
        exp = b.tangents(p)
        if exp is None:
            mon.ok('no_tangent_blocked', len(got) == 0, det)
            mon.distinct(b.kind, fi.name, fo.name, 'blocked')
            continue
        if not mon.ok('tangent_points', len(got) == 2, det):
            continue
        g = [gen.from_frame(b, t, fo) for t in got]
        # same supporting directions (ties between vertices on one line are equivalent), and the points are on the obstacle
        d = np.linalg.norm(p - b.pose.pos) + s
        tol = 1e-6 * (1 + d) + (2e-3 * s if vertical or near_vertical(b, p) else 0)
        for name, gp, ep in (('ccw_most', g[0], exp[0]), ('cw_most', g[1], exp[1])):
            u, w_ = (gp - p), (ep - p)
            ang = abs(np.arctan2(cross(u, w_), u @ w_))
            on = b.shape.bdist(b.loc(gp)) if b.kind != 'E' else abs(b.shape.level(b.loc(gp)))
            pos_ok = np.linalg.norm(gp - ep) < tol if b.kind == 'E' else True
            mon.ok(name, ang < 1e-6 + (2e-3 if vertical or near_vertical(b, p) else 0) and on < 1e-5 + (1e-2 if vertical or near_vertical(b, p) else 0) and pos_ok, det)
        if vertical:
            mon.seen('vertical_tangent')
        mon.distinct(b.kind, fi.name, fo.name, vertical, int(4 * abs(cross(exp[0] - p, exp[1] - p)) / (np.linalg.norm(exp[0] - p) * np.linalg.norm(exp[1] - p))))


def near_vertical(b, p):
    return b.kind == 'E' and abs(b.shape.a[0] ** 2 - b.loc(p)[0] ** 2) < 1e-4
