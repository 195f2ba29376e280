"""Line segment / obstacle boundary intersections: sound and complete."""
import numpy as np
import gen
from obstacles import Frame
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 60000}
REQUIRED = {'crossing_set': 3000, 'none': 500, 'one': 500, 'two_or_more': 500, 'vertical': 500, 'collinear_edge': 50, 'collinear_edge_axis': 50, 'tangent_line': 200, 'vertex_sound': 500, 'vertex_hit': 400, 'no_length': 1000}
RULE = ('Random obstacles and segments (generic, exactly vertical/horizontal, steep, through the centre, far away, in any input/output frame); '
        'the returned points are compared as a set with the closed form crossings. Segments through vertices must return the vertex when they enter or leave there, lines exactly tangent to an ellipse nothing but the touching point. Otherwise segments closer than 1e-6 to tangency, a vertex or an end point on '
        'the boundary are skipped. Distinct: (class, number of crossings, orientation class, frames).')


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng)
    mon.describe(b.params())
    s = b.shape.size
    for _ in range(12):
        mode = rng.choice(['any', 'vertical', 'horizontal', 'steep', 'centre', 'far', 'short'])
        l0, l1 = b.loc(gen.probe(rng, b)), b.loc(gen.probe(rng, b))
        if mode == 'vertical':
            l1 = np.array([l0[0], l1[1]])
        elif mode == 'horizontal':
            l1 = np.array([l1[0], l0[1]])
        elif mode == 'steep':
            l1 = np.array([l0[0] + rng.normal() * .02 * abs(l1[1] - l0[1]), l1[1]])
        elif mode == 'centre':
            l1 = -l0 * rng.uniform(.2, 2)
        elif mode == 'short':
            l1 = l0 + rng.normal(0, .1, 2) * s
        if rng.random() < .5:
            l0, l1 = l1, l0
        L = np.linalg.norm(l1 - l0)
        if L < 1e-3 * s:
            continue
        exp, m = b.shape.crossings(l0, l1)
        if m < 1e-5 * max(1, s, L / 10):
            continue
        fi, fo = gen.frame_pair(rng)
        line = [b.glob(l0), b.glob(l1)] if fi == Frame.GLOBAL else [l0.copy(), l1.copy()]
        got = o.line_intersection(line, input_frame=fi, output_frame=fo)
        pts = [gen.to_frame(b, gen.from_frame(b, p, fo), Frame.OBSTACLE) for p in got]
        tol = 1e-6 * (1 + L)
        if b.kind == 'E':   # nearly tangent lines amplify rounding
            tol = 1e-5 * (1 + L) * max(1, 1e-4 / m)
        ok = len(pts) == len(exp) and all(min(np.linalg.norm(p - q) for q in exp) < tol for p in pts) \
            and all(min(np.linalg.norm(p - q) for p in pts) < tol for q in exp)
        mon.ok('crossing_set', ok, lambda: {'body': b.params(), 'line_local': [l0, l1], 'frames': [fi, fo], 'expected_local': exp, 'got_local': pts, 'margin': m})
        mon.seen({0: 'none', 1: 'one'}.get(len(exp), 'two_or_more'))
        mon.seen(mode)
        mon.distinct(b.kind, len(exp), mode, fi.name, fo.name)
    special(mon, rng, o, b)
    # segments without length do not cross anything
    p = gen.probe(rng, b)
    if b.signed(p)[1] > 1e-3 * s:
        fi, fo = gen.frame_pair(rng)
        q = gen.to_frame(b, p, fi)
        got = o.line_intersection([q, q.copy()], fi, fo)
        mon.ok('no_length', len(got) == 0, lambda: {'body': b.params(), 'point': p, 'frames': [fi, fo], 'got': got})
    if b.kind != 'E':
        # a segment running along one edge: every returned point lies on the boundary and on the segment,
        # and the transversal crossings are all returned
        v = b.shape.v
        k = int(rng.integers(len(v)))
        a, c = v[k], v[(k + 1) % len(v)]
        ext = rng.choice([0., .5, 3.])
        l0, l1 = a - ext * (c - a), c + ext * (c - a)
        got = o.line_intersection([l0, l1], Frame.OBSTACLE, Frame.OBSTACLE)
        L = np.linalg.norm(l1 - l0)
        on = all(b.shape.bdist(np.asarray(p)) < 1e-6 * (1 + L) and seg_d(p, l0, l1) < 1e-6 * (1 + L) for p in got)
        det = lambda: {'body': b.params(), 'line_local': [l0, l1], 'edge': [a, c], 'got': got}
        axis = a[0] == c[0] == l0[0] == l1[0] or a[1] == c[1] == l0[1] == l1[1]
        if not axis:    # lines parallel up to rounding: the overlay may answer with an end point of the segment
            on = all(b.shape.bdist(np.asarray(p)) < 1e-6 * (1 + L) and seg_d(p, l0, l1) < 1e-6 * (1 + L) or np.array_equal(p, l0) or np.array_equal(p, l1) for p in got)
        mon.ok('collinear_edge', on, det)
        # along an axis the overlap is exact, elsewhere rounding decides whether the lines are collinear
        if axis:
            mon.ok('collinear_edge_axis', all(min([np.linalg.norm(np.asarray(p) - q) for p in got] + [9.]) < 1e-6 for q in (a, c)), det)


def special(mon, rng, o, b):
    """Lines through a vertex, and lines exactly tangent to an ellipse."""
    s = b.shape.size
    if b.kind == 'E':
        k = 2. ** rng.integers(-3, 3)
        p, q, m, c = [(4, 3, 1, 5), (5, 5, .75, 6.25), (12, 5, 1, 13), (5, 5, 0, 5), (8, 6, 1, 10), (6, 8, -1, -10), (4, 3, -1, 5), (12, 5, 1, -13), (3, 4, 0, -4)][int(rng.integers(9))]
        from obstacles import Ellipse
        e = Ellipse([p * k, q * k], id='temp')
        x0, x1 = (-20 * k, 20 * k) if rng.random() < .6 else (-20 * k, rng.uniform(-2, 2) * k)
        l0, l1 = np.array([x0, m * x0 + c * k]), np.array([x1, m * x1 + c * k])
        got = e.line_intersection([l0, l1] if rng.random() < .5 else [l1, l0])
        t = np.array([-m * p * p * k / c, q * q * k / c])
        mon.ok('tangent_line', all(np.linalg.norm(np.asarray(g) - t) < 1e-5 * k * p for g in got) and len(got) < 3, lambda: {'axes': [p * k, q * k], 'line': [l0, l1], 'got': got, 'touch': t})
        return
    v = b.shape.v[int(rng.integers(len(b.shape.v)))]
    a = rng.uniform(0, 2 * np.pi) if rng.random() < .6 else rng.choice([0, np.pi / 2, np.pi])
    u = np.array([np.cos(a), np.sin(a)])
    if rng.random() < .3:
        u = b.shape.interior_point(rng) - v
        if np.linalg.norm(u) < 1e-3 * s:
            return
        u = u / np.linalg.norm(u)
    l0, l1 = v - rng.uniform(.1, 2) * s * u, v + rng.uniform(.1, 2) * s * u
    fi, fo = gen.frame_pair(rng)
    line = [b.glob(l0), b.glob(l1)] if fi == Frame.GLOBAL else [l0.copy(), l1.copy()]
    got = o.line_intersection(line, input_frame=fi, output_frame=fo)
    pts = [gen.to_frame(b, gen.from_frame(b, p, fo), Frame.OBSTACLE) for p in got]
    det = lambda: {'body': b.params(), 'line_local': [l0, l1], 'vertex': v, 'got_local': pts}
    tol = 1e-6 * (s + np.abs(b.pose.pos).max())
    if min(abs(np.array(n) @ u) for n in b.shape.edge_normals()) > 1e-2:
        mon.ok('vertex_sound', all(b.shape.bdist(p) < tol and seg_d(p, l0, l1) < tol for p in pts), det)
    w, z = v - 1e-3 * s * u, v + 1e-3 * s * u
    if min(b.shape.bdist(w), b.shape.bdist(z)) > 1e-5 * s:
        iw, iz = b.signed(b.glob(w))[0], b.signed(b.glob(z))[0]
        if iw * iz < 0:
            mon.ok('vertex_hit', min([np.linalg.norm(p - v) for p in pts] + [9e9]) < tol * 1e3, det)


def seg_d(p, a, b):
    d = b - a
    t = np.clip((np.asarray(p) - a) @ d / (d @ d), 0, 1)
    return np.linalg.norm(a + t * d - p)
