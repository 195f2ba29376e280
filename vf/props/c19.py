"""Cones: membership, region and (same apex) intersections agree with the directions they span."""
import numpy as np
import shapely
import shapely.geometry as sg
from oracle import cross
from utils import Cone
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = {'member': 5000, 'not_member': 3000, 'region': 8000, 'intersection_same_apex': 5000, 'list_same_apex': 3000, 'list_general': 3000, 'wide': 800, 'two_parts': 100, 'empty': 100}
RULE = ('Random cones (apex up to 1e3 from the origin, directions of length 1e-2..1e2, opening angles 1e-3..2pi, convex and not, axis aligned, towards the corners of the bounding box), tested at points 1e-1..1e4 '
        'from the apex against angular intervals; pairs and lists of 2-6 cones with common apex (built from random intervals, nested, overlapping at both ends, disjoint) and with different '
        'apexes. Points closer than 1e-4 rad to a ray are skipped. Distinct: (sector of first ray, octant of opening, convex, operation).')


def ang(d):
    return np.arctan2(d[1], d[0])


class Ref:
    def __init__(self, apex, d1, d2):
        self.apex = apex
        self.a0, self.w = ang(d1), (ang(d2) - ang(d1)) % (2 * np.pi)

    def margin(self, p):
        """> 0 inside by that angle, < 0 outside."""
        a = (ang(np.asarray(p) - self.apex) - self.a0) % (2 * np.pi)
        if a < self.w:
            return min(a, self.w - a)
        return -min(a - self.w, 2 * np.pi - a)


def make(rng, apex, a0=None, w=None):
    if a0 is None:
        a0 = rng.choice([rng.uniform(-np.pi, np.pi), rng.integers(-4, 4) * np.pi / 4, rng.integers(-4, 4) * np.pi / 4 + rng.normal() * 1e-5], p=[.6, .2, .2])
    if w is None:
        w = rng.choice([rng.uniform(.05, 2 * np.pi - .05), 10. ** rng.uniform(-3, -1), np.pi / 2, np.pi * 1.5, 2 * np.pi - 10. ** rng.uniform(-3, -1), rng.uniform(3, 3.3)])
    d1 = 10. ** rng.uniform(-2, 2) * np.array([np.cos(a0), np.sin(a0)])
    d2 = 10. ** rng.uniform(-2, 2) * np.array([np.cos(a0 + w), np.sin(a0 + w)])
    if rng.random() < .2:
        d1 = np.round(d1, 3) if np.abs(d1).max() > .1 else d1
        d2 = np.round(d2, 3) if np.abs(d2).max() > .1 else d2
    if np.linalg.norm(d1) < 1e-3 or np.linalg.norm(d2) < 1e-3:
        return make(rng, apex)
    r = Ref(apex, d1, d2)
    if min(r.w, 2 * np.pi - r.w) < 5e-4 or abs(r.w - np.pi) < 1e-4:
        return make(rng, apex)
    return Cone(apex.copy() if rng.random() < .7 else apex.tolist(), d1, d2) if rng.random() < .7 else Cone(apex, d1.tolist(), d2.tolist()), r


def desc(r):
    return {'apex': r.apex, 'from': r.a0, 'width': r.w}


def pts(rng, refs, n):
    out = []
    for _ in range(n):
        r = refs[int(rng.integers(len(refs)))]
        t = rng.uniform(0, 2 * np.pi)
        if rng.random() < .5:
            t = r.a0 + rng.choice([0, r.w]) + rng.choice([-1, 1]) * 10. ** rng.uniform(-3.5, -.5)
        elif rng.random() < .3:
            t = r.a0 + r.w * rng.uniform(0, 1)
        out.append(r.apex + 10. ** rng.uniform(-1, 4) * np.array([np.cos(t), np.sin(t)]))
    return out


def case(mon, rng, i, tier):
    apex = rng.choice([0., 1., 10., 1000.]) * rng.normal(0, 1, 2)
    c, r = make(rng, apex)
    mon.describe(desc(r))
    mon.ok('convexity', bool(c.is_convex) == (r.w < np.pi), lambda: desc(r))
    P = c.polygon()
    if r.w > np.pi:
        mon.seen('wide')
    for p in pts(rng, [r], 8):
        m = r.margin(p)
        if abs(m) < 1e-4:
            continue
        det = lambda: {**desc(r), 'point': p, 'margin': m, 'in_cone': c.point_in_cone(p), 'valid': P.is_valid, 'region': P.wkt}
        if abs(m) * np.linalg.norm(p - apex) * min(np.linalg.norm(c.dir1), np.linalg.norm(c.dir2)) > 1e-6:
            mon.ok('member' if m > 0 else 'not_member', bool(c.point_in_cone(p)) == (m > 0), det)
        if abs(m) > 1e-3 or np.linalg.norm(p - apex) * abs(m) > 1e-3:
            mon.ok('region', P.is_valid and P.contains(sg.Point(p)) == (m > 0), det)
    mon.distinct(int(r.a0 * 4 / np.pi), int(r.w * 4 / np.pi), 'one')
    # same apex
    n = int(rng.integers(2, 7))
    base = rng.uniform(-np.pi, np.pi)
    cs = []
    style = rng.choice(['any', 'wide', 'near'])
    for _ in range(n):
        if style == 'any':
            cs.append(make(rng, apex, rng.uniform(-np.pi, np.pi)))
        elif style == 'wide':
            cs.append(make(rng, apex, rng.uniform(-np.pi, np.pi), rng.uniform(3.3, 6.)))
        else:
            cs.append(make(rng, apex, base + rng.uniform(-1, 1), rng.uniform(1, 3)))
    # rays of different cones that almost coincide are left out
    rays = np.array([a for _, q in cs for a in (q.a0, q.a0 + q.w)])
    dd = np.abs((rays[:, None] - rays[None] + np.pi) % (2 * np.pi) - np.pi) + 9 * np.eye(len(rays))
    if dd.min() > 2e-3:
        (a, ra), (b, rb) = cs[0], cs[1]
        I = a.intersection(b, same_apex=True)
        parts = a.intersection_same_apex(b)
        L = Cone.list_intersection([q for q, _ in cs], same_apex=True)
        mon.seen('two_parts', len(parts) == 2)
        if not parts:
            mon.seen('empty')
        for p in pts(rng, [q for _, q in cs], 10):
            if np.linalg.norm(p - apex) < .5:
                continue
            ms = [q.margin(p) for _, q in cs]
            if min(abs(m) for m in ms) < 1e-3:
                continue
            two = min(ms[:2]) > 0
            det = lambda: {'cones': [desc(q) for _, q in cs], 'point': p, 'margins': ms}
            mon.ok('intersection_same_apex', I.contains(sg.Point(p)) == two and any(q.point_in_cone(p) for q in parts) == two, det)
            mon.ok('list_same_apex', L.contains(sg.Point(p)) == (min(ms) > 0), det)
        mon.distinct(style, n, len(parts), L.geom_type)
    # different apexes
    cs = [make(rng, apex + rng.normal(0, 3, 2)) for _ in range(int(rng.integers(2, 5)))]
    L = Cone.list_intersection([q for q, _ in cs])
    I = cs[0][0].intersection(cs[1][0])
    for p in pts(rng, [q for _, q in cs], 6):
        ms = [q.margin(p) for _, q in cs]
        if min(abs(m) for m in ms) < 1e-3 or min(np.linalg.norm(p - q.apex) for _, q in cs) < .5:
            continue
        det = lambda: {'cones': [desc(q) for _, q in cs], 'point': p, 'margins': ms}
        mon.ok('list_general', L.contains(sg.Point(p)) == (min(ms) > 0), det)
        mon.ok('intersection_general', I.contains(sg.Point(p)) == (min(ms[:2]) > 0), det)
