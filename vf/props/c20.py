"""Point location of every obstacle class agrees with the region the obstacle occupies."""
import numpy as np
import gen
from obstacles import Frame
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 60000}
REQUIRED = {'interior': 500, 'exterior': 500, 'boundary': 300, 'frame': 300}
RULE = ('Random obstacles of all classes (ellipses; convex, starshaped, general polygons; vertex lists in any order or container) in random poses; '
        'probe points inside, outside, close to, on the boundary and aligned with extreme coordinates, given in global or obstacle frame. '
        'Distinct: (class, frame, expected side, decade of the distance to the boundary, number of vertices).')
ASSUMPTIONS = ['points closer than 1e-9 to the boundary (relative to the obstacle size) are only required to be classified on exact boundary inputs']


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng)
    mon.describe(b.params())
    for _ in range(14):
        p = gen.probe(rng, b)
        s, m = b.signed(p)
        frame = Frame.GLOBAL if rng.random() < .6 else Frame.OBSTACLE
        q = gen.to_frame(b, p, frame)
        if m < 1e-6 * b.shape.size:
            continue
        loc = o.point_location(q, frame)
        det = lambda: {'body': b.params(), 'point': q, 'frame': frame, 'expected_sign': s, 'margin': m, 'got': loc}
        mon.ok('exterior' if s > 0 else 'interior', np.sign(loc) == s, det)
        mon.ok('predicates', bool(o.interior_point(q, frame)) == (s < 0) and bool(o.exterior_point(q, frame)) == (s > 0)
               and not bool(o.boundary_point(q, frame)) if m > 1e-2 * b.shape.size else True, det)
        if frame == Frame.OBSTACLE:
            mon.seen('frame')
        mon.distinct(b.kind, frame.name, s, int(np.floor(np.log10(m + 1e-12))), getattr(b.shape, 'v', np.zeros((0, 2))).shape[0])
    # exact boundary points, in the obstacle frame where they are exactly representable
    if b.kind == 'E':
        a = b.shape.a
        for q in ([a[0], 0.], [-a[0], 0.], [0., a[1]], [0., -a[1]]):
            q = np.array(q)
            mon.ok('boundary', bool(o.boundary_point(q, Frame.OBSTACLE)), lambda: {'body': b.params(), 'point': q})
        t = rng.uniform(0, 2 * np.pi)
        q = a * np.array([np.cos(t), np.sin(t)])
        mon.ok('boundary', abs(o.point_location(q, Frame.OBSTACLE)) < 1e-6, lambda: {'body': b.params(), 'point': q})
        # both sides of the boundary at a small offset
    else:
        v = b.shape.v
        k = int(rng.integers(len(v)))
        mon.ok('boundary', np.isclose(o.point_location(v[k].copy(), Frame.OBSTACLE), 0.) and bool(o.boundary_point(v[k].copy(), Frame.OBSTACLE)),
               lambda: {'body': b.params(), 'vertex': v[k], 'got': o.point_location(v[k].copy(), Frame.OBSTACLE)})
    bd = b.shape.boundary(40, rng.random())
    for _ in range(4):
        q = bd[int(rng.integers(len(bd)))]
        d = rng.normal(size=2)
        d *= b.shape.size * 10. ** rng.uniform(-5, -2) / np.linalg.norm(d)
        s, m = b.shape.signed(q + d)
        if m < 1e-6 * b.shape.size:
            continue
        p = b.glob(q + d)
        loc = o.point_location(p)
        mon.ok('near_boundary', np.sign(loc) == s, lambda: {'body': b.params(), 'point': p, 'expected_sign': s, 'margin': m, 'got': loc})
        mon.distinct(b.kind, 'near', s, int(np.floor(np.log10(m + 1e-12))))
