"""Boundary mapping, distance function and reference direction of starshaped obstacles."""
import numpy as np
import gen
from obstacles import Frame
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = {'boundary_point': 5000, 'distance_inside': 500, 'distance_outside': 500, 'direction': 3000, 'close_to_reference': 200}
RULE = ('Random starshaped obstacles (ellipses and polygons, reference point anywhere in the kernel, dilated or not) and points anywhere but the reference '
        'point. The mapped point must be the unique boundary crossing of the ray from the reference point, in every frame combination. '
        'Distinct: (class, frames, side, decade of distance from the reference point).')


def expected(b, q):
    d = (q - b.xr) / np.linalg.norm(q - b.xr)
    ex = b.shape.ray_exits(b.xr, d)
    if not ex:
        return None, None
    ts = np.array([(e - b.xr) @ d for e in ex])
    return b.xr + d * ts.max(), ts.max() - ts.min()


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng, rng.choice(list('ECS')))
    mon.describe(b.params())
    s = b.shape.size
    if b.kind != 'E' and b.shape.kernel_depth(b.xr) < 1e-3 * s:
        return
    for _ in range(12):
        p = gen.probe(rng, b)
        if rng.random() < .1:
            q = b.xr + rng.normal(size=2) * s * 10. ** rng.uniform(-5, -2)
            p = b.glob(q)
            mon.seen('close_to_reference')
        q = b.loc(p)
        r = np.linalg.norm(q - b.xr)
        if r < 1e-6 * s:
            continue
        e, spread = expected(b, q)
        if e is None or spread > 1e-6 * s:
            continue
        fi, fo = gen.frame_pair(rng)
        qi = gen.to_frame(b, p, fi)
        got = o.boundary_mapping(qi, input_frame=fi, output_frame=fo)
        tol = 1e-5 * s * max(1., 1e-4 * np.linalg.norm(b.pose.pos) / max(r, 1e-9))
        det = lambda: {'body': b.params(), 'point': qi, 'frames': [fi, fo], 'expected_local': e, 'got': got}
        if mon.ok('boundary_point', got is not None, det):
            mon.ok('boundary_point', np.linalg.norm(b.loc(gen.from_frame(b, got, fo)) - e) < tol, det)
        R = np.linalg.norm(e - b.xr)
        fi = Frame.GLOBAL if rng.random() < .5 else Frame.OBSTACLE
        qi = gen.to_frame(b, p, fi)
        df = o.distance_function(qi, input_frame=fi)
        ratio = r / R
        if abs(ratio - 1) > 1e-4:
            if ratio < 1:
                exp = ratio ** 2
                mon.ok('distance_inside', df < 1 and abs(df - exp) < 1e-3, lambda: {'body': b.params(), 'point': qi, 'frame': fi, 'expected': exp, 'got': df})
            else:
                exp = ratio ** 2 if b.kind == 'E' else (r - R + 1) ** 2
                mon.ok('distance_outside', df > 1 and abs(df - exp) < 1e-3 * exp, lambda: {'body': b.params(), 'point': qi, 'frame': fi, 'expected': exp, 'got': df})
        # points exactly on the boundary
        db = o.distance_function(b.glob(e))
        mon.ok('distance_boundary', abs(db - 1) < 1e-4, lambda: {'body': b.params(), 'point_local': e, 'got': db})
        # monotone along the ray
        t1, t2 = np.sort(rng.uniform(.05, 3, 2))
        if t2 - t1 > .01:
            d1, d2 = (o.distance_function(b.glob(b.xr + t * (e - b.xr))) for t in (t1, t2))
            mon.ok('distance_monotone', d1 < d2, lambda: {'body': b.params(), 'ray_to': e, 't': [t1, t2], 'got': [d1, d2]})
        # reference direction: unit vector from the reference point to x
        fi, fo = gen.frame_pair(rng)
        u = o.reference_direction(gen.to_frame(b, p, fi), input_frame=fi, output_frame=fo)
        v = (q - b.xr) / r
        if fo == Frame.GLOBAL:
            v = b.pose.rotf(v)
        mon.ok('direction', np.linalg.norm(u - v) < 1e-5 * max(1., 1e-4 * np.linalg.norm(b.pose.pos) / max(r, 1e-9)) and abs(np.linalg.norm(u) - 1) < 1e-9,
               lambda: {'body': b.params(), 'point': p, 'frame': fo, 'expected': v, 'got': u})
        mon.distinct(b.kind, fi.name, fo.name, ratio < 1, int(np.floor(np.log10(r / s))))
