"""Random generators: generated shapes have the promised properties for every parameter and random state."""
import numpy as np
import shapely.geometry as sg
import oracle
import utils
from oracle import cross
from utils import cg
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 100000}
REQUIRED = {'convex_count': 500, 'convex_turns': 500, 'convex_box': 500, 'convex_centre': 500, 'star_count': 400, 'star_order': 400, 'star_radius': 500, 'star_visible': 300, 'regular': 25,
            'equal_radius': 60, 'equal_steps': 60, 'refused': 30, 'steps': 400, 'in_triangle': 400, 'spread': 200, 'usable': 100}
RULE = ('Convex polygons with 3-40 vertices in boxes of different aspect, star polygons for all centres, radii, irregularities and spikiness in [0, 1] (also the limits) and outside, angle steps, and points in triangles of '
        'either orientation, for many random states. Distinct: (generator, number of vertices, coarse parameters).')


def case(mon, rng, i, tier):
    k = i % 4
    if k == 0:
        n = int(rng.integers(3, 41)) if rng.random() < .6 else int(rng.integers(3, 7))
        box = None if rng.random() < .2 else (10. ** rng.uniform(-1, 1, 2)).tolist()
        np.random.seed(int(rng.integers(2 ** 31)))
        v = np.array(utils.generate_convex_polygon(n, box) if rng.random() < .7 or box else utils.generate_convex_polygon(n), float)
        B = np.array(box or [1, 1])
        det = lambda **d: {'n': n, 'box': box, 'vertices': v, **d}
        mon.describe({'n': n, 'box': box})
        if not mon.ok('convex_count', v.shape == (n, 2), det):
            return
        e = np.roll(v, -1, 0) - v
        t = cross(e, np.roll(e, -1, 0))
        mon.ok('convex_turns', t.min() > -1e-9 * B.prod() and abs(np.arctan2(t, (e * np.roll(e, -1, 0)).sum(1)).sum() - 2 * np.pi) < 1e-3, lambda: det(turns=t))
        w = np.ptp(v, axis=0)
        mon.ok('convex_box', (w <= B * (1 + 1e-9)).all() and (w > B * 1e-3).all(), lambda: det(extent=w))
        mon.ok('convex_centre', np.abs(v.mean(0)).max() < 1e-9 * B.max(), lambda: det(mean=v.mean(0)))
        if rng.random() < .3 and np.linalg.norm(e, axis=1).min() > 1e-3 * B.max():
            from obstacles import StarshapedPolygon
            o = StarshapedPolygon(v, id='temp')
            if abs(t).min() > 1e-6:
                mon.ok('usable', bool(o.is_convex()) and o.polygon().is_valid and o.point_location(v.mean(0)) < 0, det)
        mon.distinct('convex', n, int(np.log2(B[0] / B[1])))
    elif k == 1:
        n = int(rng.integers(3, 41)) if rng.random() < .6 else int(rng.integers(3, 7))
        c = rng.normal(size=2) * rng.choice([0, 1, 20])
        r = float(10. ** rng.uniform(-1, 1))
        irr = float(rng.choice([0, 1, rng.random()]))
        spk = float(rng.choice([0, 1, rng.random(), .1]))
        given = tuple(c) if rng.random() < .7 else c
        np.random.seed(int(rng.integers(2 ** 31)))
        if rng.random() < .1:
            bad = float(rng.choice([-.01, 1.01, -3, 5]))
            a = (bad, spk) if rng.random() < .5 else (irr, bad)
            try:
                got = utils.generate_star_polygon(given, r, *a, n)
            except ValueError:
                got = None
            mon.ok('refused', got is None, lambda: {'irregularity': a[0], 'spikiness': a[1], 'got': got})
            return
        v = np.array(utils.generate_star_polygon(given, r, irr, spk, n), float)
        det = lambda **d: {'n': n, 'centre': c, 'radius': r, 'irregularity': irr, 'spikiness': spk, 'vertices': v, **d}
        mon.describe({'n': n, 'centre': c, 'radius': r, 'irregularity': irr, 'spikiness': spk})
        if not mon.ok('star_count', v.shape == (n, 2), det):
            return
        d = np.linalg.norm(v - c, axis=1)
        tol = 1e-9 * (r + np.abs(c).max())
        mon.ok('star_radius', d.max() <= 2 * r + tol, lambda: det(distances=d))
        if spk == 0:
            mon.ok('equal_radius', np.abs(d - r).max() < tol, lambda: det(distances=d))
        elif n > 8 and spk > .05:
            mon.ok('star_radius', np.ptp(d) > 1e-3 * r * spk, lambda: det(distances=d))
        if d.min() > 1e-3 * r:
            a = np.arctan2(v[:, 1] - c[1], v[:, 0] - c[0])
            st = np.diff(np.r_[a, a[0]]) % (2 * np.pi)
            mon.ok('star_order', st.min() > -1e-9 and abs(st.sum() - 2 * np.pi) < 1e-6, lambda: det(steps=st))
            lo, hi = 2 * np.pi / n * (1 - irr), 2 * np.pi / n * (1 + irr)
            if irr == 0:
                mon.ok('equal_steps', np.abs(st - 2 * np.pi / n).max() < 1e-6, lambda: det(steps=st))
                if spk == 0:
                    mon.seen('regular')
            elif irr > .05 and n > 4:
                mon.ok('irregular', np.ptp(st) > 1e-3 * irr * 2 * np.pi / n, lambda: det(steps=st))
            if 0 < irr < 1:
                mon.ok('star_order', (st.max() + 1e-9) / (st.min() + 1e-12) < (hi / lo) * (1 + 1e-6) + 1e-6 or st.min() < 1e-6, lambda: det(steps=st))
            if st.max() < np.pi - 1e-3 and st.min() > 1e-3:
                P = sg.Polygon(v)
                mon.ok('star_visible', P.is_valid and oracle.PolygonShape(v).kernel_depth(c) > -1e-9, det)
        mon.distinct('star', n, int(irr * 4), int(spk * 4))
    elif k == 2:
        n = int(rng.integers(1, 41))
        irr = float(rng.choice([0, 2 * np.pi / n, rng.random() * 2 * np.pi / n]))
        np.random.seed(int(rng.integers(2 ** 31)))
        a = np.array(cg.random_angle_steps(n, irr), float)
        det = lambda: {'steps': n, 'irregularity': irr, 'got': a}
        mon.describe({'steps': n, 'irregularity': irr})
        lo, hi = 2 * np.pi / n - irr, 2 * np.pi / n + irr
        mon.ok('steps', a.shape == (n,) and abs(a.sum() - 2 * np.pi) < 1e-9 and a.min() >= -1e-9 and (lo < 1e-6 or a.max() / a.min() <= hi / lo * (1 + 1e-9)), det)
        if irr > .05 * 2 * np.pi / n and n > 4:
            mon.ok('irregular', np.ptp(a) > 1e-3 * irr, det)
        mon.distinct('steps', n, irr == 0)
    else:
        v = rng.normal(size=(3, 2)) * 10. ** rng.integers(-1, 2) + rng.normal(size=2) * rng.choice([0, 10])
        area = cross(v[1] - v[0], v[2] - v[0])
        s = np.ptp(v, axis=0).max()
        if abs(area) < 1e-2 * s ** 2:
            return
        np.random.seed(int(rng.integers(2 ** 31)))
        N = 240
        p = np.array([cg.point_in_triangle(*v) for _ in range(N)])
        M = np.linalg.inv(np.c_[v[1] - v[0], v[2] - v[0]])
        w = (p - v[0]) @ M.T
        w = np.c_[1 - w.sum(1), w]
        det = lambda **d: {'triangle': v, **d}
        mon.describe({'triangle': v})
        mon.ok('in_triangle', w.min() > -1e-9, lambda: det(worst=w.min()))
        # all four congruent parts are reached about equally often (expected 60 each, 6 sigma)
        part = np.where((w > .5).any(1), w.argmax(1), 3)
        c = np.bincount(part, minlength=4)
        mon.ok('spread', np.abs(c - N / 4).max() < 6 * np.sqrt(N * .25 * .75), lambda: det(counts=c))
        mon.distinct('triangle', area > 0, int(np.log10(s)))
