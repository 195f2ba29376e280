"""Convexity, starshapedness, area and the polygon representation are those of the region."""
import numpy as np
import shapely.geometry as sg
import gen, oracle
from obstacles import Frame, Ellipse, Polygon, StarshapedPolygon
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 80000}
REQUIRED = {'convex_yes': 1500, 'convex_no': 1500, 'nearly_convex': 200, 'collinear': 500, 'repeated': 300, 'starshaped_class': 800, 'starshaped_plain': 800, 'area': 1500,
            'ccw': 1500, 'vertices': 1500, 'ellipse_inscribed': 500, 'ellipse_corners': 500, 'intersects': 500, 'first_corner': 100}
RULE = ('Polygons of all families and ellipses; vertices given in either orientation, from any start, with closing vertex, collinear and repeated vertices (also at the start), dents as shallow as 1e-3 '
        'of the size, as lists, tuples, arrays and shapely polygons, plain and starshaped class, sizes 0.3 to 3. Distinct: (class, number of vertices, convex, orientation of input, collinear, repeated, container).')


def case(mon, rng, i, tier):
    if rng.random() < .2:
        o, b = gen.obstacle(rng, 'E')
        mon.describe(b.params())
        a = b.shape.a
        det = lambda **q: {'body': b.params(), **q}
        mon.ok('convex_yes', bool(o.is_convex()), det)
        mon.ok('starshaped_class', bool(o.is_starshaped()), det)
        P = o.polygon(Frame.OBSTACLE)
        v = np.array(P.exterior.coords)[:-1]
        r = np.linalg.norm(v / (a + 1e-3), axis=1)
        t = np.unwrap(np.arctan2(v[:, 1] / (a[1] + 1e-3), v[:, 0] / (a[0] + 1e-3)))
        mon.ok('ellipse_inscribed', np.abs(r - 1).max() < 1e-9 and P.is_valid, lambda: det(vertices=v))
        mon.ok('ellipse_corners', len(v) == b.n_pol and np.allclose(np.abs(np.diff(t)), 2 * np.pi / b.n_pol, atol=1e-6), lambda: det(vertices=v))
        mon.distinct('E', b.n_pol)
        return
    kind = rng.choice(list('CQSP'))
    v = gen.convex_vertices(rng) if kind in 'CQ' else gen.star_vertices(rng) if kind == 'S' else gen.nonstar_vertices(rng)
    scale = rng.choice([1., rng.uniform(.3, 3)])
    v = v * scale
    base = oracle.PolygonShape(v)
    v = base.v
    near = None
    if kind in 'CQ' and rng.random() < .3:
        # a dent or a bump in the middle of a long edge
        j = int(np.linalg.norm(base.b - base.v, axis=1).argmax())
        h = 10. ** rng.uniform(-3, -1.5) * scale * rng.choice([-1, 1])
        n = base.edge_normals()[j]
        v = np.insert(v, j + 1, (base.v[j] + base.b[j]) / 2 + h * n, axis=0)
        near = h
        base = oracle.PolygonShape(v)
    coll = rep = False
    w = v
    if rng.random() < .35:      # collinear vertices: on the lattice of binary fractions of an edge
        w, coll = [], True
        for a, c in zip(v, np.roll(v, -1, 0)):
            w.append(a)
            if rng.random() < .4:
                w.append((a + c) / 2)
        w = np.array(w)
    if rng.random() < .2:
        w, rep = np.repeat(w, 1 + (rng.random(len(w)) < .3), axis=0), True
    start = int(rng.integers(len(w)))
    w = np.roll(w, -start, axis=0)
    flip = rng.random() < .5
    if flip:
        w = w[::-1]
    if rng.random() < .2:
        w = np.vstack([w, w[:1]])
    cont = int(rng.integers(4))
    arg = [w.copy(), w.tolist(), [tuple(p) for p in w.tolist()], sg.Polygon(w)][cont]
    star = kind in 'CS'
    has, ps = gen.pose(rng)
    mon.describe({'vertices': w, 'class': kind})
    if star:
        K = base.kernel()
        if len(K) < 3 or base.kernel_depth(K.mean(0)) < 1e-3 * scale:
            return
        o = StarshapedPolygon(arg, xr=K.mean(0), motion_model=gen.make_mm(rng, ps) if has else None, id='temp')
    else:
        o = Polygon(arg, motion_model=gen.make_mm(rng, ps) if has else None, id='temp')
    det = lambda **q: {'vertices': w, 'class': kind, **q}
    if coll:
        mon.seen('collinear')
        if abs(oracle.cross(w[0] - w[-1], w[1] - w[0])) < 1e-12:
            mon.seen('first_corner')
    if rep:
        mon.seen('repeated')
    first = rng.random() < .5
    if first:
        o.polygon()
    q = base.min_turn
    if abs(q) > 5e-4 or (q >= -1e-9 and near is None):
        cvx = q > -1e-9
        got = o.is_convex()
        mon.ok('convex_yes' if cvx else 'convex_no', bool(got) == cvx and bool(o.is_convex()) == cvx, lambda: det(expected=cvx, got=got, sine_of_flattest_turn=q))
        if near is not None:
            mon.seen('nearly_convex')
        if not star:
            mon.ok('starshaped_plain', bool(o.is_starshaped()) == cvx, lambda: det(expected=cvx, got=o.is_starshaped()))
    if star:
        mon.ok('starshaped_class', bool(o.is_starshaped()), det)
    if not star or rng.random() < .5:
        mon.ok('area', abs(o.area() - base.area()) < 1e-9 * base.area() + 1e-12, lambda: det(expected=base.area(), got=o.area()))
    for f in (Frame.OBSTACLE, Frame.GLOBAL):
        c = np.array(o.polygon(f).exterior.coords)[:-1]
        mon.ok('ccw', oracle.cross(c, np.roll(c, -1, 0)).sum() > 0, lambda: det(frame=f, got=c))
        exp = ps.fwd(v) if f == Frame.GLOBAL and has else v
        tol = 1e-9 * (1 + np.abs(ps.pos).max() + scale)
        mon.ok('vertices', all(np.linalg.norm(c - x, axis=1).min() < tol for x in exp) and o.polygon(f).equals(o.polygon(f)) and abs(o.polygon(f).area - base.area()) < 1e-8 * (1 + base.area()), lambda: det(frame=f, got=c))
    # pairs
    o2, b2 = gen.obstacle(rng, at=(ps.pos if has else np.zeros(2)) + rng.uniform(-2.5, 2.5, 2) * scale)
    P, Q = sg.Polygon(ps.fwd(v) if has else v), b2.inner()
    d, r = P.distance(Q), P.intersection(Q).area
    gap = b2.rep_gap()
    got = bool(o.intersects(o2)), bool(o2.intersects(o))
    if d > gap + 1e-3:
        mon.ok('intersects', got == (False, False), lambda: det(other=b2.params(), pose=[ps.pos, ps.rot], got=got))
    elif r > 4 * gap * (base.size + b2.shape.size) + 1e-6:
        mon.ok('intersects', got == (True, True), lambda: det(other=b2.params(), pose=[ps.pos, ps.rot], got=got))
    mon.distinct(kind, len(v), base.convex, flip, coll, rep, cont)
