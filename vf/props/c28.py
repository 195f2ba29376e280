"""Dilated obstacles: tight padding, same pose, original untouched, queries agree with the dilated region."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, agree, oracle
from oracle import Body, EllipseShape, PolygonShape
from obstacles import Frame, Polygon
LEVEL = 'exploration'
CASES = {'quick': 700, 'thorough': 20000}
REQUIRED = {'contains_padded': 600, 'not_beyond': 600, 'pose': 600, 'own_polygon': 500, 'own_location': 500, 'own_line': 500, 'own_tangent': 400, 'own_boundary': 200, 'own_kernel': 100, 'own_normal': 100,
            'original_polygon': 300, 'original_location': 300, 'identity': 600, 'twice': 150, 'closed_pocket': 5, 'ellipse': 60, 'after_polygon': 60, 'after_move': 150, 'reference': 300, 'elongated': 60}
RULE = ('Obstacles of all classes, padding 1e-2 to 1.5 times the size, dilated before or after the polygon and kernel of the original have been asked for, once or twice; the dilated region is compared with the offset '
        'region, then random queries on it with its own region, also after its motion model moved it, and queries on the original with the original region. '
        'Distinct: (class, decade of padding, queried before, dilated twice, frame, region has hole).')


def case(mon, rng, i, tier):
    flask = rng.random() < .06
    if flask:       # cavity with a narrow mouth, closed by the padding
        w = rng.uniform(.1, .2)
        v = np.array([[0, 0], [2, 0], [2, 2], [1 + w, 2], [1 + w, 1.6], [1.7, 1.6], [1.7, .3], [.3, .3], [.3, 1.6], [1 - w, 1.6], [1 - w, 2], [0, 2]]) - 1
        has, ps = gen.pose(rng)
        b = Body(PolygonShape(v), ps, has, None, 'P')
        o = Polygon(gen.messy(rng, v), motion_model=gen.make_mm(rng, ps) if has else None)
    else:
        if rng.random() < .2:     # much longer than wide, reference anywhere
            o, b = gen.obstacle(rng, rng.choice(list('CS')), scale=1., xr_mode='random', long=1.)
            mon.seen('elongated')
        else:
            o, b = gen.obstacle(rng, still=True)
    mon.describe(b.params())
    s = b.shape.size
    asked = rng.random() < .5
    if asked:
        o.polygon(), o.polygon(Frame.OBSTACLE)
        o.extreme_points()
        if b.xr is not None:
            o.kernel()
            mon.seen('after_polygon')
    pads = [s * 10. ** rng.uniform(-2, .2)]
    if flask:
        pads = [rng.uniform(1.1 * w, .5)]
    elif rng.random() < .3:
        pads.append(s * 10. ** rng.uniform(-2, 0))
        mon.seen('twice')
    d, sum_pad = o, 0.
    idarg = rng.choice(['default', 'temp', 'duplicate'])
    own = int(o.id())
    for p in pads:
        d = d.dilated_obstacle(p) if idarg == 'default' else d.dilated_obstacle(p, id=str(idarg))
        sum_pad += p
        if rng.random() < .3:
            d.polygon()
    det = lambda **q: {'body': b.params(), 'padding': pads, 'asked_before': asked, **q}
    mon.ok('identity', o.id() == own and (d.id() == own if idarg == 'duplicate' else d.id() is None if idarg == 'temp' else d.id() not in (None, own)), lambda: det(id=d.id(), original=own, arg=idarg))
    mon.ok('pose', np.allclose(d.pos(), o.pos()) and d.rot() == o.rot() and np.allclose(o.pos(), b.pose.pos if b.has_mm else 0), det)
    if b.xr is not None:
        mon.ok('reference', np.allclose(d.xr(), o.xr()) and np.allclose(o.xr(Frame.OBSTACLE), b.xr), lambda: det(xr=d.xr()))
    if rng.random() < .5 and b.has_mm:
        # later motion of the dilated obstacle
        m = gen.make_mm(rng, gen.pose(rng, mode='full')[1])
        d.set_motion_model(m)
        ps = oracle.Pose(m.pos(), m.rot())
        mon.seen('after_move')
    else:
        ps = b.pose
    f = Frame.GLOBAL if rng.random() < .5 else Frame.OBSTACLE
    D = d.polygon(f)
    if f == Frame.GLOBAL and b.has_mm:
        D = sg.Polygon(ps.inv(np.array(D.exterior.coords)), [ps.inv(np.array(h.coords)) for h in D.interiors])
    tol = 1e-6 * (s + sum_pad + np.abs(ps.pos).max())
    base = b.shape.inner(400)
    gap = b.rep_gap()
    quad = np.cos(np.pi / 2 / 8 / 2)    # round joins have at least 8 segments per quarter
    hole = len(D.interiors) > 0
    if b.kind == 'E':
        mon.seen('ellipse')
        a = b.shape.a + sum_pad
        inner = sg.Polygon(EllipseShape(a).boundary(400))
        gap = a.max() * (1 - np.cos(np.pi / b.n_pol)) + 4e-3
        mon.ok('contains_padded', D.is_valid and inner.difference(D.buffer(gap + sum_pad * (1 - quad))).area == 0, lambda: det(dilated=D.wkt))
        mon.ok('not_beyond', D.difference(base.buffer(sum_pad + gap, quad_segs=16)).area < 1e-9, lambda: det(dilated=D.wkt))
        B = Body(EllipseShape(a), ps, b.has_mm, b.xr, 'E', b.n_pol)
        # either the polygon with the larger semi axes or the enlarged polygon
        reg = lambda v: D.exterior.distance(sg.MultiPoint(v)) < tol and max(D.exterior.distance(sg.Point(x)) for x in v) < tol
    else:
        lo = base
        for p in pads:
            lo = lo.buffer(p * quad - tol, quad_segs=8)
        mon.ok('contains_padded', D.is_valid and lo.difference(D).area < 1e-9, lambda: det(dilated=D.wkt))
        # the overlay library simplifies its input by up to a percent of the distance
        ok = D.difference(base.buffer(sum_pad * 1.03 + tol, quad_segs=16)).area < 1e-9
        mon.ok('not_beyond', ok, lambda: det(dilated=D.wkt))
        B = Body(PolygonShape(np.array(D.exterior.coords)[:-1]), ps, b.has_mm, b.xr, b.kind)
        reg = None
    mon.distinct(b.kind, int(np.log10(sum_pad / s) // .5), asked, len(pads), f.name, hole)
    if hole:
        mon.seen('closed_pocket')
        # points of the closed pocket are free
        x = np.array(sg.Polygon(D.interiors[0]).representative_point().coords[0])
        if D.exterior.distance(sg.Point(x)) > 1e-3 * s and min(sg.LinearRing(h).distance(sg.Point(x)) for h in D.interiors) > 1e-4 * s:
            mon.ok('pocket_free', d.point_location(x, Frame.OBSTACLE) > 0, lambda: det(point=x))
    else:
        names = list(agree.QUERIES) + (agree.STAR if b.xr is not None else [])
        names.remove('convex')
        agree.compare(mon, d, B, rng, 'own', names=names, n=10, region=reg, extra=lambda: {'padding': pads, 'original': b.params(), 'asked_before': asked})
        if b.shape.convex:
            mon.ok('own_convex', bool(d.is_convex()), det)
    agree.compare(mon, o, b, rng, 'original', n=5, extra=lambda: {'padding': pads})
