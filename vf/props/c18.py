"""Kernel of a starshaped obstacle: exactly the points from which the whole obstacle is visible."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle
from obstacles import Frame, StarshapedPolygon, Ellipse
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = {'region': 1500, 'sees_all': 1500, 'hidden_part': 500, 'convex': 500, 'nonconvex': 1000, 'default_reference': 300, 'collinear_vertices': 150, 'union_outline': 200}
RULE = ('Random starshaped polygons (regular stars, plus, L, random radii, thin, outlines of unions of parts seen from a common point; 4-28 vertices, reversed and rolled vertex lists, closing vertex, optional collinear vertices on edges) '
        'and ellipses in random poses. The kernel is compared with the clipped intersection of all edge half planes in both frames, and points of it and next to it are tested for visibility '
        'of every vertex. Distinct: (class, number of vertices, number of kernel vertices, frame, decade of kernel area).')


def extra_vertices(rng, v):
    out = []
    for a, c in zip(v, np.roll(v, -1, 0)):
        out.append(a)
        if rng.random() < .3:
            out.append((a + c) / 2)
    return np.array(out)


def case(mon, rng, i, tier):
    kind = rng.choice(list('ECSS'))
    if kind == 'S' and rng.random() < .25:
        # vertices in the middle of edges
        has, ps = gen.pose(rng)
        v = gen.star_vertices(rng)
        b = oracle.Body(oracle.PolygonShape(v), ps, has, None, 'S')
        o = StarshapedPolygon(gen.messy(rng, extra_vertices(rng, v)), xr=None if rng.random() < .5 else b.shape.kernel().mean(0), motion_model=gen.make_mm(rng, ps) if has else None)
        b.xr = np.array(o.xr(Frame.OBSTACLE))
        mon.seen('collinear_vertices')
    elif kind == 'S' and rng.random() < .4:
        has, ps = gen.pose(rng)
        v = gen.union_vertices(rng)
        b = oracle.Body(oracle.PolygonShape(v), ps, has, None, 'S')
        o = StarshapedPolygon(gen.messy(rng, v), xr=None if rng.random() < .5 else b.shape.kernel().mean(0), motion_model=gen.make_mm(rng, ps) if has else None)
        b.xr = np.array(o.xr(Frame.OBSTACLE))
        mon.seen('union_outline')
    else:
        o, b = gen.obstacle(rng, kind)
    mon.describe(b.params())
    s = b.shape.size
    if b.kind == 'E':
        E = b.shape.inner(800)
        tol = b.rep_gap()
        depth = None
    else:
        k = b.shape.kernel()
        E = sg.MultiPoint(k).convex_hull if len(k) >= 3 else sg.Polygon([])
        tol = 1e-6 * s
        if E.area < 1e-4 * s ** 2:
            return
        if b.xr is not None:
            mon.ok('default_reference', b.shape.kernel_depth(b.xr) > -1e-9 * s, lambda: {'body': b.params(), 'xr': b.xr})
    frame = Frame.GLOBAL if rng.random() < .6 else Frame.OBSTACLE
    for f in (frame, Frame.GLOBAL, frame):      # repeated queries give the same answer
        G = o.kernel(f)
        X = sg.Polygon(b.glob(np.array(E.exterior.coords)[:-1])) if f == Frame.GLOBAL else E
        det = lambda **q: {'body': b.params(), 'frame': f, 'kernel': G.wkt, 'expected': X.wkt, **q}
        ok = mon.ok('region', G.is_valid and oracle.same_region(G, X, tol), det)
        if not ok:
            return
    mon.seen('convex' if b.shape.convex else 'nonconvex')
    if b.kind == 'E':
        return
    # direct visibility
    F = o.kernel(frame)
    lo, hi = np.array(F.bounds[:2]), np.array(F.bounds[2:])
    P = sg.Polygon(b.shape.v).buffer(1e-7 * s)
    for _ in range(6):
        p = rng.uniform(lo - .1 * s, hi + .1 * s)
        inside = F.contains(sg.Point(p))
        q = p if frame == Frame.OBSTACLE else b.loc(p)
        d = b.shape.kernel_depth(q)
        if abs(d) < 1e-5 * s:
            continue
        segs = shapely.linestrings([[q, x] for x in np.vstack([b.shape.v, (b.shape.v + b.shape.b) / 2, b.shape.v * .99 + b.shape.b * .01, b.shape.v * .01 + b.shape.b * .99])])
        esc = shapely.length(shapely.difference(segs, P)).max()
        if inside:
            mon.ok('sees_all', esc == 0, lambda: det(point=p, escape=esc))
        else:
            mon.ok('hidden_part', esc > 0 or abs(d) < 1e-2 * s, lambda: det(point=p, depth=d))
    mon.distinct(b.kind, len(b.shape.v), len(E.exterior.coords), frame.name, int(np.log10(E.area / s ** 2)))
