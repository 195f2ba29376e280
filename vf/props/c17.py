"""Starshaped hull of non-convex polygons and of lists: the polygon and everything its edges sweep towards the kernel points."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle, pipe
import obstacles as ob
import starshaped_hull as SH
from obstacles import motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 25000}
REQUIRED = {'region': 1200, 'starshaped': 1200, 'star_polygon': 400, 'general_polygon': 400, 'inside': 200, 'straddle': 100, 'outside': 300, 'in_kernel': 60, 'list': 150, 'single_point': 100, 'overlay': 80}
RULE = ('Random non-convex polygons (starshaped and general: U, C, comb, spiral, zigzag shapes, unions of boxes) in random poses and vertex orders with a triangle of kernel points '
        '(side 1e-2..1 of the size) inside, outside, across the boundary, in pockets, in the kernel or far away, or a single kernel point. The hull is compared with the union of the convex hulls of '
        'every edge with the kernel points. Lists mix these with convex obstacles. Distinct: (shape class, number of vertices, location of the kernel points, octave of the ratio of areas).')
ASSUMPTIONS = ['kernel points whose connection to a vertex runs along an edge (closer than 1e-4 relative) are not generated']


def triangle(c, r):
    t = np.pi / 2 - np.arange(3) * 2 * np.pi / 3
    return c + r / np.sqrt(3) * np.c_[np.cos(t), np.sin(t)]


def degenerate(V, K):
    """A kernel point (almost) in line with an edge, or a vertex (almost) in line with two kernel points."""
    e = np.roll(V, -1, 0) - V
    L = np.linalg.norm(e, axis=1)
    for k in K:
        if (np.abs(oracle.cross(e, k - V)) / L).min() < 1e-4:
            return True
        if oracle.seg_dist(k, V, np.roll(V, -1, 0)).min() < 1e-3:
            return True
    return False


def kernel_points(rng, b):
    s = b.shape.size
    mode = rng.choice(['in', 'near', 'pocket', 'far', 'kernel', 'any'])
    if mode == 'in':
        c = b.glob(b.shape.interior_point(rng))
    elif mode == 'near':
        q = b.boundary(50, rng.random())
        c = q[int(rng.integers(len(q)))] + rng.normal(0, .05, 2) * s
    elif mode == 'pocket':
        c = rng.dirichlet(np.ones(len(b.shape.v)) * .4) @ b.glob(b.shape.v)
    elif mode == 'far':
        c = b.pose.pos + rng.normal(0, 5, 2) * s
    elif mode == 'kernel':
        k = b.shape.kernel()
        if len(k) < 3:
            return None
        c = b.glob(rng.dirichlet(np.ones(len(k))) @ k * .8 + k.mean(0) * .2)
    else:
        c = gen.probe(rng, b, 1.2)
        if np.linalg.norm(c - b.pose.pos) > 20 * s:
            return None
    return triangle(c, s * 10. ** rng.uniform(-2, -.5))


def where(b, K):
    ins = [b.signed(k)[0] < 0 for k in K]
    if b.shape.kernel_depth(b.loc(K.mean(0))) > 0 and all(b.shape.kernel_depth(b.loc(k)) > 0 for k in K):
        return 'in_kernel'
    T = sg.Polygon(K)
    P = b.inner()
    if T.within(P):
        return 'inside'
    return 'outside' if T.disjoint(P) else 'straddle'


# A configuration in which the floating point overlay of the polygon with all its edge hulls drops a piece
OVERLAY_V = np.array([[-1.6420124488351142, 0.0044406822552356395], [-1.6311908664697201, 0.31849328122492027], [-2.114698711618837, 0.3351539297524635], [-2.1364036626074787, -0.29474436407660665],
                      [-2.548338511389992, -0.8597797807224274], [-1.8679802279230324, -1.355789903913641], [-1.3640833229684741, -0.6646136208702513], [-1.2923126871372446, -1.1001636656154083],
                      [-0.6840605260123317, -0.9999348977015002], [-0.8762421731423873, 0.1663460476634992], [-1.4844943342673, 0.0661172797495912], [-1.4514367766359584, -0.13449708765484775]])
OVERLAY_K = np.array([[-1.5750076510951465, -0.46663608535207807], [-1.5500076510951466, -0.5099373555413], [-1.6000076510951464, -0.5099373555413]])


def overlay(mon, rng):
    o = ob.Polygon(OVERLAY_V)
    for n in range(4):
        K = OVERLAY_K + rng.normal(0, 10 ** rng.uniform(-9, -2.5), 2)
        H = SH.kernel_starshaped_hull(o, K)
        E = oracle.star_hull_polygon(OVERLAY_V, K)
        mon.ok('overlay', H.is_valid and H.symmetric_difference(E).area < 1e-5, lambda: {'polygon': OVERLAY_V, 'K': K, 'hull': H.wkt[:1500], 'added': H.difference(E).area, 'missing': E.difference(H).area})


def case(mon, rng, i, tier):
    if i % 50 == 7:
        overlay(mon, rng)
    o, b = gen.obstacle(rng, rng.choice(list('SSPPP')), scale=rng.choice([1., rng.uniform(.5, 2)]))
    if b.shape.convex:
        return
    mon.describe(b.params())
    V = b.glob(b.shape.v)
    for _ in range(2):
        K = kernel_points(rng, b)
        if K is None or degenerate(V, K):
            continue
        w = where(b, K)
        if rng.random() < .15:
            K = K[:1]
            mon.seen('single_point')
            w = 'outside' if b.signed(K[0])[0] > 0 else ('in_kernel' if b.shape.kernel_depth(b.loc(K[0])) > 0 else 'inside')
        K0 = K.copy()
        before = o.polygon().wkb
        H = SH.kernel_starshaped_hull(o, K)
        E = oracle.star_hull_polygon(V, K)
        det = lambda **k: {'body': b.params(), 'K': K, 'where': w, 'hull': H.wkt[:1500], **k}
        over, under = H.difference(E).area if H.is_valid else np.inf, E.difference(H).area if H.is_valid else np.inf
        t = 2e-5 * b.shape.size ** 2
        mon.ok('region', H.is_valid and over < t and under < t, lambda: det(added=over, missing=under))
        # what the hull is for, judged directly
        if H.is_valid:
            mon.ok('contains_obstacle', H.buffer(1e-3 * b.shape.size).covers(b.inner()), det)
            mon.ok('one_piece', H.geom_type == 'Polygon' and not H.interiors, det)
            mon.ok('contains_kernel', all(H.buffer(1e-6).covers(sg.Point(k)) for k in K), det)
            mon.ok('starshaped', max(oracle.region_starshaped(H, k, 1e-3 * b.shape.size) for k in K) == 0, det)
            if w == 'in_kernel':
                mon.ok('nothing_added', H.difference(b.inner()).area < t, det)
        mon.ok('untouched', np.array_equal(K, K0) and o.polygon().wkb == before, det)
        mon.seen(w)
        mon.seen('star_polygon' if b.kind == 'S' else 'general_polygon')
        mon.distinct(b.kind, len(V), w, int(np.log2(E.area / b.shape.area()) * 3))
    # list with other obstacles
    if rng.random() < .3:
        more = [gen.obstacle(rng, rng.choice(list('ECQS')), at=b.pose.pos + rng.normal(0, 1.5, 2), pose_mode='full') for _ in range(int(rng.integers(1, 3)))]
        lst = [(o, b)] + more
        K = kernel_points(rng, b)
        if K is None or any(degenerate(c.glob(c.shape.v), K) for _, c in lst if c.kind != 'E'):
            return
        import props.c16 as c16
        if not all(c16.good(c, K) for _, c in lst if c.shape.convex):
            return
        H = SH.kernel_starshaped_hull([q for q, _ in lst], K)
        parts = [c16.exact(c, K) if c.shape.convex and any(c.signed(k)[0] > 0 for k in K) else c.inner(720) if c.shape.convex else
                 oracle.star_hull_polygon(c.glob(c.shape.v), K) for _, c in lst]
        E = oracle.union(parts)
        reg = oracle.union([H] + [c.inner(720) for _, c in lst])
        t = 1e-4 + max(c16.tol(c, K) for _, c in lst if c.shape.convex) if any(c.shape.convex for _, c in lst) else 1e-4
        mon.ok('list', oracle.same_region(reg, E, 5 * t), lambda: {'bodies': [c.params() for _, c in lst], 'K': K, 'missing': E.difference(reg).area, 'added': reg.difference(E).area})
