"""Admissible kernel of one obstacle for one excluded point: exactly the positions whose starshaped hull leaves out the point."""
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle, pipe
import starshaped_hull as SH
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 25000}
REQUIRED = {'admissible': 4000, 'inadmissible': 1500, 'no_kernel': 200, 'hull_excludes': 1000, 'hull_includes': 300, 'wide_view': 100, 'exists_close': 200}
RULE = ('Random obstacles of all classes and excluded points (far, near, aligned with axes and extreme coordinates, in pockets, inside, within thousandths of the boundary). Kernel positions at 1e-2..1e4 from the point '
        'are classified by the cone (predicate and region) and compared with the reflected view of the reference obstacle, and with whether the exact starshaped hull '
        'contains the excluded point. Positions closer than 1e-4 rad to a cone ray are skipped. Distinct: (class, octant of the view, width of the view, verdict).')


def hull_contains(b, k, x):
    """x in the exact starshaped hull of b for the kernel point k <=> the ray from x away from k meets b."""
    d = x - k
    n = np.linalg.norm(d)
    ex = b.shape.ray_exits(b.loc(x), b.pose.rotinv(d / n))
    return len(ex) > 0


def case(mon, rng, i, tier):
    o, b = gen.obstacle(rng)
    mon.describe(b.params())
    s = b.shape.size
    for _ in range(6):
        x = gen.probe(rng, b)
        close = rng.random() < .25
        if close:
            q = b.boundary(64, rng.random())
            x = q[int(rng.integers(len(q)))] + rng.normal(size=2) * s * 10. ** rng.uniform(-3, -2)
        sd, m = b.signed(x)
        if m < (1e-3 if close else 1e-2) * s or np.linalg.norm(x - b.pose.pos) > 1e3:
            continue
        if b.kind == 'E' and abs(b.shape.a[0] ** 2 - b.loc(x)[0] ** 2) < 1e-3:
            continue        # tangent formula switches to the vertical case there, judged with its own tolerance by the tangent check
        if b.kind != 'E' and sd > 0 and abs(b.shape.view_range(b.loc(x)) - 2 * np.pi) < 1e-3:
            continue
        vi = pipe.view_interval(b, x) if sd > 0 else None
        K = SH.admissible_kernel(o, x.copy())
        det = lambda **k: {'body': b.params(), 'x': x, 'view': vi, **k}
        if vi is None:
            mon.ok('no_kernel', K is None, det)
            continue
        if m < 1e-2 * s:
            # too close for the directions of the tangents, not for their existence
            mon.ok('exists_close', K is not None, det)
            continue
        if not mon.ok('kernel_exists', K is not None, det):
            continue
        if abs(vi[1] - np.pi) < 1e-3:
            continue
        P = K.polygon()
        if vi[1] > 2.5:
            mon.seen('wide_view')
        for _ in range(8):
            r, t = 10. ** rng.uniform(-2, 4), rng.uniform(0, 2 * np.pi)
            if rng.random() < .5:
                e = vi[0] + np.pi + rng.choice([0, vi[1]])
                t = e + rng.choice([-1, 1]) * 10. ** rng.uniform(-3, -.5)
            k = x + r * np.array([np.cos(t), np.sin(t)])
            am = pipe.admissible_margin(b, x, k)
            if abs(am) < 1e-4:
                continue
            w = am > 0
            d2 = lambda: det(k=k, margin=am, in_cone=K.point_in_cone(k), in_region=P.contains(sg.Point(k)), cone=[K.apex, K.dir1, K.dir2])
            mon.ok('admissible' if w else 'inadmissible', bool(K.point_in_cone(k)) == w, d2)
            if r < 1e3 and abs(am) > 1e-3 and r > .05:
                mon.ok('region_admissible' if w else 'region_inadmissible', P.contains(sg.Point(k)) == w, d2)
            mon.ok('hull_excludes' if w else 'hull_includes', hull_contains(b, k, x) == (not w), d2)
            mon.distinct(b.kind, int(vi[0] * 4 / np.pi), int(vi[1] * 4 / np.pi), w)
        # the hull computed by the library itself for a position well inside the cone leaves x out
        t = vi[0] + vi[1] / 2 + (np.pi - vi[1] / 2) * rng.uniform(-.6, .6) + np.pi + np.pi
        k = x + rng.uniform(.2, 3) * s * np.array([np.cos(t), np.sin(t)])
        if pipe.admissible_margin(b, x, k) > 1e-2:
            H = SH.kernel_starshaped_hull(o, k[None]) if b.shape.convex else None
            if H is not None:
                reg = H.union(b.inner(200)) if not H.is_empty else b.inner(200)
                mon.ok('library_hull_excludes', not reg.buffer(-1e-6).contains(sg.Point(x)), lambda: det(k=k))
