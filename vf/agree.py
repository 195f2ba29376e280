"""Comparison of an obstacle, query by query, with its reference body."""
import numpy as np
import shapely.geometry as sg
import gen
import oracle
from oracle import cross
from obstacles import Frame

QUERIES = ['location', 'line', 'tangent', 'polygon', 'extreme', 'pose', 'convex']
STAR = ['reference', 'kernel', 'boundary', 'distance', 'normal', 'direction']


def setof(a, c, tol):
    a, c = np.asarray(a, float).reshape(-1, 2), np.asarray(c, float).reshape(-1, 2)
    if len(a) != len(c):
        return False
    if len(a) == 0:
        return True
    D = np.linalg.norm(a[:, None] - c[None], axis=2)
    return bool(D.min(0).max() < tol and D.min(1).max() < tol)


def compare(mon, o, b, rng, tag, names=None, n=4, extra=None, region=None, ordered=True, probe=None):
    """Ask n randomly chosen queries in random order. region: expected polygon of an ellipse in the obstacle frame, if it is not the inscribed one. probe: chooses the query points."""
    probe = probe or gen.probe
    star = b.xr is not None
    names = names or (QUERIES + (STAR if star else []))
    s = b.shape.size
    reach = s + np.abs(b.pose.pos).max()
    tol = 1e-6 * reach
    G, O = Frame.GLOBAL, Frame.OBSTACLE
    for k in rng.integers(len(names), size=n):
        q = names[int(k)]
        f = G if rng.random() < .6 else O
        det = lambda **d: {'query': q, 'frame': f, 'body': b.params(), **(extra() if extra else {}), **d}
        name = f'{tag}_{q}'
        if q == 'pose':
            mon.ok(name, np.allclose(o.pos(), b.pose.pos if b.has_mm else 0, atol=1e-9) and abs(o.rot() - (b.pose.rot if b.has_mm else 0)) < 1e-9, lambda: det(pos=o.pos(), rot=o.rot()))
        elif q == 'convex':
            if b.kind == 'E' or abs(b.shape.min_turn) > 1e-3:
                mon.ok(name, bool(o.is_convex()) == b.shape.convex, lambda: det(got=o.is_convex()))
        elif q == 'polygon':
            v = np.array(o.polygon(f).exterior.coords)[:-1]
            q2 = b.loc(v) if f == G else v
            if b.kind == 'E':
                if region is not None:
                    ok = region(q2)
                else:
                    ok = len(v) == b.n_pol and np.abs(np.linalg.norm(q2 / (b.shape.a + 1e-3), axis=1) - 1).max() < 1e-6
            else:
                ok = setof(q2, b.shape.v, tol)
            mon.ok(name, ok, lambda: det(got=v))
        elif q == 'extreme':
            v = np.array(o.extreme_points(f))
            q2 = b.loc(v) if f == G else v
            if b.kind == 'E':
                ok = region(q2) if region is not None else np.abs(np.linalg.norm(q2 / (b.shape.a + 1e-3), axis=1) - 1).max() < 1e-6
            else:
                ok = setof(q2, b.shape.v, tol)
                if hasattr(o, 'vertices'):
                    w = np.asarray(o.vertices, float).reshape(-1, 2)
                    ok = ok and len(w) >= len(b.shape.v) and setof(np.unique(np.round(w / tol), axis=0) * tol, np.unique(np.round(b.shape.v / tol), axis=0) * tol, 3 * tol)
            mon.ok(name, ok, lambda: det(got=v, vertices=getattr(o, 'vertices', None)))
        elif q == 'location':
            p = probe(rng, b)
            sd, m = b.signed(p)
            if m > 1e-5 * reach:
                got = o.point_location(gen.to_frame(b, p, f), f)
                mon.ok(name, np.sign(got) == sd, lambda: det(point=p, got=got, expected=sd))
        elif q == 'line':
            p = probe(rng, b)
            l = [p, b.glob(b.loc(p) + rng.normal(0, 1.5 * s, 2))]
            pts, m = b.crossings(*l)
            if m > 1e-3 * s and np.linalg.norm(b.loc(p)) < 10 * s:
                r = [gen.from_frame(b, z, f) for z in o.line_intersection([gen.to_frame(b, z, f) for z in l], f, f)]
                mon.ok(name, setof(r, pts, 1e-4 * reach), lambda: det(line=l, got=r, expected=pts))
        elif q == 'tangent':
            p = probe(rng, b)
            sd, m = b.signed(p)
            if m < 1e-3 * reach or np.linalg.norm(b.loc(p)) > 10 * s or (b.kind != 'E' and abs(b.shape.view_range(b.loc(p)) - 2 * np.pi) < 1e-3):
                continue
            r = [gen.from_frame(b, z, f) for z in o.tangent_points(gen.to_frame(b, p, f), f, f)]
            e = b.tangents(p) if sd > 0 else None
            if e is None:
                mon.ok(name, len(r) == 0, lambda: det(point=p, got=r, expected=[]))
            else:
                if not ordered and len(r) == 2 and np.linalg.norm(r[0] - e[0]) > np.linalg.norm(r[0] - e[1]):
                    r = r[::-1]
                mon.ok(name, len(r) == 2 and all(abs(cross(x - p, y - p)) < 1e-4 * np.linalg.norm(x - p) * np.linalg.norm(y - p) + 1e-7 * reach ** 2 and (x - p) @ (y - p) > 0 for x, y in zip(r, e)),
                       lambda: det(point=p, got=r, expected=e))
        elif q == 'reference':
            x = o.xr(f)
            mon.ok(name, np.linalg.norm(x - (b.glob(b.xr) if f == G else b.xr)) < tol, lambda: det(got=x, expected=b.xr))
        elif q == 'kernel':
            K = o.kernel(f)
            if b.kind == 'E':
                v = np.array(K.exterior.coords)[:-1]
                q2 = b.loc(v) if f == G else v
                ok = region(q2) if region is not None else np.abs(np.linalg.norm(q2 / (b.shape.a + 1e-3), axis=1) - 1).max() < 1e-6
                mon.ok(name, ok, lambda: det(got=K.wkt))
                continue
            if np.linalg.norm(b.shape.b - b.shape.v, axis=1).min() < 1e-4 * s:
                continue
            k = b.shape.kernel()
            E = sg.MultiPoint(k).convex_hull if len(k) >= 3 else sg.Polygon([])
            if E.area < 1e-4 * s ** 2:
                continue
            X = sg.Polygon(b.glob(np.array(E.exterior.coords)[:-1])) if f == G else E
            mon.ok(name, K.is_valid and oracle.same_region(K, X, 1e-5 * reach), lambda: det(got=K.wkt, expected=X.wkt))
        else:
            p = probe(rng, b)
            z = b.loc(p)
            r = np.linalg.norm(z - b.xr)
            if r < 1e-2 * s or r > 10 * s or (b.kind != 'E' and b.shape.kernel_depth(b.xr) < 1e-3 * s) or (b.kind == 'E' and b.shape.signed(b.xr)[0] > 0):
                continue
            u = (z - b.xr) / r
            ex = b.shape.ray_exits(b.xr, u)
            if not ex:
                continue
            e = max(ex, key=lambda t: (t - b.xr) @ u)
            if q == 'direction':
                d = o.reference_direction(gen.to_frame(b, p, f), f, f)
                mon.ok(name, np.linalg.norm((b.pose.rotinv(d) if f == G else d) - u) < 1e-5 * reach / s, lambda: det(point=p, got=d))
            elif q == 'boundary':
                got = o.boundary_mapping(gen.to_frame(b, p, f), f, f)
                if mon.ok(name, got is not None, lambda: det(point=p, expected=e)):
                    mon.ok(name, np.linalg.norm((b.loc(got) if f == G else got) - e) < 1e-4 * reach, lambda: det(point=p, got=got, expected=e))
            elif q == 'distance':
                d = o.distance_function(gen.to_frame(b, p, f), f)
                ratio = r / np.linalg.norm(e - b.xr)
                if abs(ratio - 1) > 1e-3:
                    mon.ok(name, (d > 1) == (ratio > 1) and (ratio > 1 or abs(d - ratio ** 2) < 1e-3), lambda: det(point=p, got=d, ratio=ratio))
            elif q == 'normal':
                if b.kind == 'E':
                    x = b.shape.normal(e)
                else:
                    d = np.linalg.norm(b.shape.v - e, axis=1)
                    if d.min() < 1e-3 * s:
                        continue
                    j = int(oracle.seg_dist(e, b.shape.v, b.shape.b).argmin())
                    x = b.shape.edge_normals()[j]
                got = o.normal(gen.to_frame(b, p, f), f, f)
                mon.ok(name, np.linalg.norm((b.pose.rotinv(got) if f == G else got) - x) < 1e-3, lambda: det(point=p, got=got, expected=x))
