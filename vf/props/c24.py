"""Normals: outward unit normals of the boundary where the ray from the reference point leaves."""
import numpy as np
import gen
from oracle import cross
from obstacles import Frame
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = {'ellipse': 3000, 'edge': 4000, 'weighted': 2000, 'weighted_on_edge': 300, 'unit': 9000, 'points_out': 5000, 'boundary_input': 1000, 'moved_reference': 1000}
RULE = ('Random ellipses and starshaped polygons in random poses and with random reference points, also changed after construction; points inside, on, near and far from the boundary, in both '
        'frames, answers asked in both frames; default and smoothed polygon normals. Distinct: (class, frames, kind of normal, point inside, octant of the expected normal, given as boundary point).')


def exits(b, p):
    """Boundary point on the ray from the reference point through local p (last exit)."""
    e = b.shape.ray_exits(b.xr, p - b.xr)
    if not e:
        return None
    return max(e, key=lambda x: np.linalg.norm(x - b.xr))


def case(mon, rng, i, tier):
    kind = rng.choice(list('EECSS'))
    o, b = gen.obstacle(rng, kind)
    mon.describe(b.params())
    s = b.shape.size
    N = None if kind == 'E' else b.shape.edge_normals()
    for k in range(10):
        if k == 5 and rng.random() < .6:
            # another reference point, queries must follow
            if kind == 'E':
                x = gen.reference(rng, b.shape)
            else:
                K = b.shape.kernel()
                if b.shape.kernel_depth(K.mean(0)) < 1e-2 * s:
                    break
                x = gen.reference(rng, b.shape)
            f = Frame.OBSTACLE if rng.random() < .5 else Frame.GLOBAL
            o.set_xr(gen.to_frame(b, b.glob(x), f), f)
            b.xr = x
            mon.seen('moved_reference')
        p = gen.probe(rng, b)
        q = b.loc(p)
        if np.linalg.norm(q - b.xr) < 1e-3 * s:
            continue
        if kind != 'E' and b.shape.kernel_depth(b.xr) < 1e-4 * s:
            break
        e = exits(b, q)
        if e is None:
            continue
        fi, fo = gen.frame_pair(rng)
        onb = rng.random() < .25
        x = gen.to_frame(b, b.glob(e) if onb else p, fi)
        kw = {}
        if onb and rng.random() < .7:
            kw['x_is_boundary'] = True
            mon.seen('boundary_input')
        if kind == 'E':
            exp = b.shape.normal(e)
            cands = [exp]
        else:
            d = np.linalg.norm(b.shape.v - e, axis=1)
            if d.min() < 1e-4 * s:
                continue
            L = np.linalg.norm(b.shape.b - b.shape.v, axis=1)
            on = [j for j in range(len(N)) if abs(cross(b.shape.b[j] - b.shape.v[j], e - b.shape.v[j])) / L[j] < 1e-7 * s
                  and d[j] < L[j] and d[(j + 1) % len(N)] < L[j]]
            if len(on) != 1:
                continue
            j = on[0]
            exp = N[j]
        out = lambda n: b.pose.rotf(n) if fo == Frame.GLOBAL and b.has_mm else n
        n = np.asarray(o.normal(x, input_frame=fi, output_frame=fo, **kw))
        det = lambda: {'body': b.params(), 'point': x, 'frames': [fi, fo], 'boundary': e, 'args': kw, 'got': n, 'expected': out(exp)}
        mon.ok('unit', abs(np.linalg.norm(n) - 1) < 1e-6, det)
        mon.ok('ellipse' if kind == 'E' else 'edge', np.abs(n - out(exp)).max() < 1e-5, det)
        sd = b.shape.signed(q)[0]
        mon.distinct(kind, fi.name, fo.name, sd, int(np.arctan2(exp[1], exp[0]) // (np.pi / 4)), bool(kw))
        # stepping along the normal leaves the obstacle
        nl = b.pose.rotinv(n) if fo == Frame.GLOBAL and b.has_mm else n
        h = (2e-5 if kind != 'E' else 1e-3) * s
        if kind != 'E' or b.shape.a.min() > .2 * b.shape.a.max():
            so, mo = b.shape.signed(e + h * nl)
            si, mi = b.shape.signed(e - h * nl)
            if min(mo, mi) > 1e-7 * s:
                mon.ok('points_out', so > 0 and si < 0, det)
        if kind == 'E':
            continue
        w = np.asarray(o.normal(x, input_frame=fi, output_frame=fo, type='weighted_edges'))
        wl = b.pose.rotinv(w) if fo == Frame.GLOBAL and b.has_mm else w
        m = len(N)
        trio = N[[(j - 1) % m, j, (j + 1) % m]]
        mon.ok('unit', abs(np.linalg.norm(w) - 1) < 1e-6, lambda: {**det(), 'smoothed': w})
        ok = False
        for a, c in ((0, 1), (1, 2), (0, 2)):
            A = np.c_[trio[a], trio[c]]
            if abs(np.linalg.det(A)) < 1e-9:
                ok = ok or max(trio[a] @ wl, trio[c] @ wl) > 1 - 1e-6
                continue
            y = np.linalg.solve(A, wl)
            ok = ok or y.min() > -1e-6
        mon.ok('weighted', ok, lambda: {**det(), 'smoothed': w, 'normals': trio})
        if onb:
            lens = [np.linalg.norm(b.shape.b[t % m] - b.shape.v[t % m]) for t in (j - 1, j, j + 1)]
            dist = min(d[j], d[(j + 1) % m])
            gap = min(dist, *[max(0, _seg(b.shape.v[t % m], b.shape.b[t % m], e)) for t in (j - 1, j + 1)])
            if gap > .05 * s and lens[1] > .05 * s:
                mon.ok('weighted_on_edge', np.linalg.norm(wl - exp) < 4e-5 * (lens[0] + lens[2]) / lens[1] / gap + 1e-6, lambda: {**det(), 'smoothed': w})


def _seg(a, c, p):
    t = np.clip((p - a) @ (c - a) / ((c - a) @ (c - a)), 0, 1)
    return np.linalg.norm(a + t * (c - a) - p)
