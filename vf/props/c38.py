"""Drawing: the artists created (headless) are read back and compared with the reference region at the current pose."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import shapely.geometry as sg
import gen
import oracle
import pipe
import starshaped_hull as sh
from core import Skip
from obstacles import motion_model as mm
from obstacles import Frame, StarshapedPrimitiveCombination
from utils import Cone, cg, draw_shapely_polygon
LEVEL = 'exploration'
CASES = {'quick': 2400, 'thorough': 20000}
CASE_SECONDS = 20
REQUIRED = {'patch': 1500, 'patch_updated': 2000, 'reference': 600, 'reference_updated': 900, 'name': 150, 'name_updated': 200, 'own_axes': 40, 'given_axes': 800, 'frame': 400, 'hidden': 1000, 'polygon_parts': 60,
            'polygon_clipped': 90, 'limits': 150, 'combination': 600, 'cluster_drawn': 40, 'clustering_drawn': 100, 'hulls_drawn': 40, 'kernels_drawn': 100, 'robot_goal': 100, 'cone': 600, 'cone_rays': 30, 'point_line': 80}
RULE = ('Obstacles of every kind and pose drawn in every frame on own and given axes with and without reference point and name, updated after moves, jumps and moved reference points; combinations; polygons in several '
        'parts, clipped to limits; clusterings, hulls and admissible kernels of random scenes; cones, points and lines. Distinct: (artist, kind, frame, options).')
FIG = {}


def axes():
    if 'ax' not in FIG:
        FIG['ax'] = plt.subplots()[1]
    ax = FIG['ax']
    for a in list(ax.patches) + list(ax.lines) + list(ax.texts):
        a.remove()
    return ax


def region(patch):
    """Region covered by a patch, in data coordinates."""
    path = patch.get_patch_transform().transform_path(patch.get_path())
    if patch.get_path().codes is not None and (patch.get_path().codes == 4).any():
        # cubic Bezier segments
        t = np.linspace(0, 1, 41)[1:, None]
        out, p, v, c = [], None, path.vertices, path.codes
        j = 0
        while j < len(v):
            if c[j] == 4:
                out.append((1 - t) ** 3 * p + 3 * (1 - t) ** 2 * t * v[j] + 3 * (1 - t) * t ** 2 * v[j + 1] + t ** 3 * v[j + 2])
                p = v[j + 2]
                j += 3
            else:
                if c[j] in (1, 2):
                    p = v[j]
                    out.append(p[None])
                j += 1
        v = np.vstack(out)
    else:
        v = path.vertices
    g = sg.Polygon(v)
    return g if g.is_valid else g.buffer(0)


def handles(h, kind):
    return [a for a in h if isinstance(a, kind)]


def check_drawn(mon, o, b, hs, frame, opts, tag):
    """The handles of one obstacle against the body at its current pose."""
    det = lambda **d: {'obstacle': b.params(), 'frame': str(frame), 'options': opts, 'handles': [str(h) for h in hs], **d}
    ps = handles(hs, matplotlib.patches.Patch)
    if not mon.ok('patch' + tag, len(ps) == 1, det):
        return
    got = region(ps[0])
    want = b.inner(400) if b.kind == 'E' else b.inner()
    v = np.array(want.exterior.coords)[:-1]
    want = sg.Polygon([gen.to_frame(b, p, frame) for p in v])
    size = np.sqrt(want.area)
    mon.ok('patch' + tag, oracle.same_region(got, want, 3e-3 * size + (1e-3 * b.shape.a.max() if b.kind == 'E' else 0)), lambda: det(got=got.wkt[:600], want=want.wkt[:600]))
    if frame != Frame.GLOBAL:
        mon.seen('frame')
    ls = handles(hs, matplotlib.lines.Line2D)
    shown = opts.get('show_reference', True) and b.kind in 'ECS'
    if mon.ok('reference' + tag if shown else 'hidden', len(ls) == int(shown), det) and shown:
        q = np.ravel(ls[0].get_data())
        w = gen.to_frame(b, b.xr_global(), frame)
        mon.ok('reference' + tag, np.abs(q - w).max() < 1e-6 * (1 + np.abs(w).max()), lambda: det(got=q, want=w))
    ts = handles(hs, matplotlib.text.Text)
    named = opts.get('show_name', False)
    if mon.ok('name' + tag if named else 'hidden', len(ts) == int(named), det) and named:
        q = np.array(ts[0].get_position(), float)
        w = b.xr_global() if b.kind in 'ECS' else b.pose.pos
        w = gen.to_frame(b, w, frame)
        mon.ok('name' + tag, np.abs(q - w).max() < 1e-6 * (1 + np.abs(w).max()) and ts[0].get_text() == str(o), lambda: det(got=q, want=w, text=ts[0].get_text(), name=str(o)))


def case(mon, rng, i, tier):
    k = i % 8
    if k < 4:
        one(mon, rng, i)
    elif k == 4:
        parts(mon, rng)
    elif k == 5:
        scene(mon, rng)
    elif k == 6:
        combo(mon, rng)
    else:
        simple(mon, rng)


def one(mon, rng, i):
    o, b = gen.obstacle(rng, 'ECSPQ'[int(rng.integers(5))], still=True)
    opts = {}
    if rng.random() < .4:
        opts['show_reference'] = bool(rng.integers(2))
    if rng.random() < .5:
        opts['show_name'] = bool(rng.integers(2))
    frame = [Frame.GLOBAL, Frame.GLOBAL, Frame.OBSTACLE][int(rng.integers(3))]
    fresh = i % 40 == 0
    mon.describe({'obstacle': b.params(), 'frame': str(frame), 'options': opts})
    n0 = len(plt.get_fignums())
    ax0 = None if fresh else axes()
    n0 = len(plt.get_fignums())
    kw = {**opts, 'ax': ax0} if not fresh else dict(opts)
    if frame == Frame.GLOBAL and rng.random() < .5:
        hs, ax = o.draw(**kw)
    else:
        hs, ax = o.draw(frame=frame, **kw)
    if fresh:
        mon.ok('own_axes', len(plt.get_fignums()) == n0 + 1 and all(h is None or h.axes is ax for h in hs), lambda: {'options': opts})
    else:
        mon.ok('given_axes', ax is ax0 and len(plt.get_fignums()) <= max(n0, 1) and all(h is None or h.axes is ax for h in hs), lambda: {'options': opts})
    check_drawn(mon, o, b, hs, frame, opts, '')
    mon.distinct('draw', b.kind, str(frame), tuple(sorted(opts.items())))
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < .7:
            ps = gen.pose(rng, mode='full')[1]
            o.set_motion_model(mm.Static(ps.pos, ps.rot))
            b.pose, b.has_mm = ps, True
        if b.kind in 'ECS' and rng.random() < .4:
            if b.kind == 'E':
                x = gen.reference(rng, b.shape)
            else:
                K = b.shape.kernel()
                x = gen.reference(rng, b.shape) if len(K) > 2 else b.xr.copy()
            o.set_xr(x.copy())
            b.xr = x
        frame = Frame.GLOBAL if rng.random() < .7 else Frame.OBSTACLE
        if frame == Frame.GLOBAL and rng.random() < .5:
            o.update_plot(hs)
        else:
            o.update_plot(hs, frame)
        check_drawn(mon, o, b, hs, frame, opts, '_updated')
        mon.distinct('update', b.kind, str(frame), tuple(sorted(opts.items())))
    if fresh:
        plt.close(ax.figure)


def flat(g):
    return [p for p in getattr(g, 'geoms', [g]) if p.geom_type == 'Polygon' and not p.is_empty]


def match(got, want, tol=1e-3):
    """Each drawn region is one expected region and the other way round (outlines; holes are not drawn)."""
    want = [sg.Polygon(w.exterior) for w in want]
    if len(got) != len(want):
        return False
    left = list(got)
    for w in want:
        j = next((j for j, g in enumerate(left) if oracle.same_region(g, w, tol * max(1e-3, min(50, np.sqrt(w.area))))), None)
        if j is None:
            return False
        left.pop(j)
    return True


def marks(ax):
    return [(np.ravel(np.array(l.get_data(), float)), l.get_marker()) for l in ax.lines]


def has_mark(ax, p, marker):
    return any(len(q) == 2 and m == marker and np.abs(q - p).max() < 1e-9 for q, m in marks(ax))


def drawn_obstacle(b):
    return b.inner(400) if b.kind == 'E' else b.inner()


def scene(mon, rng):
    for s, r in pipe.loop(rng, rng.choice(['convex', 'plain', 'star', 'mixed']), steps=1):
        body = {id(o): b for o, b in zip(s.obs, s.bodies)}
        if any(id(o) not in body for c in r.clusters for o in c.obstacles):
            raise Skip('replaced')
        lim = None if rng.random() < .3 else [float(s.lo.min() - 1), float(s.hi.max() + 1)]
        det = lambda **d: pipe.detail(s, r, None, limits=lim, **d)
        mon.describe({'scene': s.params()})
        n0 = len(plt.get_fignums())
        try:
            mode = int(rng.integers(4))
            if mode == 0:
                fig, ax = sh.draw_clustering(r.clusters, r.x, r.xg, lim, lim)
                got = [region(p) for p in ax.patches]
                want = [drawn_obstacle(body[id(o)]) for c in r.clusters for o in c.obstacles]
                mon.ok('clustering_drawn', match(got, want), lambda: det(drawn=len(got), expected=len(want)))
                for c in r.clusters:      # one colour per cluster
                    fc = {tuple(np.round(p.get_facecolor()[:3], 6)) for p in ax.patches if any(oracle.same_region(region(p), drawn_obstacle(body[id(o)]), 1e-3) for o in c.obstacles)}
                    mon.ok('clustering_drawn', len(fc) == 1 or len(r.clusters) < 2, lambda: det(colours=sorted(fc)))
                mon.ok('robot_goal', has_mark(ax, r.x, 'o') and has_mark(ax, r.xg, '*'), det)
                if lim:
                    mon.ok('limits', np.allclose(ax.get_xlim(), lim) and np.allclose(ax.get_ylim(), lim), det)
            elif mode == 1:
                fig, ax = sh.draw_star_hull(r.clusters, r.x, r.xg, lim, lim)
                got = [region(p) for p in ax.patches]
                want = []
                for c in r.clusters:
                    if c.cluster_obstacle is not None:
                        want += [drawn_obstacle(body[id(c.cluster_obstacle)])] if id(c.cluster_obstacle) in body else flat(c.cluster_obstacle.polygon())
                    want += flat(oracle.union([o.polygon() for o in c.obstacles]))
                mon.ok('hulls_drawn', match(got, want, 2e-2), lambda: det(drawn=len(got), expected=len(want)))
                mon.ok('robot_goal', has_mark(ax, r.x, 'o') and has_mark(ax, r.xg, '*'), det)
                if lim:
                    mon.ok('limits', np.allclose(ax.get_xlim(), lim) and np.allclose(ax.get_ylim(), lim), det)
            elif mode == 2:
                cls = [c for c in r.clusters if c.admissible_kernel is not None and not c.admissible_kernel.is_empty]
                fig, axs = sh.draw_adm_ker(r.clusters, r.x, r.xg, lim, lim)
                axs = np.ravel(axs)
                if not mon.ok('kernels_drawn', len(axs) >= len(cls), det):
                    return
                used = [a for a in axs if a.patches]
                mon.ok('kernels_drawn', len(used) == len(cls), lambda: det(axes=len(used), clusters=len(cls)))
                for a, c in zip(used, cls):
                    got = sorted(((tuple(np.round(p.get_facecolor(), 3)), region(p)) for p in a.patches), key=lambda z: z[0])
                    want = [drawn_obstacle(body[id(o)]) for o in c.obstacles]
                    K = flat(c.admissible_kernel)
                    T = [sg.Polygon(c.kernel_points)] if c.kernel_points is not None and c.admissible_kernel.geom_type != 'Point' else []
                    mon.ok('kernels_drawn', match([g for _, g in got], want + K + T, 2e-2), lambda: det(cluster=c.name, drawn=len(got), expected=[len(want), len(K), len(T)]))
                    mon.ok('kernels_drawn', sorted(t.get_text() for t in a.texts) == sorted(str(o) for o in c.obstacles), lambda: det(cluster=c.name, texts=[t.get_text() for t in a.texts]))
                    mon.ok('robot_goal', has_mark(a, r.x, 'o') and has_mark(a, r.xg, '*'), det)
            else:
                c = r.clusters[int(rng.integers(len(r.clusters)))]
                ax0 = axes() if rng.random() < .7 else None
                hs, ax = c.draw(ax=ax0) if ax0 is not None else c.draw()
                got = [region(p) for p in ax.patches]
                want = [drawn_obstacle(body[id(o)]) for o in c.obstacles]
                if c.cluster_obstacle is not None:
                    want += [drawn_obstacle(body[id(c.cluster_obstacle)])] if id(c.cluster_obstacle) in body else flat(c.cluster_obstacle.polygon())
                mon.ok('cluster_drawn', match(got, want, 2e-2) and (ax0 is None or ax is ax0) and all(p in hs for p in ax.patches), lambda: det(cluster=c.name, drawn=len(got), expected=len(want)))
            mon.distinct('scene', mode, len(r.clusters), r.flag)
        finally:
            for n in plt.get_fignums()[n0:]:
                plt.close(n)


def parts(mon, rng):
    n = int(rng.integers(1, 5))
    off = np.array([10 * j for j in range(n)])
    polys = []
    for j in range(n):
        v = [gen.convex_vertices, gen.star_vertices, gen.nonstar_vertices][int(rng.integers(3))](rng)
        polys.append(sg.Polygon(np.asarray(v) + [off[j], 0]))
    g = polys[0] if n == 1 else sg.MultiPolygon(polys) if rng.random() < .5 else sg.GeometryCollection(polys + [sg.Point(3, 3), sg.LineString([(0, 0), (1, 1)])])
    if rng.random() < .1:
        g = [sg.Point(0, 0), sg.LineString([(0, 0), (1, 2)]), sg.MultiPolygon([])][int(rng.integers(3))]
        polys = []
    mon.describe({'geometry': g.wkt})
    ax0 = axes()
    kw = {}
    lim = rng.random() < .6
    if lim:
        x = np.sort(rng.uniform(-3, 10 * n, 2))
        y = np.sort(rng.uniform(-3, 3, 2))
        kw = {'xlim': x.tolist(), 'ylim': y.tolist()}
        if x[1] - x[0] < .1 or y[1] - y[0] < .1:
            return
        box = sg.box(x[0] - 1, y[0] - 1, x[1] + 1, y[1] + 1)
        want = [q for p in polys for q in flat(p.intersection(box))]
    else:
        want = polys
    det = lambda **d: {'geometry': g.wkt, 'limits': kw, **d}
    hs, ax = draw_shapely_polygon(g, ax=ax0, color='b', **kw)
    got = [region(p) for p in ax.patches]
    got = [q for q in got if not q.is_empty]
    mon.ok('polygon_clipped' if lim else 'polygon_parts', ax is ax0 and match(got, want) and all(p in hs for p in ax.patches), lambda: det(drawn=[q.wkt for q in got]))
    if lim:
        mon.ok('limits', np.allclose(ax.get_xlim(), kw['xlim']) and np.allclose(ax.get_ylim(), kw['ylim']), det)
    mon.distinct('parts', n, lim, g.geom_type)


def combo(mon, rng):
    c = rng.uniform(-5, 5, 2)
    obs, bodies = [], []
    for _ in range(40):
        o, b = gen.obstacle(rng, rng.choice(list('ECS')), at=c + rng.uniform(-.8, .8, 2), scale=rng.uniform(.7, 1.2))
        if (-b.signed(c)[1] * b.signed(c)[0] if b.kind == 'E' else b.shape.kernel_depth(b.loc(c))) > .06:
            obs.append(o)
            bodies.append(b)
        if len(obs) == 3:
            break
    if len(obs) < 2:
        raise Skip('no members')
    comb = StarshapedPrimitiveCombination(obs, None, c.copy(), id='temp', name='combined')
    opts = {}
    if rng.random() < .5:
        opts['show_reference'] = bool(rng.integers(2))
    if rng.random() < .5:
        opts['show_name'] = bool(rng.integers(2))
    mon.describe({'members': [b.params() for b in bodies], 'reference': c})
    det = lambda **d: {'members': [b.params() for b in bodies], 'reference': c, 'options': opts, **d}
    ax0 = axes()
    hs, ax = comb.draw(ax=ax0, **opts)
    U = oracle.union([b.inner(400) for b in bodies])
    gap = max(b.rep_gap() for b in bodies) + 1e-6
    got = oracle.union([region(p) for p in ax.patches]) if ax.patches else sg.Polygon()
    mon.ok('combination', ax is ax0 and all(h is None or h.axes is ax for h in hs), det)
    W = sg.MultiPolygon([sg.Polygon(p.exterior) for p in flat(U)])
    mon.ok('combination', got.difference(W.buffer(2 * gap)).area < 1e-9 and W.difference(got.buffer(2 * gap)).area < 1e-9, lambda: det(got=got.wkt[:500]))
    ls, ts = handles(hs, matplotlib.lines.Line2D), handles(hs, matplotlib.text.Text)
    mon.ok('combination', len(ls) == int(opts.get('show_reference', True)) and len(ts) == int(opts.get('show_name', False)), det)
    for q in [np.ravel(l.get_data()) for l in ls] + [np.array(t.get_position()) for t in ts]:
        mon.ok('combination', np.abs(q - c).max() < 1e-9, lambda: det(got=q))
    mon.ok('combination', all(t.get_text() == 'combined' for t in ts), det)
    comb.update_plot(hs)
    mon.distinct('combination', ''.join(sorted(b.kind for b in bodies)), tuple(sorted(opts.items())))


def simple(mon, rng):
    ax0 = axes()
    p, q = rng.normal(size=(2, 2)) * 3
    k = rng.integers(3)
    if k == 0:
        w = rng.uniform(.05, 6.2)
        a = rng.uniform(-np.pi, np.pi)
        u, v = np.array([np.cos(a), np.sin(a)]), np.array([np.cos(a + w), np.sin(a + w)])
        c = Cone(p, u, v)
        rays = rng.random() < .6
        mon.describe({'apex': p, 'directions': [u, v]})
        det = lambda **d: {'apex': p, 'directions': [u, v], 'rays': rays, **d}
        hs, ax = c.draw(ax=ax0, color='b', ray_color='r' if rays else None)
        got = oracle.union([region(x) for x in ax.patches])
        n = 0
        for _ in range(12):
            t = p + rng.normal(size=2) * 10. ** rng.uniform(-1, 1)
            ang = np.arctan2(*(t - p)[::-1])
            m = min(abs((ang - a + np.pi) % (2 * np.pi) - np.pi), abs((ang - a - w + np.pi) % (2 * np.pi) - np.pi))
            if m < 1e-2:
                continue
            inside = (ang - a) % (2 * np.pi) < w
            mon.ok('cone', bool(got.contains(sg.Point(t))) == inside, lambda: det(point=t))
        ls = handles(hs, matplotlib.lines.Line2D)
        mon.ok('cone', len(ls) == 2 * rays and ax is ax0, det)
        if rays:
            L = [np.array(l.get_data(), float).T for l in ls]
            ends = [(l[-1] - l[0]) / np.linalg.norm(l[-1] - l[0]) for l in L]
            mon.ok('cone_rays', all(np.abs(l[0] - p).max() < 1e-9 for l in L) and np.abs(ends[0] - u).max() < 1e-6 and np.abs(ends[1] - v).max() < 1e-6, lambda: det(rays=L))
        mon.distinct('cone', int(w), rays)
    elif k == 1:
        mon.describe({'point': p})
        hs, ax = cg.Point(*p).draw(ax=ax0, color='g')
        mon.ok('point_line', ax is ax0 and len(hs) == 1 and np.allclose(np.ravel(hs[0].get_data()), p), lambda: {'point': p})
    else:
        L = cg.Ray(cg.Point(*p), cg.Point(*q))
        mon.describe({'line': [p, q]})
        hs, ax = L.draw(ax=ax0)
        d = [np.array(h.get_data(), float).T for h in hs]
        mon.ok('point_line', ax is ax0 and any(len(z) == 2 and np.allclose(z[0], p) and np.allclose(z[1], q) for z in d) and any(len(z) == 1 and np.allclose(z[0], q) for z in d), lambda: {'line': [p, q], 'drawn': d})
        mon.distinct('line', type(L).__name__)
