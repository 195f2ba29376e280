"""Shared driver of the clustering properties: short closed loop histories of
cluster_and_starify with the options a caller can combine, and the reference
judgements on one returned cluster."""
import os, sys, time
import numpy as np
import shapely
import shapely.geometry as sg
import core, gen, oracle, scene
import starshaped_hull as SH
from core import Skip
from oracle import cross
from obstacles import motion_model as mm

COMPLETE, INCOMPLETE, CONVEX_TIMEOUT = 1, 0, 2


# ---------------------------------------------------------------- driver
def loop(rng, mix=None, layout=None, steps=None, nmax=8, p_convex=.25, p_exclude=.0, p_prev=.6, p_ws=.0, clearance=0., s=None, move=.5):
    """Yields (scene, run, options) for a robot that moves while obstacles move."""
    s = s or scene.make(rng, mix, layout, nmax=nmax, clearance=clearance)
    prev = None
    for t in range(steps or int(rng.integers(1, 4))):
        kw = {}
        if prev is not None and rng.random() < p_prev:
            kw['previous_clusters'] = prev
        if rng.random() < p_convex:
            kw['make_convex'] = True
        if rng.random() < p_exclude:
            kw['exclude_obstacles'] = True
        if rng.random() < p_ws:
            kw['workspace'] = workspace(rng, s)
        r = scene.run(s, **kw)
        r.kw, r.t = kw, t
        yield s, r
        # incomplete results are given to the next step as well
        if r.flag != COMPLETE and rng.random() < .5:
            return
        prev = r.clusters
        if rng.random() < move:
            drive(rng, s, clearance)
        if rng.random() < .04:      # arrived
            s.x = s.xg.copy()


def drive(rng, s, clearance=0., mode=None):
    """Robot step and obstacle motion; keeps robot and goal free. Modes: single obstacles move a little,
    all of them move (and turn) together so that clusters persist, or robot or goal is somewhere else."""
    mode = mode or rng.choice(['single', 'drift', 'place'], p=[.55, .3, .15])
    old = [(b.pose.pos.copy(), b.pose.rot) for b in s.bodies]
    mov = [(o, b) for o, b in zip(s.obs, s.bodies) if b.has_mm]
    if mode == 'drift' and mov:
        shift = rng.normal(0, rng.choice([.1, .4, 1.]), 2)
        turn = rng.normal(0, .3) * rng.integers(2)
        R = np.array([[np.cos(turn), -np.sin(turn)], [np.sin(turn), np.cos(turn)]])
        c = np.mean([b.pose.pos for _, b in mov], 0)
    for o, b in mov:
        if mode == 'drift':
            b.pose.pos = c + R @ (b.pose.pos - c) + shift + rng.normal(0, .03, 2) * rng.integers(2)
            b.pose.rot = b.pose.rot + turn
        elif mode == 'single' and rng.random() < .4:
            b.pose.pos = b.pose.pos + rng.normal(0, .12, 2)
            b.pose.rot = b.pose.rot + rng.normal(0, .1) * rng.integers(2)
        else:
            continue
        gen.put(rng, o, b)
    try:
        if mode == 'single':
            x, xg = scene.free_point(rng, s, clearance, s.x - .4, s.x + .4), s.xg
            scene.free_point(rng, s, clearance, s.xg, s.xg)
        elif mode == 'drift':
            scene.free_point(rng, s, clearance, s.x, s.x)
            scene.free_point(rng, s, clearance, s.xg, s.xg)
            x, xg = s.x, s.xg
        elif rng.random() < .5:
            x, xg = scene.free_point(rng, s, clearance), s.xg
        else:
            x, xg = s.x, scene.free_point(rng, s, clearance)
        s.x, s.xg = x, xg
    except Skip:
        for (o, b), (p, r) in zip(zip(s.obs, s.bodies), old):
            if b.has_mm:
                b.pose.pos, b.pose.rot = p, r
                gen.put(rng, o, b)


def workspace(rng, s):
    from obstacles import Ellipse, StarshapedPolygon
    c = (s.lo + s.hi) / 2 + rng.normal(0, .3, 2)
    h = (s.hi - s.lo) / 2 * rng.uniform(.4, 1.3)
    if rng.random() < .5:
        return Ellipse(h, motion_model=mm.Static(c.copy()), n_pol=40, id='temp')
    return StarshapedPolygon([[-h[0], -h[1]], [h[0], -h[1]], [h[0], h[1]], [-h[0], h[1]]], motion_model=mm.Static(c.copy()), id='temp')


def opts(kw):
    return {k: (True if k in ('previous_clusters', 'workspace') else v) for k, v in kw.items()}


def detail(s, r, cl=None, **more):
    d = {'scene': s.params(), 'x': r.x, 'xg': r.xg, 'options': opts(r.kw), 'step': r.t, 'flag': r.flag}
    if cl is not None:
        d['cluster'] = cl.name
        d['kernel_points'] = cl.kernel_points
    d.update(more)
    return d


# ---------------------------------------------------------------- reference judgements
def view_interval(b, x):
    """(start angle, width) of the directions in which x sees the body, None when x is no free exterior point."""
    t = b.tangents(np.asarray(x, float))
    if t is None:
        return None
    if b.kind == 'E':
        u, w = t[1] - x, t[0] - x
        a0 = np.arctan2(u[1], u[0])
        return a0, float(np.arctan2(cross(u, w), u @ w) % (2 * np.pi))
    ang = b.shape.view(b.loc(x))[:-1]
    u = t[1] - x
    return float(np.arctan2(u[1], u[0])), float(ang.max() - ang.min())


def admissible_margin(b, x, k):
    """Angle by which k stays out of the shadow directions: > 0 iff the hull of b for k leaves out x."""
    vi = view_interval(b, x)
    if vi is None:
        return -np.inf
    d = np.asarray(x) - k
    a = (np.arctan2(d[1], d[0]) - vi[0]) % (2 * np.pi)
    if a < vi[1]:
        return -min(a, vi[1] - a)
    return min(a - vi[1], 2 * np.pi - a)


def shadow(b, x, R=200.):
    """Polygon of inadmissible kernel positions for excluding x: the view of b from x, reflected in x."""
    a0, w = view_interval(b, x)
    n = max(2, int(w / .5) + 2)
    t = np.linspace(a0, a0 + w, n) + np.pi
    return sg.Polygon(np.vstack([[x], x + R / np.cos(w / (n - 1) / 2) * np.c_[np.cos(t), np.sin(t)]]))


def admissible_set(bodies, points, R=60.):
    """Reference admissible kernel, clipped to a disc far beyond the scene."""
    S = sg.Point(np.mean([b.pose.pos for b in bodies], 0)).buffer(R)
    for b in bodies:
        for x in points:
            S = S.difference(shadow(b, np.asarray(x, float)))
    return S


def kernel_of(b):
    if b.kind == 'E':
        return b.inner(200)
    if b.shape.convex:
        return b.inner()
    k = b.shape.kernel()
    g = sg.MultiPoint(b.glob(k)).convex_hull if len(k) >= 3 else sg.Polygon([])
    return g if g.geom_type == "Polygon" else sg.Polygon([])


def is_star(b):
    return b.kind in 'ECSQ' or b.shape.convex


def common_kernel(bodies):
    g = None
    for b in bodies:
        if not is_star(b):
            return sg.Polygon([])
        k = kernel_of(b)
        g = k if g is None else g.intersection(k)
    return g


def merged(cl):
    return len(cl.obstacles) > 1


def convexified(s, r, cl):
    """The cluster was replaced by its convex hull."""
    return r.kw.get('make_convex') and type(cl.cluster_obstacle).__name__ == 'StarshapedPolygon' \
        and not any(cl.cluster_obstacle is o for o in s.obs)


def nonconvex_members(s, cl):
    return any(b.kind != 'E' and not b.shape.convex for b in scene.members(s, cl))


def region_samples(rng, s, cl, P, n=12):
    """Points near and in the region of a cluster."""
    x0, y0, x1, y1 = P.bounds
    m = .3 * max(x1 - x0, y1 - y0)
    return rng.uniform([x0 - m, y0 - m], [x1 + m, y1 + m], (n, 2))


# ---------------------------------------------------------------- clock
class Clock:
    """The wall clock replaced by one that the harness controls: every reading is one tick,
    and from reading number `expire_at` on the clock is far in the future."""
    NAMES = ('time', 'perf_counter', 'monotonic', 'process_time')

    def __init__(self, tick=1e-4, expire_at=None, jump=1e6):
        self.n, self.tick, self.expire_at, self.jump = 0, tick, expire_at, jump

    def __call__(self):
        self.n += 1
        t = 1e6 + self.n * self.tick
        if self.expire_at is not None and self.n >= self.expire_at:
            t += self.jump
        return t

    def ns(self):
        return int(self() * 1e9)

    def __enter__(self):
        repl = {}
        for k in self.NAMES:
            repl[getattr(time, k)] = self.__call__
            repl[getattr(time, k + '_ns')] = self.ns
        root = os.path.realpath(core.REPO) + os.sep
        mods = [time] + [m for m in list(sys.modules.values())
                         if os.path.realpath(getattr(m, '__file__', None) or '/').startswith(root)]
        self.old = []
        for m in mods:
            for k, v in list(vars(m).items()):
                try:
                    new = repl.get(v)
                except TypeError:
                    continue
                if new is not None:
                    self.old.append((m, k, v))
                    setattr(m, k, new)
        return self

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)
