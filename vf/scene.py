"""Scenes for the clustering pipeline and the recorded events of one run of it."""
import sys, time
import contextlib
import io
import numpy as np
import shapely
import shapely.geometry as sg
import gen, oracle
import obstacles as ob
import starshaped_hull as SH
from core import Skip

MIXES = {
    'convex': (['E', 'C'], None), 'ellipses': (['E'], None), 'polygons': (['C'], None),
    'plain': (['E', 'C', 'Q'], None), 'star': (['E', 'C', 'S'], None), 'stars': (['S'], None),
    'mixed': (['E', 'C', 'S', 'P'], None), 'nonstar': (['P'], None), 'general': (['E', 'C', 'R', 'R'], None),
}


class Scene:
    def params(self):
        return {'obstacles': [b.params() for b in self.bodies], 'ids': [o.id() for o in self.obs], 'x': self.x, 'xg': self.xg, 'eps': self.eps, 'mix': self.mix, 'layout': self.layout}


def bar(rng, a, b, w):
    """Thin convex obstacle from a to b."""
    d = b - a
    L, rot = np.linalg.norm(d) / 2, float(np.arctan2(d[1], d[0]))
    ps = oracle.Pose((a + b) / 2, rot)
    m = gen.mm.Static(ps.pos.copy(), rot)
    if rng.random() < .3:
        n_pol = int(rng.choice([16, 24, 40]))
        sh = oracle.EllipseShape([L * 1.1, w])
        return ob.Ellipse(sh.a.copy(), n_pol=n_pol, motion_model=m), oracle.Body(sh, ps, True, np.zeros(2), 'E', n_pol)
    v = np.array([[-L, -w], [L, -w], [L, w], [-L, w]])
    v = v * rng.uniform(.9, 1.1, v.shape)
    return ob.StarshapedPolygon(gen.messy(rng, v), motion_model=m), oracle.Body(oracle.PolygonShape(v), ps, True, np.zeros(2), 'C')


def cascade(rng, nmax=8, clearance=0.):
    """Bars linked to open polylines with further obstacles in their bays: merging goes on over several rounds."""
    for _ in range(50):
        s = Scene()
        s.mix, s.layout, s.eps = 'convex', 'cascade', float(rng.choice([.05, .1, .2, .5, 2.]))
        s.obs, s.bodies = [], []
        p, d, turn = np.zeros(2), rng.uniform(0, 6.28), rng.choice([-1, 1])
        pts = [p]
        for k in range(int(rng.integers(3, 5))):
            p = p + rng.uniform(.9, 2.) * np.array([np.cos(d), np.sin(d)])
            pts.append(p)
            d += turn * rng.uniform(.9, 1.7)
        for a, c in zip(pts, pts[1:]):
            e = (c - a) / np.linalg.norm(c - a) * .08
            o, b = bar(rng, a - e, c + e, rng.uniform(.04, .1))
            s.obs.append(o)
            s.bodies.append(b)
        H = sg.MultiPoint(np.array(pts)).convex_hull
        tries = 0
        while len(s.obs) < nmax and tries < 40:
            tries += 1
            q = rng.normal(0, 1.3, 2) + np.mean(pts, 0)
            if rng.random() < .5:
                k = rng.uniform(.1, .3)
                o, b = gen.obstacle(rng, rng.choice(list('EC')), scale=k, at=q, pose_mode='full', n_pol=16)
            else:
                t = rng.uniform(0, 6.28)
                o, b = bar(rng, q, q + rng.uniform(.5, 1.5) * np.array([np.cos(t), np.sin(t)]), .05)
            if all(b.outer(40).distance(c.outer(40)) > .02 for c in s.bodies):
                s.obs.append(o)
                s.bodies.append(b)
        order = rng.permutation(len(s.obs))
        s.obs, s.bodies = [s.obs[k] for k in order], [s.bodies[k] for k in order]
        s.lo = np.min([b.boundary(12).min(0) for b in s.bodies], 0) - 1.2
        s.hi = np.max([b.boundary(12).max(0) for b in s.bodies], 0) + 1.2
        try:
            s.x, s.xg = free_point(rng, s, clearance), free_point(rng, s, clearance)
        except Skip:
            continue
        return s
    raise Skip('no cascade')


def staircase(rng, nmax=8, clearance=0., kinds='EC'):
    """Three bars forming a bay and further obstacles of which each reaches into the hull that the ones before will get: one more round for each."""
    for _ in range(50):
        s = Scene()
        s.mix, s.layout, s.eps = 'convex', 'staircase', float(rng.choice([.05, .1, .2]))
        # (two of them would have a common kernel and no hull)
        a, L = rng.uniform(0, 6.28), rng.uniform(.4, 1.2)
        e = lambda t: np.array([np.cos(t), np.sin(t)])
        k, sgn = np.zeros(2), rng.choice([-1, 1])
        made = [bar(rng, -L * e(a), L * e(a), rng.uniform(.05, .1))]
        for f in (-1, 1):
            d = e(a + sgn * (np.pi / 2 - f * rng.uniform(-.5, .5)))
            made.append(bar(rng, f * (L - .05) * e(a) - .05 * d, f * (L - .05) * e(a) + rng.uniform(.6, 1.8) * d, rng.uniform(.04, .09)))
        H0 = None
        H = oracle.union([sg.MultiPoint(np.vstack([b.boundary(24), [k]])).convex_hull for _, b in made])
        tries = 0
        while len(made) < nmax and tries < 60:
            tries += 1
            x0, y0, x1, y1 = H.bounds
            q = rng.uniform([x0, y0], [x1, y1])
            t = rng.uniform(0, 6.28)
            o, b = bar(rng, q, q + rng.uniform(.3, 1.6) * e(t), rng.uniform(.04, .1)) if rng.random() < .7 else \
                gen.obstacle(rng, rng.choice(list(kinds)), scale=rng.uniform(.1, .4), at=q, pose_mode='full', n_pol=16)
            B = b.outer(40)
            if any(B.distance(c.outer(40)) < .02 for _, c in made) or not B.intersects(H) or H0 is not None and B.distance(H0) < .02:
                continue
            made.append((o, b))
            H0 = H
            H = oracle.union([H, sg.MultiPoint(np.vstack([b.boundary(24), [k]])).convex_hull])
        if len(made) < 4:
            continue
        order = rng.permutation(len(made))
        s.obs, s.bodies = [made[j][0] for j in order], [made[j][1] for j in order]
        s.lo = np.min([b.boundary(12).min(0) for b in s.bodies], 0) - 1.2
        s.hi = np.max([b.boundary(12).max(0) for b in s.bodies], 0) + 1.2
        far = H.buffer(.05)
        try:
            for name in ('x', 'xg'):
                p = free_point(rng, s, clearance)
                while far.contains(sg.Point(p)) and rng.random() < .95:
                    p = free_point(rng, s, clearance)
                setattr(s, name, p)
        except Skip:
            continue
        return s
    raise Skip('no staircase')


LOOKALIKE = [1, 2, 12, 11, 112, 21, 22, 111, 122, 121, 211, 212]


def key(o):
    return o.id() if o.id() is not None else 'object%d' % id(o)


def identities(rng, s, temps=True):
    """Now and then obstacles with given identities that look alike, or copies without identity."""
    k = rng.random()
    if k < .07 and len(s.obs) <= len(LOOKALIKE):
        ob.Obstacle.id_counter = max(ob.Obstacle.id_counter, max(LOOKALIKE))
        s.obs = [o.copy(id=int(i)) for o, i in zip(s.obs, rng.permutation(LOOKALIKE[:max(3, len(s.obs))]))]
    elif k < .12 and temps:
        some = rng.random(len(s.obs)) < rng.choice([.5, 1.])
        s.obs = [o.copy() if t else o for o, t in zip(s.obs, some)]
    return s


def make(rng, *args, temps=True, **kw):
    return identities(rng, _make(rng, *args, **kw), temps)


def _make(rng, mix=None, layout=None, nmax=8, n=None, scale=1., ell_n_pol=None, clearance=0., generic=False):
    if layout == 'staircase' or (layout is None and mix in (None, 'convex', 'plain') and n is None and ell_n_pol is None and scale == 1. and rng.random() < .05):
        return staircase(rng, nmax, clearance)
    if layout == 'cascade' or (layout is None and mix in (None, 'convex', 'plain', 'star') and n is None and ell_n_pol is None and scale == 1. and rng.random() < .12):
        return cascade(rng, nmax, clearance)
    s = Scene()
    s.mix = mix = mix or rng.choice(['convex', 'ellipses', 'polygons', 'plain', 'star', 'mixed', 'general'], p=[.23, .13, .13, .1, .18, .15, .08])
    kinds = MIXES[mix][0]
    s.layout = layout = layout or rng.choice(['uniform', 'dense', 'chain', 'ring', 'pairs', 'wall', 'sparse'])
    n = n or int(rng.integers(1, nmax + 1))
    if layout in ('chain', 'wall', 'ring'):
        n = max(n, 3)
    W = np.sqrt(n) * {'uniform': rng.uniform(1.2, 3), 'dense': rng.uniform(.8, 1.3), 'sparse': 4., 'pairs': 3.}.get(layout, 2.) * scale
    at = []
    if layout == 'chain':
        p, d = np.zeros(2), rng.uniform(0, 6.28)
        for _ in range(n):
            at.append(p.copy())
            d += rng.normal(0, .6)
            p = p + rng.uniform(.5, 1.6) * scale * np.array([np.cos(d), np.sin(d)])
    elif layout == 'ring':
        R = n * rng.uniform(.25, .45) * scale
        t = np.arange(n) * 2 * np.pi / (n + rng.integers(0, 2)) + rng.uniform(0, 6)
        at = [R * np.array([np.cos(a), np.sin(a)]) for a in t]
    elif layout == 'wall':
        t = rng.choice([0, np.pi / 2, rng.uniform(0, 6)])
        st = rng.uniform(.5, 1.5) * scale
        at = [i * st * np.array([np.cos(t), np.sin(t)]) for i in range(n)]
    elif layout == 'pairs':
        while len(at) < n:
            c = rng.uniform(0, W, 2)
            at += [c, c + rng.uniform(-1, 1, 2) * scale]
        at = at[:n]
    else:
        at = [rng.uniform(0, W, 2) for _ in range(n)]
    s.obs, s.bodies = [], []
    for p in at:
        k = rng.choice(kinds)
        if k == 'E':
            n_pol = ell_n_pol or int(rng.choice([8, 10, 16, 20, 30, 40]))
        else:
            n_pol = None
        sc = scale * rng.choice([.8, rng.uniform(.4, 1.1)])
        if not generic and rng.random() < .08:      # given directly in the global frame
            o, b = gen.obstacle(rng, k, scale=sc, pose_mode='none', n_pol=n_pol)
        else:
            o, b = gen.obstacle(rng, k, scale=sc, at=p, pose_mode='full' if generic else rng.choice(['full', 'shift', 'right']), n_pol=n_pol)
        s.obs.append(o)
        s.bodies.append(b)
    lo = np.min([b.boundary(12).min(0) for b in s.bodies], 0) - 1.2 * scale
    hi = np.max([b.boundary(12).max(0) for b in s.bodies], 0) + 1.2 * scale
    s.lo, s.hi = lo, hi
    s.x = free_point(rng, s, clearance)
    s.xg = free_point(rng, s, clearance)
    if not generic and rng.random() < .1:
        align(rng, s, clearance)
    s.eps = float(rng.choice([.05, .1, .2, .5, 2.], p=[.24, .24, .24, .22, .06]))
    return s


def align(rng, s, clearance=0.):
    """Robot and goal in line with the centre of an obstacle."""
    b = s.bodies[int(rng.integers(len(s.bodies)))]
    c = b.pose.pos.copy()
    for _ in range(20):
        t = rng.choice([0, np.pi / 2, np.pi, rng.uniform(0, 6.28)])
        u = np.round(np.array([np.cos(t), np.sin(t)]), 12)
        x, xg = c - rng.uniform(1, 6) * u, c + rng.choice([-.5, 1., 1., 1.]) * rng.uniform(1, 6) * u
        if all(sd > 0 and m > clearance + q.rep_gap() + 1e-3 for q in s.bodies for p in (x, xg) for sd, m in [q.signed(p)]):
            s.x, s.xg = x, xg
            return


def free_point(rng, s, clearance=0., lo=None, hi=None):
    """A point exterior to all obstacles (in their polygon representation as well)."""
    lo = s.lo if lo is None else lo
    hi = s.hi if hi is None else hi
    for _ in range(400):
        p = rng.uniform(lo, hi)
        ok = True
        for b in s.bodies:
            sd, m = b.signed(p)
            if sd < 0 or m < clearance + b.rep_gap() + 1e-3:
                ok = False
                break
        if ok:
            return p
    raise Skip('no free point')


def free_for_all(s, p):
    return all(b.is_free_exterior(p) for b in s.bodies)


class Run:
    pass


def run(s, x=None, xg=None, eps=None, history=True, **kw):
    r = Run()
    r.x = s.x if x is None else x
    r.xg = s.xg if xg is None else xg
    r.eps = s.eps if eps is None else eps
    k = int(abs(r.x[0]) * 1e6) % 8
    if k < 3 and 'verbose' not in kw:       # reports are printed for some scenes, which must not influence anything
        kw = dict(kw, verbose=k != 1, timing_verbose=k != 2)
    with contextlib.redirect_stdout(io.StringIO()):
        out = SH.cluster_and_starify(s.obs, r.x.copy(), r.xg.copy(), r.eps, return_history=history, **kw)
    r.raw = out
    r.clusters, r.timing, r.flag, r.n_iter = out[:4]
    r.history = out[4] if history else None
    return r


def poly(cl):
    return cl.polygon()


def members(s, cl):
    """Bodies of the members of a cluster."""
    by = {id(o): b for o, b in zip(s.obs, s.bodies)}
    return [by.get(id(o)) for o in cl.obstacles]


def star_tol(bodies):
    """Tolerance of starshapedness due to the polygon approximation of ellipses."""
    return max([b.shape.a.max() * (1 - np.cos(np.pi / b.n_pol)) for b in bodies if b.kind == 'E'] + [0]) + 1.5e-3


def expected_region(s, cl):
    """Union of the members and of their starshaped hulls for the kernel points of the cluster."""
    K = np.array(cl.kernel_points)
    parts = []
    for b in members(s, cl):
        if b.kind == 'E':
            pts = b.boundary(720)
            parts.append(sg.MultiPoint(np.vstack([pts, K])).convex_hull if any(b.signed(k)[0] > 0 for k in K) else sg.Polygon(pts))
        elif b.shape.convex:
            pts = b.glob(b.shape.v)
            parts.append(sg.MultiPoint(np.vstack([pts, K])).convex_hull)
        else:
            parts.append(oracle.star_hull_polygon(b.glob(b.shape.v), K))
    return oracle.union(parts)


def straddles(b, K):
    """Kernel triangle properly crosses the boundary of a non-convex polygon."""
    if b.shape.convex:
        return False
    T = sg.Polygon(K)
    P = sg.Polygon(b.glob(b.shape.v))
    return T.intersects(P.exterior) and not T.within(P) and not T.disjoint(P)


