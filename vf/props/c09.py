"""Compute time budget: whichever clock reading reveals that the time is out, the call ends in an admissible way."""
import numpy as np
import oracle, pipe, scene
import starshaped_hull as SH
LEVEL = 'fault_enumeration'
CASES = {'quick': 64, 'thorough': 1200}
CASE_SECONDS = 60
REQUIRED = {'expired_before_first_round_ends': 300, 'expired_in_a_later_round': 60, 'result_after_expiry': 800, 'never_expires': 50, 'expired_in_convexification': 5, 'tiny_budget': 50}
RULE = ('The wall clock is replaced by a virtual clock. For every scene the run without expiry is recorded (number of clock readings R, hull computations per round), then the run is repeated '
        'once for every reading at which the clock can jump past the budget (all of them; in the quick tier 36 evenly spread ones and as many in the middle rounds). Judged: flag, fallback clusters, rounds begun after expiry, equality with the '
        'unlimited result. Distinct: (number of rounds, round of expiry, flag, iterations, convexification).')
BUDGET = 1e5    # ms of virtual time


class Hulls:
    """Counts starshaped hull computations requested by the clustering, and those after expiry."""

    def __init__(self, clock=None):
        self.n, self.at_expiry, self.clock, self.at = 0, None, clock, []

    def __enter__(self):
        self.orig = SH.kernel_starshaped_hull
        def f(*a, **k):
            if self.clock is not None and self.at_expiry is None and self.clock.expire_at is not None and self.clock.n >= self.clock.expire_at:
                self.at_expiry = self.n
            self.n += 1
            self.at.append(self.clock.n if self.clock is not None else 0)
            return self.orig(*a, **k)
        SH.kernel_starshaped_hull = f
        return self

    def __exit__(self, *a):
        SH.kernel_starshaped_hull = self.orig
        if self.at_expiry is None:
            self.at_expiry = self.n


def execute(s, clock, **kw):
    with clock, Hulls(clock) as h:
        r = scene.run(s, **kw)
    r.kw, r.t = kw, 0
    r.hulls, r.hulls_before, r.hull_at = h.n, h.at_expiry, h.at
    return r


def names(cl):
    return sorted(tuple(sorted(str(scene.key(o)) for o in c.obstacles)) for c in cl)


def case(mon, rng, i, tier):
    if rng.random() < .4:
        s = scene.cascade(rng, 7) if rng.random() < .6 else scene.staircase(rng, 7)
    else:
        s = scene.make(rng, rng.choice(['convex', 'ellipses', 'polygons', 'plain', 'star', 'mixed']), rng.choice(['dense', 'chain', 'pairs', 'wall', 'uniform']), nmax=6)
    mon.describe(s.params())
    kw = {}
    if rng.random() < .5:
        kw['make_convex'] = True
    if rng.random() < .2:
        kw['exclude_obstacles'] = True
    c0 = pipe.Clock()
    full = execute(s, c0, max_compute_time=BUDGET, **kw)
    R = c0.n
    inf = scene.run(s, **kw)
    det = lambda q, **k: pipe.detail(s, q, n_iter=q.n_iter, full_flag=full.flag, full_n_iter=full.n_iter, readings=R, **k)
    inf.kw, inf.t = kw, 0
    mon.ok('never_expires', inf.flag == full.flag and inf.n_iter == full.n_iter and names(inf.clusters) == names(full.clusters), lambda: det(inf))
    # a budget that is over at the first reading
    q = execute(s, pipe.Clock(), max_compute_time=0., **kw)
    mon.ok('tiny_budget', q.flag == pipe.INCOMPLETE and q.n_iter == 0 and q.hulls == 0 and names(q.clusters) == names([SH.ObstacleCluster([o]) for o in s.obs]), lambda: det(q))
    if full.flag != pipe.COMPLETE:
        return
    # hull computations up to the end of each round
    H = []
    for m in range(1, full.n_iter):
        H.append(execute(s, pipe.Clock(), max_iterations=m, **kw).hulls)
    H.append(full.hulls)
    plain = full if not kw.get('make_convex') else execute(s, pipe.Clock(), **{k: v for k, v in kw.items() if k != 'make_convex'})
    ks = np.arange(2, R + 2)
    lim = 36 if tier == 'quick' else 400
    if len(ks) > lim:
        later = np.arange(full.hull_at[H[0] - 1], full.hull_at[H[-2] - 1]) if len(H) > 2 else ks[:0]
        if len(later) > lim:
            later = np.unique(np.linspace(later[0], later[-1], lim).astype(int))
        ks = np.unique(np.concatenate([np.linspace(2, R + 1, lim).astype(int), later]))
    for k in ks:
        k = int(k)
        c = pipe.Clock(expire_at=k)
        hist = rng.random() < .7
        q = execute(s, c, history=hist, max_compute_time=BUDGET, **kw)
        D = lambda **z: det(q, expired_at_reading=k, hulls_before=q.hulls_before, hulls=q.hulls, hulls_per_round=H, **z)
        mon.ok('result_after_expiry', q.flag in (0, 1) or (q.flag == 2 and kw.get('make_convex')), D)
        # round in which the time ran out
        rnd = next((j + 1 for j, h in enumerate(H) if q.hulls_before < h), None)
        expired = c.n >= k
        if expired and rnd is not None and rnd < full.n_iter:
            mon.ok('expired_before_first_round_ends' if rnd == 1 else 'expired_in_a_later_round', q.flag == pipe.INCOMPLETE and q.n_iter <= rnd and q.hulls <= H[rnd - 1], lambda: D(round=rnd))
        if q.flag == pipe.INCOMPLETE:
            mon.ok('fallback', expired and [[id(o) for o in cl.obstacles] for cl in q.clusters] == [[id(o)] for o in s.obs] and all(cl.cluster_obstacle is o for cl, o in zip(q.clusters, s.obs)), D)
        else:
            mon.ok('same_partition', names(q.clusters) == names(full.clusters) and q.n_iter == full.n_iter, D)
            by = {c2.name: c2 for c2 in plain.clusters}
            byf = {c2.name: c2 for c2 in full.clusters}
            for cl in q.clusters:
                P = cl.polygon()
                A, B = by[cl.name].polygon(), byf[cl.name].polygon()
                if q.flag == pipe.COMPLETE and kw.get('make_convex') and expired and k <= q.hull_at[-1] and A.area < .99 * A.convex_hull.area:
                    # out of time before the convexification began, with work left for it
                    mon.ok('expiry_reported', False, lambda: D(cluster=cl.name))
                if q.flag == pipe.COMPLETE:
                    mon.ok('same_regions', oracle.same_region(P, B, 1e-6), lambda: D(cluster=cl.name))
                else:
                    mon.ok('expired_in_convexification', expired and (oracle.same_region(P, A, 1e-6) or oracle.same_region(P, A.convex_hull, 1e-6)), lambda: D(cluster=cl.name))
            if q.flag == 2:
                # something was left to convexify
                mon.ok('convexification_pending', not all(oracle.same_region(cl.polygon(), cl.polygon().convex_hull, 1e-9) for cl in q.clusters), D)
        mon.ok('returned', len(q.raw) == (5 if hist else 4) and len(q.timing) == 4 and all(np.isfinite(v) and v >= 0 for v in q.timing), D)
        if hist:
            mon.ok('history', q.n_iter == 0 or (len(q.history) >= q.n_iter and names(q.history[0]) == names([SH.ObstacleCluster([o]) for o in s.obs])), D)
        mon.distinct(full.n_iter, rnd, q.flag, q.n_iter, bool(kw.get('make_convex')), expired)
