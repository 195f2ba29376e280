"""Reference models, written independently of the repository: ellipses in closed form,
polygons by winding numbers and edge tests on plain numpy arrays."""
import numpy as np
import shapely
import shapely.geometry as sg


def cross(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def seg_dist(p, a, b):
    """Distance from p to every segment a[i]-b[i]."""
    d = b - a
    L2 = (d * d).sum(-1)
    t = np.clip(((p - a) * d).sum(-1) / np.where(L2 == 0, 1, L2), 0, 1)
    return np.linalg.norm(a + t[..., None] * d - p, axis=-1)


class Pose:
    def __init__(self, pos=(0., 0.), rot=0.):
        self.pos, self.rot = np.array(pos, float), float(rot)

    def R(self):
        c, s = np.cos(self.rot), np.sin(self.rot)
        return np.array([[c, -s], [s, c]])

    def fwd(self, p):
        return np.asarray(p, float) @ self.R().T + self.pos

    def inv(self, p):
        return (np.asarray(p, float) - self.pos) @ self.R()

    def rotf(self, v):
        return np.asarray(v, float) @ self.R().T

    def rotinv(self, v):
        return np.asarray(v, float) @ self.R()


class EllipseShape:
    convex = True

    def __init__(self, a):
        self.a = np.array(a, float)
        self.size = 2 * self.a.max()
        self.center = np.zeros(2)

    def signed(self, p):
        """(-1 interior / +1 exterior, lower bound of distance to the boundary)."""
        r = np.linalg.norm(np.asarray(p) / self.a)
        return (1 if r > 1 else -1), abs(r - 1) * self.a.min()

    def level(self, p):
        return float(((np.asarray(p) / self.a) ** 2).sum() - 1)

    def crossings(self, l0, l1):
        """Points of the boundary on the segment, and how far the configuration is from degenerate."""
        d = (l1 - l0) / self.a
        o = l0 / self.a
        A, B, C = d @ d, d @ o, o @ o - 1
        D = B * B - A * C
        if A == 0:
            return [], 0.
        near = abs(np.linalg.norm(o - d * (B / A)) - 1)     # distance of tangency in scaled space
        if D < 0:
            return [], near
        ts = np.array([(-B - np.sqrt(D)) / A, (-B + np.sqrt(D)) / A])
        m = min(np.abs(ts).min(), np.abs(ts - 1).min()) * np.sqrt(A)
        return [l0 + t * (l1 - l0) for t in ts if 0 <= t <= 1], min(near, m)

    def tangents(self, p):
        """(ccw-most, cw-most) tangent points seen from p, None if p is not exterior."""
        q = np.asarray(p) / self.a
        d = np.linalg.norm(q)
        if d <= 1:
            return None
        phi, al = np.arctan2(q[1], q[0]), np.arccos(1 / d)
        t1 = self.a * np.array([np.cos(phi - al), np.sin(phi - al)])
        t2 = self.a * np.array([np.cos(phi + al), np.sin(phi + al)])
        return t1, t2

    def ray_exits(self, o, d):
        d1, o1 = np.asarray(d) / self.a, np.asarray(o) / self.a
        A, B, C = d1 @ d1, d1 @ o1, o1 @ o1 - 1
        D = B * B - A * C
        if D < 0:
            return []
        return [o + t * np.asarray(d) for t in ((-B - np.sqrt(D)) / A, (-B + np.sqrt(D)) / A) if t > 0]

    def normal(self, b):
        n = np.asarray(b) / self.a ** 2
        return n / np.linalg.norm(n)

    def boundary(self, n=200, phase=0.):
        t = np.linspace(0, 2 * np.pi, n, endpoint=False) + phase
        return np.c_[self.a[0] * np.cos(t), self.a[1] * np.sin(t)]

    def area(self):
        return np.pi * self.a.prod()

    def inner(self, n=400):
        """Polygon inscribed in the true shape."""
        return sg.Polygon(self.boundary(n))

    def outer(self, n=400):
        t = np.linspace(0, 2 * np.pi, n, endpoint=False)
        return sg.Polygon(np.c_[self.a[0] * np.cos(t), self.a[1] * np.sin(t)] / np.cos(np.pi / n))

    def interior_point(self, rng):
        r, t = np.sqrt(rng.random()) * .97, rng.uniform(0, 2 * np.pi)
        return self.a * r * np.array([np.cos(t), np.sin(t)])


class PolygonShape:
    def __init__(self, v):
        v = np.array(v, float)
        if cross(v, np.roll(v, -1, 0)).sum() < 0:
            v = v[::-1].copy()
        self.v = v
        self.b = np.roll(v, -1, 0)
        self.size = float(np.ptp(v, axis=0).max())
        self.center = (v.min(0) + v.max(0)) / 2
        e = self.b - v
        turn = cross(e, np.roll(e, -1, 0)) / (np.linalg.norm(e, axis=1) * np.linalg.norm(np.roll(e, -1, 0), axis=1))
        self.min_turn = turn.min()
        self.convex = bool(turn.min() > -1e-9)

    def winding(self, p):
        a, b = self.v - p, self.b - p
        ang = np.arctan2(cross(a, b), (a * b).sum(-1))
        return int(round(ang.sum() / (2 * np.pi)))

    def bdist(self, p):
        return float(seg_dist(np.asarray(p, float), self.v, self.b).min())

    def signed(self, p):
        p = np.asarray(p, float)
        return (-1 if self.winding(p) else 1), self.bdist(p)

    def crossings(self, l0, l1):
        d = l1 - l0
        L = np.linalg.norm(d)
        if L == 0:
            return [], 0.
        out, margin = [], np.inf
        e = self.b - self.v
        den = cross(d, e)
        # margin: vertices close to the segment, end points close to the boundary
        margin = min(margin, seg_dist_pts(self.v, l0, l1).min(), self.bdist(l0), self.bdist(l1))
        for a, ei, dn in zip(self.v, e, den):
            if abs(dn) < 1e-14:
                continue
            t = cross(a - l0, ei) / dn
            u = cross(a - l0, d) / dn
            if 0 <= t <= 1 and 0 <= u <= 1:
                out.append(l0 + t * d)
        return out, margin

    def view(self, p):
        """Unwrapped viewing angles of the vertices, total angle, from p."""
        a = self.v - p
        b = self.b - p
        inc = np.arctan2(cross(a, b), (a * b).sum(-1))
        ang = np.concatenate([[0.], np.cumsum(inc)])
        return ang

    def tangents(self, p):
        """(ccw-most, cw-most) vertices, None if p is interior or sees the polygon all around."""
        ang = self.view(np.asarray(p, float))
        if abs(ang[-1]) > 1:
            return None
        ang = ang[:-1]
        if ang.max() - ang.min() >= 2 * np.pi:
            return None
        return self.v[ang.argmax()], self.v[ang.argmin()]

    def view_range(self, p):
        ang = self.view(np.asarray(p, float))[:-1]
        return ang.max() - ang.min()

    def ray_exits(self, o, d):
        far = np.asarray(o) + np.asarray(d) / np.linalg.norm(d) * 10 * (self.size + np.abs(self.v - o).max())
        pts, m = self.crossings(np.asarray(o, float), far)
        return pts

    def edge_normals(self):
        e = self.b - self.v
        n = np.c_[e[:, 1], -e[:, 0]]
        return n / np.linalg.norm(n, axis=1, keepdims=True)

    def boundary(self, n=200, phase=0.):
        k = max(1, n // len(self.v))
        ts = (np.arange(k) + phase % 1) / k
        return np.concatenate([a + np.outer(ts, b - a) for a, b in zip(self.v, self.b)])

    def area(self):
        return abs(cross(self.v, self.b).sum()) / 2

    def sp(self):
        return sg.Polygon(self.v)

    inner = outer = lambda self, n=0: sg.Polygon(self.v)

    def interior_point(self, rng):
        lo, hi = self.v.min(0), self.v.max(0)
        for _ in range(500):
            p = rng.uniform(lo, hi)
            if self.winding(p):
                return p
        return np.array(self.sp().representative_point().coords[0])

    def kernel(self, big=None):
        """Intersection of the inner half planes of all edges, by clipping."""
        big = big or 4 * (self.size + 1)
        c = self.v.mean(0)
        poly = [c + big * np.array(q) for q in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        for a, b in zip(self.v, self.b):
            poly = clip(poly, a, b)
            if len(poly) == 0:
                return np.zeros((0, 2))
        return np.array(poly)

    def kernel_depth(self, p):
        """Signed distance of p inside all inner half planes (>0: in the kernel)."""
        e = self.b - self.v
        return float((cross(e, p - self.v) / np.linalg.norm(e, axis=1)).min())


def seg_dist_pts(pts, a, b):
    d = b - a
    L2 = d @ d
    t = np.clip(((pts - a) @ d) / (L2 if L2 else 1), 0, 1)
    return np.linalg.norm(a + t[:, None] * d - pts, axis=1)


def clip(poly, a, b):
    out = []
    d = b - a
    n = len(poly)
    for i in range(n):
        p, q = poly[i - 1], poly[i]
        sp, sq = cross(d, p - a), cross(d, q - a)
        if (sp >= 0) != (sq >= 0):
            t = sp / (sp - sq)
            out.append(p + t * (q - p))
        if sq >= 0:
            out.append(q)
    return out


class Body:
    """Reference model of one obstacle: shape in its own frame plus pose."""

    def __init__(self, shape, pose=None, has_mm=True, xr=None, kind='', n_pol=None):
        self.shape, self.pose, self.has_mm, self.kind, self.n_pol = shape, pose or Pose(), has_mm, kind, n_pol
        self.xr = None if xr is None else np.array(xr, float)

    def loc(self, p):
        return self.pose.inv(p)

    def glob(self, p):
        return self.pose.fwd(p)

    def signed(self, p):
        return self.shape.signed(self.loc(p))

    def crossings(self, l0, l1):
        pts, m = self.shape.crossings(self.loc(l0), self.loc(l1))
        return [self.glob(p) for p in pts], m

    def tangents(self, p):
        t = self.shape.tangents(self.loc(p))
        return None if t is None else (self.glob(t[0]), self.glob(t[1]))

    def boundary(self, n=200, phase=0.):
        return self.glob(self.shape.boundary(n, phase))

    def inner(self, n=400):
        return sg.Polygon(self.glob(np.array(self.shape.inner(n).exterior.coords)[:-1]))

    def outer(self, n=400):
        return sg.Polygon(self.glob(np.array(self.shape.outer(n).exterior.coords)[:-1]))

    def xr_global(self):
        return self.glob(self.xr)

    def is_free_exterior(self, p):
        """Exterior and able to escape to infinity along some ray."""
        s, m = self.signed(p)
        return s > 0 and self.tangents(p) is not None

    def rep_gap(self):
        """How far the polygon representation may lie from the true shape (either side)."""
        if isinstance(self.shape, EllipseShape):
            return self.shape.a.max() * (1 - np.cos(np.pi / self.n_pol)) + 2e-3
        return 1e-9

    def params(self):
        d = {'kind': self.kind, 'pos': self.pose.pos.tolist(), 'rot': self.pose.rot, 'has_mm': self.has_mm}
        if isinstance(self.shape, EllipseShape):
            d['a'] = self.shape.a.tolist()
            d['n_pol'] = self.n_pol
        else:
            d['v'] = self.shape.v.tolist()
        if self.xr is not None:
            d['xr'] = self.xr.tolist()
        return d


def iou_diff(p, q):
    """Area of the symmetric difference, robust to tiny invalidities."""
    try:
        return p.symmetric_difference(q).area
    except Exception:
        return p.buffer(0).symmetric_difference(q.buffer(0)).area


def hausdorff_ok(p, q, tol):
    """Boundaries and regions of p and q agree up to tol."""
    return p.difference(q.buffer(tol)).is_empty and q.difference(p.buffer(tol)).is_empty


def same_region(p, q, tol):
    if p is None or q is None:
        return p is q
    if p.is_empty or q.is_empty:
        return p.is_empty == q.is_empty or max(p.area, q.area) < tol
    if not (p.is_valid and q.is_valid):
        return False
    return p.difference(q.buffer(tol)).area <= 1e-12 and q.difference(p.buffer(tol)).area <= 1e-12


def star_hull_polygon(verts, K):
    """Exact starshaped hull of a polygon for kernel points K: union over edges of conv(edge + K)."""
    verts = np.asarray(verts)
    pieces = [sg.MultiPoint(np.vstack([e, K])).convex_hull for e in zip(verts, np.roll(verts, -1, 0))]
    pieces = [g for g in pieces if g.area > 1e-11]
    pieces.append(sg.Polygon(verts))
    return union(pieces)


def union(pieces):
    """Snap rounded union: the floating point overlay may drop whole polygons when edges differ by rounding only."""
    return shapely.union_all(pieces, grid_size=1e-9)


def star_hull_convex(pts, K):
    """Starshaped hull of a convex set given by points: its convex hull with K (K small)."""
    return shapely.union_all([sg.MultiPoint(np.vstack([pts, k[None]])).convex_hull for k in K])


def region_starshaped(P, k, tol, n_extra=0):
    """Largest escape of a segment from k to the boundary of P outside P.buffer(tol)."""
    if P.geom_type != 'Polygon':
        return np.inf
    v = np.array(P.exterior.coords)[:-1]
    # dense boundary points
    pts = [v, (v + np.roll(v, -1, 0)) / 2]
    Q = P.buffer(tol)
    lines = shapely.linestrings([[k, p] for p in np.vstack(pts)])
    return float(shapely.length(shapely.difference(lines, Q)).max())
