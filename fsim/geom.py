"""Exact reference geometry (Fractions only, no code of the repository).

Sites and polygon corners are exact rationals.  The Voronoi cell of a site inside a convex polygon is computed by
half-plane clipping; `world()` also gives the unclipped diagram (inside a huge frame), from which the exact Voronoi
vertices, their degree and the degeneracy classes of an input are read off.
"""
from fractions import Fraction as F
from decimal import Decimal


def fr(v):
    return F(str(v))


def pts_fr(pts):
    return [(fr(x), fr(y)) for x, y in pts]


def hull(ps):
    """Strict convex hull, counter-clockwise."""
    ps = sorted(set(ps))
    if len(ps) < 3:
        return ps

    def half(q):
        h = []
        for p in q:
            while len(h) >= 2 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h

    a, b = half(ps), half(ps[::-1])
    return a[:-1] + b[:-1]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def area(p):
    n = len(p)
    s = sum(p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n)) if n else 0
    return abs(s) / 2


def d2(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def clip(poly, labels, a, b, c, lab):
    """Keep a*x + b*y <= c.  labels[i] names what lies across the side poly[i] -> poly[i+1]."""
    n = len(poly)
    val = [a * p[0] + b * p[1] - c for p in poly]
    if all(v <= 0 for v in val):
        return poly, labels
    out, ol = [], []
    for i in range(n):
        j = (i + 1) % n
        fp, fq = val[i], val[j]
        p, q = poly[i], poly[j]
        if fp <= 0:
            out.append(p)
            if fp == 0 and fq > 0:
                ol.append(lab)
            else:
                ol.append(labels[i])
            if fp < 0 < fq:
                t = fp / (fp - fq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
                ol.append(lab)
        elif fq < 0:
            t = fp / (fp - fq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
            ol.append(labels[i])
    return out, ol


def dedupe(poly, labels):
    """Drop zero-length sides."""
    n = len(poly)
    out, ol = [], []
    for i in range(n):
        if poly[i] != poly[(i + 1) % n]:
            out.append(poly[i])
            ol.append(labels[i])
    return out, ol


def cells(frame, S):
    """Exact cell of every site of S clipped to the convex frame: list of (corners, labels)."""
    res = []
    for i, s in enumerate(S):
        poly = list(frame)
        labels = [("B", k) for k in range(len(frame))]
        order = sorted((j for j in range(len(S)) if j != i), key=lambda j: (d2(s, S[j]), j))
        for j in order:
            if not poly:
                break
            t = S[j]
            # a site farther than twice the farthest corner cannot cut the cell any more
            if d2(s, t) > 4 * max(d2(s, p) for p in poly):
                break
            a = 2 * (t[0] - s[0])
            b = 2 * (t[1] - s[1])
            c = t[0] ** 2 + t[1] ** 2 - s[0] ** 2 - s[1] ** 2
            poly, labels = clip(poly, labels, a, b, c, j)
        poly, labels = dedupe(poly, labels) if poly else (poly, labels)
        res.append((poly, labels))
    return res


def seg_dist2(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l = dx * dx + dy * dy
    if l == 0:
        return d2(p, a)
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l
    t = min(max(t, 0), 1)
    return d2(p, (a[0] + t * dx, a[1] + t * dy))


def boundary_dist2(poly, p):
    n = len(poly)
    return min(seg_dist2(p, poly[i], poly[(i + 1) % n]) for i in range(n))


def inside(poly, p, strict=True):
    """poly counter-clockwise convex."""
    n = len(poly)
    for i in range(n):
        k = cross(poly[i], poly[(i + 1) % n], p)
        if k < 0 or (strict and k == 0):
            return False
    return True


class Domain:
    """The exact facts about one input (polygon corners, sites)."""

    def __init__(self, poly, pts):
        self.P = hull(pts_fr(poly))
        self.S = pts_fr(pts)
        self.ok = False
        self.why = ""
        self.tags = set()
        self.vertices = {}
        P, S = self.P, self.S
        if len(P) < 3 or not S:
            self.why = "empty"
            return
        if len(set(S)) != len(S):
            self.why = "duplicate sites"
            return
        self.x0, self.x1 = min(p[0] for p in P), max(p[0] for p in P)
        self.y0, self.y1 = min(p[1] for p in P), max(p[1] for p in P)
        self.size = max(self.x1 - self.x0, self.y1 - self.y0)
        # what the rounding of coordinates to floats can do to a cell's area
        far = max(abs(self.x0), abs(self.x1), abs(self.y0), abs(self.y1))
        self.blur = 4e-16 * float(far) * 4 * float(self.size)
        size = self.size
        if any(not inside(P, s, strict=False) for s in S):
            self.why = "site outside"
            return
        for c in pts_fr(poly):
            if boundary_dist2(P, c) != 0:
                self.why = "not convex"
                return
        # The unclipped diagram inside a frame so large that no vertex of any input is outside
        K = size * 10 ** 30
        cx, cy = (self.x0 + self.x1) / 2, (self.y0 + self.y1) / 2
        frame = [(cx - K, cy - K), (cx + K, cy - K), (cx + K, cy + K), (cx - K, cy + K)]
        self.world = cells(frame, S)
        V = {}
        for i, (poly_i, lab) in enumerate(self.world):
            n = len(poly_i)
            for k in range(n):
                if isinstance(lab[k], tuple) or isinstance(lab[k - 1], tuple):
                    continue        # on the frame
                V.setdefault(poly_i[k], set()).add(i)
        # only true vertices (three sites or more)
        self.vertices = {v: s for v, s in V.items() if len(s) >= 3}
        for v in self.vertices:
            if abs(v[0] - cx) > 10 ** 5 * size or abs(v[1] - cy) > 10 ** 5 * size:
                self.tags.add("vertex-far-away")
            q = boundary_dist2(P, v)
            if q == 0:
                self.tags.add("vertex-on-boundary")
            elif q < size * size / F(10) ** 14:
                self.tags.add("vertex-near-boundary")
        vs = sorted(self.vertices)
        near = size / F(10) ** 7
        # Corners and vertices are the same place to the library within 1e-11 of the size: an edge as short as that which
        # lies half inside this band along the boundary is neither inside nor outside
        lo, hi = size * size / F(10) ** 24, size * size / F(10) ** 18
        band = [v for v in vs if lo < boundary_dist2(P, v) < hi]
        if any(d2(v, w) < hi for v in band for w in vs if w is not v):
            self.why = "below the resolution at the boundary"
            return
        for k in range(len(vs)):
            m = k + 1
            while m < len(vs) and vs[m][0] - vs[k][0] < near:
                if abs(vs[m][1] - vs[k][1]) < near:
                    self.tags.add("vertices-nearly-coincide")
                m += 1
        for c in P:
            d = sorted(d2(c, s) for s in S)
            if len(d) > 1:
                g = d[1] - d[0]
                if g == 0:
                    self.tags.add("edge@corner")
                elif g < size * size / F(10) ** 8:
                    self.tags.add("edge-near-corner")
        if any(len(s) > 3 for s in self.vertices.values()):
            self.tags.add("cocircular")
        if len(set(s[1] for s in S)) < len(S):
            self.tags.add("same-y")
        if any(boundary_dist2(P, s) == 0 for s in S):
            self.tags.add("site-on-boundary")
        for v, s in self.vertices.items():
            if any(S[i][0] == v[0] and S[i][1] < v[1] for i in s):
                self.tags.add("site-below-vertex")
                break
        top = max(s[1] for s in S)
        if sum(1 for s in S if s[1] == top) > 1:
            self.tags.add("top-row")
        self.ok = True

    _cells = None

    def cells(self):
        if self._cells is None:
            self._cells = cells(self.P, self.S)
        return self._cells

    def poly_area(self):
        return area(self.P)

    @property
    def general(self):
        return "cocircular" not in self.tags


def beach(sites, l, prec=40):
    """(not used for verdicts; helper for samples)"""
    return [s for s in sites if s[1] >= l]


def parabola(s, x, l):
    """y of the arc of site s at x for directrix l (Decimal), s above l."""
    return ((x - s[0]) ** 2 + s[1] * s[1] - l * l) / (2 * (s[1] - l))


def breakpoint_x(p, q, l):
    """x of the breakpoint with p on the left and q on the right for directrix l.  Decimals, p and q at or above l."""
    (a, b), (c, d) = p, q
    if b == l and d == l:
        return (a + c) / 2
    if b == l:
        return a
    if d == l:
        return c
    if b == d:
        return (a + c) / 2
    # (x-a)^2/(2(b-l)) + (b+l)/2 = (x-c)^2/(2(d-l)) + (d+l)/2
    u, v = 2 * (b - l), 2 * (d - l)
    A = v - u
    B = -2 * (a * v - c * u)
    C = v * (a * a + b * b - l * l) - u * (c * c + d * d - l * l)
    disc = B * B - 4 * A * C
    if disc < 0:
        disc = Decimal(0)
    r = disc.sqrt()
    # left of the breakpoint p is lower: p - q = (A x^2 + B x + C)/(uv) goes from negative to positive
    return (-B + r) / (2 * A)
