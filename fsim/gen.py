"""Seeded generators of (polygon corners, sites).  Only inputs inside the stated domain are returned."""
import math
from .geom import Domain, hull, inside, fr

KINDS = [("box", 5), ("boxneg", 3), ("offset", 1), ("smallint", 5), ("int", 4), ("hull", 4), ("ngon", 3), ("thin", 1),
         ("tiny", 1), ("huge", 1), ("row", 2), ("rows", 3), ("col", 2), ("onbound", 2), ("circle", 3), ("lattice", 2),
         ("cluster", 1), ("sym", 2), ("float", 2), ("diag", 1), ("arc", 1), ("rot", 3), ("turn", 3), ("edgy", 3),
         ("nudge", 2), ("survey", 2)]


def pick(r, pairs):
    t = sum(w for _, w in pairs)
    x = r.random() * t
    for k, w in pairs:
        x -= w
        if x < 0:
            return k
    return pairs[-1][0]


def shuffled_corners(r, poly):
    """Any listing of the corners: rotated, reversed or shuffled (the polygon orders them itself)."""
    poly = list(poly)
    m = r.random()
    if m < 0.4:
        k = r.randrange(len(poly))
        poly = poly[k:] + poly[:k]
        if r.random() < 0.5:
            poly.reverse()
    elif m < 0.6:
        r.shuffle(poly)
    return poly


def inner(r, poly, nd, box=None):
    H = hull([(fr(x), fr(y)) for x, y in poly])
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    for _ in range(400):
        p = (round(r.uniform(min(xs), max(xs)), nd), round(r.uniform(min(ys), max(ys)), nd))
        if inside(H, (fr(p[0]), fr(p[1]))):
            return p
    return None


def raw(r, kind, n):
    box = [(0, 0), (100, 0), (100, 80), (0, 80)]
    pts = []
    poly = box
    f = None
    if kind == "box":
        f = lambda: (round(r.uniform(.5, 99.5), 3), round(r.uniform(.5, 79.5), 3))
    elif kind == "boxneg":
        dy = r.choice([0, -40, -160])
        poly = [(-50, -40 + dy), (50, -40 + dy), (50, 40 + dy), (-50, 40 + dy)]
        f = lambda: (round(r.uniform(-49.5, 49.5), 2), round(r.uniform(-39.5, 39.5) + dy, 2))
    elif kind == "offset":
        o = r.choice([1000, -3000, 20000])
        q = r.choice([1000, -3000, 20000])
        poly = [(x + o, y + q) for x, y in box]
        f = lambda: (round(r.uniform(.5, 99.5) + o, 2), round(r.uniform(.5, 79.5) + q, 2))
    elif kind == "survey":
        # map coordinates: a small area far away from the origin
        o, q = r.choice([(500000, 4500000), (-73985, 40748), (3500000, 5600000), (-122, 37), (10 ** 7, -10 ** 7)])
        k = r.choice([1000, 100, 10, 1])
        poly = [(o, q), (o + k, q), (o + k, q + k), (o, q + k)]
        if r.random() < .4:
            m = r.randint(3, 8)
            th = r.uniform(0, 6.28)
            poly = [(round(o + k * math.cos(th + 2 * math.pi * i / m), 3), round(q + k * math.sin(th + 2 * math.pi * i / m), 3))
                    for i in range(m)]
        f = lambda: inner(r, poly, 3)
    elif kind == "smallint":
        w, h = r.randint(4, 9), r.randint(4, 9)
        ox, oy = r.choice([0, -3, -20]), r.choice([0, -4, -30])
        poly = [(ox, oy), (ox + w, oy), (ox + w, oy + h), (ox, oy + h)]
        f = lambda: (ox + r.randint(1, w - 1), oy + r.randint(1, h - 1))
    elif kind == "int":
        poly = [(0, 0), (20, 0), (20, 20), (0, 20)]
        f = lambda: (r.randint(1, 19), r.randint(1, 19))
    elif kind == "hull":
        while 1:
            poly = [(int(a), int(b)) for a, b in hull([(r.randint(0, 100), r.randint(0, 100))
                                                       for _ in range(r.randint(3, 8))])]
            if len(poly) >= 3:
                break
        nd = r.choice([0, 1, 3])
        f = lambda: inner(r, poly, nd)
    elif kind == "ngon":
        m = r.randint(3, 12)
        th = r.uniform(0, 6.28)
        poly = [(round(50 * math.cos(th + 2 * math.pi * i / m), 4), round(50 * math.sin(th + 2 * math.pi * i / m), 4))
                for i in range(m)]
        f = lambda: inner(r, poly, 3)
    elif kind == "thin":
        a = r.uniform(0, 6.28)
        ca, sa = math.cos(a), math.sin(a)
        h = r.choice([1, 5])
        q = lambda x, y: (round(x * ca - y * sa, 4), round(x * sa + y * ca, 4))
        poly = [q(0, 0), q(100, 0), q(100, h), q(0, h)]
        f = lambda: q(r.uniform(1, 99), r.uniform(.1, .9) * h)
    elif kind == "tiny":
        k = r.choice([1e-2, 1e-4, 1e-7, 1e-10])
        g = lambda x, y: (float("%.12g" % (x * k)), float("%.12g" % (y * k)))
        poly = [g(*p) for p in box]
        f = lambda: g(round(r.uniform(1, 99), 2), round(r.uniform(1, 79), 2))
    elif kind == "huge":
        k = r.choice([1000, 1000000])
        poly = [(x * k, y * k) for x, y in box]
        f = lambda: (r.randint(1, 99 * k), r.randint(1, 79 * k))
    elif kind == "row":
        y = round(r.uniform(1, 79), 1)
        f = lambda: (round(r.uniform(1, 99), 1), y)
    elif kind == "rows":
        ys = [round(r.uniform(1, 79), 1) for _ in range(r.randint(2, 4))]
        f = lambda: (round(r.uniform(1, 99), 1), r.choice(ys))
    elif kind == "col":
        x = round(r.uniform(1, 99), 1)
        f = lambda: (x, round(r.uniform(1, 79), 1))
    elif kind == "onbound":
        def f():
            t = r.randint(0, 5)
            x, y = round(r.uniform(0, 100), 2), round(r.uniform(0, 80), 2)
            return [(0, y), (100, y), (x, 0), (x, 80), (x, y), r.choice(box)][t]
    elif kind == "circle":
        # integer points on one circle, plus a few others
        poly = [(-31, -29), (33, -29), (33, 37), (-31, 37)]
        R, base = r.choice([(5, [(3, 4), (5, 0)]), (25, [(7, 24), (15, 20), (25, 0)]), (10, [(6, 8), (10, 0)])])
        allp = sorted({(sx * a, sy * b) for x, y in base for a, b in ((x, y), (y, x)) for sx in (1, -1) for sy in (1, -1)})
        cx, cy = r.randint(-3, 3), r.randint(-3, 3)
        r.shuffle(allp)
        k = min(len(allp), max(3, r.randint(n // 2, n)))
        pts = [(cx + x, cy + y) for x, y in allp[:k]]
        f = lambda: (r.randint(-30, 32), r.randint(-28, 36))
    elif kind == "lattice":
        poly = [(0, 0), (97, 0), (97, 83), (0, 83)]
        s = r.choice([5, 7.5, 10])
        m = max(2, int(math.sqrt(n)))
        ox, oy = r.randint(3, 20), r.randint(3, 20)
        sk = r.choice([0, 0, 0.5])
        pts = [(ox + s * i + sk * s * (j % 2), oy + s * j) for i in range(m) for j in range(m)]
        r.shuffle(pts)
        pts = pts[:max(1, n)]
        f = lambda: (round(r.uniform(1, 96), 1), round(r.uniform(1, 82), 1))
    elif kind == "cluster":
        cx, cy = round(r.uniform(10, 90), 2), round(r.uniform(10, 70), 2)
        sp = r.choice([5, .5])
        f = lambda: (round(cx + r.uniform(-sp, sp), 3), round(cy + r.uniform(-sp, sp), 3))
    elif kind == "float":
        # coordinates as they come out of a computation, with all their digits
        k = r.choice([1, 1, 20, 1000])
        poly = [(0, 0), (k, 0), (k, k), (0, k)]
        if r.random() < .5:
            m = r.randint(3, 8)
            th = r.uniform(0, 6.28)
            poly = [(k * math.cos(th + 2 * math.pi * (i + r.uniform(-.3, .3)) / m),
                     k * math.sin(th + 2 * math.pi * (i + r.uniform(-.3, .3)) / m)) for i in range(m)]
        lo, hi = min(min(q) for q in poly), max(max(q) for q in poly)
        H = hull([(fr(x), fr(y)) for x, y in poly])

        def f():
            for _ in range(200):
                q = (r.uniform(lo, hi), r.uniform(lo, hi))
                if inside(H, (fr(q[0]), fr(q[1]))):
                    return q
    elif kind == "diag":
        # all sites on one slanted line: no vertex at all, parallel edges only
        dx, dy = r.choice([(1, 1), (1, -1), (2, 1), (1, -3), (3, 2)])
        cx, cy = r.randint(45, 55), r.randint(35, 45)

        def f():
            t = r.randint(-48, 48) / 4
            return (cx + t * dx, cy + t * dy)
    elif kind == "arc":
        # sites on a parabola: many arcs disappear at nearly the same height
        a = r.choice([.01, .02, .05])
        up = r.choice([1, -1])

        def f():
            x = r.randint(-38, 38)
            return (50 + x, round(40 + up * (a * x * x - 20), 3))
    elif kind == "rot":
        # regular arrangements turned by an angle: with all their digits nothing is exactly regular any more
        a = r.uniform(0, 2 * math.pi)
        ca, sa = math.cos(a), math.sin(a)
        nd = r.choice([17, 17, 17, 12, 9])
        q = lambda x, y: (round(50 + x * ca - y * sa, nd), round(40 + x * sa + y * ca, nd))
        form = r.choice(["grid", "hex", "ring", "line", "line2"])
        s_ = r.choice([5, 8, 10])
        m = max(2, int(math.sqrt(n) + .5))
        if form == "grid":
            pts = [q(s_ * (i - m / 2), s_ * (j - m / 2)) for i in range(m) for j in range(m)]
        elif form == "hex":
            pts = [q(s_ * (i + .5 * (j % 2) - m / 2), s_ * math.sqrt(.75) * (j - m / 2)) for i in range(m) for j in range(m)]
        elif form == "ring":
            k = max(3, r.randint(n // 2, n))
            pts = [q(4 * s_ * math.cos(2 * math.pi * i / k) * .7, 4 * s_ * math.sin(2 * math.pi * i / k) * .7) for i in range(k)]
        elif form == "line":
            pts = [q(r.randint(-36, 36), 0) for _ in range(n)]
        else:
            pts = [q(r.randint(-30, 30), r.choice([-s_, s_])) for _ in range(n)]
        r.shuffle(pts)
        f = lambda: (r.uniform(1, 99), r.uniform(1, 79))
    elif kind == "turn":
        # any other kind as a whole, turned and moved
        other = r.choice(["box", "smallint", "int", "row", "rows", "col", "circle", "lattice", "sym", "diag", "onbound"])
        poly, pts = raw(r, other, n)
        a = r.uniform(0, 2 * math.pi)
        ca, sa = math.cos(a), math.sin(a)
        ox, oy = r.choice([(0, 0), (r.uniform(-9, 9), r.uniform(-9, 9))])
        q = lambda p: (ox + p[0] * ca - p[1] * sa, oy + p[0] * sa + p[1] * ca)
        poly, pts = [q(p) for p in poly], [q(p) for p in pts]
        H = hull([(fr(x), fr(y)) for x, y in poly])
        pts = [p for p in pts if inside(H, (fr(p[0]), fr(p[1])))]
        n = len(pts)
    elif kind == "nudge":
        # a regular arrangement with one coordinate off by almost nothing: vertices a float cannot tell apart
        poly, pts = raw(r, r.choice(["smallint", "circle", "lattice", "sym", "sym", "int"]), n)
        pts = list(pts)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randrange(len(pts))
            x, y = pts[i]
            k = r.randrange(2)
            c = (x, y)[k]
            if c == 0:
                c = r.choice([1, -1]) * 10.0 ** -r.randint(8, 25)
            else:
                c = math.nextafter(c, r.choice([1, -1]) * math.inf, steps=r.choice([1, 1, 2, 10, 10 ** r.randint(2, 8)]))
            pts[i] = (c, y) if k == 0 else (x, c)
        H = hull([(fr(x), fr(y)) for x, y in poly])
        pts = [p for p in pts if inside(H, (fr(p[0]), fr(p[1])))]
        n = len(pts)
    elif kind == "edgy":
        # a vertex, or the edge between two sites, exactly at / next to the polygon's boundary or one of its corners
        m = r.choice([3, 4, 4, 5, 6])
        th = r.choice([r.uniform(0, 6.28), math.pi / 4])
        k = r.choice([1, 10, 10, 1000])
        o = r.choice([0, 0, 0, 7.5, -300]) * k
        poly = [(o + k * math.cos(th + 2 * math.pi * i / m), o + k * math.sin(th + 2 * math.pi * i / m)) for i in range(m)]
        if r.random() < .4:
            poly = [(o, o), (o + k, o), (o + k, o + k), (o, o + k)]
        i = r.randrange(len(poly))
        a, b = poly[i], poly[(i + 1) % len(poly)]
        t = r.choice([0, .5, .25, r.random(), r.random()])
        delta = r.choice([0, 0, 1, -1, -1]) * k * 10 ** -r.uniform(*r.choice([(3, 16), (5, 9)]))
        u = (b[0] - a[0], b[1] - a[1])
        L = math.hypot(*u)
        c = (a[0] + t * u[0] - delta * u[1] / L, a[1] + t * u[1] + delta * u[0] / L)
        R = r.choice([.2, .3, .5, r.uniform(.1, .6)]) * k
        H = hull([(fr(x), fr(y)) for x, y in poly])
        for _ in range(60):
            if len(pts) >= min(n, r.choice([2, 3, 3, 4, 5])):
                break
            g = r.choice([r.uniform(0, 6.28), r.randrange(24) * math.pi / 12])
            p = (c[0] + R * math.cos(g), c[1] + R * math.sin(g))
            if inside(H, (fr(p[0]), fr(p[1]))):
                pts.append(p)
        lo, hi = min(min(q) for q in poly), max(max(q) for q in poly)

        def f():
            for _ in range(200):
                q = (r.uniform(lo, hi), r.uniform(lo, hi))
                if math.hypot(q[0] - c[0], q[1] - c[1]) > R * r.choice([1, .7]) and inside(H, (fr(q[0]), fr(q[1]))):
                    return q
    elif kind == "sym":
        poly = [(-10, -10), (10, -10), (10, 10), (-10, 10)]
        for _ in range(max(1, n // 4)):
            a, b = r.randint(0, 9), r.randint(0, 9)
            pts += [(a, b), (-b, a), (-a, -b), (b, -a)]
        pts = list(dict.fromkeys(pts))[:n]
        r.shuffle(pts)
        f = lambda: (r.randint(-9, 9), r.randint(-9, 9))
    for _ in range(20 * n):
        if len(pts) >= n:
            break
        p = f()
        if p is None:
            break
        if p not in pts:
            pts.append(p)
    pts = pts[:n]
    return poly, pts


def draw(r, n=None, kinds=None, tries=60, want=None):
    """One in-domain input -> (poly, pts, Domain, kind)."""
    for _ in range(tries):
        kind = pick(r, kinds or KINDS)
        m = n if n is not None else size(r)
        poly, pts = raw(r, kind, m)
        seen, out = set(), []
        for p in pts:
            k = (fr(p[0]), fr(p[1]))
            if k not in seen:
                seen.add(k)
                out.append(p)
        r.shuffle(out)
        if not out:
            continue
        if r.random() < 0.06:
            # a redundant corner in the middle of a side
            i = r.randrange(len(poly))
            a, b = poly[i], poly[(i + 1) % len(poly)]
            m_ = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            if m_ not in poly:
                poly = list(poly)
                poly.insert(i + 1, m_)
        poly = shuffled_corners(r, poly)
        d = Domain(poly, out)
        if d.ok and (want is None or want(d)):
            return [list(p) for p in poly], [list(p) for p in out], d, kind
    raise RuntimeError("no in-domain input found")


def size(r):
    x = r.random()
    if x < 0.1:
        return r.randint(1, 2)
    if x < 0.6:
        return r.randint(3, 7)
    if x < 0.92:
        return r.randint(8, 14)
    return r.randint(15, 28)
