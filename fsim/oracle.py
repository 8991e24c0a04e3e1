"""Oracles: what a finished (or growing) diagram must look like.  Only the public, documented surface is read."""
import collections
from decimal import Decimal, localcontext
from fractions import Fraction as F

from . import geom


class Broken(Exception):
    """The diagram cannot even be walked."""


def frv(v):
    return F(v)         # Decimal -> exact


def xyd(c):
    return (c.xd, c.yd)


def loop(site, limit=20000):
    e = site.first_edge
    if e is None:
        raise Broken("site %r has no first edge" % (site,))
    out = [e]
    first = e
    while True:
        e = e.next
        if e is None:
            raise Broken("the border of site %r is open" % (site,))
        if e is first:
            return out
        out.append(e)
        if len(out) > limit:
            raise Broken("the border of site %r never returns to its first edge" % (site,))


def dec(v):
    return None if v is None else str(v)


def canon(V):
    """Identity-free, order-preserving form of a finished diagram (exact decimals as text)."""
    sites = list(V.sites)
    idx = {id(s): i for i, s in enumerate(sites)}

    def sidx(p):
        return -1 if p is None else idx.get(id(p), -2)

    cells = []
    for s in sites:
        b = loop(s)
        cells.append([dec(s.xd), dec(s.yd), str(s.name),
                      [[dec(h.origin.xd), dec(h.origin.yd), sidx(h.incident_point), sidx(h.twin.incident_point)]
                       for h in b]])
    edges = [[dec(e.origin.xd), dec(e.origin.yd), dec(e.twin.origin.xd), dec(e.twin.origin.yd),
              sidx(e.incident_point), sidx(e.twin.incident_point)] for e in V.edges]
    verts = sorted([dec(v.xd), dec(v.yd), len(v.connected_edges)] for v in V.vertices)
    areas = [repr(float(s.area())) for s in sites]
    return {"cells": cells, "edges": edges, "vertices": verts, "areas": areas, "sweep": left_over(V, sidx)}


def left_over(V, sidx):
    """What a caller still finds of the sweep when it is over: arcs, sweep line, last event, beach line."""
    ev = V.event
    leaves, todo = [], [V.status_tree]
    while todo:
        n = todo.pop()
        if n is None:
            continue
        if n.is_leaf():
            leaves.append(sidx(n.data.origin))
        todo += [n.right, n.left]
    return [["arcs"] + sorted(sidx(a.origin) for a in V.arcs), ["beach line"] + leaves,
            ["sweep line", dec(V.sweep_line)],
            ["event", type(ev).__name__] + ([dec(ev.xd)] if ev is not None else [])]


def diff(a, b):
    """First difference between two canonical forms, as text."""
    if a is None or b is None:
        return "missing"
    for k in ("cells", "areas", "edges", "vertices", "sweep"):
        x, y = a[k], b[k]
        if x == y:
            continue
        if len(x) != len(y):
            return "%s: %d against %d" % (k, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return "%s[%d]: %s against %s" % (k, i, str(p)[:160], str(q)[:160])
    return None


# ------------------------------------------------------------------------------------------ partition (C01)

def far_off(dom):
    """What the rounding of coordinates to floats can move a point that lies far from the origin."""
    return 1e-15 * max(abs(float(x)) for x in (dom.x0, dom.x1, dom.y0, dom.y1))


def check_partition(V, dom, out, tol=1e-8):
    """Cells = nearest-site regions, exactly computed."""
    S = list(V.sites)
    if len(S) != len(dom.S):
        out("partition", "%d sites given, the diagram has %d" % (len(dom.S), len(S)))
        return
    for i, s in enumerate(S):
        if (frv(s.xd), frv(s.yd)) != dom.S[i]:
            out("partition", "site %d is at (%s, %s) instead of %s" % (i, s.xd, s.yd, dom.S[i]))
            return
    size = float(dom.size)
    total = float(dom.poly_area())
    ref = dom.cells()
    t2 = (tol * size + far_off(dom)) ** 2
    tot = 0.0
    for i, s in enumerate(S):
        try:
            b = loop(s)
        except Broken as e:
            out("partition", str(e))
            return
        corners, labels = ref[i]
        a_ref = float(geom.area(corners))
        a = float(s.area())
        tot += a
        if not abs(a - a_ref) <= 4e-6 * size * size:
            out("partition", "area of the cell of site %d is %r, it must be %r" % (i, a, a_ref))
            return
        if abs(a - a_ref) > 1e-9 * total + 1e-6 * a_ref + dom.blur:
            out("partition", "area of the cell of site %d is %r, it must be %r" % (i, a, a_ref))
            return
        fc = [(float(x), float(y)) for x, y in corners]
        got = [(v.x, v.y) for v in s.vertices()]
        if len(got) != len(b):
            out("partition", "site %d has %d borders but %d vertices" % (i, len(b), len(got)))
            return
        for g in got:
            if not min(geom.seg_dist2(g, fc[k], fc[(k + 1) % len(fc)]) for k in range(len(fc))) <= t2:
                out("partition", "vertex %s of site %d is not on the border of its nearest-site region" % (g, i))
                return
        for c in fc:
            if not min(geom.d2(c, g) for g in got) <= t2:
                out("partition", "corner %s of the region of site %d is missing" % (c, i))
                return
        # relative to one of them: products of large coordinates are not precise
        rel = [(x - got[0][0], y - got[0][1]) for x, y in got]
        sa = sum(rel[k][0] * rel[(k + 1) % len(rel)][1] - rel[(k + 1) % len(rel)][0] * rel[k][1]
                 for k in range(len(rel)))
        aa = abs(sa) / 2
        if abs(aa - a) > 1e-9 * total + dom.blur:
            out("partition", "area() of site %d does not match its vertices" % i)
            return
        for digits in (2, (0, 1, 3, -1)[i % 4]):
            r = float(s.area(digits))
            unit = 10.0 ** -digits
            if abs(r - a) > .501 * unit + 1e-9 * a or abs(r / unit - round(r / unit)) > 1e-6 + 1e-12 * abs(r / unit):
                out("partition", "area(%d) of site %d is %r for an area of %r" % (digits, i, r, a))
                return
    if not abs(tot - total) <= 1e-6 * total:
        out("partition", "the cells cover %r of the polygon's %r" % (tot, total))


# ------------------------------------------------------------------------------------------ half-edge structure (C02)

def check_dcel(V, dom, out, polygon_corners=None, tol=1e-8):
    S = list(V.sites)
    sid = {id(s): i for i, s in enumerate(S)}
    edges = list(V.edges)
    verts = list(V.vertices)
    vid = collections.Counter(id(v) for v in verts)
    if any(n > 1 for n in vid.values()):
        return out("dcel", "a vertex is listed twice")
    seen = {}
    for e in edges:
        if e.twin is None:
            return out("dcel", "an edge has no twin")
        for h in (e, e.twin):
            if id(h) in seen:
                return out("dcel", "edge %s is listed twice" % h)
            seen[id(h)] = h
    half = list(seen.values())
    size = float(dom.size)
    tol += far_off(dom) / size
    for h in half:
        if h.twin is None or h.twin.twin is not h or h.twin is h:
            return out("dcel", "the twin of the twin of %s is another edge" % h)
        if id(h.origin) not in vid:
            return out("dcel", "the origin of %s is not among the vertices" % h)
        if h.target is not h.twin.origin:
            return out("dcel", "the target of %s is not the origin of its twin" % h)
        if sum(1 for x in h.origin.connected_edges if x is h) != 1:
            return out("dcel", "%s is not exactly once among the connected edges of its origin" % h)
        p = h.incident_point
        if p is not None:
            if id(p) not in sid:
                return out("dcel", "%s borders a site that is not in the diagram" % h)
            if h.next is None or h.prev is None:
                return out("dcel", "%s has no %s edge" % (h, "next" if h.next is None else "previous"))
            if h.next.prev is not h or h.prev.next is not h:
                return out("dcel", "next and previous of %s disagree" % h)
            if h.next.incident_point is not p:
                return out("dcel", "the edge after %s borders another site" % h)
            if h.next.origin is not h.twin.origin:
                return out("dcel", "the edge after %s does not start where it ends" % h)
            if id(h.next) not in seen:
                return out("dcel", "the edge after %s is not among the edges" % h)
    for e in edges:
        a, b = e.incident_point, e.twin.incident_point
        if a is None and b is None:
            return out("dcel", "an edge borders no site at all")
        if a is b:
            return out("dcel", "edge %s has the same site on both sides" % e)
        x0, y0, x1, y1 = e.origin.x, e.origin.y, e.twin.origin.x, e.twin.origin.y
        mid = ((x0 + x1) / 2, (y0 + y1) / 2)
        if a is not None and b is not None:
            for q in ((x0, y0), (x1, y1)):
                da = ((q[0] - a.x) ** 2 + (q[1] - a.y) ** 2) ** .5
                db = ((q[0] - b.x) ** 2 + (q[1] - b.y) ** 2) ** .5
                if abs(da - db) > tol * size:
                    return out("dcel", "edge %s does not run between its two sites" % e)
        else:
            P = [(float(x), float(y)) for x, y in dom.P]
            on = [k for k in range(len(P)) if
                  geom.seg_dist2((x0, y0), P[k], P[(k + 1) % len(P)]) <= (tol * size) ** 2 and
                  geom.seg_dist2((x1, y1), P[k], P[(k + 1) % len(P)]) <= (tol * size) ** 2]
            if not on:
                return out("dcel", "edge %s has one site but does not run along the polygon" % e)
        for s in (a, b):
            if s is None:
                continue
            ds = ((mid[0] - s.x) ** 2 + (mid[1] - s.y) ** 2) ** .5
            dm = min(((mid[0] - t.x) ** 2 + (mid[1] - t.y) ** 2) ** .5 for t in S)
            if ds > dm + tol * size:
                return out("dcel", "edge %s borders %s, but another site is nearer" % (e, s))
    for v in verts:
        if not v.connected_edges:
            return out("dcel", "vertex %s has no edges" % v)
        for h in v.connected_edges:
            if h.origin is not v:
                return out("dcel", "a connected edge of %s starts elsewhere" % v)
            if id(h) not in seen:
                return out("dcel", "a connected edge of %s is not among the edges" % v)
    used = collections.Counter()
    sign = None
    for i, s in enumerate(S):
        try:
            b = loop(s)
        except Broken as e:
            return out("dcel", str(e))
        for h in b:
            used[id(h)] += 1
            if h.incident_point is not s:
                return out("dcel", "the border of %s has an edge of another site" % s)
        lb = s.borders()
        if [id(h) for h in lb] != [id(h) for h in b]:
            return out("dcel", "borders() of %s is not its closed walk" % s)
        if [id(v) for v in s.vertices()] != [id(h.origin) for h in b]:
            return out("dcel", "vertices() of %s are not the origins of its borders" % s)
        n = len(b)
        sa = sum(b[k].origin.x * b[(k + 1) % n].origin.y - b[(k + 1) % n].origin.x * b[k].origin.y for k in range(n))
        if abs(sa) > 1e-9 * size * size:
            if sign is None:
                sign = sa > 0
            elif sign != (sa > 0):
                return out("dcel", "cells are walked in different directions")
    n_half = sum(1 for h in half if h.incident_point is not None)
    if any(c != 1 for c in used.values()) or len(used) != n_half:
        return out("dcel", "a half edge lies on no cell's border, or on two")
    if len(verts) - len(edges) + len(S) != 1:
        return out("dcel", "Euler's formula fails: %d vertices, %d edges, %d cells" % (len(verts), len(edges), len(S)))
    # every polygon corner is a vertex
    vx = [(v.x, v.y) for v in verts]
    for c in (polygon_corners or [(float(x), float(y)) for x, y in dom.P]):
        if min(geom.d2(c, q) for q in vx) > (tol * size) ** 2:
            return out("dcel", "corner %s of the polygon is not a vertex" % (c,))
    # neighbours: two cells share an edge exactly when their regions share a side
    ref = dom.cells()
    want = set()
    small = set()
    for i, (corners, labels) in enumerate(ref):
        for k, l in enumerate(labels):
            if not isinstance(l, tuple):
                L2 = float(geom.d2(corners[k], corners[(k + 1) % len(corners)]))
                (want if L2 > (100 * tol * size) ** 2 else small).add((min(i, l), max(i, l)))
    got = collections.Counter()
    for e in edges:
        a, b = e.incident_point, e.twin.incident_point
        if a is not None and b is not None:
            i, j = sid[id(a)], sid[id(b)]
            if geom.d2((e.origin.x, e.origin.y), (e.twin.origin.x, e.twin.origin.y)) > (10 * tol * size) ** 2:
                got[(min(i, j), max(i, j))] += 1
    if want - set(got):
        return out("dcel", "cells %s share a side but no edge" % sorted(want - set(got))[:3])
    if set(got) - want - small:
        return out("dcel", "cells %s share an edge but no side" % sorted(set(got) - want - small)[:3])
    if any(n > 1 for p, n in got.items() if p in want and p not in small) and V.remove_zero_length_edges:
        return out("dcel", "two cells share two edges")


# ------------------------------------------------------------------------------------------ growing diagram (C05)

def D(v):
    return v if isinstance(v, Decimal) else Decimal(str(v))


def leaves(root, limit=100000):
    """In-order leaves with depth, checking that children point back to their parents."""
    out = []
    st = [(root, 0)]
    if root.parent is not None:
        raise Broken("the root of the status tree has a parent")
    n = 0
    while st:
        node, d = st.pop()
        n += 1
        if n > limit:
            raise Broken("the status tree is not a tree")
        if node.left is None and node.right is None:
            out.append((node, d))
            continue
        if node.left is None or node.right is None:
            raise Broken("an inner node has one child")
        for c in (node.right, node.left):
            if c.parent is not node:
                raise Broken("a child does not point back to its parent")
            st.append((c, d + 1))
    return out


def inner_ok(root):
    """Every inner node names the sites left and right of its breakpoint."""
    bad = []

    def rec(node):
        if node.left is None and node.right is None:
            o = node.data.origin
            return o, o
        st = rec(node.left)
        en = rec(node.right)
        bp = node.data.breakpoint
        if bp[0] is not st[1] or bp[1] is not en[0]:
            bad.append("breakpoint %s lies between arcs of %s and %s" % (bp, st[1], en[0]))
        return st[0], en[1]
    rec(root)
    return bad


def heights_ok(root):
    """Stored heights and balances against the tree itself."""
    todo, order = [root], []
    while todo:
        n = todo.pop()
        order.append(n)
        todo += [c for c in (n.left, n.right) if c is not None]
    h = {id(None): 0}
    for n in reversed(order):
        a, b = h[id(n.left)], h[id(n.right)]
        h[id(n)] = 1 + max(a, b)
        if getattr(n, "height", h[id(n)]) != h[id(n)]:
            return "a node of height %d says its height is %s" % (h[id(n)], n.height)
        if getattr(n, "balance", a - b) != a - b:
            return "a node with subtrees of height %d and %d says its balance is %s" % (a, b, n.balance)
    return None


def check_beach(V, size, out, handled, ties):
    """The status tree is the lower envelope of the parabolas of the sites handled so far."""
    with localcontext() as ctx:
        ctx.prec = 60
        l = D(V.sweep_line)
        try:
            lv = leaves(V.status_tree)
        except Broken as e:
            return out("beach", str(e))
        except RecursionError:
            return out("beach", "the status tree is too deep")
        b = inner_ok(V.status_tree)
        if b:
            return out("beach", b[0])
        b = heights_ok(V.status_tree)
        if b:
            return out("heights", b)
        L = len(lv)
        depth = max(d for _, d in lv)
        import math
        if depth > 2.5 * math.log2(L + 1) + 3:
            return out("depth", "status tree of %d leaves is %d deep" % (L, depth))
        for node, _ in lv:
            if not any(node.data.origin is s for s in handled):
                return out("beach", "the beach line has an arc of a site that was not handled yet")
        orig = [(n.data.origin.xd, n.data.origin.yd) for n, _ in lv]
        for i in range(L - 1):
            if orig[i] == orig[i + 1]:
                return out("beach", "two neighbouring arcs of the same site %s" % (orig[i],))
        sz = D(str(float(size)))
        tol = sz * D("1e-9")
        xs = [geom.breakpoint_x(orig[i], orig[i + 1], l) for i in range(L - 1)]
        for i in range(L - 2):
            if xs[i] > xs[i + 1] + tol:
                return out("beach", "the breakpoints of the beach line are out of order at %s" % (orig[i + 1],))
        above = [(s.xd, s.yd) for s in handled if s.yd > l]
        if above:
            ends = [xs[0] - sz if xs else orig[0][0]] + xs + [xs[-1] + sz if xs else orig[0][0]]
            for i in range(L):
                x0, x1 = ends[i], ends[i + 1]
                if i == 0 and xs:
                    x = xs[0] - sz
                elif i == L - 1 and xs:
                    x = xs[-1] + sz
                else:
                    if xs and x1 - x0 <= tol:
                        continue
                    x = (x0 + x1) / 2
                if orig[i][1] == l:
                    # (a circle event that is much larger than the polygon is handled a rounding error too early)
                    if xs and 0 < i < L - 1 and x1 - x0 > tol and not any(
                            abs(v.xd - orig[i][0]) + abs(v.yd - orig[i][1]) > 10 ** 5 * sz for v in V.vertices):
                        out("beach", "an arc of zero width is wide")
                    continue
                y = geom.parabola(orig[i], x, l)
                best = min(geom.parabola(s, x, l) for s in above)
                if y - best > tol * 10 and y - best > abs(y) * D("1e-12"):
                    return out("beach", "at x=%.4f the beach line has the arc of %s, another arc is lower by %.3g" % (
                        x, orig[i], y - best))
    return L, depth


def true_vertex(v, sites, size, tol=1e-7):
    """Distances from v to all sites: (indices of the nearest within tolerance)."""
    with localcontext() as ctx:
        ctx.prec = 50
        ds = [((v[0] - s[0]) ** 2 + (v[1] - s[1]) ** 2).sqrt() for s in sites]
    m = min(ds)
    t = D(str(size * tol)) + m * D("1e-12")
    return [i for i, d in enumerate(ds) if d - m <= t]
