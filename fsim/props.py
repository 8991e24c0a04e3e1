"""The properties: for each a scenario generator and an executor with its oracles."""
import collections
import contextlib
import decimal
import io
import json
import random
import sys

from . import gen, geom, oracle
from .common import (EXCS, Baselines, add_obs, add_poly, add_vor, all_builds, domain, environment, forked, in_domain,
                     new_sc, pristine, random_fault, random_slices, sites_in)
from .sim import Sim, read_all, walk_ok, EXC

PROPS = {}


def prop(pid):
    def deco(cls):
        cls.id = pid
        PROPS[pid] = cls()
        return cls
    return deco


class Checked(Sim):
    """A Sim that applies an oracle to every diagram when it is finished and to the surviving ones at the end."""

    def __init__(self, sc, check, **kw):
        super().__init__(sc, **kw)
        self.check = check
        self.finished = {}

    def build(self, t, vid, points, opts):
        res = super().build(t, vid, points, opts)
        if res["exc"] is None:
            t.hold += 1
            try:
                self.apply(vid, points, "")
            finally:
                t.hold -= 1
            self.finished[vid] = points
        else:
            self.finished.pop(vid, None)
        return res

    def apply(self, vid, points, when):
        dom = domain(self.sc["polys"][self.sc["vors"][vid]["poly"]]["pts"], points)
        try:
            self.check(self, self.vors[vid], dom,
                       lambda code, d: self.bad(code, "%s%s: %s" % (vid, when, d)))
        except oracle.Broken as e:
            self.bad("broken-diagram", "%s%s: %s" % (vid, when, e))
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.bad("oracle-exception", "%s%s: reading the diagram raises %s: %s (%s:%d)" % (
                vid, when, type(e).__name__, e, tb.filename.rsplit("/", 1)[-1], tb.lineno))
        self.count("diagrams_checked")

    def end(self):
        last = {}
        for res in self.results:
            last[res["vid"]] = res
        if len(self.results) > 1:
            for vid, points in self.finished.items():
                if last[vid]["exc"] is None:
                    self.apply(vid, points, " (at the end)")
        return self


class Base:
    base_cost = 1.0
    known = ()

    def sample(self, sc):
        return sc

    def key(self, sc, s):
        """What makes a run distinct."""
        return None


# ============================================================================================ C01 .. C03

class DiagramProp(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        n = None
        if r.random() < (.03 if ctx.tier == "quick" else .06):
            n = r.randint(25, 45)
        poly, pts, d, kind = gen.draw(r, n=n)
        sc["kind"] = kind
        pid = add_poly(sc, poly, r=r)
        vid = add_vor(sc, pid, self.rz(r))
        return environment(r, sc, ctx, vid, pts, poly)

    def rz(self, r):
        return r.random() < .75

    def run(self, sc, **kw):
        return Checked(sc, lambda s, V, dom, out: self.oracle(V, dom, out), **kw).run().end()


@prop("C01")
class C01(DiagramProp):
    def oracle(self, V, dom, out):
        oracle.check_partition(V, dom, out)


@prop("C02")
class C02(DiagramProp):
    def oracle(self, V, dom, out):
        oracle.check_dcel(V, dom, out)


@prop("C03")
class C03(DiagramProp):
    KINDS = [("smallint", 5), ("int", 2), ("circle", 6), ("lattice", 5), ("sym", 6), ("rows", 2), ("box", 1),
             ("onbound", 1), ("hull", 1), ("nudge", 3), ("rot", 2), ("turn", 2), ("edgy", 1)]

    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        poly, pts, d, kind = gen.draw(r, kinds=self.KINDS)
        sc["kind"] = kind
        pid = add_poly(sc, poly, r=r)
        on = add_vor(sc, pid, True)
        same = r.random() < .5
        off = add_vor(sc, pid if same else add_poly(sc, poly), False)
        environment(r, sc, ctx, on, pts, poly)
        extra = ["build", off, pts, {}]
        prog = sc["programs"][0]
        if not same and r.random() < .4:
            sc["programs"].append([extra])
            sc["sched"] = random_slices(r, len(sc["programs"]), r.randint(3, 30), 12)
        else:
            prog.insert(r.choice([0, len(prog)]), extra)
        return sc

    def run(self, sc, **kw):
        s = Checked(sc, self.one, **kw)
        s.run().end()
        by = collections.defaultdict(dict)
        for vid, points in s.finished.items():
            v = sc["vors"][vid]
            by[json.dumps([sc["polys"][v["poly"]]["pts"], points])][v["rz"]] = vid
        for k, pair in by.items():
            if True in pair and False in pair:
                try:
                    self.compare(s, s.vors[pair[True]], s.vors[pair[False]])
                except oracle.Broken as e:
                    s.bad("broken-diagram", str(e))
                s.count("pairs")
        return s

    def one(self, s, V, dom, out):
        if not V.remove_zero_length_edges:
            return
        zero = 0
        for e in V.edges:
            a, b = e.origin, e.twin.origin
            if a is b or (a.xd == b.xd and a.yd == b.yd):
                return out("zero-length", "edge %s has no length" % e)
        seen = {}
        for v in V.vertices:
            k = (v.xd, v.yd)
            if k in seen:
                return out("zero-length", "two vertices at %s" % (k,))
            seen[k] = v
            if not v.connected_edges:
                return out("zero-length", "vertex %s lost its edges" % v)
            for h in v.connected_edges:
                if h.origin is not v:
                    return out("zero-length", "a connected edge of %s starts elsewhere" % v)
        listed = {id(h) for e in V.edges for h in (e, e.twin)}
        vids = {id(v) for v in V.vertices}
        for site in V.sites:
            for h in oracle.loop(site):
                if id(h) not in listed or id(h.twin) not in listed:
                    return out("zero-length", "the border of %s still has a removed edge" % site)
                if id(h.origin) not in vids:
                    return out("zero-length", "the border of %s still has a removed vertex" % site)
        # degree: an edge removed must leave the other edges of both its ends connected
        for e in V.edges:
            for h in (e, e.twin):
                if sum(1 for x in h.origin.connected_edges if x is h) != 1:
                    return out("zero-length", "edge %s is lost at its vertex" % h)
        for i, site in enumerate(V.sites):
            corners, _ = dom.cells()[i]
            a = float(geom.area(corners))
            if abs(float(site.area()) - a) > 1e-6 * a + 1e-9 * float(dom.poly_area()) + dom.blur:
                return out("zero-length", "cell %d is damaged: area %r instead of %r" % (i, site.area(), a))

    def compare(self, s, A, B):
        """A: removal on; B: off."""
        pa = sorted((v.xd, v.yd) for v in A.vertices)
        pb = sorted(set((v.xd, v.yd) for v in B.vertices))
        if pa != pb:
            s.bad("on-off", "vertices differ: %s" % str(set(pa) ^ set(pb))[:200])
        idA = {id(x): i for i, x in enumerate(A.sites)}
        idB = {id(x): i for i, x in enumerate(B.sites)}

        def bag(V, ix):
            c = collections.Counter()
            for e in V.edges:
                for h in (e, e.twin):
                    a, b = h.origin, h.twin.origin
                    if (a.xd, a.yd) != (b.xd, b.yd):
                        c[(a.xd, a.yd, b.xd, b.yd, ix.get(id(h.incident_point), -1))] += 1
            return c
        ba, bb = bag(A, idA), bag(B, idB)
        if ba != bb:
            s.bad("on-off", "edges with length differ: %s" % str(list(((ba - bb) + (bb - ba)).items())[:2]))
        for i, (x, y) in enumerate(zip(A.sites, B.sites)):
            la = [(h.origin.xd, h.origin.yd) for h in oracle.loop(x)
                  if (h.origin.xd, h.origin.yd) != (h.twin.origin.xd, h.twin.origin.yd)]
            lb = [(h.origin.xd, h.origin.yd) for h in oracle.loop(y)
                  if (h.origin.xd, h.origin.yd) != (h.twin.origin.xd, h.twin.origin.yd)]
            k = len(la)
            if k != len(lb) or not any(la == lb[j:] + lb[:j] for j in range(k)):
                s.bad("on-off", "the border of cell %d differs: %s against %s" % (i, la[:6], lb[:6]))
                break
        zero = sum(1 for e in B.edges if (e.origin.xd, e.origin.yd) == (e.twin.origin.xd, e.twin.origin.yd))
        if zero:
            s.count("zero_length_edges", zero)
        if len(A.edges) + zero != len(B.edges):
            s.bad("on-off", "%d edges on, %d off, of which %d without length" % (len(A.edges), len(B.edges), zero))


# ============================================================================================ C04

def event_info(V):
    from foronoi.events.circle_event import CircleEvent
    from foronoi.events.site_event import SiteEvent
    e = V.event
    if isinstance(e, CircleEvent):
        ids = {id(p): i for i, p in enumerate(V.sites)}
        return ("circle", e.center.xd, e.center.yd, e.yd, e.radius,
                tuple(ids.get(id(p), -1) for p in (e.point_triple or ())))
    if isinstance(e, SiteEvent):
        i = next((i for i, p in enumerate(V.sites) if p is e.point), -1)
        return ("site", i, e.yd, e.xd, e.point.name, e.yd)
    return ("?", type(e).__name__, None, None, None, None)


def probe_sweep(sim, t, o, V, short):
    tr = sim.user.setdefault("trace", {}).setdefault(sim.name_of(V), [])
    if short == "STEP":
        tr.append(("STEP", event_info(V), V.sweep_line, len(V.vertices), list(V.sites)))
    elif short == "DEBUG":
        tr.append(("DEBUG",))
    elif short == "SWEEP":
        tr.append(("SWEEP", V.event_queue.empty()))
    elif short == "DONE":
        t.hold += 1
        try:
            c = oracle.canon(V)
        except oracle.Broken as e:
            c = str(e)
        t.hold -= 1
        tr.append(("DONE", c))


class SweepSim(Checked):
    def build(self, t, vid, points, opts):
        self.user.setdefault("trace", {})[vid] = []
        return super().build(t, vid, points, opts)


@prop("C04")
class C04(Base):
    KINDS = gen.KINDS + [("rot", 5), ("turn", 3), ("lattice", 2), ("circle", 2)]

    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        x = r.random()
        if x < (.02 if ctx.tier == "quick" else .04):
            # a long sweep: bounded completion at a size no unit test reaches
            kind = r.choice(["row", "rows", "box", "col", "lattice"])
            poly = [[0, 0], [1000, 0], [1000, 800], [0, 800]]
            n = r.randint(60, 160 if ctx.tier == "quick" else 400)
            pts, seen = [], set()
            ys = [r.randint(1, 799) for _ in range(3)]
            xc = r.randint(1, 999)
            while len(pts) < n:
                if kind == "row":
                    p = (round(r.uniform(1, 999), 1), ys[0])
                elif kind == "rows":
                    p = (round(r.uniform(1, 999), 1), r.choice(ys))
                elif kind == "col":
                    p = (xc, round(r.uniform(1, 799), 1))
                else:
                    p = (round(r.uniform(1, 999), 2), round(r.uniform(1, 799), 2))
                if p not in seen:
                    seen.add(p)
                    pts.append(list(p))
            sc["kind"] = "long-" + kind
            sc["long"] = True
            vid = add_vor(sc, add_poly(sc, poly), True)
            o = add_obs(sc, acts=[{"on": "any", "do": "probe", "name": "sweep"}])
            sc["programs"] = [[["attach", vid, o], ["build", vid, pts, {}]]]
            return sc
        poly, pts, d, kind = gen.draw(r, kinds=self.KINDS)
        sc["kind"] = kind
        vid = add_vor(sc, add_poly(sc, poly, r=r), r.random() < .8)
        environment(r, sc, ctx, vid, pts, poly)
        o = add_obs(sc, acts=[{"on": "any", "do": "probe", "name": "sweep"}])
        for w in list(sc["vors"]):
            tn = next(i for i, p in enumerate(sc["programs"])
                      if any(op[0] == "build" and op[1] == w for op in p) or i == 0)
            for i, p in enumerate(sc["programs"]):
                if any(op[0] == "build" and op[1] == w for op in p):
                    tn = i
            sc["programs"][tn].insert(0, ["attach", w, o])
        return sc

    def domain_ok(self, sc):
        return True if sc.get("long") else in_domain(sc)

    def run(self, sc, **kw):
        s = SweepSim(sc, self.oracle, probes={"sweep": probe_sweep}, **kw)
        return s.run()

    def oracle(self, s, V, dom, out):
        vid = s.name_of(V)
        tr = s.user["trace"].get(vid, [])
        kinds = [x[0] for x in tr]
        if not tr:
            watched = any(op[0] == "attach" and op[1] == vid for p in s.sc["programs"] for op in p)
            return out("messages", "a build without any message") if watched else None
        if kinds.count("SWEEP") != 1 or kinds.count("DONE") != 1 or kinds[-1] != "DONE":
            return out("messages", "SWEEP_FINISHED x%d, VORONOI_FINISHED x%d, last message %s" % (
                kinds.count("SWEEP"), kinds.count("DONE"), kinds[-1]))
        sw = kinds.index("SWEEP")
        if "STEP" in kinds[sw:]:
            return out("messages", "STEP_FINISHED after SWEEP_FINISHED")
        if not tr[sw][1]:
            return out("messages", "SWEEP_FINISHED while events are pending")
        steps = [x for x in tr if x[0] == "STEP"]
        S = [(D_(p.xd), D_(p.yd)) for p in V.sites]
        n = len(S)
        order = sorted(range(n), key=lambda i: (-S[i][1], S[i][0]))
        got = [x[1][1] for x in steps if x[1][0] == "site"]
        if got != order:
            return out("site-order", "sites were handled as %s, top-down order is %s" % (got[:20], order[:20]))
        for k, i in enumerate(order):
            if str(V.sites[i].name) != str(k):
                return out("site-order", "site %d is named %r, it is number %d of the sweep" % (i, V.sites[i].name, k))
        last = None
        nv = 0
        size = float(dom.size) if hasattr(dom, "size") else 1000.0
        coord = max([size] + [abs(float(c)) for p in S for c in p])
        for x in steps:
            info, sl = x[1], x[2]
            if info[0] == "?":
                return out("sweep", "unknown event %s" % (info[1],))
            y = info[2] if info[0] == "site" else info[3]
            if sl != y:
                return out("sweep", "the sweep line is at %s, the event at %s" % (sl, y))
            # A circle event far below is only as precise as 28 digits make the circle of nearly collinear sites
            R = abs(float(sl)) + size
            noise = R * min(1.0, 1e-15 + 1e-24 * (coord / size) ** 2 * (R / size if R > 1e5 * size else 0))
            if last is not None and sl > last and float(sl - last) > noise:
                return out("sweep", "the sweep line went back up from %s to %s" % (last, sl))
            last = sl
            if x[3] < nv:
                return out("sweep", "vertices disappeared during the sweep")
            nv = x[3]
        circ = [x[1] for x in steps if x[1][0] == "circle"]
        if len(circ) > max(0, 2 * n - 5):
            return out("steps", "%d circle events for %d sites" % (len(circ), n))
        tol = size * 1e-7
        for c in circ:
            if len(set(c[5])) != 3 or -1 in c[5]:
                return out("circle", "a circle event of %d sites" % len(set(c[5])))
            near = oracle.true_vertex((c[1], c[2]), [(p.xd, p.yd) for p in V.sites], size)
            if not set(c[5]) <= set(near):
                return out("circle", "circle event at (%s, %s): its sites are %s, the nearest sites are %s" % (
                    c[1], c[2], c[5], near))
        if dom.ok and not s.sc.get("long"):
            hits = collections.Counter()
            # vertices that a float cannot tell apart are counted together
            fl = []
            for v, k in sorted(dom.vertices.items()):
                p = (float(v[0]), float(v[1]))
                t2 = (1e-6 * max(size, abs(p[0]), abs(p[1]))) ** 2
                mine = [g for g in fl if any(geom.d2(q, p) <= t2 for q in g[0])]
                fl = [g for g in fl if g not in mine]
                fl.append(([p] + [q for g in mine for q in g[0]], set(k).union(*(g[1] for g in mine)),
                           len(k) - 2 + sum(g[2] for g in mine)))
            for c in circ:
                p = (float(c[1]), float(c[2]))
                t2 = (1e-6 * max(size, abs(p[0]), abs(p[1]))) ** 2
                d, best = min(((geom.d2(q, p), j) for j, g in enumerate(fl) for q in g[0]), default=(0, None))
                if best is None or d > t2:
                    return out("circle", "circle event at %s, where no three cells meet" % (p,))
                hits[best] += 1
            for j, (at, k, most) in enumerate(fl):
                if hits[j] == 0:
                    return out("circle", "three cells meet at %s, but no circle event was handled there" % (at[0],))
                if hits[j] > max(most, len(k) - 2):
                    return out("circle", "%d circle events at %s, where %d cells meet" % (hits[j], at[0], len(k)))
        if dom.ok or s.sc.get("long"):
            done = tr[-1][1]
            try:
                now = oracle.canon(V)
            except oracle.Broken as e:
                return out("messages", str(e))
            if done != now:
                d = oracle.diff(done, now) if isinstance(done, dict) else done
                return out("messages", "the diagram changed after VORONOI_FINISHED: %s" % d)
        s.count("sweep_steps", len(steps))
        s.states.add(tuple((x[1][0], x[1][1] if x[1][0] == "site" else x[1][5]) for x in steps))


def D_(v):
    from decimal import Decimal
    return v if isinstance(v, Decimal) else Decimal(str(v))


# ============================================================================================ C05

def probe_grow(sim, t, o, V, short):
    """Everything an observer can see at one step."""
    if short not in ("STEP", "SWEEP"):
        return
    if len(sim.violations) >= 3:
        return
    t.hold += 1
    try:
        vid = sim.name_of(V)

        def out(code, d):
            sim.bad(code, "%s after step %d: %s" % (vid, len(st["handled"]) + st["circles"], d))
        st = sim.user.setdefault("grow", {}).setdefault(vid, None)
        if st is None or st["sites"] is not V.sites:
            st = sim.user["grow"][vid] = {"handled": [], "circles": 0, "verts": {}, "sites": V.sites}
        size = sim.user["sizes"][vid]
        if short == "STEP":
            info = event_info(V)
            if info[0] == "site":
                if info[1] < 0:
                    return out("beach", "a site event of an unknown site")
                st["handled"].append(V.sites[info[1]])
            elif info[0] == "circle":
                st["circles"] += 1
        allp = [(p.xd, p.yd) for p in V.sites]
        r = oracle.check_beach(V, size, out, st["handled"], None)
        if r is not None:
            sim.count("beach_checks")
            sim.counts["max_leaves"] = max(sim.counts["max_leaves"], r[0])
            sim.counts["max_depth"] = max(sim.counts["max_depth"], r[1])
            sim.states.add(hash(tuple(n.data.origin.name for n, _ in oracle.leaves(V.status_tree))))
        arcs = {id(a.origin) for a in V.arcs}
        for node, _ in oracle.leaves(V.status_tree):
            if id(node.data.origin) not in arcs:
                return out("arcs", "the arc of %s is on the beach line but not among the arcs" % node.data.origin)
        # vertices found so far
        now = {}
        l = V.sweep_line
        for v in V.vertices:
            now[id(v)] = v
            if id(v) in st["verts"]:
                if st["verts"][id(v)][1:] != (v.xd, v.yd):
                    return out("vertices", "vertex moved from %s to %s" % (st["verts"][id(v)][1:], v))
                continue
            near = oracle.true_vertex((v.xd, v.yd), allp, size)
            if len(near) < 3:
                return out("vertices", "%s has only %d nearest sites" % (v, len(near)))
            st["verts"][id(v)] = (v, v.xd, v.yd)
            if len(v.connected_edges) != 3:
                return out("vertices", "%s joins %d edges when it appears" % (v, len(v.connected_edges)))
            inc = {id(h.incident_point) for h in v.connected_edges} | {
                id(h.twin.incident_point) for h in v.connected_edges}
            if len(inc) != 3:
                return out("vertices", "the edges at %s belong to %d sites" % (v, len(inc)))
        if set(st["verts"]) - set(now):
            return out("vertices", "a vertex disappeared during the sweep")
        # edges traced so far
        from decimal import Decimal, localcontext
        with localcontext() as ctx:
            ctx.prec = 40
            for e in V.edges:
                if e.twin is None or e.twin.twin is not e:
                    return out("edges", "the twins of %s disagree" % e)
                a, b = e.incident_point, e.twin.incident_point
                if a is None or b is None or a is b:
                    return out("edges", "edge %s does not separate two sites" % e)
                for h in (e, e.twin):
                    q = h.get_origin(y=l)
                    if q is None:
                        return out("edges", "the end of edge %s cannot be located" % h)
                    if not q.xd.is_finite() or not q.yd.is_finite():
                        if a.yd != b.yd:
                            return out("edges", "the end of edge %s is at infinity" % h)
                        continue
                    da = ((q.xd - a.xd) ** 2 + (q.yd - a.yd) ** 2).sqrt()
                    db = ((q.xd - b.xd) ** 2 + (q.yd - b.yd) ** 2).sqrt()
                    tol = Decimal(size) * Decimal("1e-6") + max(da, db) * Decimal("1e-6")
                    if abs(da - db) > tol:
                        return out("edges", "edge %s ends at %s, which is nearer to one of its sites" % (h, q))
                    if h.next is not None and h.next.prev is not h:
                        return out("edges", "next and previous of %s disagree" % h)
                    if h.next is not None and h.next.incident_point is not h.incident_point:
                        return out("edges", "the edge after %s borders another site" % h)
        for site in V.sites:
            if not walk_ok(site, 4 * len(V.edges) + 8):
                return out("walk", "the border of %s cannot be walked" % site)
            if site.first_edge is not None and site.first_edge.incident_point is not site:
                return out("walk", "the first edge of %s borders %s" % (site, site.first_edge.incident_point))
        read_all(sim, V)
        sim.count("growing_checks")
    except oracle.Broken as e:
        sim.bad("beach", "%s: %s" % (vid, e))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        sim.bad("reading", "reading the growing diagram raises %s: %s (%s)" % (
            type(e).__name__, e, " < ".join("%s:%d" % (f.name, f.lineno) for f in tb[-3:])))
    finally:
        t.hold -= 1


@prop("C05")
class C05(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        n = None
        if r.random() < .04:
            n = r.randint(20, 40)
        poly, pts, d, kind = gen.draw(r, n=n)
        if r.random() < .06:
            # a top row of many sites: they all arrive before any parabola opens
            kind = "toprow"
            poly = [[0, 0], [400, 0], [400, 100], [0, 100]]
            y = r.choice([90, 50])
            xs = r.sample(range(2, 798), r.randint(12, 60))
            pts = [[x / 2, y] for x in xs] + [[round(r.uniform(1, 399), 1), round(r.uniform(1, y - 5), 1)]
                                             for _ in range(r.randint(0, 6))]
            if not domain(poly, pts).ok:
                pts = [p for p in pts if p[1] == y]
        sc["kind"] = kind
        vid = add_vor(sc, add_poly(sc, poly, r=r), r.random() < .8)
        environment(r, sc, ctx, vid, pts, poly, p_plain=.5)
        o = add_obs(sc, acts=[{"on": "any", "do": "probe", "name": "grow"}])
        for w in list(sc["vors"]):
            tn = 0
            for i, p in enumerate(sc["programs"]):
                if any(op[0] == "build" and op[1] == w for op in p):
                    tn = i
            sc["programs"][tn].insert(0, ["attach", w, o])
        return sc

    def run(self, sc, **kw):
        s = Sim(sc, probes={"grow": probe_grow}, **kw)
        s.user["sizes"] = {}
        for vid, v in sc["vors"].items():
            P = sc["polys"][v["poly"]]["pts"]
            s.user["sizes"][vid] = max(max(p[0] for p in P) - min(p[0] for p in P),
                                       max(p[1] for p in P) - min(p[1] for p in P))
        return s.run()
