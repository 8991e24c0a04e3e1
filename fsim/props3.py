"""C17: what the figures show."""
import collections
import math
from decimal import Decimal

from . import gen
from .common import add_obs, add_poly, add_vor, new_sc, random_fault, random_slices, sites_in
from .props import Base, prop
from .props2 import SnapSim, Script, compare_builds, Baselines2, quiet_sinks

OPTIONS = ["polygon", "edges", "vertices", "sites", "outgoing_edges", "border_to_site", "edge_labels", "site_labels",
           "triangles", "arcs", "sweep_line", "events", "arc_labels", "beach_line"]
DEFAULTS = {o: o in ("edges", "vertices", "sites") for o in OPTIONS}
DEFAULTS["scale"] = 1
PRESETS = {"STEP": {"polygon": True, "events": True, "beach_line": True, "sweep_line": True}, "SWEEP": {"polygon": True},
           "DONE": {}}


class FigureScript(Script):
    """The callback of a diagram observer: compares the figure with the diagram of this very moment."""

    def __call__(self, *args):
        sim = self.sim
        t = sim.cur
        with sim.quiet(t):
            V = sim.user.get("subject", {}).get(t.tid)
            if V is not None and len(args) == 2 and len(sim.violations) < 3:
                kind = sim.user["last_kind"][t.tid]
                opts = dict(DEFAULTS)
                opts.update(PRESETS[kind])
                opts.update(self.spec.get("settings") or {})
                off = self.spec.get("offset")
                look(sim, V, args[1], opts, "%s %s" % (self.oid, kind), 1 if off is None else off)
        super().__call__(*args)


def look(sim, V, fig, opts, who, offset):
    t = sim.cur
    if t is not None:
        t.hold += 1
    try:
        check_figure(sim, V, fig, opts, who, offset)
        title = "".join(ax.get_title() for ax in fig.axes)
        if who.endswith("STEP") != (str(V.event) in title):
            sim.bad("figure", "%s: the title is %r, the event %s" % (who, title, V.event))
        sim.count("figures")
    finally:
        if t is not None:
            t.hold -= 1


def close(a, b, tol):
    for x, y in zip(a, b):
        if x == y:
            continue
        if not (abs(x - y) <= tol + 1e-12 * max(abs(x), abs(y))):
            return False
    return True


def subset(A, B, tol):
    """An element of A without a counterpart in B, or None."""
    for a in A:
        if a not in B and not any(close(a, b, tol) for b in B):
            return a
    return None


def norm(l):
    a, b = (l[0], l[1]), (l[2], l[3])
    return a + b if a <= b else b + a


def handled(V):
    """Sites on or above the sweep line have been handled (or are being)."""
    return [p for p in V.sites if p.name is not None]


def check_figure(sim, V, fig, o, who, offset, sub={}):
    """sub: what is drawn instead of everything (explicit lists, sweep line or event)."""
    sites, edges, vertices = sub.get("sites", V.sites), sub.get("edges", V.edges), sub.get("vertices", V.vertices)
    from foronoi.events.circle_event import CircleEvent
    from foronoi.visualization.visualizer import Colors

    def bad(what):
        sim.bad("figure", "%s: %s" % (who, what))
    if len(fig.axes) != 1:
        return bad("%d axes" % len(fig.axes))
    ax = fig.axes[0]
    P = V.bounding_poly
    off = Decimal(str(offset))
    x0, x1, y0, y1 = (float(v) for v in (P.min_x - off, P.max_x + off, P.min_y - off, P.max_y + off))
    size = max(1e-300, x1 - x0, y1 - y0)
    most = max(size, abs(x0), abs(x1), abs(y0), abs(y1))
    # a figure that is right to a millionth of its extent; coordinates themselves are floats
    tol = 1e-9 * size + 1e-14 * most
    sl = sub.get("sweep_line", V.sweep_line)
    top = P.max_y + off
    # ---- lines
    short, long_ = [], []
    for ln in ax.get_lines():
        xs, ys = [float(v) for v in ln.get_xdata()], [float(v) for v in ln.get_ydata()]
        if len(xs) == 2:
            short.append((norm((xs[0], ys[0], xs[1], ys[1])), ln))
        else:
            long_.append((xs, ys, ln))
    want = {}
    ends = []
    for e in edges:
        a, b = e.get_origin(sl, top), e.twin.get_origin(sl, top)
        if a is not None and b is not None:
            ends.append((e, a, b))
            if abs(a.yd) == float("inf") or abs(b.yd) == float("inf"):
                return bad("edge %s ends outside the figure, at infinity" % e)
    if o["edges"]:
        for e, a, b in ends:
            want[norm((float(a.xd), float(a.yd), float(b.xd), float(b.yd)))] = "edge %s" % e
    pointers = {}
    if o["border_to_site"]:
        for e, a, b in ends:
            for h in (e, e.twin):
                s = h.incident_point
                if s is not None:
                    k = norm((float((a.xd + b.xd) / 2), float((a.yd + b.yd) / 2), float(s.xd), float(s.yd)))
                    pointers[k] = s.first_edge is h or pointers.get(k, False)
                    want[k] = "pointer from %s to its site" % h
    if o["sweep_line"]:
        want[norm((x0, float(sl), x1, float(sl)))] = "sweep line"
    if o["beach_line"] and o["arcs"]:
        for p in handled(V):
            if float(p.yd) == float(sl):
                want[(float(p.xd), 0.0, float(p.xd), 1.0)] = "arc of %s" % p
    have = {k for k, _ in short}
    d = subset([k for k in want if not any(v != v for v in k)], have, tol)
    if d is not None:
        return bad("the %s is missing" % want[d])
    d = subset([k for k in have if not any(v != v for v in k)], want, tol)
    if d is not None:
        return bad("a line %s that nobody asked for" % (d,))
    if pointers and not o["edges"]:
        from matplotlib.colors import same_color
        for k, ln in short:
            hit = [f for q, f in pointers.items() if close(q, k, tol)]
            if len(hit) == 1 and hit[0] and not any(same_color(l2.get_color(), Colors.FIRST_EDGE)
                                                    for k2, l2 in short if close(k2, k, tol)):
                return bad("the first edge of a site is not marked")
            if len(hit) == 1 and not hit[0] and same_color(ln.get_color(), Colors.FIRST_EDGE):
                return bad("an edge is marked as first edge")
    # ---- beach line and arcs
    up = [(float(p.xd), float(p.yd), p) for p in handled(V) if float(p.yd) > float(sl)]
    fsl = float(sl)

    def par(a, b, x):
        return (x - a) * (x - a) / (2 * (b - fsl)) + (b + fsl) / 2

    def noise(a, b, x):
        """How far off the height of an arc may be: rounded coordinates, and what nobody can see."""
        q = (x - a) / (b - fsl)
        return 1e-6 * size + 1e-9 * abs((x - a) * q) + 1e-15 * max(most, abs(a), abs(b), abs(fsl)) * (1 + abs(q) + q * q)
    solid = [l for l in long_ if l[2].get_linestyle() in ("-", "solid")]
    dashed = [l for l in long_ if l[2].get_linestyle() not in ("-", "solid")]
    if not (o["beach_line"] and up):
        if long_:
            return bad("a curve that nobody asked for")
    else:
        if len(solid) != 1:
            return bad("%d beach lines" % len(solid))
        xs, ys, _ = solid[0]
        if abs(xs[0] - x0) > tol or abs(xs[-1] - x1) > tol:
            return bad("the beach line spans %s to %s" % (xs[0], xs[-1]))
        lowest = set()
        for k in range(len(xs)):
            v = [par(a, b, xs[k]) for a, b, _ in up]
            m = min(v)
            slack = max(noise(a, b, xs[k]) for (a, b, _), y in zip(up, v) if y - m <= noise(a, b, xs[k]))
            if abs(m - ys[k]) > slack:
                return bad("the beach line is at y=%r at x=%r, the lowest arc is at %r" % (ys[k], xs[k], m))
            s2 = sorted(v)
            if len(v) == 1 or s2[1] - m > 2 * slack:
                lowest.add(str(up[v.index(m)][2].name))
        if o["arcs"]:
            listed = {id(c.origin) for c in V.arcs}
            seen = [False] * len(dashed)
            for a, b, p in up:
                hit = False
                for j, l in enumerate(dashed):
                    if all(abs(par(a, b, l[0][k]) - l[1][k]) <= noise(a, b, l[0][k]) for k in range(0, len(l[0]), 97)):
                        hit = seen[j] = True
                # an arc that was squeezed out is above the beach line for good
                if not hit and (id(p) in listed or str(p.name) in lowest):
                    return bad("the arc of %s is missing" % p)
            if not all(seen):
                return bad("a dashed curve that is no arc")
        elif dashed:
            return bad("arcs nobody asked for")
    # ---- points
    offs = set()
    for c in ax.collections:
        for x, y in c.get_offsets():
            offs.add((float(x), float(y)))
    pts = {}
    if o["vertices"]:
        for v in vertices:
            pts[(float(v.xd), float(v.yd))] = "vertex %s" % v
    if o["sites"]:
        for p in sites:
            pts[(float(p.xd), float(p.yd))] = "site %s" % p
    ev = sub.get("event", V.event)
    circle = o["events"] and isinstance(ev, CircleEvent)
    if circle:
        for p in ev.point_triple:
            pts[(float(p.xd), float(p.yd))] = "site %s of the circle" % p
    d = subset(pts, offs, tol)
    if d is not None:
        return bad("the %s is missing" % pts[d])
    d = subset(offs, pts, tol)
    if d is not None:
        return bad("a point at %s that nobody asked for" % (d,))
    # ---- patches
    from matplotlib import patches
    circles = [p for p in ax.patches if isinstance(p, patches.Circle)]
    polys = [p for p in ax.patches if isinstance(p, patches.Polygon)]
    if len(circles) != int(bool(circle)):
        return bad("%d circles, the event is %s" % (len(circles), ev))
    if circle:
        c = circles[0]
        w = (float(ev.center.xd), float(ev.center.yd), float(ev.radius))
        if not close(tuple(float(v) for v in c.center) + (float(c.width) / 2,), w, tol + 1e-9 * w[2]):
            return bad("the circle is at %s with radius %s" % (c.center, float(c.width) / 2))
    wantp = []
    if o["polygon"]:
        wantp.append([(float(a), float(b)) for a, b in P.get_coordinates()])
    if circle and o["triangles"]:
        wantp.append([(float(p.xd), float(p.yd)) for p in ev.point_triple])
    gotp = [set((float(a), float(b)) for a, b in p.get_xy()) for p in polys]
    for w in wantp:
        m = next((g for g in gotp if subset(w, g, tol) is None and subset(g, w, tol) is None), None)
        if m is None:
            return bad("the %s is missing" % ("polygon" if o["polygon"] and w is wantp[0] else "triangle"))
        gotp.remove(m)
    if gotp:
        return bad("an outline that nobody asked for")
    # ---- texts
    from matplotlib.text import Annotation
    texts, arrows = [], []
    for x in ax.texts:
        if isinstance(x, Annotation) and x.arrow_patch is not None:
            arrows.append(tuple(float(v) for v in x.get_position()) + tuple(float(v) for v in x.xy))
        elif isinstance(x, Annotation):
            texts.append((x.get_text(), float(x.xy[0]), float(x.xy[1])))
        else:
            texts.append((x.get_text(),) + tuple(float(v) for v in x.get_position()))
    wantt = []
    if o["sites"] and o["site_labels"]:
        wantt += [("P%s" % ("" if p.name is None else p.name), float(p.xd), float(p.yd)) for p in sites]
    if o["edges"] and o["edge_labels"]:
        wantt += [(str(e), float((a.xd + b.xd) / 2), float((a.yd + b.yd) / 2)) for e, a, b in ends]
    for w in wantt:
        m = next((x for x in texts if x[0] == w[0] and (close(x[1:], w[1:], tol) or any(v != v for v in w[1:]))), None)
        if m is None:
            return bad("the label %s at %s is missing" % (w[0], w[1:]))
        texts.remove(m)
    if o["beach_line"] and o["arc_labels"] and up:
        names = {str(p.name): (a, b) for a, b, p in up}
        for x in texts:
            if x[0] not in names:
                return bad("a label %r that nobody asked for" % (x[0],))
            if x[1] == x[1] and x[2] == x[2]:
                m = par(names[x[0]][0], names[x[0]][1], x[1])
                if abs(m - x[2]) > noise(*names[x[0]], x[1]):
                    return bad("the label of arc %s is not on its arc" % x[0])
        miss = lowest - {x[0] for x in texts}
        if miss:
            return bad("the arc of P%s is on the beach line but has no label" % sorted(miss)[0])
    elif texts:
        return bad("a label %r that nobody asked for" % (texts[0][0],))
    wanta = set()
    if o["outgoing_edges"]:
        sc = float(o["scale"])
        for v in vertices:
            for e in v.connected_edges:
                a, b = e.get_origin(None, top), e.twin.get_origin(None, top)
                if a is None or b is None:
                    continue
                dx, dy = float(b.xd) - float(a.xd), float(b.yd) - float(a.yd)
                n = math.hypot(float(b.xd - a.xd), float(b.yd - a.yd))
                if n > 0:
                    dx, dy = float(b.xd - a.xd) / n, float(b.yd - a.yd) / n
                    wanta.add((float(a.xd), float(a.yd), float(a.xd) + dx * sc, float(a.yd) + dy * sc))
    d = subset(wanta, set(arrows), 1e-6 * (sc if o["outgoing_edges"] else 1) + tol)
    if d is not None:
        return bad("the arrow %s is missing" % (d,))
    d = subset(set(arrows), wanta, 1e-6 * (sc if o["outgoing_edges"] else 1) + tol)
    if d is not None:
        return bad("an arrow %s that nobody asked for" % (d,))
    # ---- extent
    got = [float(v) for v in ax.get_xlim()] + [float(v) for v in ax.get_ylim()]
    if not close(got, (x0, x1, y0, y1), tol):
        return bad("the figure shows %s" % (got,))


def make_figure(sim, oid, spec):
    fo = sim.fo
    cb = FigureScript(sim, oid, spec)
    kw = {}
    if spec.get("offset") is not None:
        kw["canvas_offset"] = spec["offset"]
    if spec.get("settings") is not None:
        kw["settings"] = dict(spec["settings"])
    o = fo.VoronoiObserver(visualize_steps=spec["steps"], visualize_before_clipping=spec["before"],
                           visualize_result=spec["result"], callback=cb, **kw)
    cb.observer = o
    return o


def remember(sim, t, o, V, short):
    sim.user.setdefault("subject", {})[t.tid] = V
    if short == "STEP" and type(V.event).__name__ == "CircleEvent":
        sim.user.setdefault("circles", {}).setdefault(id(V), []).append(V.event)
    if short != "DEBUG":
        sim.user.setdefault("last_kind", {})[t.tid] = short


def plot(sim, t, vid, opts, offset, single, part=None):
    """The caller draws a finished diagram himself."""
    V = sim.vor(vid)
    last = [x for x in sim.results if x["vid"] == vid]
    if not last or last[-1]["exc"] is not None:
        return
    t.hold += 1
    try:
        vis = sim.fo.Visualizer(V, canvas_offset=offset)
        full = dict(DEFAULTS)
        if single:
            full.update({o: False for o in OPTIONS})
            full.update({"scale": .5})
            sub = {}
            if part is not None:
                # explicit lists instead of everything
                some = lambda l: [x for k, x in enumerate(l) if k % part == part - 1]  # may be empty
                sub = {"sites": some(V.sites), "edges": some(V.edges), "vertices": some(V.vertices)}
                circles = sim.user.get("circles", {}).get(id(V))
                if circles:
                    sub["event"] = circles[part % len(circles)]
                if "sweep_line" in single and "edges" not in single and "edge_labels" not in single:
                    sub["sweep_line"] = (V.sites[part % len(V.sites)].yd + Decimal("0.25") if part != 2
                                         else Decimal(0))
            P = {k: ({v: sub[k]} if k in sub else {}) for k, v in (
                ("sites", "points"), ("edges", "edges"), ("vertices", "vertices"), ("event", "event"),
                ("sweep_line", "sweep_line"))}
            for name in single:
                if name == "sites":
                    vis = vis.plot_sites(show_labels=False, **P["sites"])
                elif name == "site_labels":
                    vis = vis.plot_sites(**P["sites"])
                    full["sites"] = True
                elif name == "edges":
                    vis = vis.plot_edges(show_labels=False, **P["edges"])
                elif name == "edge_labels":
                    vis = vis.plot_edges(**P["edges"])
                    full["edges"] = True
                elif name == "border_to_site":
                    vis = vis.plot_border_to_site(**P["edges"])
                elif name == "vertices":
                    vis = vis.plot_vertices(**P["vertices"])
                elif name == "outgoing_edges":
                    vis = vis.plot_outgoing_edges(**P["vertices"])
                elif name == "events":
                    vis = vis.plot_event(**P["event"])
                elif name == "sweep_line":
                    vis = vis.plot_sweep_line(**P["sweep_line"])
                else:
                    vis = getattr(vis, {"polygon": "plot_polygon"}[name])()
                full[name] = True
        else:
            sub = {}
            full.update(opts)
            vis = vis.plot_all(**opts)
        check_figure(sim, V, vis.get_canvas(), full, "figure of %s" % vid, offset, sub)
        sim.count("figures")
    except AssertionError:
        raise
    except Exception as e:
        sim.bad("figure", "drawing %s with %s raises %s: %s" % (vid, single or opts, type(e).__name__, e))
    finally:
        t.hold -= 1


def random_options(r):
    o = {}
    for k in OPTIONS:
        if r.random() < .45:
            o[k] = r.random() < .65
    if r.random() < .3:
        o["scale"] = r.choice([.5, 2, 3])
    return o


@prop("C17")
class C17(Base):
    state_measure = "not used"

    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        n = r.randint(1, 7)
        poly, pts, d, kind = gen.draw(r, n=n)
        sc["kind"] = kind
        pid = add_poly(sc, poly, r=r)
        vid = add_vor(sc, pid, r.random() < .75)
        size = max(max(p[0] for p in poly) - min(p[0] for p in poly), max(p[1] for p in poly) - min(p[1] for p in poly))
        lead = add_obs(sc, acts=[{"on": "any", "do": "probe", "name": "remember"}])
        prog = [["attach", vid, lead]]
        if r.random() < .3:
            prog.append(["build", vid, sites_in(r, poly, r.randint(1, 4)) or pts, {}])
        if r.random() < .25:
            prog.append(["build", vid, pts, {"fault": random_fault(r, ctx, len(pts))}])
        for _ in range(r.choice([1, 1, 2])):
            prog.append(["attach", vid, add_obs(
                sc, kind="voronoi", steps=r.random() < .8, before=r.random() < .5, result=r.random() < .8,
                settings=random_options(r), offset=r.choice([None, 0, .5, 2, 100]))])
        prog.append(["build", vid, pts, {}])
        for _ in range(r.choice([0, 1, 1, 2])):
            if r.random() < .6:
                prog.append(["plot", vid, random_options(r), r.choice([0, 1, 1.5, 10]), None])
            else:
                prog.append(["plot", vid, {}, 1, r.sample(["polygon", "edges", "vertices", "sites", "outgoing_edges",
                                                           "border_to_site", "site_labels", "edge_labels", "sweep_line",
                                                           "events"], r.randint(1, 4)),
                             r.choice([None, 2, 3, 4, 9973])])
        sc["programs"] = [prog]
        if r.random() < .2:
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 5))
            w = add_vor(sc, add_poly(sc, q), True)
            sc["programs"].append([["build", w, qp, {}]])
            sc["sched"] = random_slices(r, 2, r.randint(4, 20), 12)
        return sc

    def run(self, sc, **kw):
        base = Baselines2(sc).prefetch()
        s = SnapSim(sc, probes={"make_builtin": make_figure, "remember": remember, "plot": plot}, **kw)
        with quiet_sinks(s):
            s.run()
        compare_builds(s, base)
        return s

    def nontrivial(self, sc, s):
        return s.counts["figures"] > 0

    stubs = ["matplotlib: real, Agg backend; matplotlib.pyplot.show recorded"]
