"""C06 .. C13: observers, faults, histories, threads, reproducibility."""
import collections
import contextlib
import copy
import decimal
import json
import os
import random
import re
import sys

from . import gen, oracle, env
from .common import (EXCS, FORMS, LINE_EXCS, Baselines, add_obs, add_poly, add_vor, all_builds, domain, forked, in_domain, new_sc, pristine,
                     random_fault, random_slices, sites_in)
from .props import Base, prop, PROPS
from .sim import EXC, Sim, read_all


# ------------------------------------------------------------------------------------------- built-in observers

class Script:
    """The callback given to a built-in observer: records calls, fails when the scenario says so."""

    def __init__(self, sim, oid, spec):
        self.sim, self.oid, self.spec = sim, oid, spec
        self.calls = []
        self.observer = None

    def __bool__(self):
        return not self.spec.get("empty")       # as a collection is, which keeps what it is called with

    def __call__(self, *args):
        sim = self.sim
        t = sim.cur
        with sim.quiet(t):
            sim.count("callbacks")
            info = describe(sim, self, args)
            self.calls.append(info)
            sim.note("callback", t.tid, self.oid, len(self.calls))
            sim.point("notify")
            f = self.spec.get("fail")
            if f and f["nth"] == len(self.calls):
                e = EXC[f["exc"]]()
                sim.count("sink:callback " + f["exc"])
                for st in sim.user.get("open", {}).values():
                    for res in st:
                        if res["tenant"] == t.tid:
                            res["raised_by"] = e
                self.calls[-1]["failed"] = True
                raise e


def describe(sim, script, args):
    o = script.observer
    kind = script.spec["kind"]
    info = {"kind": kind, "failed": False, "nargs": len(args)}
    if kind == "debug":
        info["text"] = args[0] if args else None
        return info
    info["n_before"] = o.n_messages
    if kind == "tree":
        if script.spec.get("text"):
            info["text"] = args[0] if args else None
        else:
            info["self"] = bool(args) and args[0] is o
            info["dot"] = dot_tree(args[1]) if len(args) > 1 else None
        V = sim.user.get("subject", {}).get(sim.cur.tid)
        info["tree"] = preorder(V.status_tree) if V is not None else None
        if V is not None and not script.spec.get("text"):
            info["plotted"] = dot_tree(sim.fo.TreeVisualizer().plot(V.status_tree))
    else:
        info["self"] = bool(args) and args[0] is o
        if len(args) > 1:
            info.update(figure_info(sim, args[1]))
    return info


def figure_info(sim, fig):
    if not fig.axes:
        return {"fig": None}
    info = {"fig": figure_facts(fig)}
    V = sim.user.get("subject", {}).get(sim.cur.tid)
    if V is not None:
        info["sites"] = [(p.x, p.y, p.name) for p in V.sites]
        info["verts"] = [(v.x, v.y) for v in V.vertices]
        info["edges"] = []
        if sim.user.get("last_kind", {}).get(sim.cur.tid) == "DONE":
            info["edges"] = [(e.origin.x, e.origin.y, e.twin.origin.x, e.twin.origin.y) for e in V.edges]
        P = V.bounding_poly
        info["bounds"] = (float(P.min_x), float(P.max_x), float(P.min_y), float(P.max_y))
    return info


def label(node):
    if node.left is None and node.right is None:
        return str(node.data.origin.name)
    return "%s,%s" % (node.data.breakpoint[0].name, node.data.breakpoint[1].name)


def preorder(node, d=0):
    out = [[d, label(node)]]
    for c in (node.left, node.right):
        if c is not None:
            out += preorder(c, d + 1)
    return out


def inorder(pre):
    """In-order (depth, label) of a preorder listing of a full binary tree."""
    pos = [0]

    def rec():
        d, l = pre[pos[0]]
        pos[0] += 1
        if pos[0] < len(pre) and pre[pos[0]][0] == d + 1:
            a = rec()
            b = rec()
            return a + [[d, l]] + b
        return [[d, l]]
    return rec()


def text_tree(text):
    """TreeObserver's text: bottom line is the leftmost node, indentation is depth."""
    rows = [x for x in text.split("\n") if x.strip()]
    return [[(len(x) - len(x.lstrip(" "))) // 4, x.strip()] for x in reversed(rows)]


def dot_tree(dot):
    src = dot.source
    nodes, order, kids, child = {}, [], collections.defaultdict(list), set()
    name = r'("(?:[^"\\]|\\.)*"|[\w.-]+)'
    for m in re.finditer(r'^[ \t]*%s[ \t]*(?:->[ \t]*%s|\[([^\n]*)\])' % (name, name), src, re.M):
        a, b, attrs = m.groups()
        if a in ("graph", "node", "edge", "digraph"):
            continue
        if b:
            kids[a].append(b)
            child.add(b)
        else:
            if a in nodes:
                return {"error": "node listed twice"}
            l = re.search(r'\blabel=%s' % name, attrs)
            nodes[a] = (l.group(1) if l else a).strip('"')
            order.append(a)
    roots = [n for n in order if n not in child]
    if len(roots) != 1:
        return {"error": "%d roots" % len(roots)}
    out = []

    def rec(n, d):
        out.append([d, nodes.get(n)])
        for k in kids[n]:
            rec(k, d + 1)
    rec(roots[0], 0)
    return {"pre": out}


def figure_facts(fig):
    ax = fig.axes[0]
    offs = []
    for c in ax.collections:
        for x, y in c.get_offsets():
            offs.append((float(x), float(y)))
    lines = []
    for ln in ax.get_lines():
        x, y = ln.get_xdata(), ln.get_ydata()
        if len(x) == 2:
            lines.append((float(x[0]), float(y[0]), float(x[1]), float(y[1])))
    return {"size": [float(v) for v in fig.get_size_inches()], "xlim": [float(v) for v in ax.get_xlim()],
            "ylim": [float(v) for v in ax.get_ylim()], "offsets": offs, "lines": lines,
            "texts": sorted(t.get_text() for t in ax.texts), "naxes": len(fig.axes), "id": id(fig)}


def make_builtin(sim, oid, spec):
    fo = sim.fo
    kind = spec["kind"]
    cb = None if spec.get("default") else Script(sim, oid, spec)
    if kind == "debug":
        o = fo.DebugObserver(callback=cb) if cb is not None else fo.DebugObserver()
    elif kind == "tree":
        o = fo.TreeObserver(visualize_steps=spec.get("steps", True), visualize_result=spec.get("result", True),
                            text_based=spec.get("text", False), callback=cb)
    else:
        kw = {}
        if spec.get("figsize"):
            kw["figsize"] = tuple(spec["figsize"])
        if spec.get("offset") is not None:
            kw["canvas_offset"] = spec["offset"]
        if spec.get("settings") is not None:
            kw["settings"] = sim.user.setdefault("settings", {}).setdefault(oid, dict(spec["settings"]))
        o = fo.VoronoiObserver(visualize_steps=spec.get("steps", True),
                               visualize_before_clipping=spec.get("before", False),
                               visualize_result=spec.get("result", True), callback=cb, **kw)
    if cb is not None:
        cb.observer = o
        sim.user.setdefault("scripts", {})[oid] = cb
    sim.user.setdefault("builtins", {})[oid] = o
    return o


# ------------------------------------------------------------------------------------------- shared oracles

def compare_builds(s, base, label="pristine", only=None, msgs=None):
    """Every finished build of the run against the same build alone in an untouched process."""
    snaps = s.user.get("snapped", {})
    for res in s.results:
        if res["exc"] is not None or (only and not only(res)):
            continue
        b = base.get(res["vid"], res["points"])
        if b is None or b["canon"] is None or b["exc"]:
            s.bad("exception", "the build of %s alone fails: %s" % (res["vid"], b and (b["exc"] or b["bad"])))
            continue
        got = snaps.get(res["index"])
        if isinstance(got, str):
            s.bad("broken-diagram", "%s: %s" % (res["vid"], got))
            continue
        if got != b["canon"]:
            s.bad("differs", "build %d (%s, %d sites) differs from the same build alone: %s" % (
                res["index"], res["vid"], res["n"], oracle.diff(got, b["canon"])))
        s.count("compared")


class SnapSim(Sim):
    """Takes the canonical form of every diagram the moment its build returns, and once more at the end."""

    def build(self, t, vid, points, opts):
        n0 = len(self.log)
        res = super().build(t, vid, points, opts)
        res["log"] = (n0, len(self.log))
        res["seq"] = self.user.setdefault("seq", 0)
        self.user["seq"] += 1
        snaps = self.user.setdefault("snapped", {})
        if res["exc"] is None:
            t.hold += 1
            try:
                snaps[res["index"]] = self.form(vid)
            finally:
                t.hold -= 1
        return res

    def form(self, vid):
        try:
            return oracle.canon(self.vors[vid])
        except oracle.Broken as e:
            return str(e)
        except Exception as e:
            return "reading the diagram raises %s: %s" % (type(e).__name__, e)

    def end_unchanged(self):
        """Diagrams that were not rebuilt since are still what they were."""
        last = {}
        for res in self.results:
            if "seq" not in res:
                continue
            k = last.get(res["vid"])
            if k is None or res["index"] > k["index"]:
                last[res["vid"]] = res
        for vid, res in last.items():
            if res["exc"] is None and res["index"] in self.user.get("snapped", {}):
                now = self.form(vid)
                was = self.user["snapped"][res["index"]]
                if now != was:
                    d = now if isinstance(now, str) else oracle.diff(was, now) if isinstance(was, dict) else was
                    self.bad("changed-later", "finished diagram %s changed afterwards: %s" % (vid, d))
                self.count("rechecked")


def messages_of(s, oid, res):
    """Messages observer oid got during build res for its own diagram."""
    a, b = res["log"]
    out = []
    for i in range(a, b):
        r = s.log[i]
        if r[0] == "msg" and r[2] == oid and r[3] == res["vid"] and r[1] == res["tenant"]:
            out.append([r[4], r[5]])
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "message %d: %s against %s" % (i, x, y)
    return "%d messages against %d" % (len(a), len(b))


# ============================================================================================ C06

@prop("C06")
class C06(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        poly, pts, d, kind = gen.draw(r, n=r.choice([None, None, r.randint(3, 9)]))
        sc["kind"] = kind
        pid = add_poly(sc, poly, r=r)
        vid = add_vor(sc, pid, r.random() < .75)
        prog = []
        heavy = r.random() < .04 and len(pts) <= 8
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .5:
                acts = []
                for _ in range(r.randint(1, 2)):
                    a = {"on": r.choice(["STEP", "any", "DEBUG", "SWEEP", "DONE"]),
                         "do": r.choice(["read", "read", "mutate"])}
                    if r.random() < .3:
                        a["nth"] = r.randint(1, 2 * len(pts))
                    acts.append(a)
                o = add_obs(sc, acts=acts)
            elif x < .75:
                o = add_obs(sc, kind="tree", text=r.random() < .5, steps=r.random() < .8)
            elif x < .9 or not heavy:
                o = add_obs(sc, kind="debug")
            else:
                o = add_obs(sc, kind="voronoi", steps=r.random() < .5, before=r.random() < .5,
                            settings=r.choice([None, {"beach_line": True, "arc_labels": False, "triangles": True},
                                               {"border_to_site": True, "outgoing_edges": True}]))
            prog.append(["attach", vid, o])
        if r.random() < .25 and len(pts) <= 40:
            # an observer that draws, now and then
            acts = [{"on": on, "nth": r.randint(1, 2 * len(pts)) if on == "STEP" else 1, "do": "probe", "name": "draw",
                     "what": {k: True for k in DRAWN if r.random() < .4}, "sites": r.random() < .8}
                    for on in (r.choice(["STEP", "STEP", "STEP", "SWEEP", "DONE"]) for _ in range(r.randint(1, 2)))]
            prog.append(["attach", vid, add_obs(sc, acts=acts)])
        if r.random() < .35:
            # an observer that builds other diagrams while this one grows
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 5))
            other = add_vor(sc, add_poly(sc, q), True)
            ops = [["build", other, qp, {}]]
            if r.random() < .3:
                ops.insert(0, ["build", other, qp, {"fault": random_fault(r, ctx, len(qp))}])
            o = add_obs(sc, acts=[{"on": r.choice(["STEP", "STEP", "DEBUG", "SWEEP"]), "nth": r.randint(1, 4), "do": "ops",
                                   "ops": ops}])
            prog.append(["attach", vid, o])
            sc["modes"] = ["nested"]
        if r.random() < .25:
            dets = [op[2] for op in prog]
            o = add_obs(sc, acts=[{"on": "STEP", "nth": r.randint(1, 4), "do": "ops",
                                   "ops": [["detach", vid, r.choice(dets)]]}])
            prog.append(["attach", vid, o])
        if r.random() < .15:
            # the observers saw a build that was aborted
            prog.append(["build", vid, pts, {"fault": random_fault(r, ctx, len(pts))}])
        prog.append(["build", vid, pts, {}])
        sc["programs"] = [prog]
        if r.random() < .25:
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 6))
            w = add_vor(sc, add_poly(sc, q), True)
            o = add_obs(sc, acts=[{"on": "STEP", "do": "read"}])
            sc["programs"].append([["attach", w, o], ["build", w, qp, {}]])
            sc["sched"] = random_slices(r, 2, r.randint(4, 30), 12)
        return sc

    def run(self, sc, **kw):
        base = Baselines2(sc).prefetch()
        s = SnapSim(sc, probes={"make_builtin": make_builtin, "draw": probe_draw}, **kw)
        with quiet_sinks(s):
            s.run()
        compare_builds(s, base)
        s.end_unchanged()
        return s


DRAWN = ["polygon", "outgoing_edges", "border_to_site", "edge_labels", "site_labels", "triangles", "arcs", "sweep_line",
         "events", "arc_labels", "beach_line"]


def probe_draw(sim, t, o, V, short):
    """An observer of the caller's own that draws the diagram as it is."""
    act = next(a for a in o.spec["acts"] if a.get("name") == "draw" and a["on"] == short and a["nth"] == o.seen[short])
    fo = sim.fo
    t.hold += 1
    try:
        if act["sites"]:
            fo.Visualizer(V, 1, figsize=(2, 2)).plot_sites(show_labels=True).plot_vertices().plot_edges()
        fo.Visualizer(V, 1, figsize=(2, 2)).plot_all(**act["what"])
        sim.count("drawn")
    finally:
        t.hold -= 1


class Baselines2(Baselines):
    """Pristine builds without any observer attached."""

    def get(self, vid, pts):
        v = self.sc["vors"][vid]
        key = json.dumps([v["poly"], v.get("rz", True), pts])
        if key not in self.cache:
            self.cache[key] = pristine(self.sc["polys"][v["poly"]], pts, v.get("rz", True), observed=False)
        return self.cache[key]


@contextlib.contextmanager
def quiet_sinks(s):
    """Output seams: standard output, GraphViz rendering, matplotlib's window."""
    import graphviz
    import matplotlib.pyplot as plt
    s.sinks = collections.defaultdict(list)
    plan = s.sc.get("sinks", {})

    def act(name, what, seen=None):
        s.sinks[name].append(what)
        V = s.user.get("subject", {}).get(s.cur.tid) if s.cur is not None else None
        if V is not None:
            # what came out, and what there was to be seen at that moment
            with s.quiet(s.cur):
                if name == "stdout":
                    tree = preorder(V.status_tree) if V.status_tree is not None else None
                    s.user.setdefault("shown", []).append((name, s.user["moment"], what, tree))
                elif name == "render":
                    s.user.setdefault("shown", []).append((name, s.user["moment"], dot_tree(seen), preorder(V.status_tree)))
                else:
                    s.user.setdefault("shown", []).append((name, s.user["moment"], figure_info(s, plt.gcf()), None))
        s.count("sink_calls:" + name)
        t = s.cur
        s.note("sink", name, t.tid if t else -1, len(s.sinks[name]))
        if t is not None:
            with s.quiet(t):
                s.point("notify")
        f = plan.get(name)
        if f and f["nth"] == len(s.sinks[name]):
            e = EXC[f["exc"]]()
            s.count("sink:%s %s" % (name, f["exc"]))
            for st in s.user.get("open", {}).values():
                for res in st:
                    if t is not None and res["tenant"] == t.tid:
                        res["raised_by"] = e
            s.user["sink_failed"] = name
            raise e

    class Out:
        """A standard output that may fail on the n-th line."""
        encoding = "utf-8"

        def __init__(self):
            self.buf = ""

        def write(self, text):
            self.buf += text
            if text == "\n" or (text.endswith("\n")):
                line, self.buf = self.buf, ""
                act("stdout", line)
            return len(text)

        def flush(self):
            pass

        def isatty(self):
            return False

    def render(self, filename=None, *a, **k):
        act("render", filename, self)
        return str(filename)

    def show(*a, **k):
        act("show", len(plt.get_fignums()))

    saved = (sys.stdout, graphviz.Digraph.render, plt.show)
    sys.stdout = Out()
    graphviz.Digraph.render = render
    plt.show = show
    try:
        yield
    finally:
        sys.stdout = saved[0]
        graphviz.Digraph.render = saved[1]
        plt.show = saved[2]
        try:
            plt.close("all")
        except Exception:
            pass


# ============================================================================================ C07

@prop("C07")
class C07(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        nd = r.choice([1, 1, 2, 2, 3])
        pids, vids, data = [], [], {}
        for k in range(nd):
            if k and r.random() < .6:
                pid = r.choice(pids)        # diagrams sharing one polygon
                poly = sc["polys"][pid]["pts"]
                pts = sites_in(r, poly, r.randint(2, 8))
                if pts is None:
                    continue
            else:
                poly, pts, d, kind = gen.draw(r, n=r.randint(1, 8), kinds=[
                    ("box", 2), ("boxneg", 1), ("smallint", 3), ("hull", 2), ("rows", 2), ("circle", 1), ("row", 1), ("col", 1)])
                sc["kind"] = kind
                pid = add_poly(sc, poly, r=r)
            pids.append(pid)
            vid = add_vor(sc, pid, r.random() < .7)
            vids.append(vid)
            data[vid] = pts
        sent = {v: add_obs(sc, sentinel=v) for v in vids}
        pool = [add_obs(sc) for _ in range(r.randint(1, 5))]
        prog = [["attach", v, sent[v]] for v in vids]
        r.shuffle(prog)
        attached = collections.defaultdict(list)

        def toggles(k, late=False):
            ops = []
            for _ in range(k):
                v = r.choice(vids)
                on = [o for o in pool if o in attached[v]]
                off = [o for o in pool if o not in attached[v]]
                if off and (not on or r.random() < .6):
                    o = r.choice(off)
                    ops.append(["attach", v, o])
                    if not late:
                        attached[v].append(o)
                elif on:
                    o = r.choice(on)
                    ops.append(["detach", v, o])
                    if not late:
                        attached[v].remove(o)
            return ops
        prog += toggles(r.randint(0, 6))
        # callbacks that attach or detach (also themselves), or build another diagram
        users = {}
        for o in pool:
            if r.random() < .45:
                v = r.choice(vids)
                act = {"on": r.choice(["STEP", "DEBUG", "any", "SWEEP", "DONE"]), "nth": r.randint(1, 6), "do": "ops"}
                what = r.random()
                if what < .4:
                    act["ops"] = [["toggle", v, o]]
                elif what < .8:
                    act["ops"] = [["toggle", r.choice(vids), r.choice(pool)] for _ in range(r.randint(1, 3))]
                else:
                    w = r.choice(vids)
                    act["ops"] = [["build?", w, data[w], {}]]
                sc["obs"][o]["acts"] = [act]
        for _ in range(r.randint(1, 4)):
            v = r.choice(vids)
            if r.random() < .25:
                prog.append(["build", v, data[v], {"fault": random_fault(r, ctx, len(data[v]))}])
                if r.random() < .7:
                    prog.append(["build", v, data[v], {}])
            else:
                prog.append(["build", v, data[v], {}])
            if r.random() < .4:
                prog += toggles(r.randint(1, 3), late=True) and [["toggle", r.choice(vids), r.choice(pool)]
                                                                 for _ in range(r.randint(1, 2))]
        sc["programs"] = [prog]
        if r.random() < .2:
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 6))
            w = add_vor(sc, add_poly(sc, q), True)
            so = add_obs(sc, sentinel=w)
            sc["programs"].append([["attach", w, so], ["build", w, qp, {}], ["build", w, qp, {}]])
            sc["sched"] = random_slices(r, 2, r.randint(4, 30), 12)
        if r.random() < .4:
            like = r.choice(["equal", "equal", "empty", "forgotten", "forgotten"])
            for o in sc["obs"]:
                if r.random() < .8:
                    sc["obs"][o]["like"] = like
        return sc

    def run(self, sc, **kw):
        base = Baselines(sc).prefetch()
        s = SubjectSim(sc, probes={"toggle": toggle, "build?": build_if_idle}, **kw)
        s.run()
        self.judge(s, base)
        return s

    def judge(self, s, base):
        sc = s.sc
        # who is attached to what, replayed from the log
        for vid in sc["vors"]:
            sentinel = next((o for o, sp in sc["obs"].items() if sp.get("sentinel") == vid), None)
            if sentinel is None or sentinel not in s.obs:
                continue
            L = []
            window = None
            first_attached = False

            def close():
                if window is None:
                    return
                at, got, det, att = window["L"], window["got"], window["det"], window["att"]
                seen = collections.Counter(got)
                for o, n in seen.items():
                    if n > 1:
                        s.bad("duplicate", "%s got one message of %s %d times" % (o, vid, n))
                        return
                    if o not in at and o not in att:
                        s.bad("stray", "%s got a message of %s without being attached" % (o, vid))
                        return
                if not window["cut"]:
                    for o in at:
                        if o not in seen and o not in det:
                            s.bad("lost", "%s is attached to %s and missed %s" % (o, vid, window["what"]))
                            return
                pos = [at.index(o) for o in got if o in at]
                if pos != sorted(pos):
                    s.bad("order", "observers of %s were notified as %s, attached as %s" % (vid, got, at))
                s.count("notifications")
            for rec in s.log:
                k = rec[0]
                if k == "attach" and rec[2] == vid:
                    L.append(rec[3])
                    if window is not None:
                        window["att"].add(rec[3])
                elif k == "detach" and rec[2] == vid:
                    L.remove(rec[3])
                    if window is not None:
                        window["det"].add(rec[3])
                elif k == "msg" and rec[3] == vid:
                    if rec[2] == sentinel:
                        close()
                        window = {"L": list(L), "got": [sentinel], "det": set(), "att": set(), "what": rec[4:6],
                                  "cut": False}
                    else:
                        if window is None:
                            s.bad("stray", "%s got %s of %s, which nobody sent" % (rec[2], rec[4], vid))
                            return
                        if rec[4:6] != window["what"]:
                            s.bad("order", "%s got %s while %s is being delivered" % (rec[2], rec[4:6], window["what"]))
                            return
                        window["got"].append(rec[2])
                elif k == "fault" and window is not None:
                    window["cut"] = True
                elif k == "built" and rec[2] == vid:
                    if rec[3] != "ok" and window is not None:
                        window["cut"] = True
                    close()
                    window = None
            close()
        # messages from unknown senders
        for rec in s.log:
            if rec[0] == "msg" and rec[3] not in sc["vors"]:
                s.bad("sender", "%s got %s from %s" % (rec[2], rec[4], rec[3]))
                return
        # completeness: what the sentinel saw is what the same build alone sends
        for res in s.results:
            sent = next((o for o, sp in sc["obs"].items() if sp.get("sentinel") == res["vid"]), None)
            if sent is None or "log" not in res:
                continue
            b = base.get(res["vid"], res["points"])
            if b is None or b["exc"]:
                s.bad("exception", "the build of %s alone fails: %s" % (res["vid"], b and b["exc"]))
                continue
            got = messages_of(s, sent, res)
            want = b["msgs"]
            if res["exc"] is None:
                if got != want:
                    s.bad("sequence", "build %d of %s: %s" % (res["index"], res["vid"], first_diff(got, want)))
            elif got != want[:len(got)]:
                s.bad("sequence", "aborted build %d of %s: %s" % (res["index"], res["vid"], first_diff(got, want)))
            s.count("sequences")


class SubjectSim(SnapSim):
    pass


def toggle(sim, t, vid, oid):
    """Attach when detached, detach when attached (as the simulator's own book says)."""
    cur = 0
    for rec in sim.log:
        if rec[0] == "attach" and rec[2] == vid and rec[3] == oid:
            cur += 1
        elif rec[0] == "detach" and rec[2] == vid and rec[3] == oid:
            cur -= 1
    sim.do(t, ["detach" if cur else "attach", vid, oid])
    sim.count("toggles")


def build_if_idle(sim, t, vid, pts, opts):
    """A nested build of a diagram that is not being built right now (by anyone)."""
    if sim.user.get("open", {}).get(vid):
        return
    # a polygon is used by one build at a time
    pid = sim.sc["vors"][vid]["poly"]
    for w, st in sim.user.get("open", {}).items():
        if st and sim.sc["vors"][w]["poly"] == pid:
            return
    sim.do(t, ["build", vid, pts, opts])
    sim.count("nested")


# ============================================================================================ C08

@prop("C08")
class C08(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        poly, pts, d, kind = gen.draw(r, n=r.randint(2, 9))
        sc["kind"] = kind
        vid = add_vor(sc, add_poly(sc, poly, r=r), r.random() < .75)
        prog = []
        more = 0
        bad_at = r.sample(range(4), r.choice([1, 1, 1, 2, 3]))
        k = r.randint(max(bad_at) + 1, 4)
        for i in range(k):
            if i in bad_at:
                x = r.random()
                on = r.choice(["STEP", "STEP", "DEBUG", "DEBUG", "SWEEP", "DONE", "any"])
                lim = {"STEP": 2 * len(pts), "DEBUG": 4 * len(pts), "any": 6 * len(pts)}.get(on, 1)
                nth = r.randint(1, max(1, lim))
                if r.random() < .2:
                    nth = 1
                exc = r.choice(EXCS)
                if r.random() < .4:
                    on, nth = "kind", r.randint(1, 9)
                if x < .7 or on == "kind":
                    o = add_obs(sc, acts=[{"on": on, "nth": nth, "do": "raise", "exc": exc}])
                    if on != "kind" and r.random() < .15:
                        # fails again and again
                        more = r.randint(2, 11)
                        sc["obs"][o]["acts"] = [{"on": on, "nth": nth * j, "do": "raise", "exc": exc}
                                                for j in range(1, more + 2)]
                elif x < .85:
                    o = add_obs(sc, kind="tree", text=r.random() < .5, steps=True,
                                fail={"nth": r.randint(1, len(pts)), "exc": exc})
                else:
                    o = add_obs(sc, kind="debug", fail={"nth": r.randint(1, 3 * len(pts)), "exc": exc})
                if x >= .96 and len(pts) < 9 and on != "kind":
                    o = add_obs(sc, kind="voronoi", steps=r.random() < .7, before=r.random() < .5,
                                fail={"nth": r.randint(1, len(pts)), "exc": exc})
            else:
                o = add_obs(sc)
            prog.append(["attach", vid, o])
        prog.append(["build", vid, pts, {}])
        # the failure is over: the same observers get everything of the next build
        for _ in range(r.randint(len(bad_at) - 1, len(bad_at) + 1) + more):
            prog.append(["build", vid, pts if r.random() < .6 else sites_in(r, poly) or pts, {}])
        sc["programs"] = [prog]
        if r.random() < .3:
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 5))
            w = add_vor(sc, add_poly(sc, q), True)
            o = add_obs(sc)
            sc["programs"].append([["attach", w, o], ["build", w, qp, {}]])
            sc["sched"] = random_slices(r, 2, r.randint(4, 30), 12)
        return sc

    def run(self, sc, **kw):
        base = Baselines(sc).prefetch()
        s = SnapSim(sc, probes={"make_builtin": make_builtin}, **kw)
        s.run()
        obs_of = collections.defaultdict(list)
        for prog in sc["programs"]:
            for op in prog:
                if op[0] == "attach":
                    obs_of[op[1]].append(op[2])
        for res in s.results:
            e, planned = res["exc"], res["raised_by"]
            if planned is not None and e is None:
                s.bad("swallowed", "the observer's %s did not reach the caller of create_diagram" % type(planned).__name__)
            elif planned is not None and e is not planned:
                s.bad("replaced", "the observer raised %r, the caller got %r" % (planned, e))
            if planned is not None:
                s.count("raised")
            b = base.get(res["vid"], res["points"])
            if b is None or b["exc"]:
                s.bad("exception", "the build alone fails: %s" % (b and b["exc"]))
                continue
            want = b["msgs"]
            order = obs_of[res["vid"]]
            recs = [o for o in order if sc["obs"][o]["kind"] == "rec"]
            if e is None:
                for o in recs:
                    got = messages_of(s, o, res)
                    if got != want:
                        s.bad("sequence", "%s: %s" % (o, first_diff(got, want)))
                continue
            # the build stops at the failure: those before the failing observer saw one message more than those after
            culprit = None
            for i in range(res["log"][0], res["log"][1]):
                rec = s.log[i]
                if rec[0] == "observer-raises" and rec[1] == res["tenant"]:
                    culprit = rec[2]
            if culprit is None:
                fails = [o for o in order if sc["obs"][o].get("fail")]
                culprit = fails[0] if len(fails) == 1 else None
            if culprit is None:
                continue
            got = {o: messages_of(s, o, res) for o in recs}
            ci = order.index(culprit)
            m = None
            for o in recs:
                if got[o] != want[:len(got[o])]:
                    s.bad("sequence", "before the failure %s: %s" % (o, first_diff(got[o], want)))
                k = len(got[o]) - (1 if order.index(o) <= ci else 0)
                if m is None:
                    m = k
                elif m != k:
                    s.bad("stops", "after the failure of %s the observers %s got %s messages" % (
                        culprit, recs, [len(got[x]) for x in recs]))
                    break
        compare_builds(s, base)
        s.end_unchanged()
        return s


# ============================================================================================ C09

@prop("C09")
class C09(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        sc["world"]["reuse"] = r.choice([None, None, "fifo", "lifo"])
        poly, pts, d, kind = gen.draw(r, n=r.choice([None, r.randint(2, 6), r.randint(2, 10)]))
        sc["kind"] = kind
        pid = add_poly(sc, poly, r=r)
        vid = add_vor(sc, pid, r.random() < .75)
        prog = []
        watch = add_obs(sc)
        if r.random() < .6:
            prog.append(["attach", vid, watch])
        if r.random() < .35:
            early = sites_in(r, poly)
            if early:
                prog.append(["build", add_vor(sc, pid, True), early, {}])
        if r.random() < .3:
            prog.append(["build", vid, sites_in(r, poly) or pts, {}])
        raiser = None
        many = r.random() < .12                # one interruption after the other
        for _ in range(r.randint(4, 24) if many else r.choice([1, 1, 1, 2, 3])):
            which = vid if r.random() < (.8 if many else .65) else add_vor(sc, pid, r.random() < .7)
            other = pts if r.random() < .6 else (sites_in(r, poly) or pts)
            if r.random() < .2:
                o = add_obs(sc, acts=[{"on": r.choice(["STEP", "DEBUG", "SWEEP", "DONE"]), "nth": r.choice([1, 1, 2, 3, 5]),
                                       "do": "raise", "exc": r.choice(EXCS)}])
                prog.append(["attach", which, o])
                prog.append(["build", which, other, {}])
                if r.random() < .4:
                    prog.append(["detach", which, o])
                if which != vid and r.random() < .5:
                    prog.append(["attach", vid, o])
            else:
                prog.append(["build", which, other, {"fault": random_fault(r, ctx, len(other),
                                                                          r.choice([None, None, r.choice(LINE_EXCS)]))}])
        finals = r.sample(["same", "fresh-vor", "fresh-all", "again"], r.randint(1, 3))
        for f in finals:
            if f == "same":
                prog.append(["build", vid, pts, {}])
            elif f == "again":
                prog.append(["build", vid, pts, {}])
                prog.append(["build", vid, pts, {}])
            elif f == "fresh-vor":
                prog.append(["build", add_vor(sc, pid, r.random() < .7), pts, {}])
            else:
                prog.append(["build", add_vor(sc, add_poly(sc, poly), True), pts, {}])
        sc["programs"] = [prog]
        if r.random() < .3:
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 6))
            w = add_vor(sc, add_poly(sc, q), True)
            p = [["build", w, qp, {}]]
            if r.random() < .5:
                p.insert(0, ["build", w, qp, {"fault": random_fault(r, ctx, len(qp))}])
            sc["programs"].append(p)
            sc["sched"] = random_slices(r, 2, r.randint(4, 30), 12)
        return sc

    def run(self, sc, **kw):
        base = Baselines(sc).prefetch()
        s = SnapSim(sc, **kw)
        s.run()
        compare_builds(s, base)
        s.end_unchanged()
        for res in s.results:
            if "log" not in res:
                continue
            first, end = res["log"]
            att = collections.Counter()
            for rec in s.log[:first]:
                if rec[0] in ("attach", "detach") and rec[2] == res["vid"]:
                    att[rec[3]] += 1 if rec[0] == "attach" else -1
            b = base.get(res["vid"], res["points"])
            want = b["msgs"] if b and b["msgs"] is not None else []
            # those that raised before are told everything, too
            for o, n in att.items():
                if n != 1:
                    continue
                got = messages_of(s, o, res)
                if (res["exc"] is None and got != want) or got != want[:len(got)]:
                    s.bad("sequence", "build %d: %s: %s" % (res["index"], o, first_diff(got, want)))
        if any(x["exc"] is not None for x in s.results) and any(x["exc"] is None for x in s.results):
            s.count("recoveries")
        for res in s.results:
            if res.get("fired") is not None:
                s.states.add("abort@%s" % res["opts"]["fault"]["at"])
        return s

    def nontrivial(self, sc, s):
        return s.counts["recoveries"] > 0


# ============================================================================================ C10

def ambient():
    import numpy as np
    import matplotlib
    ctx = decimal.getcontext()
    from foronoi.visualization.visualizer import Presets
    return {
        "decimal precision": ctx.prec, "decimal rounding": ctx.rounding, "decimal Emin/Emax": (ctx.Emin, ctx.Emax),
        "matplotlib settings": hash(str(sorted(matplotlib.rcParams.items(), key=lambda x: x[0]))),
        "decimal traps": sorted(k.__name__ for k, v in ctx.traps.items() if v),
        "default decimal context": repr((decimal.DefaultContext.prec, decimal.DefaultContext.rounding)),
        "numpy error state": repr(sorted(np.geterr().items())),
        "numpy print options": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "random state": hash(random.getstate()), "numpy random state": hash(str(np.random.get_state())),
        "recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(),
        "standard output": id(sys.stdout), "threads": __import__("threading").active_count(),
        "environment": hash(tuple(sorted(os.environ.items()))), "switch interval": sys.getswitchinterval(),
        "presets": repr((Presets.construction, Presets.clipping, Presets.final)),
        "warning filters": repr(__import__("warnings").filters), "gc": __import__("gc").isenabled(),
        "signal": str(__import__("signal").getsignal(2)), "excepthook": id(sys.excepthook),
        "umask": umask(), "locale": __import__("locale").setlocale(__import__("locale").LC_ALL),
    }


def process(sim, t, settings):
    """The caller's process uses other settings than the usual ones: none of the library's business."""
    import numpy as np
    for k, v in settings.items():
        if k == "errstate":
            np.seterr(**v)
        elif k == "printoptions":
            np.set_printoptions(**v)
        elif k == "seed":
            random.seed(v)
            np.random.seed(v % 2 ** 32)
        elif k == "recursion":
            sys.setrecursionlimit(sys.getrecursionlimit() + v)
        elif k == "switch":
            sys.setswitchinterval(v)
        elif k == "gc":
            __import__("gc").disable()
        elif k == "warnings":
            __import__("warnings").simplefilter(v)
        elif k == "umask":
            os.umask(v)
        elif k == "environ":
            os.environ.update(v)
        elif k == "emax":
            decimal.getcontext().Emax = v
            decimal.getcontext().Emin = -v
        elif k == "traps":
            decimal.getcontext().traps[decimal.Underflow] = v
    sim.count("process_settings", len(settings))


def settings_of(r):
    every = {"errstate": {k: r.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")},
             "printoptions": {"precision": r.randint(2, 12), "suppress": True}, "seed": r.randint(0, 10 ** 9),
             "recursion": r.choice([-400, -200, 500, 2000]), "switch": r.choice([.001, .02]), "gc": 1,
             "warnings": "ignore", "umask": r.choice([0o22, 0o77]),
             "environ": {"FORONOI": "1"}, "emax": r.choice([9999, 99999]), "traps": True}
    return {k: every[k] for k in r.sample(sorted(every), r.randint(1, 5))}


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


class AmbientSim(SnapSim):
    def build(self, t, vid, points, opts):
        poly = self.poly(self.sc["vors"][vid]["poly"])
        before = ambient()
        coords = [(str(a), str(b)) for a, b in poly.get_coordinates()]
        size = (str(poly.min_x), str(poly.max_x), str(poly.min_y), str(poly.max_y))
        nout = len(self.sinks["stdout"]) if hasattr(self, "sinks") else 0
        multi = len(self.sc["programs"]) > 1
        res = super().build(t, vid, points, opts)
        after = ambient()
        for k in before:
            if before[k] != after[k] and not (multi and k == "threads"):
                self.bad("ambient", "%s changed from %s to %s during a build" % (k, before[k], after[k]))
        if coords != [(str(a), str(b)) for a, b in poly.get_coordinates()] or \
                size != (str(poly.min_x), str(poly.max_x), str(poly.min_y), str(poly.max_y)):
            self.bad("polygon-changed", "the polygon's own coordinates changed during a build")
        if hasattr(self, "sinks") and not multi and len(self.sinks["stdout"]) != nout:
            self.bad("output", "a build without observers printed %r" % (self.sinks["stdout"][nout],))
        self.count("ambient_checks")
        return res


def reread(sim, t, vid):
    """Accessors called again and again give the same answer and change nothing."""
    V = sim.vor(vid)
    if V.sites is None:
        return
    last = [x for x in sim.results if x["vid"] == vid]
    if not last or last[-1]["exc"] is not None:
        return
    t.hold += 1
    try:
        a = sim.form(vid)
        one = [(s.area(), [id(h) for h in s.borders()], [id(x) for x in s.vertices()]) for s in V.sites]
        ids = (sorted(map(id, V.vertices)), [id(e) for e in V.edges], sorted(map(id, V.arcs)))
        lists = [V.vertices, V.arcs] + [s.borders() for s in V.sites[:3]] + [s.vertices() for s in V.sites[:3]]
        for l in lists:
            del l[:]
        read_all(sim, V)
        two = [(s.area(), [id(h) for h in s.borders()], [id(x) for x in s.vertices()]) for s in V.sites]
        if one != two or a != sim.form(vid) or ids != (sorted(map(id, V.vertices)), [id(e) for e in V.edges],
                                                        sorted(map(id, V.arcs))):
            sim.bad("accessors", "reading %s changed what it reads" % vid)
        sim.count("rereads")
    except oracle.Broken as e:
        sim.bad("broken-diagram", str(e))
    except Exception as e:
        sim.bad("accessors", "reading %s raises %s: %s" % (vid, type(e).__name__, e))
    finally:
        t.hold -= 1


@prop("C10")
class C10(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        sc["world"]["reuse"] = r.choice([None, "fifo", "lifo"])
        prog = []
        polys = []
        for _ in range(r.randint(1, 3)):
            poly, pts, d, kind = gen.draw(r, n=r.choice([None, r.randint(2, 6), r.randint(2, 10)]))
            sc["kind"] = kind
            polys.append((add_poly(sc, poly, r=r), poly, [pts]))
        vors = []
        long = ctx.tier != "quick" and r.random() < .1 or r.random() < .05
        for k in range(r.randint(8, 30) if long else r.randint(2, 6)):
            pid, poly, known = r.choice(polys)
            mine = [v for v in vors if sc["vors"][v]["poly"] == pid]
            if mine and r.random() < .45:
                vid = r.choice(mine)
            else:
                vid = add_vor(sc, pid, r.random() < .75)
                vors.append(vid)
            if r.random() < .5:
                pts = r.choice(known)
                if r.random() < .3:
                    # the same sites in another arrival order
                    pts = list(pts)
                    r.shuffle(pts)
            else:
                pts = sites_in(r, poly) or known[0]
                known.append(pts)
            opts = {"form": r.choice([None, None] + FORMS)}
            if r.random() < .12:
                opts["fault"] = random_fault(r, ctx, len(pts))
            prog.append(["build", vid, pts, opts])
            if r.random() < .3:
                prog.append(["reread", r.choice(vors)])
            if r.random() < .3:
                prog.append(["drop", r.choice([vid, vid, r.choice(vors)])])
        if r.random() < .25:
            # numbers kept by the caller with another precision: not the library's to change
            prog.insert(0, ["ctx", r.choice([28, 40, 50]), r.choice([None, "ROUND_DOWN", "ROUND_UP", "ROUND_HALF_UP",
                                                                     "ROUND_CEILING", "ROUND_FLOOR", "ROUND_05UP"])])
        sc["programs"] = [prog]
        if r.random() < .2:
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 6))
            w = add_vor(sc, add_poly(sc, q), True)
            sc["programs"].append([["build", w, qp, {}]])
            sc["sched"] = random_slices(r, 2, r.randint(4, 30), 12)
        elif r.random() < .4:
            for _ in range(r.choice([1, 1, 2])):
                prog.insert(r.randint(0, len(prog)), ["process", settings_of(r)])
        return sc

    def run(self, sc, **kw):
        ctx = any(op[0] == "ctx" and (op[1] != 28 or op[2]) for op in sc["programs"][0])
        base = Baselines2(sc)
        if not ctx:
            base.prefetch()
        s = AmbientSim(sc, probes={"reread": reread, "process": process, "make_builtin": make_builtin}, **kw)
        with quiet_sinks(s):
            s.run()
        if not ctx:
            compare_builds(s, base)
        else:
            # equal builds of one run are equal to each other
            seen = {}
            for res in s.results:
                if res["exc"] is None and res["tenant"] == 0:
                    v = sc["vors"][res["vid"]]
                    k = json.dumps([v["poly"], v["rz"], res["points"]])
                    got = s.user["snapped"][res["index"]]
                    if seen.setdefault(k, got) != got:
                        s.bad("differs", "building the same diagram twice gives two results")
        s.end_unchanged()
        return s


# ============================================================================================ C11

@prop("C11")
class C11(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        sc["grain"] = "opcode" if r.random() < .2 else "line"
        small = sc["grain"] == "opcode"
        nt = r.choice([2, 2, 2, 3, 4])
        sc["programs"] = []
        twin = r.random() < .2
        first = None
        for k in range(nt):
            n = r.randint(2, 4) if small else r.randint(2, 7)
            if twin and first:
                poly, pts = copy.deepcopy(first[0]), copy.deepcopy(first[1])
                if r.random() < .5:
                    r.shuffle(pts)
            else:
                poly, pts, d, kind = gen.draw(r, n=n)
                sc["kind"] = kind
                first = (poly, pts)
            prog = []
            if r.random() < .25:
                prog.append(["ctx", r.choice([28, 28, 12, 60]), None])
            pid = add_poly(sc, poly, r=r)
            vid = add_vor(sc, pid, r.random() < .7)
            if r.random() < .8:
                prog.append(["attach", vid, add_obs(sc)])
            if r.random() < .2:
                prog.append(["attach", vid, add_obs(sc, acts=[{"on": "STEP", "do": "read"}])])
            if r.random() < .25:
                prog.append(["attach", vid, add_obs(sc, kind="tree", text=r.random() < .5, steps=True)])
            if r.random() < .2:
                prog.append(["build", vid, pts, {"fault": random_fault(r, ctx, len(pts))}])
            prog.append(["build", vid, pts, {}])
            if r.random() < .2:
                prog.append(["build", vid, sites_in(r, poly) or pts, {}])
            if r.random() < .3:
                prog.append(["read", vid])
            sc["programs"].append(prog)
        x = r.random()
        scale = {True: 30, False: 400}[x < .5] * (8 if small else 1)
        if r.random() < .6:
            # switch all the time, from the first line to the last
            sc["storm"] = [r.getrandbits(32), r.choice([1, 4, 12, 40, 150]) * (6 if small else 1)]
            if r.random() < .5:
                sc["sched"] = random_slices(r, nt, r.randint(1, 6), scale)
        else:
            sc["sched"] = random_slices(r, nt, r.randint(6, 60), scale)
        return sc

    def run(self, sc, **kw):
        base = Baselines(sc).prefetch()
        s = SnapSim(sc, probes={"make_builtin": make_builtin}, **kw)
        before = ambient()
        s.run()
        after = ambient()
        for k in before:
            if k != "threads" and before[k] != after[k]:
                s.bad("ambient", "%s was %s before the builds and is %s after them" % (k, before[k], after[k]))
        own = {i: any(op[0] == "ctx" and op[1] != 28 for op in p) for i, p in enumerate(sc["programs"])}
        compare_builds(s, base, only=lambda res: not own[res["tenant"]])
        s.end_unchanged()
        att = collections.defaultdict(list)
        for prog in sc["programs"]:
            for op in prog:
                if op[0] == "attach":
                    att[op[1]].append(op[2])
        owner = {o: v for v, os_ in att.items() for o in os_}
        for rec in s.log:
            if rec[0] == "msg" and owner.get(rec[2]) != rec[3]:
                s.bad("stray", "%s, attached to %s, got a message of %s" % (rec[2], owner.get(rec[2]), rec[3]))
                break
        for res in s.results:
            if own[res["tenant"]]:
                continue
            b = base.get(res["vid"], res["points"])
            for o in att[res["vid"]]:
                if sc["obs"][o]["kind"] != "rec" or b is None or b["msgs"] is None:
                    continue
                got = messages_of(s, o, res)
                if (res["exc"] is None and got != b["msgs"]) or got != b["msgs"][:len(got)]:
                    s.bad("sequence", "%s of tenant %d: %s" % (o, res["tenant"], first_diff(got, b["msgs"])))
        if len([x for x in s.slices if x[1]]) > len(sc["programs"]):
            s.count("interleaved")
        return s

    def nontrivial(self, sc, s):
        return s.counts["interleaved"] > 0


# ============================================================================================ C12

SETTINGS = [None, {}, {"site_labels": True}, {"sites": False}, {"vertices": False}, {"edges": False},
            {"site_labels": True, "edge_labels": True}, {"polygon": True}, {"sites": False, "vertices": False}]


@prop("C12")
class C12(Base):
    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        heavy = r.random() < .3
        n = r.randint(1, 4) if heavy else r.randint(1, 9)
        poly, pts, d, kind = gen.draw(r, n=n)
        sc["kind"] = kind
        pid = add_poly(sc, poly, r=r)
        vid = add_vor(sc, pid, r.random() < .75)
        lead = add_obs(sc, acts=[{"on": "any", "do": "probe", "name": "subject"}])
        prog = [["attach", vid, lead]]
        kinds = []
        for _ in range(r.randint(1, 3)):
            k = r.choice(["tree", "tree", "debug"] + (["voronoi"] * 3 if heavy else []))
            spec = {"kind": k, "default": r.random() < .3}
            if k != "debug":
                spec["steps"] = r.random() < .6
                spec["result"] = r.random() < .7
            if k == "tree":
                spec["text"] = r.random() < .5
            if k == "voronoi":
                spec["before"] = r.random() < .5
                spec["settings"] = r.choice(SETTINGS)
                spec["figsize"] = r.choice([None, [4, 4], [5, 3]])
                spec["offset"] = r.choice([None, 0, 2, 0.5])
            if not spec["default"] and r.random() < .2:
                spec["empty"] = True
            if not spec["default"] and r.random() < .25:
                spec["fail"] = {"nth": r.randint(1, 2 * n + 1), "exc": r.choice(["OSError", "BrokenPipe", "KeyboardInterrupt",
                                                                               "InjectedError", "MemoryError"])}
            kinds.append(k)
            prog.append(["attach", vid, add_obs(sc, **spec)])
        if r.random() < .3:
            sc["sinks"] = {r.choice(["stdout", "stdout", "render", "show"]): {
                "nth": r.randint(1, 2 * n + 1), "exc": r.choice(["OSError", "BrokenPipe"])}}
        r.shuffle(prog)
        prog.remove(["attach", vid, lead])
        prog.insert(0, ["attach", vid, lead])
        prog.append(["build", vid, pts, {}])
        for _ in range(r.choice([0, 0, 1, 1])):
            prog.append(["build", vid, (sites_in(r, poly, r.randint(1, n)) or pts) if r.random() < .5 else pts, {}])
        if r.random() < .25:
            # the observers move on to another diagram
            q, qp, qd, _ = gen.draw(r, n=r.randint(1, 3))
            w = add_vor(sc, add_poly(sc, q), True)
            obs = [op[2] for op in prog if op[0] == "attach"]
            prog += [["attach", w, o] for o in obs] + [["build", w, qp, {}]]
        sc["programs"] = [prog]
        return sc

    def run(self, sc, **kw):
        base = Baselines(sc).prefetch()
        from foronoi.visualization.visualizer import Presets
        before = repr((Presets.construction, Presets.clipping, Presets.final))
        s = SnapSim(sc, probes={"make_builtin": make_builtin, "subject": probe_subject}, **kw)
        with quiet_sinks(s):
            s.run()
        if repr((Presets.construction, Presets.clipping, Presets.final)) != before:
            s.bad("presets", "the shared presets changed")
        for oid, given in s.user.get("settings", {}).items():
            if given != sc["obs"][oid]["settings"]:
                s.bad("presets", "the settings given to %s changed" % oid)
        compare_builds(s, base)
        self.judge(s, sc)
        return s

    def judge(self, s, sc):
        lead = next(o for o in sc["obs"] if sc["obs"][o].get("acts"))
        msgs = [(r[3], r[4], r[5]) for r in s.log if r[0] == "msg" and r[2] == lead]
        order = [op[2] for op in sc["programs"][0] if op[0] == "attach"]
        sink_out, sink_render, sink_show = [], 0, 0
        default_out_users = 0
        for oid, o in s.user.get("builtins", {}).items():
            spec = sc["obs"][oid]
            k = spec["kind"]
            script = s.user.get("scripts", {}).get(oid)
            if k == "debug":
                want = [m[2] for m in msgs if m[1] == "DEBUG" and attached(s, oid, m)]
            elif k == "tree":
                want = [m[1] for m in msgs if (m[1] == "STEP" and spec["steps"]) or
                        (m[1] == "DONE" and spec["result"] and not spec["steps"])]
            else:
                want = [m[1] for m in msgs if (m[1] == "STEP" and spec["steps"]) or
                        (m[1] == "SWEEP" and spec["before"]) or (m[1] == "DONE" and spec["result"])]
            # an aborted build ends the sequence early: the observer may miss the very last message of it
            aborted = sum(1 for x in s.results if x["exc"] is not None)
            if spec.get("default"):
                if k == "debug":
                    sink_out.append(("debug", len(want)))
                elif k == "tree" and spec.get("text"):
                    sink_out.append(("tree", len(want)))
                elif k == "tree":
                    sink_render += len(want)
                else:
                    sink_show += len(want)
                done = None
            else:
                calls = script.calls
                done = sum(1 for c in calls if not c["failed"])
                if not (len(want) - aborted <= len(calls) <= len(want)):
                    s.bad("callbacks", "%s (%s) was called %d times for %d occasions" % (oid, k, len(calls), len(want)))
                    continue
                if aborted == 0 and k == "debug" and [c["text"] for c in calls] != want:
                    s.bad("callbacks", "the debug messages passed on differ")
                good = 0
                for c in calls:
                    self.content(s, oid, spec, o, c)
                    if k != "debug" and c["n_before"] != good:
                        s.bad("counter", "%s has n_messages=%d after %d callbacks" % (oid, c["n_before"], good))
                        break
                    good += not c["failed"]
                if k != "debug":
                    if o.n_messages != good or len(o.messages) != good:
                        s.bad("counter", "%s has n_messages=%d and %d messages after %d callbacks" % (
                            oid, o.n_messages, len(o.messages), good))
            if k != "debug" and aborted == 0:
                names = {"STEP_FINISHED": "STEP", "SWEEP_FINISHED": "SWEEP", "VORONOI_FINISHED": "DONE"}
                got = [names.get(m.name, m.name) for m in o.messages]
                if got != want:
                    s.bad("counter", "%s recorded messages %s, it was to show %s" % (oid, got[:12], want[:12]))
            s.count("builtin:" + k)
        if all(x["exc"] is None for x in s.results):
            if len(s.sinks["render"]) != sink_render:
                s.bad("callbacks", "GraphViz was asked to render %d times for %d occasions" % (len(s.sinks["render"]), sink_render))
            if len(s.sinks["show"]) != sink_show:
                s.bad("callbacks", "the window was shown %d times for %d occasions" % (len(s.sinks["show"]), sink_show))
            nd = sum(n for k, n in sink_out if k == "debug")
            if all(k == "debug" for k, _ in sink_out) and len(s.sinks["stdout"]) != nd:
                s.bad("callbacks", "%d lines were printed for %d debug messages" % (len(s.sinks["stdout"]), nd))
            if not sink_out and s.sinks["stdout"]:
                s.bad("callbacks", "something was printed although every observer has a callback")
        for res in s.results:
            p = res["raised_by"]
            if p is not None and res["exc"] is not p:
                s.bad("swallowed", "the failing output raised %r, the caller got %r" % (p, res["exc"]))
        self.outputs(s, sc, lead)

    def outputs(self, s, sc, lead):
        """What the default outputs (print, GraphViz, window) got, against what there was at that moment."""
        uses = [sc["obs"][o] for o in s.user.get("builtins", {}) if sc["obs"][o].get("default")]
        n_tree = sum(1 for x in uses if x["kind"] == "tree" and x.get("text"))
        n_debug = sum(1 for x in uses if x["kind"] == "debug")
        figs = [o for o in s.user.get("builtins", {}) if sc["obs"][o].get("default") and sc["obs"][o]["kind"] == "voronoi"]
        lines, trees = collections.defaultdict(str), {}
        for name, k, what, tree in s.user.get("shown", []):
            if name == "stdout":
                lines[k] += what
                trees[k] = tree
            elif name == "render":
                if what.get("pre") != tree:
                    return s.bad("content", "the rendered graph is not the tree of that moment: %s" % str(what)[:200])
                s.count("output_checks")
            elif len(figs) == 1:
                self.content(s, figs[0], sc["obs"][figs[0]], None, dict(what, self=True))
                s.count("output_checks")
        if any(x["exc"] is not None for x in s.results):
            return
        k = 0
        for rec in s.log:
            if rec[0] != "msg" or rec[2] != lead:
                continue
            k += 1
            if k not in lines:
                continue
            if rec[4] == "DEBUG":
                want = [x.strip() for x in str(rec[5]).split("\n") if x.strip()] * n_debug
                if [x.strip() for x in lines[k].split("\n") if x.strip()] != want:
                    return s.bad("content", "printed %r for the debug message %r" % (lines[k][:200], rec[5]))
            elif trees[k] is not None:
                got, one = text_tree(lines[k]), inorder(trees[k])
                m = len(got) // len(one)
                if got != one * m or m > n_tree:
                    return s.bad("content", "the printed text is not the tree of that moment: %r" % lines[k][:200])
            s.count("output_checks")

    def content(self, s, oid, spec, o, c):
        k = spec["kind"]
        if k == "tree":
            if spec.get("text"):
                if not isinstance(c.get("text"), str) or c["nargs"] != 1:
                    return s.bad("callbacks", "%s passed %d arguments, no text" % (oid, c["nargs"]))
                if c["tree"] is not None and text_tree(c["text"]) != inorder(c["tree"]):
                    s.bad("content", "the text of %s is not the tree of that moment: %r" % (oid, c["text"][:200]))
            else:
                if not c.get("self") or not c.get("dot"):
                    return s.bad("callbacks", "%s did not pass itself and a graph" % oid)
                if c["tree"] is not None and c["dot"].get("pre") != c["tree"]:
                    s.bad("content", "the graph of %s is not the tree of that moment: %s" % (oid, str(c["dot"])[:200]))
                if c["tree"] is not None and c["plotted"].get("pre") != c["tree"]:
                    s.bad("content", "the tree visualizer does not draw the tree: %s" % str(c["plotted"])[:200])
            s.count("content_checks")
        elif k == "voronoi":
            if not c.get("self") or not c.get("fig"):
                return s.bad("callbacks", "%s did not pass itself and a figure" % oid)
            f = c["fig"]
            size = spec.get("figsize") or [8, 8]
            if [round(x, 6) for x in f["size"]] != [float(x) for x in size]:
                s.bad("content", "the figure of %s measures %s, asked for %s" % (oid, f["size"], size))
            if "bounds" not in c:
                return
            off = spec["offset"] if spec.get("offset") is not None else 1
            b = c["bounds"]
            want = [b[0] - off, b[1] + off, b[2] - off, b[3] + off]
            if any(abs(x - y) > 1e-9 * max(1, abs(y)) for x, y in zip(f["xlim"] + f["ylim"], want)):
                s.bad("content", "the figure of %s shows %s, asked for %s" % (oid, f["xlim"] + f["ylim"], want))
            st = dict(spec.get("settings") or {})
            have = set((round(x, 9), round(y, 9)) for x, y in f["offsets"])
            if st.get("sites", True):
                if any((round(x, 9), round(y, 9)) not in have for x, y, _ in c["sites"]):
                    s.bad("content", "a site is missing in the figure of %s" % oid)
            if st.get("vertices", True):
                if any((round(x, 9), round(y, 9)) not in have for x, y in c["verts"]):
                    s.bad("content", "a vertex is missing in the figure of %s" % oid)
            if c["edges"]:
                lines = set(tuple(round(v, 9) for v in l) for l in f["lines"])
                if st.get("edges", True):
                    for e in c["edges"]:
                        e = tuple(round(v, 9) for v in e)
                        if e not in lines and e[2:] + e[:2] not in lines:
                            s.bad("content", "an edge is missing in the figure of %s" % oid)
                            break
                elif lines:
                    s.bad("content", "%s was asked not to show edges" % oid)
                if not st.get("sites", True) and not st.get("vertices", True) and have:
                    s.bad("content", "%s was asked to show neither sites nor vertices" % oid)
                labels = [t for t in f["texts"] if re.fullmatch(r"P\d+", t)]
                if st.get("site_labels") and st.get("sites", True):
                    if sorted(labels) != sorted("P%s" % x[2] for x in c["sites"]):
                        s.bad("content", "%s shows the site labels %s" % (oid, labels))
                elif labels:
                    s.bad("content", "%s shows site labels nobody asked for" % oid)
            s.count("content_checks")

    def nontrivial(self, sc, s):
        return s.counts["callbacks"] + sum(v for k, v in s.counts.items() if k.startswith("sink_calls")) > 0

    stubs = ["sys.stdout, graphviz.Digraph.render and matplotlib.pyplot.show: recording sinks that can fail",
             "matplotlib: real, Agg backend"]


def attached(s, oid, m):
    return True


def probe_subject(sim, t, o, V, short):
    sim.user.setdefault("subject", {})[t.tid] = V
    sim.user.setdefault("last_kind", {})[t.tid] = short
    sim.user["moment"] = sim.user.get("moment", 0) + 1


# ============================================================================================ C13

ALT = {"proc": None, "seed": None}


def alt_start(hashseed="4242"):
    """A second interpreter with another PYTHONHASHSEED that runs builds on request."""
    import subprocess
    if ALT["proc"] is not None and ALT["proc"].poll() is None:
        return
    code = ("import sys; sys.path.insert(0, %r); from fsim import props, props2; props2.alt_serve()" % env.HERE)
    ALT["proc"] = subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], env=env.child_env(hashseed),
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=env.HERE)
    ALT["seed"] = hashseed


def alt_serve():
    env.load()
    import warnings
    warnings.simplefilter("ignore")
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = forked(lambda: fingerprint(q["sc"]))
        except BaseException as e:
            r = {"error": repr(e)}
        out.write(json.dumps(r) + "\n")
        out.flush()


def alt_ask(sc):
    p = ALT["proc"]
    p.stdin.write((json.dumps({"sc": sc}) + "\n").encode())
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        return {"error": "the second interpreter died"}
    return json.loads(line)


def fingerprint(sc):
    """Everything observable about a run: diagrams, messages, tree texts."""
    s = SnapSim(sc, probes={"make_builtin": make_builtin})
    with quiet_sinks(s):
        s.run()
    scripts = {o: [(c.get("text"), c.get("dot", {}) and c.get("dot", {}).get("pre") if c.get("dot") else None)
                   for c in x.calls] for o, x in s.user.get("scripts", {}).items()}
    out = {"builds": [[r["vid"], type(r["exc"]).__name__ if r["exc"] is not None else "ok",
                       s.user.get("snapped", {}).get(r["index"])] for r in s.results],
           "messages": [list(r[1:]) for r in s.log if r[0] == "msg"], "scripts": scripts, "bad": s.violations,
           "counts": dict(s.counts), "arcs": None}
    return json.loads(json.dumps(out))


@prop("C13")
class C13(Base):
    state_measure = "not used"
    rule = ("each run executes one scenario under 3 to 5 assignments of object hashes/addresses and in a second "
            "interpreter with another PYTHONHASHSEED, and compares everything observable; distinct by event log")

    def setup(self):
        alt_start()

    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        poly, pts, d, kind = gen.draw(r, kinds=[("smallint", 5), ("int", 3), ("circle", 5), ("lattice", 4), ("sym", 4),
                                                ("box", 3), ("hull", 3), ("rows", 2), ("onbound", 2), ("ngon", 2)])
        sc["kind"] = kind
        pid = add_poly(sc, poly, r=r)
        vid = add_vor(sc, pid, r.random() < .75)
        prog = [["attach", vid, add_obs(sc)]]
        if r.random() < .4:
            prog.append(["attach", vid, add_obs(sc, kind="tree", text=r.random() < .5, steps=True)])
        prog.append(["build", vid, pts, {}])
        if r.random() < .5:
            prog.append(["build", add_vor(sc, pid, True), sites_in(r, poly) or pts, {}])
        if r.random() < .3:
            prog.append(["build", vid, pts, {}])
        sc["programs"] = [prog]
        if r.random() < .3:
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 6))
            w = add_vor(sc, add_poly(sc, q), True)
            sc["programs"].append([["build", w, qp, {}]])
            sc["sched"] = random_slices(r, 2, r.randint(4, 30), 12)
        sc["hashes"] = [r.getrandbits(32) for _ in range(r.randint(3, 5))]
        return sc

    def run(self, sc, **kw):
        runs = []
        for h in sc["hashes"]:
            q = copy.deepcopy(sc)
            q["world"]["hash"] = h
            q["world"]["reuse"] = [None, "fifo", "lifo"][h % 3]
            runs.append(forked(lambda: fingerprint(q)))
        other = alt_ask(sc) if ALT["proc"] is not None else None
        s = SnapSim(sc, probes={"make_builtin": make_builtin}, **kw)
        with quiet_sinks(s):
            s.run()
        ref = runs[0]
        if ref is None:
            s.bad("exception", "a run died")
            return s
        for i, x in enumerate(runs[1:]):
            self.cmp(s, ref, x, "under another assignment of addresses")
        if other is not None:
            if "error" in other:
                raise RuntimeError(other["error"])
            self.cmp(s, ref, other, "under another PYTHONHASHSEED")
            s.count("interpreters_compared")
        s.count("address_assignments", len(runs))
        return s

    def cmp(self, s, a, b, how):
        if b is None:
            return s.bad("irreproducible", "the run died " + how)
        for k in ("builds", "messages", "scripts"):
            if a[k] != b[k]:
                d = ""
                if k == "builds":
                    for x, y in zip(a[k], b[k]):
                        if x != y:
                            d = oracle.diff(x[2], y[2]) if isinstance(x[2], dict) and isinstance(y[2], dict) else "%s / %s" % (
                                x[:2], y[:2])
                            break
                else:
                    d = str(next(((x, y) for x, y in zip(a[k], b[k]) if x != y), "")) if isinstance(a[k], list) else ""
                return s.bad("irreproducible", "%s differ %s: %s" % (k, how, d[:300]))
