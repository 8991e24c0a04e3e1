"""C18 (the cost of the sweep) and C19 (the balanced tree under histories of operations)."""
import math
import random
import sys

from .common import add_obs, add_poly, add_vor, new_sc, random_fault, random_slices, sites_in
from .props import Base, prop
from .sim import FORONOI_DIR, Sim, StepBudget

COST_TOOL = 5
FACTOR = 2.2        # a build may take this much more than n log n times the rate of smaller builds


# ============================================================================================ C18

FAMILIES = ("uniform", "stairs", "parabola", "vee", "zigzag", "row", "column", "lattice", "turned", "circle", "comb",
            "two-rows", "spiral", "clusters", "hexagons")


def family(kind, n, r):
    """n sites of one kind of arrangement, roughly within [-1, 1] squared."""
    if kind == "uniform":
        return [(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(n)]
    if kind == "stairs":
        k = r.choice([1, 1.37, .01, 20])
        return [(i / n, k * i / n) for i in range(n)]
    if kind == "parabola":
        return [(i / n, (i / n) ** 2) for i in range(n)]
    if kind == "vee":
        return [((-1) ** i * (n - i) / n, i / n) for i in range(n)]
    if kind == "zigzag":
        return [((-1) ** i * i / n, i / n) for i in range(n)]
    if kind == "row":
        return [(i / n, 0) for i in range(n)]
    if kind == "column":
        return [(0, i / n) for i in range(n)]
    if kind in ("lattice", "turned"):
        k = int(math.ceil(math.sqrt(n)))
        pts = [(2 * i / k - 1, 2 * j / k - 1) for i in range(k) for j in range(k)][:n]
        if kind == "turned":
            a = r.uniform(0, 6)
            pts = [(math.cos(a) * x - math.sin(a) * y, math.sin(a) * x + math.cos(a) * y) for x, y in pts]
        return pts
    if kind == "hexagons":
        k = int(math.ceil(math.sqrt(n)))
        return [((2 * i + j % 2) / k - 1, 1.7 * j / k - 1) for i in range(k) for j in range(k)][:n]
    if kind == "circle":
        return [(math.cos(6.28318 * i / n), math.sin(6.28318 * i / n)) for i in range(n)]
    if kind == "comb":
        return [(i / n, 1e-3 * (i * 7919 % n) / n) for i in range(n)]
    if kind == "two-rows":
        h = n // 2
        return [(i / h, .01 * i / h) for i in range(h)] + [((i + .5) / h, 1 - .01 * i / h) for i in range(n - h)]
    if kind == "spiral":
        return [(i / n * math.cos(.7 * i), i / n * math.sin(.7 * i)) for i in range(n)]
    if kind == "clusters":
        c = [(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(5)]
        return [(c[i % 5][0] + r.gauss(0, .01), c[i % 5][1] + r.gauss(0, .01)) for i in range(n)]
    raise AssertionError(kind)


def placed(pts, m, order, r):
    """The arrangement under a fixed map, in a chosen listing order, without doubles."""
    swap, sx, sy, ox, oy = m
    out, seen = [], set()
    for x, y in pts:
        if swap:
            x, y = y, x
        p = (round(sx * x + ox, 6), round(sy * y + oy, 6))
        if p not in seen:
            seen.add(p)
            out.append(list(p))
    if order == "sorted":
        out.sort()
    elif order == "reversed":
        out.reverse()
    elif order == "shuffled":
        r.shuffle(out)
    return out


def depth_of(root):
    """Height of the tree and its number of leaves, from the links alone."""
    h, leaves, todo = 0, 0, [(root, 1)]
    while todo:
        n, d = todo.pop()
        h = max(h, d)
        if n.left is None and n.right is None:
            leaves += 1
        for c in (n.left, n.right):
            if c is not None:
                todo.append((c, d + 1))
        if d > 100000:
            break
    return h, leaves


def probe_height(sim, t, o, V, short):
    if short != "STEP" or V.status_tree is None:
        return
    k = sim.user.setdefault("steps", {})
    k[t.tid] = k.get(t.tid, 0) + 1
    n = len(V.sites or ())
    if n > 60 and k[t.tid] % (3 if n < 200 else 11):
        return
    h, leaves = depth_of(V.status_tree)
    top = sim.user.setdefault("leaves", {})
    top[t.tid] = most = max(top.get(t.tid, 0), leaves)
    if h > 2 * math.log2(most + 1) + 2:
        sim.bad("unbalanced", "the beach line tree is %d levels high; it never had more than %d leaves" % (h, most))
    sim.count("heights")
    sim.counts["max_height_x100"] = max(sim.counts["max_height_x100"], int(100 * h / (2 * math.log2(most + 1) + 2)))
    sim.states.add((h, leaves))


# Calls that go through everything they are given in one step of the interpreter
WHOLE = {list, tuple, set, frozenset, sorted, sum, min, max, any, all, list.copy, list.index, list.insert, list.count,
         list.remove, list.sort, list.reverse, set.copy, dict.copy, set.union, set.difference, set.intersection}


class CostSim(Sim):
    """Counts the lines and jumps the library executes in every build, and the elements it has gone through in C."""

    by_code = {}

    def monitor_cost(self, on):
        m = sys.monitoring
        if on:
            m.use_tool_id(COST_TOOL, "fsim-cost")
            for e in (m.events.LINE, m.events.JUMP):
                m.register_callback(COST_TOOL, e, self._on_step)
            m.register_callback(COST_TOOL, m.events.CALL, self._on_call)
            m.set_events(COST_TOOL, m.events.LINE | m.events.JUMP | m.events.CALL)
        elif m.get_tool(COST_TOOL) == "fsim-cost":
            m.set_events(COST_TOOL, 0)
            for e in (m.events.LINE, m.events.JUMP, m.events.CALL):
                m.register_callback(COST_TOOL, e, None)
            m.free_tool_id(COST_TOOL)

    def _on_step(self, code, where, dest=None):
        if not code.co_filename.startswith(FORONOI_DIR):
            return sys.monitoring.DISABLE
        t = self.cur
        if t is not None:
            t.cost = getattr(t, "cost", 0) + 1
            k = id(code)
            self.by_code[k] = self.by_code.get(k, 0) + 1
            if t.cost > getattr(t, "allowed", t.cost):
                t.allowed = 1 << 60
                raise StepBudget("more than %d steps, which is out of proportion to smaller builds" % (t.cost - 1))

    def _on_call(self, code, where, func, arg):
        try:
            whole = func in WHOLE
        except TypeError:
            whole = False
        if not whole or not code.co_filename.startswith(FORONOI_DIR):
            return sys.monitoring.DISABLE
        if type(arg) not in (list, tuple, set, frozenset, dict):
            return
        t = self.cur
        if t is not None:
            t.cost = getattr(t, "cost", 0) + len(arg)
            k = id(code)
            self.by_code[k] = self.by_code.get(k, 0) + len(arg)

    def run(self):
        self.monitor_cost(True)
        patched = self.count_comparisons()
        try:
            return super().run()
        finally:
            for cls in patched:
                del cls.__eq__
            self.monitor_cost(False)

    def count_comparisons(self):
        """A search through a list ("edge in edges", "list.remove") compares with every element: that is work, too,
        although no line of the library is executed for it. Objects compared by identity count every comparison."""
        from foronoi.graph import Coordinate, HalfEdge
        from foronoi.nodes.arc import Arc
        from foronoi.nodes.breakpoint import Breakpoint
        from foronoi.tree.node import Node

        def compared(a, b):
            t = self.cur
            if t is not None:
                t.cost = getattr(t, "cost", 0) + 1
                self.by_code[0] = self.by_code.get(0, 0) + 1
            return NotImplemented
        patched = []
        for cls in (Coordinate, HalfEdge, Arc, Breakpoint, Node):
            if cls.__eq__ is object.__eq__:
                cls.__eq__ = compared
                patched.append(cls)
        return patched

    def build(self, t, vid, points, opts):
        self.user.setdefault("leaves", {})[t.tid] = 0
        t.cost, self.by_code = 0, {}
        limit = sys.getrecursionlimit()
        rate = self.rate(vid, len(points))
        if rate is not None:
            t.allowed = int(FACTOR * rate * len(points) * math.log2(len(points)))
        if opts.get("stack"):
            depth, f = 0, sys._getframe()
            while f is not None:
                depth, f = depth + 1, f.f_back
            sys.setrecursionlimit(depth + opts["stack"])
            self.count("fault:shallow-stack")
        try:
            res = super().build(t, vid, points, opts)
        finally:
            sys.setrecursionlimit(limit)
            t.allowed = 1 << 60
        res["steps"], res["by_code"] = t.cost, self.by_code
        if res["exc"] is None:
            self.compare(res)
            if opts.get("escalate") and not self.violations and self.suspicious(res):
                self.escalate(t, vid, points, opts["escalate"])
        return res

    def suspicious(self, res):
        """Is there a function whose share grows so fast that it would dominate a larger build? Only a reason to look."""
        n = len(res["points"])
        for a in self.results:
            m = len(a["points"])
            if a["exc"] is None and a["opts"].get("family") == 1 and 24 <= m < n / 2:
                for k, c in res["by_code"].items():
                    if c > .08 * res["steps"] and c > max(60, a["by_code"].get(k, 0)) * (n / m) ** 1.55:
                        return True
        return False

    def escalate(self, t, vid, points, spec):
        """The same arrangement with many more sites, judged like any other build."""
        self.count("escalated")
        pts = placed(family(spec["kind"], spec["n"], random.Random(spec["seed"])), spec["m"], spec["order"],
                     random.Random(spec["seed"]))
        xs, ys = [p[0] for p in points], [p[1] for p in points]
        pts = [p for p in pts if min(xs) <= p[0] <= max(xs) and min(ys) <= p[1] <= max(ys)]
        if len(pts) > len(points):
            small = [a for a in self.results if a["exc"] is None and a["opts"].get("family") == 1
                     and 24 <= len(a["points"]) < len(points) / 2]
            middle = self.results[-1]
            large = self.build(t, vid, pts, {"family": 1})
            if large["exc"] is not None or self.violations:
                return
            n2, n3 = len(points), len(pts)
            for k, c3 in large["by_code"].items():
                c2 = middle["by_code"].get(k, 0)
                # the cost of one function grows (nearly) with the square twice in a row, and it matters
                if c3 > .08 * large["steps"] and c2 > 0 and c3 > c2 * (n3 / n2) ** 1.7 and all(
                        c2 > max(60, a["by_code"].get(k, 0)) * (n2 / len(a["points"])) ** 1.7 for a in small):
                    self.bad("quadratic", "one function takes %d steps for %d sites and %d for %d" % (c2, n2, c3, n3))

    def rate(self, vid, n):
        """Steps per n log n of the dearest of the smaller builds before; None: nothing to judge by."""
        best = None
        for a in self.results:
            m = len(a["points"])
            if a["exc"] is None and "steps" in a and 24 <= m < n and a["opts"].get("family"):
                best = max(best or 0, a["steps"] / (m * math.log2(m)))
        return best if self.user.get("reference") else None

    def compare(self, res):
        n = len(res["points"])
        if res["opts"].get("family") == "reference" and n >= 24:
            self.user["reference"] = True
        rate = self.rate(res["vid"], n)
        if rate is not None:
            k = res["steps"] / (n * math.log2(n)) / rate
            self.counts["max_growth_x100"] = max(self.counts["max_growth_x100"], int(100 * k))
            self.count("growth_compared")
        for a in self.results:
            if a is res or a["exc"] is not None or "steps" not in a:
                continue
            if a["points"] == res["points"]:
                self.count("repeats_compared")
                lo, hi = sorted((a["steps"], res["steps"]))
                self.counts["max_repeat_x100"] = max(self.counts["max_repeat_x100"], int(100 * hi / max(1, lo)))
                if hi > 1.3 * lo + 3000:
                    self.bad("history-cost", "the same %d sites took %d steps, and %d steps another time" % (
                        n, a["steps"], res["steps"]))


@prop("C18")
class C18(Base):
    state_measure = "(height, leaves) of the beach line tree at the steps looked at"
    rule = ("each run draws a kind of arrangement, a small and a large instance of it, and a history around them; "
            "non-trivial: the cost of two builds was compared; distinct: the event log differs from every other run's")

    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        kind = r.choice(FAMILIES)
        sc["kind"] = kind
        m = (r.random() < .5, r.choice([1, -1]) * r.choice([1, 100, 1000]), r.choice([1, -1]) * r.choice([1, 100, 1000]),
             r.choice([0, 5, -3000]), r.choice([0, -7, 3000]))
        order = r.choice(["as is", "sorted", "reversed", "shuffled"])
        x = r.random()
        n1, n2 = (25, 100) if x < .3 else (30, 240) if x < .8 else (40, 480)
        if ctx.tier == "thorough" and x > .93:
            n2 = 1500
        seed = r.random()
        small = placed(family(kind, n1, random.Random(seed)), m, order, r)
        large = placed(family(kind, n2, random.Random(seed)), m, order, r)
        # one polygon around both
        xs, ys = [p[0] for p in small + large], [p[1] for p in small + large]
        gap = r.choice([1, 10, 2000])
        x0, x1, y0, y1 = min(xs) - gap, max(xs) + gap, min(ys) - gap, max(ys) + gap
        poly = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        w, h = (x1 - x0) / 2, (y1 - y0) / 2
        if r.random() < .3:
            poly = [(x0 - w, y0), (x0, y0 - h), (x1, y0 - h), (x1 + w, y0), (x1 + w, y1), (x1, y1 + h), (x0, y1 + h),
                    (x0 - w, y1)]
        pid = add_poly(sc, poly, r=r)
        v1 = add_vor(sc, pid, r.random() < .75)
        v2 = v1 if r.random() < .6 else add_vor(sc, pid, sc["vors"][v1]["rz"])
        lead = add_obs(sc, acts=[{"on": "STEP", "do": "probe", "name": "height"}])
        prog = [["attach", v, lead] for v in sorted({v1, v2})]
        ref = placed(family("uniform", n1, random.Random(seed)), (False, w, h, (x0 + x1) / 2, (y0 + y1) / 2), order, r)
        prog.append(["build", v1, ref, {"family": "reference"}])
        if r.random() < .3:
            prog.append(["build", v1, large[:n1], {"fault": random_fault(r, ctx, n1)}])
        prog.append(["build", v1, small, {"family": 1}])
        if r.random() < .4:
            for _ in range(r.randint(1, 3)):
                prog.append(["build", v1, large[:r.randint(5, 60)], {"fault": random_fault(r, ctx, 20)}
                             if r.random() < .5 else {}])
            prog.append(["build", v1, small, {"family": 1}])
        prog.append(["build", v2, large, {"family": 1}])
        if n2 < 1000 and (n2 >= 240 or ctx.tier == "thorough"):
            prog[-1][3]["escalate"] = {"kind": kind, "n": 2000, "m": m, "order": order, "seed": seed}
        if r.random() < .3:
            prog[-1][3]["stack"] = 160
        sc["programs"] = [prog]
        return sc

    def domain_ok(self, sc):
        from .common import in_domain
        if len([op for op in sc["programs"][0] if op[0] == "build"]) < 1:
            return False
        return in_domain(sc)

    def run(self, sc, **kw):
        return CostSim(sc, probes={"height": probe_height}, **kw).run()

    def nontrivial(self, sc, s):
        return s.counts["growth_compared"] + s.counts["repeats_compared"] > 0


# ============================================================================================ C19

class Law:
    """How keys move with time: the order never changes."""

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def at(self, x, t):
        return x * (self.a + self.b * t) + self.c * t


class KeyFault(Exception):
    pass


class TreeRun:
    """Executes a history of tree operations against a sorted list; the tree's code is the real one."""

    def __init__(self, sim, spec):
        from foronoi.tree.node import Node
        from foronoi.tree.tree import Tree
        self.sim, self.T, self.time = sim, Tree, 0
        self.law = Law(*spec["law"])
        self.fault = None
        run = self

        class Item(Node):
            """A node whose key moves; asking for it without the time is an error of the tree."""

            def get_key(self, t=None):
                run.sim.count("keys")
                run.sim.note("key", self.data, t)
                if t != run.time:
                    raise AssertionError("get_key(t=%r) at time %r" % (t, run.time))
                if run.fault is not None:
                    run.fault -= 1
                    if run.fault < 0:
                        run.fault = None
                        run.fired = KeyFault("comparison failed")
                        run.sim.count("fault:KeyFault@key")
                        raise run.fired
                x = self.data
                if isinstance(x, tuple):
                    x = x[1] * 379 % 1024 if x[0] == "leaf" else x[0]       # the site of an arc may be anywhere
                k = run.law.at(x, t)
                if run.noise:
                    # rounding: the key is off, in the same way whenever it is asked for
                    k += (int(x * 65536) * 7919 % 3 - 1) * run.noise
                return k

            def get_label(self, **kw):
                return str(self.data)
        self.Item = Item
        self.noise = 0
        self.kw = lambda: {"t": self.time}

    def bad(self, what):
        self.sim.bad("tree", "%s (operation %d)" % (what, self.k))

    def shape(self, root):
        """In-order nodes; checks links, heights and order on the way."""
        if root is None:
            return []
        if root.parent is not None:
            self.bad("the root has a parent")
        out, heights, todo = [], {}, [(root, 0)]
        seen = set()
        order = []
        while todo:
            n, done = todo.pop()
            if not done:
                if id(n) in seen:
                    self.bad("a node is in the tree twice")
                    return None
                seen.add(id(n))
                todo.append((n, 1))
                for c in (n.left, n.right):
                    if c is not None:
                        if c.parent is not n:
                            self.bad("a node's parent is not the node it hangs on")
                            return None
                        todo.append((c, 0))
            else:
                hl, hr = (heights[id(c)] if c is not None else 0 for c in (n.left, n.right))
                heights[id(n)] = h = 1 + max(hl, hr)
                if n.height != h:
                    self.bad("a node of height %d says %s" % (h, n.height))
                    return None
                if n.balance != hl - hr:
                    self.bad("a node with subtrees of %d and %d says its balance is %s" % (hl, hr, n.balance))
                    return None
                order.append(n)
        self.heights = heights
        stack, n = [], root
        while stack or n is not None:
            while n is not None:
                stack.append(n)
                n = n.left
            n = stack.pop()
            out.append(n)
            n = n.right
        return out


class SearchRun(TreeRun):
    """insert, delete, find, find_value on a search tree with data in every node."""

    def go(self, ops):
        T, root, model = self.T, None, []
        for self.k, op in enumerate(ops):
            self.time = op[2]
            x = op[1]
            key = self.law.at(x, self.time)
            kw = self.kw()
            self.sim.note("op", *op)
            self.sim.count("op:" + op[0])
            self.fault = op[3] if len(op) > 3 else None
            self.fired = None
            got = exc = None
            try:
                if op[0] == "insert":
                    new = T.insert(root, self.Item(x), **kw)
                elif op[0] == "delete":
                    new = T.delete(root, key, **kw)
                elif op[0] == "cut":
                    # a leaf goes away for nothing
                    leaves = [n for n in self.shape(root) or () if n.is_leaf()]
                    if not leaves:
                        continue
                    leaf = leaves[x % len(leaves)]
                    x, up = leaf.data, leaf.parent
                    new = leaf.replace_leaf(None, root)
                    if new is not None and self.shape(new) is None:
                        return
                    if up is not None:
                        new = T.balance_and_propagate(up)
                elif op[0] == "find":
                    got = T.find(root, key, **kw)
                elif op[0] == "value":
                    got = T.find_value(root, self.Item(x), **kw)
            except KeyFault as e:
                exc = e
            except Exception as e:
                self.bad("%s raises %s: %s" % (op, type(e).__name__, e))
                return
            self.fault = None
            if exc is not None:
                if exc is not self.fired:
                    self.bad("another exception arrives than the one raised")
            elif self.fired is not None:
                self.bad("a failing comparison was swallowed")
            elif op[0] == "insert":
                root = new
                model.append(x)
                model.sort()
            elif op[0] == "delete":
                root = new
                if x in model:
                    model.remove(x)
            elif op[0] == "cut":
                root = new
                model.remove(x)
            else:
                if (got is not None) != (x in model) or got is not None and got.data != x:
                    self.bad("%s finds %s among %s" % (op, got.data if got is not None else None, model))
            nodes = self.shape(root)
            if nodes is None:
                return
            have = [n.data for n in nodes]
            if have != model:
                self.bad("the tree holds %s instead of %s" % (have, model))
                return
            for n in nodes:
                if abs(n.balance) > 1:
                    self.bad("a node with balance %d" % n.balance)
                    return
                if n.grandparent is not (n.parent.parent if n.parent is not None else None) or \
                        n.is_right_child() != (n.parent is not None and n.parent.right is n) or \
                        n.is_left_child() != (n.parent is not None and n.parent.left is n):
                    self.bad("a node does not know its place")
                    return
            if nodes and (root.minimum() is not nodes[0] or root.maximum() is not nodes[-1]):
                self.bad("minimum or maximum is another node")
            if nodes:
                leaves = [n for n in nodes if n.left is None and n.right is None]
                if [id(n) for n in T.get_leaves(root)] != [id(n) for n in leaves]:
                    self.bad("get_leaves gives something else than the leaves from left to right")
                self.picture(root, nodes)
            self.sim.states.add((len(model), len(nodes) and root.height))

    def picture(self, root, nodes):
        want = []
        for n in reversed(nodes):
            d, p = 0, n
            while p.parent is not None:
                d, p = d + 1, p.parent
            want.append("    " * d + str(n.data))
        if root.visualize().strip("\n").split("\n") != want:
            self.bad("visualize() does not show the tree")


class LeafRun(TreeRun):
    """Splitting, removing and looking up leaves, the way the sweep uses the tree."""

    def go(self, ops):
        T, Item = self.T, self.Item
        root = Item(("leaf", 0))
        leaves = [root]
        cuts = []           # inner nodes: cuts[i] lies between leaves[i] and leaves[i + 1]
        serial = 0
        for self.k, op in enumerate(ops):
            self.time = op[2]
            kw = self.kw()
            self.sim.note("op", *op)
            self.sim.count("op:" + op[0])
            self.noise = 0
            try:
                if op[0] in ("split2", "split3"):
                    i = int(op[1] * len(leaves))
                    lo = cuts[i - 1].data[0] if i else 0.0
                    hi = cuts[i].data[0] if i < len(cuts) else 1024.0
                    a, b = lo + (hi - lo) * op[3], lo + (hi - lo) * (op[3] + (1 - op[3]) / 3)
                    if min(a - lo, b - a, hi - b) < 1e-6:
                        continue
                    names = [("leaf", serial + j) for j in (1, 2, 3)]
                    serial += 3
                    L = [Item(n) for n in names]
                    c1 = Item((a, serial))
                    c1.left = L[0]
                    if op[0] == "split3":
                        c2 = Item((b, serial))
                        c1.right = c2
                        c2.left, c2.right = L[1], L[2]
                    else:
                        c1.right = L[1]
                        L = L[:2]
                    if root.height and op[4]:
                        root = leaves[i].replace_leaf(replacement=c1, root=root)
                    else:
                        root = leaves[i].replace_leaf(c1, root)
                    if self.shape(root) is None:
                        return
                    root = T.balance_and_propagate(c1)
                    leaves[i:i + 1] = L
                    cuts[i:i] = [c1] if op[0] == "split2" else [c1, c2]
                elif op[0] == "remove":
                    if len(leaves) < 2:
                        continue
                    i = int(op[1] * len(leaves))
                    n = leaves[i]
                    p = n.parent
                    if n.is_left_child():
                        root = p.replace_leaf(p.right, root)
                        k = i
                    else:
                        root = p.replace_leaf(p.left, root)
                        k = i - 1
                    if self.shape(root) is None:
                        return
                    root = T.balance_and_propagate(root)
                    if cuts[k] is not p:
                        self.bad("the parent of leaf %d is not the boundary next to it" % i)
                        return
                    del leaves[i], cuts[k]
                elif op[0] == "lookup":
                    x = op[1] * 1024
                    if cuts and op[3]:
                        x = cuts[int(op[1] * len(cuts))].data[0]
                    got = T.find_leaf_node(root, key=self.law.at(x, self.time), **kw)
                    i = sum(1 for c in cuts if self.law.at(c.data[0], self.time) < self.law.at(x, self.time))
                    if got is not leaves[i]:
                        self.bad("looking up %s finds %s instead of %s" % (x, got and got.data, leaves[i].data))
                        return
                elif op[0] == "value":
                    if not cuts:
                        continue
                    c = cuts[int(op[1] * len(cuts))]
                    there = op[3] != 2
                    self.noise = op[4]
                    if self.noise:
                        self.sim.count("fault:key-noise")
                    q = Item((c.data[0], c.data[1] if there else -1))
                    got = T.find_value(root, q, lambda a, b: a == b, **kw)
                    self.noise = 0
                    if got is not (c if there else None):
                        self.bad("find_value finds %s for %s" % (got and got.data, q.data))
                        return
            except AssertionError:
                raise
            except Exception as e:
                self.bad("%s raises %s: %s" % (op, type(e).__name__, e))
                return
            nodes = self.shape(root)
            if nodes is None:
                return
            want = [leaves[0]]
            for c, l in zip(cuts, leaves[1:]):
                want += [c, l]
            if [id(n) for n in nodes] != [id(n) for n in want]:
                self.bad("the tree reads %s instead of %s" % ([n.data for n in nodes], [n.data for n in want]))
                return
            if [id(n) for n in T.get_leaves(root)] != [id(n) for n in leaves]:
                self.bad("get_leaves gives something else than the leaves from left to right")
                return
            for i, n in enumerate(leaves):
                if n.predecessor is not (leaves[i - 1] if i else None) or \
                        n.successor is not (leaves[i + 1] if i + 1 < len(leaves) else None):
                    self.bad("leaf %d has a wrong neighbour" % i)
                    return
                if not n.is_leaf() or n.is_left_child() != (n.parent is not None and n.parent.left is n):
                    self.bad("leaf %d does not know its place" % i)
                    return
            self.sim.states.add((len(leaves), root.height))
            if root.height > 2 * math.log2(len(leaves) + 1) + 2:
                self.sim.counts["deep"] += 1


@prop("C19")
class C19(Base):
    state_measure = "(nodes, height) after each operation"
    rule = ("each run draws a history of tree operations and how the keys move; non-trivial: at least four nodes at some "
            "time; distinct: the sequence of key lookups and operations differs from every other run's")
    stubs = ["nodes: a subclass of foronoi's Node with moving, failing or noisy keys"]

    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        n = r.choice([6, 15, 40, 90] if ctx.tier == "quick" else [10, 40, 120, 300])
        mode = r.choice(["search", "leaf"])
        sc["kind"] = mode
        spec = {"mode": mode, "law": [r.choice([1, .5, 3]), r.choice([0, 1, .25]), r.choice([0, 1, -7])]}
        ops, t = [], 0
        style = r.choice(["random", "up", "down", "zigzag", "ends"])
        size = r.choice([5, 20, 1000])
        live = []
        for k in range(n):
            if r.random() < .5:
                t += r.choice([0, .5, 1])
            if mode == "search":
                what = r.choice(["insert"] * 5 + ["delete"] * r.choice([1, 4]) + ["cut", "find", "value"])
                x = {"random": r.randrange(size), "up": k, "down": -k, "zigzag": (-1) ** k * k,
                     "ends": (-1) ** k * (n - k)}[style]
                if what != "insert" and live and r.random() < .8:
                    x = r.choice(live)
                op = [what, x, t]
                if what == "insert":
                    live.append(x)
                elif what == "cut":
                    op[1] = r.randrange(50)
                elif what == "delete" and x in live:
                    live.remove(x)
                elif what in ("find", "value") and r.random() < .3:
                    op.append(r.randrange(6))
            else:
                what = r.choice(["split3"] * r.choice([2, 5]) + ["split2", "remove", "remove", "lookup", "value"])
                u = {"random": r.random(), "up": .999, "down": 0, "zigzag": .999 * (k % 2), "ends": .5}[style]
                if what in ("remove", "lookup", "value") or r.random() < .15:
                    u = r.random()
                if what.startswith("split"):
                    op = [what, u, t, r.choice([.5, .01, .9, r.uniform(.05, .9)]), r.randrange(2)]
                elif what == "lookup":
                    op = [what, u, t, r.randrange(2)]
                elif what == "value":
                    op = [what, u, t, r.randrange(3), r.choice([0, 0, 1e-9, 1, 300])]
                else:
                    op = [what, u, t]
            ops.append(op)
        sc["programs"] = [[["tree", spec, ops]]]
        return sc

    def domain_ok(self, sc):
        return bool(sc["programs"]) and bool(sc["programs"][0])

    def run(self, sc, **kw):
        def tree(sim, t, spec, ops):
            (SearchRun if spec["mode"] == "search" else LeafRun)(sim, spec).go(ops)
        return Sim(sc, probes={"tree": tree}, **kw).run()

    def nontrivial(self, sc, s):
        return max((x[0] for x in s.states), default=0) >= 4
