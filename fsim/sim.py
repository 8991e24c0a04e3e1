"""The simulator: runs tenants (caller threads) over the real library under a schedule and fault plan it decides.

A scenario is plain JSON:

  world:    {"hash": int|None, "ties": int|None, "alloc": int}
  polys:    {pid: {"kind": "Polygon"|"BoundingBox", "pts": [...]}}
  vors:     {vid: {"poly": pid, "rz": bool}}
  obs:      {oid: {...}}                 observers, see make_observer
  programs: [[op, ...], ...]             one program per tenant
  sched:    [[tenant, n], ...]           run that tenant for n scheduling points, then switch (explicit schedule)
  storm:    [seed, mean]                 after the explicit schedule: random tenant, random slice of that mean length
  grain:    "coarse" | "line" | "opcode" where scheduling points lie

Operations:
  ["poly", pid]  ["vor", vid]  ["attach", target, oid]  ["detach", target, oid]
  ["build", vid, points, opts]           opts: {"fault": {"at": k, "grain": g, "exc": name}, "form": ...}
  ["read", vid]                          call every public accessor
  ["snap", vid, label]                   record the canonical form of a finished diagram
  ["ctx", prec, rounding]                change this tenant's decimal context
  ["probe", name, ...]                   property specific
"""
import asyncio
import builtins
import collections
import decimal
import functools
import gc
import hashlib
import os
import queue
import random
import re
import sys
import threading
import weakref

from . import env

FORONOI_DIR = os.path.join(os.path.abspath(env.REPO), "foronoi") + os.sep


class InjectedError(Exception):
    pass


class InjectedBase(BaseException):
    pass


class InjectedIOError(OSError):
    pass


class SimTeardown(BaseException):
    pass


class StepBudget(BaseException):
    pass


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated interrupt"),
    "MemoryError": lambda: MemoryError("simulated allocation failure"),
    "InjectedError": lambda: InjectedError("injected"),
    "InjectedBase": lambda: InjectedBase("injected"),
    "OSError": lambda: InjectedIOError(28, "simulated: no space left on device"),
    "BrokenPipe": lambda: BrokenPipeError(32, "simulated: broken pipe"),
    "SystemExit": lambda: SystemExit(3),
    "StopIteration": lambda: StopIteration("injected"),
    "AssertionError": lambda: AssertionError("injected"),
    "AttributeError": lambda: AttributeError("injected"),
    "ValueError": lambda: ValueError("injected"),
    "RecursionError": lambda: RecursionError("injected"),
    "GeneratorExit": lambda: GeneratorExit("injected"),
    "KeyError": lambda: KeyError("injected"),
    "IndexError": lambda: IndexError("injected"),
    "TypeError": lambda: TypeError("injected"),
    "DecimalError": lambda: decimal.InvalidOperation("injected"),
    "Empty": lambda: queue.Empty("injected"),
    "UnicodeError": lambda: UnicodeError("injected"),
    "TimeoutError": lambda: TimeoutError("injected"),
    "NotImplementedError": lambda: NotImplementedError("injected"),
    "Cancelled": lambda: asyncio.CancelledError("injected"),
    "Warning": lambda: UserWarning("injected"),
    "ImportError": lambda: ImportError("injected"),
}


TOOL = 4        # sys.monitoring tool id


class Quiet:
    """Callback code of the harness: no line or opcode scheduling points."""

    def __init__(self, t):
        self.t = t

    def __enter__(self):
        self.t.mute += 1

    def __exit__(self, *a):
        self.t.mute -= 1


class Tenant:
    def __init__(self, sim, tid, program):
        self.sim, self.tid, self.program = sim, tid, program
        self.sem = threading.Semaphore(0)
        self.done = False
        self.left = None
        self.points = 0
        self.fault = None        # active fault of the current build
        self.fault_left = 0
        self.fired = None
        self.depth = 0           # nested builds
        self.thread = None
        self.crash = None
        self.hold = 0            # no scheduling points at all
        self.mute = 1            # no line or opcode scheduling points (harness code, callbacks)


class Sim:
    def __init__(self, sc, probes=None, budget=None):
        self.sc = sc
        self.probes = probes or {}
        self.fo = env.load()
        w = sc.get("world", {})
        self.tie_rng = random.Random("tie%s" % w["ties"]) if w.get("ties") is not None else None
        self.hash_rng = random.Random("hash%s" % w["hash"]) if w.get("hash") is not None else None
        self.uuid_rng = random.Random("uuid%s" % w.get("uuid", 0))
        self.counts = collections.Counter()
        self.log = []
        self.violations = []
        self.polys, self.vors, self.obs = {}, {}, {}
        self.names = {}
        self.keep = []
        self.addr = None
        self.results = []
        self.snaps = {}
        self.cur = None
        self.main_sem = threading.Semaphore(0)
        self.grain = sc.get("grain", "coarse")
        self.trace_on = self.grain in ("line", "opcode")
        self.slices = []
        self.budget = budget
        self.spent = 0
        self.total_points = 0
        self.user = {}
        self.states = set()

    # ---------------------------------------------------------------- bookkeeping
    def count(self, what, n=1):
        self.counts[what] += n

    def note(self, *rec):
        self.log.append(rec)

    def bad(self, code, detail=""):
        if len(self.violations) < 20:
            self.violations.append((code, str(detail)[:600]))

    def digest(self):
        h = hashlib.sha256()
        for r in self.log:
            h.update(repr(r).encode())
            h.update(b"\n")
        return h.hexdigest()[:24]

    def name_of(self, obj):
        return self.names.get(id(obj), "?" + type(obj).__name__)

    # ---------------------------------------------------------------- seams
    def install(self):
        env.SimQueue.hooks = self
        self._saved = []
        fo = self.fo
        if self.hash_rng is not None:
            from foronoi.graph.vertex import Vertex
            from foronoi.graph.half_edge import HalfEdge
            from foronoi.graph.point import Point
            from foronoi.nodes.arc import Arc
            from foronoi.nodes.breakpoint import Breakpoint
            from foronoi.tree.node import Node
            addr = self.addr = Addresses(self.hash_rng, self.keep, self.sc["world"].get("reuse"))

            def simhash(o):
                return addr(o)
            for c in (Vertex, HalfEdge, Point, Arc, Breakpoint, Node):
                if c.__hash__ is object.__hash__ and c.__eq__ is object.__eq__:
                    self._saved.append((c, "__hash__"))
                    c.__hash__ = simhash
            # id() as seen by the library: addresses are decided by the simulator as well
            for name, mod in list(sys.modules.items()):
                if name.startswith("foronoi") and not name.startswith("foronoi.tests") and mod is not None \
                        and "id" not in mod.__dict__:
                    mod.id = addr
                    self._saved.append((mod, "id"))
        import uuid
        rng_u = self.uuid_rng
        self._uuid4 = uuid.uuid4
        uuid.uuid4 = lambda: uuid.UUID(int=rng_u.getrandbits(128), version=4)

    def uninstall(self):
        env.SimQueue.hooks = None
        for o, a in self._saved:
            try:
                delattr(o, a)
            except AttributeError:
                pass
        import uuid
        uuid.uuid4 = self._uuid4

    def on_queue(self, kind, q, item):
        self.count(kind)
        self.point(kind)

    # ---------------------------------------------------------------- scheduling points and faults
    def point(self, kind):
        """A scheduling point: the simulator may switch tenants or raise the planned fault here."""
        t = self.cur
        if t is None or t.thread is not threading.current_thread():
            return
        if t.hold:
            return
        self.total_points += 1
        t.points += 1
        f = t.fault
        if f is not None and (f["grain"] == kind or (f["grain"] == "any" and kind != "op")):
            t.fault_left -= 1
            if t.fault_left <= 0:
                t.fault = None
                e = EXC[f["exc"]]()
                t.fired = e
                self.count("fault:" + f["exc"] + "@" + kind)
                self.note("fault", t.tid, kind, f["exc"])
                raise e
        if self.budget is not None and kind in ("line", "opcode"):
            self.spent += 1
            if self.spent > self.budget:
                raise StepBudget("no progress: %d scheduling points" % self.spent)
        if self.grain == "coarse" and kind in ("line", "opcode"):
            return
        if t.left is not None:
            t.left -= 1
            if t.left <= 0:
                self.switch(t)

    def switch(self, t):
        self.main_sem.release()
        t.sem.acquire()
        if self.user.get("teardown"):
            raise SimTeardown()

    # Line and opcode scheduling points come from sys.monitoring, switched on once per run: switching sys.settrace
    # while another thread sits in an instrumented opcode (which raising from a trace function does) crashes CPython 3.12.
    def _on_line(self, code, line):
        fn = code.co_filename
        if not fn.startswith(FORONOI_DIR) or "/tests/" in fn:
            return sys.monitoring.DISABLE
        t = self.cur
        if self.lazy and (t is None or t.fault is None):
            return sys.monitoring.DISABLE       # until the next build with a fault
        if t is not None and not t.mute and not t.hold:
            self.point("line")

    def _on_instruction(self, code, offset):
        fn = code.co_filename
        if not fn.startswith(FORONOI_DIR) or "/tests/" in fn:
            return sys.monitoring.DISABLE
        t = self.cur
        if t is not None and not t.mute and not t.hold:
            self.point("opcode")

    def monitor(self, on):
        m = sys.monitoring
        if on:
            m.use_tool_id(TOOL, "fsim")
            m.register_callback(TOOL, m.events.LINE, self._on_line)
            ev = m.events.LINE
            if self.grain == "opcode":
                m.register_callback(TOOL, m.events.INSTRUCTION, self._on_instruction)
                ev |= m.events.INSTRUCTION
            m.set_events(TOOL, ev)
        elif m.get_tool(TOOL) == "fsim":
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.LINE, None)
            m.register_callback(TOOL, m.events.INSTRUCTION, None)
            m.free_tool_id(TOOL)

    def quiet(self, t):
        return Quiet(t)

    def wants_lines(self):
        if self.trace_on or self.budget is not None:
            return True
        ops = list(op for p in self.sc["programs"] for op in p)
        for o in self.sc.get("obs", {}).values():
            for act in o.get("acts", []):
                ops += act.get("ops", [])
        return any(op[0] == "build" and len(op) > 3 and (op[3].get("fault") or {}).get("grain") in (
            "line", "opcode", "any") for op in ops)

    # ---------------------------------------------------------------- running
    def run(self):
        self.tenants = [Tenant(self, i, p) for i, p in enumerate(self.sc["programs"])]
        self.install()
        if self.addr is not None and self.addr.reuse:
            # garbage is collected where the simulator says
            gc.disable()
            gc.collect()
            gc.freeze()
        lines = self.wants_lines()
        self.lazy = len(self.tenants) == 1 and not self.trace_on and self.budget is None
        try:
            if lines:
                self.monitor(True)
            for t in self.tenants:
                t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
                t.thread.start()
            plan = [list(s) for s in self.sc.get("sched", [])]
            storm = self.sc.get("storm")
            storm_rng = random.Random("storm%s" % storm[0]) if storm else None
            while True:
                alive = [t for t in self.tenants if not t.done]
                if not alive:
                    break
                t, n = alive[0], None
                while plan:
                    i, k = plan.pop(0)
                    if i < len(self.tenants) and not self.tenants[i].done and k > 0:
                        t, n = self.tenants[i], k
                        break
                if n is None and storm and len(alive) > 1:
                    t = alive[storm_rng.randrange(len(alive))]
                    n = 1 + int(storm_rng.expovariate(1.0 / storm[1]))
                t.left = n
                before = t.points
                self.cur = t
                t.sem.release()
                self.main_sem.acquire()
                self.cur = None
                self.slices.append((t.tid, t.points - before))
                self.count("slices")
            for t in self.tenants:
                t.thread.join()
        finally:
            if lines:
                self.monitor(False)
            self.uninstall()
        for t in self.tenants:
            if t.crash is not None:
                raise t.crash
        return self

    def _main(self, t):
        t.sem.acquire()
        try:
            for op in t.program:
                self.point("op")
                self.do(t, op)
        except SimTeardown:
            pass
        except BaseException as e:          # harness error, not a library verdict
            t.crash = e
        t.done = True
        self.main_sem.release()

    # ---------------------------------------------------------------- operations
    def poly(self, pid):
        if pid not in self.polys:
            spec = self.sc["polys"][pid]
            pts = as_form(spec["pts"], spec.get("form"))
            if spec.get("kind") == "BoundingBox":
                xs = [p[0] for p in pts]
                ys = [p[1] for p in pts]
                P = self.fo.BoundingBox(min(xs), max(xs), min(ys), max(ys))
            else:
                P = self.fo.Polygon(pts)
            self.polys[pid] = P
            self.names[id(P)] = pid
        return self.polys[pid]

    def vor(self, vid):
        if vid not in self.vors:
            spec = self.sc["vors"][vid]
            V = self.fo.Voronoi(self.poly(spec["poly"]), remove_zero_length_edges=spec.get("rz", True))
            self.vors[vid] = V
            self.names[id(V)] = vid
        return self.vors[vid]

    def observer(self, oid):
        if oid not in self.obs:
            self.obs[oid] = make_observer(self, oid, self.sc["obs"][oid])
        return self.obs[oid]

    def handle(self, oid):
        """The object to attach: nobody but the library keeps a "forgotten" one."""
        o = self.observer(oid)
        if self.sc["obs"][oid].get("like") != "forgotten":
            return o
        face = o.face and o.face()
        if face is None:
            face = _OBS_CLASS["face"](o)
            o.face = weakref.ref(face)
        return face

    def target(self, name):
        return self.vor(name) if name in self.sc["vors"] else self.poly(name)

    def do(self, t, op):
        k = op[0]
        if k == "poly":
            self.poly(op[1])
        elif k == "vor":
            self.vor(op[1])
        elif k == "attach":
            self.target(op[1]).attach_observer(self.handle(op[2]))
            self.note("attach", t.tid, op[1], op[2])
        elif k == "detach":
            self.target(op[1]).detach_observer(self.handle(op[2]))
            self.note("detach", t.tid, op[1], op[2])
        elif k == "build":
            self.build(t, op[1], op[2], op[3] if len(op) > 3 else {})
        elif k == "drop":
            self.drop(op[1])
            self.note("drop", t.tid, op[1])
        elif k == "ctx":
            decimal.getcontext().prec = op[1]
            t.coarse = op[1] < 28
            if len(op) > 2 and op[2]:
                decimal.getcontext().rounding = op[2]
        elif k == "snap":
            from . import oracle
            try:
                self.snaps[op[2]] = oracle.canon(self.vor(op[1]))
            except oracle.Broken as e:
                self.bad("broken-diagram", "%s: %s" % (op[1], e))
        elif k == "read":
            try:
                self.traced(t, lambda: read_all(self, self.vor(op[1])))
            except ArithmeticError:
                if not getattr(t, "coarse", False):
                    raise
        else:
            self.probes[k](self, t, *op[1:])

    def drop(self, vid):
        """The caller forgets the diagram; the next build of that name makes a new one."""
        if self.user.get("open", {}).get(vid) or vid not in self.vors:
            return
        self.names.pop(id(self.vors.pop(vid)), None)
        pid = self.sc["vors"][vid]["poly"]
        if pid in self.polys and not any(self.sc["vors"][v]["poly"] == pid for v in self.vors):
            self.names.pop(id(self.polys.pop(pid)), None)
        for res in self.results:
            if res["vid"] == vid:
                res.pop("seq", None)
        self.count("drops")

    def collect(self):
        if self.addr is not None and self.addr.reuse:
            for res in self.results:
                if res["exc"] is not None:
                    res["exc"].__traceback__ = None     # it would keep everything of that build
            gc.collect()
            self.counts["reused_addresses"] = self.addr.reused
            self.count("collections")

    def traced(self, t, fn):
        """Run library code as tenant t, with line and opcode scheduling points when the scenario has them."""
        mute, t.mute = t.mute, 0
        try:
            return fn()
        finally:
            t.mute = mute

    def build(self, t, vid, points, opts):
        """One create_diagram call; its outcome goes into self.results."""
        V = self.vor(vid)
        if not opts.get("nogc"):
            self.collect()
        arg = as_form(points, opts.get("form"))
        shown = lambda: repr(arg.tolist() if hasattr(arg, "tolist") else arg)
        before = shown()
        saved = (t.fault, t.fault_left)
        f = opts.get("fault")
        t.fault = dict(f) if f else None
        t.fault_left = f["at"] if f else 0
        t.fired = None
        if f and self.lazy and f["grain"] in ("line", "any"):
            sys.monitoring.restart_events()
        res = {"vid": vid, "tenant": t.tid, "n": len(points), "exc": None, "fired": None, "opts": opts,
               "points": points, "index": len(self.results), "raised_by": None}
        self.results.append(res)
        self.user.setdefault("open", {}).setdefault(vid, []).append(res)
        self.note("build", t.tid, vid, str(points), self.sc["polys"][self.sc["vors"][vid]["poly"]]["pts"])
        self.count("builds")
        t.depth += 1
        try:
            self.traced(t, lambda: V.create_diagram(arg))
        except SimTeardown:
            raise
        except BaseException as e:
            res["exc"] = e
        finally:
            t.depth -= 1
        res["fired"] = t.fired
        t.fault, t.fault_left = saved
        self.user["open"][vid].pop()
        if shown() != before:
            self.bad("input-changed", "%s became %s" % (before[:200], shown()[:200]))
        e = res["exc"]
        self.note("built", t.tid, vid, type(e).__name__ if e is not None else "ok")
        if e is None:
            self.count("builds_ok")
        elif e is res["fired"] or e is res["raised_by"]:
            self.count("builds_aborted")
            res["planned"] = True
        elif getattr(t, "coarse", False) and not isinstance(e, SimTeardown):
            # with so few digits even sites far from each other may not be distinguishable: nothing is promised
            self.count("coarse_failed")
            res["planned"] = True
        elif isinstance(e, StepBudget):
            self.bad("no-progress", str(e))
        else:
            self.bad("exception", "%s: %s in build of %s with %d sites" % (
                type(e).__name__, str(e)[:200], vid, len(points)))
        if e is None and res["fired"] is not None:
            self.bad("swallowed", "an exception raised inside create_diagram did not reach the caller")
        if opts.get("snap") and e is None:
            self.do(t, ["snap", vid, opts["snap"]])
        return res


class Addresses:
    """The addresses of objects as the library sees them, through id() and default hashes.

    Without reuse every object is kept, and no two ever share an address.  With reuse the address of an object that is
    gone is given to the next object of the same class, the oldest ("fifo") or the newest ("lifo") first, as memory
    allocators do.  What is gone is up to the simulator too: collections only happen where it says (see Sim.collect).
    """

    def __init__(self, rng, keep, reuse=None):
        self.rng, self.keep, self.reuse = rng, keep, reuse
        self.table = {}
        self.free = collections.defaultdict(list)
        self.order = {}
        self.reused = 0

    def __call__(self, o):
        k = builtins.id(o)
        ent = self.table.get(k)
        if ent is not None and (ent[1] is None or ent[1]() is o):
            return ent[0]
        c = type(o)
        pool = self.free.get(c)
        if pool:
            if self.reuse == "fifo":
                i = min(range(len(pool)), key=lambda n: self.order[pool[n]])
            else:
                i = max(range(len(pool)), key=lambda n: self.order[pool[n]])
            v = pool.pop(i)
            self.reused += 1
        else:
            v = self.rng.getrandbits(60)
        ref = None
        if self.reuse and c.__module__.startswith("foronoi"):
            try:
                ref = weakref.ref(o, functools.partial(self.gone, k, v, c))
            except TypeError:
                pass
        if ref is None:
            self.keep.append(o)
        self.order[v] = len(self.order)
        self.table[k] = (v, ref)
        return v

    def gone(self, k, v, c, ref):
        ent = self.table.get(k)
        if ent is not None and ent[1] is ref:
            del self.table[k]
        self.free[c].append(v)


def as_form(points, form):
    if form == "lists":
        return [list(p) for p in points]
    if form == "tuple":
        return tuple(tuple(p) for p in points)
    if form == "decimal":
        return [(decimal.Decimal(str(x)), decimal.Decimal(str(y))) for x, y in points]
    if form == "npscalar":
        return [(np_scalar(x), np_scalar(y)) for x, y in points]
    if form == "array" and points and any(all(type(c) is k and abs(c) < 1 << 53 for p in points for c in p)
                                          for k in (int, float)):
        import numpy as np
        return np.array([list(p) for p in points])
    return [tuple(p) for p in points]


def np_scalar(v):
    import numpy as np
    if isinstance(v, float):
        return np.float64(v)
    return np.int64(v) if isinstance(v, int) and abs(v) < 1 << 62 else v


def read_all(sim, V):
    """Every public accessor, as a caller or an observer may use them at any time."""
    out = 0
    for e in V.edges:
        out += len(repr((e.get_origin() is None, e.target is None, e.twin is None)))
    for x in V.vertices:
        out += len(repr((x.x, x.y, x.xy, len(x.connected_edges))))
    for a in V.arcs:
        out += len(repr((a.origin.x, a.origin.y)))
    V.get_observers()
    t = V.status_tree
    if t is not None:
        out += len(t.visualize())
        l = V.sweep_line
        st = [t]
        while st:
            node = st.pop()
            out += len(str(node.get_label())) + len(repr((node.height, node.balance, node.is_leaf())))
            if node.is_leaf():
                out += (node.predecessor is None) + (node.successor is None)
            else:
                st += [c for c in (node.left, node.right) if c is not None]
        out += len(repr(t))
        if sim.sc["prop"] in ("C06", "C10") and t.height <= 5:
            out += len(sim.fo.TreeVisualizer().plot(t).source)
        for e in V.edges[:6]:
            out += e.get_origin(l) is None
            out += e.twin.get_origin(l, V.bounding_poly.max_y) is None
        for a in V.arcs[:4]:
            import numpy as np
            out += a.get_plot(np.linspace(-1, 1, 3), l) is None
    V.bounding_poly.get_coordinates()
    repr(V.event)
    for s in V.sites or []:
        if walk_ok(s):
            s.borders()
            s.vertices()
            s.area()
            s.area(2)
            s.xy
    return out


def walk_ok(site, limit=20000):
    """Is the walk along `next` from the first edge finite (back at the start, or at an open end)?"""
    e = site.first_edge
    if e is None:
        return True
    first = e
    for _ in range(limit):
        e = e.next
        if e is None or e is first:
            return True
    return False


# -------------------------------------------------------------------- observers

_OBS_CLASS = None


def make_observer(sim, oid, spec):
    from foronoi.observers.observer import Observer
    kind = spec.get("kind", "rec")
    if kind in ("tree", "voronoi", "debug"):
        return sim.probes["make_builtin"](sim, oid, spec)

    global _OBS_CLASS
    if _OBS_CLASS is None:
        class SimObserver(Observer):
            """Records every message; performs the actions its script asks for."""

            def __init__(self, sim, oid, spec):
                self.sim, self.oid, self.spec = sim, oid, spec
                self.seen = collections.Counter()
                self.kinds, self.done_kind = set(), None
                self.records = []
                self.face = None

            def update(self, subject, message, **kwargs):
                deliver(self, subject, message, kwargs)

        class EqualObserver(SimObserver):
            """Compares equal to every other one of its kind; identity is what attaching goes by."""

            def __eq__(self, other):
                return isinstance(other, EqualObserver)

            def __hash__(self):
                return 7

        class EmptyObserver(SimObserver):
            """Is false in a condition, as an observer that is an empty collection would be."""

            def __len__(self):
                return 0

        class Face(Observer):
            """An observer that the caller attaches and forgets, as in attach_observer(SomeObserver())."""

            def __init__(self, inner):
                self.inner = inner

            def update(self, subject, message, **kwargs):
                deliver(self.inner, subject, message, kwargs)
        _OBS_CLASS = {None: SimObserver, "equal": EqualObserver, "empty": EmptyObserver, "forgotten": SimObserver,
                      "face": Face}
    return _OBS_CLASS[spec.get("like")](sim, oid, spec)


def new_kind(o, short, payload):
    w = re.findall("[A-Za-z]+", str(payload)) if short == "DEBUG" else []
    k = (short, *w[:3], *w[-1:])
    if k in o.kinds:
        return 0
    o.kinds.add(k)
    return 1


def deliver(o, subject, message, kwargs):
    sim = o.sim
    t = sim.cur
    with sim.quiet(t):
        m = getattr(message, "name", str(message))
        short = {"STEP_FINISHED": "STEP", "SWEEP_FINISHED": "SWEEP", "VORONOI_FINISHED": "DONE"}.get(m, m)
        sub = sim.name_of(subject)
        pl = kwargs.get("payload")
        sim.note("msg", t.tid, o.oid, sub, short, pl)
        sim.count("messages")
        rec = (len(sim.log) - 1, t.tid, sub, short, pl)
        o.records.append(rec)
        o.seen[short] += 1
        o.seen["any"] += 1
        o.seen["kind"] += new_kind(o, short, pl)
        sim.point("notify")
        for act in o.spec.get("acts", []):
            if act["on"] == "kind":
                # the first message of the nth different text that this observer gets
                if o.done_kind is None and o.seen["kind"] == act["nth"]:
                    o.done_kind = short
                    perform(sim, t, o, act, subject, short)
                continue
            if act["on"] != short and act["on"] != "any":
                continue
            if "nth" in act and o.seen[act["on"]] != act["nth"]:
                continue
            if act.get("only") and sub != act["only"]:
                continue
            perform(sim, t, o, act, subject, short)


def perform(sim, t, o, act, subject, short):
    do = act["do"]
    sim.count("act:" + do)
    if do == "raise":
        e = EXC[act["exc"]]()
        stack = sim.user.get("open", {})
        vid = sim.name_of(subject)
        if stack.get(vid):
            stack[vid][-1]["raised_by"] = e
        sim.note("observer-raises", t.tid, o.oid, act["exc"])
        raise e
    if do == "read":
        read_all(sim, subject)
    elif do == "mutate":
        # the lists handed out are the caller's own
        subject.arcs.clear()
        subject.vertices.clear()
        subject.vertices.reverse()
    elif do == "probe":
        sim.probes[act["name"]](sim, t, o, subject, short)
    elif do == "ops":
        for op in act["ops"]:
            sim.do(t, op)
    else:
        raise AssertionError("unknown action " + do)
