"""C20 (what builds leave behind does not accumulate)."""
import collections
import gc
import sys
import types

from . import gen
from .common import EXCS, LINE_EXCS, add_obs, add_poly, add_vor, new_sc, random_fault, sites_in
from .props import Base, prop
from .props2 import make_builtin, quiet_sinks
from .sim import Sim, read_all

ENOUGH = 420            # builds after which something that still grows is taken to grow for ever
PLAIN = ("builtins", "collections", "functools", "decimal", "fractions", "weakref", "itertools", "queue", "heapq", "enum",
         "operator", "abc", "types", "array", "_thread", "threading", "contextvars")


def own(module):
    return isinstance(module, str) and (module == "foronoi" or module.startswith("foronoi."))


def survey(sim):
    """(instances of the library's classes that are alive, entries reachable from its modules and the caller's objects,
    open figures), each by kind."""
    from foronoi.observers.observer import Observer
    alive = collections.Counter()
    for o in gc.get_objects():
        c = type(o)
        if own(getattr(c, "__module__", None)):
            alive[c.__name__] += 1
    held = collections.Counter()
    seen = set()
    todo = [(m.__dict__, n) for n, m in list(sys.modules.items()) if own(n) and not n.startswith("foronoi.tests") and m]
    todo += [(v, type(v).__name__) for v in list(sim.vors.values()) + list(sim.polys.values())]
    while todo:
        o, where = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        c = type(o)
        if isinstance(o, types.ModuleType):
            continue
        if isinstance(o, type):
            if not own(o.__module__):
                continue
            where = o.__name__
        elif isinstance(o, (types.FunctionType, types.MethodType)):
            if not own(getattr(o, "__module__", None)):
                continue
        elif own(c.__module__):
            if isinstance(o, Observer):
                continue            # keeps its own record of messages
            where = c.__name__
        elif c.__name__ != "SimQueue" and c.__module__ not in PLAIN:
            continue
        if isinstance(o, (dict, list, set, frozenset, collections.deque, bytearray)):
            held[where] += len(o)
        todo += [(x, where) for x in gc.get_referents(o)]
    import matplotlib.pyplot as plt
    return {"objects": alive, "entries": held, "figures": collections.Counter(figures=len(plt.get_fignums()))}


class Cycles(Sim):
    """Runs the scenario's program again and again, and looks at what is alive after each round."""

    def wants_lines(self):
        sc, self.sc = self.sc, self.cycle
        try:
            return super().wants_lines()
        finally:
            self.sc = sc

    def rounds(self, sim, t):
        ops = self.cycle["programs"][0]
        per = max(1, sum(1 for op in ops if op[0] == "build"))
        self.measures = []
        last = max(12, -(-ENOUGH // per))
        marks = [4, 8, last // 3, 2 * last // 3, last]
        if last == 12:
            marks = [4, 6, 8, 10, 12]
        for c in range(1, last + 1):
            for op in ops:
                if t.done:
                    return
                self.do(t, op)
            for res in self.results:
                if res["exc"] is not None and c == 1:
                    self.count("ended_early")
            del self.results[:]
            self.count("rounds")
            if c in marks:
                self.collect()
                self.measures.append((c, survey(self)))
                if len(self.measures) > 1:
                    (a, x), (b, y) = self.measures[-2:]
                    if not any(grows(x[k], y[k], b - a) for k in x):
                        return
        (a, x), (b, y) = self.measures[0], self.measures[-1]
        for k in x:
            if all(grows(p[1][k], q[1][k], q[0] - p[0]) for p, q in zip(self.measures, self.measures[1:])):
                d = y[k] - x[k]
                what = d.most_common(1)[0][0]
                self.bad("grows", "%s grow with every build: %d after %d rounds of %d builds, %d after %d (most: %s, from %d to %d)" % (
                    k, sum(x[k].values()), a, per, sum(y[k].values()), b, what, x[k][what], y[k][what]))


def grows(x, y, rounds):
    return sum(y.values()) - sum(x.values()) >= max(1, rounds // 2)


@prop("C20")
class C20(Base):
    state_measure = "(live objects, entries) at the end of a round"
    rule = ("each run repeats one program of builds, failures, attachments and forgotten diagrams, 8 times or, while "
            "something grows, until %d builds are done; non-trivial: at least two builds in a round" % ENOUGH)

    def gen(self, r, ctx):
        sc = new_sc(self.id, r)
        sc["world"]["reuse"] = r.choice(["fifo", "lifo"])
        prog, polys, vors = [], [], []
        for _ in range(r.choice([1, 1, 2])):
            poly, pts, d, kind = gen.draw(r, n=r.choice([r.randint(2, 6), r.randint(2, 10)]))
            sc["kind"] = kind
            polys.append((add_poly(sc, poly, r=r), poly, pts))
        for _ in range(r.choice([1, 1, 2, 3])):
            pid, poly, pts = r.choice(polys)
            vors.append((add_vor(sc, pid, r.random() < .75), poly, pts))
        drawn = False
        on = []
        for _ in range(r.randint(1, 5)):
            vid, poly, pts = r.choice(vors)
            x = r.random()
            if x < .45:
                y = r.random()
                if y < .4:
                    o = add_obs(sc, acts=[{"on": r.choice(["STEP", "SWEEP", "DONE"]), "do": "read"}] * r.randint(0, 1))
                elif y < .55:
                    o = add_obs(sc, acts=[{"on": r.choice(["STEP", "DEBUG", "SWEEP", "DONE"]), "do": "raise", "exc": r.choice(EXCS)}])
                elif y < .7:
                    w = r.choice(vors)
                    o = add_obs(sc, acts=[{"on": r.choice(["SWEEP", "DONE"]), "do": "probe", "name": "inner",
                                           "arg": [add_vor(sc, add_poly(sc, w[1]), True), w[2]]}])
                elif y < .85:
                    o = add_obs(sc, kind="tree", text=r.random() < .6, steps=r.random() < .5)
                elif y < .94 or drawn:
                    o = add_obs(sc, kind="debug")
                else:
                    o = add_obs(sc, kind="voronoi", steps=False, before=r.random() < .3)
                    drawn = True
                prog.append(["attach", vid, o])
                on.append((vid, o))
            sites = pts if r.random() < .6 else (sites_in(r, poly, r.randint(1, 8)) or pts)
            opts = {}
            if r.random() < .3:
                opts["fault"] = random_fault(r, ctx, len(sites), r.choice([None, r.choice(LINE_EXCS)]))
            prog.append(["build", vid, sites, opts])
            if on and r.random() < .6:
                prog.append(["detach", *on.pop(r.randrange(len(on)))])
            if r.random() < .2:
                prog.append(["look", vid])
            if r.random() < .3 and not any(v == vid for v, o in on):
                prog.append(["drop", vid])
        for v, o in on:
            prog.append(["detach", v, o])
        sc["programs"] = [prog]
        return sc

    def run(self, sc, **kw):
        q = dict(sc, programs=[[["rounds"]]])
        s = Cycles(q, probes={"make_builtin": make_builtin}, **kw)
        s.cycle = sc
        s.probes["rounds"] = s.rounds
        s.probes["inner"] = inner
        s.probes["look"] = look
        with quiet_sinks(s):
            s.run()
        for c, m in s.measures[:2]:
            s.states.add((sum(m["objects"].values()), sum(m["entries"].values())))
        return s

    def nontrivial(self, sc, s):
        return s.counts["rounds"] > 0 and s.counts["builds"] >= 2


def inner(sim, t, o, subject, short):
    """Another diagram is built while this one is."""
    vid, pts = next(a["arg"] for a in o.spec["acts"] if "arg" in a)
    if not sim.user.get("open", {}).get(vid):
        sim.do(t, ["build", vid, pts, {}])


def look(sim, t, vid):
    """The caller reads everything, also of a diagram whose build ended early."""
    try:
        read_all(sim, sim.vor(vid))
    except Exception:
        sim.count("unreadable")
