"""Scenario building blocks and checks shared by the properties."""
import functools
import json
import os
import random
import select
import sys
import traceback

from . import gen, geom, oracle, sim as simmod

EXCS = ["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase", "OSError", "SystemExit", "StopIteration",
        "AssertionError", "AttributeError", "ValueError", "RecursionError", "GeneratorExit", "KeyError", "IndexError",
        "TypeError", "DecimalError", "Empty", "UnicodeError", "TimeoutError", "NotImplementedError", "Cancelled", "Warning",
        "ImportError"]


# Raised at a line or queue operation of the library itself.  Only what no code would handle as a part of its normal work:
# not the ones by which iterators, look-ups, attributes and queues say "no more" or "not there".
LINE_EXCS = ["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase", "SystemExit", "Cancelled", "RecursionError",
             "AssertionError", "NotImplementedError"]


@functools.lru_cache(maxsize=4000)
def _domain(key):
    poly, pts = json.loads(key)
    return geom.Domain(poly, pts)


def domain(poly, pts):
    return _domain(json.dumps([poly, pts]))


def new_sc(prop, r):
    return {"prop": prop, "world": {"hash": r.getrandbits(32), "ties": None, "uuid": r.getrandbits(32)},
            "polys": {}, "vors": {}, "obs": {}, "programs": [[]], "sched": [], "grain": "coarse"}


# How a caller may hold the same coordinates (None: a list of tuples)
FORMS = ["lists", "tuple", "decimal", "npscalar", "array"]


def add_poly(sc, poly, kind=None, r=None):
    pid = "p%d" % len(sc["polys"])
    spec = {"kind": "Polygon", "pts": poly}
    if kind:
        spec["kind"] = kind
    elif r is not None and len(poly) == 4 and r.random() < 0.3:
        xs = sorted(set(p[0] for p in poly))
        ys = sorted(set(p[1] for p in poly))
        if len(xs) == 2 and len(ys) == 2:
            spec["kind"] = "BoundingBox"
    if r is not None and r.random() < .2:
        spec["form"] = r.choice(FORMS)
    sc["polys"][pid] = spec
    return pid


def add_vor(sc, pid, rz=True):
    vid = "v%d" % len(sc["vors"])
    sc["vors"][vid] = {"poly": pid, "rz": rz}
    return vid


def add_obs(sc, **spec):
    oid = "o%d" % len(sc["obs"])
    sc["obs"][oid] = dict(spec)
    sc["obs"][oid].setdefault("kind", "rec")
    return oid


def sites_in(r, poly, n=None):
    """Fresh in-domain sites for an existing polygon."""
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    span = max(max(xs) - min(xs), max(ys) - min(ys))
    import math
    nd = max(0, 3 - int(math.floor(math.log10(span))) + 1) if span > 0 else 3
    nd = r.choice([nd, max(0, nd - 2)])
    for _ in range(60):
        m = n if n is not None else r.randint(1, 8)
        pts = []
        for _ in range(m):
            p = gen.inner(r, poly, nd)
            if p is None:
                break
            if list(p) not in pts:
                pts.append(list(p))
        if pts and domain(poly, pts).ok:
            return pts
    return None


def random_fault(r, ctx, n, exc=None):
    """A fault at an arbitrary instant of a build with n sites."""
    exc = exc or r.choice(["KeyboardInterrupt", "MemoryError", "KeyboardInterrupt", "InjectedBase"])
    x = r.random()
    if x < 0.72:
        total = ctx.lines(n)
        m = r.random()
        if m < 0.25:
            at = int(total * r.uniform(.75, 1.05))       # clipping, closing and cleaning up
        elif m < 0.35:
            at = r.randint(1, 60)
        else:
            at = int(total * r.random())
        return {"at": max(1, at), "grain": "line", "exc": exc}
    if x < 0.88:
        return {"at": r.randint(1, max(1, n)), "grain": "qput", "exc": "MemoryError"}
    return {"at": r.randint(1, max(1, 3 * n)), "grain": "qget", "exc": exc}


def random_slices(r, tenants, k, scale):
    out = []
    last = -1
    for _ in range(k):
        t = r.randrange(tenants)
        if t == last:
            t = (t + 1) % tenants
        last = t
        out.append([t, max(1, int(scale ** r.random() * r.uniform(.5, 1.5)))])
    return out


# ------------------------------------------------------------------------------------------- pristine baselines

def forked(fn, timeout=120):
    """Run fn in a forked copy of this (single threaded) process; its JSON result, or None when it died."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = json.dumps(fn()).encode()
            with os.fdopen(wr, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            try:
                sys.stderr.write(traceback.format_exc())
                sys.stderr.flush()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    buf = b""
    try:
        while True:
            ready, _, _ = select.select([rd], [], [], timeout)
            if not ready:
                os.kill(pid, 9)
                return None
            d = os.read(rd, 1 << 20)
            if not d:
                break
            buf += d
    finally:
        os.close(rd)
        try:
            _, st = os.waitpid(pid, 0)
        except ChildProcessError:
            st = 0
    return json.loads(buf) if buf else None


def pristine(poly_spec, pts, rz, hash_seed=1, observed=True):
    """Canonical diagram and message sequence of one build alone in an untouched copy of the process."""
    sc = {"prop": "base", "world": {"hash": hash_seed, "ties": None}, "polys": {"p": {k: v for k, v in poly_spec.items() if k != "form"}},
          "vors": {"v": {"poly": "p", "rz": rz}}, "obs": {"o": {"kind": "rec"}},
          "programs": [([["attach", "v", "o"]] if observed else []) + [["build", "v", pts, {"snap": "s"}]]]}

    def go():
        s = simmod.Sim(sc)
        s.run()
        res = s.results[0]
        e = res["exc"]
        msgs = [[r[3], r[4]] for r in s.obs["o"].records] if observed else None
        return {"canon": s.snaps.get("s"), "msgs": msgs, "exc": None if e is None else type(e).__name__,
                "bad": s.violations}
    return forked(go)


class Baselines:
    def __init__(self, sim_sc):
        self.sc = sim_sc
        self.cache = {}

    def get(self, vid, pts):
        v = self.sc["vors"][vid]
        key = json.dumps([v["poly"], v.get("rz", True), pts])
        if key not in self.cache:
            self.cache[key] = pristine(self.sc["polys"][v["poly"]], pts, v.get("rz", True))
        return self.cache[key]

    def prefetch(self):
        for prog in self.sc["programs"]:
            for op in walk_ops(prog):
                if op[0] == "build":
                    self.get(op[1], op[2])
        for o in self.sc["obs"].values():
            for a in o.get("acts", []):
                for op in walk_ops(a.get("ops", [])):
                    if op[0] == "build":
                        self.get(op[1], op[2])
        return self


def walk_ops(ops):
    for op in ops:
        yield op


def all_builds(sc):
    for prog in sc["programs"]:
        for op in prog:
            if op[0] == "build":
                yield op
    for o in sc["obs"].values():
        for a in o.get("acts", []):
            for op in a.get("ops", []):
                if op[0] == "build":
                    yield op


def in_domain(sc):
    """Are all builds of the scenario inside the stated input domain?  (checked again for shrunk scenarios)"""
    for op in all_builds(sc):
        if op[1] not in sc["vors"] or sc["vors"][op[1]]["poly"] not in sc["polys"]:
            return False
        poly = sc["polys"][sc["vors"][op[1]]["poly"]]["pts"]
        if not op[2] or not domain(poly, op[2]).ok:
            return False
    return True


# ------------------------------------------------------------------------------------------- environments

def environment(r, sc, ctx, vid, pts, poly, p_plain=0.25):
    """Surround the main build of `vid` with other activity; returns the tenant-0 program."""
    n = len(pts)
    pid = sc["vors"][vid]["poly"]
    prog = []
    main = ["build", vid, pts, {"form": r.choice([None, None, None, None] + FORMS)}]
    modes = []
    if r.random() >= p_plain:
        for m, p in (("reuse-poly", .3), ("reuse-vor", .25), ("aborted", .35), ("tenant", .25), ("observed", .3),
                     ("nested", .1)):
            if r.random() < p:
                modes.append(m)
    sc["modes"] = modes
    if "reuse-poly" in modes:
        other = sites_in(r, poly)
        if other:
            w = add_vor(sc, pid, r.random() < .7)
            prog.append(["build", w, other, {}])
    if "reuse-vor" in modes:
        other = sites_in(r, poly)
        if other:
            prog.append(["build", vid, other, {}])
    if "aborted" in modes:
        which = vid if r.random() < .6 else add_vor(sc, pid, True)
        other = pts if r.random() < .5 else (sites_in(r, poly) or pts)
        for _ in range(r.choice([1, 1, 2])):
            prog.append(["build", which, other, {"fault": random_fault(r, ctx, len(other))}])
    if "observed" in modes:
        o = add_obs(sc, acts=[{"on": r.choice(["STEP", "any"]), "do": r.choice(["read", "mutate"])}])
        prog.append(["attach", vid, o])
    if "nested" in modes:
        # the main build happens inside a callback of another diagram's build
        q, qp, qd, _ = gen.draw(r, n=r.randint(2, 5))
        w = add_vor(sc, add_poly(sc, q), True)
        o = add_obs(sc, acts=[{"on": "STEP", "nth": r.randint(1, 3), "do": "ops", "ops": [main]}])
        prog.append(["attach", w, o])
        prog.append(["build", w, qp, {}])
        if r.random() < .5:
            prog.append(main)
    else:
        prog.append(main)
    if r.random() < .25 and "reuse-poly" in modes:
        other = sites_in(r, poly)
        if other:
            prog.append(["build", add_vor(sc, pid, True), other, {}])
    sc["programs"] = [prog]
    if "tenant" in modes:
        for _ in range(r.choice([1, 1, 2])):
            q, qp, qd, _ = gen.draw(r, n=r.randint(2, 6))
            w = add_vor(sc, add_poly(sc, q), r.random() < .8)
            p = [["build", w, qp, {}]]
            if r.random() < .3:
                p.append(["build", w, qp, {"fault": random_fault(r, ctx, len(qp))}])
                p.append(["build", w, qp, {}])
            sc["programs"].append(p)
        sc["sched"] = random_slices(r, len(sc["programs"]), r.randint(4, 40), 12)
    return sc


def finish(s, code_prefix=None):
    return s
