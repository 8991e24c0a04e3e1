"""Runs a property: seeded search over scenarios in worker processes, minimisation, replay files, evidence."""
import argparse
import collections
import copy
import hashlib
import json
import os
import random
import resource
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import env

RUN_TIMEOUT = 90           # wall seconds before a run is handed to the step-budget judge
CONFIRM_TIMEOUT = 400


class Ctx:
    """What generators may ask about the tree under test (measured once per process, deterministic)."""

    def __init__(self, tier):
        self.tier = tier
        self._cal = None

    def lines(self, n):
        """Traced lines one build with n sites takes, roughly."""
        if self._cal is None:
            from .common import forked
            self._cal = forked(calibrate) or [1500, 500]
        return int(self._cal[0] + self._cal[1] * n)


def calibrate():
    from . import sim as simmod
    out = []
    for n in (3, 12):
        r = random.Random("cal")
        pts = [[round(r.uniform(1, 99), 1), round(r.uniform(1, 79), 1)] for _ in range(n)]
        sc = {"world": {"hash": 1}, "polys": {"p": {"pts": [[0, 0], [100, 0], [100, 80], [0, 80]]}},
              "vors": {"v": {"poly": "p"}}, "obs": {}, "programs": [[["build", "v", pts, {}]]], "grain": "line"}
        s = simmod.Sim(sc)
        s.run()
        out.append(s.total_points)
    b = max(1, (out[1] - out[0]) // 9)
    return [max(100, out[0] - 3 * b), b]


def setup_limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# ------------------------------------------------------------------------------------------------ one run

def execute(sc, budget=None):
    """Run one scenario in this process -> JSON-able result."""
    from . import props, props2, props3, props4, props5
    P = props.PROPS[sc["prop"]]
    t0 = time.time()
    more = {}
    s = P.run(sc, **({"budget": budget} if budget else {}))
    if sc.get("storm") and s.violations:
        more["executed"] = [list(x) for x in s.slices if x[1]]
    res = {"violations": s.violations, "counts": dict(s.counts), "digest": s.digest(), "points": s.total_points,
           "inter": hashlib.sha256(repr((s.slices, P.key(sc, s))).encode()).hexdigest()[:12] if s.slices else "",
           "slices": len(s.slices), "states": [hash(x) & 0xffffffffffff for x in s.states][:400],
           "nontrivial": bool(getattr(P, "nontrivial", nontrivial)(sc, s)),
           "wall": time.time() - t0}
    res.update(more)
    return res


def nontrivial(sc, s):
    return s.counts["builds"] > 0 and max((len(b["points"]) for b in s.results), default=0) >= 2


def execute_forked(sc, timeout=RUN_TIMEOUT, budget=None):
    """Run one scenario in a forked copy: result dict, {"hang": True}, or {"died": status, "err": text}."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            os.setpgid(0, 0)
            try:
                out = execute(sc, budget)
            except BaseException as e:
                out = {"harness": traceback.format_exc()[-3000:], "mem": isinstance(e, MemoryError)}
            data = json.dumps(out).encode()
            with os.fdopen(wr, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(wr)
    buf = []
    end = time.time() + timeout
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([rd], [], [], left)
        if not ready:
            hang = True
            break
        d = os.read(rd, 1 << 20)
        if not d:
            break
        buf.append(d)
    os.close(rd)
    try:
        os.killpg(pid, 9)
    except (ProcessLookupError, PermissionError):
        try:
            if hang:
                os.kill(pid, 9)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    if hang:
        return {"hang": True}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return {"died": st}


def budget_for(sc):
    n = 0
    from .common import all_builds
    for op in all_builds(sc):
        n += len(op[2]) + 2
    return 400000 + 40000 * n


def judged(sc, ctx=None):
    """Run a scenario; a run that hangs or runs out of memory is judged by a step budget instead of the clock."""
    res = execute_forked(sc)
    if "hang" in res or "died" in res or res.get("mem"):
        first = res
        res = execute_forked(sc, timeout=CONFIRM_TIMEOUT, budget=budget_for(sc))
        if res.get("died") in (6, 7, 11, 134, 135, 139):
            # the interpreter itself crashed: nothing pure Python code can be blamed for
            res = {"violations": [], "counts": {"inconclusive_interpreter_crash": 1}, "digest": "crash", "points": 0,
                   "inter": "", "slices": 0, "states": [], "nontrivial": False, "wall": 0}
        elif "hang" in res or "died" in res or res.get("mem"):
            what = "does not finish" if "hang" in res else "dies" if "died" in res else "runs out of memory"
            res = {"violations": [["no-progress", "the run %s, also under a step budget (first: %s)" % (
                what, str(first)[:80])]], "counts": {"hangs": 1}, "digest": "", "points": 0, "inter": "", "slices": 0,
                "states": [], "nontrivial": True, "wall": 0}
    return res


def in_domain(sc):
    from . import props, props2, props3, props4, props5
    P = props.PROPS[sc["prop"]]
    f = getattr(P, "domain_ok", None)
    if f is not None:
        return f(sc)
    from .common import in_domain as d
    return d(sc)


def make(prop, seed, i, ctx):
    from . import props, props2, props3, props4, props5
    r = random.Random("%s:%s:%s:%s" % (seed, prop, ctx.tier, i))
    sc = props.PROPS[prop].gen(r, ctx)
    sc["seed"] = "%s:%s:%s:%s" % (seed, prop, ctx.tier, i)
    return sc


def worker(prop, seed, tier, start, step, count, wall, out):
    """Runs start, start+step, ... and writes one JSON line per run."""
    setup_limits()
    env.load()
    from . import props, props2, props3, props4, props5
    getattr(props.PROPS[prop], "setup", lambda: None)()
    ctx = Ctx(tier)
    t_end = time.time() + wall
    w = os.fdopen(out, "w", buffering=1)
    i = start
    while i < count and time.time() < t_end:
        try:
            sc = make(prop, seed, i, ctx)
            res = judged(sc)
        except BaseException:
            res = {"harness": traceback.format_exc()[-3000:]}
            sc = None
        res["i"] = i
        if res.get("violations") or "harness" in res or i < 3:
            res["sc"] = sc
        if sc is not None:
            res["kind"] = sc.get("kind")
            res["modes"] = sc.get("modes")
        w.write(json.dumps(res) + "\n")
        i += step
    w.write(json.dumps({"end": True, "next": i}) + "\n")
    w.close()


# ------------------------------------------------------------------------------------------------ minimisation

def candidates(sc):
    """Smaller scenarios, most drastic first."""
    c = copy.deepcopy
    if sc.get("storm"):
        n = c(sc)
        n.pop("storm")
        yield n
    if len(sc["programs"]) > 1:
        for k in range(len(sc["programs"]) - 1, -1, -1):
            n = c(sc)
            n["programs"].pop(k)
            n["sched"] = [[t - (t > k), q] for t, q in n["sched"] if t != k]
            yield n
    if sc.get("sched"):
        n = c(sc)
        n["sched"] = []
        yield n
        L = len(sc["sched"])
        chunk = L // 2
        while chunk > 1 and chunk >= L // 32:
            for a in range(0, L, chunk):
                n = c(sc)
                del n["sched"][a:a + chunk]
                yield n
            chunk //= 2
    for p in range(len(sc["programs"])):
        for k in range(len(sc["programs"][p]) - 1, -1, -1):
            op = sc["programs"][p][k]
            if op[0] == "attach" and instrument(sc["obs"][op[2]]):
                continue
            n = c(sc)
            n["programs"][p].pop(k)
            yield n
    for o, spec in sc["obs"].items():
        for k in range(len(spec.get("acts", []))):
            if spec["acts"][k].get("do") == "probe":
                continue
            n = c(sc)
            n["obs"][o]["acts"].pop(k)
            yield n
    if sc["grain"] != "coarse":
        n = c(sc)
        n["grain"] = "line" if sc["grain"] == "opcode" else "coarse"
        yield n
    if sc["world"].get("ties") is not None:
        n = c(sc)
        n["world"]["ties"] = None
        yield n
    # points: every list of sites, everywhere the same list is used
    lists = []
    for op in iter_builds(sc):
        if op[2] not in lists:
            lists.append(op[2])
    for pts in lists:
        L = len(pts)
        chunk = L // 2
        while chunk >= 1:
            for a in range(0, L, chunk):
                keep = pts[:a] + pts[a + chunk:]
                if keep:
                    yield replace_points(sc, pts, keep)
            chunk //= 2
    for p in range(len(sc["programs"])):
        for k, op in enumerate(sc["programs"][p]):
            if op[0] == "tree":         # a history of tree operations
                chunk = len(op[2])
                while chunk >= 1:
                    for a in range(0, len(op[2]), chunk):
                        n = c(sc)
                        del n["programs"][p][k][2][a:a + chunk]
                        yield n
                    chunk //= 2
    for p in range(len(sc["programs"])):
        for k, op in enumerate(sc["programs"][p]):
            if op[0] == "build" and len(op) > 3 and op[3].get("fault") and op[3]["fault"]["at"] > 1:
                for at in {1, op[3]["fault"]["at"] // 2, op[3]["fault"]["at"] - 1}:
                    n = c(sc)
                    n["programs"][p][k][3]["fault"]["at"] = max(1, at)
                    yield n
    for j in range(len(sc.get("sched", []))):
        n = c(sc)
        n["sched"].pop(j)
        yield n
    for j in range(len(sc.get("sched", []))):
        if sc["sched"][j][1] > 1:
            n = c(sc)
            n["sched"][j][1] //= 2
            yield n


def instrument(spec):
    """Is this observer part of the checking itself?"""
    return "sentinel" in spec or any(a.get("do") == "probe" for a in spec.get("acts", []))


def iter_builds(sc):
    from .common import all_builds
    return all_builds(sc)


def replace_points(sc, old, new):
    n = copy.deepcopy(sc)
    for op in iter_builds(n):
        if op[2] == old:
            op[2] = copy.deepcopy(new)
    return n


def minimise(sc, code, wall):
    """Greedy shrinking that keeps the violation class."""
    t_end = time.time() + wall
    if sc.get("storm"):
        # turn the storm into the explicit schedule it came to
        cand = copy.deepcopy(sc)
        cand.pop("storm")
        res = execute_forked(sc, timeout=60)
        cand["sched"] = res.get("executed") or []
        res = execute_forked(cand, timeout=60)
        if any(v[0] == code for v in res.get("violations", [])):
            sc = cand
    best = sc
    tries = 0
    improved = True
    while improved and time.time() < t_end:
        improved = False
        for cand in candidates(best):
            if time.time() > t_end:
                break
            try:
                if not in_domain(cand):
                    continue
            except Exception:
                continue
            tries += 1
            res = execute_forked(cand, timeout=20)
            if any(v[0] == code for v in res.get("violations", [])):
                best = cand
                improved = True
                break
    return best, tries


# ------------------------------------------------------------------------------------------------ known findings

def known_path():
    return os.path.join(env.HERE, "known_findings.json")


def known(prop):
    try:
        data = json.load(open(known_path()))
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


# ------------------------------------------------------------------------------------------------ the check

CONFIG = {
    # runs and wall limit per tier
    "quick": {"default": (2400, 60), "C19": (12000, 60)},
    "thorough": {"default": (120000, 1500), "C19": (400000, 900)},
}


def spawn(prop, seed, tier, k, n, count, wall, hashseed="0"):
    rd, wr = os.pipe()
    code = ("import sys; sys.path.insert(0, %r); from fsim import runner; "
            "runner.worker(%r, %r, %r, %d, %d, %d, %r, %d)" % (env.HERE, prop, seed, tier, k, n, count, wall, wr))
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], env=env.child_env(hashseed), pass_fds=[wr],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=env.HERE)
    os.close(wr)
    return p, rd


def prepare_dirs():
    d = tempfile.mkdtemp(prefix="fsim_")
    mpl = os.path.join(d, "mpl")
    os.mkdir(mpl)
    src = "/opt/vp/mpl"
    if os.path.isdir(src):
        for f in os.listdir(src):
            try:
                shutil.copy(os.path.join(src, f), mpl)
            except OSError:
                pass
    os.environ["MPLCONFIGDIR"] = mpl
    os.environ["FSIM_TMP"] = d
    os.environ["TMPDIR"] = d
    tempfile.tempdir = d
    return d


def check(prop, tier, seed, runs=None, wall=None, jobs=None, quiet=False):
    d = prepare_dirs()
    try:
        return _check(prop, tier, seed, runs, wall, jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _check(prop, tier, seed, runs, wall, jobs):
    t0 = time.time()
    conf = CONFIG[tier].get(prop, CONFIG[tier]["default"])
    count = runs or conf[0]
    limit = wall or conf[1]
    jobs = jobs or min(8, os.cpu_count() or 8)
    procs = [spawn(prop, str(seed), tier, k, jobs, count, limit) for k in range(jobs)]
    bufs = {rd: b"" for _, rd in procs}
    ended = set()
    agg = collections.Counter()
    kinds, modes = collections.Counter(), collections.Counter()
    inter, states, digests = set(), set(), set()
    done = nontriv = 0
    points = 0
    viol, harness, samples = [], [], []
    per_run_wall = 0.0
    hard_end = time.time() + limit + CONFIRM_TIMEOUT + RUN_TIMEOUT + 60
    open_fds = set(bufs)
    stop = False
    first_viol = None
    while open_fds and time.time() < hard_end and not stop:
        if first_viol and time.time() > first_viol + 8:
            break               # enough to choose the smallest failing run from
        ready, _, _ = select.select(list(open_fds), [], [], 2)
        for rd in ready:
            data = os.read(rd, 1 << 20)
            if not data:
                open_fds.discard(rd)
                continue
            bufs[rd] += data
            while b"\n" in bufs[rd]:
                line, bufs[rd] = bufs[rd].split(b"\n", 1)
                res = json.loads(line)
                if res.get("end"):
                    ended.add(rd)
                    continue
                if "harness" in res:
                    harness.append(res)
                    continue
                done += 1
                agg.update({k: v for k, v in res["counts"].items() if not k.startswith("max_")})
                for k, v in res["counts"].items():
                    if k.startswith("max_"):
                        agg[k] = max(agg[k], v)
                points += res["points"]
                per_run_wall += res["wall"]
                kinds[res.get("kind")] += 1
                for m in res.get("modes") or []:
                    modes[m] += 1
                if res["nontrivial"] and res["digest"] not in digests:
                    nontriv += 1
                digests.add(res["digest"])
                if res["slices"] > 1:
                    inter.add(res["inter"])
                states.update(res["states"])
                if res.get("violations"):
                    viol.append(res)
                    first_viol = first_viol or time.time()
                    if len(viol) >= 12:
                        stop = True
                elif res.get("sc") and len(samples) < 3:
                    samples.append({"run": res["i"], "scenario": res["sc"], "event_log_digest": res["digest"]})
    err = ""
    for p, rd in procs:
        if stop or first_viol or p.poll() is None and rd in open_fds:
            p.kill()
        try:
            err += (p.communicate(timeout=20)[1] or b"").decode(errors="replace")[-1500:]
        except subprocess.TimeoutExpired:
            p.kill()
        os.close(rd)
    search_wall = time.time() - t0
    setup_limits()
    env.load()
    from . import props, props2, props3, props4, props5
    getattr(props.PROPS[prop], "setup", lambda: None)()
    lines = []
    code = 0
    if viol:
        viol.sort(key=lambda v: (len(json.dumps(v["sc"])), v["i"]))
        best = viol[0]
        vcode = best["violations"][0][0]
        sc, tries = minimise(best["sc"], vcode, 25 if tier == "quick" else 120)
        final = judged(sc)
        same = [v for v in final.get("violations", []) if v[0] == vcode]
        if not same:
            sc, final = best["sc"], best
            same = best["violations"]
        path = write_replay(prop, sc, same[0], final, best["i"], tries)
        lines.append("run %s of seed %s: %s: %s" % (best["i"], seed, same[0][0], same[0][1]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    # known findings: shown while they still fail, never hidden when something else fails
    shown = 0
    for k in known(prop):
        res = judged(k["scenario"])
        if res.get("violations"):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            shown += 1
    if harness and code == 0:
        lines.append("HARNESS-ERROR %d runs; first: %s" % (len(harness), harness[0]["harness"]))
        code = 2
    if code == 0 and len(ended) < len(procs):
        lines.append("HARNESS-ERROR %d workers ended early: %s" % (len(procs) - len(ended), err[-800:]))
        code = 2
    if code == 0 and done < min(count, 20):
        lines.append("HARNESS-ERROR only %d runs finished" % done)
        code = 2
    from . import props, props2, props3, props4, props5
    P = props.PROPS[prop]
    faults = {k: v for k, v in sorted(agg.items()) if k.startswith("fault:") or k.startswith("act:raise")
              or k.startswith("sink:")}
    wall_s = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nontriv,
            "rule": getattr(P, "rule", RULE),
            "samples": samples,
            "planned_runs": count,
            "simulated_runs_per_hour": int(done / max(search_wall, .001) * 3600),
            "seeds_per_hour": int(done / max(search_wall, .001) * 3600),
            "simulated_time": {"note": "the library has no clock; simulated time is counted in scheduling points and "
                                       "event-queue operations",
                               "scheduling_points": points, "event_queue_puts": agg["qput"],
                               "event_queue_gets": agg["qget"], "messages": agg["messages"]},
            "faults_fired": faults,
            "faults_fired_total": sum(faults.values()),
            "builds": {k: agg[k] for k in ("builds", "builds_ok", "builds_aborted")},
            "context_switches": agg["slices"],
            "distinct_interleavings": len(inter),
            "interleaving_measure": "hash of the executed slices (tenant, scheduling points) of runs with more than "
                                    "one slice",
            "distinct_states": len(states),
            "state_measure": getattr(P, "state_measure", "property specific state hashes recorded by the probes"),
            "input_kinds": {str(k): v for k, v in sorted(kinds.items(), key=str)},
            "environments": dict(sorted(modes.items())),
            "counters": {k: v for k, v in sorted(agg.items())},
            "real_components": REAL,
            "stub_components": STUB + list(getattr(P, "stubs", [])),
            "known_findings_shown": shown,
            "reach": getattr(P, "reach", lambda a: {})(agg),
        },
        "assumptions": ASSUME + list(getattr(P, "assumes", [])),
        "wall_s": round(wall_s, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(env.HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(env.HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(env.HERE, "evidence", prop + ".json"))
    for l in lines:
        print(l)
    print("%s %s seed=%s: %d runs (%d distinct non-trivial), %d violations, %d faults fired, %.1fs" % (
        prop, tier, seed, done, nontriv, len(viol), sum(faults.values()), wall_s))
    return code


RULE = ("each run draws one scenario (sites, polygon, observers, tenants, schedule, faults) from the seed; non-trivial: "
        "at least one build with two sites or more; distinct: the event log differs from every other run's")
REAL = ["foronoi: algorithm, events, nodes, tree, graph, observers (imported from /repo's working tree)", "numpy",
        "decimal"]
STUB = ["queue.PriorityQueue: simulator's queue (same order, no locks, ties and faults decided by the seed)",
        "uuid.uuid4: seeded", "object hashes and id() seen by the library: seeded",
        "thread scheduling: real threads parked and released one at a time by the simulator"]
ASSUME = ["input domain: convex polygon, distinct sites inside or on it, coordinates of any format and up to 17 digits",
          "half-edge structure of the outside (half edges without a site) is not constrained"]


def write_replay(prop, sc, violation, final, i, tries):
    d = os.path.join(env.HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "violation": violation, "scenario": sc, "event_log_digest": final.get("digest"),
            "found_in_run": i, "minimiser_tries": tries, "how": "bin/check %s --replay <this file>" % prop}
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps([sc, violation[0]]).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(prop, path):
    d = prepare_dirs()
    try:
        body = json.load(open(path))
        setup_limits()
        env.load()
        from . import props, props2, props3, props4, props5
        getattr(props.PROPS[prop], "setup", lambda: None)()
        res = judged(body["scenario"])
        again = judged(body["scenario"])
        if "harness" in res:
            print(res["harness"])
            return 2
        if res["digest"] != again["digest"]:
            print("NONDETERMINISTIC replay: %s %s" % (res["digest"], again["digest"]))
        v = res.get("violations") or []
        for x in v[:5]:
            print("%s: %s" % tuple(x))
        print("event log digest %s, recorded %s" % (res["digest"], body.get("event_log_digest")))
        if v:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def digests(prop, seed, tier, n, jobs, hashseed):
    """Event-log digest of each of the first n runs, executed by `jobs` workers under the given hash seed."""
    procs = [spawn(prop, str(seed), tier, k, jobs, n, 600, hashseed) for k in range(jobs)]
    out = {}
    for p, rd in procs:
        with os.fdopen(rd) as f:
            for line in f:
                res = json.loads(line)
                if "i" in res:
                    out[res["i"]] = (res.get("digest"), res.get("inter"), res.get("harness", "")[-300:])
        p.wait()
    return out


def selftest(props_, n):
    """One seed is one execution: the same digests whatever the worker count and the interpreter's hash seed."""
    d = prepare_dirs()
    bad = 0
    for p in props_:
        a = digests(p, 1, "quick", n, 8, "0")
        b = digests(p, 1, "quick", n, 5, "77")
        diff = [i for i in range(n) if a.get(i) != b.get(i) or a.get(i) is None]
        print("%s: %d runs, %d differ %s" % (p, n, len(diff), [(i, a.get(i), b.get(i)) for i in diff[:2]] or ""))
        bad += len(diff)
    shutil.rmtree(d, ignore_errors=True)
    return 1 if bad else 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--show", type=int)
    ap.add_argument("--smoke", action="store_true")
    ap.add_argument("--selftest", type=int, metavar="RUNS")
    a = ap.parse_args(argv)
    if a.tier not in CONFIG:
        a.tier = "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    if a.replay:
        return replay(a.prop, a.replay)
    if a.selftest:
        from . import props, props2, props3, props4, props5
        return selftest(sorted(props.PROPS) if a.prop == "all" else [a.prop], a.selftest)
    if a.smoke:
        d = prepare_dirs()
        env.load()
        res = judged(make(a.prop, "0", 0, Ctx("quick")))
        shutil.rmtree(d, ignore_errors=True)
        print("smoke run: %s" % {k: res.get(k) for k in ("digest", "violations", "harness")})
        return 2 if "harness" in res else 0
    if a.show is not None:
        d = prepare_dirs()
        env.load()
        print(json.dumps(make(a.prop, str(seed), a.show, Ctx(a.tier)), indent=1))
        shutil.rmtree(d, ignore_errors=True)
        return 0
    return check(a.prop, a.tier, seed, a.runs, a.wall, a.jobs)
