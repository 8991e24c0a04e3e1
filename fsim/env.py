"""Process set-up: where the code under test lives, and the seams that must be in place before it is imported."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child_env(hashseed="0"):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["MPLBACKEND"] = "Agg"
    e["PYTHONWARNINGS"] = "ignore"
    return e


class SimQueue:
    """Stands in for queue.PriorityQueue: same order (the events' own `<`), no locks, ties decided by the simulator.

    Every put and get is a scheduling point and a possible fault point of the running simulation.
    """
    hooks = None        # set by the simulation

    def __init__(self, maxsize=0):
        self.queue = []
        self._n = 0

    def put(self, item, block=True, timeout=None):
        import heapq
        h = SimQueue.hooks
        if h is not None:
            h.on_queue("qput", self, item)
        heapq.heappush(self.queue, item)

    put_nowait = put

    def get(self, block=True, timeout=None):
        import heapq
        h = SimQueue.hooks
        if h is not None:
            h.on_queue("qget", self, None)
        if not self.queue:
            # the real queue would block for ever: nobody else feeds it
            raise RuntimeError("deadlock: get() on an empty event queue blocks for ever")
        item = heapq.heappop(self.queue)
        if h is None or h.tie_rng is None or not self.queue:
            return item
        if item < self.queue[0]:
            return item
        tied = [item]
        while self.queue and not (item < self.queue[0]):
            tied.append(heapq.heappop(self.queue))
        k = h.tie_rng.randrange(len(tied))
        h.count("tie_choice")
        for i, t in enumerate(tied):
            if i != k:
                heapq.heappush(self.queue, t)
        return tied[k]

    def get_nowait(self):
        return self.get()

    def empty(self):
        return not self.queue

    def qsize(self):
        return len(self.queue)

    def full(self):
        return False


_loaded = None


def load():
    """Import foronoi from REPO with the seams in place, once per process."""
    global _loaded
    if _loaded is not None:
        return _loaded
    import warnings
    warnings.simplefilter("ignore")
    import tempfile
    if "MPLCONFIGDIR" not in os.environ or not os.path.isdir(os.environ["MPLCONFIGDIR"]):
        os.environ["MPLCONFIGDIR"] = tempfile.mkdtemp(prefix="fsim_mpl_")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import queue
    real = queue.PriorityQueue
    queue.PriorityQueue = SimQueue
    try:
        import numpy  # noqa
        import matplotlib
        matplotlib.use("Agg")
        import foronoi
        import foronoi.algorithm
    finally:
        queue.PriorityQueue = real
    if not os.path.abspath(foronoi.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("foronoi was not imported from " + REPO)
    if getattr(foronoi.algorithm, "PriorityQueue", None) is real:
        foronoi.algorithm.PriorityQueue = SimQueue
    # a module that refers to queue.PriorityQueue at call time
    for name, mod in list(sys.modules.items()):
        if name.startswith("foronoi") and getattr(mod, "queue", None) is queue:
            class _Q:
                PriorityQueue = SimQueue

                def __getattr__(self, a):
                    return getattr(queue, a)
            mod.queue = _Q()
    _loaded = foronoi
    return foronoi
