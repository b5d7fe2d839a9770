"""Process-wide seams: entropy, clocks, thread pools, linear algebra, approximate index."""
import os
import random
import sys
import time
import warnings

ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "CUDA_VISIBLE_DEVICES": ""}

real_time = {k: getattr(time, k) for k in
             ("time", "perf_counter", "process_time", "monotonic", "perf_counter_ns", "process_time_ns",
              "monotonic_ns", "time_ns", "thread_time", "sleep")}

SCHED = None       # active core.Scheduler, or None outside runs
CLOCK = None       # active simulated clock, or None
ENTROPY = random.Random("idle")
FAULT = None       # callable(what) invoked at every linear solve, or None
SOLVES = 0
_ready = False


class SimClock:
    """The only clock the library can read during a run."""

    def __init__(self, seed, mode="steady"):
        self.rng = random.Random(f"clock-{seed}")
        self.mode = mode
        self.mono = 100.0 + self.rng.random()
        self.cpu = 1.0
        self.wall = 1.7e9
        self.reads = 0
        self.jumps = 0
        self.log = []

    def advance(self, dt):
        self.mono += dt
        self.cpu += dt * 0.5
        self.wall += dt

    def read(self, kind):
        self.reads += 1
        m = self.mode
        if m == "steady":
            self.advance(self.rng.expovariate(1e3))
        elif m == "stalled":
            if self.rng.random() < 0.2:
                self.advance(1e-3)
        elif m == "jumpy":
            x = self.rng.random()
            if x < 0.2:
                self.jumps += 1
                self.advance(self.rng.uniform(1, 1e6))
            elif x < 0.6:
                self.advance(self.rng.expovariate(1e3))
            if self.rng.random() < 0.3:
                self.jumps += 1
                self.wall += self.rng.uniform(-1e6, 1e6)    # only the wall clock may go back
        v = {"perf_counter": self.mono, "monotonic": self.mono, "process_time": self.cpu,
             "thread_time": self.cpu, "time": self.wall}[kind]
        self.log.append((kind, v))
        return v


def _clock_fn(kind, ns=False):
    real = real_time[kind + "_ns"] if ns else real_time[kind]

    def f():
        if CLOCK is None:
            return real()
        v = CLOCK.read(kind)
        return int(v * 1e9) if ns else v
    return f


def setup():
    """Install the seams (idempotent; before the library is loaded)."""
    global _ready
    if _ready:
        return
    _ready = True
    warnings.simplefilter("ignore")
    import numpy as np
    import scipy.optimize  # noqa
    import scipy.special  # noqa
    import scipy.stats.qmc  # noqa
    import sklearn.metrics  # noqa
    import sklearn.neighbors
    import sklearn.neighbors._base as nb
    import bayes_opt  # noqa
    import numpy.random.bit_generator as bg
    import secrets

    def ent():
        return SCHED.current.entropy if SCHED is not None and SCHED.current is not None else ENTROPY

    bg.randbits = lambda n: ent().getrandbits(n)
    real_urandom = os.urandom
    os.urandom = lambda n: ent().randbytes(n) if (SCHED is not None or CLOCK is not None) else real_urandom(n)
    secrets.randbits = lambda n: ent().getrandbits(n)

    for k in ("time", "perf_counter", "process_time", "monotonic", "thread_time"):
        setattr(time, k, _clock_fn(k))
    for k in ("time", "perf_counter", "process_time", "monotonic"):
        setattr(time, k + "_ns", _clock_fn(k, ns=True))

    def sleep(dt):
        if CLOCK is None:
            return real_time["sleep"](dt)
        CLOCK.advance(dt)
    time.sleep = sleep

    if hasattr(nb, "effective_n_jobs"):
        nb.effective_n_jobs = lambda n: 1

    real_solve = np.linalg.solve

    def solve(*a, **k):
        global SOLVES
        SOLVES += 1
        if FAULT is not None:
            FAULT("solve")
        return real_solve(*a, **k)
    solve.__wrapped__ = real_solve
    np.linalg.solve = solve

    _steady_proposals()

    try:
        import hnswlib
        RealIndex = hnswlib.Index

        class Index(RealIndex):           # one worker thread, seeded level generator
            def init_index(self, *a, **k):
                k.setdefault("random_seed", 100)
                super().init_index(*a, **k)
                self.set_num_threads(1)

            def add_items(self, data, ids=None, num_threads=-1, replace_deleted=False):
                return super().add_items(data, ids, num_threads=1)

            def knn_query(self, data, k=1, num_threads=-1, filter=None):
                return super().knn_query(data, k=k, num_threads=1)
        hnswlib.Index = Index
    except ImportError:
        pass


def hook_torch():
    """The same for torch: one thread, and its linear solves may fail or suspend the caller."""
    import torch
    torch.set_num_threads(1)
    real = torch.linalg.solve
    if hasattr(real, "__wrapped__"):
        return

    def solve(*a, **k):
        if FAULT is not None:
            FAULT("solve")
        return real(*a, **k)
    solve.__wrapped__ = real
    torch.linalg.solve = solve


_proposals = {}


def begin_run():
    _proposals.clear()


def _steady_proposals():
    """bayes_opt's search for the next trial, made a function of its arguments.

    The last digits of what scikit-learn and scipy find there depend on where their arrays lie in
    memory.  Within a run the same trials, bounds and random state give the same proposal, and
    proposals are rounded so that a repeated run gets them too.
    """
    import numpy as np
    from bayes_opt import BayesianOptimization as B
    real = B.suggest

    def suggest(self, utility_function):
        sp, rs = self._space, self._random_state
        if len(sp) == 0 or getattr(self, "is_constrained", False):
            return real(self, utility_function)
        st = rs.get_state()
        key = (type(self).__name__, tuple(sp.keys), sp.params.tobytes(), sp.target.tobytes(), sp.bounds.tobytes(), st[1].tobytes(), st[2:],
               repr(sorted(vars(utility_function).items())), repr(self._gp.kernel), self._gp.alpha, self._gp.n_restarts_optimizer)
        if key not in _proposals:
            x = sp.params_to_array(real(self, utility_function))
            with np.errstate(all="ignore"):
                unit = 10.0 ** (np.floor(np.log10(np.abs(x))) - 7)
                x = np.where(np.isfinite(unit) & (unit > 0), np.round(x / unit) * unit, x)
            _proposals[key] = (np.clip(x, sp.bounds[:, 0], sp.bounds[:, 1]), rs.get_state())
        x, after = _proposals[key]
        rs.set_state(after)
        return sp.array_to_params(x.copy())
    B.suggest = suggest


def lib_root():
    from . import loader
    return os.path.join(loader.SRC, "MuyGPyS") + os.sep
