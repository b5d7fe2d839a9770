"""Scheduler of the deterministic simulator.

One run = one workload + one stream of choices.  Simulated actors (MPI ranks, caller
threads) are real threads that are parked and released one at a time; who runs next, which
message arrives next, which fault fires is decided by `Chooser.choose` only.  Option 0 of
every choice is the plainest behaviour, so a shorter / more-zero script is a simpler run.
"""
import hashlib
import random
import sys
import threading
import _thread

import numpy as np

REAL_TRACE = sys.settrace


class SimAbort(BaseException):
    """Unwinds a simulated actor (job abort); never meant to be caught by library code."""


class SimCrash(BaseException):
    """Injected death of a simulated process."""


class Violation(Exception):
    """A property violation. kind: stable class name; detail: human readable."""

    def __init__(self, kind, detail="", key=None):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail, self.key = kind, str(detail), key


class HarnessError(Exception):
    pass


class Chooser:
    def __init__(self, seed=None, script=None):
        self.rng = random.Random(f"choices-{seed}")
        self.script = script
        self.pos = 0
        self.record = []

    def choose(self, n, p0=None):
        """An integer in [0, n). p0: probability of option 0 (uniform otherwise)."""
        if n <= 1:
            return 0
        if self.script is not None:
            v = self.script[self.pos] if self.pos < len(self.script) else 0
            self.pos += 1
            v = v if 0 <= v < n else 0
        elif p0 is not None:
            v = 0 if self.rng.random() < p0 else 1 + self.rng.randrange(n - 1)
        else:
            v = self.rng.randrange(n)
        self.record.append(v)
        return v


class Actor:
    def __init__(self, sched, idx, name, fn, seed):
        self.sched, self.idx, self.name, self.fn = sched, idx, name, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "ready"          # ready | blocked | done
        self.why = None
        self.result = None
        self.exc = None
        self.crashed = False
        self.entropy = random.Random(f"entropy-{seed}-{idx}")
        rs = np.random.RandomState(self.entropy.getrandbits(32))
        self.np_state = rs.get_state()
        self.py_state = random.Random(self.entropy.getrandbits(64)).getstate()
        self.modules = None           # MuyGPyS* entries of sys.modules while it runs
        self.slow = 0                 # scheduler weight: stalled actors are picked rarely
        self.seam_calls = 0
        self.trace_fn = None


class Scheduler:
    def __init__(self, chooser, seed, switch_p0=0.5, max_steps=200000):
        self.ch = chooser
        self.seed = seed
        self.actors = []
        self.current = None
        self.switch_p0 = switch_p0
        self.events = []              # pending virtual events: callables with a label
        self.log = []
        self.hash = hashlib.sha1()
        self.steps = 0
        self.max_steps = max_steps
        self.now = 0.0
        self.trng = random.Random(f"latency-{seed}")
        self.aborting = False
        self.deadlock = None
        self.livelock = False
        self.failure = None           # Violation raised inside the machinery
        self._main = _thread.allocate_lock()
        self._main.acquire()
        self.switches = 0
        self.stall_events = 0
        self._alive = 0

    # ---- set-up
    def spawn(self, name, fn):
        a = Actor(self, len(self.actors), name, fn, self.seed)
        self.actors.append(a)
        return a

    def note(self, *what):
        s = ":".join(str(w) for w in what)
        self.hash.update(s.encode())
        if len(self.log) < 4000:
            self.log.append(s)

    def add_event(self, label, fn):
        self.events.append((label, fn))

    # ---- running
    def run(self):
        self._ambient = (np.random.get_state(), random.getstate())
        self._alive = len(self.actors)
        threads = []
        for a in self.actors:
            t = threading.Thread(target=self._body, args=(a,), daemon=True)
            a.thread = t
            threads.append(t)
        old = threading.stack_size()
        for t in threads:
            t.start()
        threading.stack_size(old)
        self._pick_and_go(None)
        self._main.acquire()
        for t in threads:
            t.join(30)
            if t.is_alive():
                raise HarnessError("actor thread did not end")
        np.random.set_state(self._ambient[0])
        random.setstate(self._ambient[1])
        self.current = None
        if self.failure is not None:
            raise self.failure

    def _body(self, a):
        a.lock.acquire()
        self._enter(a)
        try:
            if not self.aborting:
                if a.trace_fn is not None:
                    sys.settrace(a.trace_fn)
                try:
                    a.result = a.fn(a)
                finally:
                    sys.settrace(None)
        except SimAbort:
            a.exc = None
            a.aborted = True
        except SimCrash:
            a.crashed = True
        except Violation as v:
            if self.failure is None:
                self.failure = v
            self.aborting = True
        except BaseException as e:
            a.exc = e
        self._leave(a)
        a.state = "done"
        self.note("end", a.idx, type(a.exc).__name__ if a.exc else "-", int(a.crashed))
        self._alive -= 1
        self._pick_and_go(None)

    def _enter(self, a):
        self.current = a
        np.random.set_state(a.np_state)
        random.setstate(a.py_state)
        if a.modules is not None:
            install(a.modules)

    def _leave(self, a):
        a.np_state = np.random.get_state()
        a.py_state = random.getstate()

    def _pick_and_go(self, me):
        """Decide who runs next; called by the actor that stops running (or at its end)."""
        while True:
            if self._alive == 0:
                self._main.release()
                return
            self.steps += 1
            if self.steps > self.max_steps and not self.aborting:
                self.livelock = True
                self.aborting = True
            if self.aborting:
                live = [x for x in self.actors if x.state != "done"]
                nxt = live[0]
                nxt.state = "ready"
            else:
                ready = [x for x in self.actors if x.state == "ready"]
                opts = []
                if me is not None and me.state == "ready":
                    opts.append(me)
                rest = [x for x in ready if x is not me]
                fast = [x for x in rest if not x.slow]
                slow = [x for x in rest if x.slow]
                ev = list(self.events)
                if slow and (fast or ev or opts):
                    # a stalled actor only gets through now and then
                    if self.ch.choose(8, p0=0.85) == 7:
                        fast = fast + slow
                    else:
                        self.stall_events += 1
                else:
                    fast = fast + slow
                opts = opts + fast + ev
                if not opts:
                    self.deadlock = [(x.name, x.why) for x in self.actors if x.state == "blocked"]
                    self.aborting = True
                    continue
                k = self.ch.choose(len(opts), p0=self.switch_p0 if opts[0] is me else None)
                pick = opts[k]
                self.now += 1e-6
                if isinstance(pick, tuple):
                    self.events.remove(pick)
                    self.note("ev", pick[0])
                    self.now += self.trng.expovariate(2e4)
                    pick[1]()
                    continue
                nxt = pick
            if nxt is me:
                return
            self.switches += 1
            self.note("run", nxt.idx)
            if me is not None:
                self._leave(me)
            nxt.lock.release()
            if me is None:
                return
            me.lock.acquire()
            self._enter(me)
            return

    # ---- called by actors
    def yield_point(self, label=None):
        a = self.current
        if self.aborting:
            raise SimAbort()
        if label is not None:
            self.note(a.idx, label)
        self._pick_and_go(a)
        if self.aborting:
            raise SimAbort()

    def block(self, why, ready):
        """Park the current actor until ready() is true."""
        a = self.current
        while not ready():
            if self.aborting:
                raise SimAbort()
            a.state, a.why, a.ready_fn = "blocked", why, ready
            self._pick_and_go(a)
            if self.aborting:
                raise SimAbort()
        a.state, a.why = "ready", None

    def recheck(self):
        for x in self.actors:
            if x.state == "blocked" and x.ready_fn():
                x.state = "ready"

    def digest(self):
        return self.hash.hexdigest()


# ---------------------------------------------------------------- sys.modules swapping
ROOT = "MuyGPyS"


def current_modules():
    return {k: v for k, v in sys.modules.items() if k == ROOT or k.startswith(ROOT + ".")}


def clear_modules():
    for k in list(sys.modules):
        if k == ROOT or k.startswith(ROOT + "."):
            del sys.modules[k]


_installed = None


def install(mods):
    """Make `mods` (a dict that the loader keeps per simulated process) current."""
    global _installed
    if _installed is mods:
        return
    if _installed is not None:
        # lazily imported modules stay with their owner
        _installed.update(current_modules())
    clear_modules()
    sys.modules.update(mods)
    _installed = mods
