"""Preemption of simulated threads at source lines (or byte codes) of the library."""
from . import seams

NEVER = 10 ** 9
GAPS = [NEVER, 1, 2, 3, 5, 8, 13, 25, 60, 150, 400]


class Preempter:
    """Trace function of one actor: yields to the scheduler after a drawn number of events."""

    def __init__(self, sched, chooser, never_p0=0.1, opcodes=False):
        self.sched, self.ch, self.p0, self.opcodes = sched, chooser, never_p0, opcodes
        self.root = seams.lib_root()
        self.left = NEVER
        self.events = self.hits = 0

    def draw(self):
        self.left = GAPS[self.ch.choose(len(GAPS), p0=self.p0)]

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.events += 1
            self.left -= 1
            if self.left <= 0:
                self.draw()
                self.hits += 1
                self.sched.yield_point()
        return self.local

    def __call__(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.root):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.local
        return None


class LineFault:
    """Trace function that raises an exception at the n-th executed line of the library."""

    def __init__(self, at, exc, sites=None):
        self.at, self.exc, self.n, self.fired, self.sites = at, exc, 0, None, sites
        self.root = seams.lib_root()

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.sites is not None:
                self.sites.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(self.n)
            if self.n == self.at and self.fired is None:
                self.fired = f"{frame.f_code.co_filename[len(self.root):]}:{frame.f_code.co_name}"
                raise self.exc("injected")
        return self.local

    def __call__(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.root):
            return self.local
        return None
