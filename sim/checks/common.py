"""Base classes shared by the property checks."""
import hashlib
import json
import math
import os

import numpy as np

from ..core import HarnessError, Violation


KNOWN_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "known_findings.txt")
_known = {}


def load_known(cid):
    """[(key, what fails)] recorded for a property."""
    if cid not in _known:
        out = []
        if os.path.exists(KNOWN_FILE):
            for line in open(KNOWN_FILE):
                line = line.strip()
                if line.startswith("finding:"):
                    # finding: property=<id> key=<key> <what fails>
                    parts = line[len("finding:"):].split(None, 2)
                    if parts[0].split("=", 1)[1] == cid:
                        key = parts[1].split("=", 1)[1]
                        out.append((key, parts[2] if len(parts) > 2 else key))
        _known[cid] = out
    return _known[cid]


class Result:
    """Outcome of one simulated run in which the property held."""

    def __init__(self, digest, nontrivial=True, switches=0, steps=0, sim_time=0.0, faults=None, measures=None):
        self.digest = digest
        self.nontrivial = nontrivial
        self.switches = switches
        self.steps = steps
        self.sim_time = sim_time
        self.faults = faults or {}
        self.measures = measures or {}
        self.known = {}                   # known findings met on the way


class Check:
    id = None
    quick, thorough = 200, 20000          # runs
    rule = ""
    real = []
    stub = []
    assumptions = []
    level = "exploration"
    technique = "deterministic simulation with fault injection"
    met = {}

    def gen(self, r, i, tier):
        """A JSON-able workload from the seeded generator r."""
        raise NotImplementedError

    def run(self, wl, ch, seed):
        """One simulated run. Returns a Result or raises Violation."""
        raise NotImplementedError

    def shrinks(self, wl):
        """Simpler workloads to try while minimising."""
        return iter(())

    def finding(self, key, kind, detail):
        """The check saw exactly the behaviour that `key` describes: go on if that is recorded, else raise."""
        if key not in [k for k, _ in load_known(self.id)]:
            raise Violation(kind, detail, key=key)
        self.met[key] = self.met.get(key, 0) + 1

    def begin(self):
        self.met = {}

    def preload(self):
        """Imports to do once, before workers are forked."""


def fingerprint(x):
    """Hash of a nested result, floats by their exact bits."""
    h = hashlib.sha1()

    def go(v):
        if isinstance(v, dict):
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                go(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for e in v:
                go(e)
        elif isinstance(v, np.ndarray):
            h.update(str((v.shape, v.dtype)).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, float):
            h.update(np.float64(v).tobytes())
        else:
            h.update(repr(v).encode())
    go(x)
    return h.hexdigest()


def same_bits(a, b):
    return fingerprint(a) == fingerprint(b)


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def diff_note(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
    if d.size == 0:
        return "empty"
    k = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
    return f"{a[k]!r} instead of {b[k]!r} at {tuple(int(i) for i in k)}"


def inside(v, b, tol=1e-9):
    lo, hi = b
    return (lo - tol * max(1, abs(lo))) <= v <= (hi + tol * max(1, abs(hi)))


def dumps(x):
    return json.dumps(x, sort_keys=True)


def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))
