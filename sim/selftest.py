"""Self-test of the simulator: repeatability, and that it notices planted misbehaviour."""
import os
import random
import subprocess
import sys

import numpy as np

from . import loader, mpi, seams
from .core import Chooser, Scheduler

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")


def job(n, body, seed=0, **kw):
    sched = Scheduler(Chooser(seed), seed, max_steps=20000)
    rt = mpi.Runtime(sched, n, **kw)
    for r in range(n):
        sched.spawn(f"r{r}", lambda a: body(mpi.COMM_WORLD, a.idx))
    mpi.RT, seams.SCHED = rt, sched
    try:
        sched.run()
    finally:
        mpi.RT = seams.SCHED = None
    return sched, rt


def expect(ok, what):
    if not ok:
        print(f"selftest FAILED: {what}")
        sys.stdout.flush()
        os._exit(1)


def semantics():
    c = [0, 0]
    for seed in range(60):
        # head-to-head sends deadlock exactly when both block
        def head(comm, r):
            comm.send(r, dest=1 - r)
            return comm.recv(source=1 - r)
        s, rt = job(2, head, seed)
        c[bool(s.deadlock)] += 1
        s, _ = job(2, head, seed, eager_mode="eager")
        expect(not s.deadlock and [a.result for a in s.actors] == [1, 0], "buffered exchange completes")
        s, _ = job(2, head, seed, eager_mode="rendezvous")
        expect(s.deadlock, "unbuffered exchange deadlocks")

        # messages between two ranks do not overtake; wildcard receives see any order
        def order(comm, r):
            if r == 0:
                return [comm.recv(source=mpi.ANY_SOURCE) for _ in range(6)]
            for i in range(3):
                comm.send((r, i), dest=0)
        s, rt = job(3, order, seed)
        got = s.actors[0].result
        for r in (1, 2):
            expect([x[1] for x in got if x[0] == r] == [0, 1, 2], "non-overtaking")
        expect(not rt.leftovers(), "no leftovers")

        # an unreceived message is seen
        def lost(comm, r):
            if r == 0:
                comm.send(1, dest=1)
        s, rt = job(2, lost, seed, eager_mode="eager")
        expect(rt.leftovers(), "unreceived message is noticed")

        # reductions
        def red(comm, r):
            return comm.allreduce(r + 1), comm.bcast(r * 10 if r == 2 else None, root=2), comm.scatter(
                [7, 8, 9] if r == 0 else None, root=0), comm.gather(r, root=1)
        s, rt = job(3, red, seed)
        expect([a.result for a in s.actors] == [(6, 20, 7, None), (6, 20, 8, [0, 1, 2]), (6, 20, 9, None)], "collectives")
    expect(c[0] > 5 and c[1] > 5, "both buffering behaviours are explored")

    # same seed, same execution; other seed, other execution
    def work(comm, r):
        x = [comm.allreduce(float(np.random.rand()))]
        for i in range(4):
            if r:
                comm.send(i, dest=0)
            else:
                x += [comm.recv(source=mpi.ANY_SOURCE) for _ in range(2)]
        return x
    digs = {job(3, work, s)[0].digest() for s in range(30)}
    expect(len(digs) > 20, "seeds give different schedules")
    for s in range(10):
        a, b = job(3, work, s)[0], job(3, work, s)[0]
        expect(a.digest() == b.digest() and [x.result for x in a.actors] == [x.result for x in b.actors], "repeatable")


def repeatable(ids, n=6):
    """Digests agree between two processes with different hash seeds."""
    for cid in ids:
        outs = []
        for hs in ("0", "7"):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "digests", cid, str(n)], env=env,
                               capture_output=True, text=True)
            expect(p.returncode == 0, f"digests of {cid}: {p.stderr[-2000:]}")
            outs.append(p.stdout)
        expect(outs[0] == outs[1], f"{cid} is not repeatable:\n{outs[0]}\n{outs[1]}")


def main(ids):
    from .checks import WHERE
    semantics()
    have = [c for c in sorted(WHERE) if os.path.exists(os.path.join(HERE, "sim", "checks", WHERE[c] + ".py"))]
    if ids == ["all"]:
        ids = have
    if ids:
        repeatable(ids)
    print(f"selftest passed ({', '.join(ids) or 'simulator only'})")
    return 0
