"""A simulated mpi4py on the deterministic scheduler.

Semantics modelled: non-overtaking point-to-point messages per (communicator, source,
destination), standard sends that either buffer or block until matched (seeded choice per
message), wildcard receives, blocking and non-blocking calls, the usual collectives with
entry matching, seeded reduction order, seeded early exit of roots and leaves.
"""
import pickle
import types

import numpy as np

from .core import SimAbort, SimCrash, Violation

ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED = -2, -1, -3, -32766
RT = None            # current Runtime
LOAD_RANK = None     # (rank, size) while a rank's copy of the library is being imported


class Op:
    def __init__(self, name, fn, commute=True):
        self.name, self.fn, self.commute = name, fn, commute

    def __call__(self, a, b):
        return self.fn(a, b)

    @classmethod
    def Create(cls, function, commute=False):
        return cls("user", lambda a, b: function(a, b, None), commute)

    def Free(self):
        pass

    def __repr__(self):
        return f"Op({self.name})"

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_op_by_name, (self.name,))


def _pick(better):
    def f(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.where(better(b, a), b, a)
        return b if better(b, a) else a
    return f


def _loc(better):
    def f(a, b):
        (u, i), (v, j) = a, b
        if u == v:
            return (u, min(i, j))
        return (v, j) if better(v, u) else (u, i)
    return f


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", _pick(lambda x, y: x > y))
MIN = Op("MIN", _pick(lambda x, y: x < y))
LAND = Op("LAND", lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else bool(a) & bool(b))
LOR = Op("LOR", lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else bool(a) | bool(b))
LXOR = Op("LXOR", lambda a, b: np.logical_xor(a, b) if isinstance(a, np.ndarray) else bool(a) ^ bool(b))
BAND = Op("BAND", lambda a, b: a & b)
BOR = Op("BOR", lambda a, b: a | b)
BXOR = Op("BXOR", lambda a, b: a ^ b)
MAXLOC = Op("MAXLOC", _loc(lambda x, y: x > y))
MINLOC = Op("MINLOC", _loc(lambda x, y: x < y))
OPS = {o.name: o for o in (SUM, PROD, MAX, MIN, LAND, LOR, LXOR, BAND, BOR, BXOR, MAXLOC, MINLOC)}


def _op_by_name(n):
    return OPS[n]


class MPIException(RuntimeError):
    pass


class Status:
    def __init__(self):
        self.source, self.tag, self.count = ANY_SOURCE, ANY_TAG, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.count

    def Get_error(self):
        return 0


class Msg:
    __slots__ = ("src", "dst", "ctx", "tag", "data", "matched", "eager", "raw")


class Request:
    def __init__(self, kind, rank, ctx):
        self.kind, self.rank, self.ctx = kind, rank, ctx
        self.done = False
        self.msg = None
        self.source = self.tag = None
        self.finish = None           # post-processing in the waiting rank
        self.completed = False
        self.persistent = False

    def _complete(self, status=None):
        self.completed = True
        RT.pending.discard(self)
        if self.kind == "recv":
            m = self.msg
            if status is not None:
                status.source, status.tag, status.count = m.src_local, m.tag, len(m.data)
            return self.finish(m) if self.finish else m.load()
        return self.finish(None) if self.finish else None

    def wait(self, status=None):
        RT.call("wait")
        RT.sched.block(f"wait-{self.kind}", lambda: self.done)
        return self._complete(status)

    Wait = wait

    def test(self, status=None):
        RT.call("test")
        RT.sched.yield_point("test")
        if self.done:
            return (True, self._complete(status))
        return (False, None)

    def Test(self, status=None):
        return self.test(status)[0]

    def Cancel(self):
        RT.cancel(self)

    cancel = Cancel

    def Free(self):
        pass

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.wait()
        return True

    @classmethod
    def waitany(cls, requests, status=None):
        RT.call("waitany")
        RT.sched.block("waitany", lambda: any(r.done for r in requests))
        ready = [i for i, r in enumerate(requests) if r.done]
        i = ready[RT.sched.ch.choose(len(ready))]
        return (i, requests[i]._complete(status))


class _M:
    """One point-to-point message."""

    def __init__(self, src, dst, ctx, tag, data, eager, src_local):
        self.src, self.dst, self.ctx, self.tag = src, dst, ctx, tag
        self.data, self.eager, self.src_local = data, eager, src_local
        self.matched = False
        self.req = None

    def load(self):
        return pickle.loads(self.data)


class Runtime:
    """State of one simulated job."""

    def __init__(self, sched, size, eager_p0=0.5, eager_mode="mixed", early_p0=0.5, max_calls=20000):
        self.sched, self.size = sched, size
        self.eager_mode, self.eager_p0, self.early_p0 = eager_mode, eager_p0, early_p0
        self.channels = {}      # (ctx, src, dst) -> in-flight messages, FIFO
        self.posted = {}        # (ctx, dst) -> posted receives
        self.unexpected = {}    # (ctx, dst) -> arrived, unmatched messages
        self.coll = {}          # (ctx, seq) -> collective instance
        self.coll_seq = {}      # (ctx, rank) -> next sequence number
        self.next_ctx = 1
        self.pending = set()
        self.faults = {}        # rank -> list of (call index, kind)
        self.stats = dict(messages=0, eager=0, rendezvous=0, delivered=0, collectives=0, calls=0,
                          delayed=0, reduce_orders=0, early_exits=0, fault_crash=0, fault_memory=0,
                          fault_linalg=0, bytes=0)
        self.max_calls = max_calls
        self.rank_calls = [0] * size
        self.rank_what = [[] for _ in range(size)]
        self.crashed = set()
        self.coll_history = [[] for _ in range(size)]
        self.dead_links = set()

    # -- seams
    def rank(self):
        a = self.sched.current
        if a is None:
            raise MPIException("MPI call outside a simulated rank")
        return a.idx

    def call(self, what):
        """Every MPI call and every linear solve passes here: the fault points of a rank."""
        if self.sched.aborting:
            raise SimAbort()
        r = self.rank()
        self.stats["calls"] += 1
        self.rank_calls[r] += 1
        n = self.rank_calls[r]
        self.rank_what[r].append(what)
        for f in self.faults.get(r, ()):
            if f[0] == n:
                self.sched.note("fault", r, f[1], what)
                if f[1] == "crash":
                    self.stats["fault_crash"] += 1
                    self.crashed.add(r)
                    raise SimCrash()
                if f[1] == "memory":
                    self.stats["fault_memory"] += 1
                    raise MemoryError("injected")
                if f[1] == "linalg":
                    self.stats["fault_linalg"] += 1
                    raise np.linalg.LinAlgError("injected")
        if n > self.max_calls:
            raise Violation("no-progress", f"rank {r} made more than {self.max_calls} MPI calls")

    # -- point to point
    def post_send(self, ctx, src, dst, tag, data, sync, src_local, blocking):
        self.stats["messages"] += 1
        self.stats["bytes"] += len(data)
        if sync:
            eager = False
        elif self.eager_mode == "eager":
            eager = True
        elif self.eager_mode == "rendezvous":
            eager = False
        else:
            eager = self.sched.ch.choose(2, p0=self.eager_p0) == 0
        self.stats["eager" if eager else "rendezvous"] += 1
        m = _M(src, dst, ctx, tag, data, eager, src_local)
        req = Request("send", src, ctx)
        m.req = req
        self.pending.add(req)
        if eager:
            req.done = True
        if (src, dst) in self.dead_links:
            self.sched.note("lost", src, dst)
            return req
        q = self.channels.setdefault((ctx, src, dst), [])
        q.append(m)
        self.sched.add_event(f"d{ctx}.{src}>{dst}", lambda: self._deliver((ctx, src, dst)))
        return req

    def _deliver(self, key):
        m = self.channels[key].pop(0)
        self.stats["delivered"] += 1
        box = (m.ctx, m.dst)
        for r in self.posted.get(box, []):
            if self._match(r, m):
                self.posted[box].remove(r)
                self._join(r, m)
                break
        else:
            self.unexpected.setdefault(box, []).append(m)
        self.sched.recheck()

    @staticmethod
    def _match(r, m):
        return r.source in (ANY_SOURCE, m.src_local) and r.tag in (ANY_TAG, m.tag)

    def _join(self, r, m):
        r.msg, r.done = m, True
        m.matched = True
        m.req.done = True

    def post_recv(self, ctx, dst, source, tag):
        r = Request("recv", dst, ctx)
        r.source, r.tag = source, tag
        self.pending.add(r)
        box = (ctx, dst)
        for m in self.unexpected.get(box, []):
            if self._match(r, m):
                self.unexpected[box].remove(m)
                self._join(r, m)
                self.sched.recheck()
                return r
        self.posted.setdefault(box, []).append(r)
        return r

    def cancel(self, req):
        box = (req.ctx, req.rank)
        if req in self.posted.get(box, []):
            self.posted[box].remove(req)
            self.pending.discard(req)

    # -- collectives
    def collective(self, comm, name, value, root=None, op=None):
        """Returns the instance after this rank may leave."""
        self.call(name)
        me = comm._me()
        n = len(comm._group)
        k = (comm._ctx, me)
        seq = self.coll_seq.get(k, 0)
        self.coll_seq[k] = seq + 1
        sig = (name, root, op.name if op is not None else None)
        self.coll_history[self.rank()].append((comm._ctx, sig))
        inst = self.coll.get((comm._ctx, seq))
        if inst is None:
            inst = self.coll[(comm._ctx, seq)] = types.SimpleNamespace(
                sig=sig, first=me, vals={}, left=0, result=None, order=None, n=n)
            self.stats["collectives"] += 1
        elif inst.sig != sig:
            raise Violation("collective-mismatch",
                            f"rank {me} entered {sig} as collective number {seq} where rank {inst.first} entered {inst.sig}")
        inst.vals[me] = value
        self.sched.note(me, name)
        self.sched.recheck()
        everyone = lambda: len(inst.vals) == n
        early = False
        if name in ("bcast", "scatter"):
            if me == root:
                early = self.sched.ch.choose(2, p0=self.early_p0) == 1
                cond = (lambda: True) if early else everyone
            else:
                cond = lambda: root in inst.vals
        elif name in ("gather", "reduce"):
            if me == root:
                cond = everyone
            else:
                early = self.sched.ch.choose(2, p0=self.early_p0) == 1
                cond = (lambda: True) if early else everyone
        elif name in ("scan", "exscan"):
            cond = lambda: all(i in inst.vals for i in range(me + 1))
        else:
            cond = everyone
        if early:
            self.stats["early_exits"] += 1
        self.sched.yield_point()
        self.sched.block(f"{name}#{seq}", cond)
        inst.left += 1
        return inst, me

    def reduce_vals(self, inst, op, n):
        if inst.result is None:
            vals = [pickle.loads(inst.vals[i]) for i in range(n)]
            if op.commute:
                order = list(range(n))
                for i in range(n - 1):
                    j = i + self.sched.ch.choose(n - i, p0=0.4)
                    order[i], order[j] = order[j], order[i]
                if order != sorted(order):
                    self.stats["reduce_orders"] += 1
            else:
                order = list(range(n))
            parts = [vals[i] for i in order]
            while len(parts) > 1:
                # combine a seeded adjacent pair: any bracketing is legal
                i = self.sched.ch.choose(len(parts) - 1, p0=0.6)
                parts[i:i + 2] = [op(parts[i], parts[i + 1])]
            inst.result = pickle.dumps(parts[0])
        return inst.result

    # -- end of job
    def leftovers(self):
        out = []
        for k, q in self.channels.items():
            for m in q:
                out.append(f"in-flight {m.src}->{m.dst} tag {m.tag}")
        for k, q in self.unexpected.items():
            for m in q:
                out.append(f"unreceived {m.src}->{m.dst} tag {m.tag}")
        for k, q in self.posted.items():
            for r in q:
                out.append(f"unmatched receive on rank {r.rank} from {r.source}")
        for r in self.pending:
            if r.kind == "send" and not r.done:
                out.append(f"incomplete send of rank {r.rank}")
        for (ctx, seq), inst in self.coll.items():
            if len(inst.vals) != inst.n:
                out.append(f"collective {inst.sig} entered by {sorted(inst.vals)}")
        return out


def _dumps(o):
    return pickle.dumps(o, protocol=pickle.HIGHEST_PROTOCOL)


def _arr(spec):
    """numpy view of a buffer specification (only contiguous numeric buffers)."""
    if isinstance(spec, (list, tuple)):
        return np.asarray(spec[0])
    return np.asarray(spec)


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()


class Comm:
    def __init__(self, ctx=0, group=None):
        self._ctx = ctx
        self._g = group

    # identity is resolved from the running rank, so one object serves every rank
    @property
    def _group(self):
        if self._g is not None:
            return self._g
        if RT is not None and RT.sched.current is not None:
            return list(range(RT.size))
        if LOAD_RANK is not None:
            return list(range(LOAD_RANK[1]))
        return [0]

    def _me(self):
        if RT is not None and RT.sched.current is not None:
            return self._group.index(RT.rank())
        if LOAD_RANK is not None:
            return LOAD_RANK[0]
        return 0

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (type(self), (self._ctx, self._g) if type(self) is not Intracomm else (self,))

    def __eq__(self, o):
        return isinstance(o, Comm) and o._ctx == self._ctx

    def __hash__(self):
        return hash(self._ctx)

    def Get_rank(self):
        return self._me()

    def Get_size(self):
        return len(self._group)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return f"sim{self._ctx}"

    def Is_inter(self):
        return False

    def Abort(self, errorcode=0):
        RT.sched.aborting = True
        RT.aborted_by = RT.rank()
        raise SimAbort()

    def Free(self):
        pass

    def Set_errhandler(self, e):
        pass

    def Dup(self, info=None):
        return self.Split(0, self._me())

    Clone = Dup

    def Split(self, color=0, key=0):
        inst, me = RT.collective(self, "split", _dumps((color, key, self._me())))
        if inst.result is None:
            vals = sorted((pickle.loads(v) for v in inst.vals.values()), key=lambda t: (t[1], t[2]))
            colors = sorted({c for c, _, _ in vals if c != UNDEFINED})
            inst.result = {}
            for c in colors:
                ctx = RT.next_ctx
                RT.next_ctx += 1
                inst.result[c] = (ctx, [self._group[r] for cc, _, r in vals if cc == c])
        if color == UNDEFINED:
            return COMM_NULL
        ctx, grp = inst.result[color]
        return type(self)._make(ctx, grp)

    @classmethod
    def _make(cls, ctx, grp):
        return Comm(ctx, grp)

    # ---- lower-case point to point
    def _send(self, data, dest, tag, sync):
        RT.call("send")
        me = self._me()
        if dest == PROC_NULL:
            r = Request("send", RT.rank(), self._ctx)
            r.done = True
            return r
        if not 0 <= dest < len(self._group):
            raise MPIException("MPI_ERR_RANK: invalid rank")
        RT.sched.yield_point(f"send>{dest}")
        return RT.post_send(self._ctx, self._group[me], self._group[dest], tag, data, sync, me, True)

    def send(self, obj, dest, tag=0):
        r = self._send(_dumps(obj), dest, tag, False)
        RT.sched.block(f"send to {dest}", lambda: r.done)
        RT.pending.discard(r)

    def ssend(self, obj, dest, tag=0):
        r = self._send(_dumps(obj), dest, tag, True)
        RT.sched.block(f"ssend to {dest}", lambda: r.done)
        RT.pending.discard(r)

    def bsend(self, obj, dest, tag=0):
        r = self._send(_dumps(obj), dest, tag, False)
        r.done = True
        RT.pending.discard(r)

    def isend(self, obj, dest, tag=0):
        return self._send(_dumps(obj), dest, tag, False)

    def issend(self, obj, dest, tag=0):
        return self._send(_dumps(obj), dest, tag, True)

    ibsend = isend

    def _recv(self, source, tag):
        RT.call("recv")
        if source is None:
            source = ANY_SOURCE
        if source not in (ANY_SOURCE,) and not 0 <= source < len(self._group):
            raise MPIException("MPI_ERR_RANK: invalid rank")
        RT.sched.yield_point(f"recv<{source}")
        return RT.post_recv(self._ctx, RT.rank(), source, tag)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = self._recv(source, tag)
        RT.sched.block(f"recv from {source}", lambda: r.done)
        return r._complete(status)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._recv(source, tag)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        rr = self._recv(source, recvtag)
        sr = self._send(_dumps(sendobj), dest, sendtag, False)
        RT.sched.block("sendrecv", lambda: rr.done and sr.done)
        RT.pending.discard(sr)
        return rr._complete(status)

    def _find(self, source, tag):
        probe = types.SimpleNamespace(source=source, tag=tag)
        for m in RT.unexpected.get((self._ctx, RT.rank()), []):
            if RT._match(probe, m):
                return m
        return None

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        RT.call("probe")
        RT.sched.yield_point("probe")
        RT.sched.block("probe", lambda: self._find(source, tag) is not None)
        m = self._find(source, tag)
        if status is not None:
            status.source, status.tag, status.count = m.src_local, m.tag, len(m.data)
        return True

    Probe = probe

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        RT.call("iprobe")
        RT.sched.yield_point("iprobe")
        m = self._find(source, tag)
        if m is not None and status is not None:
            status.source, status.tag, status.count = m.src_local, m.tag, len(m.data)
        return m is not None

    Iprobe = iprobe

    # ---- lower-case collectives
    def bcast(self, obj, root=0):
        me = self._me()
        inst, me = RT.collective(self, "bcast", _dumps(obj) if me == root else None, root=root)
        return obj if me == root else pickle.loads(inst.vals[root])

    def barrier(self):
        RT.collective(self, "barrier", None)

    Barrier = barrier

    def scatter(self, sendobj, root=0):
        me = self._me()
        v = None
        if me == root:
            sendobj = list(sendobj)
            if len(sendobj) != len(self._group):
                raise ValueError(f"expecting {len(self._group)} items, got {len(sendobj)}")
            v = [_dumps(o) for o in sendobj]
        inst, me = RT.collective(self, "scatter", v, root=root)
        return pickle.loads(inst.vals[root][me])

    def gather(self, sendobj, root=0):
        inst, me = RT.collective(self, "gather", _dumps(sendobj), root=root)
        if me != root:
            return None
        return [pickle.loads(inst.vals[i]) for i in range(len(self._group))]

    def allgather(self, sendobj):
        inst, me = RT.collective(self, "allgather", _dumps(sendobj))
        return [pickle.loads(inst.vals[i]) for i in range(len(self._group))]

    def alltoall(self, sendobj):
        v = [_dumps(o) for o in sendobj]
        inst, me = RT.collective(self, "alltoall", v)
        return [pickle.loads(inst.vals[i][me]) for i in range(len(self._group))]

    def allreduce(self, sendobj, op=SUM):
        inst, me = RT.collective(self, "allreduce", _dumps(sendobj), op=op)
        return pickle.loads(RT.reduce_vals(inst, op, len(self._group)))

    def reduce(self, sendobj, op=SUM, root=0):
        inst, me = RT.collective(self, "reduce", _dumps(sendobj), root=root, op=op)
        return pickle.loads(RT.reduce_vals(inst, op, len(self._group))) if me == root else None

    def scan(self, sendobj, op=SUM):
        inst, me = RT.collective(self, "scan", _dumps(sendobj), op=op)
        acc = pickle.loads(inst.vals[0])
        for i in range(1, me + 1):
            acc = op(acc, pickle.loads(inst.vals[i]))
        return acc

    def exscan(self, sendobj, op=SUM):
        inst, me = RT.collective(self, "exscan", _dumps(sendobj), op=op)
        if me == 0:
            return None
        acc = pickle.loads(inst.vals[0])
        for i in range(1, me):
            acc = op(acc, pickle.loads(inst.vals[i]))
        return acc

    # ---- upper-case (buffer) forms
    def Send(self, buf, dest, tag=0):
        self.send(_arr(buf).copy(), dest, tag)

    def Ssend(self, buf, dest, tag=0):
        self.ssend(_arr(buf).copy(), dest, tag)

    def Isend(self, buf, dest, tag=0):
        return self.isend(_arr(buf).copy(), dest, tag)

    @staticmethod
    def _fill(buf, data):
        dst = _arr(buf)
        flat = np.asarray(data).reshape(-1)
        if flat.size > dst.size:
            raise MPIException("MPI_ERR_TRUNCATE: message truncated")
        dst.reshape(-1)[:flat.size] = flat

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._fill(buf, self.recv(None, source, tag, status))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        r = self._recv(source, tag)
        r.finish = lambda m: self._fill(buf, m.load())
        return r

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._fill(recvbuf, self.sendrecv(_arr(sendbuf).copy(), dest, sendtag, None, source, recvtag, status))

    def Bcast(self, buf, root=0):
        r = self.bcast(_arr(buf).copy() if self._me() == root else None, root)
        if self._me() != root:
            self._fill(buf, r)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        v = _arr(recvbuf if sendbuf is IN_PLACE else sendbuf).copy()
        self._fill(recvbuf, self.allreduce(v, op))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        v = _arr(recvbuf if sendbuf is IN_PLACE else sendbuf).copy()
        r = self.reduce(v, op, root)
        if self._me() == root:
            self._fill(recvbuf, r)

    def Gather(self, sendbuf, recvbuf, root=0):
        r = self.gather(_arr(sendbuf).copy(), root)
        if self._me() == root:
            self._fill(recvbuf, np.concatenate([np.asarray(x).reshape(-1) for x in r]))

    Gatherv = Gather

    def Allgather(self, sendbuf, recvbuf):
        r = self.allgather(_arr(sendbuf).copy())
        self._fill(recvbuf, np.concatenate([np.asarray(x).reshape(-1) for x in r]))

    Allgatherv = Allgather

    def Scatter(self, sendbuf, recvbuf, root=0):
        parts = None
        if self._me() == root:
            parts = np.split(_arr(sendbuf).reshape(-1), len(self._group))
        self._fill(recvbuf, self.scatter(parts, root))

    def Scatterv(self, sendbuf, recvbuf, root=0):
        parts = None
        if self._me() == root:
            data, counts = np.asarray(sendbuf[0]).reshape(-1), list(sendbuf[1])
            if counts and isinstance(counts[0], (list, tuple, np.ndarray)):
                counts, displs = list(counts[0]), list(counts[1])
            else:
                displs = list(sendbuf[2]) if len(sendbuf) > 2 and isinstance(sendbuf[2], (list, tuple, np.ndarray)) else \
                    list(np.cumsum([0] + counts[:-1]))
            parts = [data[d:d + c] for c, d in zip(counts, displs)]
        self._fill(recvbuf, self.scatter(parts, root))

    def Alltoall(self, sendbuf, recvbuf):
        r = self.alltoall(np.split(_arr(sendbuf).reshape(-1), len(self._group)))
        self._fill(recvbuf, np.concatenate(r))

    def py2f(self):
        return self._ctx


class Intracomm(Comm):
    """mpi4py.util.pkl5.Intracomm / MPI.Intracomm: wraps a communicator."""

    def __init__(self, comm=None, group=None):
        if isinstance(comm, Comm):
            super().__init__(comm._ctx, comm._g)
        else:
            super().__init__(comm or 0, group)

    @classmethod
    def _make(cls, ctx, grp):
        return cls(Comm(ctx, grp))


class _NullComm(Comm):
    pass


class _SelfComm(Comm):
    def __init__(self):
        pass

    _g = None

    @property
    def _ctx(self):
        return -100 - RT.rank()

    @property
    def _group(self):
        return [RT.rank()]

    def __reduce__(self):
        return (_SelfComm, ())


COMM_NULL = _NullComm(-1, [])
COMM_WORLD = Intracomm(Comm(0, None))


def make_modules():
    """sys.modules entries of the simulated mpi4py."""
    pkg = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    util = types.ModuleType("mpi4py.util")
    pkl5 = types.ModuleType("mpi4py.util.pkl5")
    pkg.__path__, util.__path__ = [], []
    pkg.__version__ = "3.1.3"
    names = dict(COMM_WORLD=COMM_WORLD, COMM_NULL=COMM_NULL, Comm=Comm, Intracomm=Intracomm, Status=Status,
                 Request=Request, Op=Op, ANY_SOURCE=ANY_SOURCE, ANY_TAG=ANY_TAG, PROC_NULL=PROC_NULL,
                 UNDEFINED=UNDEFINED, IN_PLACE=IN_PLACE, Exception=MPIException, **OPS)
    for k, v in names.items():
        setattr(MPI, k, v)
    for k in ("DOUBLE", "FLOAT", "INT", "LONG", "INT64_T", "BYTE", "BOOL", "CHAR"):
        setattr(MPI, k, k)
    MPI.COMM_SELF = _SelfComm()
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Finalize = lambda: None
    MPI.Init = lambda: None
    MPI.Get_processor_name = lambda: "sim"
    MPI.Wtime = lambda: RT.sched.now if RT else 0.0
    MPI.Wtick = lambda: 1e-6
    pkl5.Intracomm, pkl5.Comm, pkl5.Request, pkl5.Message = Intracomm, Comm, Request, object
    pkg.MPI, pkg.util, util.pkl5 = MPI, util, pkl5
    return {"mpi4py": pkg, "mpi4py.MPI": MPI, "mpi4py.util": util, "mpi4py.util.pkl5": pkl5}


MODULES = make_modules()
