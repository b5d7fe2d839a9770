"""C11, C21: several threads in one process, preempted at lines or byte codes of the library."""
import copy

import numpy as np

from .. import core, loader, models, preempt, seams
from ..core import Scheduler, Violation
from . import histories as hist
from .common import Check, Result, diff_note, fingerprint, short

REAL = ["MuyGPyS (whole library, numpy backend)", "numpy", "scipy.optimize", "scikit-learn", "hnswlib"]
STUB = ["operating-system thread scheduling", "threads inside scikit-learn and hnswlib (one each)", "entropy"]


def agree(a, b, path="result"):
    """None, or where two answers differ (floats to 1e-9, everything else exactly)."""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return f"{path}: {sorted(a)} instead of {sorted(b)}"
        for k in a:
            d = agree(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {short(a)} instead of {short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = agree(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (np.ndarray, float, np.floating)) and isinstance(b, (np.ndarray, float, np.floating)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype != y.dtype:
            return f"{path}: {x.dtype}{x.shape} instead of {y.dtype}{y.shape}"
        if x.dtype.kind != "f":
            return None if np.array_equal(x, y) else f"{path}: {diff_note(x, y)}"
        return None if np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True) else f"{path}: {diff_note(x, y)}"
    return None if type(a) is type(b) and a == b else f"{path}: {short(a)} instead of {short(b)}"


# ------------------------------------------------------------------ C11
class Shared:
    """Models, lookups, arrays and objectives that all the callers use."""

    def __init__(self, W, wl, data):
        self.W, self.wl, self.data = W, wl, data
        self.models = [hist.build(W, s) for s in wl["models"]]
        self.lookups = []
        for l in wl["lookups"]:
            kw = {"algorithm": l["algo"]} if l["method"] == "exact" else {"space": "l2", "M": 8, "random_seed": 7}
            self.lookups.append(W.neighbors.NN_Wrapper(data.train, l["k"], nn_method=l["method"], **kw))
        self.batches = []
        for i, b in enumerate(wl["batches"]):
            m, s = self.models[b["m"]], wl["models"][b["m"]]
            te = hist.tensors(m, s, data, dict(b, count=s["probe"]["count"]), "test")
            tr = hist.tensors(m, s, data, b, "train")
            out = {"te": te, "tr": tr}
            kw = {"batch_features": te[6]} if s["kind"] == "hier" else {}
            if s["kind"] != "multi":
                out["K"] = (m.kernel(te[3], **kw), m.kernel(te[2], **kw))
            out["obj"] = []
            for o in b["objs"]:
                out["obj"].append(self.objective(m, s, tr, o))
            self.batches.append(out)
        g = np.random.RandomState(wl["data"]["seed"])
        n = g.randint(2, 7)
        self.pred, self.targ = g.normal(size=(n, 2)), np.where(g.rand(n, 1) < 0.5, [[0.5, -0.5]], [[-0.5, 0.5]])
        self.var = g.uniform(0.1, 2, size=n)
        self.all_nn = data.nns(data.train, 4, exclude=np.arange(len(data.train)))
        self.mark = self.print()

    def objective(self, m, s, tr, o):
        idx, nn, cross, pair, bt, bnt, feats = tr
        if s["kind"] == "multi":
            m, bt, bnt = m.models[o["part"]], bt[:, o["part"]], bnt[:, :, o["part"]]
        kw = dict(loss_fn=models.loss_fn(self.W, o["loss"]))
        if s["kind"] == "hier":
            kw["batch_features"] = feats
        f = self.W.optimize.L_BFGS_B_optimize.make_obj_fn(m, bt, bnt, cross, pair, **kw)
        names, _, bounds = m.get_opt_params()
        return f, dict(zip(names, np.asarray(bounds).reshape(-1, 2).tolist()))

    def print(self):
        d = self.data
        return fingerprint([d.train, d.test, d.targets, d.labels, self.pred, self.targ, self.var, self.all_nn,
                            [[list(b["te"]), list(b["tr"]), list(b.get("K", ()))] for b in self.batches]])

    def look(self):
        """Everything the models report and predict."""
        return [[hist.state_of(m, s), hist.probe(m, s, self.data, s["probe"])] for m, s in zip(self.models, self.wl["models"])]


def call(S, op):
    """One read-only call on the shared objects."""
    W, d, o = S.W, S.data, op["op"]
    if o == "nns":
        q = d.test[np.array(op["rows"]) % len(d.test)]
        return S.lookups[op["l"]].get_nns(q)
    if o == "batch_nns":
        return S.lookups[op["l"]].get_batch_nns(np.array(op["rows"]))
    if o == "loss":
        fn = models.loss_fn(W, op["loss"])
        p, t = (S.pred, S.targ) if op["loss"] in ("mse", "cross_entropy", "pseudo_huber") else (S.pred[:, 0], S.targ[:, 0])
        if op["loss"] in models.VAR_LOSSES:
            return float(fn(p, t, S.var) if op["loss"] == "lool_unscaled" else fn(p, t, S.var, 1.3))
        return float(fn(p, t))
    B = S.batches[op["b"]]
    spec = S.wl["models"][S.wl["batches"][op["b"]]["m"]]
    m = S.models[S.wl["batches"][op["b"]]["m"]]
    multi, hier, shear = (spec["kind"] == k for k in ("multi", "hier", "shear"))
    idx, nn, cross, pair, bt, bnt, feats = B["te"]
    kw = {"batch_features": feats} if hier else {}
    if o == "kernel":
        ms = m.models if multi else [m]
        return [(x.kernel(pair, **kw), x.kernel(cross, **kw)) for x in ms]
    if o == "mean":
        return m.posterior_mean(pair, cross, bnt) if multi else m.posterior_mean(*B["K"], bnt)
    if o == "variance":
        return m.posterior_variance(pair, cross) if multi else m.posterior_variance(*B["K"])
    if o == "predict":
        return hist.probe(m, spec, d, spec["probe"])
    if o == "fast" and not shear:
        if multi:
            co = m.fast_coefficients(pair, bnt)
            return co, m.fast_posterior_mean(cross, co)
        co = m.fast_coefficients(B["K"][0], bnt)
        return co, m.fast_posterior_mean(B["K"][1], co)
    if o == "tensors":
        return m.make_predict_tensors(idx, nn, d.test, d.train, d.targets)
    if o == "train_tensors":
        t = B["tr"]
        return m.make_train_tensors(t[0], t[1], d.train, d.targets)
    if o == "fast_tensors":
        return W.tensors.fast_nn_update(S.all_nn), W.tensors.make_fast_predict_tensors(S.all_nn, d.train, d.targets)
    if o == "from_indices" and not (hier or shear or spec["kind"] == "het"):
        return W.from_indices.regress_from_indices(m, idx, nn, d.test, d.train, d.targets)
    if o == "report":
        return hist.state_of(m, spec)
    objs = B["obj"]
    if o == "objective" and objs:
        f, bounds = objs[op["f"] % len(objs)]
        return float(f(**{n: b[0] + (b[1] - b[0]) * u for (n, b), u in zip(bounds.items(), op["us"] * 8)}))
    if o in ("own_objective", "optimize"):
        j = S.wl["batches"][op["b"]]["objs"][op["f"] % max(1, len(objs))] if objs else None
        if j is None:
            return None
        if o == "own_objective":
            f, bounds = S.objective(m, spec, B["tr"], dict(j, loss=op["loss"]))
            return float(f(**{n: b[0] + (b[1] - b[0]) * u for (n, b), u in zip(bounds.items(), op["us"] * 8)}))
        mm = m.models[j["part"]] if multi else m
        if mm.fixed():
            return None
        _, _, c2, p2, bt2, bnt2, f2 = B["tr"]
        if multi:
            bt2, bnt2 = bt2[:, j["part"]], bnt2[:, :, j["part"]]
        k2 = {"batch_features": f2} if hier else {}
        new = W.optimize.L_BFGS_B_optimize(mm, bt2, bnt2, c2, p2, loss_fn=models.loss_fn(W, j["loss"]), options={"maxfun": 4}, **k2)
        return hist.one_state(new, spec["parts"][j["part"]] if multi else spec)
    if o == "copy":
        twin = copy.deepcopy(m)
        if not hier:
            twin.optimize_scale(B["tr"][3], B["tr"][5])
        return hist.state_of(twin, spec)
    return None


def share(wl, ch, seed, only=None):
    W = loader.load("numpy")
    data = models.Data(wl["data"])
    core.install(W.mods)
    try:
        S = Shared(W, wl, data)
    finally:
        core.install({})
    sched = Scheduler(ch, seed, switch_p0=wl["switch_p0"])
    out, tracers = [[] for _ in wl["callers"]], []

    def body(c):
        def go(actor):
            if only is not None and only != c:
                return
            for n, op in enumerate(wl["callers"][c]):
                if actor.trace_fn is not None:
                    actor.trace_fn.draw()
                got = call(S, op)
                if actor.trace_fn is not None:
                    actor.trace_fn.left = preempt.NEVER
                out[c].append((got, fingerprint(got)))
                sched.note(c, n, out[c][-1][1])
                if S.print() != S.mark:
                    raise Violation("array-changed", f"caller {c}: after call {n} ({op['op']}), an array that was passed to it has changed")
                sched.yield_point()
        return go
    for c in range(len(wl["callers"])):
        a = sched.spawn(f"caller{c}", body(c))
        a.modules = W.mods
        if only is None:
            a.trace_fn = preempt.Preempter(sched, ch, wl["never_p0"], wl["opcodes"])
            tracers.append(a.trace_fn)
    seams.FAULT = (lambda what: sched.yield_point() if sched.current is not None else None) if only is None else None
    seams.SCHED = sched
    try:
        core.install(W.mods)
        sched.run()
        seams.FAULT = None
        for a in sched.actors:
            if a.exc is not None:
                raise a.exc
        for c in range(len(out)):
            for n, (got, p) in enumerate(out[c]):
                if fingerprint(got) != p:
                    raise Violation("answer-changed", f"caller {c}: the answer of call {n} ({wl['callers'][c][n]['op']}) changed after it was returned")
        final = S.look()
    finally:
        seams.FAULT = seams.SCHED = None
        core.install({})
    return sched, out, final, tracers


class C11(Check):
    id, quick, thorough = "C11", 900, 40000
    real, stub = REAL, STUB
    rule = ("one evaluation = one interleaving of 2-4 callers' calls on shared objects, compared with each caller running alone in a "
            "fresh process; non-trivial = at least one preemption inside a library call; distinct by a hash of the schedule and answers")
    assumptions = ["threads are preempted between source lines or byte codes of the library and at linear solves, not inside numpy"]

    def preload(self):
        loader.load("numpy")

    def gen(self, r, i, tier):
        d, R = r.choice([2, 2, 3]), r.choice([1, 1, 2, 3])
        kinds = ["single", "single", "het", "hier"] if R == 1 else ["multi"]
        if R == 3 and d == 2:
            kinds += ["shear"]
        data = {"seed": r.randrange(10 ** 6), "train": r.randint(14, 24), "test": r.randint(5, 9), "d": d, "R": R}
        if R == 1 and r.random() < 0.5:
            data["flat_targets"] = True
        models.special(r, data, ("on_train", "grid"), 0.2)
        specs = [hist.gen_spec(r, d, R, r.choice(kinds)) for _ in range(r.choice([1, 1, 2]))]
        batches = []
        for _ in range(r.choice([1, 1, 2])):
            m = r.randrange(len(specs))
            s = specs[m]
            b = {"m": m, "count": 3 if s["kind"] == "het" else r.randint(1, 5), "k": s["probe"]["k"], "seed": r.randrange(10 ** 5)}
            if s["kind"] == "shear" and b["count"] == b["k"]:
                b["count"] += 1
            ls = ["mse", "lool", "pseudo_huber", "looph"] if s["kind"] != "shear" else ["mse", "lool"]
            # an objective needs the model to stay a legal one at the trial point
            b["objs"] = [{"loss": r.choice(ls), "part": r.randrange(R)} for _ in range(r.randint(1, 2))] if s["kind"] != "hier" and not (
                s["kind"] == "shear" and s["two"]) else []
            batches.append(b)
        looks = [{"method": r.choice(["exact", "exact", "hnsw"]), "k": r.randint(2, 5), "algo": r.choice(["ball_tree", "kd_tree", "brute"])}
                 for _ in range(r.randint(1, 2))]
        ops = ["kernel", "mean", "variance", "predict", "fast", "tensors", "train_tensors", "fast_tensors", "from_indices", "report",
               "objective", "objective", "objective", "own_objective", "optimize", "copy", "nns", "batch_nns", "loss"]
        focus = r.sample(ops, r.randint(2, 5)) if r.random() < 0.6 else ops
        callers = []
        for _ in range(r.choice([2, 2, 3, 4])):
            p = []
            for _ in range(r.randint(1, 3 if tier == "quick" else 5)):
                o = r.choice(focus)
                op = {"op": o}
                if o in ("nns", "batch_nns"):
                    op.update(l=r.randrange(len(looks)), rows=r.sample(range(data["train"]), r.randint(1, 5)))
                elif o == "loss":
                    op["loss"] = r.choice(list(models.LOSSES))
                else:
                    op["b"] = r.randrange(len(batches))
                if o in ("objective", "own_objective", "optimize"):
                    op.update(f=r.randrange(2), us=[round(r.random(), 3) for _ in range(3)], loss=r.choice(["mse", "lool"]))
                p.append(op)
            callers.append(p)
        return {"data": data, "models": specs, "batches": batches, "lookups": looks, "callers": callers, "switch_p0": r.choice([0.05, 0.3, 0.6]),
                "never_p0": r.choice([0.02, 0.1, 0.3]), "opcodes": r.random() < 0.35}

    def run(self, wl, ch, seed):
        alone = []
        for c in range(len(wl["callers"])):
            _, out, first, _ = share(wl, core.Chooser(seed, script=[]), seed, only=c)
            alone.append(out[c])
        sched, out, final, tracers = share(wl, ch, seed)
        for c, (a, b) in enumerate(zip(out, alone)):
            for n, (x, y) in enumerate(zip(a, b)):
                if x[1] != y[1]:
                    w = agree(x[0], y[0])
                    if w:
                        raise Violation("wrong-answer", f"caller {c}, call {n} ({wl['callers'][c][n]['op']}): {w} (alone second)")
        w = agree(final, first, "models")
        if w:
            raise Violation("model-changed", f"after all calls: {w} (after one caller alone second)")
        hits = sum(t.hits for t in tracers)
        calls = sum(len(c) for c in wl["callers"])
        return Result(fingerprint([sched.digest()]), hits > 0, sched.switches, sched.steps, sched.now, {"preemption": hits},
                      dict(calls=calls, callers=len(out), traced_events=sum(t.events for t in tracers), at_byte_codes=int(wl["opcodes"])))

    def shrinks(self, wl):
        if len(wl["callers"]) > 1:
            for c in range(len(wl["callers"])):
                w = copy.deepcopy(wl)
                del w["callers"][c]
                yield w
        for c, p in enumerate(wl["callers"]):
            if len(p) > 1:
                for n in range(len(p)):
                    w = copy.deepcopy(wl)
                    del w["callers"][c][n]
                    yield w
        if wl["opcodes"]:
            yield dict(wl, opcodes=False)


# ------------------------------------------------------------------ C21
NAMES = {"jax_enabled": [True, False], "torch_enabled": [True, False], "hnswlib_enabled": [True, False], "gpu_enabled": [True, False],
         "mpi_enabled": [True, False], "backend": ["numpy", "jax", "torch", "mpi"], "ftype": ["32", "64"]}
CTX = {"jax_enabled": "enable_jax", "torch_enabled": "enable_torch", "hnswlib_enabled": "enable_hnswlib", "gpu_enabled": "enable_gpu",
       "mpi_enabled": "enable_mpi", "backend": "backend", "ftype": "ftype"}


class Boom(Exception):
    pass


class Globals:
    """Reference of the process-wide values; an update in flight may or may not be seen yet."""

    def __init__(self, vals):
        self.vals = vals
        self.flying = {}          # name -> value being written
        self.hist = {n: [] for n in vals}

    def begin(self, n, v):
        self.flying[n] = v
        self.hist[n].append(v)

    def end(self, n):
        self.vals[n] = self.flying.pop(n)

    def open(self, n):
        """Values a read that starts now may see (so far)."""
        s = [self.vals[n]]
        if n in self.flying:
            s.append(self.flying[n])
        return s, len(self.hist[n])

    def close(self, n, o):
        return o[0] + self.hist[n][o[1]:]


class C21(Check):
    id, quick, thorough = "C21", 4000, 300000
    real = ["MuyGPyS._src.config, MuyGPyS._src.jaxconfig and the library that consults them"]
    stub = ["operating-system thread scheduling"]
    rule = ("one evaluation = one interleaving of 1-4 threads' nested overrides, reads and global updates; every read is compared with a "
            "reference stack per thread; non-trivial = at least one override; distinct by a hash of the schedule and of all values read")
    assumptions = ["a configuration name is updated globally by one thread at a time"]

    def preload(self):
        loader.load("numpy")

    def gen(self, r, i, tier):
        names = r.sample(sorted(NAMES), r.randint(1, 3))
        upd = {n: r.randrange(4) for n in names}          # the thread that may update a name globally
        nthreads = r.choice([1, 2, 2, 3, 4])

        def body(t, depth):
            out = []
            for _ in range(r.randint(1, 3)):
                x = r.random()
                n = r.choice(names)
                if x < 0.40 and depth < 4:
                    v = r.choice(NAMES[n])
                    out.append({"ctx": n, "val": v, "body": body(t, depth + 1), "raise": r.random() < 0.3, "catch": r.random() < 0.6})
                elif x < 0.47 and depth < 4:
                    out.append({"bad": n})
                elif x < 0.6 and upd[n] == t:
                    out.append({"update": n, "val": r.choice(NAMES[n])})
                elif x < 0.68:
                    out.append({"hnsw": 1})
                else:
                    out.append({"read": n})
            return out
        return {"threads": [body(t, 0) for t in range(nthreads)], "names": names, "switch_p0": r.choice([0.05, 0.3, 0.6]),
                "never_p0": r.choice([0.02, 0.1, 0.3]), "opcodes": r.random() < 0.4}

    def run(self, wl, ch, seed):
        W = loader.load("numpy")
        cfg = W("MuyGPyS._src.config")
        C = cfg.config
        sched = Scheduler(ch, seed, switch_p0=wl["switch_p0"])
        tracers = []
        count = dict(reads=0, overrides=0, raised=0, refused=0, updates=0)

        def both(n):
            return getattr(C, "muygpys_" + n), getattr(C.state, n)
        ref = Globals({n: both(n)[1] for n in NAMES})
        for n in NAMES:
            if both(n)[0] != both(n)[1]:
                raise Violation("disagree", f"at import: {n} is {both(n)[0]!r} as configured and {both(n)[1]!r} as consulted")
        feats = np.arange(12.0).reshape(6, 2)

        def look(t, stack, n, where):
            count["reads"] += 1
            mine = [v for m, v in stack if m == n]
            o = ref.open(n)
            got = both(n)
            if mine:
                allowed = [mine[-1]]
            else:
                allowed = ref.close(n, o)
            sched.note(t, n, got)
            for g, which in zip(got, ("configuration", "consulted state")):
                if not any(type(g) is type(a) and g == a for a in allowed):
                    raise Violation("wrong-value", f"thread {t}, {where}: the {which} says {n} = {g!r}; expected {' or '.join(map(repr, allowed))}")
            if n == "ftype" and (mine or len(set(allowed)) == 1) and C.state.low_precision() != (allowed[-1] == "32") and not (
                    not mine and len(set(ref.close(n, o))) > 1):
                raise Violation("wrong-value", f"thread {t}, {where}: low_precision() is {C.state.low_precision()} with ftype {allowed[-1]}")

        def every(t, stack, where):
            for n in wl["names"]:
                look(t, stack, n, where)

        def interp(t, nodes, stack, where):
            for i, x in enumerate(nodes):
                w = f"{where}.{i}"
                if "read" in x:
                    look(t, stack, x["read"], w)
                elif "update" in x:
                    count["updates"] += 1
                    ref.begin(x["update"], x["val"])
                    C.update("muygpys_" + x["update"], x["val"])
                    ref.end(x["update"])
                    look(t, stack, x["update"], w)
                elif "bad" in x:
                    n = x["bad"]
                    if n in ("backend", "ftype"):
                        count["refused"] += 1
                        try:
                            with getattr(cfg, CTX[n])("bogus"):
                                raise Violation("accepted", f"thread {t}, {w}: {n} = 'bogus' was accepted")
                        except ValueError:
                            pass
                    every(t, stack, w + " after a refused override")
                elif "hnsw" in x:
                    mine = [v for m, v in stack if m == "hnswlib_enabled"]
                    o = ref.open("hnswlib_enabled")
                    try:
                        W.neighbors.NN_Wrapper(feats, 2, nn_method="hnsw")
                        ok = True
                    except ModuleNotFoundError:
                        ok = False
                    allowed = [mine[-1]] if mine else ref.close("hnswlib_enabled", o)
                    if ok not in allowed:
                        raise Violation("not-honoured", f"thread {t}, {w}: an hnsw lookup was {'built' if ok else 'refused'} with hnswlib_enabled {allowed}")
                else:
                    n, v = x["ctx"], x["val"]
                    count["overrides"] += 1
                    try:
                        with getattr(cfg, CTX[n])(v):
                            stack.append((n, v))
                            try:
                                every(t, stack, w + " inside")
                                interp(t, x["body"], stack, w)
                                if x["raise"]:
                                    count["raised"] += 1
                                    raise Boom()
                            finally:
                                stack.pop()
                    except Boom:
                        if not x["catch"]:
                            raise
                    finally:
                        every(t, stack, w + " after")

        def body(t):
            def go(actor):
                actor.trace_fn.draw()
                try:
                    interp(t, wl["threads"][t], [], f"t{t}")
                except Boom:
                    pass
                every(t, [], "at the end")
                actor.trace_fn.left = preempt.NEVER
            return go
        for t in range(len(wl["threads"])):
            a = sched.spawn(f"thread{t}", body(t))
            a.modules = W.mods
            a.trace_fn = preempt.Preempter(sched, ch, wl["never_p0"], wl["opcodes"])
            tracers.append(a.trace_fn)
        seams.SCHED = sched
        try:
            core.install(W.mods)
            sched.run()
            for a in sched.actors:
                if a.exc is not None:
                    raise a.exc
            for n in NAMES:
                got = both(n)
                if any(g != ref.vals[n] for g in got):
                    raise Violation("wrong-value", f"after all threads: {n} is {got[0]!r} / {got[1]!r}, expected {ref.vals[n]!r}")
        finally:
            seams.SCHED = None
            core.install({})
        return Result(sched.digest(), count["overrides"] > 0, sched.switches, sched.steps, sched.now,
                      dict(preemption=sum(t.hits for t in tracers), exception_in_context=count["raised"], refused_override=count["refused"]),
                      dict(reads=count["reads"], overrides=count["overrides"], updates=count["updates"], threads=len(tracers)))

    def shrinks(self, wl):
        if len(wl["threads"]) > 1:
            for t in range(len(wl["threads"])):
                w = copy.deepcopy(wl)
                del w["threads"][t]
                yield w

        def cut(nodes):
            for i, x in enumerate(nodes):
                yield nodes[:i] + nodes[i + 1:]
                if "ctx" in x:
                    yield nodes[:i] + x["body"] + nodes[i + 1:]
                    for b in cut(x["body"]):
                        yield nodes[:i] + [dict(x, body=b)] + nodes[i + 1:]
                    if x["raise"]:
                        yield nodes[:i] + [{**x, "raise": False}] + nodes[i + 1:]
        for t, p in enumerate(wl["threads"]):
            for c in cut(p):
                w = dict(wl, threads=list(wl["threads"]))
                w["threads"][t] = c
                yield w
        if wl["opcodes"]:
            yield dict(wl, opcodes=False)
