"""C19: the high-level workflows against the composition of their parts, under simulated clocks.

Every evaluation runs one workflow several times with the same data and draws: interrupted by a
failing solve, under one clock, and under another clock.  The lookup behind it may give any legal
answer.  The oracles are the same workflow put together by hand from the library's parts, and the
reference model applied to what the returned lookup reports.
"""
import contextlib
import copy
import io
import math
import random

import numpy as np

from .. import core, loader, models, ref, seams
from ..core import Violation
from . import histories as hh
from . import sampling as sp
from .common import Check, Result, close, diff_note, fingerprint, same_bits, short

EXTRA = ["MuyGPyS.examples.classify", "MuyGPyS.examples.two_class_classify_uq", "MuyGPyS.examples.fast_posterior_mean"]


class WorkClock(seams.SimClock):
    """Time passes mostly in the work, as the seams report it; a read costs next to nothing."""

    def __init__(self, seed):
        super().__init__(seed, "work")
        self.spent = {"lookup": 0.0, "solve": 0.0}

    def read(self, kind):
        self.advance(1e-7)
        return super().read(kind)

    def work(self, what):
        dt = self.rng.uniform(0.5, 5)
        self.spent[what] += dt
        self.advance(dt)


def make_clock(c):
    return WorkClock(c["seed"]) if c["mode"] == "work" else seams.SimClock(c["seed"], c["mode"])


class Injected(RuntimeError):
    pass


class C19(Check):
    id, quick, thorough = "C19", 700, 60000
    real = ["MuyGPyS (workflows and the library under them, numpy backend)", "numpy", "scipy.optimize", "bayes_opt", "scikit-learn",
            "hnswlib (except in runs with a drawn index)"]
    stub = ["clocks", "entropy", "bayes_opt's search for the next trial: the same within a run for the same trials and random state, rounded to 8 digits",
            "numpy.linalg.solve may fail on command", "in part of the runs the index: it gives any legal answer"]
    rule = ("one evaluation = one workflow (regression, fast regression, classification, two-class uncertainty) run under two clocks and possibly "
            "interrupted before, against its hand-made composition and the reference model; non-trivial = at least two test rows; distinct by "
            "a hash of data, models and predictions")
    assumptions = ["the index returns distinct points nearest first, not necessarily the nearest ones"]

    def preload(self):
        loader.load("numpy", extra=EXTRA)

    # ---------------------------------------------------------------- workload
    def gen(self, r, i, tier):
        flow = r.choice(["regress", "regress", "fast", "fast", "classify", "classify", "uq"])
        multi = flow != "uq" and r.random() < 0.35
        R = 2 if flow == "uq" else r.choice([2, 2, 3]) if multi or flow == "classify" else r.choice([1, 1, 2, 3])
        d = r.choice([1, 2, 2, 3])
        data = {"seed": r.randrange(10 ** 6), "train": r.randint(12, 40), "test": r.randint(1, 14), "d": d, "R": R}
        if r.random() < 0.03:
            data.update(train=r.randint(120, 300), test=r.randint(50, 200))
        if flow in ("classify", "uq"):
            data["labels"] = {"how": r.choice(["halves", "mixed", "mixed", "rare"]), "enc": r.choice([[0.0, 1.0], [-0.5, 0.5], [-1.0, 1.0], [-0.1, 0.9]])}
        models.special(r, data, ("on_train",), 0.25)
        if flow in ("classify", "uq"):
            data.pop("values", None)
        k = r.randint(max(2, R + 1), 8)
        m = r.choice(["exact", "exact", "hnsw", "any_exact", "any_approx", "any_approx"])
        nn = {"method": m, "k": k}
        if m == "exact":
            nn["algo"] = r.choice(["ball_tree", "kd_tree", "brute"])
        if m == "hnsw":
            nn.update(space="l2", M=r.choice([4, 8, 16]))
        free = "none" if r.random() < 0.3 else "some"
        cfgs = []
        for j in range(R if multi else 1):
            if cfgs:
                c = models.gen_cfg(r, d, free=free if r.random() < 0.8 else "none", kernel=cfgs[0]["kernel"], deform=cfgs[0]["deform"])
            else:
                c = models.gen_cfg(r, d, free=free)
            if not multi and R > 1:
                c["scale"] = {"kind": "fixed", "val": c["scale"]["val"]}
            cfgs.append(c)
        op = {"loss": r.choice(["cross_entropy", "mse", "cross_entropy"] if flow in ("classify", "uq") else ["lool", "lool", "mse", "pseudo_huber"])}
        if op["loss"] == "cross_entropy" and multi:
            op["loss"] = "mse"
        if r.random() < 0.6:
            op.update(opt="L_BFGS_B_optimize", okw={"options": {"maxfun": r.choice([3, 6, 12])}})
        else:
            op.update(opt="Bayes_optimize", okw={"init_points": r.randint(1, 2), "n_iter": r.randint(0, 2)})
            if r.random() < 0.4:
                op["okw"]["random_state"] = r.choice([0, r.randrange(1000)])
        n = data["train"]
        return {"flow": flow, "multi": multi, "data": data, "nn": nn, "cfgs": cfgs, "op": op, "batch": r.choice([4, 7, n - 1, n, n + 5, r.randint(4, n)]),
                "uq_batch": r.choice([6, 12, n, n + 4]), "draw": r.randrange(10 ** 6), "verbose": r.random() < 0.3,
                "clocks": [{"mode": r.choice(["work", "work", "stalled", "jumpy"]), "seed": r.randrange(10 ** 6)},
                           {"mode": r.choice(["steady", "stalled", "jumpy"]), "seed": r.randrange(10 ** 6)}],
                "fail": r.choice([None, None, 1, 2, 3, 5, 9]), "fail_lookup": r.random() < 0.3}

    # ---------------------------------------------------------------- run
    def run(self, wl, ch, seed):
        amb = np.random.get_state()
        try:
            return self.go(wl, ch, seed)
        finally:
            seams.CLOCK, seams.FAULT = None, None
            np.random.set_state(amb)
            core.install({})

    def go(self, wl, ch, seed):
        W = loader.load("numpy", extra=EXTRA)
        core.install(W.mods)
        data = models.Data(wl["data"])
        x, y = data.train, data.test
        T = labels_of(wl, data) if "labels" in wl["data"] else data.targets
        self.hook(W, wl, ch, seed, x)
        keep = fingerprint([x, y, T])
        kw = self.k_kwargs(W, wl)
        flow, R = wl["flow"], wl["data"]["R"]
        free = any(models.free_of(c) for c in wl["cfgs"])
        faults, log = {}, []
        try:
            if flow in ("classify", "uq"):
                idx, _ = self.seeded(wl, lambda: W.batch.get_balanced_batch(self.lookup(W, wl, x), np.argmax(T, axis=1), wl["batch"]))
                if len(idx) == 0 and free:
                    return Result(fingerprint([wl["data"]]), False)      # nothing to train on
            if wl["fail"]:
                if self.interrupted(W, wl, kw, x, y, T):
                    faults["failing_lookup" if wl["fail_lookup"] else "failing_solve"] = 1
            outs = []
            for c in wl["clocks"]:
                clock = seams.CLOCK = make_clock(c)
                outs.append(self.workflow(W, wl, kw, x, y, T))
                outs[-1]["again"] = self.again(W, wl, outs[-1], x, y, T, clock)
                seams.CLOCK = None
                if c["mode"] == "jumpy":
                    faults["clock_jumps"] = faults.get("clock_jumps", 0) + clock.jumps
                elif c["mode"] == "stalled":
                    faults["stalled_clock"] = faults.get("stalled_clock", 0) + 1
                faults = {k: v for k, v in faults.items() if v}
            out = outs[0]
            st = [self.states(wl, o["model"]) for o in outs]
            if not same_bits(st[0], st[1]):
                raise Violation("clock-dependent", f"{flow}: the model differs under another clock: {short(st[0], 300)} and {short(st[1], 300)}")
            for q in out:
                if q not in ("model", "lookup", "timing", "again") and not same_bits(outs[0][q], outs[1][q]):
                    raise Violation("clock-dependent", f"{flow}: {q} differs under another clock: {diff_note(outs[0][q], outs[1][q])}")
            if fingerprint([x, y, T]) != keep:
                raise Violation("input-changed", f"{flow}: the data was modified")
            self.compare(wl, out, st[0], self.by_hand(W, wl, x, y, T))
            self.judge(W, wl, out, st[0], x, y, T)
            log = [st[0], {q: v for q, v in out.items() if q not in ("model", "lookup", "timing", "again")}]
        except RuntimeError as e:
            if "contiguous 2D array" in str(e) and wl["nn"]["method"] == "hnsw":
                return Result(fingerprint([wl["data"]]), False)          # hnswlib gave up, and says so
            raise
        if self.stub is not None:
            for k, v in sp.Sampling.faults(self.stub).items():
                faults[k] = faults.get(k, 0) + v
        return Result(fingerprint([wl["data"], log]), len(y) > 1, 0, len(wl["clocks"]), self.elapsed, faults,
                      {flow: 1, "multi": int(wl["multi"]), "trained": int(free), "test_rows": len(y), wl["nn"]["method"]: 1})

    # ---------------------------------------------------------------- pieces
    def hook(self, W, wl, ch, seed, x):
        """Lookups cost simulated time, may fail, and may give any legal answer."""
        self.stub, self.elapsed, self.fail_lookups = None, 0.0, None
        me, cls, m = self, W.neighbors.NN_Wrapper, wl["nn"]["method"]
        if m.startswith("any"):
            self.stub = sp.AnyIndex(x, ch, seed, m == "any_approx")
        init = cls.__init__

        def __init__(nb, *a, **k):
            init(nb, *a, **k)
            if me.stub is not None:
                if not hasattr(nb, "nbrs"):
                    raise core.HarnessError("the lookup no longer keeps its index in .nbrs")
                nb.nbrs = me.stub
        cls.__init__ = __init__

        def charged(f):
            def g(*a, **k):
                if isinstance(seams.CLOCK, WorkClock):
                    seams.CLOCK.work("lookup")
                if me.fail_lookups is not None:
                    me.fail_lookups -= 1
                    if me.fail_lookups == 0:
                        raise Injected("injected")
                return f(*a, **k)
            return g
        for n in ("get_nns", "get_batch_nns"):
            setattr(cls, n, charged(getattr(cls, n)))
        seams.FAULT = lambda what: seams.CLOCK.work("solve") if isinstance(seams.CLOCK, WorkClock) else None

    def nn_kwargs(self, wl):
        l = wl["nn"]
        if l["method"] == "exact":
            return {"nn_method": "exact", "algorithm": l["algo"]}
        if l["method"] == "hnsw":
            return {"nn_method": "hnsw", "space": "l2", "M": l["M"], "ef_construction": 60}
        return {"nn_method": "exact" if l["method"] == "any_exact" else "hnsw"}

    def lookup(self, W, wl, x):
        return W.neighbors.NN_Wrapper(x, wl["nn"]["k"], **self.nn_kwargs(wl))

    def k_kwargs(self, W, wl):
        a = [models.build_parts(W, c) for c in wl["cfgs"]]
        return a if wl["multi"] else a[0]

    @staticmethod
    def seeded(wl, f):
        np.random.seed(wl["draw"])
        seams.ENTROPY = random.Random(wl["draw"])
        return f()

    def common(self, W, wl):
        op = wl["op"]
        return dict(loss_fn=models.loss_fn(W, op["loss"]), opt_fn=getattr(W.optimize, op["opt"]), nn_kwargs=self.nn_kwargs(wl),
                    opt_kwargs=copy.deepcopy(op["okw"]), verbose=wl["verbose"])

    def workflow(self, W, wl, kw, x, y, T):
        k, flow = wl["nn"]["k"], wl["flow"]
        c = dict(self.common(W, wl), nn_count=k, k_kwargs=kw)
        with contextlib.redirect_stdout(io.StringIO()):
            if flow == "regress":
                m, nb, mean, var = self.seeded(wl, lambda: W.regress.do_regress(y, x, T, batch_count=wl["batch"], **c))
                return {"model": m, "lookup": nb, "mean": np.array(mean), "var": np.array(var)}
            if flow == "fast":
                m, nb, mean, coef, t = self.seeded(
                    wl, lambda: W("MuyGPyS.examples.fast_posterior_mean").do_fast_posterior_mean(y, x, T, batch_count=wl["batch"], **c))
                return {"model": m, "lookup": nb, "mean": np.array(mean), "coef": np.array(coef), "timing": t}
            if flow == "classify":
                m, nb, mean = self.seeded(wl, lambda: W("MuyGPyS.examples.classify").do_classify(y, x, T, batch_count=wl["batch"], **c))
                return {"model": m, "lookup": nb, "mean": np.array(mean)}
            m, nb, mean, masks = self.seeded(wl, lambda: W("MuyGPyS.examples.two_class_classify_uq").do_classify_uq(
                y, x, T, opt_batch_count=wl["batch"], uq_batch_count=wl["uq_batch"], **c))
            return {"model": m, "lookup": nb, "mean": np.array(mean), "masks": np.array(masks)}

    def interrupted(self, W, wl, kw, x, y, T):
        """The same workflow with the same arguments, ended by a failure part-way."""
        left, keep = [wl["fail"]], seams.FAULT

        def boom(what):
            left[0] -= 1
            if left[0] == 0:
                raise Injected("injected")
        try:
            if wl["fail_lookup"]:
                self.fail_lookups = wl["fail"]
            else:
                seams.FAULT = boom
            self.workflow(W, wl, kw, x, y, T)
        except Injected:
            return True
        except Exception as e:
            e2 = e
            while e2 is not None:
                if isinstance(e2, Injected):
                    return True
                e2 = e2.__cause__ or e2.__context__
            raise
        finally:
            seams.FAULT, self.fail_lookups = keep, None
        return False

    def again(self, W, wl, out, x, y, T, clock):
        """Predict once more with what the workflow returned, watching the clock."""
        flow = wl["flow"]
        m0, spent0 = clock.mono, dict(getattr(clock, "spent", {}))
        if flow == "regress":
            mean, var, t = W.regress.regress_any(out["model"], y, x, out["lookup"], T)
            got = {"mean": np.array(mean), "var": np.array(var)}
        elif flow == "fast":
            mean, coef, t = W("MuyGPyS.examples.fast_posterior_mean").fast_posterior_mean_any(out["model"], y, x, out["lookup"], T)
            got = {"mean": np.array(mean), "coef": np.array(coef)}
        elif flow == "classify":
            mean, t = W("MuyGPyS.examples.classify").classify_any(out["model"], y, x, out["lookup"], T)
            got = {"mean": np.array(mean)}
        else:
            mean, var, t = W("MuyGPyS.examples.two_class_classify_uq").classify_two_class_uq(out["model"], y, x, out["lookup"], T)
            got = {"mean": np.array(mean), "uvar": np.array(var)}
        elapsed = clock.mono - m0
        self.elapsed += elapsed
        want = {"nn", "agree", "pred"} | ({"precompute"} if flow == "fast" else set())
        if set(t) != want:
            raise Violation("wrong-timing", f"{flow}: times for {sorted(t)} instead of {sorted(want)}")
        for q, v in t.items():
            if not v >= 0 or v > elapsed + 1e-6 * max(1.0, elapsed):
                raise Violation("wrong-timing", f"{flow}: {q} took {v} of {elapsed} simulated seconds ({clock.mode} clock)")
        if isinstance(clock, WorkClock):
            look, sol = (clock.spent[q] - spent0[q] for q in ("lookup", "solve"))
            if abs(sum(t.values()) - elapsed) > 0.01:
                raise Violation("wrong-timing", f"{flow}: the times {t} do not add up to the {elapsed} simulated seconds elapsed")
            got_look = t["nn"] + (t["precompute"] if flow == "fast" else t["pred"])
            if abs(got_look - look - sol) > 0.01 or t["agree"] > 0.01:
                raise Violation("wrong-timing", f"{flow}: times {t}, but lookups took {look} and solving {sol}")
            if flow != "fast" and abs(t["nn"] - look) > 0.01:
                raise Violation("wrong-timing", f"{flow}: times {t}, but lookups took {look} and solving {sol}")
        for q in got:
            if q in out and not same_bits(got[q], out[q]):
                raise Violation("not-repeatable", f"{flow}: predicting again gives another {q}: {diff_note(got[q], out[q])}")
        if "uvar" in got:
            out["var"] = got["uvar"]
        return t

    def states(self, wl, model):
        ms = model.models if wl["multi"] else [model]
        return [hh.one_state(m, {"kind": "single"}) for m in ms]

    def by_hand(self, W, wl, x, y, T):
        """The workflow put together from the library's parts."""
        kw, op, flow, k = self.k_kwargs(W, wl), wl["op"], wl["flow"], wl["nn"]["k"]
        okw, L = copy.deepcopy(op["okw"]), models.loss_fn(W, op["loss"])
        opt = getattr(W.optimize, op["opt"])

        def f():
            nb = self.lookup(W, wl, x)
            m = W.gp.MultivariateMuyGPS(*kw) if wl["multi"] else W.gp.MuyGPS(**kw)
            if not m.fixed():
                if flow in ("classify", "uq"):
                    idx, nn = W.batch.get_balanced_batch(nb, np.argmax(T, axis=1), wl["batch"])
                else:
                    idx, nn = W.batch.sample_batch(nb, wl["batch"], len(x))
                cross, pair, bt, bnt = m.make_train_tensors(idx, nn, x, T)
                if wl["multi"]:
                    for j, c in enumerate(m.models):
                        if not c.fixed():
                            m.models[j] = opt(c, bt[:, j:j + 1], bnt[:, :, j:j + 1], cross, pair, loss_fn=L, **okw)
                else:
                    m = opt(m, bt, bnt, cross, pair, loss_fn=L, **okw)
                if flow in ("regress", "fast"):
                    m = m.optimize_scale(pair, bnt)
            out = {"st": self.states(wl, m), "batch": None}
            if flow == "uq":
                lab = 2 * np.argmax(T, axis=1) - 1
                out["uq_batch"] = W.batch.get_balanced_batch(nb, lab, wl["uq_batch"])
            return out
        seams.CLOCK = seams.SimClock(0)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self.seeded(wl, f)
        finally:
            seams.CLOCK = None

    def compare(self, wl, out, st, hand):
        for j, (a, b) in enumerate(zip(st, hand["st"])):
            for q in ("ls", "nu", "noise", "scale"):
                if q in a and not close(a[q], b[q], 1e-9, 1e-12):
                    raise Violation("not-the-composition", f"{wl['flow']}: {q} of model {j} is {a[q]}, putting the parts together gives {b[q]}")
            if a["trained"] != b["trained"] or a["free"] != b["free"]:
                raise Violation("not-the-composition", f"{wl['flow']}: model {j} is {short(a, 300)}, the parts give {short(b, 300)}")
        out["uq_batch"] = hand.get("uq_batch")

    # ---------------------------------------------------------------- the reference
    def posterior(self, wl, st, q, x, idx, nn, T):
        """(mean, variance, worst condition) of the reference model for query rows idx."""
        cross, pair = ref.diffs_cross(q, x, idx, nn), ref.diffs_pair(x, nn)
        means, variances, cond = [], [], 1.0
        for j, s in enumerate(st):
            Y = T[nn][:, :, j:j + 1] if wl["multi"] else T[nn].reshape(len(nn), nn.shape[1], -1)
            m, v, c = ref.posterior(wl["cfgs"][j], {"ls": s["ls"], "nu": s.get("nu"), "noise": s["noise"]}, cross, pair, Y)
            means.append(m)
            variances.append(v * s["scale"])
            cond = max(cond, c)
        if wl["multi"]:
            return np.concatenate(means, 1), np.stack(variances, 1), cond
        return means[0], variances[0], cond

    def judge(self, W, wl, out, st, x, y, T):
        flow, n, R, k = wl["flow"], len(y), wl["data"]["R"], wl["nn"]["k"]
        rt = 1e-4 if hh.loose({"kind": "multi", "parts": [{"kind": "single", "cfg": c} for c in wl["cfgs"]]}, st) else 1e-7
        nn = np.asarray(out["lookup"].get_nns(y)[0])
        d2 = sp.table(y, x, "l2")
        if nn.shape != (n, k):
            raise Violation("wrong-lookup", f"{flow}: the returned lookup gives {nn.shape} neighbours instead of {(n, k)}")
        if wl["nn"]["method"] in ("exact", "any_exact"):
            for i in range(n):
                if not np.allclose(np.sort(d2[i, nn[i]]), np.sort(d2[i])[:k], rtol=1e-9, atol=1e-12):
                    raise Violation("wrong-lookup", f"{flow}: the returned lookup does not know the nearest neighbours of test row {i}")
        if flow == "fast":
            return self.judge_fast(wl, out, st, x, y, T, nn, rt)
        mean, var, cond = self.posterior(wl, st, y, x, np.arange(n), nn, T)
        if flow in ("classify", "uq"):
            for i in range(n):
                if np.all(T[nn[i]] == T[nn[i, 0]]):
                    mean[i], var[i] = T[nn[i, 0]], 0.0
        if out["mean"].shape != mean.shape:
            raise Violation("wrong-shape", f"{flow}: predictions {out['mean'].shape} instead of {mean.shape}")
        if cond < 1e7:
            tol = max(rt, 1e-12 * cond) * (1 + 1e-3 * cond)
            self.rows(wl, "prediction", out["mean"], mean, tol, nn, T)
            if flow == "regress" or flow == "uq":
                if out["var"].shape != var.shape:
                    raise Violation("wrong-shape", f"{flow}: variances {out['var'].shape} instead of {var.shape}")
                self.rows(wl, "variance", out["var"], var, tol, nn, T)
        if flow == "uq":
            self.judge_uq(W, wl, out, x, y, T)

    def rows(self, wl, what, got, want, tol, nn, T):
        for i in range(len(want)):
            if not close(got[i], want[i], tol, tol):
                v = ("wrong-" + what, f"{wl['flow']}: {what} of test row {i} is {short(got[i])}, the returned model gives "
                                      f"{short(want[i])} for the neighbours {nn[i].tolist()}")
                if wl["flow"] == "classify" and np.all(T[nn[i]][:, 0] == T[nn[i, 0], 0]) and np.array_equal(got[i], T[nn[i, 0]]):
                    self.finding("classify-any-looks-at-the-first-class-only", *v)
                else:
                    raise Violation(*v)

    def judge_fast(self, wl, out, st, x, y, T, nn, rt):
        n, k = len(x), wl["nn"]["k"]
        own = np.asarray(out["lookup"].get_batch_nns(np.arange(n))[0])
        sets = np.concatenate([np.arange(n)[:, None], own[:, :-1]], axis=1)
        pair = ref.diffs_pair(x, sets)
        close_i = nn[:, 0]
        coefs, means, worst, twice = [], [], 1.0, []
        cross = ref.diffs_cross(y, x, np.arange(len(y)), sets[close_i])
        sets2 = np.concatenate([np.arange(n)[:, None], sets[:, :-1]], axis=1)
        cross2 = ref.diffs_cross(y, x, np.arange(len(y)), sets2[close_i])
        for j, s in enumerate(st):
            par = {"ls": s["ls"], "nu": s.get("nu")}
            Kin, Kc = ref.matrices(wl["cfgs"][j], par, cross, pair)
            Kc2 = ref.matrices(wl["cfgs"][j], par, cross2, pair)[1]
            Y = T[sets][:, :, j:j + 1] if wl["multi"] else T[sets].reshape(n, k, -1)
            C = np.empty(Y.shape)
            for i in range(n):
                A = Kin[i] + s["noise"] * np.eye(k)
                worst = max(worst, np.linalg.cond(A))
                C[i] = hh.solve(A, Y[i])
            coefs.append(C)
            means.append(np.einsum("ij,ijr->ir", Kc, C[close_i]))
            twice.append(np.einsum("ij,ijr->ir", Kc2, C[close_i]))
        mean, twice = np.concatenate(means, 1), np.concatenate(twice, 1)
        coef = np.concatenate(coefs, 2)
        if worst > 1e7:
            return
        tol = max(rt, 1e-12 * worst) * (1 + 1e-3 * worst)
        if out["coef"].size != coef.size:
            raise Violation("wrong-shape", f"fast: coefficients {out['coef'].shape} for {coef.shape}")
        got = out["coef"].reshape(coef.shape)
        for i in range(n):
            if not close(got[i], coef[i], tol, tol * max(1.0, np.abs(coef[i]).max())):
                raise Violation("wrong-coefficients", f"fast: coefficients of training row {i} are {short(got[i])} instead of {short(coef[i])} "
                                                      f"for the set {sets[i].tolist()}")
        if out["mean"].size != mean.size:
            raise Violation("wrong-shape", f"fast: predictions {out['mean'].shape} instead of {mean.shape}")
        got = out["mean"].reshape(mean.shape)
        for i in range(len(y)):
            if not close(got[i], mean[i], tol * max(1.0, np.abs(coef).max()), tol):
                v = ("wrong-prediction", f"fast: prediction of test row {i} is {short(got[i])}, the coefficients of its closest "
                                         f"training row {int(close_i[i])} give {short(mean[i])}")
                if close(got[i], twice[i], tol * max(1.0, np.abs(coef).max()), tol):
                    self.finding("fast-posterior-mean-shifts-the-set-twice", *v)
                else:
                    raise Violation(*v)

    def judge_uq(self, W, wl, out, x, y, T):
        U = W("MuyGPyS.examples.two_class_classify_uq")
        idx, nn = out["uq_batch"]
        lab = 2 * np.argmax(T, axis=1) - 1
        fns = U.example_lambdas
        with np.errstate(all="ignore"):
            cut = U.train_two_class_interval(out["model"], idx, nn, x, T, lab, fns)
            mean, var = W.from_indices.regress_from_indices(out["model"], idx, nn, x, x, T)
            mean, sd = np.asarray(mean)[:, 1], np.sqrt(np.asarray(var))
            ok = (2 * np.argmax(np.asarray(W.from_indices.posterior_mean_from_indices(out["model"], idx, nn, x, x, T)), axis=1) - 1) == lab[idx]
            grid = np.linspace(0.01, 20, 1999)
            unsure = (mean[None] - grid[:, None] * sd[None] < 0) & (mean[None] + grid[:, None] * sd[None] > 0)
            alpha = 1 - np.mean(unsure[:, ~ok], axis=1)
            beta = np.mean(unsure[:, ok], axis=1)
            want = np.array([grid[f(alpha, beta, np.sum(ok), np.sum(~ok))] for f in fns])
        if not same_bits(np.asarray(cut, float), want) and not close(cut, want, 1e-9):
            raise Violation("wrong-cutoffs", f"uq: cutoffs {short(cut)} instead of {short(want)}")
        lo, hi = np.min(T[0]), np.max(T[0])
        mid = (lo + hi) / 2
        p, v = out["mean"][:, 1], out["var"].reshape(-1)
        want = np.array([(p - c * v < mid) & (p + c * v > mid) for c in want])
        edge = np.array([np.isclose(np.abs(p - mid), c * v, rtol=1e-9, atol=1e-12) for c in cut])
        if out["masks"].shape != want.shape or np.any((out["masks"] != want) & ~edge):
            raise Violation("wrong-masks", f"uq: ambiguous test rows {short(out['masks'])} instead of {short(want)}")
        g = np.random.RandomState(wl["draw"])
        truth = np.eye(2)[g.randint(2, size=len(y))]
        with np.errstate(all="ignore"):
            acc, uq = U.do_uq(out["mean"], truth, out["masks"])
        good = [int(np.argmax(a) == np.argmax(b)) for a, b in zip(out["mean"], truth)]
        if not math.isclose(acc, sum(good) / len(good)):
            raise Violation("wrong-uq", f"uq: accuracy {acc} of {good}")
        for row, mask in zip(uq, out["masks"]):
            a = [s for s, m in zip(good, mask) if m]
            b = [s for s, m in zip(good, mask) if not m]
            if row[0] != len(a) or (a and not math.isclose(row[1], sum(a) / len(a))) or (b and not math.isclose(row[2], sum(b) / len(b))) \
                    or (not a and row[1] != 0):
                raise Violation("wrong-uq", f"uq: {row.tolist()} for correct rows {good} and mask {mask.tolist()}")

    def shrinks(self, wl):
        if wl["fail"]:
            yield dict(copy.deepcopy(wl), fail=None)
        if wl["verbose"]:
            yield dict(copy.deepcopy(wl), verbose=False)
        for n in (1, wl["data"]["test"] // 2, wl["data"]["test"] - 1):
            if 1 <= n < wl["data"]["test"]:
                w = copy.deepcopy(wl)
                w["data"]["test"] = n
                yield w
        k = wl["nn"]["k"]
        for n in (k + 3, wl["data"]["train"] // 2, wl["data"]["train"] - 1):
            if k + 3 <= n < wl["data"]["train"]:
                w = copy.deepcopy(wl)
                w["data"]["train"] = n
                yield w
        if any(models.free_of(c) for c in wl["cfgs"]):
            w = copy.deepcopy(wl)
            for c in w["cfgs"]:
                for q in ("ls_bounds", "nu_bounds", "noise_bounds"):
                    c.pop(q, None)
            yield w


def labels_of(wl, data):
    """One-hot labels of the training points."""
    L, n, R = wl["data"]["labels"], wl["data"]["train"], wl["data"]["R"]
    g = np.random.RandomState(wl["data"]["seed"] + 1)
    x = data.train[:, 0]
    if L["how"] == "halves":
        c = (np.argsort(np.argsort(x)) * R) // n
    elif L["how"] == "mixed":
        c = (np.argsort(np.argsort(x)) * R) // n
        c = np.where(g.rand(n) < 0.3, g.randint(R, size=n), c)
    else:
        c = np.where(g.rand(n) < 0.8, g.randint(R), g.randint(R, size=n))
    return np.where(np.arange(R)[None] == c[:, None], L["enc"][1], L["enc"][0])
