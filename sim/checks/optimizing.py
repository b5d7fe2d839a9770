"""C18: what an optimisation evaluates and what it returns, in a single process."""
import copy
import math
import random

import numpy as np
from bayes_opt import SequentialDomainReductionTransformer

from .. import core, loader, models, ref, seams
from ..core import Violation
from . import distributed as dd
from . import histories as hh
from .common import Check, Result, close, fingerprint, inside, same_bits, short

BAD = {"inf": math.inf, "-inf": -math.inf, "nan": math.nan, "huge": 1e25, "-huge": -1e25}


def reshape_objective(t, v, j, kw):
    """The objective's landscape as the user's loss makes it."""
    if t["how"] == "after" and j >= t["at"]:
        return BAD[t["to"]]
    if t["how"] == "region" and kw and t["from"] <= math.log10(abs(sum(kw.values())) + 1e-9) * t["zoom"] % 1.0 < t["from"] + t["width"]:
        return BAD[t["to"]]              # some part of the search space
    if t["how"] == "flat":
        return 3.25
    if t["how"] == "steep":
        return v * 1e6
    if t["how"] == "spike" and j == t["at"]:
        return BAD[t["to"]]
    return v


def at_values(spec, st, kw):
    """The spec of a model with the reported values and the trial's values laid over."""
    st = copy.deepcopy(st)
    names = hh.Family.names(type("F", (), {"spec": spec})(), 0)
    for n, v in kw.items():
        if n == "noise":
            st["noise"] = v
        elif n == "smoothness":
            st["nu"] = v
        else:
            st["ls"][names.index(n)] = v
    st["free"] = {}
    new = hh.fresh_spec(spec, [st])
    if spec["kind"] == "hier":
        new["knot_bounds"] = [None] * len(st["ls"])
    return new


class C18(Check):
    id, quick, thorough = "C18", 1000, 80000
    real = ["MuyGPyS (whole library, numpy backend)", "numpy", "scipy.optimize", "bayes_opt", "scikit-learn"]
    stub = ["entropy", "the user's loss function, which records every trial and may reshape the objective",
            "bayes_opt's search for the next trial: the same within a run for the same trials and random state, rounded to 8 digits"]
    rule = ("one evaluation = one model trained 1-3 times in a row by either optimiser under seeded draws; every trial's objective is compared "
            "with a newly built model and with the reference model, the returned model with the recorded trials; non-trivial = more than one "
            "trial; distinct by a hash of all trials and returned states")
    assumptions = ["a search that meets a non-finite objective may give up with an error, but may not return a bad model"]

    def preload(self):
        loader.load("numpy")

    def gen(self, r, i, tier):
        d = r.choice([1, 2, 2, 3]) if r.random() < 0.96 else 11
        kind = r.choice(["single", "single", "single", "single", "het", "hier", "hier", "shear"])
        R = 3 if kind == "shear" else r.choice([1, 1, 1, 2, 3])
        if kind == "shear":
            d = 2
        data = {"seed": r.randrange(10 ** 6), "train": r.randint(12, 28), "test": 6, "d": d, "R": R}
        if R == 1 and r.random() < 0.5:
            data["flat_targets"] = True
        big = kind in ("single", "hier") and r.random() < 0.02
        if big:
            data["train"] = r.randint(120, 250)
        while True:
            s = hh.gen_spec(r, d, R, kind)
            if kind == "shear" and not s.get("ls_bounds"):
                continue
            if kind == "hier" and not any(s["knot_bounds"]):
                continue
            if kind in ("single", "het") and not models.free_of(s["cfg"]):
                continue
            if kind != "shear" and kind != "het" and s["cfg"]["noise"] < 1e-3:
                continue             # without noise the matrices can be numerically singular
            break
        if kind in ("single", "het") and r.random() < 0.3:
            c = s["cfg"]
            if len(c["ls"]) > 1 and all(c["ls_bounds"]) and "deformation" not in s["omit"]:
                c["ls"], c["ls_bounds"] = [c["ls"][0]] * len(c["ls"]), [c["ls_bounds"][0]] * len(c["ls"])
            if c["kernel"] == "matern" and c["nu"] == 0.5 and not c.get("nu_bounds") and c.get("noise_bounds"):
                c["noise_bounds"] = [0.0, c["noise_bounds"][1]]
        if R > 1:
            sc = s["scale"] if kind == "shear" else s["cfg"]["scale"]
            sc.clear(), sc.update(kind="fixed", val=round(r.uniform(0.3, 3), 3))
        exact = kind == "single" and s["cfg"].get("noise_bounds", [1])[0] == 0
        models.special(r, data, ("on_train", "grid", "int") + ("duplicates",) * (not exact) if kind in ("single", "het") else ("grid",), 0.25)
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = s["probe"]["k"]
            b = {"count": 3 if kind == "het" else r.randint(1, 7), "k": k, "seed": r.randrange(10 ** 5)}
            if big:
                b.update(count=r.randint(30, 110), k=r.choice([k, r.randint(10, 25)]))
            if kind == "shear" and b["count"] == k:
                b["count"] += 1      # the shear kernels tell cross from pair tensors by b != k
            op = {"batch": b, "draw": r.randrange(10 ** 6)}
            op["loss"] = r.choice(["mse", "lool"]) if kind == "shear" else \
                r.choice(["mse", "lool", "lool", "pseudo_huber", "looph"] + (["cross_entropy"] if R > 1 or not data.get("flat_targets") else []))
            if op["loss"] in ("pseudo_huber", "looph") and r.random() < 0.5:
                op["kw"] = {"boundary_scale": round(r.uniform(0.3, 5), 2)}
            if op["loss"] == "cross_entropy" and kind == "het":
                op["loss"] = "mse"
            if kind == "shear" and s["two"] and r.random() < 0.6:
                op["mask"] = r.choice([[1, 2], [1, 2], [0, 2], [2], [2, 0], [0, 1, 2]])
            elif kind != "shear" and R > 1 and op["loss"] != "cross_entropy" and r.random() < 0.3:
                op["mask"] = r.sample(range(R), r.randint(1, R))
            if r.random() < 0.6:
                op.update(opt="L_BFGS_B_optimize", okw={"options": {"maxfun": r.choice([3, 8, 20, 40])}})
            else:
                op.update(opt="Bayes_optimize", okw={})
                if r.random() < 0.9:
                    op["okw"] = {"init_points": r.randint(0, 4), "n_iter": r.randint(0, 4)}
                if r.random() < 0.5:
                    op["okw"]["random_state"] = r.choice([0, r.randrange(1000)])
                if r.random() < 0.15:
                    op["narrowing"] = True
            x = r.random()
            op["shape"] = {"how": "flat"} if x < 0.08 else {"how": "steep"} if x < 0.16 else \
                {"how": "spike", "at": r.randrange(12), "to": r.choice(sorted(BAD))} if x < 0.30 else \
                {"how": "after", "at": r.randint(1, 8), "to": r.choice(sorted(BAD))} if x < 0.38 else \
                {"how": "region", "from": round(r.random(), 3), "width": r.choice([0.1, 0.3, 0.6]), "zoom": r.choice([1, 3, 10]),
                 "to": r.choice(["nan", "nan"] + sorted(BAD))} if x < 0.48 else {"how": "none"}
            if r.random() < 0.2:
                op["verbose"] = True
            ops.append(op)
        return {"data": data, "spec": s, "ops": ops}

    def run(self, wl, ch, seed):
        amb = np.random.get_state()
        try:
            return self.go(wl, ch, seed)
        finally:
            np.random.set_state(amb)
            core.install({})

    def go(self, wl, ch, seed):
        W = loader.load("numpy")
        core.install(W.mods)
        spec, data = wl["spec"], models.Data(wl["data"])
        model = hh.build(W, spec)
        trials, gave_up, spikes, log = 0, 0, 0, []
        free, want = hh.one_state(model, spec)["free"], hh.free_in(spec)
        if sorted(free) != sorted(want) or any(not close(free[q], want[q], 1e-12, 0) for q in want):
            raise Violation("wrong-search-space", f"the free hyperparameters are {want}, an optimiser would search {free}")
        for n, op in enumerate(wl["ops"]):
            who = f"training {n} ({op['opt']}, {op['loss']})"
            b = op["batch"]
            labels = op["loss"] == "cross_entropy"
            d2 = data
            if labels:
                d2 = copy.copy(data)
                d2.targets = data.labels
            idx, nn, cross, pair, bt, bnt, feats = hh.tensors(model, spec, d2, b, "train")
            if op.get("mask"):
                bt = bt[:, op["mask"]]
            kw = dict(loss_kwargs=dict(op["kw"])) if op.get("kw") else {}
            if spec["kind"] == "hier":
                kw["batch_features"] = feats
            if op.get("mask"):
                kw["target_mask"] = tuple(op["mask"])
            before = hh.one_state(model, spec)
            keep = fingerprint([before, hh.probe(model, spec, data, spec["probe"]), cross, pair, bt, bnt])
            trace = []
            np.random.seed(op["draw"])
            seams.ENTROPY = random.Random(op["draw"])
            okw = dict(op["okw"])
            if op.get("narrowing"):
                okw["bounds_transformer"] = SequentialDomainReductionTransformer()
            try:
                new = getattr(W.optimize, op["opt"])(model, bt, bnt, cross, pair, loss_fn=self.traced(W, op, trace),
                                                     verbose=op.get("verbose", False), **kw, **okw)
            except Exception as e:
                bad = [v for _, _, v in trace if not math.isfinite(v) or abs(v) > 1e20]
                if not bad and not (spec["kind"] == "hier" and any(x in str(e) for x in ("NaN", "infinity", "Singular"))):
                    raise
                # the search met an objective that is no number and says so
                gave_up, new = gave_up + 1, None
            if fingerprint([hh.one_state(model, spec), hh.probe(model, spec, data, spec["probe"]), cross, pair, bt, bnt]) != keep:
                raise Violation("input-changed", f"{who}: the model or the tensors given to the optimiser changed")
            spikes += op["shape"]["how"] in ("spike", "after") and len(trace) > op["shape"]["at"] or \
                op["shape"]["how"] == "region" and any(w != v for _, v, w in trace)
            trials += len(trace)
            if new is None and not trace:
                continue             # not even the start has an objective
            self.judge_trials(W, wl, op, who, before, trace, (data, idx, nn, cross, pair, bt, bnt, feats, labels))
            log.append([(k, v) for k, _, v in trace])
            if okw.get("random_state") is not None and op["draw"] % 3 == 0 and new is not None:
                self.same_start(W, op, who, model, (bt, bnt, cross, pair), kw, okw, trace)
            if new is None:
                continue
            after = hh.one_state(new, spec)
            self.judge_result(op, who, before, after, trace)
            # the returned model predicts with what it reports
            fm = hh.build(W, hh.fresh_spec(spec, [after]))
            a, e = hh.probe(new, spec, data, spec["probe"]), hh.probe(fm, spec, data, spec["probe"])
            for k in e:
                if not close(a[k], e[k], 1e-8, 1e-10):
                    raise Violation("stale-prediction", f"{who}: {k} of the returned model is not that of a model with the reported values")
            log.append(after)
            model = new
        return Result(fingerprint(log), trials > 1, 0, trials, 0.0, {"non_finite_or_huge_objective": spikes} if spikes else {},
                      dict(trainings=len(wl["ops"]), trials=trials, gave_up=gave_up, **{spec["kind"]: 1}))

    def same_start(self, W, op, who, model, t, kw, okw, trace):
        """The random state the caller gives decides the points a search begins with, whatever was drawn before."""
        np.random.seed(op["draw"] + 1)
        seams.ENTROPY = random.Random(op["draw"] + 1)
        more, okw = [], dict(okw)
        if op.get("narrowing"):
            okw["bounds_transformer"] = SequentialDomainReductionTransformer()
        getattr(W.optimize, op["opt"])(model, *t, loss_fn=self.traced(W, op, more), **kw, **okw)
        for j, (a, b) in enumerate(list(zip(trace, more))[:1 + okw.get("init_points", 5)]):
            if any(not math.isclose(a[0][q], b[0][q], rel_tol=1e-9) for q in b[0]):
                raise Violation("random-state-ignored", f"{who}: with random_state={okw['random_state']} point {j} is {a[0]} once and {b[0]} the next time")

    @staticmethod
    def traced(W, op, trace):
        L, name = W.loss, op["loss"]
        base = models.loss_fn(W, name)
        maker = L.make_var_predict_and_loss_fn if name in models.VAR_LOSSES else L.make_raw_predict_and_loss_fn

        def make(fn, *a, **k):
            inner = maker(fn, *a, **k)

            def f(Kin, Kcross, *aa, **kw):
                v = float(inner(Kin, Kcross, *aa, **kw))
                at = {q: float(np.asarray(x)) for q, x in kw.items() if np.ndim(x) == 0 and x is not None}
                w = reshape_objective(op["shape"], v, len(trace), at)
                trace.append((at, v, w))
                return w
            return f
        return L.LossFn(lambda *a, **k: base(*a, **k), make)

    def judge_trials(self, W, wl, op, who, before, trace, t):
        data, idx, nn, cross, pair, bt, bnt, feats, labels = t
        spec, free = wl["spec"], before["free"]
        name, lkw = op["loss"], op.get("kw", {})
        if not trace:
            raise Violation("no-trials", f"{who}: nothing was evaluated")
        if any(not math.isclose(trace[0][0].get(q, math.nan), v, rel_tol=1e-9) for q, v in before["start"].items()) and \
                not any(all(math.isclose(kw.get(q, math.nan), v, rel_tol=1e-9) for q, v in before["start"].items()) for kw, _, _ in trace):
            raise Violation("start-not-tried", f"{who}: the starting values {before['start']} were never evaluated")
        for j, (kw, v, w) in enumerate(trace):
            if sorted(kw) != sorted(free):
                raise Violation("wrong-trial", f"{who} trial {j} sets {sorted(kw)}, the free hyperparameters are {sorted(free)}")
            if any(math.isnan(x) for x in kw.values()) and any(not abs(x) < 1e20 for _, _, x in trace[:j]):
                continue             # the line search goes astray after an objective that is no number
            for q in free:
                if not inside(kw[q], free[q], 1e-6):
                    raise Violation("trial-out-of-bounds", f"{who} trial {j}: {q}={kw[q]} outside {free[q]}")
            if spec["kind"] == "hier" and (ref.interpolated(hh.knots_of(spec), at_values(spec, before, kw)["knots"], feats) <= 0).any():
                continue             # length scales interpolated below zero: not a Gaussian process
            e, cond = self.fresh(W, spec, before, kw, op, t)
            if cond < 1e9 and not math.isclose(v, e, rel_tol=1e-7 + 1e-13 * cond, abs_tol=1e-9 + 1e-13 * cond) and \
                    not (math.isnan(v) and math.isnan(e)):
                raise Violation("wrong-objective", f"{who} trial {j} at {kw}: objective {v!r}, a model with these values gives {e!r}")
            if spec["kind"] == "single":
                cfg = spec["cfg"]
                st = {"length_scale": before["ls"], "noise": before["noise"], "scale": before["scale"]}
                if "nu" in before:
                    st["smoothness"] = before["nu"]
                Y = data.labels if labels else data.targets
                c2, p2 = ref.diffs_cross(data.train, data.train, idx, nn), ref.diffs_pair(data.train, nn)
                e, cond = dd.trial_objective(cfg, st, kw, name, c2, p2, Y[idx], Y[nn], lkw, op.get("mask"))
                if cond < 1e9 and not dd.objective_close(cfg, v, e, cond):
                    raise Violation("wrong-objective", f"{who} trial {j} at {kw}: objective {v!r}, the Gaussian process gives {e!r}")

    @staticmethod
    def fresh(W, spec, before, kw, op, t):
        """The objective of a newly built model that has exactly the trial's values."""
        data, idx, nn, cross, pair, bt, bnt, feats, labels = t
        m = hh.build(W, at_values(spec, before, kw))
        k = {"batch_features": feats} if spec["kind"] == "hier" else {}
        Kin, Kc = m.kernel(pair, **k), m.kernel(cross, **k)
        s = float(np.asarray(m.scale()))
        mean, fn = m.posterior_mean(Kin, Kc, bnt), models.loss_fn(W, op["loss"])
        mask = op.get("mask")
        if mask:
            mean = mean[:, mask]
        flat = np.asarray(Kin)
        q = int(round(math.sqrt(flat[0].size)))
        with np.errstate(all="ignore"):
            A = flat.reshape(len(flat), q, q) + (np.float64(m.noise()) * np.eye(q) if np.ndim(m.noise()) == 0 else 0)
            cond = max(np.linalg.cond(a) for a in A) if np.all(np.isfinite(A)) else math.inf
        if op["loss"] not in models.VAR_LOSSES:
            return -float(fn(mean, bt, **op.get("kw", {}))), cond
        var = np.asarray(m.posterior_variance(Kin, Kc)) / s
        if mask and var.ndim == 3:
            var = var[np.ix_(range(len(var)), mask, mask)]
        if spec["kind"] != "shear" and spec["cfg"]["scale"]["kind"] == "analytic":
            nz = np.asarray(m.noise(), float)
            D = np.stack([np.diag(x) for x in np.broadcast_to(nz.reshape((1, 1) if nz.ndim == 0 else nz.shape), flat.shape[:2])])
            b, n = flat.shape[:2]
            Y = np.asarray(bnt).reshape(b, n, -1)
            s = base = sum(float(np.sum(y * hh.solve(a + z, y))) for a, z, y in zip(flat, D, Y)) / (b * n)
            for _ in range(1, spec["cfg"]["scale"].get("iterations", 1)):
                s = 0.5 * (s + base / s)
        elif spec["kind"] == "shear" and spec["scale"]["kind"] == "analytic":
            raise core.HarnessError("shear models have fixed scales here")
        return -float(fn(mean, bt, var, s, **op.get("kw", {}))), cond

    @staticmethod
    def judge_result(op, who, before, after, trace):
        free = before["free"]
        got = after["start"]
        for q, b in free.items():
            if q not in got or not inside(got[q], b):
                raise Violation("out-of-bounds", f"{who}: optimised {q}={got.get(q)} outside {b}")
        if after["free"] != free:
            raise Violation("bounds-changed", f"{who}: bounds {free} became {after['free']}")
        same = lambda kw: all(math.isclose(kw[q], got[q], rel_tol=1e-9, abs_tol=1e-12) for q in free)
        hits = [w for kw, _, w in trace if same(kw)]
        if not hits:
            raise Violation("not-a-trial", f"{who}: returned {got} was never evaluated")
        ok = [w for w in hits if not math.isnan(w)]
        first = [w for kw, _, w in trace if all(math.isclose(kw[q], before["start"][q], rel_tol=1e-9) for q in free) and not math.isnan(w)]
        if first:
            # the optimiser may rely on any of its evaluations of a point
            if not ok or max(ok) < min(first) - 1e-9 * max(1.0, abs(min(first))):
                raise Violation("worse-than-start", f"{who}: objective {hits} at the result, {first} at the start")
        if op["opt"].startswith("Bayes"):
            top = max((w for _, _, w in trace if not math.isnan(w)), default=None)
            if top is not None and (not ok or max(ok) < top - 1e-9 * max(1.0, abs(top))):
                raise Violation("not-the-best", f"{who}: objective {hits} at the result, {top} at another trial")
        if not same_bits(hidden(before), hidden(after)):
            raise Violation("fixed-changed", f"{who}: {short(hidden(before), 300)} became {short(hidden(after), 300)}")

    def shrinks(self, wl):
        for i in range(len(wl["ops"])):
            if len(wl["ops"]) > 1:
                w = copy.deepcopy(wl)
                del w["ops"][i]
                yield w
        for i, op in enumerate(wl["ops"]):
            if op["shape"]["how"] != "none":
                w = copy.deepcopy(wl)
                w["ops"][i]["shape"] = {"how": "none"}
                yield w
            if op["batch"]["count"] > 1 and wl["spec"]["kind"] not in ("het", "shear"):
                w = copy.deepcopy(wl)
                w["ops"][i]["batch"]["count"] -= 1
                yield w
            for q, lo in (("init_points", 0), ("n_iter", 0)):
                if op["okw"].get(q, 0) > lo:
                    w = copy.deepcopy(wl)
                    w["ops"][i]["okw"][q] -= 1
                    yield w
            if "options" in op["okw"] and op["okw"]["options"]["maxfun"] > 3:
                w = copy.deepcopy(wl)
                w["ops"][i]["okw"]["options"]["maxfun"] = 3
                yield w


def hidden(st):
    """What training must leave alone."""
    out = {k: v for k, v in st.items() if k not in ("start", "ls", "nu", "noise")}
    names = list(st["free"])
    if "nu" in st and "smoothness" not in names:
        out["nu"] = st["nu"]
    if "noise" not in names:
        out["noise"] = st["noise"]
    if not any(n.startswith("length") for n in names):
        out["ls"] = st["ls"]
    elif len(st["ls"]) > 1:
        out["ls"] = [v for i, v in enumerate(st["ls"]) if f"length_scale{i}" not in names and not any(n.endswith(f"_knot{i}") for n in names)]
    return out
