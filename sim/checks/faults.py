"""C12: an exception at any executed line or solve of an optimisation leaves the caller's model as it was."""
import copy
import random
import sys

import numpy as np

from .. import core, loader, models, preempt, seams
from ..core import Violation
from . import histories as hist
from .common import Check, Result, fingerprint, short
from .threads import agree

EXC = {"memory": MemoryError, "linalg": np.linalg.LinAlgError, "interrupt": KeyboardInterrupt, "loss": ArithmeticError}


class Job:
    """One process that holds a model and optimises it on demand."""

    def __init__(self, wl):
        self.W = W = loader.load("numpy")
        core.install(W.mods)
        self.wl, self.spec = wl, wl["model"]
        self.data = models.Data(wl["data"])
        self.model = hist.build(W, self.spec)
        s, b = self.spec, wl["batch"]
        self.t = hist.tensors(self.model, s, self.data, b, "train")
        self.loss_left = None
        if wl.get("scaled"):
            # a model that has already been through an optimisation of its scale
            self.model.optimize_scale(self.t[3], self.t[5])
        self.lookup = W.neighbors.NN_Wrapper(self.data.train, b["k"], nn_method="exact", algorithm="ball_tree")

    def part(self):
        return self.model.models[self.wl["part"]] if self.spec["kind"] == "multi" else self.model

    def part_spec(self):
        return self.spec["parts"][self.wl["part"]] if self.spec["kind"] == "multi" else self.spec

    def look(self):
        """Everything the model reports and predicts, and every array it was given."""
        d = self.data
        return [hist.state_of(self.model, self.spec), hist.probe(self.model, self.spec, d, self.spec["probe"])]

    def arrays(self):
        d = self.data
        return fingerprint([d.train, d.test, d.targets, list(self.t)])

    def loss(self):
        L, name = self.W.loss, self.wl["loss"]
        base = models.loss_fn(self.W, name)
        maker = L.make_var_predict_and_loss_fn if name in models.VAR_LOSSES else L.make_raw_predict_and_loss_fn

        def make(fn, *a, **k):
            inner = maker(fn, *a, **k)

            def f(*aa, **kw):
                if self.loss_left is not None:
                    self.loss_left -= 1
                    if self.loss_left == 0:
                        raise ArithmeticError("injected")
                v = inner(*aa, **kw)
                self.trials.append(float(v))
                return v
            return f
        return L.LossFn(lambda *a, **k: base(*a, **k), make)

    def optimise(self):
        """Run the optimisation of the workload and describe what it returned."""
        W, wl, s = self.W, self.wl, self.spec
        idx, nn, cross, pair, bt, bnt, feats = self.t
        m = self.part()
        if s["kind"] == "multi":
            bt, bnt = bt[:, wl["part"]], bnt[:, :, wl["part"]]
        np.random.seed(wl["draw"])
        seams.ENTROPY = random.Random(wl["draw"])
        self.trials = []
        kw = dict(wl["okw"])
        if wl["how"] == "mini_batch":
            E = W("MuyGPyS.optimize.experimental.chassis")
            new = E.optimize_from_tensors_mini_batch(m, self.data.train, self.data.targets, wl["batch"]["k"], wl["batch"]["count"],
                                                     len(self.data.train), loss_fn=self.loss(), **kw)[0]
        elif wl["how"] == "indices":
            new = W.from_indices.optimize_from_indices(m, idx, nn, self.data.train, self.data.targets, loss_fn=self.loss(),
                                                       opt_fn=getattr(W.optimize, wl["opt"]), **kw)
        else:
            if s["kind"] == "hier":
                kw["batch_features"] = feats
            if s["kind"] == "shear" and s["two"]:
                kw["target_mask"] = None
            new = getattr(W.optimize, wl["opt"])(m, bt, bnt, cross, pair, loss_fn=self.loss(), **kw)
        self.last = new
        return hist.one_state(new, self.part_spec()), list(self.trials), new

    def count(self):
        """Lines, solves and loss evaluations of an uninterrupted optimisation, and its result."""
        tr = preempt.LineFault(0, Exception)
        solves = [0]

        def fault(what):
            solves[0] += 1
        seams.FAULT = fault
        sys.settrace(tr)
        try:
            out = self.optimise()
        finally:
            sys.settrace(None)
            seams.FAULT = None
        return tr.n, solves[0], len(self.trials), out

    def struck(self, f, at):
        """The same with a failure; returns (exception name or None, where)."""
        exc = EXC[f["what"]]
        tr, where = None, None
        try:
            if f["site"] == "line":
                tr = preempt.LineFault(at, exc)
                sys.settrace(tr)
            elif f["site"] == "solve":
                n = [0]

                def fault(what):
                    n[0] += 1
                    if n[0] == at:
                        raise exc("injected")
                seams.FAULT = fault
            else:
                self.loss_left = at
            self.optimise()
            return None, tr.fired if tr else None
        except (Exception, KeyboardInterrupt) as e:
            sys.settrace(None)
            if "injected" not in str(e) and (tr is None or tr.fired is None) and not isinstance(e, exc):
                raise
            return type(e).__name__, tr.fired if tr else f["site"]
        finally:
            sys.settrace(None)
            seams.FAULT = None
            self.loss_left = None


class C12(Check):
    id, quick, thorough = "C12", 700, 40000
    real = ["MuyGPyS (whole library, numpy backend)", "numpy", "scipy.optimize", "bayes_opt", "scikit-learn"]
    stub = ["the operating system's delivery of failures: exceptions are raised at chosen lines, solves and loss evaluations", "entropy",
            "bayes_opt's search for the next trial: the same within a run for the same trials and random state, rounded to 8 digits"]
    rule = ("one evaluation = one optimisation that is struck 1-4 times by an exception at drawn lines, solves or loss evaluations and then "
            "repeated; non-trivial = at least one exception was raised inside it; distinct by a hash of the fault sites and of everything "
            "reported, predicted and returned")
    assumptions = ["failures surface as exceptions between source lines of the library, at its solves and in the loss"]

    def preload(self):
        loader.load("numpy")

    def gen(self, r, i, tier):
        d, R = r.choice([2, 2, 3]), r.choice([1, 1, 1, 2, 3])
        kinds = ["single", "single", "single", "het", "hier"] if R == 1 else ["multi"]
        if R == 3 and d == 2:
            kinds += ["shear"]
        data = {"seed": r.randrange(10 ** 6), "train": r.randint(14, 24), "test": r.randint(5, 9), "d": d, "R": R}
        if R == 1 and r.random() < 0.5:
            data["flat_targets"] = True
        models.special(r, data, (), 0.2)
        while True:
            spec = hist.gen_spec(r, d, R, r.choice(kinds))
            part = r.randrange(R)
            if spec["kind"] == "hier" and any(spec["knot_bounds"]):
                break
            if spec["kind"] == "shear" and spec.get("ls_bounds"):
                break
            s = spec["parts"][part] if spec["kind"] == "multi" else spec
            if spec["kind"] not in ("hier", "shear") and models.free_of(s["cfg"]) and s["cfg"]["noise"] > 0 and any(
                    n in self.effective(s) for n in models.free_of(s["cfg"])):
                break
        k = spec["probe"]["k"]
        batch = {"count": 3 if spec["kind"] == "het" else r.randint(1, 6), "k": k, "seed": r.randrange(10 ** 5)}
        if spec["kind"] == "shear" and batch["count"] == k:
            batch["count"] += 1
        how = "tensors"
        if spec["kind"] == "single" and r.random() < 0.4:
            how = r.choice(["indices", "mini_batch"])
        opt = "Bayes_optimize" if how == "mini_batch" or r.random() < 0.4 else "L_BFGS_B_optimize"
        if opt == "Bayes_optimize":
            okw = {"init_points": r.randint(1, 2), "n_iter": r.randint(0, 2)}
            if r.random() < 0.7:
                okw["random_state"] = r.choice([0, r.randrange(1000)])
            if how == "mini_batch":
                okw["num_epochs"] = r.choice([1, 1, 2])
        else:
            okw = {"options": {"maxfun": r.choice([3, 6, 12])}}
        loss = r.choice(["mse", "lool", "lool", "pseudo_huber", "looph"] if spec["kind"] != "shear" else ["mse", "lool"])
        faults = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            site = r.choice(["line", "line", "line", "solve", "loss"])
            what = "loss" if site == "loss" else r.choice(["memory", "linalg", "interrupt"])
            u = r.random() if r.random() < 0.6 else 1 - 0.1 * r.random()
            faults.append({"site": site, "what": what, "u": round(u, 6)})
        return {"data": data, "model": spec, "part": part, "batch": batch, "how": how, "opt": opt, "okw": okw, "loss": loss, "faults": faults,
                "draw": r.randrange(10 ** 6), "scaled": spec["kind"] in ("single", "multi") and r.random() < 0.4}

    @staticmethod
    def effective(s):
        out = set(models.names_of(s["cfg"])) | {"noise"}
        if "deformation" in s["omit"]:
            out -= {n for n in out if n.startswith("length")}
        return out

    def run(self, wl, ch, seed):
        try:
            calm = Job(wl)
            first = calm.look()
            try:
                lines, solves, evals, want = calm.count()
            except ValueError as e:
                # interpolated length scales can make the objective not a number; nothing to strike then
                if wl["model"]["kind"] == "hier" and any(x in str(e) for x in ("NaN", "infinity", "Singular")):
                    return Result(fingerprint([wl["draw"], str(e)]), False)
                raise
            self.same(calm.look(), first, "the optimisation (uninterrupted)")
            job = Job(wl)
            mark = job.arrays()
            sites, hits = [], {}
            for n, f in enumerate(wl["faults"]):
                total = {"line": lines, "solve": solves, "loss": evals}[f["site"]]
                if not total:
                    continue
                # the drawn position, moved a little by the schedule
                at = min(total, 1 + int(f["u"] * total) + ch.choose(3, p0=0.6))
                err, where = job.struck(f, at)
                sites.append((f["site"], at, err, where))
                if err or where:
                    hits[f"{f['what']}_at_{f['site']}"] = hits.get(f"{f['what']}_at_{f['site']}", 0) + 1
                what = f"failure {n} ({err} at {f['site']} {at} of {total}, {where})"
                self.same(job.look(), first, what)
                if job.arrays() != mark:
                    raise Violation("array-changed", f"after {what}, an array that was passed to the optimisation has changed")
            again = job.optimise()
            w = agree([again[0], again[1]], [want[0], want[1]], "result")
            if w:
                raise Violation("retry-differs", f"after {short(sites, 300)}: {w} (uninterrupted second)")
            self.same(job.look(), first, "the repeated optimisation")
            if job.arrays() != mark:
                raise Violation("array-changed", "an array that was passed to the optimisation has changed")
            # the returned model is a separate one
            if again[2] is job.part():
                raise Violation("same-object", "the optimisation returned the model it was given")
        finally:
            core.install({})
        return Result(fingerprint([sites, again[:2], first]), bool(hits), 0, len(sites), 0.0, hits,
                      dict(optimisations=len(sites) + 2, lines_traced=lines, distinct_sites=len({x[3] for x in sites})))

    @staticmethod
    def same(now, first, what):
        w = agree(now, first, "model")
        if w:
            raise Violation("model-changed", f"after {what}: {w} (before second)")

    def shrinks(self, wl):
        for i in range(len(wl["faults"])):
            if len(wl["faults"]) > 1:
                w = copy.deepcopy(wl)
                del w["faults"][i]
                yield w
        if wl["batch"]["count"] > 2 and wl["model"]["kind"] in ("single", "multi"):
            w = copy.deepcopy(wl)
            w["batch"]["count"] = 2
            yield w
