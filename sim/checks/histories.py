"""C13, C17: histories of operations on several models, interleaved by the scheduler, with failing solves.

Every family is one independently constructed model with the copies made of it; it is driven
by one simulated client.  The scheduler interleaves the clients at every operation and at
every linear solve the library makes.
"""
import copy
import math

import numpy as np

from .. import core, loader, models, ref, seams
from ..core import Scheduler, Violation
from . import distributed as dd
from .common import Check, Result, close, diff_note, fingerprint, inside, same_bits, short

REAL = ["MuyGPyS (whole library, numpy backend; the torch backend in about a tenth of the runs)", "numpy", "torch (one thread)",
        "scipy.optimize", "bayes_opt", "scikit-learn"]
STUB = ["operating-system scheduling of the clients", "entropy", "numpy.linalg.solve and torch.linalg.solve may fail or suspend the caller on command",
        "bayes_opt's search for the next trial: the same within a run for the same trials and random state, rounded to 8 digits"]


TORCH = ["MuyGPyS", "MuyGPyS.gp", "MuyGPyS.gp.kernels", "MuyGPyS.gp.deformation", "MuyGPyS.gp.hyperparameter", "MuyGPyS.gp.noise",
         "MuyGPyS.optimize", "MuyGPyS.optimize.loss", "MuyGPyS.gp.tensors"]


def world(wl):
    if wl.get("backend") != "torch":
        return loader.load("numpy")
    seams.hook_torch()
    return loader.load("torch", torch_ok=True, public=TORCH)


def arr(x):
    """A result of any backend as a numpy array."""
    return np.array(x.detach() if hasattr(x, "detach") else x)


class Native:
    """A data set in the arrays of the torch backend."""

    def __init__(self, W, data):
        self.mm, self.data = W("MuyGPyS._src.math"), data
        for k in ("train", "test", "targets", "labels"):
            setattr(self, k, self.mm.array(getattr(data, k).copy()))

    def batch(self, f, b):
        idx, nn = f(b["count"], b["k"], b["seed"])
        return self.mm.iarray(idx.copy()), self.mm.iarray(nn.copy())

    def test_batch(self, count, k, seed):
        return self.batch(self.data.test_batch, dict(count=count, k=k, seed=seed))

    def train_batch(self, count, k, seed):
        return self.batch(self.data.train_batch, dict(count=count, k=k, seed=seed))


# ------------------------------------------------------------------ models
def build(W, spec, share=None):
    """A model of any kind, relying on the library's defaults where the spec says so."""
    share = {} if share is None else share
    H, D, K, N = W.hyper, W.deformation, W.kernels, W.noise
    kind = spec["kind"]
    if kind == "multi":
        return W.gp.MultivariateMuyGPS(*[parts(W, s, share) for s in spec["parts"]])
    return W.gp.MuyGPS(**parts(W, spec, share))


def param(W, val, bounds, share, on):
    val = math.inf if val == "inf" else val
    key = (repr(val), repr(bounds))
    if on and key in share:
        return share[key]
    p = models.scalar(W, val, bounds)
    if on:
        share[key] = p
    return p


def scale_of(W, s):
    H = W.hyper
    if s["kind"] == "fixed":
        return H.FixedScale(val=s.get("val", 1.0))
    if s["kind"] == "analytic":
        return H.AnalyticScale(iteration_count=s.get("iterations", 1), val=s.get("val", 1.0))
    return H.DownSampleScale(down_count=s["down"], iteration_count=s["iterations"], val=s.get("val", 1.0))


def parts(W, spec, share):
    H, D, K, N = W.hyper, W.deformation, W.kernels, W.noise
    kind, omit, on = spec["kind"], spec.get("omit", []), spec.get("shared", False)
    kw = {}
    if kind == "shear":
        E = W("MuyGPyS.gp.kernels.experimental")
        cls = E.ShearKernel2in3out if spec["two"] else E.ShearKernel
        if "deformation" in omit:
            kernel = cls()
        else:
            kernel = cls(deformation=D.DifferenceIsotropy(D.F2, length_scale=param(W, spec["ls"], spec.get("ls_bounds"), share, on)))
        kw["noise"] = N.HomoscedasticNoise(spec["noise"]) if spec["two"] or spec.get("plain") else N.ShearNoise33(spec["noise"])
        return dict(kw, kernel=kernel, scale=scale_of(W, spec["scale"]))
    c = spec["cfg"]
    metric = {"l2": D.l2, "F2": D.F2}[c["metric"]]
    lsb = c.get("ls_bounds") or [None] * len(c["ls"])
    kkw = {}
    if kind == "hier":
        X = W("MuyGPyS.gp.hyperparameter.experimental")
        knots = knots_of(spec)
        vec = H.VectorParam(*[models.scalar(W, v, b) for v, b in zip(spec["knots"], spec["knot_bounds"])])
        high = K.RBF(deformation=D.Isotropy(D.F2, length_scale=H.ScalarParam(2.0)))
        kkw["deformation"] = D.Isotropy(metric, length_scale=X.HierarchicalParam(knots, vec, high))
    elif "deformation" not in omit:
        ps = [param(W, v, b, share, on) for v, b in zip(c["ls"], lsb)]
        kkw["deformation"] = D.Anisotropy(metric, length_scale=H.VectorParam(*ps)) if c["deform"] == "aniso" else \
            (D.Isotropy if c["deform"] == "iso" else D.DifferenceIsotropy)(metric, length_scale=ps[0])
    if c["kernel"] == "matern":
        if "smoothness" not in omit:
            kkw["smoothness"] = param(W, c["nu"], c.get("nu_bounds"), share, on)
        kw["kernel"] = K.Matern(**kkw)
    else:
        kw["kernel"] = K.RBF(**kkw)
    if kind == "het":
        kw["noise"] = N.HeteroscedasticNoise(np.array(spec["het"]))
    elif c.get("null"):
        kw["noise"] = N.NullNoise()
    elif "noise" not in omit:
        kw["noise"] = N.HomoscedasticNoise(c["noise"], tuple(c["noise_bounds"])) if c.get("noise_bounds") else \
            N.HomoscedasticNoise(c["noise"])
    if "scale" not in omit:
        kw["scale"] = scale_of(W, c["scale"])
    return kw


def one_state(m, spec):
    """Everything a single model reports."""
    ls = m.kernel.deformation.length_scale
    out = {"ls": [float(x) for x in np.atleast_1d(arr(ls.knot_values() if spec["kind"] == "hier" else ls()))]}
    if hasattr(m.kernel, "smoothness"):
        out["nu"] = float(arr(m.kernel.smoothness()))
    out["noise"] = arr(m.noise()).astype(float).tolist()
    out["scale"] = arr(m.scale()).item()
    out["trained"] = bool(m.scale.trained)
    names, vals, bounds = m.get_opt_params()
    out["free"] = {n: [float(x) for x in b] for n, b in zip(names, np.asarray(bounds).reshape(-1, 2))}
    out["start"] = {n: float(arr(v)) for n, v in zip(names, vals)}
    out["fixed"] = bool(m.fixed())
    out["ls_fixed"] = bool(ls.fixed())
    return out


def free_in(spec):
    """Free hyperparameters of a model as its author wrote it: name -> bounds."""
    if spec["kind"] == "shear":
        return {"length_scale": spec["ls_bounds"]} if spec.get("ls_bounds") else {}
    if spec["kind"] == "hier":
        out = {f"length_scale{i}": b for i, b in enumerate(spec["knot_bounds"]) if b}
        out.update(models.free_of(dict(spec["cfg"], ls_bounds=None)))
        return out
    return models.free_of(spec["cfg"])


def as_built(spec):
    """What a model reports before anything has happened to it; what its author left out has its default."""
    free = {n: [float(x) for x in b] for n, b in free_in(spec).items()}
    out = {"free": free, "fixed": not free, "ls_fixed": not any(n.startswith("length") for n in free), "trained": False}
    if spec["kind"] == "shear":
        return dict(out, ls=[spec["ls"]], noise=spec["noise"], scale=spec["scale"].get("val", 1.0))
    c = spec["cfg"]
    out.update(ls=list(spec["knots"] if spec["kind"] == "hier" else c["ls"]), scale=c["scale"].get("val", 1.0),
               noise=spec["het"] if spec["kind"] == "het" else c["noise"])
    if c["kernel"] == "matern":
        out["nu"] = float(c["nu"])
    return out


def as_given(a, b, backend="numpy"):
    """Is the reported value the given one?  The torch backend holds hyperparameters in single precision."""
    if backend != "torch" or isinstance(b, (bool, dict)):
        return a == b
    return np.array_equal(np.array(a, dtype=np.float32), np.array(b, dtype=np.float32))


def comps(model, spec):
    if spec["kind"] == "multi":
        return list(zip(model.models, spec["parts"]))
    return [(model, spec)]


def state_of(model, spec):
    return [one_state(m, s) for m, s in comps(model, spec)]


def tensors(model, spec, data, b, kind):
    """Batch tensors as a user makes them; kind test | train."""
    if kind == "test":
        idx, nn = data.test_batch(b["count"], b["k"], b["seed"])
        cross, pair, bnt = model.make_predict_tensors(idx, nn, data.test, data.train, data.targets)
        bt, q = None, data.test
    else:
        idx, nn = data.train_batch(b["count"], b["k"], b["seed"])
        cross, pair, bt, bnt = model.make_train_tensors(idx, nn, data.train, data.targets)
        q = data.train
    if spec["kind"] == "shear":
        bnt = bnt.swapaxes(-2, -1)
        if spec["two"]:
            bnt = bnt[:, 1:]
    return idx, nn, cross, pair, bt, bnt, q[idx]


def probe(model, spec, data, b):
    """What the model predicts for a fixed batch."""
    idx, nn, cross, pair, _, bnt, feats = tensors(model, spec, data, b, "test")
    if spec["kind"] == "multi":
        co = model.fast_coefficients(pair, bnt)
        return dict(Kin=np.stack([arr(m.kernel(pair)) for m in model.models]), Kcross=np.stack([arr(m.kernel(cross)) for m in model.models]),
                    mean=arr(model.posterior_mean(pair, cross, bnt)), var=arr(model.posterior_variance(pair, cross)),
                    coef=arr(co), fast=arr(model.fast_posterior_mean(cross, co)))
    kw = {"batch_features": feats} if spec["kind"] == "hier" else {}
    Kin, Kc = model.kernel(pair, **kw), model.kernel(cross, **kw)
    out = dict(Kin=arr(Kin), Kcross=arr(Kc), mean=arr(model.posterior_mean(Kin, Kc, bnt)), var=arr(model.posterior_variance(Kin, Kc)))
    if spec["kind"] != "shear":
        co = model.fast_coefficients(Kin, bnt)
        shape = Kin.shape[:2] + (bnt.reshape(Kin.shape[:2] + (-1,)).shape[2],)
        co = co.reshape(shape)
        out["coef"] = arr(co)
        out["fast"] = arr(model.fast_posterior_mean(Kc, co)).reshape(shape[0], shape[2])
    return out


def fresh_spec(spec, st):
    """The spec of a newly built model with the reported values."""
    if spec["kind"] == "multi":
        return dict(spec, parts=[fresh_spec(s, [x]) for s, x in zip(spec["parts"], st)])
    x = st[0]
    new = {k: v for k, v in spec.items() if k not in ("omit", "shared")}
    free = x["free"]
    if spec["kind"] == "shear":
        return dict(new, ls=x["ls"][0], ls_bounds=free.get("length_scale"), noise=x["noise"],
                    scale=dict(spec["scale"], val=x["scale"]))
    c = dict(spec["cfg"])
    c["scale"] = dict(c["scale"], val=x["scale"])
    if spec["kind"] == "hier":
        new["knots"] = x["ls"]
        new["knot_bounds"] = [free.get(f"length_scale{i}") for i in range(len(x["ls"]))]
    else:
        c["ls"] = x["ls"]
        c["ls_bounds"] = [free.get(n) for n in models.names_of(c) if n.startswith("length")]
    if "nu" in x:
        c["nu"] = "inf" if math.isinf(x["nu"]) else x["nu"]
        c["nu_bounds"] = free.get("smoothness")
    if spec["kind"] == "het":
        new["het"] = x["noise"]
    else:
        c["noise"], c["noise_bounds"] = x["noise"], free.get("noise")
    return dict(new, cfg=c)


def reference(spec, st, data, b, given=None):
    """The Gaussian process at the reported hyperparameters, and the worst condition number."""
    idx, nn = given or data.test_batch(b["count"], b["k"], b["seed"])
    cross, pair = ref.diffs_cross(data.test, data.train, idx, nn), ref.diffs_pair(data.train, nn)
    if spec["kind"] == "shear":
        return shear_reference(spec, st[0], cross, pair, data.targets[nn])
    multi = spec["kind"] == "multi"
    outs, worst = [], 1.0
    for j, x in enumerate(st):
        c = (spec["parts"][j] if multi else spec)["cfg"]
        par = {"ls": x["ls"], "nu": x.get("nu")}
        if spec["kind"] == "hier":
            par["ls"] = ref.interpolated(knots_of(spec), x["ls"], data.test[idx])
            if (par["ls"] <= 0).any():
                return None, 1.0              # interpolated below zero: not a Gaussian process
            per = [ref.matrices(c, dict(par, ls=[l]), u, v) for l, u, v in zip(par["ls"], cross[:, None], pair[:, None])]
            Kin, Kc = (np.concatenate([q[j] for q in per]) for j in (0, 1))
        else:
            Kin, Kc = ref.matrices(c, par, cross, pair)
        n, k = Kc.shape
        nz = np.broadcast_to(np.asarray(x["noise"], float).reshape((n, k) if spec["kind"] == "het" else (1, 1)), (n, k))
        Y = data.targets[nn][:, :, j:j + 1] if multi else data.targets[nn].reshape(n, k, -1)
        mean, var, coef = np.empty((n, Y.shape[2])), np.empty(n), np.empty(Y.shape)
        for i in range(n):
            A = Kin[i] + np.diag(nz[i])
            worst = max(worst, np.linalg.cond(A))
            coef[i] = solve(A, Y[i])
            mean[i] = Kc[i] @ coef[i]
            var[i] = x["scale"] * (1.0 - Kc[i] @ solve(A, Kc[i]))
        outs.append(dict(Kin=Kin, Kcross=Kc, mean=mean, var=var, coef=coef, fast=mean))
    if not multi:
        return outs[0], worst
    return dict(Kin=np.stack([o["Kin"] for o in outs]), Kcross=np.stack([o["Kcross"] for o in outs]),
                mean=np.concatenate([o["mean"] for o in outs], 1), var=np.stack([o["var"] for o in outs], 1),
                coef=np.concatenate([o["coef"] for o in outs], 2), fast=np.concatenate([o["mean"] for o in outs], 1)), worst


def shear_reference(spec, x, cross, pair, Y):
    """The same for the shear kernels: convergence and two shears predicted from all three or from the two shears."""
    rows = [1, 2] if spec["two"] else [0, 1, 2]
    ls, Y = x["ls"][0], Y.swapaxes(-2, -1)[:, rows]
    Kin, Kc = ref.shear(pair, ls, rows, rows), ref.shear(cross[:, :, None, :], ls, rows, [0, 1, 2])[..., 0]
    Kout = ref.shear(np.zeros((1, 1, 2)), ls, [0, 1, 2], [0, 1, 2]).reshape(3, 3)
    n, k = pair.shape[:2]
    size = len(rows) * k
    noise = np.full(size, float(x["noise"]))
    if not spec["two"] and not spec.get("plain"):
        noise[:k] *= 2                        # the convergence is twice as noisy as the shears
    mean, var, worst = np.empty((n, 3)), np.empty((n, 3, 3)), 1.0
    for i in range(n):
        A, C = Kin[i].reshape(size, size) + np.diag(noise), Kc[i].reshape(size, 3)
        worst = max(worst, np.linalg.cond(A))
        mean[i] = C.T @ solve(A, Y[i].reshape(size))
        var[i] = x["scale"] * (Kout - C.T @ solve(A, C))
    return dict(Kin=Kin, Kcross=Kc, mean=mean, var=var), worst


def shear_scale(op, pair, Y):
    """The analytic scale of a shear model that has the operation's values."""
    rows = [1, 2] if op["two"] else [0, 1, 2]
    Y, (n, k) = Y.swapaxes(-2, -1)[:, rows], pair.shape[:2]
    noise = np.full(len(rows) * k, float(op["noise"]))
    if not op["two"] and not op.get("plain"):
        noise[:k] *= 2
    Kin = ref.shear(pair, op["ls"], rows, rows).reshape(n, len(noise), len(noise)) + np.diag(noise)
    s = base = sum(float(y @ solve(a, y)) for a, y in zip(Kin, Y.reshape(n, -1))) / (n * len(noise))
    for _ in range(1, op["fit"]):
        s = 0.5 * (s + base / s)
    return s


def shear_objective(op, ls, noise, scale, loss, mask, cross, pair, targets, nn_targets):
    """The training objective of a shear model; scale is its value, or the number of iterations of an analytic one."""
    want, cond = shear_reference(op, {"ls": [ls], "noise": noise, "scale": 1.0}, cross, pair, nn_targets)
    mean, var, rows = want["mean"], want["var"], list(mask or [0, 1, 2])
    r, V = mean[:, rows] - targets[:, rows], var[:, rows][:, :, rows]
    if loss == "mse":
        return -float((r ** 2).mean()), cond
    s = scale if isinstance(scale, float) else shear_scale(dict(op, ls=ls, noise=noise, fit=scale), pair, nn_targets)
    return -float(sum(a @ solve(s * A, a) + np.linalg.slogdet(s * A)[1] for a, A in zip(r, V))), max(cond, *(np.linalg.cond(A) for A in V))


def knots_of(spec):
    return np.random.RandomState(spec["knot_seed"]).uniform(-2, 2, size=(len(spec["knots"]), spec["d"]))


def solve(a, b):
    return np.linalg.solve.__wrapped__(a, b)


def loose(spec, st):
    for s, x in zip(spec["parts"] if spec["kind"] == "multi" else [spec], st):
        if s["kind"] != "shear" and s["cfg"]["kernel"] == "matern" and ("smoothness" in x["free"] or x["nu"] not in (0.5, 1.5, 2.5, math.inf)):
            return True
    return False


# ------------------------------------------------------------------ a family and its history
class Slot:
    def __init__(self, model):
        self.model = model
        self.seen = None


class Family:
    def __init__(self, W, spec, data, share, reflect):
        self.W, self.spec, self.data, self.reflect = W, spec, data, reflect
        self.native = Native(W, data) if W.backend == "torch" else data
        self.slots = [Slot(build(W, spec, share))]
        self.log, self.fail, self.solves, self.failed = [], None, 0, 0
        self.who, self.square = "?", None
        self.look(0)
        for s, x in zip(spec["parts"] if spec["kind"] == "multi" else [spec], self.slots[0].seen[0] if reflect else []):
            for k, v in as_built(s).items():
                if not as_given(x[k], v, W.backend) and not (k == "trained" and "scale" in s.get("omit", [])):
                    raise Violation("not-as-built", f"a new model reports {k} {x[k]}, it was built with {v}")

    def on_solve(self):
        self.solves += 1
        if self.fail and self.solves == self.fail["at"]:
            self.failed += 1
            if self.fail["what"] == "memory":
                raise MemoryError("injected")
            raise np.linalg.LinAlgError("injected")

    def quietly(self, f):
        keep, self.fail = self.fail, None
        try:
            return f()
        finally:
            self.fail = keep

    def see(self, i):
        s = self.slots[i]
        return self.quietly(lambda: (state_of(s.model, self.spec), probe(s.model, self.spec, self.native, self.spec["probe"])))

    def look(self, i, what="construction"):
        """Record what slot i reports and predicts, and compare the two."""
        s = self.slots[i]
        s.seen = self.see(i)
        self.log.append((what, i, s.seen))
        if self.reflect:
            self.consistent(i, what)

    def consistent(self, i, what):
        st, got = self.slots[i].seen
        spec = self.spec
        for x in st:
            if x["ls_fixed"] == any(n.startswith("length") for n in x["free"]) or x["fixed"] != (not x["free"]):
                raise Violation("wrong-report", f"{self.who}: after {what}, model {i} reports {sorted(x['free'])} free, fixed={x['fixed']}, "
                                                f"and its length scales fixed={x['ls_fixed']}")
        fm = build(self.W, fresh_spec(spec, st))
        want = self.quietly(lambda: probe(fm, spec, self.native, spec["probe"]))
        for k in want:
            if not close(got[k], want[k], 1e-9, 1e-11):
                raise Violation("stale-prediction", f"{self.who}: after {what}, {k} of model {i} differs from a newly built model with the "
                                                    f"reported values: {diff_note(got[k], want[k])}")
        want, cond = reference(spec, st, self.data, spec["probe"])
        if want is None:
            return
        rt = 1e-4 if loose(spec, st) else 1e-7
        if self.W.backend == "torch":         # hyperparameters, and what is made of them, in single precision
            for k, w in want.items():
                tol = 1e-5 + (0 if k in ("Kin", "Kcross") else 1e-6 * cond)
                g = got[k].reshape(w.shape) if got[k].size == w.size else got[k]
                if tol < 1e-2 and not close(g, w, tol, tol * max(1.0, np.abs(w).max(initial=0))):
                    raise Violation("wrong-prediction", f"{self.who}: after {what}, {k} of model {i} (torch) differs from the Gaussian process "
                                                        f"at the reported values: {diff_note(g, w)}")
            return
        for k, w in want.items():
            tol = rt if k in ("Kin", "Kcross") else max(rt, 1e-12 * cond)
            g = got[k].reshape(w.shape) if got[k].size == w.size else got[k]
            if k not in ("Kin", "Kcross") and cond > 1e7:
                continue
            if not close(g, w, tol * (1 + (0 if k in ("Kin", "Kcross") else cond * 1e-3)), tol):
                raise Violation("wrong-prediction", f"{self.who}: after {what}, {k} of model {i} differs from the Gaussian process at the "
                                                    f"reported values: {diff_note(g, w)}")

    def others_unchanged(self, but, what):
        for i, s in enumerate(self.slots):
            if i in but:
                continue
            now = self.see(i)
            if not same_bits(now, s.seen):
                for a, b, n in ((now[0], s.seen[0], "reported state"), (now[1], s.seen[1], "predictions")):
                    if not same_bits(a, b):
                        raise Violation("influenced", f"{self.who}: {what} on model {but} changed the {n} of model {i}: "
                                                      f"{short(a, 240)} instead of {short(b, 240)}")

    # ---- one operation
    def step(self, n, op):
        i = op["slot"] % len(self.slots)
        s = self.slots[i]
        o = op["op"]
        label = f"operation {n} ({o})"
        before = s.seen[0]
        self.fail, self.solves = op.get("fail"), 0
        err, new = None, None
        try:
            new = self.apply(s.model, i, op)
        except (MemoryError, np.linalg.LinAlgError) as e:
            if str(e) != "injected" and self.spec["kind"] != "hier" and not op.get("zero"):
                raise                         # an iterated scale of zero makes the matrices singular
            err = "refused" if op.get("zero") else type(e).__name__
        except RuntimeError as e:
            if not op.get("zero") or "singular" not in str(e):     # torch's kind of LinAlgError
                raise
            err = "refused"
        except ValueError as e:
            if op.get("zero") and "must be positive" in str(e):
                err = "refused"
            # without noise the matrices can be numerically singular, and interpolated length scales
            # can be negative: the objective is then not a number
            elif not ("NaN" in str(e) or "infinity" in str(e)) or not (self.spec["kind"] == "hier" or any(x["noise"] == 0.0 for x in before)):
                raise
            else:
                err = "nan"
        finally:
            self.fail = None
        touched = [i]
        if new is not None:
            self.slots.append(Slot(new))
            touched = [len(self.slots) - 1]
        elif o in ("predict", "square", "objective", "optimize", "copy", "fast"):
            touched = []
        self.others_unchanged(touched, label + (f" failing with {err}" if err else ""))
        for t in touched:
            self.look(t, label)
            if self.reflect and err == "refused":
                # data without any variation have no positive scale; a fixed one is left as it is
                keep = [[dict(x, trained=None) if self.scale_cfg(c)["kind"] == "fixed" else x for c, x in enumerate(q)]
                        for q in (before, self.slots[t].seen[0])]
                if not same_bits(*keep):
                    raise Violation("not-refused", f"{self.who}: {label}: a scale of zero was refused, and model {t} went from "
                                                   f"{short(keep[0], 300)} to {short(keep[1], 300)}")
            if op.get("zero"):
                continue
            if self.reflect and err is None:
                self.judge(op, before, self.slots[t].seen[0], label, i, t)
        self.log.append((o, err))
        if len(self.slots) > 4:
            self.slots.pop(0)

    def judge(self, op, b, a, label, i, t):
        """State transition of one operation."""
        o = op["op"]
        j = op.get("part", 0) % len(b)
        for c in range(len(b)):
            x, y = b[c], a[c]
            keep = dict(x), dict(y)
            if o == "set" and c == j:
                names = self.names(c)
                for k, (v, bd) in self.assignments(op, c).items():
                    q = names.index(k)
                    if k == "smoothness":
                        got = y["nu"]
                    else:
                        got = y["ls"][q]
                    old = x["nu"] if k == "smoothness" else x["ls"][q]
                    if not as_given(got, v, self.W.backend) and not (op.get("bad") and got == old):
                        raise Violation("not-set", f"{self.who}: {label}: {k} was set to {v}, the model reports {got}")
                for d in keep:
                    for k in ("ls", "nu", "free", "start", "fixed", "ls_fixed"):
                        d.pop(k, None)
            elif o == "scale":
                for d in keep:
                    d.pop("scale"), d.pop("trained")
                kind = self.scale_cfg(c)["kind"]
                if kind == "fixed" and x["scale"] != y["scale"]:
                    raise Violation("wrong-scale", f"{self.who}: {label}: fixed scale went from {x['scale']} to {y['scale']}")
                if kind == "analytic" and self.spec["kind"] in ("single", "multi"):
                    cfg = (self.spec["parts"][c] if self.spec["kind"] == "multi" else self.spec)["cfg"]
                    idx, nn = self.data.train_batch(op["batch"]["count"], op["batch"]["k"], op["batch"]["seed"])
                    Y = self.data.targets[nn]
                    par = {"ls": x["ls"], "nu": x.get("nu"), "noise": x["noise"]}
                    pair = ref.diffs_pair(self.data.train, nn)
                    K = ref.kern(cfg, ref.scaled_dist(cfg, pair, par), par) + x["noise"] * np.eye(pair.shape[1])
                    cond = max(np.linalg.cond(k) for k in K)
                    if cond < 1e7:
                        e = quiet_scale(cfg, par, pair, Y[:, :, c] if Y.ndim == 3 else Y)
                        single = 1e-6 * cond if self.W.backend == "torch" else 0
                        if not close(y["scale"], e, max(single, 1e-4 if loose(self.spec, b) else 1e-6), 0):
                            raise Violation("wrong-scale", f"{self.who}: {label}: scale {y['scale']}, the data give {e}")
            elif o == "optimize" and c == j:
                for n_, bd in x["free"].items():
                    v = y["start"].get(n_)
                    if v is None or not inside(v, bd):
                        raise Violation("out-of-bounds", f"{self.who}: {label}: {n_} is {v} after optimisation, bounds {bd}")
                for d in keep:
                    d.pop("start")
                    d["ls"] = [q for q, m in zip(d["ls"], self.names(c)) if m not in x["free"]] if len(x["free"]) else d["ls"]
                    if "smoothness" in x["free"]:
                        d.pop("nu")
                    if "noise" in x["free"]:
                        d.pop("noise")
            if not same_bits(*keep):
                raise Violation("wrong-transition", f"{self.who}: {label}: model {i} reported {short(keep[0], 300)}, model {t} now reports {short(keep[1], 300)}")

    def judge_objective(self, op, cfg, st, point, v, Y):
        """The objective belongs to the given values, and to the reported ones where nothing is given."""
        idx, nn = self.data.train_batch(op["batch"]["count"], op["batch"]["k"], op["batch"]["seed"])
        before = {"length_scale": st["ls"], "noise": st["noise"], "scale": st["scale"], "smoothness": st.get("nu")}
        f, seams.FAULT = seams.FAULT, None
        try:
            e, cond = dd.trial_objective(cfg, before, point, op["loss"], ref.diffs_cross(self.data.train, self.data.train, idx, nn),
                                         ref.diffs_pair(self.data.train, nn), Y[idx], Y[nn], op.get("kw", {}), op.get("mask"))
        finally:
            seams.FAULT = f
        near = dd.objective_close(cfg, v, e, cond) if self.W.backend != "torch" else \
            cond > 1e3 or math.isclose(v, e, rel_tol=1e-3, abs_tol=1e-3)
        if cond < 1e7 and not near:
            raise Violation("wrong-objective", f"{self.who}: the objective {op['loss']} of a model reporting {short(before, 200)} is {v!r} at "
                                               f"{point}, the Gaussian process gives {e!r}")

    def judge_shear(self, op, st, point, v):
        """The same for the shear kernels."""
        d, f = self.data, seams.FAULT
        idx, nn = d.train_batch(op["batch"]["count"], op["batch"]["k"], op["batch"]["seed"])
        seams.FAULT = None
        try:
            e, cond = shear_objective(self.spec, float(np.asarray(point.get("length_scale", st["ls"][0]))), st["noise"],
                                      1 if self.spec["scale"]["kind"] == "analytic" else float(np.asarray(st["scale"])), op["loss"], op.get("mask"),
                                      ref.diffs_cross(d.train, d.train, idx, nn), ref.diffs_pair(d.train, nn), d.targets[idx], d.targets[nn])
        finally:
            seams.FAULT = f
        torch = self.W.backend == "torch"
        rel = max(1e-3 if torch else 1e-6, (1e-6 if torch else 1e-11) * cond)
        if rel < 1e-2 and not math.isclose(v, e, rel_tol=rel, abs_tol=rel):
            raise Violation("wrong-objective", f"{self.who}: the objective {op['loss']} of a shear model reporting {short(st, 200)} is {v!r} at "
                                               f"{point}, the Gaussian process gives {e!r}")

    def scale_cfg(self, c):
        s = self.spec["parts"][c] if self.spec["kind"] == "multi" else self.spec
        return s["scale"] if s["kind"] == "shear" else s["cfg"]["scale"]

    def names(self, c):
        s = self.spec["parts"][c] if self.spec["kind"] == "multi" else self.spec
        if s["kind"] == "shear":
            return ["length_scale"]
        if s["kind"] == "hier":
            n = [f"length_scale{i}" for i in range(len(s["knots"]))]
            return n + (["smoothness"] if s["cfg"]["kernel"] == "matern" else [])
        return models.names_of(s["cfg"])

    def assignments(self, op, c):
        names = self.names(c)
        out = {}
        for q, v, nu, bounded in op["vals"]:
            k = names[q % len(names)]
            if k == "smoothness":
                val = math.inf if nu == "inf" else nu
                bd = [val * 0.5, val * 1.5] if bounded and val != math.inf else None
            else:
                val, bd = v, [v * 0.5, v * 2.0] if bounded else None
            out[k] = (val, bd)
        return out

    def refuse(self, op):
        """New hyperparameters: settings out of bounds or malformed are refused, others are taken."""
        W, hyper = self.W, self.W.hyper
        for what, a, width, u, kind in op["tries"]:
            lo = 0.0 if a is None else 10.0 ** a
            hi = (lo or 1.0) * (1 + width)
            gap = 1e-3 + 0.1 * u * hi
            mid = lo + u * (hi - lo)
            if kind == "scale":
                val = {"below": 0.0, "above": -mid, "crossed": -gap, "list": [mid, mid]}.get(what, gap)
                make = {"fixed": hyper.FixedScale, "analytic": hyper.AnalyticScale, "down": hyper.DownSampleScale}[["fixed", "analytic", "down"][int(u * 2.99)]]
                args, fine = (val,), what not in ("below", "above", "crossed", "list")
                call = lambda: make(val=val)
            elif kind == "table":
                vals = np.full((2, 3), mid + gap)
                if what in ("below", "above", "crossed", "list"):
                    vals[int(u * 1.99), int(width) % 3] = -gap
                args, fine = (vals,), bool((vals >= 0).all())
                call = lambda: W.noise.HeteroscedasticNoise(W("MuyGPyS._src.math").array(vals))
            else:
                args = {"below": (lo - gap, (lo, hi)), "above": (hi + gap, (lo, hi)), "crossed": (mid, (hi, lo)), "three": (mid, (lo, mid, hi)),
                        "one": (mid, (lo,)), "word": (mid, "free"), "number": (mid, lo), "text": (mid, (str(lo), str(hi))), "list": ([mid, mid], (lo, hi)),
                        "sample": ("sample",), "at-lower": (lo, (lo, hi)), "at-upper": (hi, (lo, hi)), "inside": (mid, (lo, hi)),
                        "later-below": (mid, (lo, hi)), "later-above": (mid, (lo, hi)), "negative": (mid, (-gap, hi))}[what]
                fine = what in ("at-lower", "at-upper", "inside", "later-below", "later-above") or what == "negative" and kind != "noise"
                make = W.noise.HomoscedasticNoise if kind == "noise" else hyper.ScalarParam
                call = lambda: make(*args)
            try:
                p = call()
            except (ValueError, TypeError) as e:
                if fine:
                    raise Violation("refused", f"{self.who}: a {kind} of {args} is refused: {e}")
                self.log.append(("refused", what))
                continue
            if not fine:
                raise Violation("not-refused", f"{self.who}: a {kind} of {args} is accepted as {p}")
            if kind in ("scale", "table"):
                if not close(np.asarray(arr(p()), dtype=float), np.asarray(args[0], dtype=float), 1e-6, 0):
                    raise Violation("other-hyperparameter", f"{self.who}: a {kind} of {args} reports {p()}")
                if kind == "scale":
                    try:
                        p._set(-gap if a is None else 0.0)
                    except ValueError:
                        if p() != args[0] or p.trained:
                            raise Violation("not-refused", f"{self.who}: a {kind} of {args} that refused a value reports {p()}, trained {p.trained}")
                    else:
                        raise Violation("not-refused", f"{self.who}: a {kind} of {args} takes {p()}")
                continue
            if what.startswith("later"):
                new = lo - gap if what == "later-below" else hi + gap
                try:
                    p._set_val(new)
                except ValueError:
                    self.log.append(("refused", what))
                else:
                    raise Violation("not-refused", f"{self.who}: a {kind} of {args} takes {new}")
            if not close(np.float64(p()), np.float64(args[0]), 1e-6, 0) or tuple(p.get_bounds()) != args[1] or p.fixed():
                raise Violation("other-hyperparameter", f"{self.who}: a {kind} of {args} reports {float(p())} in {p.get_bounds()}")

    def fast(self, model, b):
        """The fast posterior mean as a user makes it: coefficients of every training point, those of the closest one per test point."""
        spec, data, nat, T = self.spec, self.data, self.native, self.W("MuyGPyS.gp.tensors")
        native = nat.mm.iarray if nat is not data else np.asarray
        n, R = len(data.train), len(comps(model, spec))
        nn = data.nns(data.train, b["k"], exclude=np.arange(n))
        idx, _ = data.test_batch(b["count"], b["k"], b["seed"])
        near = data.nns(data.test[idx], 1)[:, 0]
        own = np.concatenate([np.arange(n)[:, None], nn[:, :-1]], axis=1)
        nn_f = T.fast_nn_update(native(nn.copy()))
        diffs, targets = T.make_fast_predict_tensors(native(nn.copy()), nat.train, nat.targets)
        deform = (model.models[0] if spec["kind"] == "multi" else model).kernel.deformation
        pair = deform.pairwise_tensor(nat.train, nn_f)
        if spec["kind"] == "multi":
            co = model.fast_coefficients(pair, targets)
        else:
            co = model.fast_coefficients(model.kernel(pair), targets)
        cross = model.make_predict_tensors(native(idx.copy()), nn_f[native(near.copy())], nat.test, nat.train, nat.targets)[0]
        mean = arr(model.fast_posterior_mean(cross if spec["kind"] == "multi" else model.kernel(cross), co[native(near.copy())]))
        self.log.append(("fast", arr(co), mean))
        if not self.reflect:
            return
        for what, got, want in (("neighbours", nn_f, own), ("differences", diffs, data.train[own][:, :, None] - data.train[own][:, None]),
                                ("targets", targets, data.targets[own])):
            got = arr(got)
            if got.shape != want.shape or not close(got, want, 1e-6 if nat is not data else 1e-12, 1e-6 if nat is not data else 1e-12):
                raise Violation("wrong-prediction", f"{self.who}: the {what} of the fast posterior mean: {diff_note(got, want)}")
        st = state_of(model, spec)
        for what, got, given, key in (("coefficients", arr(co)[near], (idx, own[near]), "coef"), ("means", mean, (idx, own[near]), "fast")):
            want, cond = reference(spec, st, data, b, given)
            w, tol = want[key], 1e-4 if loose(spec, st) else 1e-7
            tol = 1e-5 + 1e-6 * cond if nat is not data else tol * (1 + cond * 1e-3)
            if cond > 1e7 or tol > 1e-2:
                continue
            if got.size != w.size or not close(got.reshape(w.shape), w, tol, tol * max(1.0, np.abs(w).max(initial=0))):
                raise Violation("wrong-prediction", f"{self.who}: the fast {what} differ from the Gaussian process at the reported values: "
                                                    f"{diff_note(got.reshape(w.shape) if got.size == w.size else got, w)}")

    def apply(self, model, i, op):
        W, o, spec, data = self.W, op["op"], self.spec, self.native
        j = op.get("part", 0) % (len(spec["parts"]) if spec["kind"] == "multi" else 1)
        m = model.models[j] if spec["kind"] == "multi" else model
        if o == "set":
            kw = {k: models.scalar(W, v, b) for k, (v, b) in self.assignments(op, j).items()}
            if op.get("bad"):
                bad = {"bogus": W.hyper.ScalarParam(1.0)} if op["bad"] == "name" else {next(iter(self.names(j))): None}
                try:
                    m.kernel.set_params(**{**kw, **bad})
                except Exception as e:
                    self.log.append(("refused", type(e).__name__))
                return None
            m.kernel.set_params(**kw)
            return None
        if o == "refuse":
            self.refuse(op)
            return None
        if o == "copy":
            return copy.deepcopy(model)
        if o == "predict":
            probe(model, spec, data, dict(op["batch"], count=spec["probe"]["count"]))
            return None
        if o == "fast":
            self.fast(model, op["batch"])
            return None
        if o == "square":                     # as many points as neighbours
            try:
                got = probe(model, spec, data, op["batch"])
            except ValueError as e:
                self.square = f"{self.who}: {op['batch']['count']} points with as many neighbours: {e}"
                return None
            want, cond = reference(spec, [one_state(m, spec)], data, op["batch"])
            if not all(close(got[k], want[k], 1e-6 * (1 + cond * 1e-3), 1e-7) for k in want):
                raise Violation("wrong-prediction", f"{self.who}: {op['batch']['count']} points with as many neighbours")
            return None
        classes = op.get("loss") == "cross_entropy"
        if classes:
            data = copy.copy(data)
            data.targets = data.labels
        idx, nn, cross, pair, bt, bnt, feats = tensors(model, spec, data, op["batch"], "train")
        if spec["kind"] == "multi" and o != "scale":
            bt, bnt = bt[:, j], bnt[:, :, j]
        if o == "scale":
            if spec["kind"] == "hier":
                return None
            model.optimize_scale(pair, bnt * 0 if op.get("zero") else bnt)
            if op.get("zero") and self.reflect and any(self.scale_cfg(c)["kind"] == "analytic" for c in range(len(comps(model, spec)))):
                raise Violation("not-refused", f"{self.who}: a scale of zero was taken: {[arr(q.scale()).tolist() for q, _ in comps(model, spec)]}")
            return None
        kw = dict(loss_fn=models.loss_fn(W, op["loss"]))
        if op.get("kw"):
            kw["loss_kwargs"] = dict(op["kw"])
        if spec["kind"] == "hier":
            kw["batch_features"] = feats
        if spec["kind"] == "shear" and spec["two"]:
            kw["target_mask"] = tuple(op["mask"]) if op.get("mask") else None
        if op.get("mask"):
            bt = bt[:, op["mask"]]
        opt = getattr(W.optimize, op["opt"])
        if o == "objective":
            st = one_state(m, self.spec["parts"][j] if spec["kind"] == "multi" else spec)
            f = opt.make_obj_fn(m, bt, bnt, cross, pair, **kw)
            point = {n: b[0] + (b[1] - b[0]) * u for (n, b), u in zip(st["free"].items(), op["us"] * 10)
                     if not n.startswith(tuple(op.get("omit", [])))}
            if op.get("noiseless") and "noise" in st["free"]:
                point["noise"] = 0.0
            v = f(**point)
            if arr(v).size != 1:
                raise Violation("wrong-objective", f"{self.who}: the objective at {point} has shape {arr(v).shape}")
            self.log.append(("objective", arr(v).item()))
            if self.reflect and spec["kind"] == "single":
                self.judge_objective(op, spec["cfg"], st, point, arr(v).item(),
                                     self.data.labels if classes else self.data.targets)
            elif self.reflect and spec["kind"] == "shear":
                self.judge_shear(op, st, point, arr(v).item())
            elif self.reflect and spec["kind"] == "multi":
                self.judge_objective(op, spec["parts"][j]["cfg"], st, point, arr(v).item(), self.data.targets[:, j])
            return None
        if m.fixed():
            return None
        new = opt(m, bt, bnt, cross, pair, **kw, **op.get("okw", {}))
        if spec["kind"] != "multi":
            return new
        whole = copy.deepcopy(model)          # as the high-level API keeps component models
        whole.models[j] = new
        return whole


def quiet_scale(cfg, par, pair, Y):
    f, seams.FAULT = seams.FAULT, None
    try:
        return ref.analytic_scale(cfg, par, pair, Y, cfg["scale"].get("iterations", 1))
    finally:
        seams.FAULT = f


def play(wl, ch, seed, only=None, reflect=True):
    """Run the families' programs; only: run one of them, the others stay idle."""
    W = world(wl)
    data = models.Data(wl["data"])
    keep = fingerprint([data.train, data.test, data.targets])
    sched = Scheduler(ch, seed, switch_p0=wl.get("switch_p0", 0.5))
    fams, share = [None] * len(wl["families"]), {}

    def body(f):
        def go(actor):
            spec = wl["families"][f]["spec"]
            if only is not None and only != f:
                return
            if W.backend == "torch":          # no recording of gradients, a setting of each thread
                import torch
                torch.set_grad_enabled(False)
            fams[f] = fam = Family(W, spec, data, share, reflect)
            fam.who = f"family {f}"
            for n, op in enumerate(wl["families"][f]["ops"]):
                sched.yield_point(f"op{n}")
                fam.step(n, op)
        return go
    for f in range(len(fams)):
        a = sched.spawn(f"client{f}", body(f))
        a.modules = W.mods

    def fault(what):
        a = sched.current
        if a is None:
            return
        if wl["families"][a.idx].get("preempt", True):
            sched.yield_point()
        if fams[a.idx] is not None:
            fams[a.idx].on_solve()
    seams.FAULT, seams.SCHED = fault, sched
    try:
        core.install(W.mods)
        sched.run()
    finally:
        seams.FAULT = seams.SCHED = None
        core.install({})
    for a in sched.actors:
        if a.exc is not None:
            raise a.exc
    if fingerprint([data.train, data.test, data.targets]) != keep:
        raise Violation("input-changed", "the shared feature or target arrays were modified")
    return sched, fams


# ------------------------------------------------------------------ workloads
def gen_spec(r, d, R, kind):
    k = r.randint(3, 6)
    pb = {"count": 3 if kind == "het" else r.choice([1, 2, 3, 3, 5]), "k": k + (k == R), "seed": r.randrange(10 ** 5)}
    if kind == "shear":
        s = {"kind": "shear", "two": r.random() < 0.5, "ls": round(r.uniform(0.3, 1.5), 3), "noise": r.choice([1e-2, 0.1]),
             "scale": {"kind": r.choice(["fixed", "analytic"]), "val": round(r.uniform(0.5, 2), 3)}}
        if r.random() < 0.3:
            s["omit"], s["ls"] = ["deformation"], 1.0
        else:
            s["ls_bounds"] = [s["ls"] * 0.5, s["ls"] * 2]
        if not s["two"] and r.random() < 0.3:
            s["plain"] = True                  # the same noise for the convergence and the shears
        pb["k"] = max(4, pb["k"])
        return dict(s, probe=dict(pb, count=pb["count"] - (pb["count"] == pb["k"])))
    dd = {"d": d}
    if kind == "multi":
        first = gen_part(r, dd)
        rest = [gen_part(r, dd, kernel=first["cfg"]["kernel"], deform=first["cfg"]["deform"]) for _ in range(R - 1)]
        return {"kind": "multi", "parts": [first] + rest, "probe": dict(pb, k=pb["k"] + 3)}
    s = gen_part(r, dd)
    if kind == "het":
        s["cfg"].pop("noise_bounds", None)
        s.update(kind="het", het=[[round(r.uniform(0.01, 0.3), 4) for _ in range(pb["k"])] for _ in range(3)])
        s["omit"] = [x for x in s["omit"] if x != "noise"]
        if not models.free_of(s["cfg"]):
            s["cfg"]["ls_bounds"] = [[v * 0.5, v * 2] for v in s["cfg"]["ls"]]
            s["omit"] = [x for x in s["omit"] if x != "deformation"]
    if kind == "hier":
        n = r.randint(2, 4)
        s["cfg"].update(deform="iso", ls=[1.0], ls_bounds=[None])
        s.update(kind="hier", knots=[round(r.uniform(0.5, 2), 3) for _ in range(n)], knot_seed=r.randrange(10 ** 6), d=d)
        s["knot_bounds"] = [[v * 0.5, v * 2] if r.random() < 0.7 else None for v in s["knots"]]
    s["probe"] = pb
    if R > 1:                 # the scale can only be estimated from a single response
        s["cfg"]["scale"] = {"kind": "fixed", "val": s["cfg"]["scale"].get("val", 1.0)}
    return s


def gen_part(r, d, **kw):
    c = models.gen_cfg(r, d["d"], free="some" if r.random() < 0.8 else "none", scale=r.choice(["fixed", "analytic", "analytic"]), **kw)
    s = {"kind": "single", "cfg": c, "omit": []}
    if r.random() < 0.55:
        for o in ("noise", "scale", "deformation", "smoothness"):
            if r.random() < 0.4:
                s["omit"].append(o)
    if kw.get("deform") in ("aniso", "diff") or (c["deform"] != "iso" and r.random() < 0.7):
        s["omit"] = [o for o in s["omit"] if o != "deformation"]
    if "noise" in s["omit"]:
        c["noise"] = 0.0
        c.pop("noise_bounds", None)
        if r.random() < 0.4:
            c["null"] = True
    if "scale" in s["omit"]:
        c["scale"] = {"kind": "fixed", "val": 1.0}
    if "deformation" in s["omit"]:
        c.update(deform="iso", ls=[1.0], ls_bounds=[None])
    if "smoothness" in s["omit"] and c["kernel"] == "matern":
        c["nu"] = 0.5
        c.pop("nu_bounds", None)
    if r.random() < 0.3:
        s["shared"] = True
    return s


def gen_op(r, spec, R, faults):
    p = spec["probe"]
    kind = spec["kind"]
    o = r.choice(["set", "set", "set", "scale", "scale", "optimize", "optimize", "copy", "predict", "objective"])
    if faults and r.random() < 0.06:
        o = "refuse"
    op = {"op": o, "slot": r.randrange(6)}
    if kind == "multi":
        op["part"] = r.randrange(R)
    if o == "set":
        op["vals"] = [[r.randrange(6), round(r.uniform(0.4, 2.5), 3), r.choice([0.5, 1.5, 2.5, "inf", 0.8, 1.2]), r.random() < 0.4]
                      for _ in range(r.randint(1, 3))]
        if faults and r.random() < 0.25:
            op["bad"] = r.choice(["name", "none"])
        return op
    if o == "refuse":
        op["tries"] = [[r.choice(["below", "above", "crossed", "three", "one", "word", "number", "text", "list", "sample", "at-lower", "at-upper", "inside",
                                  "later-below", "later-above", "negative"]),
                        r.choice([None, round(r.uniform(-2, 1), 3), round(r.uniform(-2, 1), 3)]), round(r.uniform(0.5, 2), 3), round(r.uniform(0, 1), 3),
                        r.choice(["scalar", "scalar", "noise", "scale", "table"])] for _ in range(r.randint(1, 4))]
        return op
    if o == "copy":
        return op
    op["batch"] = {"count": 3 if kind == "het" else r.randint(1, 6), "k": p["k"], "seed": r.randrange(10 ** 5)}
    if kind != "het" and p["count"] > 20 and o != "optimize":
        op["batch"]["count"] = r.randint(20, p["count"])
    if o == "scale" and faults and r.random() < 0.1:
        op["zero"] = True
    if o == "predict" and kind in ("single", "multi") and r.random() < 0.4:
        op["op"] = "fast"
    if kind == "shear" and r.random() < 0.02:
        return dict(op, op="square", batch=dict(op["batch"], count=p["k"]))
    if kind == "shear" and op["batch"]["count"] == p["k"]:
        op["batch"]["count"] += 1          # the shear kernels tell cross from pair tensors by b != k
    if o in ("optimize", "objective"):
        l = r.choice(["mse", "lool", "lool", "pseudo_huber", "looph"])
        if kind in ("shear",):
            l = r.choice(["mse", "lool"]) if not spec["two"] else r.choice(["mse", "lool"])
        if kind == "single" and R > 1 and r.random() < 0.25:
            l = "cross_entropy"
        op["loss"] = l
        if l in ("pseudo_huber", "looph") and r.random() < 0.4:
            op["kw"] = {"boundary_scale": round(r.uniform(0.3, 5), 2)}
        if kind == "shear" and spec["two"] and r.random() < 0.5:
            op["mask"] = r.choice([[1, 2], [0, 2], [2], [2, 0]])
        if o == "objective":
            op.update(opt="L_BFGS_B_optimize", us=[round(r.random(), 3) for _ in range(3)])
            if r.random() < 0.3:
                op["omit"] = r.choice([["length_scale"], ["noise"], ["smoothness"], ["length_scale0"], ["length_scale1", "noise"], ["length_scale", "noise"], ["length_scale", "smoothness"],
                                       ["length_scale", "smoothness", "noise"]])
            if r.random() < 0.15:
                op["noiseless"] = True
        elif r.random() < 0.75:
            op.update(opt="L_BFGS_B_optimize", okw={"options": {"maxfun": r.choice([4, 8, 15])}})
        else:
            op.update(opt="Bayes_optimize", okw={"init_points": r.randint(1, 2), "n_iter": r.randint(1, 2)})
            if r.random() < 0.5:
                op["okw"]["random_state"] = r.choice([0, r.randrange(1000)])
    if faults and r.random() < 0.4:
        hi = {"scale": 4, "predict": 4, "fast": 2, "objective": 3, "optimize": 30}[o]
        op["fail"] = {"what": r.choice(["linalg", "memory"]), "at": r.randint(1, hi)}
    return op


def torch_only(wl):
    """A history for the torch backend, which has no optimisers and knows the simple smoothnesses only."""
    nus = [0.5, 1.5, 2.5, "inf"]
    for f in wl["families"]:
        spec, smooth = f["spec"], False
        for s in [] if spec["kind"] == "shear" else spec["parts"] if spec["kind"] == "multi" else [spec]:
            c = s["cfg"]
            smooth = smooth or c["kernel"] == "matern"
            c.pop("nu_bounds", None)
            if c["kernel"] == "matern" and c["nu"] not in nus:
                c["nu"] = nus[int(c["nu"] * 1000) % 4]
            if not models.free_of(c) and s["kind"] == "het":
                c["ls_bounds"] = [[v * 0.5, v * 2] for v in c["ls"]]
                s["omit"] = [x for x in s["omit"] if x != "deformation"]
        for op in f["ops"]:
            if op["op"] == "optimize":
                op.update(op="objective", opt="L_BFGS_B_optimize", us=[0.25, 0.5, 0.75])
            if op.get("loss") == "cross_entropy" and wl["data"]["R"] != 2:
                op["loss"] = "mse"            # of more than two classes each backend has its own cross entropy
            if op["op"] == "square":
                op.update(op="predict", batch=dict(op["batch"], count=op["batch"]["k"] + 1))
            for v in op.get("vals", []):
                if v[2] not in nus:
                    v[2] = nus[int(v[2] * 10) % 4]
                v[3] = v[3] and not smooth
    return dict(wl, backend="torch")


def maybe_torch(r, wl, p):
    lacks = [f["spec"]["kind"] == "hier" or f["spec"].get("two") for f in wl["families"]]
    return torch_only(wl) if r.random() < p and not any(lacks) else wl


def gen(r, nfam, nops, faults):
    d = r.choice([2, 2, 3]) if r.random() < 0.95 else 11
    R = r.choice([1, 1, 2, 3])
    kinds = ["single", "single", "het", "hier"] if R == 1 else ["multi", "multi", "single"]
    if R == 3 and d == 2:
        kinds += ["shear", "shear"]
    data = {"seed": r.randrange(10 ** 6), "train": r.randint(16, 30), "test": r.randint(6, 12), "d": d, "R": R}
    if R == 1 and r.random() < 0.5:
        data["flat_targets"] = True
    models.special(r, data, ("on_train", "grid"))
    big = r.random() < 0.02
    if big:
        data.update(train=r.randint(120, 300), test=r.randint(60, 150), big=True)
    fams = []
    for _ in range(nfam):
        spec = gen_spec(r, d, R, r.choice(kinds))
        if big and spec["kind"] in ("single", "multi", "hier"):
            spec["probe"].update(count=r.randint(30, 150), k=r.choice([spec["probe"]["k"], r.randint(12, 40)]))
        fams.append({"spec": spec, "ops": [gen_op(r, spec, R, faults) for _ in range(r.randint(2, nops))],
                     "preempt": r.random() < 0.7})
    return {"data": data, "families": fams, "switch_p0": r.choice([0.2, 0.5, 0.8])}


class Histories(Check):
    real, stub = REAL, STUB
    assumptions = ["failures reach the library through its linear solves and its arguments",
                   "the clients run in one process and own their models"]

    def preload(self):
        loader.load("numpy")
        world({"backend": "torch"})

    def shrinks(self, wl):
        if len(wl["families"]) > 1:
            for f in range(len(wl["families"])):
                w = copy.deepcopy(wl)
                del w["families"][f]
                yield w
        for f, fam in enumerate(wl["families"]):
            for i in range(len(fam["ops"])):
                w = copy.deepcopy(wl)
                del w["families"][f]["ops"][i]
                yield w
            for i, op in enumerate(fam["ops"]):
                for k in ("fail", "bad"):
                    if k in op:
                        w = copy.deepcopy(wl)
                        del w["families"][f]["ops"][i][k]
                        yield w
                if len(op.get("vals", [])) > 1:
                    w = copy.deepcopy(wl)
                    w["families"][f]["ops"][i]["vals"] = op["vals"][:1]
                    yield w
            if fam.get("preempt"):
                w = copy.deepcopy(wl)
                w["families"][f]["preempt"] = False
                yield w

    def result(self, wl, sched, fams, runs=1):
        faults = {}
        for fam in wl["families"]:
            for op in fam["ops"]:
                if op.get("bad"):
                    faults["refused_set"] = faults.get("refused_set", 0) + 1
        n = sum(f.failed for f in fams if f)
        if n:
            faults["failed_solve"] = n
        dig = fingerprint([sched.digest(), [f.log for f in fams if f]])
        ops = sum(len(f["ops"]) for f in wl["families"])
        return Result(dig, ops > 0, sched.switches, sched.steps, sched.now, faults,
                      dict(operations=ops, families=len(fams), models=sum(len(f.slots) for f in fams if f)))


class C13(Histories):
    id, quick, thorough = "C13", 1000, 40000
    rule = ("one evaluation = one interleaving of 2-4 clients' histories, compared bit for bit with each client running alone in a fresh "
            "process; non-trivial = at least one operation; distinct by a hash of the schedule and of everything reported and predicted")

    def gen(self, r, i, tier):
        return maybe_torch(r, gen(r, r.randint(2, 3 if tier == "quick" else 4), 5 if tier == "quick" else 9, True), 0.12)

    def run(self, wl, ch, seed):
        sched, fams = play(wl, ch, seed, reflect=False)
        for f in range(len(fams)):
            _, alone = play(wl, core.Chooser(seed, script=[]), seed, only=f, reflect=False)
            a, b = fams[f].log, alone[f].log
            for n, (x, y) in enumerate(zip(a, b)):
                if not same_bits(x, y):
                    raise Violation("influenced", f"family {f}, record {n} ({short(x[0], 40)}): {short(self.first(x, y), 400)} (alone second)")
            if len(a) != len(b):
                raise Violation("influenced", f"family {f} has {len(a)} records, alone {len(b)}")
        return self.result(wl, sched, fams)

    @staticmethod
    def first(x, y):
        """The first differing part of two records."""
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y):
            for a, b in zip(x, y):
                if not same_bits(a, b):
                    return C13.first(a, b)
        if isinstance(x, dict) and isinstance(y, dict):
            for k in x:
                if not same_bits(x[k], y.get(k)):
                    return k, C13.first(x[k], y.get(k))
        if isinstance(x, np.ndarray):
            return diff_note(x, y)
        return x, y


class C17(Histories):
    id, quick, thorough = "C17", 2400, 100000
    rule = ("one evaluation = one history of operations on 1-2 models and their copies; after every operation kernel, mean, variance and "
            "fast mean are compared with a newly built model and with the reference Gaussian process at the reported values; non-trivial = "
            "at least one operation; distinct by a hash of the schedule and of everything reported and predicted")

    def gen(self, r, i, tier):
        return maybe_torch(r, gen(r, r.choice([1, 1, 2]), 7 if tier == "quick" else 14, True), 0.2)

    def run(self, wl, ch, seed):
        sched, fams = play(wl, ch, seed, reflect=True)
        for f in fams:
            if f and f.square:
                self.finding("shear-as-many-points-as-neighbours", "wrong-prediction", f.square)
        return self.result(wl, sched, fams)
