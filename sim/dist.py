"""Distributed world: N simulated MPI ranks run one SPMD program of library operations."""
import random
import sys

import numpy as np

from . import core, loader, models, mpi, ref, seams
from .core import Chooser, Scheduler, SimAbort, SimCrash, Violation

UNSUPPORTED = ("fast_precompute", "fast_mean", "fast_tensors", "fast_nn_update", "het_noise", "het_variance", "het_scale", "het_objective",
               "multi_fast_precompute", "multi_fast_mean", "cross_differences", "pair_differences", "fast_regressor")


class Ctx:
    """What one process (a rank, or the serial oracle) holds while it runs a program."""

    def __init__(self, W, wl, data, rank=None):
        self.W, self.wl, self.data, self.rank = W, wl, data, rank
        self.models = {}
        self.vals = {}

    def model(self, i):
        if i not in self.models:
            cfg = self.wl["models"][i]
            if isinstance(cfg, list):
                self.models[i] = models.build_multi(self.W, cfg)
            else:
                self.models[i] = models.build(self.W, cfg)
        return self.models[i]


def batch_of(ctx, b, kind):
    d = ctx.data
    return d.train_batch(b["count"], b["k"], b["seed"]) if kind == "train" else d.test_batch(b["count"], b["k"], b["seed"])


HELD = None         # while a job runs: (rank, array as returned, copy taken at once)


def cut(a):
    c = np.array(a, copy=True)
    if HELD is not None and isinstance(a, np.ndarray):
        HELD.append((core_rank(), a, c))
    return c


def core_rank():
    s = seams.SCHED
    return s.current.name if s is not None and s.current is not None else "?"


def kwargs_of(op):
    """What a caller adds to an objective or a training; what it leaves out takes its default."""
    kw = {}
    if op.get("kw"):
        kw["loss_kwargs"] = dict(op["kw"])
    if op.get("mask"):
        kw["target_mask"] = tuple(op["mask"])
    return kw


def masked(op, bt):
    return bt[:, list(op["mask"])] if op.get("mask") else bt


def train_tensors(ctx, op, labels=False):
    m = ctx.model(op["m"])
    idx, nn = batch_of(ctx, op["batch"], "train")
    targets = ctx.data.labels if labels else ctx.data.targets
    cross, pair, bt, bnt = m.make_train_tensors(idx, nn, ctx.data.train, targets)
    return m, idx, nn, cross, pair, bt, bnt


def traced_loss(ctx, name, log):
    """A LossFn equal to the named one that records every trial the optimiser evaluates."""
    L = ctx.W.loss
    base = models.loss_fn(ctx.W, name)
    maker = L.make_var_predict_and_loss_fn if name in models.VAR_LOSSES else L.make_raw_predict_and_loss_fn

    def make(fn, *a, **k):
        inner = maker(fn, *a, **k)

        def traced(Kin, Kcross, *aa, **kw):
            v = inner(Kin, Kcross, *aa, **kw)
            log.append(({k: float(np.asarray(x)) for k, x in kw.items() if np.ndim(x) == 0 and x is not None}, float(v)))
            return v
        return traced
    return L.LossFn(lambda *a, **k: base(*a, **k), make)


def exec_op(ctx, op, given=None):
    """Run one operation; returns (rows, same): arrays to be joined / values replicated."""
    W, d = ctx.W, ctx.data
    o = op["op"]
    if o == "predict_tensors":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "test")
        cross, pair, bnt = m.make_predict_tensors(idx, nn, d.test, d.train, d.targets)
        return dict(cross=cut(cross), pair=cut(pair), nn_targets=cut(bnt)), {}
    if o == "predict_tensors_loo":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "train")
        cross, pair, bnt = m.make_predict_tensors(idx, nn, None, d.train, d.targets)
        return dict(cross=cut(cross), pair=cut(pair), nn_targets=cut(bnt)), {}
    if o == "train_tensors":
        m, idx, nn, cross, pair, bt, bnt = train_tensors(ctx, op)
        return dict(cross=cut(cross), pair=cut(pair), targets=cut(bt), nn_targets=cut(bnt)), {}
    if o == "deform_pair":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "train")
        return dict(pair=cut(m.kernel.deformation.pairwise_tensor(d.train, nn))), {}
    if o == "deform_cross":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "test")
        return dict(cross=cut(m.kernel.deformation.crosswise_tensor(d.test, d.train, idx, nn))), {}
    if o == "whole":                 # every rank asks for the whole tensors, without the others
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "train")
        calls = lambda: mpi.RT.rank_calls[ctx.rank] if mpi.RT is not None else 0
        c0, D = calls(), m.kernel.deformation
        return {}, dict(pair=np.array(D.pairwise_tensor(d.train, nn, disable_mpi=True)),
                        cross=np.array(D.crosswise_tensor(d.train, d.train, idx, nn, disable_mpi=True)), messages=calls() - c0)
    if o == "gather":                # the pieces put together again on every rank
        m, idx, nn, cross, pair, bt, bnt = train_tensors(ctx, op)
        join = W("MuyGPyS._src.mpi_utils")._consistent_unchunk_tensor
        return {}, dict(cross=np.array(join(cross)), pair=np.array(join(pair)), targets=np.array(join(bt)), nn_targets=np.array(join(bnt)),
                        none=join(None))
    if o == "scatter":               # tensors that every rank made itself, as rank 0 has them
        idx, nn = batch_of(ctx, op["batch"], "train")
        split = W("MuyGPyS._src.mpi_utils")._consistent_chunk_tensor
        mine = (lambda a: a if ctx.rank in (None, 0) else a + ctx.rank)
        return dict(targets=cut(split(mine(d.targets[idx]))), nn_targets=cut(split(mine(d.targets[nn])))), {}
    if o == "batch_features":
        idx, nn = batch_of(ctx, op["batch"], "train")
        return dict(feat=cut(W.tensors.batch_features_tensor(d.train, idx))), {}
    if o == "het_tensor":
        idx, nn = batch_of(ctx, op["batch"], "train")
        return dict(het=cut(W.tensors.make_heteroscedastic_tensor(d.het, nn))), {}
    if o == "posterior":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "test")
        cross, pair, bnt = m.make_predict_tensors(idx, nn, d.test, d.train, d.targets)
        if isinstance(ctx.wl["models"][op["m"]], list):
            mean = m.posterior_mean(pair, cross, bnt)
            var = m.posterior_variance(pair, cross)
            return dict(mean=cut(mean), var=cut(var)), {}
        Kin, Kc = m.kernel(pair), m.kernel(cross)
        return dict(Kin=cut(Kin), Kcross=cut(Kc), mean=cut(m.posterior_mean(Kin, Kc, bnt)),
                    var=cut(m.posterior_variance(Kin, Kc))), {}
    if o == "shear":
        return exec_shear(ctx, op)
    if o == "from_indices":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "test")
        F = W.from_indices
        if op.get("which") == "mean":
            return dict(mean=cut(F.posterior_mean_from_indices(m, idx, nn, d.test, d.train, d.targets))), {}
        if op.get("which") == "var":
            return dict(var=cut(F.posterior_variance_from_indices(m, idx, nn, d.test, d.train, d.targets))), {}
        mean, var = F.regress_from_indices(m, idx, nn, d.test, d.train, d.targets)
        return dict(mean=cut(mean), var=cut(var)), {}
    if o == "loss":
        labels = op["loss"] == "cross_entropy"
        m, idx, nn, cross, pair, bt, bnt = train_tensors(ctx, op, labels)
        Kin, Kc = m.kernel(pair), m.kernel(cross)
        mean = m.posterior_mean(Kin, Kc, bnt)
        fn = models.loss_fn(W, op["loss"])
        kw = dict(op.get("kw", {}))
        if op["loss"] in models.VAR_LOSSES:
            var = m.posterior_variance(Kin, Kc)
            if op["loss"] == "lool_unscaled":
                v = fn(mean, bt, var, **kw)
            else:
                v = fn(mean, bt, var, op.get("sigma", 1.0), **kw)
        else:
            v = fn(mean, bt, **kw)
        return {}, dict(loss=float(v))
    if o == "loss_split":
        fn = models.loss_fn(W, op["loss"])
        p, t, v = split_arrays(op, ctx.rank)
        args = (p, t)
        if op["loss"] in models.VAR_LOSSES:
            args = (p, t, v) if op["loss"] == "lool_unscaled" else (p, t, v, op.get("sigma", 1.0))
        return {}, dict(loss=float(fn(*args, **op.get("kw", {}))))
    if o == "objective":
        labels = op["loss"] == "cross_entropy"
        m, idx, nn, cross, pair, bt, bnt = train_tensors(ctx, op, labels)
        opt = W.optimize.L_BFGS_B_optimize
        f = opt.make_obj_fn(m, masked(op, bt), bnt, cross, pair, loss_fn=models.loss_fn(W, op["loss"]), **kwargs_of(op))
        return {}, dict(obj=float(f(**op["point"])))
    if o in ("scale", "scale_split"):
        if o == "scale":
            m, idx, nn, cross, pair, bt, bnt = train_tensors(ctx, op)
        else:
            m = ctx.model(op["m"])
            cfg = ctx.wl["models"][op["m"]]
            idx, nn = batch_of(ctx, op["batch"], "train")
            if ctx.rank is not None:
                lo = sum(op["sizes"][:ctx.rank])
                nn = nn[lo:lo + op["sizes"][ctx.rank]]
            pair, bnt = ref.diffs_pair(d.train, nn), d.targets[nn]
            if cfg["deform"] == "iso":
                pair = (pair ** 2).sum(-1)
                pair = pair if cfg["metric"] == "F2" else np.sqrt(pair)
        m2 = m.optimize_scale(pair, bnt)
        ctx.models[op["m"]] = m2
        if isinstance(ctx.wl["models"][op["m"]], list):
            return {}, dict(scale=[float(np.asarray(x.scale())) for x in m2.models])
        return {}, dict(scale=float(np.asarray(m2.scale())), trained=bool(m2.scale.trained))
    if o == "optimize":
        labels = op["loss"] == "cross_entropy"
        m, idx, nn, cross, pair, bt, bnt = train_tensors(ctx, op, labels)
        log = []
        opt = getattr(W.optimize, op["opt"])
        before = models.hyper_state(m)
        m2 = opt(m, masked(op, bt), bnt, cross, pair, loss_fn=traced_loss(ctx, op["loss"], log),
                 **kwargs_of(op), **op.get("okw", {}))
        after = models.hyper_state(m)
        ctx.models[op["m"]] = m2
        return {}, dict(before=before, state=models.hyper_state(m2), trace=log, unchanged=(before == after))
    if o == "optimize_from_indices":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "train")
        log = []
        before = models.hyper_state(m)
        m2 = W.from_indices.optimize_from_indices(
            m, idx, nn, d.train, d.targets, loss_fn=traced_loss(ctx, op["loss"], log),
            opt_fn=getattr(W.optimize, op["opt"]), **op.get("okw", {}))
        after = models.hyper_state(m)
        ctx.models[op["m"]] = m2
        return {}, dict(before=before, state=models.hyper_state(m2), trace=log, unchanged=(before == after))
    if o == "sample_param":
        b = op["bounds"]
        if b is None:
            try:
                W.hyper.ScalarParam(op["how"])
            except ValueError:
                return {}, dict(refused=True)
            return {}, dict(refused=False)
        if op["what"] == "noise":
            p = W.noise.HomoscedasticNoise(op["how"], tuple(b))
            return {}, dict(val=float(p()))
        if op["what"] == "vector":
            p = W.hyper.VectorParam(*[W.hyper.ScalarParam(op["how"], tuple(b)) for _ in range(op["n"])])
            return {}, dict(val=[float(x) for x in np.asarray(p())])
        p = W.hyper.ScalarParam(op["how"], tuple(b))
        return {}, dict(val=float(p()))
    if o == "sample_model":
        cfg = dict(ctx.wl["models"][op["m"]])
        H, D, K, N = W.hyper, W.deformation, W.kernels, W.noise
        lsb = [b or [0.2, 3.0] for b in (cfg.get("ls_bounds") or [None] * len(cfg["ls"]))]
        ps = [H.ScalarParam(op["how"], tuple(b)) for b in lsb]
        met = D.F2 if cfg["metric"] == "F2" else D.l2
        deform = D.Anisotropy(met, length_scale=H.VectorParam(*ps)) if cfg["deform"] == "aniso" else \
            (D.Isotropy if cfg["deform"] == "iso" else D.DifferenceIsotropy)(met, length_scale=ps[0])
        kern = K.RBF(deformation=deform) if cfg["kernel"] == "rbf" else \
            K.Matern(smoothness=H.ScalarParam(op["how"], (0.4, 2.0)), deformation=deform)
        noise = N.HomoscedasticNoise(op["how"], (0.001, 0.2))
        m = W.gp.MuyGPS(kernel=kern, noise=noise, scale=models.build_parts(W, cfg)["scale"])
        ctx.models[op["m"]] = m
        return {}, dict(state=models.hyper_state(m), bounds=lsb)
    if o == "sampled_train":
        # the batch itself is drawn at random by the caller (every rank draws; rank 0's counts)
        m = ctx.model(op["m"])
        np.random.seed(op["batch"]["seed"] + 100003 * (ctx.rank or 0))
        nb = W.neighbors.NN_Wrapper(d.train, op["batch"]["k"], nn_method="exact", algorithm="ball_tree")
        idx, nn = W.batch.sample_batch(nb, op["batch"]["count"], d.spec["train"])
        cross, pair, bt, bnt = m.make_train_tensors(idx, nn, d.train, d.targets)
        return dict(cross=cut(cross), pair=cut(pair), targets=cut(bt), nn_targets=cut(bnt)), {}
    if o == "regress":
        # the whole workflow; every rank draws its own batch, rank 0's counts
        cfg, b = ctx.wl["models"][op["m"]], op["batch"]
        parts = [models.build_parts(W, c) for c in cfg] if isinstance(cfg, list) else models.build_parts(W, cfg)
        nnk = {"nn_method": "exact", "algorithm": "ball_tree"}
        np.random.seed(b["seed"] + 100003 * (ctx.rank or 0))
        if given is not None:
            m = adopted_model(W, cfg, given["state"])
            nb = W.neighbors.NN_Wrapper(d.train, b["k"], **nnk)
            mean, var, _ = W.regress.regress_any(m, d.test, d.train, nb, d.targets)
            return dict(mean=cut(mean), var=cut(var)), given
        m, nb, mean, var = W.regress.do_regress(
            d.test, d.train, d.targets, nn_count=b["k"], batch_count=b["count"], loss_fn=models.loss_fn(W, op["loss"]),
            opt_fn=getattr(W.optimize, op["opt"]), k_kwargs=parts, nn_kwargs=nnk, opt_kwargs=dict(op["okw"]))
        return dict(mean=cut(mean), var=cut(var)), dict(state=[models.hyper_state(x) for x in (m.models if isinstance(cfg, list) else [m])])
    if o == "unsupported":
        m = ctx.model(op["m"])
        idx, nn = batch_of(ctx, op["batch"], "train")
        calls = lambda: mpi.RT.rank_calls[ctx.rank] if mpi.RT is not None else 0
        c0 = calls()
        try:
            if op.get("sizes") and ctx.rank is not None:
                # the pieces that the ranks of a user's own split hold; some are empty
                rows = np.arange(op["sizes"][ctx.rank]) % max(1, len(idx))
                idx, nn = idx[rows], nn[rows]
            v = run_unsupported(ctx, m, op["which"], idx, nn)
        except NotImplementedError:
            return {}, dict(refused=True, messages=calls() - c0)
        return {}, dict(refused=False, got=type(v).__name__, messages=calls() - c0)
    raise core.HarnessError(f"unknown op {o}")


def exec_shear(ctx, op):
    """Convergence and shears predicted, and their training objective, on data of the operation's own."""
    W, d, b = ctx.W, models.Data(op["data"]), op["batch"]
    E, D = W("MuyGPyS.gp.kernels.experimental"), W.deformation
    deform = D.DifferenceIsotropy(D.F2, length_scale=models.scalar(W, op["ls"], [op["ls"] * 0.5, op["ls"] * 2]))
    m = W.gp.MuyGPS(kernel=(E.ShearKernel2in3out if op["two"] else E.ShearKernel)(deformation=deform),
                    noise=W.noise.HomoscedasticNoise(op["noise"]) if op["two"] or op.get("plain") else W.noise.ShearNoise33(op["noise"]),
                    scale=W.hyper.AnalyticScale(val=op["val"], iteration_count=op["fit"]) if op.get("fit") else W.hyper.FixedScale(val=op["val"]))
    order = lambda t: t.swapaxes(-2, -1)[:, 1 if op["two"] else 0:]
    if op.get("loss"):
        idx, nn = d.train_batch(b["count"], b["k"], b["seed"])
        cross, pair, bt, bnt = m.make_train_tensors(idx, nn, d.train, d.targets)
        f = W.optimize.L_BFGS_B_optimize.make_obj_fn(m, bt, order(bnt), cross, pair, loss_fn=models.loss_fn(W, op["loss"]))
        return {}, dict(obj=float(f(length_scale=op["point"])))
    idx, nn = d.test_batch(b["count"], b["k"], b["seed"])
    cross, pair, bnt = m.make_predict_tensors(idx, nn, d.test, d.train, d.targets)
    try:
        fitted = {}
        if op.get("fit"):
            m = m.optimize_scale(pair, order(bnt))
            fitted = dict(scale=float(m.scale()))
        Kin, Kc = m.kernel(pair), m.kernel(cross)
        return dict(cross=cut(cross), pair=cut(pair), Kin=cut(Kin), Kcross=cut(Kc), mean=cut(m.posterior_mean(Kin, Kc, order(bnt))),
                    var=cut(m.posterior_variance(Kin, Kc))), fitted
    except ValueError as e:
        if not op.get("square") or len(cross) != b["k"]:
            raise
        return {}, dict(square=f"{type(e).__name__}: {e}")


def split_arrays(op, rank=None):
    """Predictions, targets and variances of a loss_split operation (a rank's part, or all)."""
    g = np.random.RandomState(op["seed"])
    n, R = sum(op["sizes"]), op["R"]
    p = g.normal(size=(n, R))
    t = p + g.normal(size=(n, R))
    if op["loss"] == "cross_entropy":
        hot = g.randint(R, size=n)
        t = np.where(np.arange(R)[None, :] == hot[:, None], 0.5, -0.5)
    v = g.uniform(0.05, 2.0, size=n)
    kind = op.get("errors")
    if kind == "none":
        t = p.copy()
    elif kind == "some":
        t[::2] = p[::2]
    elif kind == "huge":
        t = p + 10.0 ** g.randint(3, 8) * (t - p)
    elif kind == "tiny":
        t, v = p + 1e-5 * (t - p), v * 1e-6
    if op["flat"]:
        p, t = p[:, 0], t[:, 0]
    if rank is not None:
        lo = sum(op["sizes"][:rank])
        s = slice(lo, lo + op["sizes"][rank])
        p, t, v = p[s], t[s], v[s]
    return p.copy(), t.copy(), v.copy()


def run_unsupported(ctx, m, which, idx, nn):
    W, d = ctx.W, ctx.data
    g = np.random.RandomState(0)
    K = np.eye(nn.shape[1])[None] + np.zeros((len(idx), 1, 1))
    if which == "fast_precompute":
        return m.fast_coefficients(K, np.ones((len(idx), nn.shape[1])))
    if which == "fast_mean":
        return m.fast_posterior_mean(np.ones((len(idx), nn.shape[1])), np.ones((len(idx), nn.shape[1])))
    if which == "fast_tensors":
        return W.tensors.make_fast_predict_tensors(nn, d.train, d.targets)
    if which == "fast_nn_update":
        return W.tensors.fast_nn_update(nn)
    if which in ("cross_differences", "pair_differences"):
        T = W("MuyGPyS._src.gp.tensors")
        f = getattr(T, "_crosswise_differences" if which[0] == "c" else "_pairwise_differences", None)
        if f is None:
            raise NotImplementedError("gone")
        pts = d.train.reshape(len(d.train), -1)
        return f(pts[idx], pts[nn]) if which[0] == "c" else f(pts[nn])
    if which == "fast_regressor":
        pts = d.train.reshape(len(d.train), -1)
        nb = W.neighbors.NN_Wrapper(pts, nn.shape[1], nn_method="exact", algorithm="ball_tree")
        return W("MuyGPyS.examples.fast_posterior_mean").make_fast_regressor(m, nb, pts, d.targets)
    cfg = ctx.wl["models"][0]
    cfg = cfg[0] if isinstance(cfg, list) else cfg
    ones = np.ones(nn.shape)
    pts = d.train.reshape(len(d.train), -1)
    pair, cross = pts[nn][:, :, None, :] - pts[nn][:, None, :, :], pts[idx][:, None, :] - pts[nn]
    if cfg["deform"] == "iso":
        pair, cross = [(a ** 2).sum(-1) if cfg["metric"] == "F2" else np.sqrt((a ** 2).sum(-1)) for a in (pair, cross)]
    if which.startswith("multi"):
        mm = models.build_multi(W, [cfg, cfg])
        two = np.ones(nn.shape + (2,))
        return mm.fast_coefficients(pair, two) if which.endswith("precompute") else mm.fast_posterior_mean(cross, two)
    if which.startswith("het"):
        parts = models.build_parts(W, cfg)
        parts["noise"] = W.noise.HeteroscedasticNoise(np.full(K.shape[:2], 0.1))
        if which == "het_scale":
            parts["scale"] = W.hyper.AnalyticScale()
        mm = W.gp.MuyGPS(**parts)
        if which == "het_scale":
            return mm.optimize_scale(pair, ones)
        if which == "het_objective":
            f = W.optimize.L_BFGS_B_optimize.make_obj_fn(mm, ones[:, 0], ones, cross, pair, loss_fn=W.loss.lool_fn)
            return f(**{n: v for n, v in zip(*mm.get_opt_params()[:2])})
        if which == "het_variance":
            return mm.posterior_variance(K, ones)
        return mm.posterior_mean(K, ones, ones)
    raise core.HarnessError(which)


def same_array(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


class Outcome:
    """Result of one simulated job."""


def run_job(wl, chooser, seed, trace=None):
    """wl: workload dict with ranks, data, models, ops, net, faults. Returns an Outcome.

    trace: rank -> trace function of that rank's library code.
    """
    seams.setup()
    n = wl["ranks"]
    net = wl.get("net", {})
    data = models.Data(wl["data"])
    worlds = []
    for r in range(n):
        mpi.LOAD_RANK = (r, n)
        worlds.append(loader.load("mpi", mpi.MODULES, public=loader.PUBLIC))
    mpi.LOAD_RANK = None
    sched = Scheduler(chooser, seed, switch_p0=net.get("switch_p0", 0.5), max_steps=net.get("max_steps", 400000))
    rt = mpi.Runtime(sched, n, eager_p0=net.get("eager_p0", 0.5), eager_mode=net.get("send", "mixed"),
                     early_p0=net.get("early_p0", 0.5))
    for f in wl.get("faults", []):
        if f["kind"] == "link":
            rt.dead_links.add((f["src"], f["dst"]))
        else:
            rt.faults.setdefault(f["rank"], []).append((f["at"], f["kind"]))
    stalled = set(net.get("stalled", []))
    results = [[] for _ in range(n)]
    ctxs = []

    def body(r):
        def f(actor):
            ctx = ctxs[r]
            for i, op in enumerate(wl["ops"]):
                try:
                    rows, same = exec_op(ctx, op)
                    results[r].append(("ok", rows, same))
                except Exception as e:      # as in a user program, the rank dies of it
                    if isinstance(e, (Violation, core.HarnessError)):
                        raise
                    results[r].append(("error", type(e).__name__, str(e)[:300]))
                    sched.note("error", r, i, type(e).__name__)
                    return
        return f
    for r in range(n):
        a = sched.spawn(f"rank{r}", body(r))
        a.modules = worlds[r].mods
        a.slow = 1 if r in stalled else 0
        a.trace_fn = (trace or {}).get(r)
        ctxs.append(Ctx(worlds[r], wl, data, r))
    np_states = [a.np_state for a in sched.actors]
    mpi.RT = rt
    seams.SCHED = sched
    seams.FAULT = lambda what: rt.call(what) if sched.current is not None else None
    viol = None
    global HELD
    HELD = held = []
    inputs = [a for a in (data.train, data.test, data.targets, data.labels, data.het)]
    kept = [np.array(a, copy=True) for a in inputs]
    try:
        sched.run()
    except Violation as v:
        viol = v
    finally:
        HELD = None
        mpi.RT = None
        seams.SCHED = None
        seams.FAULT = None
        core.install({})
    out = Outcome()
    out.results, out.sched, out.rt, out.violation = results, sched, rt, viol
    out.data, out.worlds = data, worlds
    out.np_state0 = np_states[0]
    out.changed = [f"an array returned to {w} was overwritten later" for w, a, c in held if not same_array(a, c)] + \
        [f"the caller's {n} array was overwritten" for n, a, c in zip(("train", "test", "target", "label", "noise"), inputs, kept)
         if not same_array(a, c)]
    out.complete = all(len(x) == len(wl["ops"]) for x in results)
    return out


_serial = None


def serial_world(fresh=False):
    return loader.load("numpy")


def adopted_model(W, cfg, states):
    """A model with the values a job reported."""
    new = []
    for c, st in zip(cfg if isinstance(cfg, list) else [cfg], states):
        c = dict(c, ls=[float(x) for x in np.atleast_1d(st["length_scale"])], noise=float(np.asarray(st["noise"])),
                 scale={"kind": "fixed", "val": float(np.asarray(st["scale"]))})
        if "smoothness" in st:
            c["nu"] = st["smoothness"] if np.isfinite(st["smoothness"]) else "inf"
        new.append({k: v for k, v in c.items() if not k.endswith("_bounds")})
    return models.build_multi(W, new) if isinstance(cfg, list) else models.build(W, new[0])


def adopt(ctx, op, same):
    """Continue the single-process history from the state the job reported."""
    if "m" not in op:
        return
    cfg = ctx.wl["models"][op["m"]]
    if isinstance(cfg, list):
        new = [dict(c, scale=dict(c["scale"], val=s)) for c, s in zip(cfg, same["scale"])]
        ctx.models[op["m"]] = models.build_multi(ctx.W, new)
        return
    st = ctx.adopted.get(op["m"]) or {"scale": cfg["scale"].get("val", 1.0)}
    st = dict(st, **same["state"]) if "state" in same else dict(st, scale=same["scale"])
    ctx.adopted[op["m"]] = st
    new = dict(cfg, scale=dict(cfg["scale"], val=float(np.asarray(st["scale"]))))
    if "length_scale" in st:
        new["ls"] = [float(x) for x in np.atleast_1d(st["length_scale"])]
        new["noise"] = float(np.asarray(st["noise"]))
        if "smoothness" in st:
            new["nu"] = st["smoothness"] if np.isfinite(st["smoothness"]) else "inf"
    if op["op"] == "sample_model":
        new.pop("ls_bounds", None), new.pop("nu_bounds", None), new.pop("noise_bounds", None)
    ctx.models[op["m"]] = models.build(ctx.W, new)


def run_serial(wl, np_state=None, adopt_from=None):
    """The same program in one process with the numpy backend.

    adopt_from: operation index -> values the job reported; model states are taken over
    from there, so that one operation's rounding does not steer the following ones.
    """
    W = serial_world()
    data = models.Data(wl["data"])
    ctx = Ctx(W, wl, data)
    ctx.adopted = {}
    core.install(W.mods)
    saved = np.random.get_state()
    if np_state is not None:
        np.random.set_state(np_state)
    res = []
    try:
        for i, op in enumerate(wl["ops"]):
            try:
                got = (adopt_from or {}).get(i)
                if got and op["op"].startswith("optimize"):
                    adopt(ctx, op, got)
                    res.append(("ok", {}, got))
                    continue
                if op["op"] == "regress":
                    res.append(("ok", *exec_op(ctx, op, got)))
                    continue
                rows, same = exec_op(ctx, op)
                res.append(("ok", rows, same))
                if got and ("state" in got or "scale" in got):
                    adopt(ctx, op, got)
            except core.HarnessError:
                raise
            except Exception as e:
                res.append(("error", type(e).__name__, str(e)[:300]))
                break
    finally:
        np.random.set_state(saved)
        core.install({})
    return res, ctx
