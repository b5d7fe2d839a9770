"""C20: deep-kernel training, its neighbour updates and its predictions (torch backend).

One simulated user trains a model whose embedding moves under the neighbours, with interruptions at
any lookup, solve or optimiser step.  The model's own forward pass is the observation point inside
the training loop.
"""
import copy
import io
import math

import numpy as np

from .. import core, loader, ref, seams
from ..core import Violation
from . import sampling as sp
from .common import Check, Result, close, fingerprint, same_bits, short

PUBLIC = ["MuyGPyS", "MuyGPyS.gp", "MuyGPyS.gp.kernels", "MuyGPyS.gp.deformation", "MuyGPyS.gp.hyperparameter", "MuyGPyS.gp.noise",
          "MuyGPyS.neighbors", "MuyGPyS.optimize.batch", "MuyGPyS.torch", "MuyGPyS.examples.muygps_torch"]


class Injected(RuntimeError):
    pass


def world():
    return loader.load("torch", ftype="32", torch_ok=True, public=PUBLIC)


class C20(Check):
    id, quick, thorough = "C20", 2500, 150000
    real = ["MuyGPyS (torch layers, training and prediction, numpy-free torch backend)", "torch (one thread)", "scikit-learn",
            "hnswlib (except in runs with a drawn index)"]
    stub = ["the user's model and optimiser, which may fail on command", "random draws (torch generator seeded)",
            "in part of the runs the index: it gives any legal answer"]
    rule = ("one evaluation = one deep-kernel model driven through 1-5 trainings, explicit updates and predictions with interruptions; the stored "
            "neighbours are judged at every forward pass and after every operation; non-trivial = at least one finished update; distinct by a "
            "hash of the data and of all stored neighbours and predictions")
    assumptions = ["explicit neighbour updates happen in evaluation mode when the embedding has dropout"]

    def preload(self):
        import torch
        torch.set_num_threads(1)
        world()
        core.install({})

    # ---------------------------------------------------------------- workload
    def gen(self, r, i, tier):
        R = r.choice([1, 1, 2, 3])
        kind = r.choice(["single", "single", "multi"])
        n = r.randint(12, 40) if r.random() < 0.97 else r.randint(120, 300)
        data = {"seed": r.randrange(10 ** 6), "train": n, "test": r.randint(1, 8) if n < 100 else r.randint(20, 150), "d": r.choice([2, 3, 5]), "R": R, "dups": r.random() < 0.3,
                "flat": R == 1 and kind == "single" and r.random() < 0.4}
        net = {"seed": r.randrange(10 ** 6), "wide": r.choice([2, 3, 6]), "out": r.choice([1, 2, 3]), "act": r.choice(["relu", "prelu", "elu", "none"]),
               "dropout": r.choice([0.0, 0.0, 0.3, 0.5])}
        parts = [{"nu": r.choice([0.5, 1.5, 2.5, "inf"]), "ls": round(r.uniform(0.5, 2), 3), "noise": r.choice([1e-2, 0.05, 0.2])}
                 for _ in range(R if kind == "multi" else 1)]
        ops, k = [], r.randint(max(2, R + 1), 7)
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.6 or not ops:
                op = {"op": "train", "iters": r.randint(0, 7) if r.random() < 0.9 else 12, "freq": r.choice([1, 1, 2, 3, 5, 20]),
                      "lr": r.choice([1e-3, 1e-2, 0.1, 1.0]), "loss": r.choice(["lool", "lool", "mse"] + (["ce"] if R > 1 else [])),
                      "opt": r.choice(["Adam", "SGD"]), "draw": r.randrange(10 ** 6)}
                if r.random() < 0.35:
                    op["fail"] = {"at": r.randint(1, 3 * max(1, op["iters"])), "where": r.choice(["any", "step", "lookup", "forward"])}
            elif x < 0.8:
                op = {"op": "update", "k": r.randint(max(2, R + 1), 7)}
                if r.random() < 0.2:
                    op["fail"] = {"at": r.randint(1, 3), "where": "lookup"}
            elif x < 0.9:
                op = {"op": "predict", "k": r.randint(max(2, R + 1), 7)}
            else:
                op = {"op": r.choice(["restart", "copy", "assign", "assign"]), "k": r.randint(max(2, R + 1), 7)}
            op["nn"] = self.gen_nn(r)
            ops.append(op)
        return {"data": data, "kind": kind, "net": net, "parts": parts, "k": k, "batch": r.randint(3, n), "batch_seed": r.randrange(10 ** 6),
                "nn": self.gen_nn(r), "ops": ops}

    @staticmethod
    def gen_nn(r):
        m = r.choice(["exact", "exact", "hnsw", "any_approx", "any_exact"])
        return {"method": m, "algo": r.choice(["ball_tree", "kd_tree"])} if m == "exact" else {"method": m}

    @staticmethod
    def nn_kwargs(l):
        if l["method"] == "exact":
            return {"nn_method": "exact", "algorithm": l["algo"]}
        return {"nn_method": "exact" if l["method"] == "any_exact" else "hnsw"}

    # ---------------------------------------------------------------- run
    def run(self, wl, ch, seed):
        import torch
        amb, tamb = np.random.get_state(), torch.get_rng_state()
        try:
            return self.go(wl, ch, seed, torch)
        except RuntimeError as e:
            if "contiguous 2D array" in str(e):
                return Result(fingerprint([wl["data"]]), False)          # hnswlib gave up, and says so
            raise
        finally:
            np.random.set_state(amb)
            torch.set_rng_state(tamb)
            core.install({})

    def go(self, wl, ch, seed, torch):
        W = world()
        core.install(W.mods)
        self.W, self.wl, self.torch, self.ch, self.seed = W, wl, torch, ch, seed
        self.method, self.fail, self.stubs = wl["nn"]["method"], None, []
        self.updates = self.forwards = self.failed = self.restarts = self.gradients = 0
        self.pass_, self.loss = None, None
        self.quiet, self.heard = False, []
        self.hook()
        D, x, y, Y = wl["data"], *self.data()
        keep = fingerprint([x.numpy(), y.numpy(), Y.numpy()])
        np.random.seed(wl["batch_seed"])
        first = W.neighbors.NN_Wrapper(x.numpy(), wl["k"], **self.nn_kwargs(wl["nn"]))
        idx, nn = W("MuyGPyS.optimize.batch").sample_batch(first, wl["batch"], D["train"])
        model = self.model(idx, nn, Y)
        self.batch, self.x, self.Y = np.asarray(idx), x, Y
        T = W("MuyGPyS.examples.muygps_torch")
        lookup, fresh, log, faults = first, False, [], {}
        self.last, self.stored = np.asarray(nn), np.asarray(nn).copy()
        self.others = []
        for n, op in enumerate(wl["ops"]):
            who = f"operation {n} ({op['op']})"
            self.method, self.fail = op["nn"]["method"], copy.deepcopy(op.get("fail"))
            self.count, self.who, self.iters, self.freq = 0, who, 0, op.get("freq")
            self.loss = op.get("loss")
            k = op.get("k", lookup.nn_count)
            if op["op"] in ("restart", "copy", "assign"):
                model.eval()
                if self.diverged(model) or not np.all(np.isfinite(self.embed(model))):
                    break
                if op["op"] == "assign":
                    self.iters = None
                    fresh = False
                    self.assign(who, model, op["k"])
                    continue
                model = self.restart(who, model, idx, nn, Y) if op["op"] == "restart" else self.copy(who, model)
                fresh = fresh and op["op"] == "copy"
                continue
            try:
                if op["op"] == "train":
                    torch.manual_seed(op["draw"])
                    lookup, out = T.train_deep_kernel_muygps(
                        model, x, Y, idx, lookup, training_iterations=op["iters"], optimizer_method=self.optimizer(op["opt"]),
                        learning_rate=op["lr"], loss_function=op["loss"], update_frequency=op["freq"], nn_kwargs=self.nn_kwargs(op["nn"]))
                    if op["iters"] and self.iters != op["iters"]:
                        raise Violation("wrong-iterations", f"{who}: {self.iters} forward passes instead of {op['iters']}")
                elif op["op"] == "update":
                    model.eval()
                    lookup, out = T.update_nearest_neighbors(model, x, Y, idx, k, nn_kwargs=self.nn_kwargs(op["nn"]))
                else:
                    self.fail = None
                    model.eval()
                    if fresh and k <= lookup.train_count:
                        log.append(self.judge_predictions(T, who, model, lookup, k, y))
                    continue
            except Injected:
                self.failed += 1
                self.fail, self.iters = None, None
                model.eval()
                fresh, self.last = False, np.asarray(model.batch_nn_indices).copy()
                self.pairs(who + ", interrupted", model)
                continue
            except (ValueError, RuntimeError) as e:
                if not self.diverged(model) and "NaN" not in str(e) and "infinity" not in str(e) and "finite" not in str(e):
                    raise
                return Result(fingerprint([wl["data"], log]), bool(log), 0, n, 0.0, {}, {"diverged": 1})    # the training diverged
            self.fail, self.iters = None, None
            model.eval()
            if out is not model:
                raise Violation("other-model", f"{who} returned another model")
            E = self.embed(model)
            if not np.all(np.isfinite(E)) or self.diverged(model):
                break
            if lookup.nn_count != k:
                raise Violation("wrong-lookup", f"{who}: the returned lookup is for {lookup.nn_count} neighbours instead of {k}")
            if not same_bits(np.asarray(lookup.train), E):
                v = ("stale-lookup", f"{who}: the returned lookup does not hold the current embedding of the training points")
                if op["op"] != "train" or not self.under_dropout(lookup, k, model):
                    raise Violation(*v)
                self.finding("deep-kernel-final-refresh-under-dropout", *v)
                self.pairs(who, model)
                self.last = np.asarray(model.batch_nn_indices).copy()
            else:
                self.current(who, model, lookup, k)
            self.forward_is_current(who, model)
            fresh = True
            self.updates += 1
            log.append([np.asarray(model.batch_nn_indices), model.batch_nn_targets.numpy()])
        for who, m, was in self.others:
            if not same_bits(self.snapshot(m), was):
                raise Violation("shared-state", f"{who}: what was done to the copy afterwards changed the model it was copied from")
        if fingerprint([x.numpy(), y.numpy(), Y.numpy()]) != keep:
            raise Violation("input-changed", "the data was modified")
        if self.restarts:
            faults["restarts_and_copies"] = self.restarts
        if self.failed:
            faults["interrupted"] = self.failed
        for s in self.stubs:
            for q, v in sp.Sampling.faults(s).items():
                faults[q] = faults.get(q, 0) + v
        return Result(fingerprint([wl["data"], log]), self.updates > 0, 0, self.forwards, 0.0, faults,
                      dict(updates=self.updates, forward_passes=self.forwards, gradients=self.gradients, **{wl["kind"]: 1}))

    # ---------------------------------------------------------------- the simulated user
    def data(self):
        s, torch = self.wl["data"], self.torch
        g = np.random.RandomState(s["seed"])
        x = g.uniform(-1, 1, size=(s["train"], s["d"])).astype(np.float32)
        if s["dups"]:
            for _ in range(s["train"] // 3):
                x[g.randint(s["train"])] = x[g.randint(s["train"])]
        y = g.uniform(-1, 1, size=(s["test"], s["d"])).astype(np.float32)
        Y = np.sin(2 * x @ g.normal(size=(s["d"], s["R"]))) + 0.05 * g.normal(size=(s["train"], s["R"]))
        Y = Y.astype(np.float32)
        return torch.tensor(x), torch.tensor(y), torch.tensor(Y[:, 0] if s["flat"] else Y)

    def model(self, idx, nn, Y):
        wl, W, torch, me = self.wl, self.W, self.torch, self
        H, S = W.hyper, wl["net"]
        args = [dict(kernel=W.kernels.Matern(smoothness=H.ScalarParam(math.inf if p["nu"] == "inf" else p["nu"]),
                                             deformation=W.deformation.Isotropy(W.deformation.l2, length_scale=H.ScalarParam(p["ls"]))),
                     noise=W.noise.HomoscedasticNoise(p["noise"])) for p in wl["parts"]]
        L = W("MuyGPyS.torch")

        def heard(module, args, out):            # plain functions, which copies of the model share
            me.on_embedding(module, out)

        def asked(module, args):
            me.before = None if me.quiet else torch.get_rng_state()

        class Net(torch.nn.Module):
            def __init__(self):
                super().__init__()
                act = {"relu": torch.nn.ReLU, "prelu": torch.nn.PReLU, "elu": torch.nn.ELU, "none": torch.nn.Identity}[S["act"]]
                self.embedding = torch.nn.Sequential(torch.nn.Linear(wl["data"]["d"], S["wide"]), torch.nn.Dropout(S["dropout"]), act(),
                                                     torch.nn.Linear(S["wide"], S["out"]), act())
                self.embedding.register_forward_hook(heard)
                self.embedding.register_forward_pre_hook(asked)
                self.batch_indices, self.batch_nn_indices = idx, nn
                self.batch_targets, self.batch_nn_targets = Y[idx], Y[nn]
                a = (self.batch_indices, self.batch_nn_indices, self.batch_targets, self.batch_nn_targets)
                self.GP_layer = L.MultivariateMuyGPs_layer(W.gp.MultivariateMuyGPS(*args), *a) if wl["kind"] == "multi" else \
                    L.MuyGPs_layer(W.gp.MuyGPS(**args[0]), *a)
                self.deformation = self.GP_layer.deformation

            def forward(self, v):
                me.on_forward(self)
                e = self.embedding(v)
                if not me.quiet:
                    me.watch(self, e)
                return self.GP_layer(e)
        torch.manual_seed(S["seed"])
        return Net()

    def restart(self, who, model, idx, nn, Y):
        """The process dies; only the saved state survives, and a new process builds the model again."""
        torch, disk = self.torch, io.BytesIO()
        torch.save(model.state_dict(), disk)
        disk.seek(0)
        new = self.model(idx, nn, Y)
        new.load_state_dict(torch.load(disk))
        new.eval()
        self.last, self.stored, self.iters = np.asarray(nn).copy(), np.asarray(nn).copy(), None
        self.restarts += 1
        if not same_bits(self.embed(new), self.embed(model)) or self.state(new) != self.state(model):
            raise Violation("lost-state", f"{who}: restored {self.state(new)}, saved {self.state(model)}")
        self.forward_is_current(who, new)
        return new

    def copy(self, who, model):
        new = copy.deepcopy(model)
        was = self.snapshot(model)
        self.iters = None
        if not same_bits(self.snapshot(new), was):
            raise Violation("other-copy", f"{who}: a copy of the model does not predict what the model predicts")
        self.others.append((who, model, was))
        self.restarts += 1
        return new

    def snapshot(self, model):
        model.eval()
        self.quiet, self.fail, self.iters = True, None, None
        with self.torch.no_grad():
            mean, var = model(self.x)
        self.quiet = False
        return [mean.numpy(), var.numpy(), self.state(model), self.embed(model), np.asarray(model.batch_nn_indices), model.batch_nn_targets.numpy()]

    def assign(self, who, model, k):
        """The user points the model and its layer at neighbours of his own."""
        new = np.asarray(self.W.neighbors.NN_Wrapper(self.embed(model), k, nn_method="exact", algorithm="ball_tree").get_batch_nns(self.batch)[0])
        for p in (model, model.GP_layer):
            p.batch_nn_indices, p.batch_nn_targets = new, self.Y[new]
        self.last, self.stored = new.copy(), new.copy()
        self.forward_is_current(who, model)

    def event(self, where):
        if self.fail and self.fail["where"] in ("any", where):
            self.count += 1
            if self.count == self.fail["at"]:
                raise Injected("injected")

    def optimizer(self, name):
        torch, me = self.torch, self

        base = getattr(torch.optim, name)

        class Failing(base):
            def step(self, *a, **k):
                me.on_step()
                me.event("step")
                return base.step(self, *a, **k)
        return Failing

    def hook(self):
        me, cls = self, self.W.neighbors.NN_Wrapper
        init = cls.__init__

        def __init__(nb, train, *a, **k):
            me.event("lookup")
            init(nb, train, *a, **k)
            if me.method.startswith("any"):
                nb.nbrs = sp.AnyIndex(np.asarray(train), me.ch, me.seed + len(me.stubs), me.method == "any_approx")
                me.stubs.append(nb.nbrs)

        def asked(f):
            def g(*a, **k):
                me.event("lookup")
                return f(*a, **k)
            return g
        cls.__init__ = __init__
        for n in ("get_batch_nns", "get_nns", "_get_nns"):
            setattr(cls, n, asked(getattr(cls, n)))

    # ---------------------------------------------------------------- oracles
    def embed(self, model, x=None):
        """The embedding in evaluation mode, without disturbing the model."""
        was, heard = model.training, self.quiet
        model.eval()
        self.quiet = True
        with self.torch.no_grad():
            e = model.embedding(self.x if x is None else x).numpy().copy()
        self.quiet = heard
        model.train(was)
        return e

    def on_forward(self, model):
        """Inside the training loop: what the next iteration will learn from."""
        self.forwards += 1
        if self.iters is None:
            return
        j = self.iters
        self.iters += 1
        if j and (j - 1) % self.freq == 0:
            self.current(f"{self.who}, iteration {j}", model, None, None)
            self.updates += 1
        elif not np.array_equal(np.asarray(model.batch_nn_indices), self.last):
            raise Violation("stray-update", f"{self.who}, iteration {j}: the stored neighbours changed without an update")
        self.pairs(f"{self.who}, iteration {j}", model)
        self.event("forward")

    def watch(self, model, e):
        """Remember what the coming gradient has to be the gradient of."""
        self.pass_ = None
        if self.iters is None or not model.training or not e.requires_grad:
            return
        self.pass_ = {"model": model, "E": e.detach().numpy().astype(np.float64).copy(), "nn": np.asarray(model.GP_layer.batch_nn_indices).copy(),
                      "rng": self.before, "state": self.state(model), "grad": None}

        def seen(g, me=self.pass_):
            me["grad"] = g.detach().numpy().copy()
        e.register_hook(seen)

    def on_step(self):
        """The step follows the gradient of the training loss in the embedding and in the length scale."""
        p, torch = self.pass_, self.torch
        if p is None or self.iters > 3:
            return
        model, who = p["model"], f"{self.who}, iteration {self.iters - 1}"
        if not np.abs(p["E"]).max() < 1e6 or not all(s["ls"] > 1e-3 for s in p["state"]):
            return
        want, cond = self.loss_gradient(p)
        top = float(np.abs(want).max())
        if cond > 1e4 or not np.isfinite(top):
            return
        rows = np.bincount(np.concatenate([self.batch, p["nn"].ravel()]), minlength=len(want)).reshape(-1, 1)
        tol = 1e-5 + (2e-3 + 1e-5 * cond) * (np.abs(want) + top)
        got = p["grad"]
        if got is None:
            if top > 1e-3:
                raise Violation("no-gradient", f"{who}: the loss does not depend on the embedding, by the reference up to {top}")
            return
        i = int(np.argmax((np.abs(got - want) / tol).max(1))) if np.all(np.isfinite(got)) else int(np.argmax(~np.isfinite(got).all(1)))
        if not np.all(np.abs(got[i] - want[i]) <= tol[i]):
            raise Violation("wrong-gradient", f"{who}: the gradient of the {self.loss} loss in the embedding of training point {i} (used {int(rows[i, 0])} times) "
                                              f"is {short(got[i].tolist())} instead of {short(want[i].tolist())}")
        self.gradients += 1
        ls = [q for n, q in model.named_parameters() if n == "GP_layer.length_scale"]
        if ls:
            s = p["state"][0]["ls"]
            one, sure = -float((want * p["E"]).sum()) / s, float(np.abs(want * p["E"]).sum()) / s
            g = 0.0 if ls[0].grad is None else float(ls[0].grad)
            if not abs(g - one) <= 1e-5 + (2e-3 + 1e-5 * cond) * (abs(one) + sure):
                raise Violation("wrong-gradient", f"{who}: the gradient of the {self.loss} loss in the length scale is {g} instead of {one}")
        # the parameters of the embedding: what the gradient in the embedding gives, once
        rng, self.quiet = torch.get_rng_state(), True
        torch.set_rng_state(p["rng"])
        ps = [q for q in model.embedding.parameters()]
        e = model.embedding(self.x)
        gs = torch.autograd.grad(e, ps, torch.from_numpy(got), allow_unused=True)
        self.quiet = False
        torch.set_rng_state(rng)
        for q, g in zip(ps, gs):
            a, b = (np.zeros(tuple(q.shape)) if v is None else v.detach().numpy().astype(float) for v in (q.grad, g))
            if not np.all(np.abs(a - b) <= 1e-5 + 1e-3 * (np.abs(b).max() + float(np.abs(got).max()))):
                raise Violation("wrong-gradient", f"{who}: a parameter of the embedding steps along {short(a.tolist())} instead of {short(b.tolist())}")

    def loss_gradient(self, p):
        """Derivative of the training loss in the embedding, in double precision."""
        torch = self.torch
        with torch.enable_grad():
            E = torch.tensor(p["E"], dtype=torch.float64, requires_grad=True)
            nn, b = torch.from_numpy(p["nn"].astype(np.int64)), torch.from_numpy(self.batch.astype(np.int64))
            Y = self.Y.double().reshape(len(E), -1)
            multi = self.wl["kind"] == "multi"

            def dist(d):
                q = (d ** 2).sum(-1)
                zero = q == 0
                return torch.where(zero, torch.zeros_like(q), torch.sqrt(torch.where(zero, torch.ones_like(q), q)))
            cross, pair = dist(E[b][:, None] - E[nn]), dist(E[nn][:, :, None] - E[nn][:, None])
            means, variances, cond = [], [], 1.0
            for j, (m, s) in enumerate(zip(self.wl["parts"], p["state"])):
                def k(d):
                    d = d / s["ls"]
                    if m["nu"] == "inf":
                        return torch.exp(-d ** 2 / 2)
                    r = d * math.sqrt(2 * m["nu"])
                    return {0.5: 1, 1.5: 1 + r, 2.5: 1 + r + r ** 2 / 3}[m["nu"]] * torch.exp(-r)
                Kin = k(pair) + s["noise"] * torch.eye(nn.shape[1], dtype=torch.float64)
                Kc = k(cross)
                F = torch.linalg.solve(Kin, Kc.unsqueeze(-1)).squeeze(-1)
                means.append(torch.einsum("bk,bkr->br", F, (Y[:, j:j + 1] if multi else Y)[nn]))
                variances.append(s["scale"] * (1 - (F * Kc).sum(-1)))
                cond = max(cond, float(torch.linalg.cond(Kin.detach()).max()))
            mean, var, t = torch.cat(means, 1), torch.stack(variances, 1), Y[b]
            if self.loss == "lool":
                loss = ((mean - t) ** 2 / var + torch.log(var).expand_as(mean)).sum()
                cond /= max(1e-3, float(var.detach().min()))
            elif self.loss == "mse":
                loss = ((mean - t) ** 2).mean()
            else:
                loss = -(t * torch.log_softmax(mean, 1)).sum(1).mean()
            return torch.autograd.grad(loss, E)[0].numpy(), cond

    def pairs(self, who, model):
        """Stored targets and stored neighbours refer to the same rows."""
        for what, p in (("model", model), ("layer", model.GP_layer)):
            if not same_bits(p.batch_nn_targets.numpy(), self.Y.numpy()[np.asarray(p.batch_nn_indices)]):
                raise Violation("wrong-rows", f"{who}: the neighbour targets stored in the {what} are not those of its neighbours")
            if not np.array_equal(np.asarray(p.batch_indices), self.batch):
                raise Violation("wrong-rows", f"{who}: the batch stored in the {what} changed")

    def on_embedding(self, module, out):
        """What the library saw of the embedding in its last two passes."""
        if not self.quiet:
            self.heard = self.heard[-1:] + [(out.detach().numpy().copy(), module.training)]

    def under_dropout(self, lookup, k, model):
        """The recorded defect, exactly: the final refresh saw the embedding in train mode."""
        if not self.wl["net"]["dropout"] or len(self.heard) < 2 or not all(h[1] for h in self.heard):
            return False
        (train, _), (batch, _) = self.heard
        if not same_bits(np.asarray(lookup.train), train) or len(batch) != len(self.batch):
            return False
        return np.array_equal(np.asarray(lookup._get_nns(batch, nn_count=k)[0]), np.asarray(model.batch_nn_indices))

    def current(self, who, model, lookup, k):
        nn = np.asarray(model.batch_nn_indices)
        self.last = nn.copy()
        self.pairs(who, model)
        E = self.embed(model).astype(np.float64)
        if not np.all(np.isfinite(E)):
            return
        d = ((E[self.batch][:, None] - E[None]) ** 2).sum(-1)
        k = nn.shape[1] if k is None else k
        for i, b in enumerate(self.batch.tolist()):
            row = nn[i].tolist()
            if len(row) != k or len(set(row)) != k or min(row) < 0 or max(row) >= len(E):
                raise Violation("wrong-neighbours", f"{who}: row {i} stores {row} for {k} of {len(E)} points")
            own = b in row
            if own:
                self.finding("deep-kernel-self-neighbour", "self-neighbour", f"{who}: training point {b} is stored as its own neighbour: {row}")
            if self.method in ("exact", "any_exact"):
                best = np.sort(d[i] if own else np.delete(d[i], b))[:k]
                if not np.allclose(np.sort(d[i, nn[i]]), best, rtol=1e-4, atol=1e-5 * max(1e-6, float(d[i].max()))):
                    raise Violation("stale-neighbours", f"{who}: training point {b} stores neighbours at {short(np.sort(d[i, nn[i]]).tolist())}, "
                                                        f"the nearest in the current embedding are at {short(best.tolist())}")
        if lookup is not None:
            want = np.asarray(lookup.get_batch_nns(self.batch)[0])
            if not np.array_equal(want, nn):
                v = ("not-the-lookup", f"{who}: stored neighbours {short(nn.tolist())}, the returned lookup gives {short(want.tolist())}")
                if self.under_dropout(lookup, k, model):
                    self.finding("deep-kernel-final-refresh-under-dropout", *v)
                elif np.array_equal(np.asarray(lookup._get_nns(self.embed(model, self.x[self.batch]), nn_count=k)[0]), nn):
                    self.finding("deep-kernel-self-neighbour", *v)
                else:
                    raise Violation(*v)

    def diverged(self, model):
        """A learning rate that is too large takes the trained length scale below zero."""
        return any(not s["ls"] > 1e-3 for s in self.state(model))

    def state(self, model):
        m = model.GP_layer
        ms = m.multivariate_muygps_model.models if self.wl["kind"] == "multi" else [m.muygps_model]
        f = lambda v: float(v.detach()) if hasattr(v, "detach") else float(v)
        return [{"ls": f(q.kernel.deformation.length_scale()), "noise": f(q.noise()), "scale": f(q.scale())} for q in ms]

    def posterior(self, model, q, E, rows, nn):
        multi = self.wl["kind"] == "multi"
        Y = self.Y.numpy().astype(np.float64).reshape(len(E), -1)
        cross, pair = ref.diffs_cross(q, E, rows, nn), ref.diffs_pair(E, nn)
        means, variances, cond = [], [], 1.0
        for j, (p, s) in enumerate(zip(self.wl["parts"], self.state(model))):
            cfg = {"kernel": "matern", "deform": "iso", "metric": "l2"}
            par = {"ls": [s["ls"]], "nu": math.inf if p["nu"] == "inf" else p["nu"], "noise": s["noise"]}
            m, v, c = ref.posterior(cfg, par, cross, pair, (Y[:, j:j + 1] if multi else Y)[nn])
            means.append(m)
            variances.append(v * s["scale"])
            cond = max(cond, c)
        return np.concatenate(means, 1), np.stack(variances, 1), cond

    @staticmethod
    def off(got, want, cond):
        """The first row that is not near, None if all are."""
        tol = 2e-4 + 1e-6 * cond
        got = got.reshape(want.shape)
        return next((i for i in range(len(want)) if not close(got[i], want[i], tol, tol)), None)

    def near(self, who, what, got, want, cond, old=None):
        """old: what the recorded defect would give."""
        got = np.asarray(got, float)
        if got.size != want.size:
            raise Violation("wrong-shape", f"{who}: {what} of shape {got.shape} for {want.shape}")
        i = self.off(got, want, cond)
        if i is not None:
            v = ("wrong-" + what, f"{who}: {what} of row {i} is {short(got.reshape(want.shape)[i])}, the stored or looked-up neighbours in the "
                                  f"current embedding give {short(want[i])}")
            if old is None or self.off(got, old[0], old[1]) is not None:
                raise Violation(*v)
            self.finding("deep-kernel-layer-keeps-neighbours", *v)

    def forward_is_current(self, who, model):
        """A forward pass predicts the batch from the stored neighbours."""
        self.quiet = True
        with self.torch.no_grad():
            mean, var = model(self.x)
        self.quiet = False
        E = self.embed(model).astype(np.float64)
        wm, wv, cond = self.posterior(model, E, E, self.batch, np.asarray(model.batch_nn_indices))
        om, ov, oc = None, None, 1.0
        if np.array_equal(np.asarray(model.GP_layer.batch_nn_indices), self.stored):
            om, ov, oc = self.posterior(model, E, E, self.batch, self.stored)
        if max(cond, oc) < 1e4:
            self.near(who, "prediction", mean, wm, cond, None if om is None else (om, oc))
            self.near(who, "variance", var, wv, cond, None if om is None else (ov, oc))

    def judge_predictions(self, T, who, model, lookup, k, y):
        mean, var = T.predict_model(model, y, self.x, self.Y, lookup, k)
        E, q = self.embed(model), self.embed(model, y)
        nn = np.asarray(lookup._get_nns(q, k)[0])
        E, q = E.astype(np.float64), q.astype(np.float64)
        wm, wv, cond = self.posterior(model, q, E, np.arange(len(q)), nn)
        mean, var = (v.detach().numpy() for v in (mean, var))
        if cond < 1e4:
            self.near(who, "prediction", mean, wm, cond)
            self.near(who, "variance", var, wv, cond)
        return [mean, var]

    def shrinks(self, wl):
        for i in range(len(wl["ops"])):
            if len(wl["ops"]) > 1:
                w = copy.deepcopy(wl)
                del w["ops"][i]
                yield w
        for i, op in enumerate(wl["ops"]):
            if op.get("fail"):
                w = copy.deepcopy(wl)
                del w["ops"][i]["fail"]
                yield w
            if op.get("iters", 0) > 0:
                for v in {1, op["iters"] // 2, op["iters"] - 1}:
                    if v < op["iters"]:
                        w = copy.deepcopy(wl)
                        w["ops"][i]["iters"] = v
                        yield w
        if wl["batch"] > 3:
            yield dict(copy.deepcopy(wl), batch=3)
