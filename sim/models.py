"""Builds library models from JSON configurations; loss and optimiser handles."""
import math

import numpy as np

LOSSES = {"mse": "mse_fn", "cross_entropy": "cross_entropy_fn", "lool": "lool_fn",
          "lool_unscaled": "lool_fn_unscaled", "pseudo_huber": "pseudo_huber_fn", "looph": "looph_fn"}
VAR_LOSSES = ("lool", "lool_unscaled", "looph")


def scalar(W, val, bounds):
    SP = W.hyper.ScalarParam
    if bounds is None:
        return SP(val)
    return SP(val, tuple(bounds))


def build_parts(W, cfg):
    H, D, K, N = W.hyper, W.deformation, W.kernels, W.noise
    metric = {"l2": D.l2, "F2": D.F2}[cfg["metric"]]
    lsb = cfg.get("ls_bounds") or [None] * len(cfg["ls"])
    if cfg["deform"] == "iso":
        deform = D.Isotropy(metric, length_scale=scalar(W, cfg["ls"][0], lsb[0]))
    elif cfg["deform"] == "diff":
        deform = D.DifferenceIsotropy(metric, length_scale=scalar(W, cfg["ls"][0], lsb[0]))
    else:
        deform = D.Anisotropy(metric, length_scale=H.VectorParam(*[scalar(W, v, b) for v, b in zip(cfg["ls"], lsb)]))
    if cfg["kernel"] == "rbf":
        kernel = K.RBF(deformation=deform)
    else:
        nu = math.inf if cfg["nu"] == "inf" else cfg["nu"]
        kernel = K.Matern(smoothness=scalar(W, nu, cfg.get("nu_bounds")), deformation=deform)
    if cfg.get("noise_bounds"):
        noise = N.HomoscedasticNoise(cfg["noise"], tuple(cfg["noise_bounds"]))
    elif cfg["noise"] == 0:
        noise = N.NullNoise()
    else:
        noise = N.HomoscedasticNoise(cfg["noise"])
    s = cfg.get("scale", {"kind": "fixed", "val": 1.0})
    if s["kind"] == "fixed":
        scale = H.FixedScale(val=s.get("val", 1.0))
    elif s["kind"] == "analytic":
        scale = H.AnalyticScale(iteration_count=s.get("iterations", 1), val=s.get("val", 1.0))
    else:
        scale = H.DownSampleScale(down_count=s["down"], iteration_count=s["iterations"], val=s.get("val", 1.0))
    return dict(kernel=kernel, noise=noise, scale=scale)


def build(W, cfg):
    return W.gp.MuyGPS(**build_parts(W, cfg))


def build_multi(W, cfgs):
    return W.gp.MultivariateMuyGPS(*[build_parts(W, c) for c in cfgs])


def loss_fn(W, name):
    return getattr(W.loss, LOSSES[name])


def hyper_state(model):
    """Name -> value of everything a model reports (through its public surface)."""
    out = {"length_scale": np.array(model.kernel.deformation.length_scale(), dtype=float).tolist()}
    if hasattr(model.kernel, "smoothness"):
        out["smoothness"] = float(model.kernel.smoothness())
    out["noise"] = np.array(model.noise(), dtype=float).tolist()
    out["scale"] = np.array(model.scale(), dtype=float).tolist()
    return out


def par_of(state):
    """Reference-model parameters of a reported state."""
    return {"ls": np.atleast_1d(state["length_scale"]).tolist(), "nu": state.get("smoothness"),
            "noise": state["noise"]}


def names_of(cfg):
    if cfg["deform"] != "aniso":
        n = ["length_scale"]
    else:
        n = [f"length_scale{i}" for i in range(len(cfg["ls"]))]
    if cfg["kernel"] == "matern":
        n.append("smoothness")
    return n


def free_of(cfg):
    """Free hyperparameters: name -> bounds."""
    out = {}
    lsb = cfg.get("ls_bounds") or [None] * len(cfg["ls"])
    for n, b in zip(names_of(cfg), lsb):
        if b is not None:
            out[n] = b
    if cfg["kernel"] == "matern" and cfg.get("nu_bounds"):
        out["smoothness"] = cfg["nu_bounds"]
    if cfg.get("noise_bounds"):
        out["noise"] = cfg["noise_bounds"]
    return out


def start_of(cfg):
    out = {}
    for i, n in enumerate(x for x in names_of(cfg) if x.startswith("length")):
        out[n] = cfg["ls"][i]
    if cfg["kernel"] == "matern":
        out["smoothness"] = math.inf if cfg["nu"] == "inf" else cfg["nu"]
    out["noise"] = cfg["noise"]
    return out


# ------------------------------------------------------------------ generators
def gen_cfg(r, d, free="none", scale="any", kernel=None, deform=None):
    """A random model configuration. free: none | some | all.

    deform: iso | aniso | diff, an isotropy that works on differences instead of distances."""
    c = {"kernel": kernel or r.choice(["rbf", "matern", "matern"])}
    c["deform"] = deform or r.choice(["iso", "iso", "aniso"])
    if deform is None and c["deform"] == "iso" and r.random() < 0.15:
        c["deform"] = "diff"
    c["metric"] = "F2" if c["kernel"] == "rbf" else "l2"
    n = d if c["deform"] == "aniso" else 1
    c["ls"] = [round(r.uniform(0.4, 2.5), r.choice([3, 3, 17])) for _ in range(n)]
    c["noise"] = r.choice([1e-3, 1e-2, 0.05, 0.2])
    if c["kernel"] == "matern":
        c["nu"] = r.choice([0.5, 0.5, 1.5, 2.5, "inf", 0.8, 1.1, r.choice([0.497, 1.504, 2.492, 3.3])])
    if free != "none":
        k = 0
        lsb = [None] * n
        while True:
            for i in range(n):
                if r.random() < 0.6:
                    lsb[i] = [round(c["ls"][i] * r.uniform(0.3, 0.9), 3), round(c["ls"][i] * r.uniform(1.1, 2.5), 3)]
            if c["kernel"] == "matern" and r.random() < 0.35:
                c["nu"] = round(r.uniform(0.4, 1.6), 3) if r.random() < 0.7 else r.choice([0.5, 1.5])
                c["nu_bounds"] = [0.3, 2.0]
            if r.random() < 0.35:
                c["noise_bounds"] = [round(c["noise"] * 0.3, 6), round(c["noise"] * 5, 6)]
            c["ls_bounds"] = lsb
            if free_of(c):
                break
        if n > 1 and all(lsb) and r.random() < 0.3:      # the same bounds for all length scales
            both = [min(b[0] for b in lsb), max(b[1] for b in lsb)]
            lsb[:] = [list(both) for _ in lsb]
        if r.random() < 0.2:              # a search that starts on a bound
            side = r.choice([0, 1])
            for i, b in enumerate(lsb):
                if b is not None and r.random() < 0.7:
                    b[side] = c["ls"][i]
            if c.get("noise_bounds") and r.random() < 0.4:
                c["noise_bounds"][side] = c["noise"]
    kind = scale if scale != "any" else r.choice(["fixed", "analytic", "analytic"])
    c["scale"] = {"kind": kind, "val": round(r.uniform(0.3, 3.0), 3)}
    if kind == "analytic":
        c["scale"]["iterations"] = r.choice([1, 1, 1, 2, 3, 5])
    return c


def laid_out(a, how):
    """The same values, held in another way."""
    if how == "fortran":
        a = np.asfortranarray(a)
    elif how == "strided":
        big = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
        big[::2] = a
        a = big[::2]
    elif how == "readonly":
        a.setflags(write=False)
    return a


def special(r, spec, points=("on_train", "duplicates", "grid", "int"), p=0.3):
    """Sometimes make a data set a special one."""
    if r.random() < p:
        if r.random() < 0.6 and points:
            spec["points"] = r.choice(points)
        if r.random() < 0.4:
            spec["values"] = r.choice(["constant", "levels", "ints"])
        if r.random() < 0.4:
            spec["layout"] = r.choice(["fortran", "strided", "readonly"])
        if r.random() < 0.3:
            spec["index"] = r.choice(["int32", "uint16", "uint64", "strided", "fortran"])
        if r.random() < 0.3:
            spec["pick"] = r.choice(["repeats", "sorted", "descending"])
        if r.random() < 0.25:
            spec["order"] = r.choice(["shuffled", "farthest"])
    return spec


class Data:
    """Deterministic data set of a workload; neighbours by brute force, self excluded."""

    def __init__(self, spec):
        self.spec = spec
        g = np.random.RandomState(spec["seed"] % (2 ** 32))
        n, t, d, R = spec["train"], spec["test"], spec["d"], spec["R"]
        self.train = g.uniform(-2, 2, size=(n, d))
        self.test = g.uniform(-2, 2, size=(t, d))
        if spec.get("onedim"):
            self.train, self.test = self.train[:, 0], self.test[:, 0]
        tr = self.train.reshape(n, -1)
        w = g.normal(size=(tr.shape[1], R))
        y = np.sin(tr @ w) + 0.1 * g.normal(size=(n, R))
        self.targets = y[:, 0].copy() if spec.get("flat_targets") else y
        lab = (y[:, 0] > np.median(y[:, 0])).astype(int)
        self.labels = np.where(np.arange(max(2, R))[None, :] == lab[:, None], 1.0, -1.0) * 0.5
        self.het = g.uniform(0.01, 0.1, size=n)
        self._special(spec, g)

    def _special(self, spec, g):
        """Data sets a user may well have and a plain random one never is."""
        n, d = spec["train"], self.train.reshape(spec["train"], -1).shape[1]
        pts, t = spec.get("points"), len(self.test)
        if pts == "on_train":                  # some queries are training points
            rows = g.choice(t, max(1, t // 2), replace=False)
            self.test[rows] = self.train[g.choice(n, len(rows), replace=n < len(rows))]
        elif pts == "duplicates":
            self.train[g.choice(n, n // 3, replace=False)] = self.train[g.choice(n, n // 3)]
        elif pts in ("grid", "int"):           # many equal distances
            side = int(np.ceil((n + t) ** (1.0 / d))) + 1
            cells = np.stack(np.unravel_index(g.permutation(side ** d)[:n + t], (side,) * d), 1) if d < 8 else \
                np.concatenate([np.arange(n + t)[:, None], g.randint(3, size=(n + t, d - 1))], 1)[g.permutation(n + t)]
            cells = cells.reshape((n + t,) + self.train.shape[1:])
            if pts == "grid":
                cells = cells * (4.0 / side) - 2
            self.train, self.test = cells[:n].copy(), cells[n:].copy()
        elif pts == "f4":
            self.train, self.test = self.train.astype(np.float32), self.test.astype(np.float32)
        kind = spec.get("values")
        if kind == "constant":
            self.targets = np.full_like(self.targets, 1.75)
        elif kind == "levels":
            self.targets = np.where(self.targets > 0.5, 2.0, np.where(self.targets < -0.3, -1.0, 1.0))
        elif kind == "ints":
            self.targets = np.where(self.targets > 0, 3, -2)
        for k in ("train", "test", "targets"):
            setattr(self, k, laid_out(getattr(self, k), spec.get("layout")))

    def nns(self, q, k, exclude=None):
        tr = self.train.reshape(self.spec["train"], -1)
        q = q.reshape(q.shape[0], -1)
        d2 = ((q[:, None, :] - tr[None]).astype(float) ** 2).sum(-1)
        if exclude is not None:
            d2[np.arange(len(exclude)), exclude] = np.inf
        return np.argsort(d2, axis=1, kind="stable")[:, :k]

    def train_batch(self, count, k, seed):
        g = np.random.RandomState((self.spec["seed"] * 7919 + seed) % (2 ** 32))
        count = min(count, self.spec["train"])
        idx = self._picked(g, self.spec["train"], count)
        return self._indices(g, idx, self.nns(self.train[idx], k, exclude=idx))

    def _picked(self, g, n, count):
        """The points of a batch, which callers choose as they like."""
        how = self.spec.get("pick")
        idx = g.choice(n, count, replace=how == "repeats")
        return idx if how in (None, "repeats") else np.sort(idx) if how == "sorted" else np.sort(idx)[::-1]

    def _indices(self, g, idx, nn):
        """Index arrays as callers may hold them."""
        how, order = self.spec.get("index"), self.spec.get("order")
        if order == "farthest":
            nn = nn[:, ::-1]
        elif order == "shuffled":
            nn = np.stack([g.permutation(row) for row in nn]).reshape(nn.shape)
        if how in ("strided", "fortran"):
            return laid_out(idx, how), laid_out(nn, how)
        return (idx, nn) if how is None else (idx.astype(how), nn.astype(how))

    def test_batch(self, count, k, seed):
        g = np.random.RandomState((self.spec["seed"] * 104729 + seed) % (2 ** 32))
        idx = self._picked(g, self.spec["test"], min(count, self.spec["test"]))
        return self._indices(g, idx, self.nns(self.test[idx], k))
