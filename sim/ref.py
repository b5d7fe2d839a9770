"""Small executable reference model of the mathematics (independent of the library)."""
import math

import numpy as np
from numpy.polynomial import hermite_e
from scipy.special import gamma, kv


def diffs_cross(test, train, idx, nn):
    t = test[:, None] if test.ndim == 1 else test
    x = train[:, None] if train.ndim == 1 else train
    return t[idx][:, None, :] - x[nn]


def diffs_pair(train, nn):
    x = train[:, None] if train.ndim == 1 else train
    p = x[nn]
    return p[:, :, None, :] - p[:, None, :, :]


def scaled_dist(cfg, diffs, par):
    ls = np.asarray(par["ls"], dtype=float)
    if cfg["deform"] == "aniso":
        z = diffs / ls
        s = (z ** 2).sum(-1)
        return s if cfg["metric"] == "F2" else np.sqrt(s)
    s = (diffs ** 2).sum(-1)
    if cfg["metric"] == "F2":
        return s / float(ls[0]) ** 2
    return np.sqrt(s) / float(ls[0])


def kern(cfg, d, par):
    if cfg["kernel"] == "rbf":
        return np.exp(-d / 2.0)
    nu = par["nu"]
    if nu == math.inf:
        return np.exp(-d ** 2 / 2.0)
    if nu == 0.5:
        return np.exp(-d)
    if nu == 1.5:
        a = math.sqrt(3) * d
        return (1 + a) * np.exp(-a)
    if nu == 2.5:
        a = math.sqrt(5) * d
        return (1 + a + a * a / 3.0) * np.exp(-a)
    out = np.ones_like(d)
    nz = d > 0
    z = math.sqrt(2 * nu) * d[nz]
    out[nz] = 2 ** (1 - nu) / gamma(nu) * z ** nu * kv(nu, z)
    return out


def params(cfg, **over):
    """Current parameter values of a config, with trial values laid over."""
    ls = list(cfg["ls"])
    p = {"nu": math.inf if cfg.get("nu") == "inf" else cfg.get("nu"), "noise": cfg["noise"]}
    for k, v in over.items():
        v = float(v)
        if k == "smoothness":
            p["nu"] = v
        elif k == "noise":
            p["noise"] = v
        elif k == "length_scale":
            ls[0] = v
        elif k.startswith("length_scale"):
            ls[int(k[len("length_scale"):])] = v
        else:
            raise KeyError(k)
    p["ls"] = ls
    return p


def matrices(cfg, par, cross, pair):
    """(Kin, Kcross) from difference tensors."""
    return kern(cfg, scaled_dist(cfg, pair, par), par), kern(cfg, scaled_dist(cfg, cross, par), par)


def shear(diffs, ls, rows, cols):
    """Covariances (..., rows, n, cols, m) of convergence (0) and the two shears (1, 2) of a potential with the
    covariance exp(-|d|^2 / (2 ls)), from differences (..., n, m, 2)."""
    def D(a, b):
        """The derivative of orders a and b of the covariance, by Hermite polynomials."""
        z = diffs / math.sqrt(ls)
        h = [hermite_e.hermeval(z[..., i], [0] * o + [1]) for i, o in enumerate((a, b))]
        return (-1 / math.sqrt(ls)) ** (a + b) * h[0] * h[1] * np.exp(-(z ** 2).sum(-1) / 2)
    ops = {0: {(2, 0): 0.5, (0, 2): 0.5}, 1: {(2, 0): 0.5, (0, 2): -0.5}, 2: {(1, 1): 1.0}}
    out = np.zeros(diffs.shape[:-3] + (len(rows), diffs.shape[-3], len(cols), diffs.shape[-2]))
    for i, p in enumerate(rows):
        for j, q in enumerate(cols):
            out[..., i, :, j, :] = sum(u * v * D(a[0] + b[0], a[1] + b[1]) for a, u in ops[p].items() for b, v in ops[q].items())
    return out


def interpolated(knots, values, at, ls2=4.0, noise=1e-5):
    """Length scales at points, from their values at knots, by a squared-exponential Gaussian process."""
    d = lambda x, y: np.exp(-((x[:, None, :] - y[None, :, :]) ** 2).sum(-1) / (2 * ls2))
    return d(at, knots) @ np.linalg.solve(d(knots, knots) + noise * np.eye(len(knots)), np.asarray(values, float))


def posterior(cfg, par, cross, pair, nn_targets):
    Kin, Kc = matrices(cfg, par, cross, pair)
    b, k, _ = Kin.shape
    mean = np.empty((b,) + nn_targets.shape[2:])
    var = np.empty(b)
    cond = 1.0
    for i in range(b):
        A = Kin[i] + par["noise"] * np.eye(k)
        w = np.linalg.solve(A, Kc[i])
        mean[i] = np.tensordot(w, nn_targets[i], axes=(0, 0))
        var[i] = 1.0 - w @ Kc[i]
        cond = max(cond, np.linalg.cond(A))
    return mean, var, cond


def analytic_scale(cfg, par, pair, nn_targets, iterations=1, noise=None):
    K = kern(cfg, scaled_dist(cfg, pair, par), par)
    b, k, _ = K.shape
    nz = par["noise"] if noise is None else noise
    tot = 0.0
    Y = nn_targets.reshape(b, k, -1)
    for i in range(b):
        A = K[i] + nz * np.eye(k)
        tot += float(np.sum(Y[i] * np.linalg.solve(A, Y[i])))
    base = tot / (b * k)
    s = base
    for _ in range(1, iterations):
        s = 0.5 * (s + base / s)
    return s


def loss(name, pred, targ, var=None, scale=1.0, **kw):
    pred = np.asarray(pred, float)
    targ = np.asarray(targ, float)
    if name == "mse":
        return float(((pred - targ) ** 2).mean())
    if name == "cross_entropy":
        z = pred - pred.max(axis=1, keepdims=True)
        lp = z - np.log(np.exp(z).sum(axis=1, keepdims=True))
        y = (targ > 0).astype(float)
        return float(-(y * lp).sum())
    if name == "pseudo_huber":
        d = kw.get("boundary_scale", 1.5)
        return float(d * d * (np.sqrt(1 + ((targ - pred) / d) ** 2) - 1).sum())
    if var is not None and pred.ndim == 2:
        var = np.asarray(var)[:, None] * np.ones_like(pred)
    if name in ("lool", "lool_unscaled"):
        v = var * (scale if name == "lool" else 1.0)
        return float(((pred - targ) ** 2 / v + np.log(v)).sum())
    if name == "looph":
        d = kw.get("boundary_scale", 3.0)
        v = var * scale
        return float((2 * d * d * (np.sqrt(1 + (pred - targ) ** 2 / (d * d * v)) - 1) + np.log(v)).sum())
    raise KeyError(name)
