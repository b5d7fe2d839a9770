"""C14, C15, C16: neighbour lookups, sampled batches, mini-batch optimisation.

The index behind a lookup is either the real one (scikit-learn, hnswlib) or a stub that gives
any legal answer: for an exact index any order of ties, for an approximate one also missed
neighbours, the queried point itself among them.
"""
import copy
import math
import random

import numpy as np

from .. import core, loader, models, ref, seams
from ..core import Violation
from . import distributed as dd
from .common import Check, Result, close, diff_note, fingerprint, inside, short


# ------------------------------------------------------------------ data and indices
def points(spec):
    """Training and test points of a workload; style decides ties and duplicates."""
    g = np.random.RandomState(spec["seed"])
    n, t, d = spec["train"], spec["test"], spec["d"]
    st = spec["style"]
    if st == "grid":
        x, y = g.randint(0, 4, size=(n, d)) * 1.0, g.randint(0, 4, size=(t, d)) * 1.0
    elif st == "dups":
        x = g.uniform(-2, 2, size=(n, d))
        for _ in range(max(1, n // 2)):
            x[g.randint(n)] = x[g.randint(n)]
        y = np.concatenate([x[g.randint(n, size=t // 2)], g.uniform(-2, 2, size=(t - t // 2, d))])
    elif st == "same":
        x, y = np.ones((n, d)), np.ones((t, d))
    else:
        x, y = g.uniform(-2, 2, size=(n, d)), g.uniform(-2, 2, size=(t, d))
    if spec.get("scale", 1.0) != 1.0:
        x, y = x * spec["scale"], y * spec["scale"]
    if spec.get("flat"):
        x, y = x[:, 0], y[:, 0]
    if spec.get("int"):
        x, y = x.astype(int), y.astype(int)
    return models.laid_out(x, spec.get("layout")), models.laid_out(y, spec.get("layout"))


def table(q, x, space):
    """Distances as the lookup documents them."""
    q, x = q.reshape(len(q), -1), x.reshape(len(x), -1)
    if space == "l1":
        return np.abs(q[:, None] - x[None]).sum(-1)
    if space == "max":
        return np.abs(q[:, None] - x[None]).max(-1)
    if space == "p3":
        return (np.abs(q[:, None] - x[None]) ** 3).sum(-1) ** (1 / 3)
    if space == "ip":
        return 1.0 - q @ x.T
    if space == "cosine":
        f = lambda a: a / np.maximum(np.linalg.norm(a, axis=1, keepdims=True), 1e-30)
        return 1.0 - f(q) @ f(x).T
    d = ((q[:, None] - x[None]) ** 2).sum(-1)
    return np.sqrt(d) if space == "root" else d


class AnyIndex:
    """A legal index whose answers are drawn.  Modes per point: 0 plain, 1 ties in any order,
    2 missed neighbours, 3 missed neighbours and itself missed."""

    def __init__(self, x, ch, seed, approx):
        self.x, self.ch, self.seed, self.approx = x.reshape(len(x), -1), ch, seed, approx
        self.metric, self.p = "minkowski", 2
        self.memo, self.counts = {}, [0, 0, 0, 0]

    def answer(self, q, k):
        key = (q.tobytes(), k)
        if key not in self.memo:
            mode = self.ch.choose(4 if self.approx else 2, p0=0.15)
            keep, seams.ENTROPY = seams.ENTROPY, random.Random(0)        # the draws are not the library's
            g = np.random.RandomState((self.seed + len(self.memo)) % 2 ** 32)
            seams.ENTROPY = keep
            d = ((q[None] - self.x) ** 2).sum(-1)
            if self.approx:
                d = d.astype(np.float32)
            tie = g.permutation(len(d)) if mode else np.arange(len(d))
            order = np.lexsort((tie, d))
            if mode >= 2:
                hide = set(np.nonzero(d == 0)[0]) if mode == 3 else set()
                hide |= {i for i in order[:k + 3] if g.rand() < 0.3}
                rest = [i for i in order if i not in hide]
                gone = [i for i in order if i in hide]
                order = np.array(sorted((rest + gone)[:k], key=lambda i: (d[i], tie[i])))
            self.counts[mode] += 1
            self.memo[key] = order[:k], d[order[:k]]
        return self.memo[key]

    def kneighbors(self, X, n_neighbors=None, return_distance=True):
        a = [self.answer(q, n_neighbors) for q in np.asarray(X, float)]
        i = np.array([b[0] for b in a], dtype=np.int64)
        return (np.sqrt(np.array([b[1] for b in a])), i) if return_distance else i

    def knn_query(self, data, k=1, num_threads=-1, filter=None):
        a = [self.answer(q, k) for q in np.asarray(data, float)]
        return np.array([b[0] for b in a], dtype=np.uint64), np.array([b[1] for b in a], dtype=np.float32)


def lookup(W, l, x, ch, seed):
    """A lookup of the workload; returns it, the distance it uses and the stub (or None)."""
    m = l["method"]
    if m == "hnsw":
        kw = {"space": l["space"], "M": l["M"], "ef_construction": 60}
        nb = W.neighbors.NN_Wrapper(x, l["k"], nn_method="hnsw", **kw)
        return nb, l["space"], None
    if m == "exact":
        kw = {"algorithm": l["algo"]}
        if l["space"] == "l1":
            kw.update({"metric": "manhattan"} if l.get("named") else {"p": 1})
        elif l["space"] == "max":
            kw["metric"] = "chebyshev"
        elif l["space"] == "p3":
            kw["p"] = 3
        elif l["space"] == "root":
            kw["metric"] = "euclidean"       # not the default: its distances are not squared
        elif l.get("named"):
            kw.update(metric="minkowski", p=2)
        nb = W.neighbors.NN_Wrapper(x, l["k"], nn_method="Exact" if l.get("named") else "exact", **kw)
        return nb, l["space"], None
    approx = m == "any_approx"
    nb = W.neighbors.NN_Wrapper(x, l["k"], nn_method="hnsw" if approx else "exact")
    if not hasattr(nb, "nbrs"):
        raise core.HarnessError("the lookup no longer keeps its index in .nbrs")
    nb.nbrs = stub = AnyIndex(x, ch, seed, approx)
    return nb, "l2", stub


def gen_points(r, hi=36):
    s = {"seed": r.randrange(10 ** 6), "train": r.randint(6, hi), "test": r.randint(1, 8), "d": r.choice([1, 2, 2, 3]),
         "style": r.choice(["plain", "grid", "grid", "dups", "dups", "same"]), "scale": r.choice([1.0, 1.0, 1e-3, 1e3])}
    if s["d"] == 1 and r.random() < 0.6:
        s["flat"] = True
    if r.random() < 0.15:
        s["layout"] = r.choice(["fortran", "strided", "readonly"])
    if s["style"] == "grid" and s["scale"] != 1e-3 and r.random() < 0.3:
        s["int"] = True
    if r.random() < 0.03:
        # sizes at which an implementation could change its ways
        s.update(train=r.randint(60, 400), test=r.randint(50, 400), large=True)
    return s


def gen_lookup(r, s):
    m = r.choice(["exact", "hnsw", "any_exact", "any_approx", "any_approx"])
    l = {"method": m, "k": r.randint(1, min(8, s["train"] - 1))}
    if m == "exact":
        l.update(algo=r.choice(["ball_tree", "kd_tree", "brute", "auto"]), space=r.choice(["l2", "l2", "l2", "l1", "l1", "max", "p3", "root"]))
        if r.random() < 0.5:
            l["named"] = True
    if m == "hnsw":
        l.update(space="l2" if s["style"] == "same" else r.choice(["l2", "l2", "l2", "ip", "cosine"]), M=r.choice([4, 8, 16]))
    return l


def check_neighbours(nn, dist, want_rows, k, d_all, exact, approx_float, self_idx, who, space="l2"):
    """Judge one answer of a lookup."""
    nn, dist = np.asarray(nn), np.asarray(dist)
    if nn.shape != (want_rows, k) or dist.shape != (want_rows, k):
        raise Violation("wrong-shape", f"{who}: indices {nn.shape} and distances {dist.shape} instead of {(want_rows, k)}")
    if nn.dtype.kind not in "iu":
        raise Violation("wrong-type", f"{who}: indices of type {nn.dtype}")
    n = d_all.shape[1]
    # inner products are rounded relative to the terms, which are at least 1
    top = max(1e-12, float(np.abs(d_all).max()), 1.0 if space in ("ip", "cosine") else 0.0)
    tol = 2e-5 * top if approx_float else 1e-9 * top
    for i in range(want_rows):
        row = nn[i].tolist()
        if min(row) < 0 or max(row) >= n:
            raise Violation("out-of-range", f"{who} row {i}: {row} with {n} training points")
        if len(set(row)) != k:
            raise Violation("not-distinct", f"{who} row {i}: {row}")
        if self_idx is not None and int(self_idx[i]) in row:
            raise Violation("self-neighbour", f"{who} row {i}: point {int(self_idx[i])} is its own neighbour: {row}")
        true = d_all[i, nn[i]]
        # brute force takes roots of rounded squares
        off = np.abs(dist[i] ** 2 - true ** 2) if space == "root" else np.abs(dist[i] - true)
        if not np.all(off <= tol * (top if space == "root" else 1)):
            raise Violation("wrong-distance", f"{who} row {i}: {short(dist[i].tolist())} for neighbours {row} at {short(true.tolist())}")
        if np.any(np.diff(dist[i].astype(float)) < 0):
            raise Violation("not-sorted", f"{who} row {i}: distances {short(dist[i].tolist())}")
        if exact:
            o = np.delete(d_all[i], int(self_idx[i])) if self_idx is not None else d_all[i]
            best = np.sort(o)[:k]
            off = np.abs(dist[i] ** 2 - best ** 2) if space == "root" else np.abs(dist[i] - best)
            if not np.all(off <= tol * (top if space == "root" else 1)):
                raise Violation("not-nearest", f"{who} row {i}: distances {short(dist[i].tolist())}, the nearest are at {short(best.tolist())}")


class Sampling(Check):
    real = ["MuyGPyS (numpy backend)", "numpy", "scikit-learn", "hnswlib (except in runs with a drawn index)"]
    stub = ["entropy", "in part of the runs the index: it gives any legal answer"]

    def preload(self):
        loader.load("numpy")

    def shrinks(self, wl):
        for i in range(len(wl["ops"])):
            if len(wl["ops"]) > 1:
                w = copy.deepcopy(wl)
                del w["ops"][i]
                yield w
        if wl["data"]["train"] > wl["lookup"]["k"] + 2:
            for n in (wl["lookup"]["k"] + 2, wl["data"]["train"] // 2, wl["data"]["train"] - 1):
                if wl["lookup"]["k"] + 2 <= n < wl["data"]["train"]:
                    w = copy.deepcopy(wl)
                    w["data"]["train"] = n
                    yield w

    def world(self, wl, ch, seed):
        W = loader.load("numpy")
        core.install(W.mods)
        x, y = points(wl["data"])
        nb, space, stub = lookup(W, wl["lookup"], x, ch, seed)
        return W, x, y, nb, space, stub

    @staticmethod
    def faults(stub):
        if stub is None:
            return {}
        return {k: v for k, v in zip(("", "ties_reordered", "neighbours_missed", "point_itself_missed"), stub.counts) if k and v}


class C15(Sampling):
    id, quick, thorough = "C15", 12000, 600000
    rule = ("one evaluation = one lookup over one data set answering 1-6 queries for training and new points; non-trivial = at least one "
            "answered query; distinct by a hash of the data and of the answers")
    assumptions = ["the index returns the requested number of distinct points nearest first (its contract), not necessarily the nearest ones"]

    def gen(self, r, i, tier):
        s = gen_points(r)
        l = gen_lookup(r, s)
        ops = []
        for _ in range(r.randint(1, 6)):
            if r.random() < 0.7:
                ops.append({"op": "batch", "rows": [r.randrange(s["train"]) for _ in range(r.randint(1, 6))] if r.random() < 0.2 else
                            r.sample(range(s["train"]), r.randint(1, s["train"]))})
                if r.random() < 0.15:
                    ops[-1]["type"] = r.choice(["int32", "uint8", "uint64"])
            else:
                ops.append({"op": "new", "rows": [r.randrange(s["test"]) for _ in range(r.randint(1, s["test"] if s.get("large") else 6))]})
                if r.random() < 0.5:
                    ops[-1]["buffer"] = True
        return {"data": s, "lookup": l, "ops": ops}

    def run(self, wl, ch, seed):
        try:
            W, x, y, nb, space, stub = self.world(wl, ch, seed)
            keep = fingerprint([x, y])
            k, answers, refused, buffers = wl["lookup"]["k"], [], 0, {}
            hn = wl["lookup"]["method"] in ("hnsw", "any_approx")
            exact = wl["lookup"]["method"] in ("exact", "any_exact")
            for n, op in enumerate(wl["ops"]):
                # the rows are given modulo the size, so that smaller data sets can be tried
                m = len(x) if op["op"] == "batch" else len(y)
                rows = np.array(list(dict.fromkeys(v % m for v in op["rows"])) if op["op"] == "batch" else [v % m for v in op["rows"]])
                rows = rows.astype(op.get("type", int))
                q = x[rows] if op["op"] == "batch" else y[rows]
                if op.get("buffer"):
                    # the caller fills one array again and again
                    b = buffers.setdefault(q.shape, q.copy())
                    b[...] = q
                    q = b
                try:
                    got = nb.get_batch_nns(rows) if op["op"] == "batch" else nb.get_nns(q)
                except RuntimeError as e:
                    if "contiguous 2D array" in str(e) and wl["lookup"]["method"] == "hnsw":
                        refused += 1        # hnswlib could not find enough points and says so
                        continue
                    raise
                check_neighbours(got[0], got[1], len(rows), k, table(q, x, space), exact, hn,
                                 rows if op["op"] == "batch" else None, f"query {n} ({op['op']})", space)
                if hn and stub is not None:
                    # apart from the point itself, the answer is the index's
                    for i, p in enumerate(q.reshape(len(rows), -1).astype(float)):
                        idx, _ = stub.answer(p, k + (op["op"] == "batch"))
                        want = [int(v) for v in idx if op["op"] == "new" or int(v) != rows[i]][:k]
                        if [int(v) for v in got[0][i]] != want:
                            raise Violation("not-the-answer", f"query {n} row {i}: {got[0][i].tolist()} instead of the index's {want}")
                answers.append([np.array(got[0]), np.array(got[1])])
                # what the caller does with an answer is none of the lookup's business
                for a in got:
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 0
            if fingerprint([x, y]) != keep:
                raise Violation("input-changed", "the features were modified")
        finally:
            core.install({})
        return Result(fingerprint([wl["data"], answers]), bool(answers), 0, len(wl["ops"]), 0.0, self.faults(stub),
                      dict(queries=sum(len(o["rows"]) for o in wl["ops"]), refused_by_index=refused, **{wl["lookup"]["method"]: 1}))


# labels that do not fit in the small integer types, and neighbours that smaller floats cannot tell apart
WIDE = [0, 3, 128, 259, 300, 65539, 70000, 2 ** 24, 2 ** 24 + 1, 2 ** 31 + 3]


class C14(Sampling):
    id, quick, thorough = "C14", 12000, 600000
    rule = ("one evaluation = one data set with labels, one lookup and 1-5 sampled batches under seeded draws; non-trivial = at least one "
            "non-empty batch; distinct by a hash of the data and the batches")

    def gen(self, r, i, tier):
        s = gen_points(r)
        l = gen_lookup(r, s)
        if l["method"] == "exact" and s["style"] != "plain" and l["algo"] in ("brute", "auto"):
            l["algo"] = "ball_tree"      # brute force orders ties by the rounding of the whole query
        lab = {"seed": r.randrange(10 ** 6), "classes": r.sample([-3, -1, 0, 1, 2, 5, 9], r.randint(1, 4)) if r.random() < 0.8 else r.sample(WIDE, r.randint(1, 4)), "how": r.choice(["even", "skewed", "blocks"]),
               "type": r.choice(["int", "int", "float"])}
        if lab["type"] == "float" and r.random() < 0.4:
            lab["between"] = True
        ops = []
        for _ in range(r.randint(1, 5)):
            o = r.choice(["sample", "sample", "balanced", "balanced", "balanced", "filtered", "sample_balanced"])
            ops.append({"op": o, "count": r.choice([1, 2, 3, s["train"] - 1, s["train"], s["train"] + 3, r.randint(1, s["train"])]),
                        "seed": r.randrange(10 ** 6)})
            if o == "sample" and r.random() < 0.15:
                ops[-1]["first"] = r.randint(1, s["train"])
        return {"data": s, "lookup": l, "labels": lab, "ops": ops}

    def run(self, wl, ch, seed):
        amb = np.random.get_state()
        try:
            W, x, y, nb, space, stub = self.world(wl, ch, seed)
            k, n = wl["lookup"]["k"], len(x)
            L = wl["labels"]
            g = np.random.RandomState(L["seed"])
            c = np.array(L["classes"], dtype=float if L["type"] == "float" else int)
            if L.get("between"):
                c = c / 8 + 0.25
            if L["how"] == "even":
                lab = c[g.randint(len(c), size=n)]
            elif L["how"] == "skewed":
                lab = np.where(g.rand(n) < 0.85, c[0], c[g.randint(len(c), size=n)])
            else:
                lab = c[(np.argsort(np.argsort(x.reshape(n, -1)[:, 0], kind="stable")) * len(c)) // n]
            keep = fingerprint([x, y, lab])
            try:
                full, _ = nb.get_batch_nns(np.arange(n))
            except RuntimeError as e:
                if "contiguous 2D array" in str(e):
                    return Result(fingerprint([wl["data"]]), False)
                raise
            full = np.asarray(full)
            mixed = np.array([len(set(lab[row].tolist())) > 1 for row in full])
            batches = []
            for j, op in enumerate(wl["ops"]):
                np.random.seed(op["seed"])
                B, o, cnt = W.batch, op["op"], op["count"]
                who = f"batch {j} ({o} of {cnt})"
                # batches may be drawn from the first points only
                m = min(op.get("first", n), n)
                if o == "sample":
                    idx, nn = B.sample_batch(nb, cnt, m)
                elif o == "balanced":
                    idx, nn = B.get_balanced_batch(nb, lab, cnt)
                elif o == "filtered":
                    idx, nn = B.full_filtered_batch(nb, lab)
                else:
                    idx, nn = B.sample_balanced_batch(nb, lab, cnt)
                idx, nn = np.asarray(idx), np.asarray(nn)
                if idx.ndim != 1 or idx.dtype.kind not in "iu":
                    raise Violation("wrong-shape", f"{who}: indices {idx.dtype}{idx.shape}")
                li = idx.tolist()
                if len(set(li)) != len(li):
                    raise Violation("repeated", f"{who}: {short(li)}")
                if li and (min(li) < 0 or max(li) >= m):
                    raise Violation("out-of-range", f"{who}: {short(li)} with {m} training points")
                if nn.shape != (len(li), k):
                    raise Violation("wrong-shape", f"{who}: neighbours {nn.shape} instead of {(len(li), k)}")
                for i, v in enumerate(li):
                    if nn[i].tolist() != full[v].tolist():
                        raise Violation("wrong-neighbours", f"{who} row {i}: point {v} with {nn[i].tolist()}, its neighbours are {full[v].tolist()}")
                if o == "sample":
                    if li in (list(range(cnt)), list(range(m - cnt, m))) and math.comb(m, cnt) > 10 ** 12:
                        raise Violation("not-drawn", f"{who}: {short(li)}")
                    if len(li) != min(cnt, m):
                        raise Violation("wrong-size", f"{who}: {len(li)} members of {m} training points")
                else:
                    each = None if o == "filtered" or (o == "balanced" and n <= cnt) else cnt // len(set(lab.tolist()))
                    for v in li:
                        if not mixed[v]:
                            raise Violation("constant-neighbourhood", f"{who}: point {v} has neighbours of one class only")
                    for cl in sorted(set(lab.tolist())):
                        have = sum(1 for v in li if lab[v] == cl)
                        can = int(np.sum(mixed & (lab == cl)))
                        want = can if each is None else min(each, can)
                        if have != want:
                            raise Violation("not-balanced", f"{who}: {have} members of class {cl}, expected {want} ({can} available)")
                batches.append([idx, nn])
            if fingerprint([x, y, lab]) != keep:
                raise Violation("input-changed", "the features or labels were modified")
        finally:
            np.random.set_state(amb)
            core.install({})
        return Result(fingerprint([wl["data"], lab, batches]), any(len(b[0]) for b in batches), 0, len(batches), 0.0, self.faults(stub),
                      dict(batches=len(batches), members=sum(len(b[0]) for b in batches), **{wl["lookup"]["method"]: 1}))


# ------------------------------------------------------------------ C16
class C16(Check):
    id, quick, thorough = "C16", 1100, 60000
    real = ["MuyGPyS (whole library, numpy backend)", "numpy", "bayes_opt", "scikit-learn"]
    stub = ["clocks", "entropy", "bayes_opt's search for the next trial: the same within a run for the same trials and random state, rounded to 8 digits"]
    rule = ("one evaluation = one mini-batch optimisation of 1-4 epochs; every batch, every trial and the returned tuple are compared with the "
            "reference model; non-trivial = more than one evaluated point; distinct by a hash of the trials and the returned state")
    assumptions = ["at least one random point per epoch is asked for, and duplicate points are allowed (the library's default)"]

    def preload(self):
        loader.load("numpy")

    def gen(self, r, i, tier):
        d = r.choice([1, 2, 2, 3])
        data = {"seed": r.randrange(10 ** 6), "train": r.randint(12, 30) if r.random() < 0.85 else r.randint(60, 260), "test": 4, "d": d, "R": 1}
        if r.random() < 0.4:
            data["flat_targets"] = True
        if r.random() < 0.15:
            data["layout"] = r.choice(["fortran", "strided", "readonly"])
        while True:
            cfg = models.gen_cfg(r, d, free="some", scale=r.choice(["fixed", "analytic"]), deform=r.choice(["iso", "aniso"]))
            if all(n.startswith("length") or n == "smoothness" or n == "noise" for n in models.free_of(cfg)) and cfg["noise"] >= 1e-2:
                break
        o = {"num_epochs": r.randint(1, 3 if tier == "quick" else 5), "keep_state": r.random() < 0.4, "probe_previous": r.random() < 0.5}
        if r.random() < 0.85 or o["num_epochs"] > 1:
            o.update(init_points=r.randint(1, 3), n_iter=r.randint(0, 3))
        elif r.random() < 0.5:
            o["n_iter"] = 1
        if r.random() < 0.4:
            o["random_state"] = r.choice([0, r.randrange(1000)])
        loss = r.choice(["lool", "lool", "mse", "pseudo_huber", "looph"])
        if loss in ("pseudo_huber", "looph") and r.random() < 0.5:
            o["loss_kwargs"] = {"boundary_scale": r.choice([0.5, 2.0, 6.0])}
        if tier == "quick" and r.random() < 0.06:
            o.update(num_epochs=r.randint(4, 6), init_points=1, n_iter=r.randint(0, 1))
        return {"data": data, "model": cfg, "k": r.randint(3, 6), "batch": r.choice([3, 5, 8, 12 if data["train"] > 30 else 3, data["train"] - 1 if data["train"] < 30 else 7, data["train"], data["train"] + 5]),
                "loss": loss, "opts": o, "draw": r.randrange(10 ** 6),
                "clock": r.choice(["steady", "steady", "stalled", "jumpy"]), "verbose": r.random() < 0.1}

    def run(self, wl, ch, seed):
        amb = np.random.get_state()
        try:
            return self.go(wl, ch, seed)
        finally:
            seams.CLOCK = None
            np.random.set_state(amb)
            core.install({})

    def go(self, wl, ch, seed):
        W = loader.load("numpy")
        core.install(W.mods)
        cfg, k, o, n = wl["model"], wl["k"], wl["opts"], wl["data"]["train"]
        data = models.Data(wl["data"])
        # responses identify their row
        Y = data.targets
        where = {float(v): i for i, v in enumerate(Y.reshape(n))}
        model = models.build(W, cfg)
        before = models.hyper_state(model)
        keep = fingerprint([data.train, data.targets])
        clock = seams.SimClock(seed, wl["clock"])
        rows = lambda a: np.array([where[float(v)] for v in np.asarray(a).reshape(-1)])
        epochs = []
        L, name = W.loss, wl["loss"]
        base = models.loss_fn(W, name)
        maker = L.make_var_predict_and_loss_fn if name in models.VAR_LOSSES else L.make_raw_predict_and_loss_fn
        slow = random.Random(f"work-{seed}")

        def make(fn, mean, var, scale, bnt, bt, *a, **kw):
            inner = maker(fn, mean, var, scale, bnt, bt, *a, **kw)
            try:
                e = dict(idx=rows(bt), nn=rows(bnt).reshape(len(bt), -1), trials=[], work=0.0)
            except KeyError:
                raise Violation("wrong-targets", "the objective uses responses that are not in the training data")
            epochs.append(e)

            def f(Kin, Kcross, *aa, **kk):
                v = inner(Kin, Kcross, *aa, **kk)
                t0 = clock.cpu
                clock.advance(slow.choice([0.0, 1e-3, 0.1, 30.0]))
                e["work"] += clock.cpu - t0
                e["trials"].append(({q: float(np.asarray(z)) for q, z in kk.items() if np.ndim(z) == 0 and z is not None}, float(v)))
                return v
            return f
        E = W("MuyGPyS.optimize.experimental.chassis")
        np.random.seed(wl["draw"])
        seams.ENTROPY = random.Random(wl["draw"])
        c0 = clock.cpu
        seams.CLOCK = clock
        try:
            new, nb, secs, probes, steps = E.optimize_from_tensors_mini_batch(
                model, data.train, data.targets, k, wl["batch"], n, loss_fn=L.LossFn(lambda *a, **q: base(*a, **q), make),
                verbose=wl["verbose"], **o)
        finally:
            seams.CLOCK = None
        c1 = clock.cpu
        # --- the input is untouched
        if models.hyper_state(model) != before or fingerprint([data.train, data.targets]) != keep:
            raise Violation("input-changed", "the model or the data given to the optimiser changed")
        # --- epochs
        if len(epochs) != o["num_epochs"]:
            raise Violation("wrong-epochs", f"{len(epochs)} epochs instead of {o['num_epochs']}")
        free = models.free_of(cfg)
        lkw = o.get("loss_kwargs", {})
        x = data.train.reshape(n, -1)
        seen, ls, bests, before_flat = [], None, [], dd.flat_state(cfg, before)
        for e, ep in enumerate(epochs):
            idx, nn = ep["idx"], ep["nn"]
            want = n if o["keep_state"] else min(n, wl["batch"])
            if len(set(idx.tolist())) != len(idx) or len(idx) != want:
                raise Violation("wrong-batch", f"epoch {e}: members {short(idx.tolist())}, expected {want} distinct ones")
            # neighbours in the space in which the previous epoch left the length scales
            z = x / ls if ls is not None else x
            D = ((z[idx][:, None] - z[None]) ** 2).sum(-1)
            check_neighbours(nn, np.take_along_axis(D, nn, 1), len(idx), k, D, True, False, idx, f"epoch {e}")
            if not o["keep_state"]:
                seen.append(tuple(sorted(idx.tolist())))
                if seen[-1] in (tuple(range(want)), tuple(range(n - want, n))) and math.comb(n, want) > 10 ** 12:
                    raise Violation("not-drawn", f"epoch {e}: the batch is {short(list(seen[-1]))}")
            cross, pair = ref.diffs_cross(data.train, data.train, idx, nn), ref.diffs_pair(data.train, nn)
            bt, bnt = Y[idx], Y[nn]
            for j, (kw, v) in enumerate(ep["trials"]):
                if sorted(kw) != sorted(free):
                    raise Violation("wrong-trial", f"epoch {e} trial {j} sets {sorted(kw)}, the free hyperparameters are {sorted(free)}")
                for q in free:
                    if not inside(kw[q], free[q], 1e-6):
                        raise Violation("trial-out-of-bounds", f"epoch {e} trial {j}: {q}={kw[q]} outside {free[q]}")
                w, cond = dd.trial_objective(cfg, before, kw, name, cross, pair, bt, bnt, lkw)
                if cond < 1e9 and not dd.objective_close(cfg, v, w, cond):
                    raise Violation("wrong-objective", f"epoch {e} trial {j} at {kw}: objective {v!r}, the batch gives {w!r}")
            pool = [t for q in epochs[:e + 1] for t in q["trials"]] if o["keep_state"] else ep["trials"]
            if not pool:
                raise Violation("no-trials", f"epoch {e}: nothing was evaluated")
            top = max(pool, key=lambda t: t[1])
            # the starting point is tried first, and with probe_previous, like the best ones found, again in every later epoch
            again = [[before_flat]] if e == 0 or o["probe_previous"] else []
            if o["probe_previous"]:
                again += bests
            for j, any_of in enumerate(again):
                if not any(all(math.isclose(t[q], b[q], rel_tol=1e-9, abs_tol=1e-12) for q in free) for t, _ in ep["trials"] for b in any_of):
                    raise Violation("not-probed", f"epoch {e}: {'the starting point' if j == 0 else f'the best point of epoch {j - 1}'} {any_of[0]} was not tried")
            bests.append([t for t, v in pool if v == top[1]])
            if cfg["deform"] == "aniso":
                p = ref.params(cfg, **dict(dict(zip(models.names_of(cfg), cfg["ls"])), **{q: v for q, v in top[0].items() if q.startswith("length")}))
                ls = np.array(p["ls"])
        # --- report
        evals = sum(len(e["trials"]) for e in epochs)
        ip, ni = o.get("init_points", 5), o.get("n_iter", 20)
        if steps != o["num_epochs"] * ni:
            raise Violation("wrong-report", f"{steps} steps reported, {o['num_epochs']} epochs of {ni} were asked for")
        if probes + steps != evals:
            raise Violation("wrong-report", f"{probes} probed points and {steps} steps reported, {evals} points were evaluated")
        work = sum(e["work"] for e in epochs)
        if not (work - 1e-9 <= secs <= c1 - c0 + 1e-9):
            raise Violation("wrong-time", f"{secs} s of processor time reported; the loop took at least {work} s, the call {c1 - c0} s")
        # --- result
        state = models.hyper_state(new)
        got, start = dd.flat_state(cfg, state), dd.flat_state(cfg, before)
        for q, b in free.items():
            if not inside(got[q], b):
                raise Violation("out-of-bounds", f"optimised {q}={got[q]} outside {b}")
        for q in got:
            if q not in free and got[q] != start[q]:
                raise Violation("fixed-changed", f"fixed {q} went from {start[q]} to {got[q]}")
        same = lambda kw: all(math.isclose(kw[q], got[q], rel_tol=1e-9, abs_tol=1e-12) for q in free)
        hits = [v for kw, v in pool if same(kw)]
        if not hits:
            raise Violation("not-a-trial", f"returned {({q: got[q] for q in free})} was not evaluated in the last search")
        if max(hits) < top[1] - 1e-9 * max(1, abs(top[1])):
            raise Violation("not-the-best", f"returned {got} with objective {max(hits)}, {top[0]} gave {top[1]}")
        if cfg["scale"]["kind"] == "analytic":
            w, cond = self.scale(cfg, got, pair, bnt)
            if cond < 1e9 and not close(state["scale"], w, 1e-4, 1e-12):
                raise Violation("wrong-scale", f"scale {state['scale']}, the last batch gives {w}")
        elif state["scale"] != before["scale"]:
            raise Violation("wrong-scale", f"fixed scale went from {before['scale']} to {state['scale']}")
        D = ((data.test.reshape(len(data.test), -1)[:, None] - x[None]) ** 2).sum(-1)
        q = nb.get_nns(data.test)
        check_neighbours(q[0], q[1], len(data.test), k, D, True, False, None, "the returned lookup")
        # every epoch draws anew
        if len(seen) > 1 and len(set(seen)) == 1 and math.comb(n, len(seen[0])) ** (len(seen) - 1) > 10 ** 12:
            raise Violation("same-draw", f"all {len(seen)} epochs drew the same batch {short(seen[0])}")
        if len(set(seen)) < len(seen) and math.comb(n, len(seen[0])) > 10 ** 10:
            raise Violation("same-draw", f"{len(seen)} epochs drew {len(set(seen))} different batches")
        return Result(fingerprint([[e["idx"], e["nn"], e["trials"]] for e in epochs] + [state]), evals > 1, 0, evals, clock.mono - 100.0,
                      {"clock_jump": clock.jumps, f"clock_{wl['clock']}": 1},
                      dict(epochs=len(epochs), trials=evals, clock_reads=clock.reads))

    @staticmethod
    def scale(cfg, got, pair, bnt):
        par = ref.params(cfg, **got)
        K = ref.kern(cfg, ref.scaled_dist(cfg, pair, par), par) + par["noise"] * np.eye(pair.shape[1])
        return ref.analytic_scale(cfg, par, pair, bnt, cfg["scale"].get("iterations", 1)), max(np.linalg.cond(a) for a in K)

    def shrinks(self, wl):
        o = wl["opts"]
        if o["num_epochs"] > 1:
            yield dict(wl, opts=dict(o, num_epochs=o["num_epochs"] - 1))
        for q in ("keep_state", "probe_previous"):
            if o[q]:
                yield dict(wl, opts=dict(o, **{q: False}))
        if wl["clock"] != "steady":
            yield dict(wl, clock="steady")
        for q in ("init_points", "n_iter"):
            if o.get(q, 0) > 1:
                yield dict(wl, opts=dict(o, **{q: 1}))
