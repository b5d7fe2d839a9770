"""C01-C10: the MPI backend on simulated ranks, judged against one process and a reference model."""
import copy
import itertools
import math

import numpy as np

from .. import dist, loader, models, preempt, ref
from ..core import Violation
from .common import Check, Result, close, diff_note, fingerprint, inside, same_bits, short

REAL = ["MuyGPyS (whole library, mpi backend, one isolated copy per rank; numpy backend as the single process)",
        "numpy", "scipy.optimize", "bayes_opt", "scikit-learn"]
STUB = ["mpi4py and the MPI library (sim/mpi.py: point-to-point and collective semantics)",
        "operating-system scheduling of ranks, entropy",
        "bayes_opt's search for the next trial: the same within a run for the same trials and random state, rounded to 8 digits"]
ASSUME = ["the simulated mpi4py follows the MPI standard for the calls the library makes",
          "all ranks hold the same data and make the same calls, as the library documents",
          "equal ranks compute equally: scikit-learn and scipy give every rank the same next trial for the same arguments"]


# ------------------------------------------------------------------ generators
def gen_net(r, n):
    net = {"send": r.choice(["mixed", "mixed", "eager", "rendezvous"]), "eager_p0": r.choice([0.2, 0.5, 0.8]),
           "early_p0": r.choice([0.3, 0.6, 0.95]), "switch_p0": r.choice([0.2, 0.5, 0.8])}
    if n > 1 and r.random() < 0.35:
        net["stalled"] = sorted(r.sample(range(n), r.choice([1] if n == 2 else [1, 1, 2])))
    return net


def gen_ranks(r, lo=1):
    return max(lo, r.choice([1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8] if r.random() < 0.985 else [7, 9, 12, 16]))


def gen_data(r, R=None, d=None):
    d = d or (r.choice([1, 2, 2, 3, 4]) if r.random() < 0.97 else 11)
    R = R or r.choice([1, 1, 1, 2, 3])
    s = {"seed": r.randrange(10 ** 6), "train": r.randint(18, 40), "test": r.randint(10, 26), "d": d, "R": R}
    if r.random() < 0.025:
        s.update(train=r.randint(150, 400), test=r.randint(100, 300), big=True)
    if R == 1 and r.random() < 0.5:
        s["flat_targets"] = True
    if d == 1 and r.random() < 0.5:
        s["onedim"] = True
    return models.special(r, s)


def gen_batch(r, n, data, top=22):
    R = data["R"]
    c = r.choice([1, max(1, n - 1), n, n + 1, 2 * n, 2 * n + 1, r.randint(1, top), r.randint(1, top), r.randint(1, top)])
    lo = 1 if R > 1 and r.random() < 0.2 else 2
    k = r.randint(lo, 8)
    while k == R:
        k = r.randint(lo, 8)
    if lo == 1 and r.random() < 0.5:
        k = 1
    b = {"count": min(c, 24), "k": k, "seed": r.randrange(10 ** 5)}
    if data.get("big") and top > 12 and r.random() < 0.7:
        b.update(count=r.choice([64, 100, 128, r.randint(50, 300)]), k=r.choice([k, r.randint(9, 20), r.randint(20, 40)]))
    return b


def gen_model(r, d, **kw):
    if d.get("onedim"):
        kw["deform"] = "iso"
    c = models.gen_cfg(r, d["d"], **kw)
    if c["kernel"] == "matern" and c["nu"] == 0.5 and not c.get("noise_bounds") and not c.get("nu_bounds") and d.get("points") != "duplicates" and r.random() < 0.3:
        c["noise"] = 0.0
    return c


def gen_multi(r, data, **kw):
    """One configuration per response; all components use the same tensors."""
    first = gen_model(r, data, **kw)
    rest = [gen_model(r, data, kernel=first["kernel"], **dict(kw, deform=first["deform"])) for _ in range(data["R"] - 1)]
    return [first] + rest


# ------------------------------------------------------------------ judging
def settle(wl, out):
    """Every call returned on every rank, nothing left in the network (C07)."""
    if out.violation is not None:
        raise out.violation
    s = out.sched
    if s.deadlock:
        raise Violation("deadlock", f"no rank can move: {s.deadlock}")
    if s.livelock:
        raise Violation("no-progress", f"not finished after {s.max_steps} scheduling steps")
    for a in s.actors:
        if a.exc is not None:
            raise Violation("rank-died", f"{a.name}: {type(a.exc).__name__}: {a.exc}")
    left = out.rt.leftovers()
    if left:
        raise Violation("leftover-messages", "; ".join(left[:4]))
    h = out.rt.coll_history
    for r in range(1, len(h)):
        if h[r] != h[0]:
            raise Violation("collective-order", f"rank {r} took part in {len(h[r])} collectives, rank 0 in {len(h[0])}, or in another order")


def expected_tensors(wl, op, data):
    """Reference tensors of a tensor-building operation."""
    cfg = wl["models"][op["m"]] if "m" in op else None
    kind = "test" if op["op"] in ("predict_tensors", "deform_cross") else "train"
    b = op["batch"]
    idx, nn = data.train_batch(b["count"], b["k"], b["seed"]) if kind == "train" else \
        data.test_batch(b["count"], b["k"], b["seed"])
    q = data.test if kind == "test" else data.train
    exp = {}

    def geo(diffs):
        if cfg["deform"] != "iso":
            return diffs
        s = (diffs ** 2).sum(-1)
        return s if cfg["metric"] == "F2" else np.sqrt(s)
    if cfg is not None and not isinstance(cfg, list):
        exp["cross"] = geo(ref.diffs_cross(q, data.train, idx, nn))
        exp["pair"] = geo(ref.diffs_pair(data.train, nn))
    if kind == "train":
        exp["targets"] = data.targets[idx]
    exp["nn_targets"] = data.targets[nn]
    exp["feat"] = data.train[idx] if kind == "train" else None
    exp["het"] = data.het[nn]
    return exp


def joined(out, i):
    """Rank-local pieces of operation i: name -> list over ranks."""
    rows = [res[i][1] for res in out.results]
    return {k: [x[k] for x in rows] for k in rows[0]}


def check_pieces(i, op, pieces):
    sizes = None
    for k, ps in pieces.items():
        n = [len(p) for p in ps]
        if max(n) - min(n) > 1:
            raise Violation("uneven-pieces", f"operation {i} ({op['op']}): {k} has {n} rows on the ranks")
        if sizes is None:
            sizes, first = n, k
        elif n != sizes:
            raise Violation("misaligned-pieces", f"operation {i} ({op['op']}): ranks hold {n} rows of {k} but {sizes} of {first}")


def check_status(out, ser, ranks=None):
    for i, (st, *rest) in enumerate(ser):
        if st != "ok":
            raise Violation("single-process-error", f"operation {i}: {rest}")
    for i in range(len(ser)):
        for r, res in enumerate(out.results):
            if len(res) <= i:
                raise Violation("missing-result", f"rank {r} has no result for operation {i}")
            if res[i][0] != "ok":
                raise Violation("rank-error", f"operation {i} on rank {r}: {res[i][1]}: {res[i][2]}")


def check_same(out, i, op):
    base = out.results[0][i][2]
    for r in range(1, len(out.results)):
        o = out.results[r][i][2]
        if not same_bits(base, o):
            for k in base:
                if not same_bits(base[k], o.get(k)):
                    raise Violation("ranks-disagree", f"operation {i} ({op['op']}): {k} is {short(base[k])} on rank 0 and {short(o.get(k))} on rank {r}")
            raise Violation("ranks-disagree", f"operation {i} ({op['op']})")
    return base


def model_par(cfg, state=None):
    if state is None:
        return ref.params(cfg), cfg["scale"].get("val", 1.0)
    return models.par_of(state), float(np.asarray(state["scale"]))


def rtol_of(cfg):
    general = cfg["kernel"] == "matern" and cfg["nu"] not in (0.5, 1.5, 2.5, "inf") or cfg.get("nu_bounds")
    return 1e-5 if general else 1e-7


def expect_posterior(cfg, par, scale, data, op):
    kind = "test"
    b = op["batch"]
    idx, nn = data.test_batch(b["count"], b["k"], b["seed"])
    return ref_posterior(cfg, par, scale, data.test, data.train, data.targets, idx, nn)


def ref_posterior(cfg, par, scale, test, train, targets, idx, nn):
    mean, var, cond = ref.posterior(cfg, par, ref.diffs_cross(test, train, idx, nn), ref.diffs_pair(train, nn), targets[nn])
    return mean, scale * var, cond


def check_rows(i, op, pieces, want, rtol, atol, what):
    for k, w in want.items():
        if k not in pieces or w is None:
            continue
        ps = [np.asarray(p, dtype=float) for p in pieces[k]]
        w = np.asarray(w, dtype=float)
        try:
            got = np.concatenate(ps, axis=0)
        except ValueError:
            raise Violation("wrong-shape", f"operation {i} ({op['op']}): pieces of {k} have shapes {[p.shape for p in ps]}")
        if got.shape != w.shape and got.size == w.size and got.shape[0] == w.shape[0] and k in ("mean", "var"):
            w = w.reshape(got.shape)          # (b,) and (b, 1) are both in use for one response
        if not close(got, w, rtol, atol):
            raise Violation("wrong-rows", f"operation {i} ({op['op']}): joined {k} differs from {what}: {diff_note(got, w)}")


def trial_objective(cfg, before, kw, loss, cross, pair, bt, bnt, loss_kw, mask=None):
    """Reference value of the whole-batch objective at one trial point."""
    base = dict(zip(models.names_of(cfg), list(np.atleast_1d(before["length_scale"])) +
                    ([before["smoothness"]] if cfg["kernel"] == "matern" else [])))
    base["noise"] = before["noise"]
    base.update(kw)
    par = ref.params(cfg, **base)
    mean, var, cond = ref.posterior(cfg, par, cross, pair, bnt)
    s = float(np.asarray(before["scale"]))
    if loss in models.VAR_LOSSES and cfg["scale"]["kind"] == "analytic":
        s = ref.analytic_scale(cfg, par, pair, bnt, cfg["scale"].get("iterations", 1))
    if mask:
        mean, bt = mean[:, list(mask)], bt[:, list(mask)]
    return -ref.loss(loss, mean, bt, var, s, **loss_kw), cond


def objective_close(cfg, v, e, cond):
    # the general Matern formula is inaccurate near distance 0 (5e-9 when close to a whole smoothness)
    loose = rtol_of(cfg) > 1e-6
    rel = 1e-6 + (1e-3 if loose else 0)
    return math.isclose(v, e, rel_tol=max(rel, 1e-12 * cond), abs_tol=1e-7 + (1e-7 if loose else 1e-9) * cond)


def train_ref(data, op, labels):
    b = op["batch"]
    idx, nn = data.train_batch(b["count"], b["k"], b["seed"])
    t = data.labels if labels else data.targets
    return ref.diffs_cross(data.train, data.train, idx, nn), ref.diffs_pair(data.train, nn), t[idx], t[nn]


def check_optimized(wl, i, op, same, data):
    """Oracle for one optimisation as every rank reported it."""
    cfg = wl["models"][op["m"]]
    before, state, trace = same["before"], same["state"], same["trace"]
    cross, pair, bt, bnt = train_ref(data, op, op["loss"] == "cross_entropy")
    free = models.free_of(cfg)
    lkw = op.get("kw", {})
    if not trace:
        raise Violation("no-trials", f"operation {i}: nothing was evaluated")
    names = list(free)
    best = None
    for j, (kw, v) in enumerate(trace):
        if sorted(kw) != sorted(names):
            raise Violation("wrong-trial", f"operation {i} trial {j} sets {sorted(kw)}, the free hyperparameters are {sorted(names)}")
        for n in names:
            if not inside(kw[n], free[n], 1e-6):
                raise Violation("trial-out-of-bounds", f"operation {i} trial {j}: {n}={kw[n]} outside {free[n]}")
        e, cond = trial_objective(cfg, before, kw, op["loss"], cross, pair, bt, bnt, lkw, op.get("mask"))
        if not objective_close(cfg, v, e, cond):
            raise Violation("wrong-objective", f"operation {i} trial {j} at {kw}: objective {v!r}, the whole batch gives {e!r}")
    got = flat_state(cfg, state)
    start = flat_state(cfg, before)
    for n, b in free.items():
        if not inside(got[n], b, 1e-9):
            raise Violation("out-of-bounds", f"operation {i}: optimised {n}={got[n]} outside {b}")
    for n in got:
        if n not in free and got[n] != start[n]:
            raise Violation("fixed-changed", f"operation {i}: fixed {n} went from {start[n]} to {got[n]}")
    if not any(all(math.isclose(kw[n], got[n], rel_tol=1e-9, abs_tol=1e-12) for n in names) for kw, _ in trace):
        raise Violation("not-a-trial", f"operation {i}: returned {({n: got[n] for n in names})} was never evaluated")
    e1, _ = trial_objective(cfg, before, {n: got[n] for n in names}, op["loss"], cross, pair, bt, bnt, lkw, op.get("mask"))
    e0, _ = trial_objective(cfg, before, {n: start[n] for n in names}, op["loss"], cross, pair, bt, bnt, lkw, op.get("mask"))
    if e1 < e0 - 1e-5 * max(1.0, abs(e0)):
        raise Violation("worse-than-start", f"operation {i}: objective {e1} at the result, {e0} at the start")
    if op["opt"].startswith("Bayes"):
        top = max(v for _, v in trace)
        if e1 < top - 1e-5 * max(1.0, abs(top)):
            raise Violation("not-the-best", f"operation {i}: objective {e1} at the result, {top} at another trial")


def flat_state(cfg, state):
    vals = list(np.atleast_1d(state["length_scale"]))
    if cfg["kernel"] == "matern":
        vals.append(state["smoothness"])
    out = dict(zip(models.names_of(cfg), (float(v) for v in vals)))
    out["noise"] = float(np.asarray(state["noise"]))
    return out


def downsample_options(cfg, par, pair, bnt):
    k = pair.shape[1]
    vals = []
    for sub in itertools.combinations(range(k), cfg["scale"]["down"]):
        s = list(sub)
        vals.append(ref.analytic_scale(cfg, par, pair[:, s][:, :, s], bnt[:, s]))
    return vals


def judge_all(wl, out, ser, oracle=True, check=None):
    """Full comparison of a job with the single process and the reference model."""
    check_status(out, ser)
    if out.changed:
        raise Violation("answer-changed", "; ".join(out.changed[:3]))
    data = out.data
    state = {}                       # model -> last reported state
    for i, op in enumerate(wl["ops"]):
        o = op["op"]
        same = check_same(out, i, op)
        if same.get("square"):
            check.finding("shear-as-many-points-as-neighbours", "rank-error", f"operation {i} on every rank: {same['square']}")
            continue
        pieces = joined(out, i)
        if pieces:
            check_pieces(i, op, pieces)
            srows = {k: np.asarray(v) for k, v in ser[i][1].items()}
            cfg = wl["models"][op["m"]] if "m" in op else None
            multi = isinstance(cfg, list)
            rt = 1e-10
            if o in ("posterior", "from_indices", "regress"):
                rt = max(rtol_of(c) for c in (cfg if multi else [cfg]))
            check_rows(i, op, pieces, srows, rt, rt * 0.01 + 1e-12, "the single process")
            if oracle and o in ("posterior", "from_indices") and not multi:
                par, sc = model_par(cfg, state.get(op["m"]))
                mean, var, cond = expect_posterior(cfg, par, sc, data, op)
                if cond < 1e8:
                    tol = max(rt, 1e-12 * cond)
                    check_rows(i, op, pieces, dict(mean=mean, var=var), tol * 10, tol, "the reference model")
            elif oracle and o in ("posterior", "from_indices") and multi:
                ms, vs, worst = [], [], 1.0
                for j, c in enumerate(cfg):
                    par = ref.params(c)
                    sc = c["scale"].get("val", 1.0)
                    if op["m"] in state:
                        sc = state[op["m"]][j]
                    b = op["batch"]
                    idx, nn = data.test_batch(b["count"], b["k"], b["seed"])
                    m_, v_, cond = ref_posterior(c, par, sc, data.test, data.train, data.targets[:, j], idx, nn)
                    ms.append(m_)
                    vs.append(v_)
                    worst = max(worst, cond)
                if worst < 1e8:
                    check_rows(i, op, pieces, dict(mean=np.stack(ms, 1), var=np.stack(vs, 1)),
                               rt * 10, rt, "the reference model")
            elif o == "shear":
                judge_shear(i, op, pieces, same, ser[i][2])
            elif oracle and o == "regress":
                judge_regress(wl, i, op, pieces, same["state"], data, rt)
            elif oracle and o not in ("sampled_train",):
                exp = expected_tensors(wl, op, data)
                tol = 1e-5 if wl["data"].get("points") == "f4" else 1e-10
                check_rows(i, op, pieces, exp, tol, tol * 0.01, "the reference tensors")
        judge_same(wl, i, op, same, ser[i][2], data, state, oracle)


def judge_shear(i, op, pieces, same, sser):
    from . import histories
    d, b = models.Data(op["data"]), op["batch"]
    idx, nn = d.test_batch(b["count"], b["k"], b["seed"])
    val = op["val"]
    if op.get("fit"):
        val = histories.shear_scale(op, ref.diffs_pair(d.train, nn), d.targets[nn])
        if not close(same["scale"], sser["scale"], 1e-8, 1e-12):
            raise Violation("wrong-scale", f"operation {i} (shear): {same['scale']!r} on the ranks, {sser['scale']!r} in a single process")
        if not close(same["scale"], val, 1e-6, 1e-12):
            raise Violation("wrong-scale", f"operation {i} (shear): {same['scale']!r}, the reference gives {val!r}")
    want, cond = histories.shear_reference(op, {"ls": [op["ls"]], "noise": op["noise"], "scale": val},
                                           ref.diffs_cross(d.test, d.train, idx, nn), ref.diffs_pair(d.train, nn), d.targets[nn])
    if cond < 1e7:
        check_rows(i, op, pieces, want, 1e-7 * (1 + cond * 1e-3), 1e-7, "the reference model")


def judge_regress(wl, i, op, pieces, states, data, rt):
    """The workflow on the ranks: a batch that rank 0 drew, then the posterior of every test point."""
    multi = isinstance(wl["models"][op["m"]], list)
    cfgs = wl["models"][op["m"]] if multi else [wl["models"][op["m"]]]
    b = op["batch"]
    keep = np.random.get_state()
    np.random.seed(b["seed"])
    n = data.spec["train"]
    idx = np.random.choice(n, b["count"], replace=False) if b["count"] < n else np.arange(n)
    np.random.set_state(keep)
    k = b["k"]
    nn = data.nns(data.train[idx], k, exclude=idx)
    cross, pair = ref.diffs_cross(data.train, data.train, idx, nn), ref.diffs_pair(data.train, nn)
    tnn = data.nns(data.test, k)
    tcross, tpair = ref.diffs_cross(data.test, data.train, np.arange(len(data.test)), tnn), ref.diffs_pair(data.train, tnn)
    means, vs, worst = [], [], 1.0
    for j, (cfg, st) in enumerate(zip(cfgs, states)):
        T = data.targets[:, j:j + 1] if multi else data.targets
        bt, bnt = T[idx], T[nn]
        got, start, free = flat_state(cfg, st), flat_state(cfg, start_state(cfg)), models.free_of(cfg)
        for q in got:
            if q in free and not inside(got[q], free[q], 1e-9):
                raise Violation("out-of-bounds", f"operation {i}: {q}={got[q]} outside {free[q]}")
            if q not in free and got[q] != start[q]:
                raise Violation("fixed-changed", f"operation {i}: fixed {q} went from {start[q]} to {got[q]}")
        if free:
            before = start_state(cfg)
            e1, c1 = trial_objective(cfg, before, {q: got[q] for q in free}, op["loss"], cross, pair, bt, bnt, {})
            e0, c0 = trial_objective(cfg, before, {q: start[q] for q in free}, op["loss"], cross, pair, bt, bnt, {})
            if max(c0, c1) < 1e7 and e1 < e0 - 1e-5 * max(1.0, abs(e0)):
                raise Violation("worse-than-start", f"operation {i}: objective {e1} of the batch rank 0 drew, {e0} at the start")
        par = models.par_of(st)
        want = cfg["scale"]["val"]
        if cfg["scale"]["kind"] == "analytic" and free:
            want = ref.analytic_scale(cfg, par, pair, bnt, cfg["scale"].get("iterations", 1))
        if cfg["scale"]["kind"] != "down" and not close(float(np.asarray(st["scale"])), want, 1e-4, 1e-12):
            raise Violation("wrong-scale", f"operation {i}: scale {st['scale']} of model {j}, the batch rank 0 drew gives {want}")
        m, v, c = ref.posterior(cfg, par, tcross, tpair, T[tnn])
        means.append(m)
        vs.append(v * float(np.asarray(st["scale"])))
        worst = max(worst, c)
    if worst < 1e8:
        mean, var = (np.concatenate([m.reshape(len(tnn), -1) for m in means], 1), np.stack(vs, 1)) if multi else (means[0], vs[0])
        check_rows(i, op, pieces, dict(mean=mean, var=var), max(rt, 1e-12 * worst) * 10, max(rt, 1e-12 * worst), "the reference model")


def judge_same(wl, i, op, same, sser, data, state, oracle):
    o = op["op"]
    if o == "shear" and op.get("loss"):
        if not close(same["obj"], sser["obj"], 1e-8, 1e-9):
            raise Violation("wrong-loss", f"operation {i} ({op['loss']} of the shears): {same['obj']!r} on the ranks, {sser['obj']!r} in a single process")
        from . import histories
        d, b = models.Data(op["data"]), op["batch"]
        idx, nn = d.train_batch(b["count"], b["k"], b["seed"])
        e, cond = histories.shear_objective(op, op["point"], op["noise"], op["fit"] if op.get("fit") else float(op["val"]), op["loss"], None,
                                            ref.diffs_cross(d.train, d.train, idx, nn), ref.diffs_pair(d.train, nn), d.targets[idx], d.targets[nn])
        if cond < 1e7 and not math.isclose(same["obj"], e, rel_tol=max(1e-6, 1e-11 * cond), abs_tol=max(1e-6, 1e-11 * cond)):
            raise Violation("wrong-loss", f"operation {i} ({op['loss']} of the shears): {same['obj']!r} on the ranks, the reference gives {e!r}")
    elif o in ("loss", "objective", "loss_split"):
        k = "obj" if o == "objective" else "loss"
        cfg = wl["models"][op["m"]] if "m" in op else None
        rt = 1e-9 if cfg is None else max(1e-8, rtol_of(cfg))
        if not close(same[k], sser[k], rt, 1e-9):
            raise Violation("wrong-loss", f"operation {i} ({o} {op['loss']}): {same[k]!r} on the ranks, {sser[k]!r} in a single process")
        if o == "loss_split":
            p, t, v = dist.split_arrays(op)
            e = ref.loss(op["loss"], p, t, v, op.get("sigma", 1.0), **op.get("kw", {}))
            if not close(same[k], e, 1e-8, 1e-9):
                raise Violation("wrong-loss", f"operation {i} ({op['loss']}): {same[k]!r} on the ranks, the formula gives {e!r}")
        elif o == "objective" and oracle:
            before = state.get(op["m"]) or start_state(cfg)
            cross, pair, bt, bnt = train_ref(data, op, op["loss"] == "cross_entropy")
            e, cond = trial_objective(cfg, before, op["point"], op["loss"], cross, pair, bt, bnt, op.get("kw", {}), op.get("mask"))
            if not objective_close(cfg, same[k], e, cond):
                raise Violation("wrong-loss", f"operation {i} objective at {op['point']}: {same[k]!r}, the reference gives {e!r}")
    elif o in ("whole", "gather"):
        if same.get("messages"):
            raise Violation("needless-messages", f"operation {i}: tensors without MPI took {same['messages']} MPI calls")
        exp = expected_tensors(wl, op, data)
        tol = 1e-5 if wl["data"].get("points") == "f4" else 1e-10
        for k, v in same.items():
            if k in exp and not close(v, exp[k], tol, tol * 0.01):
                raise Violation("wrong-rows", f"operation {i} ({o}): {k} on every rank differs from the reference tensors: {diff_note(v, exp[k])}")
    elif o in ("scale", "scale_split"):
        cfg = wl["models"][op["m"]]
        if isinstance(cfg, list):
            for j, c in enumerate(cfg):
                judge_scale(i, op, c, same["scale"][j], sser["scale"][j], data, data.targets[:, j], None, oracle)
            state[op["m"]] = list(same["scale"])
        else:
            before = state.get(op["m"])
            judge_scale(i, op, cfg, same["scale"], sser["scale"], data, data.targets, before, oracle)
            st = dict(before or start_state(cfg))
            st["scale"] = same["scale"]
            state[op["m"]] = st
    elif o in ("optimize", "optimize_from_indices"):
        if same.get("unchanged") is False:
            raise Violation("input-changed", f"operation {i}: the model given to the optimiser changed")
        if oracle:
            check_optimized(wl, i, op, same, data)
        state[op["m"]] = same["state"]
    elif o == "sample_model":
        cfg = wl["models"][op["m"]]
        st = same["state"]
        for v, b in zip(np.atleast_1d(st["length_scale"]), same["bounds"]):
            if not inside(float(v), b):
                raise Violation("sample-out-of-bounds", f"operation {i}: length scale {v} outside {b}")
        if "smoothness" in st and not inside(st["smoothness"], (0.4, 2.0)):
            raise Violation("sample-out-of-bounds", f"operation {i}: smoothness {st['smoothness']}")
        if not inside(float(np.asarray(st["noise"])), (0.001, 0.2)):
            raise Violation("sample-out-of-bounds", f"operation {i}: noise {st['noise']}")
        state[op["m"]] = st
    elif o == "sample_param":
        if op["bounds"] is None:
            if not same["refused"]:
                raise Violation("not-refused", f"operation {i}: a fixed hyperparameter accepted {op['how']!r}")
        else:
            for v in np.atleast_1d(same["val"]):
                if not inside(float(v), op["bounds"]):
                    raise Violation("sample-out-of-bounds", f"operation {i}: {v} outside {op['bounds']}")
    elif o == "unsupported":
        if not same["refused"]:
            raise Violation("not-refused", f"operation {i}: unsupported {op['which']} returned a {same.get('got')}")


def judge_scale(i, op, cfg, got, sgot, data, targets, before, oracle):
    par, sc = model_par(cfg, before)
    kind = cfg["scale"]["kind"]
    if op["op"] == "scale_split":
        pass
    b = op["batch"]
    idx, nn = data.train_batch(b["count"], b["k"], b["seed"])
    pair, bnt = ref.diffs_pair(data.train, nn), targets[nn]
    if kind == "fixed":
        if got != sc:
            raise Violation("wrong-scale", f"operation {i}: fixed scale {sc} became {got}")
        return
    if kind == "analytic":
        if not close(got, sgot, max(1e-8, rtol_of(cfg)), 1e-12):
            raise Violation("wrong-scale", f"operation {i}: {got!r} on the ranks, {sgot!r} in a single process")
        if oracle:
            e = ref.analytic_scale(cfg, par, pair, bnt, cfg["scale"].get("iterations", 1))
            if not close(got, e, 1e-4, 1e-12):
                raise Violation("wrong-scale", f"operation {i}: {got!r}, the reference gives {e!r}")
        return
    if math.comb(pair.shape[1], cfg["scale"]["down"]) * len(pair) > 20000:
        return                            # too many choices to list
    opts = downsample_options(cfg, par, pair, bnt)
    if cfg["scale"]["iterations"] % 2:
        if not any(close(got, e, 1e-5, 1e-12) for e in opts):
            raise Violation("wrong-scale", f"operation {i}: {got!r} is the scale of no choice of {cfg['scale']['down']} neighbours for the whole batch")
    else:
        o = np.asarray(opts)
        if not np.any(np.abs((o[:, None] + o[None]) / 2 - got) <= 1e-5 * abs(got) + 1e-12):
            raise Violation("wrong-scale", f"operation {i}: {got!r} is not the middle of the scales of any two choices of {cfg['scale']['down']} neighbours")


def start_state(cfg):
    p = ref.params(cfg)
    st = {"length_scale": p["ls"] if cfg["deform"] == "aniso" else p["ls"][0], "noise": p["noise"],
          "scale": cfg["scale"].get("val", 1.0)}
    if cfg["kernel"] == "matern":
        st["smoothness"] = p["nu"]
    return st


def result_of(wl, out, digest_extra=(), faults=None, nontrivial=None):
    st = out.rt.stats
    f = dict(faults or {})
    f.update({k: st[k] for k in ("rendezvous", "reduce_orders", "early_exits", "fault_crash", "fault_memory", "fault_linalg") if st[k]})
    if out.sched.stall_events:
        f["stalled_rank_steps"] = out.sched.stall_events
    body = [[("ok", x[1], x[2]) if x[0] == "ok" else x for x in r] for r in out.results]
    dig = fingerprint([out.sched.digest(), body, list(digest_extra)])
    return Result(dig, nontrivial if nontrivial is not None else (wl["ranks"] > 1 and st["messages"] + st["collectives"] > 0),
                  out.sched.switches, out.sched.steps, out.sched.now, f,
                  dict(messages=st["messages"], collectives=st["collectives"], ranks=wl["ranks"], bytes=st["bytes"],
                       operations=len(wl["ops"])))


# ------------------------------------------------------------------ base class
class Job(Check):
    real, stub, assumptions = REAL, STUB, ASSUME
    rule = ("one evaluation = one simulated job (one workload under one schedule); non-trivial = more than one rank and at "
            "least one message or collective; distinct by a hash of the full schedule and all ranks' results")

    def preload(self):
        loader.load("numpy")
    
    def run(self, wl, ch, seed):
        out = dist.run_job(wl, ch, seed)
        settle(wl, out)
        ser, _ = dist.run_serial(wl, out.np_state0, adopt_from=adoption(out))
        judge_all(wl, out, ser, check=self)
        return result_of(wl, out)

    def shrinks(self, wl):
        return job_shrinks(wl)


def adoption(out):
    """States the single process takes over from the job after every optimisation."""
    if not out.results or not out.results[0]:
        return {}
    return {i: x[2] for i, x in enumerate(out.results[0]) if x[0] == "ok"}


def job_shrinks(wl):
    w = copy.deepcopy(wl)
    for n in (1, 2, 3):
        if n < wl["ranks"]:
            w = copy.deepcopy(wl)
            w["ranks"] = n
            w["net"].pop("stalled", None)
            w["faults"] = [f for f in w.get("faults", []) if max(f.get("rank", 0), f.get("src", 0), f.get("dst", 0)) < n]
            if any(o["op"].endswith("_split") or o["op"] == "shear" for o in w["ops"]):
                continue
            if len(w["faults"]) == len(wl.get("faults", [])):
                yield w
    for i in range(len(wl["ops"])):
        if len(wl["ops"]) > 1:
            w = copy.deepcopy(wl)
            del w["ops"][i]
            yield w
    for i, o in enumerate(wl["ops"]):
        if "batch" in o and o["op"] != "shear":
            for c in (1, 2, wl["ranks"], o["batch"]["count"] // 2):
                if 0 < c < o["batch"]["count"] and not o["op"].endswith("_split"):
                    w = copy.deepcopy(wl)
                    w["ops"][i]["batch"]["count"] = c
                    yield w
            if o["batch"]["k"] > 3 and wl["data"]["R"] != 3 and o["op"] not in ("scale", "scale_split"):
                w = copy.deepcopy(wl)
                w["ops"][i]["batch"]["k"] = 3
                yield w
    if wl["net"].get("send") != "eager":
        w = copy.deepcopy(wl)
        w["net"]["send"] = "eager"
        yield w
    if wl["net"].get("stalled"):
        w = copy.deepcopy(wl)
        w["net"].pop("stalled")
        yield w


def base(r, n, data, cfgs, ops):
    if any(o["op"] in ("sampled_train", "regress") for o in ops) and data.get("points") != "on_train":
        data.pop("points", None)         # neighbours are searched for, and equally far ones are found in any order
    for o in ops:
        if "m" in o and isinstance(cfgs[o["m"]], list) and o["batch"]["k"] == 1:
            o["batch"]["k"] = 5          # its components have one response and one neighbour then
        c = cfgs[o["m"]] if "m" in o else None
        if isinstance(c, dict) and c["scale"]["kind"] == "down" and "batch" in o and o["batch"]["k"] <= c["scale"]["down"]:
            o["batch"]["k"] = 5          # fewer neighbours than it has are drawn
    return {"ranks": n, "data": data, "models": cfgs, "ops": ops, "net": gen_net(r, n)}


# ------------------------------------------------------------------ operations
def op_tensors(r, n, data, m, cfg):
    b = gen_batch(r, n, data)
    o = r.choice(["predict_tensors", "train_tensors", "train_tensors", "predict_tensors_loo", "deform_pair",
                  "deform_cross", "batch_features", "het_tensor", "sampled_train", r.choice(["whole", "gather", "scatter"])])
    return {"op": o, "m": m, "batch": b}


def op_posterior(r, n, data, m):
    if r.random() < 0.35:
        w = r.choice(["both", "mean", "var"])
        return {"op": "from_indices", "m": m, "batch": gen_batch(r, n, data), "which": w}
    return {"op": "posterior", "m": m, "batch": gen_batch(r, n, data)}


def op_shear(r, n, loss=False, square=False, fit=False):
    """Shear kernels take a batch with as many points as neighbours for something else, in one process and on one rank."""
    k = r.randint(4, 6)
    o = {"op": "shear", "two": r.random() < 0.5, "ls": round(r.uniform(0.3, 1.5), 3), "noise": r.choice([1e-2, 0.1]), "val": round(r.uniform(0.5, 2), 3),
         "batch": {"count": 0, "k": k, "seed": r.randrange(10 ** 5)},
         "data": {"seed": r.randrange(10 ** 6), "train": r.randint(28, 40), "test": 26, "d": 2, "R": 3}}
    if not o["two"] and r.random() < 0.3:
        o["plain"] = True                      # the same noise for the convergence and the shears
    if not loss and fit:
        o["fit"] = r.choice([1, 1, 1, 2, 3])
    if loss:
        o.update(loss=r.choice(["mse", "lool"]), point=round(o["ls"] * r.uniform(0.6, 1.8), 4))
    elif square and n > 1 and k * n <= 26 and r.random() < 0.03:
        o["square"], o["batch"]["count"] = True, k * n
        return o
    while True:
        c = o["batch"]["count"] = r.choice([1, n - 1, n, n + 1, r.randint(1, 26), r.randint(1, 26)])
        if 0 < c <= 26 and k not in (c, c // n, -(-c // n)):
            return o


def loss_of(r, R, opt=False):
    names = ["mse", "mse", "pseudo_huber", "cross_entropy"]
    if R == 1 or not opt:
        names += ["lool", "lool", "looph"] + ([] if opt else ["lool_unscaled"])
    name = r.choice(names)
    kw = {}
    if name in ("pseudo_huber", "looph") and r.random() < 0.6:
        kw["boundary_scale"] = round(r.uniform(0.5, 4.0), 2)
    return name, kw


def op_loss(r, n, data, m):
    name, kw = loss_of(r, data["R"])
    o = {"op": "loss", "m": m, "loss": name, "batch": gen_batch(r, n, data)}
    while name == "cross_entropy" and o["batch"]["k"] == max(2, data["R"]):
        o["batch"]["k"] += 1
    if kw:
        o["kw"] = kw
    if name in models.VAR_LOSSES:
        o["sigma"] = round(r.uniform(0.3, 3), 3)
    return o


def op_loss_split(r, n):
    R = r.choice([1, 1, 2, 3])
    name, kw = loss_of(r, 1)
    if name == "cross_entropy":
        R = max(2, R)
    sizes = [r.choice([0, 0, 1, 2, 3, r.randint(0, 9)]) for _ in range(n)]
    if r.random() < 0.08:
        sizes = [0] * n
    if sum(sizes) == 0:
        sizes[r.randrange(n)] = r.randint(1, 5)
    o = {"op": "loss_split", "loss": name, "sizes": sizes, "R": R, "seed": r.randrange(10 ** 6),
         "flat": bool(R == 1 and r.random() < 0.5)}
    if name != "cross_entropy" and r.random() < 0.25:
        o["errors"] = r.choice(["none", "some", "huge", "tiny"])
    if kw:
        o["kw"] = kw
    if name in models.VAR_LOSSES:
        o["sigma"] = round(r.uniform(0.3, 3), 3)
    return o


def op_objective(r, n, data, m, cfg):
    name, kw = loss_of(r, data["R"], opt=True)
    pt = {k: round(r.uniform(*b), 6) for k, b in models.free_of(cfg).items()}
    o = {"op": "objective", "m": m, "loss": name, "batch": gen_batch(r, n, data), "point": pt}
    fix_ce(r, o, data)
    if kw:
        o["kw"] = kw
    mask_some(r, o, data)
    return o


def mask_some(r, o, data):
    """Train on some of the responses."""
    R = data["R"]
    if R > 1 and o["loss"] in ("mse", "pseudo_huber") and r.random() < 0.4:
        o["mask"] = sorted(r.sample(range(R), r.randint(1, R)))


def fix_ce(r, o, data):
    if o["loss"] == "cross_entropy":
        while o["batch"]["k"] == max(2, data["R"]):
            o["batch"]["k"] = r.randint(2, 8)


def op_regress(r, n, data, m):
    o = {"op": "regress", "m": m, "batch": gen_batch(r, n, data), "loss": r.choice(["mse", "mse", "pseudo_huber"] + ["lool"] * 2 * (data["R"] == 1)),
         "opt": "L_BFGS_B_optimize", "okw": {"options": {"maxfun": r.choice([3, 6, 12])}}}
    if r.random() < 0.35:
        o.update(opt="Bayes_optimize", okw={"init_points": 1, "n_iter": r.choice([0, 1])})
    o["batch"]["count"] = r.choice([o["batch"]["count"], 100])
    o["batch"]["k"] = max(data["R"] + 2, o["batch"]["k"])
    return o


def op_scale(r, n, data, m):
    b = gen_batch(r, n, data)
    b["k"] = max(4, b["k"])
    return {"op": "scale", "m": m, "batch": b}


def op_scale_split(r, n, data, m):
    o = op_scale(r, n, data, m)
    o["op"] = "scale_split"
    c = o["batch"]["count"]
    cuts = sorted(r.randint(0, c) for _ in range(n - 1))
    o["sizes"] = [b - a for a, b in zip([0] + cuts, cuts + [c])]
    return o


def op_optimize(r, n, data, m, bayes=0.35, small=False):
    name, kw = loss_of(r, data["R"], opt=True)
    o = {"op": "optimize", "m": m, "loss": name, "batch": gen_batch(r, n, data, 12)}
    o["batch"]["count"] = min(o["batch"]["count"], 14)
    fix_ce(r, o, data)
    if kw:
        o["kw"] = kw
    mask_some(r, o, data)
    if r.random() < bayes:
        o["opt"] = "Bayes_optimize"
        o["okw"] = {"init_points": r.choice([1, 2, 3]), "n_iter": r.choice([0, 1, 1, 2])}
        if r.random() < 0.5:
            o["okw"]["random_state"] = r.choice([0, r.randrange(1000)])
    else:
        o["opt"] = "L_BFGS_B_optimize"
        o["okw"] = {"options": {"maxfun": r.choice([6, 15, 25]), "maxiter": r.choice([2, 4, 8])}} if (small or r.random() < 0.9) else {}
    if r.random() < 0.06:
        o["okw"]["verbose"] = True
    if name != "cross_entropy" and not kw and not o.get("mask") and r.random() < 0.2:
        o["op"] = "optimize_from_indices"
    return o


def single_scale(r, cfg, data):
    if cfg["scale"]["kind"] == "analytic" and data["R"] > 1:
        cfg["scale"] = {"kind": "fixed", "val": cfg["scale"]["val"]}
    return cfg


# ------------------------------------------------------------------ checks
def large(r, wl):
    """Now and then, a batch of hundreds of rows, or of many neighbours, on the same number of ranks."""
    if r.random() < 0.04 and not any(o["op"].endswith("_split") for o in wl["ops"]):
        d = wl["data"]
        d["train"], d["test"] = r.randint(150, 1200), r.randint(150, 1200)
        wl["ranks"] = n = min(wl["ranks"], 4)
        if wl["net"].get("stalled"):
            wl["net"]["stalled"] = sorted({x % n for x in wl["net"]["stalled"]})
        wide = r.random() < 0.25
        for o in wl["ops"]:
            if "batch" in o and not o["op"].startswith("optimize") and o["op"] not in ("regress", "shear"):
                o["batch"].update(count=r.randint(2, 30) if wide else r.randint(100, 1200), k=r.randint(20, 60) if wide else r.choice([4, 5]))
        if any(m["scale"]["kind"] == "down" for c in wl["models"] for m in (c if isinstance(c, list) else [c])):
            for o in wl["ops"]:
                if "batch" in o and o["op"] != "shear":
                    o["batch"]["k"] = 5
    return wl


class C01(Job):
    id, quick, thorough = "C01", 1600, 60000

    def gen(self, r, i, tier):
        n = gen_ranks(r)
        data = gen_data(r)
        cfgs = [gen_model(r, data) for _ in range(2)]
        if r.random() < 0.06:
            data["points"] = "f4"
        ops = [op_tensors(r, n, data, m, cfgs[m]) for m in [r.randrange(2) for _ in range(r.randint(1, 4))]]
        return large(r, base(r, n, data, cfgs, ops))


class C02(Job):
    id, quick, thorough = "C02", 1400, 50000

    def gen(self, r, i, tier):
        n = gen_ranks(r)
        R = r.choice([1, 1, 1, 2, 3])
        data = gen_data(r, R=R)
        cfgs = [gen_model(r, data)]
        if R > 1:
            cfgs.append(gen_multi(r, data))
        ops = []
        for _ in range(r.randint(1, 3)):
            m = r.randrange(len(cfgs))
            o = op_posterior(r, n, data, m)
            if isinstance(cfgs[m], list):
                o["op"] = "posterior"
                o.pop("which", None)
            if r.random() < 0.08:
                o = op_regress(r, n, data, m)
            elif r.random() < 0.08:
                o = op_shear(r, n, square=True)
            ops.append(o)
        return large(r, base(r, n, data, cfgs, ops))


class C03(Job):
    id, quick, thorough = "C03", 1600, 60000

    def gen(self, r, i, tier):
        n = gen_ranks(r)
        data = gen_data(r)
        cfgs = [single_scale(r, gen_model(r, data, free="some"), data)]
        ops = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            ops.append(op_loss_split(r, n) if x < 0.45 else op_shear(r, n, True) if x < 0.5 else op_loss(r, n, data, 0) if x < 0.75 else
                       op_objective(r, n, data, 0, cfgs[0]))
        return large(r, base(r, n, data, cfgs, ops))


class C04(Job):
    id, quick, thorough = "C04", 1400, 50000

    def gen(self, r, i, tier):
        n = gen_ranks(r)
        data = gen_data(r, R=r.choice([1, 1, 1, 1, 2]))
        cfgs = []
        if data["R"] == 1:
            c = gen_model(r, data, scale=r.choice(["analytic", "analytic", "analytic", "fixed"]))
            if r.random() < 0.4:
                c["scale"] = {"kind": "down", "down": r.choice([2, 3, 3, 4]), "iterations": r.choice([1, 3, 3, 2, 4, 5, 7]),
                              "val": c["scale"]["val"]}
            cfgs.append(c)
        else:
            cfgs.append(gen_multi(r, data, scale="analytic"))
        ops = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < 0.06:
                ops.append(op_shear(r, n, fit=True))
            elif isinstance(cfgs[0], list) or x < 0.6:
                ops.append(op_scale(r, n, data, 0))
            else:
                ops.append(op_scale_split(r, n, data, 0))
            if r.random() < 0.4:
                o = op_posterior(r, n, data, 0)
                o["op"] = "posterior"
                o.pop("which", None)
                ops.append(o)
        return large(r, base(r, n, data, cfgs, ops))


class C05(Job):
    id, quick, thorough = "C05", 500, 16000

    def gen(self, r, i, tier):
        n = gen_ranks(r, 2)
        if r.random() < 0.5:
            n = min(n, 3)
        data = gen_data(r, R=r.choice([1, 1, 1, 2]))
        cfgs = [single_scale(r, gen_model(r, data, free="some"), data)]
        ops = [op_optimize(r, n, data, 0) for _ in range(r.choice([1, 1, 2]))]
        return base(r, n, data, cfgs, ops)

    def run(self, wl, ch, seed):
        out = dist.run_job(wl, ch, seed)
        settle(wl, out)
        ser, _ = dist.run_serial(wl, out.np_state0, adopt_from=adoption(out))
        judge_all(wl, out, ser)
        same_start(wl, out)
        return result_of(wl, out)


def same_start(wl, out):
    """The random state the caller gives decides the points a search begins with, in a single process as on the ranks."""
    op = wl["ops"][0]
    if op["op"] != "optimize" or not op["opt"].startswith("Bayes") or op["okw"].get("random_state") is None:
        return
    ser, _ = dist.run_serial(dict(wl, ops=[op]), np.random.RandomState(7).get_state())
    if ser[0][0] != "ok":
        return
    a, b = out.results[0][0][2]["trace"], ser[0][2]["trace"]
    for j in range(1 + op["okw"]["init_points"]):
        if j >= min(len(a), len(b)) or any(not math.isclose(a[j][0][q], b[j][0][q], rel_tol=1e-9) for q in b[j][0]):
            raise Violation("random-state-ignored", f"operation 0: with random_state={op['okw']['random_state']} point {j} is "
                            f"{a[j][0] if j < len(a) else 'missing'} on the ranks and {b[j][0] if j < len(b) else 'missing'} in a single process")


class C06(Job):
    id, quick, thorough = "C06", 1600, 60000

    def gen(self, r, i, tier):
        n = gen_ranks(r)
        data = gen_data(r)
        cfgs = [gen_model(r, data, free="some")]
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            how = r.choice(["sample", "log_sample"])
            if x < 0.55:
                lo = r.choice([1e-6, 1e-3, 0.1, 0.5, 2.0])
                b = [lo, round(lo * r.choice([1.0001, 1.5, 10, 1e4]), 9)]
                what = r.choice(["scalar", "vector", "noise"])
                ops.append({"op": "sample_param", "how": how, "bounds": b, "what": what, "n": r.randint(1, 4)})
            elif x < 0.7:
                ops.append({"op": "sample_param", "how": how, "bounds": None, "what": "scalar"})
            else:
                ops.append({"op": "sample_model", "m": 0, "how": how})
                if r.random() < 0.5:
                    ops.append(op_loss(r, n, data, 0) if data["R"] == 1 else op_posterior(r, n, data, 0))
        return base(r, n, data, cfgs, ops)


def mixed_ops(r, n, data, cfgs, count, optimize=0.12, unsupported=0.0, split=True):
    ops = []
    for _ in range(count):
        m = r.randrange(len(cfgs))
        c = cfgs[m]
        x = r.random()
        if not data.get("onedim") and r.random() < 0.5 * optimize and not (isinstance(c, dict) and c["scale"]["kind"] == "down"):
            o = op_regress(r, n, data, m)
        elif isinstance(c, list):
            o = op_scale(r, n, data, m) if x < 0.35 else {"op": "posterior", "m": m, "batch": gen_batch(r, n, data)}
        elif x < unsupported:
            o = {"op": "unsupported", "m": m, "batch": gen_batch(r, n, data), "which": r.choice(dist.UNSUPPORTED)}
        elif x < unsupported + optimize:
            o = op_optimize(r, n, data, m, bayes=0.25, small=True)
        else:
            y = r.random()
            if y < 0.3:
                o = op_tensors(r, n, data, m, c)
            elif y < 0.5:
                o = op_posterior(r, n, data, m)
            elif y < 0.62:
                o = op_loss(r, n, data, m)
            elif y < 0.70:
                o = op_objective(r, n, data, m, c)
            elif y < 0.73:
                o = op_shear(r, n, loss=r.random() < 0.4, fit=r.random() < 0.5)
            elif y < 0.88:
                o = op_scale(r, n, data, m) if data["R"] == 1 else op_posterior(r, n, data, m)
            elif y < 0.94:
                o = op_loss_split(r, n) if split else op_loss(r, n, data, m)
            else:
                o = {"op": "sample_param", "how": r.choice(["sample", "log_sample"]), "bounds": [0.1, 2.0],
                     "what": r.choice(["scalar", "vector", "noise"]), "n": 2}
        ops.append(o)
    return ops


def gen_models(r, data, count):
    cfgs = []
    for _ in range(count):
        c = single_scale(r, gen_model(r, data, free=r.choice(["some", "some", "none"])), data)
        if not models.free_of(c):
            c["noise"] = c["noise"] or 0.01
            c["noise_bounds"] = [round(c["noise"] * 0.3, 6), round(c["noise"] * 5, 6)]
        if c["scale"]["kind"] == "analytic" and r.random() < 0.25:
            c["scale"] = {"kind": "down", "down": 2, "iterations": r.choice([1, 3]), "val": c["scale"]["val"]}
        cfgs.append(c)
    return cfgs


def plain_for_optimizing(cfgs, ops):
    """Down-sampled scales make objectives random: keep them out of variance losses."""
    for o in ops:
        if o["op"] in ("optimize", "objective", "optimize_from_indices"):
            if cfgs[o["m"]]["scale"]["kind"] == "down" and o["loss"] in models.VAR_LOSSES:
                o["loss"] = "mse"
                o.pop("kw", None)
    return ops


class C07(Job):
    """Termination, matching, nothing left over."""
    id, quick, thorough = "C07", 1200, 40000

    def gen(self, r, i, tier):
        n = gen_ranks(r, 2)
        data = gen_data(r)
        cfgs = gen_models(r, data, 2)
        if data["R"] > 1 and r.random() < 0.4:
            cfgs.append(gen_multi(r, data, scale="analytic"))
        ops = mixed_ops(r, n, data, cfgs, r.randint(2, 5), optimize=0.08, unsupported=0.05)
        wl = base(r, n, data, cfgs, plain_for_optimizing(cfgs, ops))
        if r.random() < 0.5:
            wl["net"]["send"] = "rendezvous"
        return wl

    def run(self, wl, ch, seed):
        out = dist.run_job(wl, ch, seed)
        settle(wl, out)
        for r, res in enumerate(out.results):
            for i, x in enumerate(res):
                if x[0] != "ok":
                    raise Violation("rank-error", f"operation {i} ({wl['ops'][i]['op']}) on rank {r}: {x[1]}: {x[2]}")
        return result_of(wl, out)


class C08(Job):
    id, quick, thorough = "C08", 800, 30000

    def gen(self, r, i, tier):
        n = gen_ranks(r, 2)
        if r.random() < 0.4:
            n = min(n, 3)
        data = gen_data(r)
        cfgs = gen_models(r, data, r.choice([1, 2, 3]))
        if data["R"] > 1 and r.random() < 0.5:
            cfgs.append(gen_multi(r, data, scale="analytic"))
        ops = mixed_ops(r, n, data, cfgs, r.randint(3, 7), optimize=0.12)
        return large(r, base(r, n, data, cfgs, plain_for_optimizing(cfgs, ops)))


class C09(Job):
    id, quick, thorough = "C09", 700, 26000
    rule = ("one evaluation = a fault-free job, the same job with one fault (rank death, memory error at a message or at any line "
            "of the computation, failed linear solve or a lost link) under a seeded schedule, and a restart; "
            "non-trivial = the fault fired; distinct by a hash of schedules and results")

    def gen(self, r, i, tier):
        n = gen_ranks(r, 2)
        data = gen_data(r)
        cfgs = gen_models(r, data, 2)
        for c in cfgs:
            if c["scale"]["kind"] == "down":
                c["scale"] = {"kind": "fixed", "val": c["scale"]["val"]}
        ops = mixed_ops(r, n, data, cfgs, r.randint(1, 4), optimize=0.1)
        ops = [o for o in ops if o["op"] not in ("sample_param",)] or [op_tensors(r, n, data, 0, cfgs[0])]
        ops = [dict(o, op="train_tensors") if o["op"] == "sampled_train" else o for o in ops]
        wl = base(r, n, data, cfgs, ops)
        wl["fault"] = {"kind": r.choice(["crash", "crash", "memory", "linalg", "linalg", "link", "line", "line"]), "rank": r.randrange(n),
                       "at": r.random(), "dst": r.randrange(n)}
        if wl["fault"]["kind"] == "line":
            wl["fault"].update(rank=r.choice([0, wl["fault"]["rank"]]), which=r.random())
        return wl

    def run(self, wl, ch, seed):
        f, sites = wl["fault"], {}
        spy = {f["rank"]: preempt.LineFault(0, MemoryError, sites)} if f["kind"] == "line" else None
        clean = dist.run_job(wl, type(ch)(f"{seed}-clean"), seed, spy)
        settle(wl, clean)
        for r, res in enumerate(clean.results):
            for i, x in enumerate(res):
                if x[0] != "ok":
                    raise Violation("rank-error", f"operation {i} ({wl['ops'][i]['op']}) on rank {r}: {x[1]}: {x[2]}")
        w, tr = copy.deepcopy(wl), None
        if f["kind"] == "line":
            if not sites:
                return result_of(wl, clean, nontrivial=False)
            place = sites[sorted(sites)[int(f["at"] * len(sites))]]
            tr = preempt.LineFault(place[int(f["which"] * len(place))], MemoryError)
        elif f["kind"] == "link":
            dst = f["dst"] if f["dst"] != f["rank"] else (f["rank"] + 1) % wl["ranks"]
            w["faults"] = [dict(kind="link", src=f["rank"], dst=dst)]
        else:
            total = clean.rt.rank_calls[f["rank"]]
            if total == 0:
                return result_of(wl, clean, nontrivial=False)
            points = list(range(1, total + 1))
            if f["kind"] == "linalg":
                points = [j + 1 for j, what in enumerate(clean.rt.rank_what[f["rank"]]) if what == "solve"]
            if not points:
                return result_of(wl, clean, nontrivial=False)
            w["faults"] = [dict(kind=f["kind"], rank=f["rank"], at=points[int(f["at"] * len(points))])]
        out = dist.run_job(w, ch, seed, tr and {f["rank"]: tr})
        if out.violation is not None:
            raise out.violation
        if out.sched.livelock:
            raise Violation("no-progress", "ranks spin after a failure")
        for r, res in enumerate(out.results):
            for i, x in enumerate(res):
                if x[0] == "ok":
                    self.same_as_clean(wl, i, r, x, clean.results[r][i])
        # restart of the whole job on the same inputs
        again = dist.run_job(wl, type(ch)(f"{seed}-again"), seed)
        settle(wl, again)
        for r, res in enumerate(again.results):
            for i, x in enumerate(res):
                if x[0] != "ok":
                    raise Violation("restart-error", f"operation {i} on rank {r}: {x[1]}: {x[2]}")
                self.same_as_clean(wl, i, r, x, clean.results[r][i])
        st = out.rt.stats
        lost = sum(1 for s in out.sched.log if s.startswith("lost"))
        fired = st["fault_crash"] + st["fault_memory"] + st["fault_linalg"] + lost
        extra = {"lost_messages": lost} if lost else {}
        if tr is not None and tr.fired:
            fired, extra["memory_error_in_computation"] = 1, 1
        return result_of(wl, out, faults=extra, nontrivial=fired > 0)

    @staticmethod
    def same_as_clean(wl, i, r, x, c):
        op = wl["ops"][i]
        # optimisers may take slightly different paths when sums are taken in another order
        loose = any(o["op"].startswith("optimize") for o in wl["ops"][:i + 1])
        if op["op"].startswith("optimize"):
            a, b = x[2]["trace"][0], c[2]["trace"][0]
            if any(o["op"].startswith("optimize") for o in wl["ops"][:i]):
                # it starts where such a search ended
                return
            if a[0] != b[0] or not close(a[1], b[1], 1e-6, 1e-7):
                raise Violation("wrong-result-after-fault", f"operation {i} on rank {r}: first trial {a} instead of {b}")
            return
        # the regression workflow trains its own model on the way (no later operation uses it)
        loose = loose or op["op"] == "regress"
        for k in c[1]:
            if len(x[1][k]) != len(c[1][k]):
                raise Violation("wrong-result-after-fault", f"operation {i} ({op['op']}) on rank {r}: {len(x[1][k])} rows of {k} instead of {len(c[1][k])}")
            if not loose and not close(x[1][k], c[1][k], 1e-6, 1e-8):
                raise Violation("wrong-result-after-fault", f"operation {i} ({op['op']}) on rank {r}: {k}: {diff_note(x[1][k], c[1][k])}")
        if loose:
            return
        for k in c[2]:
            a, b = x[2][k], c[2][k]
            same = close(a, b, 1e-6, 1e-8) if isinstance(b, (float, list, np.ndarray)) else a == b
            if not same:
                raise Violation("wrong-result-after-fault", f"operation {i} ({op['op']}) on rank {r}: {k} is {short(a)} instead of {short(b)}")


class C10(Job):
    id, quick, thorough = "C10", 1400, 50000

    def gen(self, r, i, tier):
        n = gen_ranks(r)
        data = gen_data(r)
        cfgs = gen_models(r, data, 1)
        ops = []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.6:
                ops += mixed_ops(r, n, data, cfgs, 1, optimize=0.0)
            ops.append({"op": "unsupported", "m": 0, "batch": gen_batch(r, n, data), "which": r.choice(dist.UNSUPPORTED)})
            if r.random() < 0.6:
                ops[-1]["sizes"] = [r.choice([0, 0, 1, 2, 3, 5]) for _ in range(n)]
        if r.random() < 0.7:
            ops += mixed_ops(r, n, data, cfgs, 1, optimize=0.0)
        return base(r, n, data, cfgs, plain_for_optimizing(cfgs, ops))

    def run(self, wl, ch, seed):
        out = dist.run_job(wl, ch, seed)
        settle(wl, out)
        w = copy.deepcopy(wl)
        keep = [i for i, o in enumerate(wl["ops"]) if o["op"] != "unsupported"]
        w["ops"] = [wl["ops"][i] for i in keep]
        for i, op in enumerate(wl["ops"]):
            for r, res in enumerate(out.results):
                if len(res) <= i or res[i][0] != "ok":
                    x = res[i] if len(res) > i else ("missing", "", "")
                    raise Violation("rank-error", f"operation {i} ({op['op']} {op.get('which', '')}) on rank {r}: {x[1]}: {x[2]}")
                if op["op"] == "unsupported":
                    if not res[i][2]["refused"]:
                        raise Violation("not-refused", f"operation {i}: unsupported {op['which']} returned a {res[i][2].get('got')} on rank {r}")
                    if res[i][2]["messages"]:
                        raise Violation("refusal-communicates", f"operation {i}: refusing {op['which']} made {res[i][2]['messages']} MPI calls on rank {r}")
        sub = copy.copy(out)
        sub.results = [[res[i] for i in keep] for res in out.results]
        ser, _ = dist.run_serial(w, out.np_state0, adopt_from=adoption(sub))
        judge_all(w, sub, ser)
        return result_of(wl, out, nontrivial=wl["ranks"] > 1)
