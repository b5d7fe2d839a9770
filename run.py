"""Runs property checks, replays and minimises violations.

  run.py check ID [--tier quick|thorough] [--runs N] [--workers N]
  run.py replay FILE
  run.py selftest
"""
import argparse
import hashlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time as _time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
clock = _time.perf_counter

from sim import core, seams  # noqa: E402

seams.setup()
from sim.core import Chooser, HarnessError, Violation  # noqa: E402
from sim.checks import get_check  # noqa: E402
from sim.checks.common import load_known  # noqa: E402

real_clock = seams.real_time["perf_counter"]
RUN_LIMIT = 150          # wall seconds for a single run before it counts as hanging


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


class _Quiet:
    """Library chatter must not mix with the verdict lines."""

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def one_run(check, wl, ch, seed):
    """('ok', Result) | ('violation', Violation)"""
    import contextlib
    with contextlib.redirect_stdout(_Quiet()):
        return _one_run(check, wl, ch, seed)


def _one_run(check, wl, ch, seed):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT)
    try:
        check.begin()
        seams.begin_run()
        res = check.run(wl, ch, seed)
        res.known = dict(check.met)
        return "ok", res
    except Violation as v:
        return "violation", v
    except HarnessError:
        raise
    except Exception as e:
        # an error that comes out of the library where none is expected
        root, tb = seams.lib_root(), e.__traceback__
        inside = False
        while tb is not None:
            inside = inside or tb.tb_frame.f_code.co_filename.startswith(root)
            tb = tb.tb_next
        if not inside:
            raise
        return "violation", Violation("library-error", f"{type(e).__name__}: {str(e)[:300]}")
    except Hang:
        return "violation", Violation("hang", f"no result after {RUN_LIMIT} s of wall time in one run")
    finally:
        signal.alarm(0)


def run_seed(base, cid, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{cid}/{i}".encode()).digest()[:6], "big")


def make(check, base, i, tier):
    seed = run_seed(base, check.id, i)
    r = random.Random(f"workload-{seed}")
    return seed, check.gen(r, i, tier)


def worker(check, base, tier, w, nw, n, deadline, out):
    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()
    i = w
    while i < n and real_clock() < deadline:
        seed = None
        try:
            seed, wl = make(check, base, i, tier)
            ch = Chooser(seed)
            t0 = real_clock()
            st, res = one_run(check, wl, ch, seed)
            dt = real_clock() - t0
        except BaseException as e:
            emit(dict(t="harness", i=i, seed=seed, err=traceback.format_exc()[-3000:]))
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                os._exit(4)
            i += nw
            continue
        if st == "ok":
            o = dict(t="ok", i=i, seed=seed, digest=res.digest, nt=bool(res.nontrivial), sw=res.switches,
                     steps=res.steps, sim=res.sim_time, faults=res.faults, m=res.measures, wall=dt,
                     known=res.known)
            if i < 3:
                o["wl"] = wl
            emit(o)
        else:
            emit(dict(t="violation", i=i, seed=seed, wl=wl, script=ch.record, kind=res.kind,
                      detail=res.detail, key=res.key))
            if res.kind == "hang":
                os._exit(0)
        i += nw
    emit(dict(t="end"))
    out.close()
    os._exit(0)


# ------------------------------------------------------------------ minimisation
def attempt(check, wl, seed, script, kind, key):
    ch = Chooser(seed, script=script)
    try:
        st, res = one_run(check, wl, ch, seed)
    except Exception:
        return None
    if st == "violation" and res.kind == kind and res.key == key:
        return ch.record, res
    return None


def minimise(check, v, limit):
    t_end = real_clock() + limit
    wl, seed, script, kind = v["wl"], v["seed"], v["script"], v["kind"]
    detail, key = v["detail"], v["key"]
    tries = 0
    moved = True
    while moved and real_clock() < t_end:
        moved = False
        for cand in check.shrinks(wl):
            if real_clock() > t_end:
                break
            got = None
            for s, scr in ((seed, script), (seed, []), (seed, None), (seed + 1, None), (seed + 2, None)):
                tries += 1
                got = attempt(check, cand, s, scr, kind, key)
                if got:
                    wl, seed, script = cand, s, got[0]
                    detail, key = got[1].detail, got[1].key
                    break
                if real_clock() > t_end:
                    break
            if got:
                moved = True
                break

    def accept(scr):
        nonlocal script, detail, key, tries
        tries += 1
        got = attempt(check, wl, seed, scr, kind, key)
        if got:
            rec = got[0]
            while rec and rec[-1] == 0:
                rec.pop()
            script, detail, key = rec, got[1].detail, got[1].key
            return True
        return False
    accept(list(script))
    if not accept([]):
        size = max(1, len(script) // 2)
        while size >= 1 and real_clock() < t_end:
            i, changed = 0, False
            while i < len(script) and real_clock() < t_end:
                if any(script[i:i + size]):
                    if accept(script[:i] + [0] * len(script[i:i + size]) + script[i + size:]):
                        changed = True
                i += size
            if size == 1 and not changed:
                break
            size = size // 2 if size > 1 else (1 if changed else 0)
    return dict(v, wl=wl, seed=seed, script=script, detail=detail, key=key, tries=tries)


def minimise_in_child(check, v, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            m = minimise(check, v, limit)
            os.write(w, json.dumps(m).encode()) if len(json.dumps(m)) < 60000 else _write_all(w, json.dumps(m).encode())
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    os.close(w)
    buf, end = b"", real_clock() + limit + 200
    while real_clock() < end:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    else:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os.close(r)
    try:
        return json.loads(buf)
    except ValueError:
        return v


def _write_all(fd, data):
    while data:
        data = data[os.write(fd, data):]


def replay_file(check, v, base):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    o = dict(property=check.id, kind=v["kind"], detail=v["detail"], seed=v["seed"], workload=v["wl"],
             script=v["script"], found=dict(base_seed=base, run=v["i"], tries=v.get("tries", 0)))
    h = hashlib.sha1(json.dumps(o, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{check.id}-{v['kind']}-{h}.json")
    with open(p, "w") as f:
        json.dump(o, f, indent=1)
        f.write("\n")
    return p


def run_replay(path):
    o = json.load(open(path))
    check = get_check(o["property"])
    check.preload()
    ch = Chooser(o["seed"], script=o["script"])
    st, res = one_run(check, o["workload"], ch, o["seed"])
    if st == "ok":
        print(f"replay of {path}: the property held")
        return 0
    print(f"replay of {path}: {res.kind}: {res.detail}")
    print(f"workload: {json.dumps(o['workload'])}")
    print(f"choices: {o['script']}")
    same = res.kind == o["kind"] and res.detail == o["detail"]
    print("reproduced exactly" if same else f"reproduced differently (recorded: {o['kind']}: {o['detail']})")
    sys.stdout.flush()
    os._exit(1 if same else 3)


# ------------------------------------------------------------------ check
def run_check(cid, tier, base, nruns, nw, budget):
    check = get_check(cid)
    t0 = real_clock()
    check.preload()
    n = nruns or (check.quick if tier == "quick" else check.thorough)
    deadline = t0 + budget
    procs = {}
    for w in range(nw):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for q in procs.values():
                os.close(q["fd"])
            worker(check, base, tier, w, nw, n, deadline, os.fdopen(wr, "w"))
        os.close(wr)
        procs[r] = dict(fd=r, pid=pid, buf=b"", end=False)
    known = load_known(cid)
    known_hits = {k: 0 for k, _ in known}
    agg = dict(ok=0, nt=set(), digests=set(), sw=0, steps=0, sim=0.0, faults={}, m={}, samples=[], wall=0.0)
    viol, harness = [], []
    live = set(procs)
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            q = procs[fd]
            d = os.read(fd, 1 << 16)
            if not d:
                live.discard(fd)
                if not q["end"] and not any(v["kind"] == "hang" for v in viol) and not viol:
                    harness.append(f"worker {q['pid']} ended early")
                continue
            q["buf"] += d
            *lines, q["buf"] = q["buf"].split(b"\n")
            for line in lines:
                o = json.loads(line)
                if o["t"] == "end":
                    q["end"] = True
                elif o["t"] == "harness":
                    harness.append(f"run {o['i']} seed {o['seed']}: {o['err']}")
                elif o["t"] == "violation":
                    viol.append(o)
                else:
                    agg["ok"] += 1
                    agg["digests"].add(o["digest"])
                    if o["nt"]:
                        agg["nt"].add(o["digest"])
                    agg["sw"] += o["sw"]
                    agg["steps"] += o["steps"]
                    agg["sim"] += o["sim"]
                    agg["wall"] += o["wall"]
                    for k, x in o["known"].items():
                        known_hits[k] += x
                    for k, x in o["faults"].items():
                        agg["faults"][k] = agg["faults"].get(k, 0) + x
                    for k, x in o["m"].items():
                        agg["m"][k] = agg["m"].get(k, 0) + x
                    if "wl" in o and len(agg["samples"]) < 3:
                        agg["samples"].append(dict(seed=o["seed"], workload=o["wl"]))
        if viol or len(harness) > 20:
            break
        if real_clock() > deadline + 300:
            harness.append("workers did not finish")
            break
    for q in procs.values():
        try:
            os.kill(q["pid"], signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(q["pid"], 0)
    runs_wall = real_clock() - t0
    for k, what in known:
        print(f"KNOWN-FINDING: property={cid} {what} (met {known_hits[k]} times in this run)")
    rc = 0
    nviol = 0
    if viol:
        v = min(viol, key=lambda o: o["i"])
        print(f"{cid}: violation in run {v['i']} (seed {v['seed']}): {v['kind']}: {v['detail']}")
        sys.stdout.flush()
        m = v
        if v["kind"] != "hang":
            m = minimise_in_child(check, v, 40 if tier == "quick" else 120)
        path = replay_file(check, m, base)
        p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", path], capture_output=True,
                           text=True, timeout=RUN_LIMIT + 120)
        if p.returncode != 1 and m is not v:
            path = replay_file(check, v, base)
            m = v
            p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", path], capture_output=True,
                               text=True, timeout=RUN_LIMIT + 120)
        print(f"{cid}: minimised to {len(m['script'])} choices: {m['kind']}: {m['detail']}")
        print(f"{cid}: replay in a fresh process: {'exact' if p.returncode == 1 else 'NOT exact: ' + p.stdout[-400:] + p.stderr[-400:]}")
        print(f"VIOLATION property={cid} replay={path}")
        rc, nviol = 1, len(viol)
    elif harness:
        for h in harness[:5]:
            print(f"{cid}: harness error: {h}")
        rc = 2
    wall = real_clock() - t0
    ev = dict(
        property=cid, tier=tier, seed=base, level=check.level, wall_s=round(wall, 2), violations=nviol,
        assumptions=list(check.assumptions),
        coverage=dict(
            evaluations=agg["ok"] + len(viol),
            distinct_nontrivial=len(agg["nt"]),
            rule=check.rule,
            samples=agg["samples"] or [dict(note="no run completed")],
            runs_planned=n,
            seeds_per_hour=int(3600 * agg["ok"] / runs_wall) if runs_wall > 0 else 0,
            simulated_seconds=round(agg["sim"], 4),
            distinct_histories=len(agg["digests"]),
            scheduling_steps=agg["steps"],
            context_switches=agg["sw"],
            faults_injected=agg["faults"],
            measures=agg["m"],
            real_components=check.real,
            stubbed_components=check.stub,
            known_findings_met=known_hits,
            harness_errors=len(harness),
        ))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{cid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{cid}: {agg['ok']} runs held, {len(agg['nt'])} distinct non-trivial, {agg['sw']} switches, "
          f"faults {agg['faults']}, {agg['m']}, {wall:.1f} s")
    sys.stdout.flush()
    os._exit(rc)


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    c = sp.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--runs", type=int, default=0)
    c.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    c.add_argument("--budget", type=float, default=0)
    r = sp.add_parser("replay")
    r.add_argument("file")
    s = sp.add_parser("selftest")
    s.add_argument("ids", nargs="*")
    d = sp.add_parser("digests")
    d.add_argument("id")
    d.add_argument("n", type=int)
    a = ap.parse_args()
    base = int(os.environ.get("VERIF_SEED", "1"))
    if a.cmd == "check":
        budget = a.budget or (300 if a.tier == "quick" else 3600)
        run_check(a.id, a.tier, base, a.runs, a.workers, budget)
    elif a.cmd == "replay":
        sys.exit(run_replay(a.file))
    elif a.cmd == "digests":
        check = get_check(a.id)
        check.preload()
        for i in range(a.n):
            seed, wl = make(check, base, i, "quick")
            st, res = one_run(check, wl, Chooser(seed), seed)
            print(a.id, i, st, res.digest if st == "ok" else res)
    else:
        from sim import selftest
        sys.exit(selftest.main(a.ids))


if __name__ == "__main__":
    main()
