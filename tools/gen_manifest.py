"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

NOTE = {
    "C01": "simulated ranks 1-8, batches of 1-24 rows; seeded search, not exhaustive",
    "C02": "simulated ranks 1-8; tolerance 1e-7 (1e-5 for general smoothness)",
    "C03": "all public losses, arbitrary uneven splits, 1-8 ranks",
    "C04": "analytic, down-sampled and fixed scales, arbitrary uneven splits, 1-8 ranks",
    "C05": "both optimisers, 2-8 ranks, few iterations per optimisation",
    "C06": "scalar, vector, noise and model-level sampling, 1-8 ranks",
    "C07": "sequences of 2-5 operations, blocking or buffered sends, stalled ranks, 2-8 ranks",
    "C08": "sequences of 3-7 operations over 1-4 models, 2-8 ranks",
    "C09": "one fault per job at any MPI call or linear solve; restart compared with the fault-free job",
    "C10": "every documented unsupported operation anywhere in a sequence",
    "C11": "2-4 threads preempted at library source lines; NumPy calls are atomic",
    "C12": "exception at any executed library line or solver call",
    "C13": "histories of up to 14 operations on 2-4 models with failing operations",
    "C14": "random draws, data sets, lookups seeded",
    "C15": "exact, approximate and adversarial legal lookups",
    "C16": "simulated processor clock, seeded draws",
    "C17": "histories of up to 14 operations with failures against a reference model",
    "C18": "seeded draws and trial points; every trial recomputed by a reference model",
    "C19": "simulated clock, seeded draws, recorded lookups",
    "C20": "torch backend, crashes during training at any library line",
    "C21": "2-4 threads preempted at library source lines",
}
NA = {
    "C22": "pure function of its input: no schedule, clock, I/O, randomness or fault for a simulator to control; sampling inputs would be ordinary property testing, not simulation",
    "C23": "pure functions compared across backends (and JAX is not installed here); nothing to schedule or to inject",
    "C24": "pure formula; nothing to schedule or to inject",
    "C25": "delegated to scikit-learn; a pure function of the data with no schedule, clock or fault",
    "C26": "pure formula; nothing to schedule or to inject (the distributed and optimiser use of the losses is decided by C03, C05, C18)",
}


def main():
    from sim.checks import WHERE
    checks, na = [], []
    for cid in sorted(WHERE):
        if os.path.exists(os.path.join(HERE, "sim", "checks", WHERE[cid] + ".py")):
            checks.append({
                "property": cid,
                "quick_cmd": f"./check {cid} quick",
                "thorough_cmd": f"./check {cid} thorough",
                "evidence_file": f"evidence/{cid}.json",
                "technique": "deterministic simulation with fault injection",
                "level": "exploration",
                "level_note": "seeded search over schedules and faults: " + NOTE[cid],
            })
        else:
            na.append({"property": cid, "reason": "check under construction"})
    na += [{"property": k, "reason": v} for k, v in sorted(NA.items())]
    m = {"version": 1, "setup_cmd": "./check selftest", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
