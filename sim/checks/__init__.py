"""Registry of the property checks."""
import importlib

WHERE = {}
for _i in range(1, 11):
    WHERE[f"C{_i:02d}"] = "distributed"
WHERE.update(C11="threads", C21="threads", C12="faults", C13="histories", C17="histories", C14="sampling",
             C15="sampling", C16="sampling", C18="optimizing", C19="workflows", C20="deepkernel")


def get_check(cid):
    m = importlib.import_module(f"sim.checks.{WHERE[cid]}")
    for v in vars(m).values():
        if isinstance(v, type) and getattr(v, "id", None) == cid:
            return v()
    raise KeyError(cid)
