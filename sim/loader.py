"""Loads fresh, mutually isolated copies of the MuyGPyS package from the working tree.

Each simulated process gets its own copy (its own module objects and globals), compiled
from the sources in /repo/src; nothing is read from .pyc files.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.metadata
import importlib.util
import os
import sys
import warnings

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_code = {}


def _get_code(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _code[path] = c
    return c


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_get_code(self.path), module.__dict__)

    def get_filename(self, name=None):
        return self.path


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != core.ROOT and not name.startswith(core.ROOT + "."):
            return None
        rel = os.path.join(SRC, *name.split("."))
        pkg = os.path.join(rel, "__init__.py")
        if os.path.isfile(pkg):
            return importlib.util.spec_from_file_location(
                name, pkg, loader=_Loader(pkg), submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(name, rel + ".py", loader=_Loader(rel + ".py"))
        if os.path.isdir(rel):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None


_versions = {}
_real_version = importlib.metadata.version


def _version(name):
    if name not in _versions:
        _versions[name] = _real_version(name)
    return _versions[name]


_ready = False


def setup():
    global _ready
    if _ready:
        return
    _ready = True
    sys.meta_path.insert(0, _Finder())
    importlib.metadata.version = _version
    sys.dont_write_bytecode = True


PUBLIC = [
    "MuyGPyS", "MuyGPyS.gp", "MuyGPyS.gp.kernels", "MuyGPyS.gp.deformation",
    "MuyGPyS.gp.hyperparameter", "MuyGPyS.gp.noise", "MuyGPyS.gp.tensors",
    "MuyGPyS.optimize", "MuyGPyS.optimize.loss", "MuyGPyS.optimize.batch",
    "MuyGPyS.neighbors", "MuyGPyS.examples.from_indices", "MuyGPyS.examples.regress",
    "MuyGPyS.examples.fast_posterior_mean",
]


class World:
    """One loaded copy of the package (one simulated process)."""

    def __init__(self, mods, backend):
        self.mods = mods
        self.backend = backend

    def __call__(self, name):
        m = self.mods.get(name)
        if m is None:
            core.install(self.mods)
            m = importlib.import_module(name)
            self.mods.update(core.current_modules())
        return m

    def __getattr__(self, name):
        short = {
            "gp": "MuyGPyS.gp", "kernels": "MuyGPyS.gp.kernels", "deformation": "MuyGPyS.gp.deformation",
            "hyper": "MuyGPyS.gp.hyperparameter", "noise": "MuyGPyS.gp.noise", "tensors": "MuyGPyS.gp.tensors",
            "optimize": "MuyGPyS.optimize", "loss": "MuyGPyS.optimize.loss", "batch": "MuyGPyS.optimize.batch",
            "neighbors": "MuyGPyS.neighbors", "from_indices": "MuyGPyS.examples.from_indices",
            "regress": "MuyGPyS.examples.regress", "root": "MuyGPyS",
        }
        if name in short:
            return self(short[name])
        raise AttributeError(name)


def load(backend, mpi_modules=None, ftype="64", extra=(), torch_ok=False, public=None):
    """Import a fresh copy.  mpi_modules: the simulated mpi4py, or None to hide mpi4py."""
    setup()
    core.install({})
    saved_env = {k: os.environ.get(k) for k in ("MUYGPYS_BACKEND", "MUYGPYS_FTYPE")}
    os.environ["MUYGPYS_BACKEND"] = backend
    os.environ["MUYGPYS_FTYPE"] = ftype
    hidden = ["jax"] + ([] if torch_ok else ["torch"])
    saved = {k: sys.modules.get(k) for k in hidden}
    for k in hidden:
        sys.modules[k] = None
    for k in ("mpi4py", "mpi4py.MPI", "mpi4py.util", "mpi4py.util.pkl5"):
        sys.modules[k] = mpi_modules[k] if mpi_modules else None
    mods = {}
    core.install(mods)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for n in list(public or PUBLIC) + list(extra):
                importlib.import_module(n)
        mods.update(core.current_modules())
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        for k, v in saved_env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    return World(mods, backend)
