"""Installs every seam (before the library is imported) and imports the library from the working tree."""
import contextlib
import os
import random
import sys
import time
import importlib
import importlib.abc
import importlib.machinery
import importlib.util

from . import core, solvers
from .core import Sim

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "col_gen_estimator"
_done = False
REALT = {}


def _clock(name, kind, ns=False):
    real = getattr(time, name)
    REALT[name] = real

    def f():
        sim = Sim.current
        if sim is None or sim.cur() is None:
            return real()
        v = sim.read_clock(kind)
        return int(v * 1e9) if ns else v
    f.__name__ = name
    setattr(time, name, f)


def _gettime(name, ns):
    real = getattr(time, name)
    kinds = {time.CLOCK_REALTIME: "wall", time.CLOCK_PROCESS_CPUTIME_ID: "cpu", time.CLOCK_THREAD_CPUTIME_ID: "cpu"}

    def f(clk):
        sim = Sim.current
        if sim is None or sim.cur() is None:
            return real(clk)
        v = sim.read_clock(kinds.get(clk, "steady"))
        return int(v * 1e9) if ns else v
    f.__name__ = name
    setattr(time, name, f)


def _sleep(d):
    sim = Sim.current
    if sim is None or sim.cur() is None:
        return REALT["sleep"](d)
    sim.advance(max(0.0, d))


def _rand(name):
    real = getattr(random, name)

    def f(*a, **k):
        sim = Sim.current
        c = sim.cur() if sim else None
        if c is None:
            return real(*a, **k)
        if name != "seed" and sim.scheduler is not None:
            sim.step(c, "random")
        return getattr(c.random, name)(*a, **k)
    f.__name__ = name
    setattr(random, name, f)


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


NULL = _Null()


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = NULL
    try:
        yield
    finally:
        sys.stdout = old


TEMPLATE = ("generate_mp", "add_column", "solve_rmp", "solve_ip", "update_subproblem", "generate_columns",
            "rmp_objective_improved")


def _wrap_method(cls, name):
    real = cls.__dict__[name]
    if getattr(real, "_sim_wrapped", False) or not callable(real):
        return

    def w(self, *a, **k):
        sim = Sim.current
        c = sim.cur() if sim else None
        if c is None:
            return real(self, *a, **k)
        if c.phase and c.phase[-1] == name and getattr(c, "_phase_obj", None) is self:
            return real(self, *a, **k)          # super() chain
        sim.step(c, name)
        c.phase.append(name)
        old = getattr(c, "_phase_obj", None)
        c._phase_obj = self
        t0 = sim.now
        pre = getattr(c, "pre_hook", None)
        if pre is not None:
            pre(name, self, a)
        try:
            r = real(self, *a, **k)
        except BaseException as e:
            c.record("call", name, self, a, None, type(e).__name__, t0, sim.now)
            raise
        finally:
            c.phase.pop()
            c._phase_obj = old
        if name == "generate_columns" and r is not None and not isinstance(r, (list, tuple)):
            r = list(r)
        c.record("call", name, self, a, r, None, t0, sim.now)
        hook = getattr(c, "call_hook", None)
        if hook is not None:
            hook(name, self, a, r)
        return r
    w._sim_wrapped = True
    w.__name__ = name
    w.__doc__ = real.__doc__
    setattr(cls, name, w)


def install():
    """Idempotent. Returns the library's package module."""
    global _done
    if _done:
        return sys.modules["col_gen_estimator"]
    _done = True
    sys.dont_write_bytecode = True
    for n, kind in (("time", "wall"), ("monotonic", "steady"), ("perf_counter", "steady"), ("process_time", "cpu"),
                    ("thread_time", "cpu")):
        _clock(n, kind)
        _clock(n + "_ns", kind, ns=True)
    _gettime("clock_gettime", False)
    _gettime("clock_gettime_ns", True)
    REALT["sleep"] = time.sleep
    time.sleep = _sleep
    import timeit
    timeit.default_timer = time.perf_counter
    for n in ("random", "uniform", "randint", "choice", "randrange", "sample", "shuffle", "choices", "getrandbits",
              "gauss", "seed", "betavariate", "expovariate", "triangular", "normalvariate"):
        _rand(n)
    solvers.install()
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder())
    return fresh()


generation = 0
_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles a source file once; every import executes it again."""

    def get_code(self, fullname):
        if self.path not in _code:
            _code[self.path] = super().get_code(fullname)
        return _code[self.path]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(name, init, loader=_Loader(name, init), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(name, base + ".py"))
        return None


def _ours():
    return [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]


def fresh():
    """Imports the library anew, as a new process would: no module or class keeps anything of earlier uses."""
    global generation
    generation += 1
    for m in _ours():
        del sys.modules[m]
    pkg = importlib.import_module(PKG)
    if not os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise core.HarnessError(f"imported {pkg.__file__}, not from {REPO}")
    for mn in _ours():
        mod = sys.modules[mn]
        for cls in list(vars(mod).values()):
            if isinstance(cls, type) and cls.__module__ == mod.__name__:
                for t in TEMPLATE:
                    if t in cls.__dict__:
                        _wrap_method(cls, t)
    return pkg


@contextlib.contextmanager
def separate():
    """A library of its own for the duration (what it builds goes on using it)."""
    old = {m: sys.modules[m] for m in _ours()}
    fresh()
    try:
        yield
    finally:
        for m in _ours():
            del sys.modules[m]
        sys.modules.update(old)


def pkg_dir():
    return os.path.join(os.path.realpath(REPO), "col_gen_estimator") + os.sep
