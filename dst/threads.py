"""Crash injection at a chosen line, and a cooperative scheduler for concurrent callers.

Threads are real but parked: exactly one runs, and who runs next is decided only by the scenario's switch list
[[step, thread index], ...], where a step is a scheduling point (a seam call or, with tracing, a line of the library).
"""
import sys
import threading

from . import seams, core
from .core import HarnessError


class LineCounter:
    """Counts executed lines of the library; raises exc at line number `at` (1-based) if given."""

    def __init__(self, at=None, exc=None, dirs=None, on_line=None, func=None):
        self.at, self.exc, self.n, self.func = at, exc, 0, func
        self.per = {}            # lines executed per function
        self.dirs = tuple(dirs or [seams.pkg_dir()])
        self.on_line = on_line
        self.where = None
        self._ok = {}

    def _mine(self, code):
        r = self._ok.get(code)
        if r is None:
            r = self._ok[code] = code.co_filename.startswith(self.dirs)
        return r

    def glob(self, frame, event, arg):
        if not self._mine(frame.f_code):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            q = frame.f_code.co_qualname
            self.per[q] = self.per.get(q, 0) + 1
            if self.func is None or q == self.func:
                self.n += 1
            elif self.on_line is None:
                return self.local
            if self.at is not None and self.n == self.at:
                self.where = (frame.f_code.co_name, frame.f_lineno)
                self.at = None
                raise self.exc(f"injected at line event {self.n} in {frame.f_code.co_name}")
            if self.on_line is not None:
                self.on_line()
        return self.local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)


class Coop:
    """switches: {"seam": [[n, thread]], "line": [[n, thread]]}: at the n-th seam or line point thread takes over."""

    def __init__(self, sim, switches):
        self.sim = sim
        self.switches = {k: {int(n): int(t) for n, t in switches.get(k, [])} for k in ("seam", "line")}
        self.trace_lines = bool(self.switches["line"])
        self.count = {"seam": 0, "line": 0}
        self.cur = None
        self.sems, self.alive, self.results, self.names = [], [], [], []
        self.taken = []
        self.hold = False            # the harness itself is at work; no switches

    # called on the running thread only
    def point(self, client, what):
        if self.hold:
            return
        k = "line" if what is None else "seam"
        n = self.count[k] = self.count[k] + 1
        t = self.switches[k].get(n)
        if t is None:
            return
        t %= len(self.sems)
        me = self.cur
        if t == me or not self.alive[t]:
            return
        self.taken.append((k, n, me, t))
        self._switch(me, t)

    def _switch(self, me, t):
        self.cur = t
        self.sems[t].release()
        self.sems[me].acquire()

    def run(self, bodies, names):
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.results = [None] * n
        done = threading.Semaphore(0)

        def runner(i):
            self.sems[i].acquire()
            tr = None
            try:
                if self.trace_lines:
                    tr = LineCounter(on_line=lambda: self.point(None, None))
                    tr.__enter__()
                try:
                    self.results[i] = ("ok", bodies[i]())
                except BaseException as e:          # delivered to the harness thread
                    self.results[i] = ("exc", e)
            finally:
                if tr is not None:
                    tr.__exit__()
                self.alive[i] = False
                nxt = next((k for k in range(n) if self.alive[k]), None)
                if nxt is None:
                    done.release()
                else:
                    self.cur = nxt
                    self.sems[nxt].release()
        ths = [threading.Thread(target=runner, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        self.sim.scheduler = self
        self.cur = 0
        self.sems[0].release()
        done.acquire()
        self.sim.scheduler = None
        for t in ths:
            t.join()
        return self.results
