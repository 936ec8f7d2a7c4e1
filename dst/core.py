"""Simulation core: one scenario (plain JSON) -> one exactly repeatable execution.

A Sim owns the simulated clock, the event log, the fault list and the clients.  A client is one "caller" of the
library (one thread of use); everything random is derived from (scenario seed, client name, site, occurrence), never
from a shared generator, so that the decisions a client meets do not depend on how clients are interleaved.
"""
import hashlib
import random
import threading
import time as _time
import zlib

REAL_MONOTONIC = _time.monotonic


class Violation(Exception):
    """A property does not hold in this execution."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The harness itself is wrong or cannot decide."""


class InjectedError(RuntimeError):
    """An exception the simulator raised on purpose (solver broke)."""


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedOSError(OSError):
    pass


INJECTED = (InjectedError, InjectedMemoryError, InjectedInterrupt, InjectedOSError)
EXC = {"error": InjectedError, "memory": InjectedMemoryError, "interrupt": InjectedInterrupt}


class StepLimit(BaseException):
    """The run took more simulated steps than any correct run can."""


def lrng(*label):
    h = hashlib.sha256("|".join(map(str, label)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class StuckRandom(random.Random):
    """Legal but unlucky randomness: choice() keeps returning the same positions (positions cycle slowly)."""

    def configure(self, period):
        self._period = max(1, period)
        self._k = 0
        self._base = self.random()
        return self

    def choice(self, seq):
        self._k += 1
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        f = (self._base + (self._k // self._period) * 0.6180339887498949) % 1.0
        return seq[int(f * len(seq))]


class Client:
    def __init__(self, sim, name, seed, faults=(), rand_mode=None, durations=None):
        self.sim, self.name, self.seed = sim, name, seed
        self.faults = {}
        for f in faults:
            if f.get("client", name) == name:
                self.faults[(f["site"], f["n"])] = f
        self.counters = {}
        self.durations = durations or {}
        self.phase = []          # stack of package calls (proto interposer)
        self.events = []         # message history of this client
        self.trace_cb = None
        if rand_mode and rand_mode.get("kind") == "stuck":
            self.random = StuckRandom(seed).configure(rand_mode.get("period", 50))
        else:
            self.random = random.Random(seed)

    def count(self, site):
        n = self.counters.get(site, 0)
        self.counters[site] = n + 1
        return n

    def hit(self, site):
        """One occurrence of a site: returns (n, fault or None)."""
        n = self.count(site)
        f = self.faults.get((site, n)) or self.faults.get((site, -1))
        self.sim.step(self, site)
        return n, f

    def rng(self, *label):
        return lrng(self.seed, *label)

    def spend(self, site, n, extra=0.0):
        lo, hi = self.durations.get(site, (0.0, 0.0))
        d = (self.rng("dur", site, n).uniform(lo, hi) if hi > 0 else 0.0) + extra
        if d:
            self.sim.advance(d)
        return d

    def fired(self, kind):
        self.sim.fired[kind] = self.sim.fired.get(kind, 0) + 1
        self.sim.log("fault", self.name, kind)

    def record(self, *ev):
        self.events.append(ev)


class Sim:
    current = None

    def __init__(self, scenario, step_limit=200000):
        self.scenario = scenario
        self.now = 1000.0
        self.start = self.now
        self.wall_offset = 1.6e9
        self.cpu_rate = (0.2, 5.0)[zlib.crc32(repr(scenario.get("seed")).encode()) % 2]
        self.tick = 0.0              # what one clock read costs
        self.reads = 0
        self.jumps = {}              # clock read number -> wall clock step
        self.time_faults = []        # (simulated time, wall step)
        self.fired = {}
        self.probes = {}
        self.nsteps = 0
        self.step_limit = step_limit
        self._h = hashlib.sha256()
        self.nlog = 0
        self.tail = []
        self.clients = {}
        self._tls = threading.local()
        self.scheduler = None
        self.keep_log = False
        self.full_log = []
        self.states = set()
        self.stub_calls = {}
        self.soft = []               # violations after which the run goes on: [kind, detail]
        self.wall_reads = None       # list of wall clock values handed out, while recorded

    # ---- context
    def __enter__(self):
        if Sim.current is not None:
            raise HarnessError("nested simulation")
        Sim.current = self
        return self

    def __exit__(self, *a):
        Sim.current = None

    def client(self, name, seed, **kw):
        c = Client(self, name, seed, **kw)
        self.clients[name] = c
        return c

    def as_client(self, c):
        return _As(self, c)

    def cur(self):
        return getattr(self._tls, "client", None)

    # ---- steps, log
    def step(self, client, what):
        self.nsteps += 1
        if self.nsteps > self.step_limit:
            raise StepLimit(f"{self.nsteps} steps")
        if self.scheduler is not None:
            self.scheduler.point(client, what)

    def log(self, *ev):
        s = repr(ev)
        self._h.update(s.encode())
        self.nlog += 1
        if self.keep_log:
            self.full_log.append(s)
        self.tail.append(s if len(s) < 400 else s[:400] + "...")
        if len(self.tail) > 60:
            del self.tail[:30]

    def digest(self):
        return self._h.hexdigest()

    def state(self, t):
        if len(self.states) < 20000:
            self.states.add(zlib.crc32(repr(t).encode()))

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def stub(self, name, k=1):
        self.stub_calls[name] = self.stub_calls.get(name, 0) + k

    # ---- clock
    def advance(self, d):
        if d < 0:
            raise HarnessError("negative advance")
        self.now += d
        while self.time_faults and self.time_faults[0][0] <= self.now - self.start:
            _, j = self.time_faults.pop(0)
            self.wall_offset += j
            self.fired["clock_jump"] = self.fired.get("clock_jump", 0) + 1

    def read_clock(self, kind):
        """kind: "wall" (may be stepped), "steady", or "cpu" (what the processors worked: less than the time that passed if
        the process waits, more if it works in parallel)."""
        self.reads += 1
        if self.tick:
            self.advance(self.tick)
        j = self.jumps.pop(self.reads, None)
        if j is not None:
            self.wall_offset += j
            self.fired["clock_jump"] = self.fired.get("clock_jump", 0) + 1
        v = self.now * self.cpu_rate if kind == "cpu" else self.now + (self.wall_offset if kind == "wall" else 0.0)
        if self.wall_reads is not None:
            self.wall_reads.append(v)
        return v

    def note(self, kind, detail):
        """A violation that does not end the run."""
        self.log("violation", kind)
        if all(k != kind for k, _ in self.soft):
            self.soft.append([kind, str(detail)[:3000]])


class _As:
    def __init__(self, sim, c):
        self.sim, self.c = sim, c

    def __enter__(self):
        self.old = self.sim.cur()
        self.sim._tls.client = self.c
        return self.c

    def __exit__(self, *a):
        self.sim._tls.client = self.old
