"""Simulated solver services: the real OR-Tools solvers behind a seam the simulator controls.

MPSolver: each Solve is really executed (single-threaded); a scheduled fault may replace the answer by another one the
solver's interface allows (other optimal duals or primals, a worse feasible incumbent, values within tolerance, a
failure status) or raise.  CP-SAT: the real solver runs with one worker and a fixed seed; the simulator decides which
legal stream of improving solutions reaches the callback, how long the solve took and with which status it ended.
"""


import numpy as np
from scipy.optimize import linprog, milp, LinearConstraint, Bounds
from scipy.sparse import csr_matrix, hstack, vstack, eye
from ortools.linear_solver import pywraplp, linear_solver_pb2
from ortools.sat.python import cp_model
from ortools.sat.python import swig_helper
from ortools.sat import cp_model_pb2, sat_parameters_pb2

from . import core
from .core import Sim, HarnessError

REAL = {}
OPTIMAL = pywraplp.Solver.OPTIMAL
INFEASIBLE = pywraplp.Solver.INFEASIBLE
FEASIBLE = pywraplp.Solver.FEASIBLE
FAIL_STATUS = {"infeasible": pywraplp.Solver.INFEASIBLE, "unbounded": pywraplp.Solver.UNBOUNDED,
               "abnormal": pywraplp.Solver.ABNORMAL, "not_solved": pywraplp.Solver.NOT_SOLVED}


def oracle(c, A, L, U, l, u, integer, presolve=(True, False)):
    """min c x by HiGHS. Its presolve is known to return infeasible points now and then (scipy 1.12), so every answer is
    verified and, where it is not a verified point, asked for again without presolve."""
    cons = [LinearConstraint(A, L, U)] if A.shape[0] else []
    best = None
    for pre in presolve:
        res = milp(c, constraints=cons, bounds=Bounds(l, u), integrality=integer, options={"mip_rel_gap": 0.0, "presolve": pre})
        if res.x is not None:
            x = res.x
            r = A @ x if A.shape[0] else np.zeros(0)
            ok = bool(np.all(r >= L - 1e-5) and np.all(r <= U + 1e-5) and np.all(x >= l - 1e-5) and np.all(x <= u + 1e-5))
            if ok and res.status == 0:
                return res
        best = res
    if best.status == 0:
        best.status, best.x, best.message = 4, None, "no verified answer"
    return best


class Override:
    __slots__ = ("status", "obj", "x", "y", "failed")

    def __init__(self, status, obj=None, x=None, y=None, failed=False):
        self.status, self.obj, self.x, self.y, self.failed = status, obj, x, y, failed


class Arrays:
    """A linear model as arrays, in minimisation form."""

    def __init__(self, solver):
        p = linear_solver_pb2.MPModelProto()
        REAL["ExportModelToProto"](solver, p)
        self.proto = p
        n = len(p.variable)
        self.names = [v.name for v in p.variable]
        self.sign = -1.0 if p.maximize else 1.0
        self.c = self.sign * np.array([v.objective_coefficient for v in p.variable], float)
        self.off = self.sign * p.objective_offset
        self.l = np.array([v.lower_bound for v in p.variable], float)
        self.u = np.array([v.upper_bound for v in p.variable], float)
        self.integer = np.array([v.is_integer for v in p.variable], int)
        ri, ci, va = [], [], []
        self.cnames = [k.name for k in p.constraint]
        for i, k in enumerate(p.constraint):
            ri += [i] * len(k.var_index)
            ci += list(k.var_index)
            va += list(k.coefficient)
        self.A = csr_matrix((va, (ri, ci)), shape=(len(p.constraint), n))
        self.L = np.array([k.lower_bound for k in p.constraint], float)
        self.U = np.array([k.upper_bound for k in p.constraint], float)

    def value(self, x):
        """Objective in the model's own sense."""
        return float(self.sign * (self.c @ x + self.off))

    def reduced_cost(self, j, y):
        """In the model's own sense: objective coefficient minus the duals' price."""
        col = self.A[:, [j]].toarray().ravel()
        return float(self.sign * self.c[j] - col @ y)

    def feasible(self, x, tol=1e-6):
        r = self.A @ x
        return bool(np.all(r >= self.L - tol) and np.all(r <= self.U + tol)
                    and np.all(x >= self.l - tol) and np.all(x <= self.u + tol))

    def lp(self, extra=None):
        """(status, x, minimisation objective without offset) of the LP relaxation."""
        return oracle(self.c, self.A, self.L, self.U, self.l, self.u, np.zeros(len(self.c)))

    def mip(self, c=None, obj_le=None, obj_ge=None, integrality=None):
        A, L, U = self.A, self.L, self.U
        if obj_le is not None or obj_ge is not None:
            A = vstack([A, csr_matrix(self.c.reshape(1, -1))]).tocsr()
            L = np.append(L, -np.inf if obj_ge is None else obj_ge)
            U = np.append(U, np.inf if obj_le is None else obj_le)
        return oracle(self.c if c is None else c, A, L, U, self.l, self.u, self.integer if integrality is None else integrality)


def alt_dual(arr, z, rng):
    """Random point of the optimal dual face (arr in min form, z = its optimum without offset), or None."""
    m, n = arr.A.shape
    fin = np.isfinite
    # variables: yp (for L), ym (for U), dp (for l), dm (for u)
    M = 1e3
    bnds = ([(0, M if fin(a) else 0) for a in arr.L] + [(0, M if fin(a) else 0) for a in arr.U]
            + [(0, M * 10 if fin(a) else 0) for a in arr.l] + [(0, M * 10 if fin(a) else 0) for a in arr.u])
    z0 = lambda a: np.where(fin(a), a, 0.0)
    AT = arr.A.T.tocsr()
    I = eye(n, format="csr")
    Aeq = hstack([AT, -AT, I, -I]).tocsr()
    obj = np.concatenate([z0(arr.L), -z0(arr.U), z0(arr.l), -z0(arr.u)])
    r = np.array([rng.uniform(-1, 1) if rng.random() < 0.7 else 0.0 for _ in range(m)])
    c = np.concatenate([r, -r, np.full(2 * n, 1e-6)])
    res = linprog(c, A_ub=-obj.reshape(1, -1), b_ub=[-(z - 1e-9 * (1 + abs(z)))], A_eq=Aeq, b_eq=arr.c,
                  bounds=bnds, method="highs-ds")
    if res.status != 0:
        return None
    v = res.x
    y = v[:m] - v[m:2 * m]
    y[np.abs(y) < 1e-11] = 0.0
    return verified(arr, z, y)


def verified(arr, z, y):
    """y with round-off removed, if dual feasible and optimal to a tight tolerance; else None."""
    q = np.round(y * 2520) / 2520
    for y in (np.where(np.abs(q - y) < 1e-7, q, y), y):
        if _optimal_dual(arr, z, y):
            return y
    return None


def _optimal_dual(arr, z, y):
    fin = np.isfinite
    d = arr.c - arr.A.T @ y
    bad = 0.0
    val = 0.0
    for v, lows, ups in ((y, arr.L, arr.U), (d, arr.l, arr.u)):
        for vi, lo, up in zip(v, lows, ups):
            b = lo if vi > 0 else up
            if abs(vi) < 1e-14:
                continue
            if not fin(b):
                bad = max(bad, abs(vi))
            else:
                val += vi * b
    return bad <= 2e-8 and abs(val - z) <= 1e-7 * (1 + abs(z))


def alt_primal(arr, z, rng):
    """Random vertex of the optimal primal face of the LP."""
    tol = 1e-9 * (1 + abs(z))
    c = np.array([rng.uniform(-1, 1) for _ in range(len(arr.c))])
    l, u = arr.l.copy(), np.where(np.isfinite(arr.u), arr.u, 1e4)
    res = oracle(c, vstack([arr.A, csr_matrix(arr.c.reshape(1, -1))]).tocsr(), np.append(arr.L, -np.inf), np.append(arr.U, z + tol),
                 l, u, np.zeros(len(arr.c)))
    if res.status != 0 or not arr.feasible(res.x, 1e-8):
        return None
    x = res.x.copy()
    x[np.abs(x) < 1e-10] = 0.0
    return x


def alt_mip(arr, rng, kind, z=None):
    """alt_opt: another optimal solution; suboptimal: some feasible integral solution. Returns x or None."""
    if kind == "alt_opt":
        if z is None:
            return None
        c = np.array([rng.uniform(-1, 1) for _ in range(len(arr.c))])
        res = arr.mip(c=c, obj_le=z + 1e-7 * (1 + abs(z)))
    else:
        c = np.array([rng.uniform(-1, 1) * (1 if rng.random() < 0.6 else 0) for _ in range(len(arr.c))])
        c = np.where(np.isfinite(arr.u), c, np.abs(c) + 0.05)
        mix = rng.choice([0.0, 0.0, 0.3, 1.0])
        res = arr.mip(c=c + mix * arr.c)
    if res.x is None:
        return None
    x = res.x.copy()
    ints = arr.integer.astype(bool)
    x[ints] = np.round(x[ints])
    if not arr.feasible(x, 1e-7):
        return None
    if kind == "alt_opt" and float(arr.c @ x) > z + 1e-6 * (1 + abs(z)):
        return None
    return x


def _site(solver, c):
    for name in reversed(c.phase):
        if name == "solve_rmp":
            return "lp"
        if name == "solve_ip":
            return "ip"
        if name in ("generate_columns", "update_subproblem"):
            return "sp"
    return "mip" if solver.IsMIP() else "lp"


def sim_solve(self, *args):
    sim = Sim.current
    c = sim.cur() if sim else None
    if c is None:
        return REAL["Solve"](self, *args)
    site = _site(self, c)
    n, f = c.hit(site)
    REAL["SetNumThreads"](self, 1)
    self._sim_override = None
    t0 = sim.now
    kind = f["kind"] if f else None
    c.spend(site, n, f.get("extra", 0.0) if f else 0.0)
    if kind == "stall":
        c.fired(site + ":stall")
    if kind in core.EXC:
        c.fired(site + ":" + kind)
        c.record("solve", site, n, "raise", None)
        raise core.EXC[kind](f"injected at {site} {n}")
    if kind in FAIL_STATUS:
        c.fired(site + ":" + kind)
        self._sim_override = Override(FAIL_STATUS[kind], failed=True)
        c.record("solve", site, n, FAIL_STATUS[kind], None)
        sim.log(c.name, site, n, "fail", kind)
        if c.trace_cb:
            c.trace_cb(self, site, n, FAIL_STATUS[kind])
        return FAIL_STATUS[kind]
    status = REAL["Solve"](self, *args)
    sim.stub("real:MPSolver." + site)
    if status in (OPTIMAL, FEASIBLE) and kind:
        _transform(self, c, site, n, f, kind)
    if status == OPTIMAL and site != "lp" and args and self._sim_override is None:
        _within_gap(self, c, site, n, args[0])
    ov = self._sim_override
    st = ov.status if ov else status
    obj = None
    if st in (OPTIMAL, FEASIBLE):
        obj = obj_value(self)
    c.record("solve", site, n, st, obj)
    sim.log(c.name, site, n, st, None if obj is None else repr(obj), sim.now)
    sim.state((site, st, None if obj is None else round(obj, 6), self.NumVariables(), self.NumConstraints()))
    if c.trace_cb:
        c.trace_cb(self, site, n, st)
    return st


def _within_gap(self, c, site, n, params):
    """A caller who accepts a gap may get any solution within it, called optimal."""
    gap = params.GetDoubleParam(pywraplp.MPSolverParameters.RELATIVE_MIP_GAP)
    if not 1e-3 < gap < 1e6 or not self.IsMIP():
        return
    rng = c.rng("gap", site, n)
    arr = Arrays(self)
    z = arr.sign * REAL["Obj.Value"](REAL["Objective"](self))
    best = None
    for _ in range(4):
        x = alt_mip(arr, rng, "suboptimal")
        if x is not None:
            v = arr.sign * arr.value(x)
            if v - z <= gap * max(abs(v), abs(z)) and (best is None or v > best[0]):
                best = (v, x)
    if best:
        self._sim_override = Override(OPTIMAL, arr.value(best[1]), best[1])
        c.fired(site + ":within_gap")


def obj_value(solver):
    ov = getattr(solver, "_sim_override", None)
    if ov is not None and ov.obj is not None:
        return ov.obj
    return REAL["Obj.Value"](REAL["Objective"](solver))


def sol_values(solver):
    ov = getattr(solver, "_sim_override", None)
    if ov is not None and ov.x is not None:
        return np.array(ov.x)
    return np.array([REAL["Var.solution_value"](v) for v in REAL["variables"](solver)])


def dual_values(solver):
    ov = getattr(solver, "_sim_override", None)
    if ov is not None and ov.y is not None:
        return np.array(ov.y)
    return np.array([REAL["Con.dual_value"](k) for k in REAL["constraints"](solver)])


def _transform(self, c, site, n, f, kind):
    sim = c.sim
    rng = c.rng("solver", site, n, f.get("seed", 0))
    arr = Arrays(self)
    z = arr.sign * REAL["Obj.Value"](REAL["Objective"](self)) - arr.off
    if site == "lp":
        if kind == "stopped":           # stopped early: a feasible point, duals that promise nothing
            x = alt_primal(arr, z + abs(z) * rng.choice([0, 0.3, 1.0]) + rng.choice([0.0, 1.0, 100.0]), rng)
            x = x if x is not None else sol_values(self)
            y = dual_values(self) * rng.choice([0.0, 0.5, 1.0, 2.0, 5.0])
            if rng.random() < 0.3:
                y = y + np.array([rng.uniform(-1, 1) for _ in y])
            self._sim_override = Override(FEASIBLE, arr.value(x), x, y)
            c.fired("lp:stopped")
            return
        ov = Override(OPTIMAL)
        done = []
        if kind in ("alt_dual", "alt_both"):
            y = alt_dual(arr, z, rng)
            if y is not None:
                ov.y = arr.sign * y
                done.append("alt_dual")
        if kind == "mid_dual":          # inside the optimal dual face, as without a basis
            ys = [y for y in (alt_dual(arr, z, rng) for _ in range(rng.choice([2, 3, 4]))) if y is not None]
            if len(ys) > 1:
                w = np.array([rng.choice([1, 1, rng.random()]) for _ in ys])
                y = verified(arr, z, w / w.sum() @ np.array(ys))
                if y is not None:
                    ov.y = arr.sign * y
                    done.append("mid_dual")
        if kind in ("alt_primal", "alt_both"):
            x = alt_primal(arr, z, rng)
            if x is not None:
                ov.x = x
                done.append("alt_primal")
        if kind == "noise":
            y = dual_values(self)
            e = f.get("eps", 1e-9)
            ov.y = y + np.array([rng.uniform(-e, e) for _ in y])
            done.append("noise")
        if done:
            ov.obj = REAL["Obj.Value"](REAL["Objective"](self))
            self._sim_override = ov
            for k in done:
                c.fired("lp:" + k)
        return
    # integer solves
    if kind in ("alt_opt", "suboptimal"):
        x = alt_mip(arr, rng, kind, z)
        if x is not None:
            val = arr.value(x)
            better = arr.sign * val - arr.off
            st = OPTIMAL if better <= z + 1e-9 * (1 + abs(z)) else FEASIBLE
            if kind == "suboptimal" and st == OPTIMAL and f.get("label_feasible"):
                st = FEASIBLE
            self._sim_override = Override(st, val, x)
            c.fired(f"{site}:{kind}" if st == FEASIBLE or kind == "alt_opt" else f"{site}:alt_opt")
    elif kind == "noise" and site == "sp":
        x = np.array([REAL["Var.solution_value"](v) for v in REAL["variables"](self)])
        e = f.get("eps", 1e-7)
        ints = arr.integer.astype(bool)
        x[ints] = np.round(x[ints]) + np.array([rng.uniform(-e, e) for _ in range(int(ints.sum()))])
        self._sim_override = Override(OPTIMAL, REAL["Obj.Value"](REAL["Objective"](self)), x)
        c.fired(f"{site}:noise")


# ------------------------------------------------------------------ tagging

def _tag(o, solver):
    if o is not None:
        try:
            o._sim_solver = solver
        except Exception:
            pass
    return o


def _wrap_factory(name, many=False):
    real = getattr(pywraplp.Solver, name)
    REAL[name] = real

    def w(self, *a, **k):
        r = real(self, *a, **k)
        if many:
            for o in r:
                _tag(o, self)
            return r
        return _tag(r, self)
    w.__name__ = name
    setattr(pywraplp.Solver, name, w)


def _ov(o):
    s = getattr(o, "_sim_solver", None)
    return getattr(s, "_sim_override", None) if s is not None else None


def _var_value(self):
    ov = _ov(self)
    if ov is not None:
        if ov.failed:
            return 0.0
        if ov.x is not None:
            i = self.index()
            return float(ov.x[i]) if i < len(ov.x) else 0.0
    return REAL["Var.solution_value"](self)


def _con_dual(self):
    ov = _ov(self)
    if ov is not None:
        if ov.failed:
            return 0.0
        if ov.y is not None:
            i = self.index()
            return float(ov.y[i]) if i < len(ov.y) else 0.0
    return REAL["Con.dual_value"](self)


def _obj_val(self):
    ov = _ov(self)
    if ov is not None:
        if ov.failed:
            return 0.0
        if ov.obj is not None:
            return ov.obj
    return REAL["Obj.Value"](self)


def _set_threads(self, n):
    sim = Sim.current
    if sim and sim.cur() is not None:
        return REAL["SetNumThreads"](self, 1)
    return REAL["SetNumThreads"](self, n)


def _mp_wall_time(self):
    sim = Sim.current
    if sim and sim.cur() is not None:
        return int((sim.now - sim.start) * 1000)
    return REAL["wall_time"](self)


# ------------------------------------------------------------------ CP-SAT

class _Collect(swig_helper.SolutionCallback):
    def __init__(self):
        swig_helper.SolutionCallback.__init__(self)
        self.sols = []

    def OnSolutionCallback(self):
        r = swig_helper.SolutionCallback.Response(self)
        self.sols.append((list(r.solution), r.objective_value, r.best_objective_bound))


def _params(seed, base=None):
    p = sat_parameters_pb2.SatParameters()
    p.num_workers = 1
    p.random_seed = seed
    p.max_deterministic_time = 30.0
    p.max_time_in_seconds = 1e9
    p.cp_model_presolve = True
    p.log_search_progress = False
    return p


def run_cp(proto, seed=1, collect=True, tweak=None):
    w = swig_helper.SolveWrapper()
    p = _params(seed)
    if tweak:
        tweak(p)
    w.SetParameters(p)
    cb = _Collect()
    if collect:
        w.AddSolutionCallback(cb)
    r = w.Solve(proto)
    if collect:
        w.ClearSolutionCallback(cb)
    return r, cb.sols


def cp_objective(proto, sol):
    """Objective in the user's sense (CpModelProto stores minimisation with scaling)."""
    if proto.HasField("floating_point_objective"):
        o = proto.floating_point_objective
        return sum(c * sol[v] for v, c in zip(o.vars, o.coeffs)) + o.offset
    o = proto.objective
    s = sum(c * (sol[v] if v >= 0 else -sol[-v - 1]) for v, c in zip(o.vars, o.coeffs)) + o.offset
    return (s * o.scaling_factor) if o.scaling_factor else s


def cp_random_solutions(proto, rng, k):
    """k feasible solutions of the model under random objectives (with their objective under the true one)."""
    out = []
    nv = len(proto.variables)
    for _ in range(k):
        q = cp_model_pb2.CpModelProto()
        q.CopyFrom(proto)
        q.ClearField("objective")
        q.ClearField("floating_point_objective")
        vs = list(range(nv))
        q.objective.vars.extend(vs)
        dens = rng.choice([0.2, 0.6, 1.0])
        q.objective.coeffs.extend([rng.randint(-3, 3) if rng.random() < dens else 0 for _ in vs])
        r, _ = run_cp(q, seed=rng.randrange(1, 1 << 30), collect=False)
        if r.status in (cp_model.OPTIMAL, cp_model.FEASIBLE):
            out.append(list(r.solution))
    return out


def sim_cp_solve(self, model, solution_callback=None):
    sim = Sim.current
    c = sim.cur() if sim else None
    if c is None:
        return REAL["CpSolve"](self, model, solution_callback)
    site = "cut" if any(p == "solve_rmp" for p in c.phase) else "cp"
    n, f = c.hit(site)
    kind = f["kind"] if f else None
    proto = model.Proto()
    fp = proto.HasField("floating_point_objective")
    maximize = proto.floating_point_objective.maximize if fp else proto.objective.scaling_factor < 0
    has_obj = fp or proto.HasField("objective")
    if f and "script" in f:          # fully scripted outcome (no real solve): used by the tuner check
        return _cp_script(self, c, site, n, f["script"], solution_callback, model)
    d = c.spend(site, n, f.get("extra", 0.0) if f else 0.0)
    if kind == "stall":
        c.fired(site + ":stall")
    if kind in core.EXC:
        c.fired(f"{site}:{kind}")
        c.record("solve", site, n, "raise", None)
        raise core.EXC[kind](f"injected at {site} {n}")
    rng = c.rng("cp", site, n, (f or {}).get("seed", 0))
    resp, sols = run_cp(proto, seed=1)
    sim.stub("real:CpSolver." + site)
    if resp.status == cp_model.MODEL_INVALID:
        out = _mk_response(cp_model.MODEL_INVALID, [], 0, 0, d, nvars=0)
        return _finish_cp(self, c, site, n, out, [], None, has_obj)
    better = (lambda a, b: a > b + 1e-9) if maximize else (lambda a, b: a < b - 1e-9)
    stream = [s for s, _, _ in sols]
    if resp.status == cp_model.OPTIMAL and (not stream or stream[-1] != list(resp.solution)):
        if not stream or better(cp_objective(proto, list(resp.solution)), cp_objective(proto, stream[-1])) or not has_obj:
            stream.append(list(resp.solution))
    status = resp.status
    bound = resp.best_objective_bound
    if kind in ("stream", "feasible") and status == cp_model.OPTIMAL and has_obj:
        extra = cp_random_solutions(proto, rng, f.get("k", 3))
        opt = stream[-1]
        zopt = cp_objective(proto, opt)
        cand = sorted(((cp_objective(proto, s), s) for s in stream[:-1] + extra), key=lambda t: (t[0], t[1]),
                      reverse=not maximize)
        new, last = [], None
        for z, s in cand:
            if better(zopt, z) and (last is None or better(z, last)) and rng.random() < 0.85:
                new.append(s)
                last = z
        alts = [s for s in extra if abs(cp_objective(proto, s) - zopt) < 1e-9]
        if kind == "stream":
            new.append(rng.choice([opt] + alts))
            c.fired(f"{site}:stream")
            stream = new
        elif new:
            stream = new[:max(1, rng.randrange(len(new)) + 1)] if rng.random() < 0.7 else new
            status = cp_model.FEASIBLE
            c.fired(f"{site}:feasible")
    elif kind == "final_only" and status == cp_model.OPTIMAL:
        stream = stream[-1:]
        c.fired(f"{site}:final_only")
    gap_r, gap_a = self.parameters.relative_gap_limit, self.parameters.absolute_gap_limit
    if status == cp_model.OPTIMAL and has_obj and stream and (gap_r > 1e-3 or gap_a > 1e-3):
        # a caller who accepts a gap may get any solution within it, called optimal
        zopt = cp_objective(proto, stream[-1])
        for s in stream[:-1] + cp_random_solutions(proto, rng, 3):
            z = cp_objective(proto, s)
            if abs(z - zopt) <= max(gap_a, gap_r * max(abs(z), 1.0)) and not better(z, zopt):
                stream = [s]
                c.fired(site + ":within_gap")
                break
    if kind in ("unknown", "infeasible", "invalid"):
        status = {"unknown": cp_model.UNKNOWN, "infeasible": cp_model.INFEASIBLE,
                  "invalid": cp_model.MODEL_INVALID}[kind]
        stream = []
        c.fired(f"{site}:{kind}")
    out = _mk_response(status, stream[-1] if stream else [], cp_objective(proto, stream[-1]) if stream and has_obj else 0.0,
                       bound, d, nvars=len(proto.variables))
    return _finish_cp(self, c, site, n, out, stream, solution_callback, has_obj, proto, f)


def _mk_response(status, sol, obj, bound, wall, nvars):
    r = cp_model_pb2.CpSolverResponse()
    r.status = status
    r.solution.extend(sol)
    r.objective_value = obj
    r.best_objective_bound = bound if status in (cp_model.OPTIMAL, cp_model.FEASIBLE) else 0.0
    r.wall_time = wall
    r.user_time = wall
    return r


def _finish_cp(self, c, site, n, out, stream, cb, has_obj, proto=None, f=None):
    sim = c.sim
    for i, s in enumerate(stream):
        if cb is None:
            break
        cb._sim_resp = (s, cp_objective(proto, s) if has_obj else 0.0, out.best_objective_bound, sim)
        if f and f.get("kind") == "cb_interrupt" and i == min(f.get("at", 0), len(stream) - 1):
            c.fired(f"{site}:cb_interrupt")
            raise core.InjectedInterrupt("in solution callback")
        cb._sim_stop = False
        cb.OnSolutionCallback()
        if cb._sim_stop and out.status == cp_model.OPTIMAL and i < len(stream) - 1:      # the caller stopped the search
            out.status = cp_model.FEASIBLE
            del out.solution[:]
            out.solution.extend(s)
            out.objective_value = cp_objective(proto, s) if has_obj else 0.0
            break
    self._CpSolver__solution = out
    c.record("cpsolve", site, n, out.status, out.objective_value, out.best_objective_bound, out.wall_time,
             param_dict(self))
    sim.log(c.name, site, n, out.status, out.objective_value, len(stream), sim.now)
    sim.state((site, out.status, round(out.objective_value, 3), len(stream)))
    return out.status


TUNED = ("min_num_lns_workers", "cp_model_probing_level", "max_presolve_iterations")


def param_dict(solver):
    p = solver.parameters
    d = {fd.name: v if not hasattr(v, "__len__") or isinstance(v, str) else list(v) for fd, v in p.ListFields()}
    return d


def _cp_script(self, c, site, n, s, cb, model):
    sim = c.sim
    sim.stub("stub:CpSolver.scripted")
    params = sat_parameters_pb2.SatParameters()
    params.CopyFrom(self.parameters)
    if "by" in s:
        s = s["good"] if str(getattr(params, s["by"])) == s["value"] else s["bad"]
    if s["status"] in core.EXC:
        sim.advance(s["wall"])
        c.fired("cp:script:" + s["status"])
        c.record("cpscript", n, s, params, model, cb)
        raise core.EXC[s["status"]](f"injected at {site} {n}")
    sim.advance(s["wall"])
    st = {"optimal": cp_model.OPTIMAL, "feasible": cp_model.FEASIBLE, "unknown": cp_model.UNKNOWN,
          "infeasible": cp_model.INFEASIBLE, "invalid": cp_model.MODEL_INVALID}[s["status"]]
    c.fired("cp:script:" + s["status"])
    out = _mk_response(st, [], s.get("obj", 0.0), s.get("bound", 0.0), s["wall"], 0)
    self._CpSolver__solution = out
    c.record("cpscript", n, s, params, model, cb)
    c.record("cpsolve", site, n, st, s.get("obj", 0.0), s.get("bound", 0.0), s["wall"], param_dict(self))
    sim.log(c.name, site, n, st, s)
    return st


class _CbPatch:
    @staticmethod
    def has(self):
        return True if getattr(self, "_sim_resp", None) else REAL["cb.HasResponse"](self)

    @staticmethod
    def ival(self, i):
        r = getattr(self, "_sim_resp", None)
        if r:
            return r[0][i] if i >= 0 else 1 - r[0][-i - 1]
        return REAL["cb.SolutionIntegerValue"](self, i)

    @staticmethod
    def bval(self, i):
        r = getattr(self, "_sim_resp", None)
        if r:
            return bool(r[0][i] if i >= 0 else 1 - r[0][-i - 1])
        return REAL["cb.SolutionBooleanValue"](self, i)

    @staticmethod
    def obj(self):
        r = getattr(self, "_sim_resp", None)
        return r[1] if r else REAL["cb.ObjectiveValue"](self)

    @staticmethod
    def bound(self):
        r = getattr(self, "_sim_resp", None)
        return r[2] if r else REAL["cb.BestObjectiveBound"](self)

    @staticmethod
    def stop(self):
        if getattr(self, "_sim_resp", None):
            self._sim_stop = True
        else:
            REAL["cb.StopSearch"](self)

    @staticmethod
    def wall(self):
        r = getattr(self, "_sim_resp", None)
        return (r[3].now - r[3].start) if r else REAL["cb.WallTime"](self)


def install():
    if REAL:
        return
    S = pywraplp.Solver
    REAL["Solve"] = S.Solve
    REAL["SetNumThreads"] = S.SetNumThreads
    REAL["wall_time"] = S.wall_time
    REAL["ExportModelToProto"] = S.ExportModelToProto
    for nm in ("Var", "NumVar", "IntVar", "BoolVar", "variable", "LookupVariable", "Constraint", "RowConstraint",
               "constraint", "LookupConstraint", "Objective", "Add"):
        _wrap_factory(nm)
    for nm in ("variables", "constraints"):
        _wrap_factory(nm, many=True)
    REAL["Var.solution_value"] = pywraplp.Variable.solution_value
    REAL["Con.dual_value"] = pywraplp.Constraint.dual_value
    REAL["Obj.Value"] = pywraplp.Objective.Value
    pywraplp.Variable.solution_value = _var_value
    pywraplp.Variable.SolutionValue = _var_value
    pywraplp.Constraint.dual_value = _con_dual
    pywraplp.Constraint.DualValue = _con_dual
    pywraplp.Objective.Value = _obj_val
    S.Solve = sim_solve
    S.SetNumThreads = _set_threads
    S.wall_time = _mp_wall_time
    S.WallTime = _mp_wall_time
    REAL["CpSolve"] = cp_model.CpSolver.Solve
    cp_model.CpSolver.Solve = sim_cp_solve
    B = swig_helper.SolutionCallback
    C = cp_model.CpSolverSolutionCallback
    for nm, fn in (("HasResponse", _CbPatch.has), ("SolutionIntegerValue", _CbPatch.ival),
                   ("SolutionBooleanValue", _CbPatch.bval), ("ObjectiveValue", _CbPatch.obj),
                   ("BestObjectiveBound", _CbPatch.bound), ("WallTime", _CbPatch.wall), ("StopSearch", _CbPatch.stop)):
        REAL["cb." + nm] = getattr(B, nm)
        setattr(C, nm, fn)
