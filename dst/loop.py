"""Workload for the generic column generation loop: ColGenClassifier.fit is real, its master and subproblems are
simulated peers whose answers, durations and failures the scenario decides."""
import numpy as np

from . import core, seams
from .core import Violation, HarnessError


def gen(rng, tier, *, p_time=0.5, p_iter=0.5, jumps=0.4, multi=0.3, exc=0.1, endless=0.25, p_real=0.12):
    if rng.random() < p_real:
        from . import real
        return real.gen(rng, tier, p_time=p_time, jumps=jumps, exc=exc)
    big = rng.choice(["levels", "wide", "long", "columns", "fits"]) if rng.random() < 0.03 else None
    nlev = rng.choice([6, 10]) if big == "levels" else rng.choice([1, 1, 2, 2, 3, 4])
    levels = [rng.choice([8, 16, 33]) if big == "wide" else rng.choice([1, 1, 2, 3, 4]) for _ in range(nlev)]
    sc = {"levels": levels, "fits": [], "seed": rng.randrange(1 << 30), "faults": []}
    nfit = rng.choice([6, 12]) if big == "fits" else 1 if rng.random() > multi else rng.choice([2, 3])
    for fi in range(nfit):
        niter = rng.choice([60, 130, 300]) if big == "long" else rng.choice([1, 2, 3, 5, 8, 20])
        prod = 1.0 if big == "long" else rng.choice([0.1, 0.3, 0.6, 0.9])
        acc = rng.choice([0.9, 1.0] if big == "long" else [0.0, 0.3, 0.7, 1.0, 1.0])
        script = []
        for it in range(niter):
            row = []
            for lv, n in enumerate(levels):
                for s in range(n):
                    cols = []
                    if rng.random() < prod / (1 + 0.7 * lv):
                        cols = [1 if rng.random() < acc else 0 for _ in range(rng.choice([12, 40, 120]) if big == "columns" else rng.choice([1, 1, 2, 3, 6]))]
                    row.append(cols)
            script.append(row)
        f = {"script": script, "improved": [1 if rng.random() < 0.5 else 0 for _ in range(niter + 3)],
             "endless": rng.random() < endless,
             "max_iterations": rng.choice([-1, -7]), "time_limit": rng.choice([-1, 0, -3.5]),
             "rmp_is_ip": rng.random() < 0.7, "y": [rng.choice(["a", "b", "c"][:rng.choice([2, 3])]) for _ in range(5)],
             "dur": {}, "stalls": [], "jumps": []}
        f["y"][0], f["y"][1] = "a", "b"
        scale = rng.choice([0.0, 0.01, 1.0, 1.0, 50.0])
        for k in ("mp", "lp", "upd", "gen", "add", "ip", "impr"):
            hi = scale * rng.choice([0, 0.1, 1, 3])
            f["dur"][k] = [0.0, hi] if rng.random() < 0.7 else [hi / 2, hi]
        if rng.random() < p_iter:
            f["max_iterations"] = rng.choice([1, 2, 3, niter, max(1, niter - 1), niter + 1, 30] if big != "long" else [-1, 100, 255, 257, niter, niter + 1])
        if rng.random() < p_time:
            f["time_limit"] = rng.choice([1, 5, 0.5, scale * 3 + 0.1, scale * 20 + 0.1, 1000])
            if rng.random() < 0.4:
                f["stalls"] = [[rng.choice(["lp", "upd", "gen", "add", "mp"]), rng.randrange(0, 12 if big != "long" else 300),
                                rng.choice([1.5, 10, 1000]) * (f["time_limit"])] for _ in range(rng.choice([1, 2]))]
        if f["endless"] and f["max_iterations"] < 0 and not (f["time_limit"] > 0 and scale > 0):
            f["max_iterations"] = rng.choice([5, 25, 60])
        if f["endless"] and f["time_limit"] > 0:
            f["dur"]["gen"] = [max(0.001, f["time_limit"] / 80), max(0.002, f["time_limit"] / 10)]
        if rng.random() < jumps:
            for _ in range(rng.choice([1, 1, 2, 5])):
                f["jumps"].append([round(rng.uniform(0, max(0.01, 4 * scale * niter)), 4) if rng.random() < 0.8 else 0.0,
                                   rng.choice([-1, 1]) * rng.choice([0.3, 5, 3600, 1e6, max(0.0, f["time_limit"]) * 2])])
            f["jumps"].sort()
            f["read_jumps"] = [[rng.randrange(1, 60), rng.choice([-1, 1]) * rng.choice([2, 3600, 86400])]
                               for _ in range(rng.choice([0, 1, 2]))]
        f["dup"] = rng.choice(["pairs", "again"]) if rng.random() < 0.2 else None
        f["exc"] = None
        if rng.random() < exc:
            f["exc"] = [rng.choice(["lp", "upd", "gen", "add", "ip", "mp"]), rng.randrange(0, 8 if big != "long" else 300),
                        rng.choice(["error", "memory", "interrupt"])]
        sc["fits"].append(f)
    return sc


def shrink(sc):
    import copy
    if sc.get("real"):
        from . import real
        yield from real.shrink(sc)
        return
    fits = sc["fits"]
    for i in range(len(fits)):
        if len(fits) > 1:
            c = copy.deepcopy(sc)
            del c["fits"][i]
            yield c
    for i, f in enumerate(fits):
        n = len(f["script"])
        k = n
        while k >= 1:
            for a in range(0, n, k):
                c = copy.deepcopy(sc)
                del c["fits"][i]["script"][a:a + k]
                yield c
            k //= 2
        for key, val in (("jumps", []), ("read_jumps", []), ("stalls", []), ("endless", False), ("max_iterations", -1),
                         ("time_limit", -1), ("exc", None), ("rmp_is_ip", False),
                         ("dur", {k: [0.0, 0.0] for k in f["dur"]})):
            if f.get(key) not in (val, None):
                c = copy.deepcopy(sc)
                c["fits"][i][key] = val
                yield c
        for it in range(n):
            for s in range(len(f["script"][it])):
                if f["script"][it][s]:
                    c = copy.deepcopy(sc)
                    c["fits"][i]["script"][it][s] = []
                    yield c
                    if len(f["script"][it][s]) > 1:
                        c = copy.deepcopy(sc)
                        c["fits"][i]["script"][it][s] = f["script"][it][s][:1]
                        yield c
    if sum(sc["levels"]) > 1:
        for lv in range(len(sc["levels"])):
            c = copy.deepcopy(sc)
            base = sum(sc["levels"][:lv])
            for f in c["fits"]:
                for row in f["script"]:
                    if len(row) > base:
                        del row[base]
            c["levels"][lv] -= 1
            if c["levels"][lv] == 0:
                del c["levels"][lv]
            if c["levels"]:
                yield c


class Hist:
    def __init__(self, fit, levels):
        self.fit, self.levels = fit, levels
        self.ev = []           # dicts
        self.t0 = self.t1 = None
        self.outcome = None


def run(sim, sc):
    """Executes the scenario; returns (clf, [Hist])."""
    if sc.get("real"):
        from . import real
        return real.run(sim, sc)
    seams.install()
    import col_gen_estimator._col_gen_classifier as cg
    cl = sim.client("main", sc["seed"])
    levels = sc["levels"]
    state = {"h": None, "f": None, "rmp": 0, "cnt": {}}
    flat = []
    for lv, n in enumerate(levels):
        for s in range(n):
            flat.append((lv, s))

    def spend(kind):
        f = state["f"]
        n = state["cnt"].get(kind, 0)
        state["cnt"][kind] = n + 1
        lo, hi = f["dur"].get(kind, (0, 0))
        d = core.lrng(sc["seed"], state["fi"], "dur", kind, n).uniform(lo, hi) if hi > 0 else 0.0
        for k, at, ex in f["stalls"]:
            if k == kind and at == n:
                d += ex
                cl.fired("stall:" + kind)
        sim.advance(d)
        e = f.get("exc")
        if e and e[0] == kind and e[1] == n:
            cl.fired("raise:" + kind + ":" + e[2])
            raise core.EXC[e[2]]("injected")

    def rec(kind, **kw):
        kw["k"] = kind
        state["h"].ev.append(kw)
        sim.step(cl, kind)
        sim.stub("stub:peer." + kind)
        return kw

    def fin(e):
        e["t1"] = sim.now
        sim.log(e["k"], e.get("sp"), e.get("col"), e.get("acc"), round(sim.now, 9))
        sim.state((e["k"], e.get("sp"), e.get("acc"), e.get("n")))

    class Master(cg.BaseMasterProblem):
        def __init__(self):
            pass

        def generate_mp(self, X, y):
            e = rec("mp", t0=sim.now)
            spend("mp")
            fin(e)

        def solve_rmp(self, solver_params=''):
            e = rec("lp", t0=sim.now)
            state["rmp"] += 1
            spend("lp")
            e["dual"] = ("duals", state["fi"], state["rmp"])
            fin(e)
            return e["dual"]

        def add_column(self, column):
            e = rec("add", t0=sim.now, col=column)
            spend("add")
            e["acc"] = bool(column[-1])
            fin(e)
            return e["acc"]

        def solve_ip(self, solver_params=''):
            e = rec("ip", t0=sim.now)
            spend("ip")
            fin(e)
            return True

        def rmp_objective_improved(self):
            f = state["f"]
            e = rec("impr", t0=sim.now)
            spend("impr")
            i = state["rmp"] - 1
            e["n"] = f["improved"][i % len(f["improved"])]
            fin(e)
            return bool(e["n"])

    class Sub(cg.BaseSubproblem):
        def __init__(self, lv, s):
            self.key = (lv, s)

        def update_subproblem(self, X, y, dual_costs):
            e = rec("upd", t0=sim.now, sp=self.key, dual=dual_costs)
            spend("upd")
            fin(e)

        def generate_columns(self, X, y, dual_costs, params):
            e = rec("gen", t0=sim.now, sp=self.key, dual=dual_costs, params=params)
            spend("gen")
            f = state["f"]
            it = state["rmp"] - 1
            idx = flat.index(self.key)
            if it < len(f["script"]) and idx < len(f["script"][it]):
                acc = f["script"][it][idx]
            else:
                acc = [1] if (f["endless"] and idx == it % len(flat)) else []
            # subproblems may return equal columns, in one offer or again later
            dup = f.get("dup")
            e["cols"] = [(state["fi"], 0 if dup == "again" else it, self.key, j // 2 if dup else j, a) for j, a in enumerate(acc)]
            fin(e)
            return list(e["cols"])

    subs = [[Sub(lv, s) for s in range(n)] for lv, n in enumerate(levels)]
    params = [[f"p{lv}.{s}" for s in range(n)] for lv, n in enumerate(levels)]
    master = Master()
    clf = cg.ColGenClassifier(master_problem=master, subproblems=subs, subproblem_params=params)
    hists = []
    X = np.arange(10).reshape(5, 2)
    for fi, f in enumerate(sc["fits"]):
        h = Hist(f, levels)
        state.update(h=h, f=f, rmp=0, cnt={}, fi=fi)
        clf.max_iterations = f["max_iterations"]
        clf.time_limit = f["time_limit"]
        clf.rmp_is_ip = f["rmp_is_ip"]
        sim.start = sim.now
        sim.time_faults = [tuple(j) for j in f["jumps"]]
        sim.jumps = {sim.reads + r: j for r, j in f.get("read_jumps", [])}
        h.t0 = sim.now
        with sim.as_client(cl):
            try:
                r = clf.fit(X, np.array(f["y"]))
                h.outcome = "ok"
                h.ret_self = r is clf
            except core.INJECTED as e:
                if not f["exc"]:
                    raise
                h.outcome = "exc"
        h.t1 = sim.now
        h.attrs = snapshot(clf) if h.outcome == "ok" else {}
        sim.log("fit", fi, h.outcome, round(sim.now, 9), sorted((k, repr(v)) for k, v in h.attrs.items()))
        hists.append(h)
        if len(h.ev) > 6:
            sim.probe("nontrivial")
        classify(sim, h)
    return clf, hists


ATTRS = ("mp_optimal_", "time_limit_reached_", "iter_", "performed_iter_", "num_improving_iter_", "num_col_added_sp_",
         "time_spent_sp_", "time_spent_master_", "time_add_col_", "time_spent_master_ip_", "time_elapsed_", "is_fitted_")


def snapshot(clf):
    import copy
    return {a: copy.deepcopy(getattr(clf, a)) for a in ATTRS if hasattr(clf, a)}


def classify(sim, h):
    if h.outcome != "ok":
        sim.probe("aborted_fit")
        return
    o = outcome(h)
    sim.probe("stop:" + o["reason"])


def iterations(h):
    """Splits the history into iterations (one per master LP solve)."""
    its = []
    for e in h.ev:
        if e["k"] == "lp":
            its.append({"lp": e, "ev": []})
        elif its:
            its[-1]["ev"].append(e)
    return its


def outcome(h):
    its = iterations(h)
    allsp = [(lv, s) for lv, n in enumerate(h.levels) for s in range(n)]
    if not its:
        return {"n": 0, "asked_all": False, "accepted": False, "reason": "none"}
    last = its[-1]["ev"]
    asked = [e["sp"] for e in last if e["k"] == "gen"]
    acc = any(e.get("acc") for e in last if e["k"] == "add")
    full = set(asked) >= set(allsp)
    mi = h.fit["max_iterations"]
    if full and not acc:
        reason = "optimal"
    elif acc and mi > 0 and len(its) >= mi:
        reason = "iterations"
    else:
        reason = "time"
    return {"n": len(its), "asked_all": full, "accepted": acc, "reason": reason}


# ------------------------------------------------------------------ oracles

def check_order(h):
    """C01."""
    allsp = [(lv, s) for lv, n in enumerate(h.levels) for s in range(n)]
    seen_lp = False
    for e in h.ev:
        if e["k"] == "lp":
            seen_lp = True
        elif not seen_lp and e["k"] in ("upd", "gen", "add"):
            raise Violation("C01:before_master", f"{e['k']} {e.get('sp')} before any master solve")
    its = iterations(h)
    for ii, it in enumerate(its):
        lastit = ii == len(its) - 1
        evs = [e for e in it["ev"] if e["k"] in ("upd", "gen", "add")]
        dual = it["lp"].get("dual")
        complete = not (lastit and h.outcome != "ok")
        ups = [e for e in evs if e["k"] == "upd"]
        names = [e["sp"] for e in ups]
        if len(set(names)) != len(names):
            raise Violation("C01:updated_twice", f"iteration {ii+1}: updates {names}")
        if complete and set(names) != set(allsp):
            raise Violation("C01:not_updated", f"iteration {ii+1}: updated {names} of {allsp}")
        for e in evs:
            if e["k"] in ("upd", "gen") and e["dual"] != dual:
                raise Violation("C01:stale_duals", f"iteration {ii+1}: {e['k']} {e['sp']} got {e['dual']}, master returned {dual}")
        asked, accepted_levels = [], set()
        pending = []
        cur = None
        gen_seen = False
        for e in evs:
            if e["k"] == "upd":
                if gen_seen:
                    raise Violation("C01:update_after_pricing", f"iteration {ii+1}: {e['sp']}")
                continue
            if e["k"] == "gen":
                if not gen_seen and set(names) != set(allsp):
                    raise Violation("C01:priced_before_update", f"iteration {ii+1}: {e['sp']} asked, updated {names}")
                gen_seen = True
                if pending:
                    raise Violation("C01:column_not_offered", f"iteration {ii+1}: {pending[:3]} never offered")
                lv = e["sp"][0]
                if e["sp"] in asked:
                    raise Violation("C01:asked_twice", f"iteration {ii+1}: {e['sp']}")
                if asked and lv < asked[-1][0]:
                    raise Violation("C01:level_order", f"iteration {ii+1}: {e['sp']} after {asked[-1]}")
                for l2 in range(lv):
                    for s in range(h.levels[l2]):
                        if (l2, s) not in asked:
                            raise Violation("C01:level_skipped", f"iteration {ii+1}: level {lv} asked, {(l2, s)} was not")
                    if l2 in accepted_levels:
                        raise Violation("C01:level_after_accept", f"iteration {ii+1}: level {lv} asked though level {l2} gave a column")
                asked.append(e["sp"])
                cur = e["sp"]
                pending = list(e.get("cols") or [])
            else:
                if not pending or tuple(e["col"]) != tuple(pending[0]):
                    raise Violation("C01:wrong_offer", f"iteration {ii+1}: offered {e['col']}, expected {pending[:1]}")
                pending.pop(0)
                if e.get("acc"):
                    accepted_levels.add(cur[0])
        if complete and pending:
            raise Violation("C01:column_not_offered", f"iteration {ii+1}: {pending[:3]} never offered")


def check_certificate(h):
    """C02."""
    if h.outcome != "ok":
        return
    o = outcome(h)
    a = h.attrs
    want = o["reason"] == "optimal"
    if bool(a.get("mp_optimal_")) != want or "mp_optimal_" not in a:
        raise Violation("C02:optimality_flag", f"mp_optimal_={a.get('mp_optimal_')} but the run ended: {o}")
    wt = o["reason"] == "time"
    if bool(a.get("time_limit_reached_")) != wt:
        raise Violation("C02:time_flag", f"time_limit_reached_={a.get('time_limit_reached_')} but the run ended: {o}, "
                        f"limit {h.fit['time_limit']} elapsed {h.t1 - h.t0:.4f}")


def check_time(h):
    """C03."""
    T = h.fit["time_limit"]
    if T > 0:
        late = 0
        for e in h.ev:
            el = e["t0"] - h.t0
            if e["k"] == "gen" and el > T + 1e-7:
                raise Violation("C03:priced_after_limit", f"{e['sp']} asked after {el:.6f} s, limit {T}")
            if e["k"] == "lp" and el > T + 1e-7:
                late += 1
        if late > 1:
            raise Violation("C03:master_after_limit", f"{late} master solves started after {T} s")
    if h.outcome != "ok":
        return
    a = h.attrs
    if not a.get("is_fitted_"):
        raise Violation("C03:not_fitted", "fit returned without a fitted estimator")
    if h.fit["rmp_is_ip"] and sum(e["k"] == "ip" for e in h.ev) != 1:
        raise Violation("C03:integer_master", f"integer master solved {sum(e['k']=='ip' for e in h.ev)} times")
    o = outcome(h)
    if o["reason"] == "time" and not (T > 0 and h.t1 - h.t0 > T):
        raise Violation("C03:stopped_early", f"run ended {o} after {h.t1-h.t0:.6f} s with limit {T}")
    if abs(a.get("time_elapsed_", -1) - (h.t1 - h.t0)) > 1e-6 * (1 + (h.t1 - h.t0)):
        raise Violation("C03:elapsed", f"time_elapsed_={a.get('time_elapsed_')} true {h.t1-h.t0}")


def check_iterations(h):
    """C04."""
    its = iterations(h)
    mi = h.fit["max_iterations"]
    if mi > 0 and len(its) > mi:
        raise Violation("C04:too_many", f"{len(its)} iterations, limit {mi}")
    for it in its[:-1]:
        if not any(e.get("acc") for e in it["ev"] if e["k"] == "add"):
            raise Violation("C04:continued", "iteration without an accepted column was followed by another")
    if h.outcome != "ok":
        return
    a = h.attrs
    o = outcome(h)
    if o["reason"] == "time" and not h.fit["time_limit"] > 0:
        raise Violation("C04:ended_early", f"loop ended: {o} with max_iterations {mi} and no time limit")
    for name in ("iter_", "performed_iter_"):
        if a.get(name) != len(its):
            raise Violation("C04:" + name, f"{name}={a.get(name)} after {len(its)} iterations")
    f = h.fit
    imp = sum(f["improved"][i % len(f["improved"])] for i in range(len(its)))
    if a.get("num_improving_iter_") != imp:
        raise Violation("C04:num_improving_iter_", f"{a.get('num_improving_iter_')} but the master reported {imp}")


def check_accounts(h):
    """C05."""
    if h.outcome != "ok":
        return
    a = h.attrs
    added = [[0] * n for n in h.levels]
    spent = [[0.0] * n for n in h.levels]
    tot = {"lp": 0.0, "add": 0.0, "ip": 0.0}
    cur = None
    for e in h.ev:
        d = e["t1"] - e["t0"]
        if e["k"] in ("upd", "gen"):
            spent[e["sp"][0]][e["sp"][1]] += d
            cur = e["sp"]
        if e["k"] == "add" and e["acc"]:
            added[cur[0]][cur[1]] += 1
        if e["k"] in tot:
            tot[e["k"]] += d
    got = [list(map(int, r)) for r in a.get("num_col_added_sp_", [])]
    if got != added:
        raise Violation("C05:num_col_added_sp_", f"{got} but accepted {added}")
    close = lambda x, y: x is not None and abs(x - y) <= 1e-6 * (1 + abs(y))
    ts = a.get("time_spent_sp_", [])
    if [len(r) for r in ts] != h.levels or not all(close(x, y) for r, q in zip(ts, spent) for x, y in zip(r, q)):
        raise Violation("C05:time_spent_sp_", f"{ts} true {spent}")
    for name, want in (("time_spent_master_", tot["lp"]), ("time_add_col_", tot["add"]),
                       ("time_spent_master_ip_", tot["ip"]), ("time_elapsed_", h.t1 - h.t0)):
        if not close(a.get(name), want):
            raise Violation("C05:" + name, f"{a.get(name)} true {want}")
