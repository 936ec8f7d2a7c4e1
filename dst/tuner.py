"""Solver tuning (C18): the real solve_model and parameter tuner against scripted CP-SAT outcomes."""
import contextlib
import copy
import io
import re

from ortools.sat.python import cp_model

from . import core, seams, solvers, dtree, threads
from .core import Violation

LINE = re.compile(r"^Value (\S+) count (\d+) Qscore (\S+) Final score (\S+)$")


def stats(par):
    """What the tuner says about its values: {value: (uses, mean score)}."""
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        par.print_stats()
    out = {}
    for line in f.getvalue().splitlines():
        m = LINE.match(line.strip())
        if m:
            out[m.group(1)] = (int(m.group(2)), float(m.group(3)))
    if not out:
        raise core.HarnessError("print_stats: " + f.getvalue())
    return out


def rnd_outcome(rng, limit):
    st = rng.choice(["optimal", "optimal", "feasible", "feasible", "unknown", "infeasible", "invalid"])
    o = {"status": st, "wall": rng.choice([0.0, 1e-4, rng.uniform(0, limit), limit])}
    if st == "feasible":
        o["wall"] = limit * rng.choice([1.0, 1.0, 1.02])
    if st in ("optimal", "feasible"):
        a = rng.choice([0, 1, -1, 7, -3.5, 1e-3, 1e6, rng.uniform(-5, 5)])
        b = a if st == "optimal" else rng.choice([0, 1, -2, 8, -3.25, 2e-3, 1.5e6, a * 1.01, rng.uniform(-6, 6)])
        if st == "feasible" and a == b:
            b = a + rng.choice([1.0, 0.25])
        o["obj"], o["bound"] = a, b
    return o


def gen(rng, i, tier):
    mode = rng.choice(["noise", "converge", "converge", "converge", "tree"])
    if mode == "tree":
        sc = dtree.gen(rng, {"lp": dtree.LP_KINDS, "cp": dtree.CP_KINDS + ["unknown", "infeasible"]}, cuts=False)
        sc.update(mode="tree", sp="sat", custom=rng.random() < 0.5, max_iterations=rng.choice([3, 12, 25]), time_limit=-1)
        if not sc["custom"]:
            sc["heur"] = True
        return sc
    nsub = rng.choice([1, 2, 3])
    subs = []
    for k in range(nsub):
        n = rng.choice([5, 30, 60]) if mode == "noise" else rng.choice([70, 90, 140])
        base = limit = rng.choice([2, 30, 1, 0.5, 10])
        vary = rng.random() < 0.4
        steps = []
        if mode == "converge":
            prm = rng.choice(solvers.TUNED)
            # the favoured value, by position among the registered ones
            pos = rng.randrange(3)
            kind = rng.choice(["time", "gap", "status"])
            for q in range(n):
                j = rng.uniform(0, 0.03)
                if vary and rng.random() < 0.4:
                    limit = base * rng.choice([1, 0.5, 3, 20])
                if kind == "time":
                    good, bad = {"status": "optimal", "wall": limit * (0.02 + j)}, {"status": "optimal", "wall": limit * (0.9 + j)}
                elif kind == "gap":
                    a = rng.choice([1.0, -4.0, 100.0])
                    good = {"status": "feasible", "wall": limit, "obj": a, "bound": a * (1 + j + 0.01)}
                    bad = {"status": "feasible", "wall": limit, "obj": a, "bound": a * (8 + j)}
                else:
                    good = {"status": "optimal", "wall": limit * j}
                    bad = {"status": rng.choice(["unknown", "infeasible"]), "wall": limit * rng.uniform(0, 1)}
                for o in (good, bad):
                    if o["status"] == "optimal":
                        o["obj"] = o["bound"] = rng.choice([0.0, 3.0, -2.0])
                steps.append({"by": prm, "pos": pos, "good": good, "bad": bad, "limit": limit})
            subs.append({ "steps": steps, "favour": [prm, pos]})
        else:
            for q in range(n):
                if vary and rng.random() < 0.4:
                    limit = base * rng.choice([1, 0.5, 3, 20])
                o = rnd_outcome(rng, limit)
                if rng.random() < rng.choice([0, 0, 0.1]):
                    o = {"status": rng.choice(["error", "interrupt", "memory"]), "wall": 0.5}
                steps.append(dict(o, limit=limit))
            subs.append({"steps": steps})
    order = [k for k, s in enumerate(subs) for _ in s["steps"]]
    how = rng.choice(["shuffle", "roundrobin", "blocks"])
    if how == "shuffle":
        rng.shuffle(order)
    elif how == "roundrobin":
        order.sort(key=lambda k: 0)
        cnt, order = [len(s["steps"]) for s in subs], []
        while any(cnt):
            for k in range(nsub):
                if cnt[k]:
                    cnt[k] -= 1
                    order.append(k)
    sc = {"mode": mode, "subs": subs, "order": order, "late": rng.random() < 0.3, "seed": rng.randrange(1 << 30), "faults": []}
    if nsub > 1 and rng.random() < 0.35:          # solved by concurrent callers
        sc["coop"] = {"start": rng.choice([1, 1, 500, 5000]), "gap": rng.choice([1, 3, 7, 20, 61, 250]),
                      "n": rng.choice([1, 10, 100, 600])}
    return sc


def shrink(sc):
    if sc["mode"] == "tree":
        yield from dtree.shrink(sc)
        return
    for k in range(len(sc["subs"])):
        if len(sc["subs"]) > 1:
            c = copy.deepcopy(sc)
            del c["subs"][k]
            c["order"] = [j - (j > k) for j in c["order"] if j != k]
            yield c
    if sc.get("coop"):
        for n in (0, 1, sc["coop"]["n"] // 2):
            if n < sc["coop"]["n"]:
                c = copy.deepcopy(sc)
                c["coop"]["n"] = n
                yield c
    if sc["mode"] == "noise":
        for k, s in enumerate(sc["subs"]):
            n = len(s["steps"]) // 2
            while n >= 1:
                c = copy.deepcopy(sc)
                c["subs"][k]["steps"] = s["steps"][:-n]
                yield c
                n //= 2


def execute(sim, sc):
    seams.install()
    if sc["mode"] == "tree":
        return execute_tree(sim, sc)
    together = script(sim, sc, "t", sc["order"], sc.get("coop"))
    sim.probe("nontrivial")
    if len(sc["subs"]) > 1:
        sim.probe("isolation_compared")
        for k in range(len(sc["subs"])):
            alone = script(sim, sc, f"a{k}", [k] * len(sc["subs"][k]["steps"]))
            if alone[k] != together[k]:
                d = next((q for q, (a, b) in enumerate(zip(alone[k], together[k])) if a != b), "length")
                raise Violation("C18:isolation", f"subproblem {k}: solve {d} with {together[k][d] if d != 'length' else ''} among "
                                f"{len(sc['subs'])} subproblems, {alone[k][d] if d != 'length' else ''} alone")


def script(sim, sc, tag, order, coop=None):
    """Runs the solves in this order; returns for each subproblem the history of values used."""
    import col_gen_estimator._col_gen_classifier as cg
    regs = {k: list(stats(p)) for k, p in cg.BaseSubproblem.get_tunable_params().items()}
    for prm in solvers.TUNED:
        if prm not in regs:
            raise core.HarnessError(f"{prm} is not tuned")
    model = cp_model.CpModel()
    model.NewBoolVar("x")
    subs, clients, hist, done, prev = {}, {}, {}, {}, {}

    def snapshot(sub):
        if sim.scheduler is not None:
            sim.scheduler.hold = True
        try:
            return {p: stats(sub.tunable_params_[p]) for p in sub.tunable_params_}
        finally:
            if sim.scheduler is not None:
                sim.scheduler.hold = False

    def new(k):
        s = sc["subs"][k]
        fs = []
        for q, o in enumerate(s["steps"]):
            if "by" in o:
                vals = regs[o["by"]]
                o = {"by": o["by"], "value": vals[o["pos"] % len(vals)], "good": o["good"], "bad": o["bad"]}
            fs.append({"site": "cp", "n": q, "kind": "script", "script": o})
        clients[k] = sim.client(f"{tag}{k}", sc["seed"] + k, faults=fs)
        with sim.as_client(clients[k]):
            subs[k] = cg.BaseSubproblem()
        hist[k], done[k] = [], 0
        prev[k] = snapshot(subs[k])
    if not sc["late"]:
        for k in sorted(set(order)):
            new(k)
    scored = {}

    def solve(k):
        if k not in subs:
            new(k)
        if done[k] >= len(sc["subs"][k]["steps"]):
            return
        q = done[k]
        sub, c, limit = subs[k], clients[k], sc["subs"][k]["steps"][q]["limit"]
        done[k] += 1
        n0 = len(c.events)
        nt, ng = len(sub.solve_times_), len(sub.gaps_)
        exc = None
        cb = object() if q % 3 == 0 else None
        with sim.as_client(c):
            try:
                sub.solve_model(model, time_limit=limit, callback=cb)
            except core.INJECTED as e:
                exc = e
        calls = [e for e in c.events[n0:] if e[0] == "cpscript"]
        what = f"subproblem {k}, solve {q}"
        if len(calls) != 1:
            raise Violation("C18:solves", f"{what}: {len(calls)} solves were started")
        _, _, out, params, mod, cbk = calls[0]
        if mod is not model or cbk is not cb:
            raise Violation("C18:model", f"{what}: another model or callback reached the solver")
        if abs(params.max_time_in_seconds - limit) > 1e-9:
            raise Violation("C18:limit", f"{what}: time limit {params.max_time_in_seconds}, requested {limit}")
        used = {}
        for p in sub.tunable_params_:
            v = str(getattr(params, p))
            if v not in regs[p]:
                raise Violation("C18:value", f"{what}: {p} is {v}, registered {regs[p]}")
            used[p] = v
        hist[k].append(sorted(used.items()))
        sim.log(tag, k, q, sorted(used.items()), out)
        sim.state((k, q, tuple(sorted(used.items()))))
        now = snapshot(sub)
        if exc is not None:
            if len(sub.solve_times_) != nt or len(sub.gaps_) != ng or now != prev[k]:
                raise Violation("C18:failed_solve", f"{what}: raised, but left a record: {prev[k]} -> {now}")
            return
        if len(sub.solve_times_) != nt + 1 or len(sub.gaps_) != ng + 1:
            raise Violation("C18:recorded_once", f"{what}: {len(sub.solve_times_) - nt} times and {len(sub.gaps_) - ng} gaps recorded")
        if abs(sub.solve_times_[-1] - out["wall"]) > 1e-9:
            raise Violation("C18:time", f"{what}: recorded {sub.solve_times_[-1]}, took {out['wall']}")
        g = sub.gaps_[-1]
        if not 0 <= g <= 1:
            raise Violation("C18:gap", f"{what}: gap {g} for {out}")
        if out["status"] == "optimal":
            want = 0.0
        elif out["status"] == "feasible":
            a, b = out["obj"], out["bound"]
            want = abs(a - b) / max(abs(a), abs(b)) if a * b >= 0 else None
        else:
            want = 1.0
        if want is not None and abs(g - want) > 1e-6:
            raise Violation("C18:gap", f"{what}: gap {g} for {out}, expected {want}")
        gained = {}
        for p in now:
            for v, (cnt, mean) in now[p].items():
                pc, pm = prev[k][p][v]
                if v == used[p]:
                    if cnt != pc + 1:
                        raise Violation("C18:credit", f"{what}: {p}={v} was used, its count went from {pc} to {cnt}")
                    gained[p] = cnt * mean - pc * pm
                elif (cnt, mean) != (pc, pm):
                    raise Violation("C18:credit", f"{what}: {p}={v} was not used, its record went from {(pc, pm)} to {(cnt, mean)}")
        lo, hi = min(gained.values()), max(gained.values())
        if hi - lo > 1e-6 * (1 + done[k]):
            raise Violation("C18:credit", f"{what}: one solve was credited differently: {gained}")
        rank(scored.setdefault(k, []), out, lo, limit, what)
        prev[k] = now

    if coop:
        ks = sorted(set(order))
        for k in ks:
            if k not in subs:
                new(k)
        r = core.lrng(sc["seed"], "coop")
        co = threads.Coop(sim, {"line": [[coop["start"] + q * coop["gap"], r.randrange(len(ks))] for q in range(coop["n"])]})

        def caller(k):
            def f():
                for _ in range(order.count(k)):
                    solve(k)
            return f
        for st, v in co.run([caller(k) for k in ks], [f"s{k}" for k in ks]):
            if st == "exc":
                raise v
        sim.log("switches", co.taken)
        if co.taken:
            sim.fired["switch"] = sim.fired.get("switch", 0) + len(co.taken)
            sim.probe("interleaved")
    else:
        for k in order:
            solve(k)
    for k in subs:
        s = sc["subs"][k]
        real = [h for h, o in zip(hist[k], s["steps"]) if o.get("status") not in core.EXC]
        for p, vals in regs.items():
            seq = [dict(h)[p] for h in real]
            if len(seq) >= 40:
                few = {v: seq[:40].count(v) for v in vals if seq[:40].count(v) < 4}
                if few:
                    raise Violation("C18:tried", f"subproblem {k}: after 40 solves {p} values were tried only {few}")
        if "favour" in s and done[k] >= 70:
            p, pos = s["favour"]
            best = regs[p][pos % len(regs[p])]
            seq = [dict(h)[p] for h in hist[k]]
            late = [(q, v) for q, v in enumerate(seq) if q >= 60 and v != best]
            sim.probe("convergence_judged")
            if late:
                raise Violation("C18:converge", f"subproblem {k}: {p}={best} is clearly better, but solve {late[0][0]} uses "
                                f"{late[0][1]} ({len(late)} such solves)")
    return hist


def rank(seen, out, score, limit, what):
    """A better outcome is never credited with a lower score."""
    def better(a, b):
        if a["status"] == "optimal" and b["status"] == "optimal":
            return a["wall"] < b["wall"] - 1e-6 * limit
        if a["status"] == "optimal":
            return a["wall"] <= limit
        return False
    for o, s, lim in seen[-20:]:
        if lim != limit:
            continue
        if better(o, out) and s < score - 1e-6 or better(out, o) and score < s - 1e-6:
            raise Violation("C18:score", f"{what}: {out} is credited {score}, but {o} {s}")
    seen.append((out, score, limit))


def execute_tree(sim, sc):
    import col_gen_estimator._col_gen_classifier as cg
    regs = {k: list(stats(p)) for k, p in cg.BaseSubproblem.get_tunable_params().items()}
    r = dtree.run(sim, sc)
    per, own = [], {}
    for e in r.c.events:
        if e[0] == "cpsolve" and e[1] == "cp":
            per.append(e)
        elif e[0] == "call" and e[1] == "generate_columns":
            own.setdefault(id(e[2]), (e[2], []))[1].extend(per)
            per = []
    for sub, solves in own.values():
        if not hasattr(sub, "tunable_params_") or not solves:
            continue
        what = f"subproblem of leaf {getattr(getattr(sub, 'leaf_', None), 'id', '?')}"
        times = [e[6] for e in solves]
        if [round(t, 9) for t in sub.solve_times_] != [round(t, 9) for t in times]:
            raise Violation("C18:recorded_once", f"{what}: times {sub.solve_times_}, solves took {times}")
        if len(sub.gaps_) != len(solves) or not all(0 <= g <= 1 for g in sub.gaps_):
            raise Violation("C18:gap", f"{what}: gaps {sub.gaps_} for {len(solves)} solves")
        for p, par in sub.tunable_params_.items():
            used = [str(e[7].get(p)) for e in solves]
            bad = [v for v in used if v not in regs[p]]
            if bad:
                raise Violation("C18:value", f"{what}: {p} was {bad[0]}, registered {regs[p]}")
            st = stats(par)
            cnt = {v: used.count(v) for v in regs[p]}
            if {v: a for v, (a, _) in st.items()} != cnt:
                raise Violation("C18:credit", f"{what}: {p} used {cnt}, credited {st}")
        sim.probe("tree_solves", len(solves))
