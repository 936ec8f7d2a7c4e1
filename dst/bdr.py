"""Workloads and oracles for the boolean decision rule classifiers."""
import copy
import itertools

import numpy as np

from . import core, seams, solvers
from .core import Violation

LABELS = {"01": [0, 1], "pm": [-1, 1], "str": ["no", "yes"], "rev": ["z", "a"], "big": [7, 3], "float": [0.0, 2.0]}
LP_KINDS = ["alt_dual", "alt_dual", "alt_both", "mid_dual"]
SP_KINDS = ["alt_opt", "suboptimal"]


def near_misses(rng):
    """Data that only long clauses fit: the negatives each lack one feature that the positives share."""
    d = rng.randint(4, 8)
    base, y = [], []
    for _ in range(rng.choice([1, 1, 2])):
        c = rng.sample(range(d), rng.randint(3, min(d, 7)))
        for _ in range(rng.randint(1, 4)):
            base.append([1 if j in c or rng.random() < 0.5 else 0 for j in range(d)])
            y.append(1)
        for k in c:
            if rng.random() < 0.9:
                base.append([0 if j == k else 1 if j in c or rng.random() < 0.8 else 0 for j in range(d)])
                y.append(0)
    if 0 not in y:
        base.append([0] * d)
        y.append(0)
    order = list(range(len(y)))
    rng.shuffle(order)
    return [base[i] for i in order], [y[i] for i in order]


def gen_data(rng, nmax=14, dmax=6, large=0.04):
    big = rng.random() < 0.5
    d = rng.randint(4, dmax + 2) if big else rng.randint(2, dmax)
    n = rng.randint(12, nmax + 14) if big else rng.randint(4, nmax)
    if rng.random() < large:
        d, n = rng.choice([(rng.randint(7, 9), rng.randint(30, 80))] * 2 + [(rng.randint(3, 6), rng.randint(100, 300))])
    mode = rng.choice(["uniform", "sparse", "dense", "dense", "rule", "rule", "rule", "dups", "near"])
    if mode == "near":
        return near_misses(rng)
    q = {"sparse": 0.25, "dense": 0.75}.get(mode, 0.5)
    base = [[1 if rng.random() < q else 0 for _ in range(d)] for _ in range(n)]
    if mode == "dups":
        k = max(1, n // 3)
        base = [list(rng.choice(base[:k])) for _ in range(n)]
    if mode == "rule":
        cl = [rng.sample(range(d), rng.randint(1, min(3, d))) for _ in range(rng.randint(1, 4))]
        y = [1 if any(all(r[j] for j in c) for c in cl) else 0 for r in base]
        q = rng.choice([0, 0.05, 0.15])
        y = [1 - v if rng.random() < q else v for v in y]
    else:
        y = [1 if rng.random() < rng.choice([0.3, 0.5, 0.7]) else 0 for _ in range(n)]
    if len(set(y)) < 2:
        y[0], y[1] = 0, 1
    return base, y


def gen_faults(rng, site_kinds, nmax=12, rate=None, stall=0.05):
    out = []
    for site, kinds in site_kinds.items():
        r = rate if rate is not None else rng.choice([0.0, 0.2, 0.6, 1.0])
        for n in range(nmax):
            if kinds and rng.random() < r:
                f = {"site": site, "n": n, "kind": rng.choice(kinds), "seed": rng.randrange(1 << 20)}
                if f["kind"] == "noise":
                    f["eps"] = rng.choice([1e-12, 1e-10, 1e-9])
                out.append(f)
            elif rng.random() < stall:
                out.append({"site": site, "n": n, "kind": "stall", "extra": rng.choice([1.0, 100.0])})
    return out


def gen(rng, site_kinds, **kw):
    X, y = gen_data(rng, **kw)
    d = len(X[0])
    sc = {"X": X, "y": y, "labels": rng.choice(list(LABELS)), "dtype": rng.choice(["int", "float", "int8", "bool"]),
          "C": rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 10, 12, 15]), "p": rng.choice([1, 1, 1, 2, 2, 0.5, 3, 3, 0.3, 7, 10, 1.02, 0.51, 0.34, 1.005]),
          "variant": rng.choice(["plain", "plain", "heur", "custom"]), "K": rng.choice([1, 2, 3] if d > 7 else [1, 2, 3, 3, 4, 5]),
          "max_iterations": rng.choice([-1, -1, -1, 1, 2, 3, 50]),
          "rmp_solver": rng.choice(["glop", "glop", "glop", "clp"]), "sp_solver": rng.choice(["cbc", "scip", "sat"]),
          "seed": rng.randrange(1 << 30), "faults": gen_faults(rng, site_kinds)}
    sc["K"] = min(sc["K"], sc["C"])
    return sc


def shrink(sc):
    n, d = len(sc["X"]), len(sc["X"][0])

    def ok(c):
        return len(set(c["y"])) == 2
    k = n // 2
    while k >= 1:
        for a in range(0, n, k):
            c = copy.deepcopy(sc)
            del c["X"][a:a + k], c["y"][a:a + k]
            if len(c["X"]) and ok(c):
                yield c
        k //= 2
    for j in range(d):
        if d > 1:
            c = copy.deepcopy(sc)
            c["X"] = [r[:j] + r[j + 1:] for r in c["X"]]
            yield c
    for key, val in (("labels", "01"), ("dtype", "int"), ("variant", "plain"), ("p", 1), ("rmp_solver", "glop"),
                     ("sp_solver", "cbc"), ("max_iterations", -1), ("C", sc["C"] - 1)):
        if key in sc and sc[key] != val and (key != "C" or val > 0):
            c = copy.deepcopy(sc)
            c[key] = val
            c["K"] = min(c["K"], c["C"])
            yield c


class Run:
    pass


def make_clf(sc):
    pkg = seams.install()
    import col_gen_estimator._bdr_classifier as b
    import col_gen_estimator._col_gen_classifier as cg
    kw = dict(max_iterations=sc["max_iterations"], C=sc["C"], p=sc["p"], rmp_solver=sc.get("rmp_solver", "glop"),
              subproblem_solver=sc.get("sp_solver", "cbc"))
    if sc["variant"] == "plain":
        return b.BooleanDecisionRuleClassifier(**kw)
    if sc["variant"] == "heur":
        return b.BooleanDecisionRuleClassifierWithHeuristic(**kw)
    return cg.ColGenClassifier(
        max_iterations=sc["max_iterations"], master_problem=b.BDRMasterProblem(sc["C"], sc["p"], kw["rmp_solver"]),
        subproblems=[[b.BDRHeuristic(K=sc["K"])], [b.BDRSubProblem(sc["C"], kw["subproblem_solver"])]],
        rmp_is_ip=True, subproblem_params=[[""], [""]])


def labels_of(sc, y=None):
    lab = LABELS[sc["labels"]]
    return np.array([lab[v] for v in (sc["y"] if y is None else y)])


def data(sc):
    return np.array(sc["X"], dtype=sc.get("dtype", "int")), labels_of(sc)


def run(sim, sc, client="main", seed=None):
    r = Run()
    r.sc = sc
    X, y = data(sc)
    r.X, r.y = X, y
    r.classes = np.unique(y)
    r.yb = (y == r.classes[1]).astype(int)
    c = r.c = sim.client(client, sc["seed"] if seed is None else seed, faults=sc["faults"],
                         durations={"lp": (0.01, 0.1), "sp": (0.01, 0.5), "ip": (0.01, 0.5)})
    with sim.as_client(c):
        r.clf = make_clf(sc)
        r.clf.fit(X, y)
    digest_run(sim, r)
    return r


def digest_run(sim, r):
    ev = r.c.events
    r.solves = [e for e in ev if e[0] == "solve"]
    r.calls = [e for e in ev if e[0] == "call"]
    lp = [e for e in r.solves if e[1] == "lp"]
    ip = [e for e in r.solves if e[1] == "ip"]
    r.lp_obj = lp[-1][4] if lp else None
    r.ip_obj = ip[-1][4] if ip else None
    r.ip_status = ip[-1][3] if ip else None
    r.added = [list(map(int, e[3][0])) for e in r.calls if e[1] == "add_column" and e[4]]
    ex = getattr(r.clf.master_problem, "explanation", None)
    sim.log("fit", repr(ex), getattr(r.clf, "iter_", None), getattr(r.clf, "mp_optimal_", None), len(r.added))
    if len(r.added) >= 1:
        sim.probe("nontrivial")
    sim.probe("iters", getattr(r.clf, "iter_", 0))


def rounds(r):
    """[(kind 'exact'/'heur', dual_costs, result, solver status or None, columns in the master before)]"""
    out = []
    known = [frozenset()]
    st = None
    for e in r.c.events:
        if e[0] == "solve" and e[1] == "sp":
            st = e[3]
        if e[0] == "call" and e[1] == "add_column" and e[4]:
            known.append(frozenset(map(int, e[3][0])))
        if e[0] == "call" and e[1] == "generate_columns" and e[5] is None:
            kind = "heur" if "Heuristic" in type(e[2]).__name__ else "exact"
            a = e[3]
            out.append((kind, a[0], a[1], a[2], e[4], st if kind == "exact" else None, list(known), e[2]))
            st = None
    return out


def satisfied(X, clause):
    if not len(clause):
        return np.ones(len(X), bool)
    return np.all(np.asarray(X)[:, list(clause)] != 0, axis=1)


def reduced_cost(X, yb, duals, clause):
    cc, cs = float(duals[0]), np.asarray(duals[1], float)
    s = satisfied(X, clause)
    return cc * (1 + len(clause)) - float(cs @ s[yb == 1]) + float(s[yb == 0].sum())


def clauses(d, maxlen):
    for k in range(0, min(d, maxlen) + 1):
        yield from itertools.combinations(range(d), k)


def rule_predict(X, rule):
    out = np.zeros(len(X), int)
    for c in rule:
        out |= satisfied(X, c).astype(int)
    return out


def rule_cost(X, yb, rule, p):
    """Hamming training cost of a rule: p per uncovered positive, one per negative and satisfied clause."""
    cov = rule_predict(X, rule)
    return p * int(((yb == 1) & (cov == 0)).sum()) + sum(int(satisfied(X[yb == 0], c).sum()) for c in rule)


def master_opt(X, yb, p, C, cols, integer):
    """Optimum of the master over the given clauses."""
    P = int(yb.sum())
    k = len(cols)
    c = np.concatenate([np.full(P, float(p)), [float(satisfied(X[yb == 0], cl).sum()) for cl in cols]])
    A = np.zeros((P + 1, P + k))
    A[:P, :P] = np.eye(P)
    for j, cl in enumerate(cols):
        A[:P, P + j] = satisfied(X[yb == 1], cl)
        A[P, P + j] = len(cl) + 1
    lo = np.concatenate([np.ones(P), [-np.inf]])
    up = np.concatenate([np.full(P, np.inf), [C]])
    res = solvers.oracle(c, A, lo, up, np.zeros(P + k), np.full(P + k, np.inf), np.full(P + k, 1 if integer else 0))
    if res.status != 0:
        raise core.HarnessError(f"oracle: {res.message}")
    return float(res.fun)


# ------------------------------------------------------------------ oracles

def check_rule(r, sim):
    """C09"""
    sc = r.sc
    rule = r.clf.master_problem.explanation
    d = r.X.shape[1]
    comp = sum(len(c) + 1 for c in rule)
    if comp > sc["C"]:
        raise Violation("C09:budget", f"rule {rule} has complexity {comp} > {sc['C']}")
    for c in rule:
        if len(set(c)) != len(c) or not all(0 <= int(j) < d for j in c):
            raise Violation("C09:clause", f"clause {c} with {d} features")
    if sc["variant"] != "custom":
        rows = np.array(list(itertools.product([0, 1], repeat=d)))
        want = rule_predict(rows, rule)
        with sim.as_client(r.c):
            for arr in (rows, rows.astype(float), r.X):
                got = r.clf.predict(arr)
                w = r.classes[rule_predict(np.asarray(arr), rule)]
                if list(got) != list(w):
                    raise Violation("C09:predict", f"rule {rule}: predict {list(got)} but rule means {list(w)}")
            lr = core.lrng(sc["seed"], "alone")
            for i in {lr.randrange(len(rows)) for _ in range(3)}:         # the same row without the others
                got = list(r.clf.predict(rows[i:i + 1]))
                if got != [r.classes[want[i]]]:
                    raise Violation("C09:predict", f"rule {rule}: row {list(rows[i])} alone is predicted {got}")
    cost = rule_cost(r.X, r.yb, rule, sc["p"])
    if r.ip_obj is None:
        raise Violation("C09:no_integer_solve", "no integer master solve was seen")
    if cost > r.ip_obj + 1e-5 * (1 + abs(cost)):
        raise Violation("C09:cost", f"rule {rule} costs {cost}, integer objective {r.ip_obj}")


def check_pricing(r, sim):
    """C10"""
    sc = r.sc
    d = r.X.shape[1]
    for kind, X, y, duals, res, st, known, sp in rounds(r):
        size = sc["C"] if kind == "exact" else (sc["K"] if sc["variant"] == "custom" else 1)
        batch = []
        for cl in res:
            cl = list(map(int, cl))
            if len(set(cl)) != len(cl) or not all(0 <= j < d for j in cl):
                raise Violation("C10:features", f"clause {cl} with {d} features")
            if len(cl) > size:
                raise Violation("C10:size", f"clause {cl} longer than {size}")
            rc = reduced_cost(r.X, r.yb, duals, cl)
            if not rc < 0:
                raise Violation("C10:reduced_cost", f"{kind} returned {cl} with reduced cost {rc} under {duals}")
            if frozenset(cl) in known or frozenset(cl) in batch:
                raise Violation("C10:not_new", f"{kind} returned {cl} again")
            batch.append(frozenset(cl))
            sim.probe("priced:" + kind)
        if kind != "exact":
            for cl in clauses(d, size):
                rc = reduced_cost(r.X, r.yb, duals, cl)
                if len(cl) and rc < -1e-5 and frozenset(cl) not in known and frozenset(cl) not in batch:
                    raise Violation("C10:missed", f"{kind} did not return {cl} with reduced cost {rc} under {duals}")
            sim.probe("enumeration_complete")
        if not res and kind == "exact" and st in (solvers.OPTIMAL, solvers.INFEASIBLE):     # some clause always exists
            best = min(clauses(d, size), key=lambda c: reduced_cost(r.X, r.yb, duals, c))
            rc = reduced_cost(r.X, r.yb, duals, best)
            sim.probe("exact_empty")
            if rc < -1e-5:
                raise Violation("C10:missed", f"exact pricing returned nothing but {best} has reduced cost {rc} under {duals}")
        elif not res and kind == "exact":
            sim.probe("exact_empty_suboptimal")


def check_optimum(r, sim):
    """C11"""
    sc = r.sc
    d = r.X.shape[1]
    adm = list(clauses(d, sc["C"]))
    cols = sorted(set([()] + [tuple(sorted(c)) for c in r.added]))
    if r.clf.mp_optimal_:
        z = master_opt(r.X, r.yb, sc["p"], sc["C"], adm, False)
        sim.probe("optimal_runs")
        if abs(z - r.lp_obj) > 2e-5 * (1 + abs(z)):
            raise Violation("C11:lp_optimum", f"master LP {r.lp_obj}, optimum over all clauses {z}")
    elif sc["max_iterations"] < 0:
        raise Violation("C11:not_optimal", "run without limits ended without reporting optimality")
    ip = master_opt(r.X, r.yb, sc["p"], sc["C"], cols, True)
    cost = rule_cost(r.X, r.yb, r.clf.master_problem.explanation, sc["p"])
    tol = 2e-5 * (1 + abs(ip))
    if abs(r.ip_obj - ip) > tol:
        raise Violation("C11:integer_optimum", f"integer master {r.ip_obj}, cheapest rule over generated clauses {ip}")
    if cost > ip + tol:
        raise Violation("C11:rule_cost", f"rule {r.clf.master_problem.explanation} costs {cost}, cheapest {ip}")
    if cost > sc["p"] * int(r.yb.sum()) + tol:
        raise Violation("C11:worse_than_trivial", f"rule costs {cost}")
    if r.clf.iter_ > len(adm) + 2:
        raise Violation("C11:iterations", f"{r.clf.iter_} iterations, {len(adm)} clauses")
