"""C17: failing solver calls, for both learners."""
import numpy as np
from sklearn.exceptions import NotFittedError

from . import core, seams, solvers, bdr, dtree
from .core import Violation

FAIL = ["infeasible", "unbounded", "abnormal", "not_solved", "error", "memory"]
CPFAIL = ["unknown", "infeasible", "invalid", "error", "memory"]
LPFAIL = FAIL + ["stopped"]
HARD = set(LPFAIL) | set(CPFAIL)


def gen(rng, i, tier):
    fam = rng.choice(["bdr", "dtree"])
    legal = rng.random() < 0.5
    if fam == "bdr":
        sc = bdr.gen(rng, {"lp": bdr.LP_KINDS, "sp": bdr.SP_KINDS, "ip": ["alt_opt", "suboptimal"]} if legal else {})
        sites = ["lp", "sp", "ip"]
    else:
        cuts = rng.random() < 0.4
        sc = dtree.gen(rng, {"lp": dtree.LP_KINDS, "sp": dtree.SP_KINDS, "cp": dtree.CP_KINDS, "cut": dtree.CP_KINDS,
                             "ip": ["alt_opt"]} if legal else {}, cuts=cuts, frac=0.5 if cuts else 0.05)
        if cuts and rng.random() < 0.5:
            sc["cuts"].update(gen=True, beta=False)
            sc["max_iterations"] = rng.choice([12, 25, -1]) if sc["sp"] != "none" else 25
        sites = ["lp", "lp", "ip"] + {"sat": ["cp"], "none": []}.get(sc["sp"], ["sp"]) + (["cut"] if sc["cuts"]["gen"] else [])
    sc["family"] = fam
    n = rng.choice([1, 1, 1, 2, 4])
    for _ in range(n):
        site = rng.choice(sites)
        kind = rng.choice(CPFAIL if site in ("cp", "cut") else LPFAIL if site == "lp" else FAIL)
        at = 0 if site == "ip" else rng.choice([0, 0, 1, 1, 2, 3, 5, 9, 10, 11, -1])
        sc["faults"] = [f for f in sc["faults"] if (f["site"], f["n"]) != (site, at)]
        sc["faults"].append({"site": site, "n": at, "kind": kind, "seed": rng.randrange(1 << 20)})
        if site != "ip" and rng.random() < 0.5:     # relative to the solves of the same training without failures
            sc["faults"][-1].update(n=-2, rel=rng.choice([0.0, rng.random(), rng.random(), 1.0, 1.0]), tail=rng.random() < 0.4)
    return sc


def resolve(sim, sc, mod, train):
    """Faults with their positions known: some are placed relative to what a run without failures does."""
    rel = [f for f in sc["faults"] if "rel" in f]
    if not rel:
        return sc["faults"]
    legal = [f for f in sc["faults"] if "rel" not in f and f["kind"] not in HARD]
    c = sim.client("dry", sc["seed"], faults=legal, rand_mode=sc.get("rand"), durations=dtree.DUR)
    with seams.separate(), sim.as_client(c):
        try:
            train()
        except Exception as e:
            sim.log("dry run raised", repr(e)[:100])
    out = [f for f in sc["faults"] if "rel" not in f]
    for f in rel:
        count = c.counters.get(f["site"], 0)
        at = min(int(f["rel"] * count), count - 1)
        if at < 0:
            continue
        for n in range(at, at + (300 if f["tail"] else 1)):
            out = [q for q in out if (q["site"], q["n"]) != (f["site"], n)]
            out.append(dict(f, n=n))
    return out


def shrink(sc):
    yield from (bdr.shrink(sc) if sc["family"] == "bdr" else dtree.shrink(sc))


def execute(sim, sc):
    seams.install()
    r = dtree.Run()
    r.sc, r.sim, r.exc = sc, sim, None
    fam = sc["family"]
    mod = bdr if fam == "bdr" else dtree

    def train():
        if fam == "bdr":
            bdr.make_clf(sc).fit(*bdr.data(sc))
        else:
            D = dtree.Desc(sc)
            dtree.make_clf(sc, D, D.build()).fit(D.X, D.ylab)
    r.c = c = sim.client("main", sc["seed"], faults=resolve(sim, sc, mod, train), rand_mode=sc.get("rand"), durations=dtree.DUR)
    if fam == "bdr":
        X, y = bdr.data(sc)
        r.X, r.y = X, y
        r.classes = np.unique(y)
        r.yb = (y == r.classes[1]).astype(int)
        with sim.as_client(c):
            r.clf = bdr.make_clf(sc)
    else:
        r.D = dtree.Desc(sc)
        X, y = r.D.X, r.D.ylab
        with sim.as_client(c):
            r.o = r.D.build()
            r.init = [(q.leaf_id, dtree.by_node(q), q.target, q.cost) for q in r.o.paths]
            r.clf = dtree.make_clf(sc, r.D, r.o)
    exc = None
    with sim.as_client(c):
        try:
            r.clf.fit(X, y)
        except Exception as e:
            exc = e
    hard = [k for k in sim.fired if k.split(":")[-1] in HARD]
    sim.log("outcome", type(exc).__name__, sorted(sim.fired.items()))
    sim.probe("fit_raised" if exc is not None else "fit_returned")
    if hard:
        sim.probe("nontrivial")
    if exc is not None:
        if not hard:
            raise exc
        if getattr(r.clf, "is_fitted_", False):
            raise Violation("C17:fitted_after_failure", f"fit raised {exc!r} but the estimator is marked as fitted")
        if not sc.get("custom") and sc.get("variant") != "custom":
            with sim.as_client(c):
                try:
                    out = r.clf.predict(X)
                except NotFittedError:
                    return
                except Exception as e:
                    raise Violation("C17:predict_error", f"after a failed fit predict raised {e!r}")
            raise Violation("C17:predict_after_failure", f"fit raised {exc!r}, predict answered {list(out)[:10]}")
        return
    bad_ip = [k for k in hard if k.startswith("ip:")]
    if bad_ip:
        raise Violation("C17:integer_failure_ignored", f"integer master failed ({bad_ip}) but fit returned a fitted estimator")
    r.ev = c.events
    lp = [e for e in c.events if e[0] == "solve" and e[1] == "lp"]
    if r.clf.mp_optimal_ and lp and lp[-1][3] != solvers.OPTIMAL:
        raise Violation("C17:false_certificate", f"the last master LP ended with status {lp[-1][3]}, mp_optimal_ is True")
    mod.digest_run(sim, r)
    sp = [e for e in c.events if e[0] == "solve" and e[1] == "sp"]
    if fam == "bdr" and r.clf.mp_optimal_ and sp and sp[-1][3] not in (solvers.OPTIMAL, solvers.FEASIBLE):
        raise Violation("C17:false_certificate", f"the last pricing solve ended with status {sp[-1][3]}, mp_optimal_ is True")
    if fam == "bdr":
        rule = r.clf.master_problem.explanation
        d = X.shape[1]
        comp = sum(len(q) + 1 for q in rule)
        if comp > sc["C"] or any(len(set(q)) != len(q) or not all(0 <= int(j) < d for j in q) for q in rule):
            raise Violation("C17:invalid_rule", f"rule {rule}, budget {sc['C']}, {d} features")
        cost = bdr.rule_cost(X, r.yb, rule, sc["p"])
        triv = sc["p"] * int(r.yb.sum())
        if r.ip_status == solvers.OPTIMAL and cost > triv + 1e-4 * (1 + triv):
            raise Violation("C17:worse_than_start", f"rule {rule} costs {cost}, predicting the negative class {triv}")
        if sc["variant"] != "custom":
            with sim.as_client(c):
                got = list(r.clf.predict(X))
            if got != list(r.classes[bdr.rule_predict(X, rule)]):
                raise Violation("C17:predict", f"rule {rule} predicts {got}")
        return
    D = r.D
    sel = dtree.selected(r.clf)
    for p in sel:
        dtree.check_path(D, p, "C17", "selected path", cost=False)
    tree, tg = dtree.tree_of(D, sel, "C17")
    acc = dtree.accuracy(D, tree, tg)
    init = [(leaf, by, t, int(D.counts(D.follow(leaf, by))[t])) for leaf, by, t, _ in r.init]
    base = dtree.best_tree(D, init)
    if r.ip_status == solvers.OPTIMAL and acc < base:
        raise Violation("C17:worse_than_start", f"fitted tree classifies {acc} rows correctly, initial paths give {base}")
    if not sc["custom"]:
        with sim.as_client(c):
            got = list(r.clf.predict(X))
        leaf = D.route(tree)
        if got != [D.labels[tg[int(q)]] for q in leaf]:
            raise Violation("C17:predict", "predict differs from the selected tree")
