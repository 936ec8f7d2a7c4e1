"""Life of estimators: refits, aborted fits, clones, parameter changes (C06, C07) and shared descriptions (C08)."""
import copy

import numpy as np
from sklearn.base import clone
from sklearn.exceptions import NotFittedError

from . import core, seams, solvers, bdr, dtree, threads
from .core import Violation, HarnessError

BDR_SITES = {"lp": bdr.LP_KINDS, "sp": bdr.SP_KINDS, "ip": ["alt_opt"]}
TREE_SITES = {"lp": dtree.LP_KINDS, "sp": dtree.SP_KINDS, "cp": dtree.CP_KINDS, "cut": dtree.CP_KINDS, "ip": ["alt_opt"]}
BDR_KEYS = ("max_iterations", "C", "p", "rmp_solver", "sp_solver")
TREE_KEYS = ("max_iterations", "time_limit", "rmp_solver")


# ------------------------------------------------------------------ data sets ("worlds")

def gen_world(rng, fam):
    if fam == "bdr":
        X, y = bdr.gen_data(rng, nmax=8, dmax=4, large=0)
        X, y = X[:14], y[:14]
        if len(set(y)) < 2:
            y[0], y[1] = 0, 1
        return {"X": X, "y": y, "labels": rng.choice(list(bdr.LABELS)), "dtype": rng.choice(["int", "float"])}
    w = dtree.gen_problem(rng, depths=(1, 2, 2, 2, 3), nmax=rng.choice([12, 12, 12, 24]), cmax=3, large=0.02)
    if rng.random() < 0.12:        # the first master LP is fractional, so cuts are generated right away
        w = dtree.fractional(rng)
        pool = [op[1:] for op in dtree.flooded(rng, w) if op[0] == "add"]
        rng.shuffle(pool)
        del w["cuts"]
        for q in pool[:60]:
            if all(q[:3] != o[:3] for o in w["init"]):
                w["init"].append(q)
        w["cutty"] = True
    elif rng.random() < 0.2:
        for op in dtree.frustrate(rng, w):
            if all(op[1:4] != q[:3] for q in w["init"]):
                w["init"].append(op[1:])
    if rng.random() < 0.6:        # other data sets may know these classes, and more or fewer of them
        w["pick"] = sorted(rng.sample(range(6), max(w["y"]) + 1))
        w["labels"] = rng.choice(["int", "int", w["labels"]])
    return w


def gen_worlds(rng, fam, n):
    """Some of them look alike: same shape, same counts, other data."""
    out = [gen_world(rng, fam)]
    while len(out) < n:
        if rng.random() < 0.5:
            out.append(gen_world(rng, fam))
            continue
        w = copy.deepcopy(out[-1])
        what = rng.choice(["labels", "rows", "values"])
        if what == "labels":
            rng.shuffle(w["y"])
        elif what == "rows":
            rng.shuffle(w["X"])
        else:
            for j in range(len(w["X"][0])):
                col = [r[j] for r in w["X"]]
                rng.shuffle(col)
                for r, v in zip(w["X"], col):
                    r[j] = v
        out.append(w)
    return out


def gen_params(rng, fam):
    if fam == "bdr":
        return {"heur": rng.random() < 0.4, "max_iterations": rng.choice([-1, -1, 1, 2, 50]),
                "C": rng.choice([1, 3, 4, 6, 8, 12]), "p": rng.choice([1, 1, 2, 3, 0.5]),
                "rmp_solver": rng.choice(["glop", "glop", "clp"]), "sp_solver": rng.choice(["cbc", "scip", "sat"])}
    beta = rng.random() < 0.5
    return {"max_iterations": rng.choice([1, 2, 3, 12, 12, 25]), "time_limit": rng.choice([-1, -1, -1, 2, 10]),
            "cuts": {"beta": beta, "gen": rng.random() < 0.5, "rounds": rng.choice([0, 1, 3, 10])},
            "old": rng.random() < 0.3, "rmp_solver": rng.choice(["glop", "glop", "clp"])}


def gen_fit_faults(rng, fam):
    sites = BDR_SITES if fam == "bdr" else TREE_SITES
    mod = bdr if fam == "bdr" else dtree
    return mod.gen_faults(rng, sites, nmax=8)


class World:
    """A data set with, for trees, its description objects."""

    def __init__(self, fam, w):
        self.fam, self.w = fam, w
        if fam == "bdr":
            self.X = np.array(w["X"], dtype=w["dtype"])
            lab = bdr.LABELS[w["labels"]]
            self.y = np.array([lab[v] for v in w["y"]])
            self.probe = self.X
            if self.X.shape[1] <= 6:
                self.probe = np.array([[(b >> j) & 1 for j in range(self.X.shape[1])] for b in range(1 << self.X.shape[1])])
        else:
            self.D = dtree.Desc(w)
            self.X, self.y = self.D.X, self.D.ylab
            rr = core.lrng("probe", len(self.X))
            vals = sorted({v for r in w["X"] for v in r})
            vals += [vals[0] - 1, vals[-1] + 1]
            extra = [[rr.choice(vals) for _ in w["X"][0]] for _ in range(12)]
            self.probe = np.vstack([self.X, np.array(extra, dtype=self.X.dtype)])
        self.o = self.D.build() if fam == "dtree" else None

    def fresh(self):
        return World(self.fam, self.w)

    def describe(self):
        """What training must not change."""
        if self.o is None:
            return [self.X.tolist(), self.y.tolist()]
        o = self.o
        return [self.X.tolist(), self.y.tolist(),
                [(p.leaf_id, list(map(int, p.node_ids)), list(map(int, p.splits)), p.target, float(p.cost)) for p in o.paths],
                [(n.id, list(n.candidate_splits)) for n in o.nodes],
                [(s.id, s.feature, s.threshold, sorted(s.left_rows), sorted(s.right_rows)) for s in o.splits],
                [(q.id, list(q.left_nodes), list(q.right_nodes)) for q in o.leaves],
                [(q.weight, q.target, bool(q.removed_from_sp), bool(q.removed_from_master), sorted(q.left_splits),
                  sorted(q.right_splits), sorted(q.reachable_nodes), sorted(q.reachable_leaves))
                 for q in o.data_rows] if o.data_rows is not None else None]


def ctor_args(fam, p, wo):
    if fam == "bdr":
        return dict(max_iterations=p["max_iterations"], C=p["C"], p=p["p"], rmp_solver=p["rmp_solver"],
                    subproblem_solver=p["sp_solver"])
    o = wo.o
    paths = o.paths
    if p.get("order"):                   # a list of its own over the shared path objects
        paths = list(o.paths)
        core.lrng("paths", p["order"]).shuffle(paths)
    return dict(initial_paths=paths, leaves=o.leaves, nodes=o.nodes, splits=o.splits, tree_depth=wo.D.depth,
                targets=o.targets, max_iterations=p["max_iterations"], time_limit=p["time_limit"],
                num_master_cuts_round=p["cuts"]["rounds"], master_beta_constraints_as_cuts=p["cuts"]["beta"],
                master_generate_cuts=p["cuts"]["gen"], data_rows=o.data_rows, use_old_sp=p["old"],
                master_solver_type=p["rmp_solver"])


DESCRIPTION = ("initial_paths", "leaves", "nodes", "splits", "tree_depth", "targets", "data_rows")


def make(fam, p, wo):
    import col_gen_estimator._bdr_classifier as b
    import col_gen_estimator._dtree_classifier as t
    cls = t.DTreeClassifier if fam == "dtree" else (
        b.BooleanDecisionRuleClassifierWithHeuristic if p["heur"] else b.BooleanDecisionRuleClassifier)
    return cls(**ctor_args(fam, p, wo))


def model(clf, fam):
    """What a completed fit produced, apart from predictions."""
    m = clf.master_problem
    base = [clf.iter_, clf.performed_iter_, bool(clf.mp_optimal_), bool(clf.time_limit_reached_),
            [list(v) for v in clf.num_col_added_sp_], clf.num_improving_iter_]
    if fam == "bdr":
        return base + [[sorted(map(int, c)) for c in m.explanation]]
    cols = [(p.leaf_id, sorted(dtree.by_node(p).items()), int(p.target), float(p.cost)) for p in m.paths_]
    sel = sorted((p.leaf_id, sorted(dtree.by_node(p).items()), int(p.target)) for p in m.selected_paths)
    return base + [cols, sel]


def columns_of(client, fam):
    """Columns as the history of messages shows them."""
    out = []
    for e in client.events:
        if e[0] == "call" and e[1] == "add_column" and e[4]:
            a = e[3][0]
            out.append(sorted(map(int, a)) if fam == "bdr" else
                       (a.leaf_id, sorted(dtree.by_node(a).items()), int(a.target), float(a.cost)))
    return out


def predict(sim, clf, X, name):
    with sim.as_client(sim.client(name, 5)):
        return list(clf.predict(X))


def fit(sim, clf, wo, spec, name, counter=None, data=None):
    """One fit under a client of its own; the client's decisions depend only on spec."""
    c = sim.client(name, spec["seed"], faults=spec["faults"], rand_mode=spec.get("rand"), durations=dtree.DUR)
    X, y = data or (wo.X, wo.y)
    with sim.as_client(c):
        if counter is None:
            clf.fit(X, y)
        else:
            with counter:
                clf.fit(X, y)
    return c


def handed_over(wo, how, buffers):
    """The same values in another form: a list, another memory layout, or the caller's own arrays, overwritten in place."""
    X, y = wo.X, wo.y
    if how == "list" and X.dtype.kind in "if" and X.dtype.itemsize == 8:
        return X.tolist(), y.tolist()
    if how == "fortran":
        return np.asfortranarray(X), y.copy()
    if how == "view":
        return np.repeat(np.repeat(X, 2, axis=0), 2, axis=1)[::2, ::2], np.repeat(y, 2)[::2]
    if how == "buffer":
        key = (X.shape, X.dtype.str, y.dtype.str)
        if key not in buffers:
            buffers[key] = (X.copy(), y.copy())
        bx, by = buffers[key]
        bx[...] = X
        by[...] = y
        return bx, by
    return None


class Undecided(Exception):
    pass


def decided(f):
    def g(sim, sc):
        try:
            f(sim, sc)
        except Undecided:
            pass
    return g


class Ref:
    """A freshly constructed estimator with its own description, fitted once."""

    def __init__(self, sim, fam, p, wo, spec, name, count=False):
        with seams.separate():           # in a new process nothing is left of earlier fits
            self._train(sim, fam, p, wo.fresh(), spec, name, count)

    def _train(self, sim, fam, p, w, spec, name, count):
        with sim.as_client(sim.client(name + "/new", 3)):
            clf = make(fam, p, w)
        self.lines = threads.LineCounter() if count else None
        self.exc = None
        try:
            c = fit(sim, clf, w, spec, name, self.lines)
        except Exception as e:
            # a legal behaviour must not make training fail; that is another property's business
            sim.log("reference failed", repr(e)[:200])
            sim.probe("reference_failed")
            raise Undecided() from e
        self.model = model(clf, fam)
        self.cols = columns_of(c, fam)
        self.pred = predict(sim, clf, w.probe, name + "/p")
        sim.log("ref", name, self.model, self.pred, self.cols)
        if self.cols:
            sim.probe("nontrivial")


def compare(who, what, ref, clf, fam, c, pred):
    got = model(clf, fam)
    if got != ref.model:
        raise Violation(f"{who}:model", f"{what}: model {got}, a fresh estimator has {ref.model}")
    cols = columns_of(c, fam)
    if cols != ref.cols:
        raise Violation(f"{who}:columns", f"{what}: columns {cols}, a fresh estimator {ref.cols}")
    if pred != ref.pred:
        raise Violation(f"{who}:predict", f"{what}: predicts {pred}, a fresh estimator {ref.pred}")


# ------------------------------------------------------------------ C06

EXCS = ["error", "memory", "interrupt", "interrupt"]


def gen_abort(rng, fam):
    kind = rng.choice(["line", "func", "func", "late", "call"])
    a = {"kind": kind, "exc": rng.choice(EXCS), "f": rng.random(), "g": rng.random()}
    if kind == "late":
        a["back"] = rng.choice([1, 1, 2, 3, 5, 10, 30])
    if kind == "call":
        a["site"] = rng.choice(["lp", "sp", "ip"] if fam == "bdr" else ["lp", "cp", "ip", "cut", "sp"])
        a["n"] = rng.choice([0, 0, 0, 1, 2, 4])
    return a


INVALID = ["nan", "inf", "one_class", "short", "empty", "flat"]


def refused_fit(sim, clf, wo, kind, name):
    """A fit with data that can't be trained on; True if it was refused."""
    X, y = wo.X, wo.y
    if kind in ("nan", "inf"):
        X = X.astype(float)
        X[-1, -1] = float(kind)
    elif kind == "one_class":
        y = np.array([y[0]] * len(y))
    elif kind == "short":
        y = y[:-1]
    elif kind == "empty":
        X, y = X[:0], y[:0]
    else:
        X = X[:, 0]
    with sim.as_client(sim.client(name, 7)):
        try:
            clf.fit(X, y)
        except Exception as e:
            sim.log("refused", kind, type(e).__name__)
            sim.fired["invalid_data"] = sim.fired.get("invalid_data", 0) + 1
            return True
    return False


def gen_abort_history(rng, i, tier):
    fam = rng.choice(["bdr", "dtree"])
    worlds = gen_worlds(rng, fam, rng.choice([1, 2, 2]))
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.5:
            ops.append(gen_fit_op(rng, fam, len(worlds)))
        if rng.random() < 0.15:
            ops.append({"op": "abort_predict", "abort": gen_abort(rng, fam)})
        if rng.random() < 0.2:
            ops.append({"op": "invalid", "w": rng.randrange(len(worlds)), "kind": rng.choice(INVALID)})
        op = gen_fit_op(rng, fam, len(worlds))
        op["abort"] = gen_abort(rng, fam)
        ops.append(op)
    ops.append(gen_fit_op(rng, fam, len(worlds)))
    return {"family": fam, "worlds": worlds, "params": gen_params(rng, fam), "ops": ops, "faults": []}


def gen_fit_op(rng, fam, nw):
    op = {"op": "fit", "w": rng.randrange(nw), "seed": rng.randrange(1 << 30), "faults": gen_fit_faults(rng, fam)}
    if rng.random() < 0.1:
        op["rand"] = {"kind": "stuck", "period": rng.choice([1, 7, 60])}
    return op


def counter_for(a, ref):
    """The line at which a fit is aborted, relative to what the same fit executes on a fresh estimator."""
    exc = core.EXC[a["exc"]]
    if a["kind"] == "func":
        fs = sorted(ref.per)
        f = fs[int(a["g"] * len(fs))]
        return threads.LineCounter(at=1 + int(a["f"] * ref.per[f]), exc=exc, func=f)
    n = max(1, ref.n)
    at = 1 + int(a["f"] * n) if a["kind"] == "line" else max(1, n + 1 - a["back"])
    return threads.LineCounter(at=at, exc=exc)


def use_world(sim, clf, fam, wo):
    if fam == "dtree":
        kw = ctor_args(fam, {"max_iterations": 1, "time_limit": 1, "cuts": {"rounds": 1, "beta": 0, "gen": 0}, "old": 0,
                             "rmp_solver": "glop"}, wo)
        clf.set_params(**{k: kw[k] for k in DESCRIPTION})


@decided
def execute_abort(sim, sc):
    seams.install()
    fam = sc["family"]
    worlds = [World(fam, w) for w in sc["worlds"]]
    p = sc["params"]
    with sim.as_client(sim.client("new", 3)):
        clf = make(fam, p, worlds[0])
    last = None          # (world, Ref) of the last completed fit
    cur = 0
    refusing = False
    for k, op in enumerate(sc["ops"]):
        what = f"operation {k}"
        if op["op"] == "abort_predict":
            if last is None or refusing:
                continue
            lc = threads.LineCounter()
            with sim.as_client(sim.client(f"ap{k}", 3)):
                with lc:
                    clf.predict(last[0].probe)
                a = counter_for(dict(op["abort"], kind="line"), lc)
                try:
                    with a:
                        clf.predict(last[0].probe)
                except core.INJECTED:
                    sim.fired["abort_predict"] = sim.fired.get("abort_predict", 0) + 1
            got = predict(sim, clf, last[0].probe, f"ap{k}c")
            if got != last[1].pred:
                raise Violation("C06:aborted_predict", f"{what}: predicts {got} after an aborted predict, before {last[1].pred}")
            continue
        wo = worlds[op["w"]]
        if op["w"] != cur:
            use_world(sim, clf, fam, wo)
            cur = op["w"]
        if op["op"] == "invalid":
            if not refused_fit(sim, clf, wo, op["kind"], f"inv{k}"):
                raise Undecided()
            wx = last[0] if last else wo
            try:
                got = predict(sim, clf, wx.probe, f"v{k}")
            except NotFittedError:
                refusing = True
                continue
            except Exception as e:
                raise Violation("C06:predict_error", f"{what}: fit refused the data ({op['kind']}), then predict raised {e!r}")
            if last is None or got != last[1].pred:
                raise Violation("C06:wrong_model", f"{what}: fit refused the data ({op['kind']}); predict answers {got}, the last "
                                f"completed fit {last[1].pred if last else None}")
            continue
        ref = Ref(sim, fam, p, wo, op, f"ref{k}", count=bool(op.get("abort")))
        spec = op
        ab = op.get("abort")
        lc = None
        if ab:
            if ab["kind"] == "call":
                spec = dict(op, faults=[f for f in op["faults"] if (f["site"], f["n"]) != (ab["site"], ab["n"])] +
                            [{"site": ab["site"], "n": ab["n"], "kind": ab["exc"], "seed": 0}])
            else:
                lc = counter_for(ab, ref.lines)
        exc = None
        c = None
        old_fired = dict(sim.fired)
        try:
            c = fit(sim, clf, wo, spec, f"fit{k}", lc)
        except core.INJECTED as e:
            exc = e
            kind = f"abort:{ab['kind']}:{ab['exc']}"
            sim.fired[kind] = sim.fired.get(kind, 0) + 1
            sim.state(("abort", lc.where if lc else (ab["site"], ab["n"])))
            sim.probe("aborts")
        except Exception as e:
            if not ab:
                raise Violation("C06:refit_raised", f"{what}: fit raised {e!r} after {sc['ops'][:k]}")
            exc = e          # the library may turn an injected failure into its own exception
            sim.probe("aborts_converted")
        sim.log("fit", k, type(exc).__name__, lc.where if lc else None)
        if exc is None:
            if ab and (lc is None or lc.where is not None):
                # swallowed by the library (or not reached): what it built is judged by C17; nothing to compare here
                if lc is not None:
                    raise Violation("C06:swallowed", f"{what}: {ab} at {lc.where} was swallowed by fit")
                if any(f.startswith(ab["site"] + ":" + ab["exc"]) and v > old_fired.get(f, 0) for f, v in sim.fired.items()):
                    raise Violation("C06:swallowed", f"{what}: a failing {ab['site']} call was swallowed by fit")
            pred = predict(sim, clf, wo.probe, f"p{k}")
            compare("C06", f"{what} (completed after {[o.get('abort') for o in sc['ops'][:k]]})", ref, clf, fam, c, pred)
            last = (wo, ref)
            refusing = False
            continue
        # aborted: refuse, or the last completed fit, or (when all was done) the new one
        ans = []
        for wx, rx, tag in ([(last[0], last[1], "old")] if last else []) + [(wo, ref, "new")]:
            try:
                got = predict(sim, clf, wx.probe, f"q{k}{tag}")
                ans.append((tag, got, rx))
            except NotFittedError:
                ans.append((tag, None, rx))
            except (ValueError, IndexError) as e:
                # e.g. another number of features than the model has
                if last is not None and last[0].probe.shape[1] != wo.probe.shape[1] and (tag == "new" or len(ans) == 0):
                    ans.append((tag, "shape", rx))
                else:
                    raise Violation("C06:predict_error", f"{what}: aborted at {lc.where if lc else ab}: predict raised {e!r}")
            except Exception as e:
                raise Violation("C06:predict_error", f"{what}: aborted at {lc.where if lc else ab}: predict raised {e!r}")
        if all(a[1] is None for a in ans):
            sim.probe("refused")
            refusing = True
            continue
        if last is not None and ans[0][1] == last[1].pred:
            same_world = last[0] is wo
            if not same_world or ans[-1][1] == last[1].pred:
                sim.probe("kept_old")
                continue
        if ans[-1][1] == ref.pred:
            sim.probe("kept_new")
            last = (wo, ref)
            continue
        raise Violation("C06:wrong_model", f"{what}: aborted with {exc!r} at {lc.where if lc else ab}; predict answers "
                        f"{[(a[0], a[1]) for a in ans]}; last completed fit: {last[1].pred if last else None}, "
                        f"this fit would give {ref.pred}")


def shrink_abort(sc):
    for i in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            c = copy.deepcopy(sc)
            del c["ops"][i]
            yield c
    for i, op in enumerate(sc["ops"]):
        if op.get("faults"):
            c = copy.deepcopy(sc)
            c["ops"][i]["faults"] = []
            yield c
    yield from shrink_worlds(sc)


def shrink_worlds(sc):
    fam = sc["family"]
    for i, w in enumerate(sc["worlds"]):
        full = dict(w, cuts={}, rmp_solver="glop", mip_solver="cbc", max_iterations=1, time_limit=-1, C=1, K=1,
                    variant="plain", sp_solver="cbc", p=1)
        n = 0
        for cand in (bdr if fam == "bdr" else dtree).shrink(full):
            c = copy.deepcopy(sc)
            c["worlds"][i] = {k: cand[k] for k in w}
            if c["worlds"][i] != w:
                n += 1
                yield c
            if n > 60:
                break


# ------------------------------------------------------------------ C07

def gen_history(rng, i, tier):
    fam = rng.choice(["bdr", "dtree"])
    worlds = gen_worlds(rng, fam, rng.choice([1, 1, 2, 2]))
    ops = []
    nslots = 1
    how = rng.choice(["", "", "buffer"])
    for _ in range(rng.choice([2, 3, 4, 6])):
        s = rng.randrange(nslots)
        r = rng.random()
        if r < 0.55:
            op = gen_fit_op(rng, fam, len(worlds))
            op["slot"] = s
            op["data"] = rng.choice([how, how, "", "list", "fortran", "view"])
            ops.append(op)
        elif r < 0.75:
            q = gen_params(rng, fam)
            q.pop("heur", None)
            keys = rng.sample(sorted(q), rng.choice([1, 1, 2]))
            ops.append({"op": "set", "slot": s, "params": {k: q[k] for k in keys}})
        elif r < 0.83:
            ops.append({"op": "predict", "slot": s})
        elif r < 0.87:
            ops.append({"op": "get", "slot": s})
        elif r < 0.9:
            ops.append({"op": "invalid", "slot": s, "w": rng.randrange(len(worlds)), "kind": rng.choice(INVALID)})
        elif nslots < 3:
            ops.append({"op": rng.choice(["clone", "clone", "new"]), "slot": s})
            nslots += 1
    op = gen_fit_op(rng, fam, len(worlds))
    op["slot"] = rng.randrange(nslots)
    op["data"] = how
    ops.append(op)
    return {"family": fam, "worlds": worlds, "params": gen_params(rng, fam), "ops": ops, "faults": []}


def set_kw(fam, q):
    kw = {}
    for k, v in q.items():
        if k == "sp_solver":
            kw["subproblem_solver"] = v
        elif k == "old":
            kw["use_old_sp"] = v
        elif k == "cuts":
            kw.update(num_master_cuts_round=v["rounds"], master_beta_constraints_as_cuts=v["beta"],
                      master_generate_cuts=v["gen"])
        elif k == "rmp_solver" and fam == "dtree":
            kw["master_solver_type"] = v
        else:
            kw[k] = v
    return kw


class Slot:
    refused = False


@decided
def execute_history(sim, sc):
    seams.install()
    fam = sc["family"]
    worlds = [World(fam, w) for w in sc["worlds"]]
    before = [w.describe() for w in worlds]
    slots, buffers = [], {}

    def new(p, wi):
        s = Slot()
        s.p, s.w, s.fitted = copy.deepcopy(p), wi, None
        with sim.as_client(sim.client(f"new{len(slots)}", 3)):
            s.clf = make(fam, s.p, worlds[wi])
        slots.append(s)
    new(sc["params"], 0)

    def check_all(k, op):
        for j, s in enumerate(slots):
            what = f"estimator {j} after operation {k} ({op['op']} on {op.get('slot')})"
            if s.refused:
                continue
            if s.fitted is None:
                try:
                    got = predict(sim, s.clf, worlds[s.w].probe, f"n{k}.{j}")
                except NotFittedError:
                    continue
                raise Violation("C07:unfitted_predicts", f"{what}: never fitted, predict answers {got}")
            wo, ref, cl = s.fitted
            got = predict(sim, s.clf, wo.probe, f"c{k}.{j}")
            if got != ref.pred:
                raise Violation("C07:model_changed", f"{what}: predicts {got}, its last fit {ref.pred}")
            one = wo.probe[:1].copy()          # one row at a time, in an array the caller overwrites
            for i in sorted({0, len(wo.probe) // 2, len(wo.probe) - 1, (7 * k + j) % len(wo.probe)}):
                one[0] = wo.probe[i]
                got = predict(sim, s.clf, one, f"c{k}.{j}.{i}")
                if got != [ref.pred[i]]:
                    raise Violation("C07:predict_depends", f"{what}: row {list(one[0])} alone is predicted {got}, among others "
                                    f"{ref.pred[i]}")
            if model(s.clf, fam) != ref.model:
                raise Violation("C07:model_changed", f"{what}: model {model(s.clf, fam)}, its last fit {ref.model}")

    for k, op in enumerate(sc["ops"]):
        if op["slot"] >= len(slots):
            continue
        s = slots[op["slot"]]
        what = f"operation {k}"
        sim.log("op", k, op["op"])
        if op["op"] == "fit":
            wo = worlds[op["w"]]
            if op["w"] != s.w:
                use_world(sim, s.clf, fam, wo)
                s.w = op["w"]
            ref = Ref(sim, fam, s.p, wo, op, f"ref{k}")
            try:
                c = fit(sim, s.clf, wo, op, f"fit{k}", data=handed_over(wo, op.get("data"), buffers))
            except Exception as e:
                raise Violation("C07:fit_raised", f"{what}: fit raised {e!r}; a fresh estimator trains")
            pred = predict(sim, s.clf, wo.probe, f"p{k}")
            hist = [o["op"] for o in sc["ops"][:k]]
            compare("C07", f"{what} after {hist}", ref, s.clf, fam, c, pred)
            if s.fitted:
                sim.probe("refits")
            s.fitted, s.refused = (wo, ref, c), False
        elif op["op"] == "set":
            s.clf.set_params(**set_kw(fam, op["params"]))
            s.p.update(copy.deepcopy(op["params"]))
            sim.probe("set_params")
        elif op["op"] == "invalid":
            if op["w"] != s.w:
                use_world(sim, s.clf, fam, worlds[op["w"]])
                s.w = op["w"]
            if not refused_fit(sim, s.clf, worlds[op["w"]], op["kind"], f"inv{k}"):
                raise Undecided()
            s.fitted = None          # what it predicts now is C06's business
            s.refused = True
        elif op["op"] == "get":
            check_params(k, s, fam, s.clf.get_params(deep=False), worlds)
            s.clf.get_params()
        elif op["op"] == "clone":
            with sim.as_client(sim.client(f"clone{k}", 3)):
                try:
                    cl = clone(s.clf)
                except Exception as e:
                    raise Violation("C07:clone", f"{what}: clone raised {e!r}")
            n = Slot()
            n.p, n.w, n.fitted, n.clf = copy.deepcopy(s.p), s.w, None, cl
            slots.append(n)
            sim.probe("clones")
        elif op["op"] == "new":
            new(s.p, s.w)
        check_all(k, op)
    after = [w.describe() for w in worlds]
    if after != before:
        raise Violation("C07:description", f"description before {before} after {after}")


def check_params(k, s, fam, got, worlds):
    want = ctor_args(fam, s.p, worlds[s.w])
    for key, v in want.items():
        g = got[key]
        if key in DESCRIPTION:
            continue
        if g != v:
            raise Violation("C07:get_params", f"operation {k}: get_params()[{key!r}] is {g!r}, it was set to {v!r}")


def shrink_history(sc):
    yield from shrink_abort(sc)
    for i, op in enumerate(sc["ops"]):
        if op.get("data"):
            c = copy.deepcopy(sc)
            c["ops"][i]["data"] = ""
            yield c


# ------------------------------------------------------------------ C08

def gen_shared(rng, i, tier):
    fam = rng.choice(["bdr", "dtree", "dtree", "dtree"])
    n = rng.choice([2, 2, 3])
    est = [{"params": gen_params(rng, fam), "fits": [dict(gen_fit_op(rng, fam, 1)) for _ in range(rng.choice([1, 1, 2]))]}
           for _ in range(n)]
    if rng.random() < 0.4:
        for e in est[1:]:
            e["params"] = copy.deepcopy(est[0]["params"])
    for e in est:
        if fam == "dtree" and rng.random() < 0.3:
            e["params"]["order"] = rng.randrange(1, 1 << 20)
    sched = {"mode": rng.choice(["sequential", "coop", "coop"])}
    if sched["mode"] == "coop":          # the callers share one clock, so a limit would depend on the others
        for e in est:
            if "time_limit" in e["params"]:
                e["params"]["time_limit"] = -1
    if sched["mode"] == "sequential":
        order = [j for j, e in enumerate(est) for _ in e["fits"]]
        rng.shuffle(order)
        sched["order"] = order
    else:
        seam, line = [], []
        m = rng.choice([0, 1, 3, 10, 40])
        for _ in range(m):
            seam.append([rng.randint(1, 400), rng.randrange(n)])
        m = rng.choice([0, 0, 1, 3, 10, 60])
        for _ in range(m):
            line.append([rng.random(), rng.randrange(n)])
        if rng.random() < 0.3:          # a dense burst
            a, g = rng.random(), rng.choice([1, 3, 10])
            sched["burst"] = [a, g, rng.choice([10, 50])]
        if rng.random() < 0.3:
            g = rng.choice([1, 2, 3, 7])
            seam += [[q * g, q % n] for q in range(1, 60)]
        sched["seam"], sched["line"] = sorted(seam), sorted(line)
    return {"family": fam, "worlds": [gen_world(rng, fam)], "est": est, "sched": sched,
            "inside": rng.random() < 0.5, "faults": []}


@decided
def execute_shared(sim, sc):
    seams.install()
    fam = sc["family"]
    wo = World(fam, sc["worlds"][0])
    before = wo.describe()
    n = len(sc["est"])
    # alone
    refs, lines = [], 0
    need = sc["sched"].get("line") or sc["sched"].get("burst")
    for j, e in enumerate(sc["est"]):
        rr = []
        for q, f in enumerate(e["fits"]):
            ref = Ref(sim, fam, e["params"], wo, f, f"alone{j}.{q}", count=bool(need))
            if need:
                lines += ref.lines.n
            rr.append(ref)
        refs.append(rr)
    clfs, cls_, preds = [None] * n, {}, {}

    def build(j):
        clfs[j] = make(fam, sc["est"][j]["params"], wo)

    def one(j, q):
        cls_[(j, q)] = fit(sim, clfs[j], wo, sc["est"][j]["fits"][q], f"fit{j}.{q}")
        preds[(j, q)] = (predict(sim, clfs[j], wo.probe, f"p{j}.{q}"), model(clfs[j], fam))

    s = sc["sched"]
    if s["mode"] == "sequential":
        if not sc["inside"]:
            for j in range(n):
                with sim.as_client(sim.client(f"new{j}", 3)):
                    build(j)
        done = [0] * n
        for j in s["order"]:
            if j >= n or done[j] >= len(sc["est"][j]["fits"]):
                continue
            if clfs[j] is None:
                with sim.as_client(sim.client(f"new{j}", 3)):
                    build(j)
            one(j, done[j])
            done[j] += 1
        sim.probe("sequential")
    else:
        if not sc["inside"]:
            for j in range(n):
                with sim.as_client(sim.client(f"new{j}", 3)):
                    build(j)
        ls = [[1 + int(a * lines), t] for a, t in s.get("line", [])]
        if s.get("burst"):
            a, g, m = s["burst"]
            ls += [[1 + int(a * lines) + q * g, q % n] for q in range(m)]
        co = threads.Coop(sim, {"seam": s.get("seam", []), "line": ls})

        def body(j):
            def f():
                if sc["inside"]:
                    with sim.as_client(sim.client(f"new{j}", 3)):
                        build(j)
                for q in range(len(sc["est"][j]["fits"])):
                    one(j, q)
            return f
        res = co.run([body(j) for j in range(n)], [f"e{j}" for j in range(n)])
        sim.log("switches", co.taken)
        if co.taken:
            sim.fired["switch"] = sim.fired.get("switch", 0) + len(co.taken)
            sim.probe("interleaved")
        for j, (st, v) in enumerate(res):
            if st == "exc":
                if isinstance(v, (HarnessError, core.StepLimit)):
                    raise v
                raise Violation("C08:fit_raised", f"estimator {j} raised {v!r} when trained together with others")
    for j in range(n):
        for q, ref in enumerate(refs[j]):
            if (j, q) not in preds:
                continue
            what = f"estimator {j}, fit {q}"
            pred, mod = preds[(j, q)]
            if mod != ref.model:
                raise Violation("C08:model", f"{what}: model {mod}, trained alone {ref.model}")
            if columns_of(cls_[(j, q)], fam) != ref.cols:
                raise Violation("C08:columns", f"{what}: columns {columns_of(cls_[(j, q)], fam)}, trained alone {ref.cols}")
            if pred != ref.pred:
                raise Violation("C08:predict", f"{what}: predicts {pred}, trained alone {ref.pred}")
        q = len(refs[j]) - 1
        if (j, q) in preds:
            got = predict(sim, clfs[j], wo.probe, f"end{j}")
            if got != refs[j][q].pred:
                raise Violation("C08:later", f"estimator {j} predicts {got} after the others trained, before {refs[j][q].pred}")
            if model(clfs[j], fam) != refs[j][q].model:
                raise Violation("C08:later", f"estimator {j}: model {model(clfs[j], fam)}, before {refs[j][q].model}")
    after = wo.describe()
    if after != before:
        names = ["X", "y", "initial paths", "nodes", "splits", "leaves", "rows"]
        d = [(names[i], a, b) for i, (a, b) in enumerate(zip(before, after)) if a != b]
        raise Violation("C08:description", f"training changed the description: {d}")


def shrink_shared(sc):
    for key in ("seam", "line"):
        v = sc["sched"].get(key)
        if v:
            k = len(v)
            while k >= 1:
                for a in range(0, len(v), k):
                    c = copy.deepcopy(sc)
                    del c["sched"][key][a:a + k]
                    yield c
                k //= 2
    if sc["sched"].get("burst"):
        c = copy.deepcopy(sc)
        del c["sched"]["burst"]
        yield c
    if len(sc["est"]) > 2:
        for j in range(len(sc["est"])):
            c = copy.deepcopy(sc)
            del c["est"][j]
            yield c
    for j, e in enumerate(sc["est"]):
        if len(e["fits"]) > 1:
            c = copy.deepcopy(sc)
            c["est"][j]["fits"].pop()
            yield c
        for q, f in enumerate(e["fits"]):
            if f["faults"]:
                c = copy.deepcopy(sc)
                c["est"][j]["fits"][q]["faults"] = []
                yield c
    yield from shrink_worlds(sc)
