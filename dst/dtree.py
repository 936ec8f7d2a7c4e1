"""Workloads and oracles for the decision tree learner (real master, pricing and cut code, simulated solver answers)."""
import copy
import itertools
import json
import os

import numpy as np

from . import core, seams, solvers
from .core import Violation

LABELS = {"int": [0, 1, 2, 3, 4, 5], "neg": [-5, -1, 3, 8, 9, 12], "str": ["a", "b", "c", "d", "e", "f"],
          "float": [0.0, 1.0, 2.0, 7.0, 9.0, 11.0]}


# ------------------------------------------------------------------ geometry, written independently of the library

def ancestors(leaf, depth):
    """[(node, goes_left)] from the root down."""
    node, out = 0, []
    for k in range(depth - 1, -1, -1):
        right = (leaf >> k) & 1
        out.append((node, not right))
        node = 2 * node + 1 + right
    return out


class Desc:
    """A problem description: ground truth arrays plus freshly built library objects."""

    def __init__(self, sc):
        self.sc = sc
        self.depth = sc["depth"]
        self.X = np.array(sc["X"], dtype=sc.get("dtype", "float"))
        self.y = np.array(sc["y"], int)
        self.k = int(self.y.max()) + 1
        pool = LABELS[sc["labels"]]
        self.labels = [pool[a] for a in sc["pick"][:self.k]] if "pick" in sc else pool[:self.k]
        self.ylab = np.array([self.labels[v] for v in self.y])
        self.nleaves = 2 ** self.depth
        self.nnodes = self.nleaves - 1
        self.cand = [list(c) for c in sc["cand"]]
        self.splits = [tuple(s) for s in sc["splits"]]
        self.left = np.array([[self.X[r, f] <= t for (f, t) in self.splits] for r in range(len(self.X))])
        self.anc = [ancestors(leaf, self.depth) for leaf in range(self.nleaves)]

    # -- truth
    def follow(self, leaf, by_node, left=None):
        """Rows following the leaf's path with split by_node[node]."""
        L = self.left if left is None else left
        m = np.ones(len(L), bool)
        for node, goleft in self.anc[leaf]:
            col = L[:, by_node[node]]
            m &= col if goleft else ~col
        return m

    def counts(self, mask):
        return np.bincount(self.y[mask], minlength=self.k)

    def route(self, tree, left=None):
        """Leaf of every row for a tree {node: split}."""
        L = self.left if left is None else left
        node = np.zeros(len(L), int)
        for _ in range(self.depth):
            s = np.array([tree[v] for v in node], int)
            node = 2 * node + np.where(L[np.arange(len(L)), s], 1, 2)
        return node - self.nnodes

    def leftmat(self, X):
        return np.array([[x[f] <= t for (f, t) in self.splits] for x in X])

    # -- library objects
    def build(self):
        import col_gen_estimator as p
        o = type("Objs", (), {})()
        o.splits = []
        for i, (f, t) in enumerate(self.splits):
            s = p.Split()
            s.id, s.feature, s.threshold = i, f, t
            s.left_rows = set(np.nonzero(self.left[:, i])[0].tolist())
            s.right_rows = set(np.nonzero(~self.left[:, i])[0].tolist())
            o.splits.append(s)
        o.nodes = []
        for i in range(self.nnodes):
            n = p.Node()
            n.id = i
            n.candidate_splits = list(self.cand[i])
            o.nodes.append(n)
        o.leaves = []
        for i in range(self.nleaves):
            leaf = p.Leaf()
            leaf.create_leaf(i, self.depth)
            o.leaves.append(leaf)
        o.paths = [self.mkpath(*q) for q in self.sc["init"]]
        o.data_rows = self.mkrows()
        o.targets = np.arange(self.k) if self.sc.get("target_array") else list(range(self.k))
        return o

    def mkpath(self, leaf, by_node, target, order=0):
        import col_gen_estimator as p
        by = dict(zip([n for n, _ in self.anc[leaf]], by_node))
        q = p.Path()
        q.leaf_id = leaf
        ids = [n for n, _ in self.anc[leaf]]
        q.node_ids = ids[::-1] if order == 0 else ids
        q.splits = [by[n] for n in q.node_ids]
        q.target = target
        q.cost = int(self.counts(self.follow(leaf, by))[target])
        return q

    def reach(self):
        """For each row the set of leaves reachable with some candidate splits."""
        out = []
        for r in range(len(self.X)):
            nodes, leaves = {0}, set()
            for i in range(self.nnodes):
                if i in nodes:
                    for s in self.cand[i]:
                        ch = 2 * i + (1 if self.left[r, s] else 2)
                        nodes.add(ch) if ch < self.nnodes else leaves.add(ch - self.nnodes)
            out.append((nodes, leaves))
        return out

    def mkrows(self):
        mode = self.sc.get("rows")
        if mode is None:
            return None
        import col_gen_estimator as p
        rows = []
        reach = self.reach()
        for r in range(len(self.X)):
            d = p.Row()
            d.target = int(self.y[r])
            d.left_splits = set(np.nonzero(self.left[r])[0].tolist())
            d.right_splits = set(np.nonzero(~self.left[r])[0].tolist())
            d.reachable_nodes, d.reachable_leaves = set(reach[r][0]), set(reach[r][1])
            if len(reach[r][1]) <= 2 and mode.get("few", True):
                d.removed_from_master = True
            rows.append(d)
        used = [sorted({s for n in reach[r][0] for s in self.cand[n]}) for r in range(len(rows))]
        for a, b in mode.get("merge", []):
            if a >= len(rows) or b >= len(rows) or a >= b or rows[a].removed_from_sp or rows[b].removed_from_sp:
                continue
            if reach[a][0] != reach[b][0] or any(self.left[a, s] != self.left[b, s] for s in used[a]):
                continue
            if not rows[a].removed_from_master:
                rows[b].removed_from_master = True
            elif not rows[b].removed_from_master:
                continue
            if self.y[a] == self.y[b]:
                rows[b].removed_from_sp = True
                rows[a].weight += rows[b].weight
        return rows


def by_node(path):
    return dict(zip([int(n) for n in path.node_ids], [int(s) for s in path.splits]))


# ------------------------------------------------------------------ generation

def gen_problem(rng, depths=(1, 2, 2, 2, 2, 3, 3), nmax=20, cmax=4, large=0.05):
    depth = rng.choice(depths)
    k = rng.choice([2, 2, 2, 3, 4])
    d = rng.randint(1, 5)
    n = rng.randint(max(4, k), nmax)
    size = rng.random()
    if size < large:               # more rows, classes and features than usual
        n, k, d = rng.randint(20, 60), rng.choice([2, 3, 5, 6]), rng.randint(2, 8)
        if rng.random() < 0.4:
            n, depth = rng.randint(100, 160), rng.choice([1, 2, 2])
    elif size < large * 1.5 and max(depths) >= 3:
        depth, cmax = 4, 2
    vals = rng.choice([[0, 1], [0, 1], [0, 1, 2, 3], [-1.5, 0.0, 0.25, 3.0, 8.0]])
    base = [[rng.choice(vals) for _ in range(d)] for _ in range(n)]
    if rng.random() < 0.3:
        m = max(2, n // 3)
        base = [list(rng.choice(base[:m])) for _ in range(n)]
    elif n >= 100 and rng.random() < 0.6:      # a few kinds of rows, one of them frequent
        m, q = rng.randint(3, 12), rng.choice([0.3, 0.6, 0.8])
        base = [list(base[0] if rng.random() < q else rng.choice(base[:m])) for _ in range(n)]
    cuts = sorted({(a + b) / 2 for a, b in zip(vals, vals[1:])} | ({vals[0], vals[1]} if rng.random() < 0.4 else set()))
    pool = [(f, t) for f in range(d) for t in cuts]
    rng.shuffle(pool)
    splits = pool[:rng.randint(1, min(len(pool), 8 if size >= large * 1.5 else 18))]
    nn = 2 ** depth - 1
    cm = cmax if depth <= 2 else min(3, cmax)
    cand = [sorted(rng.sample(range(len(splits)), rng.randint(1, min(len(splits), cm)))) for _ in range(nn)]
    if rng.random() < 0.4:
        for c in cand:
            rng.shuffle(c)
    if rng.random() < 0.6:         # labels from a hidden tree plus noise
        tree = [rng.choice(c) for c in cand]
        lab = [rng.randrange(k) for _ in range(nn + 1)]
        q = rng.choice([0, 0.1, 0.3])
        if n >= 100 and rng.random() < 0.7:        # most rows of one class, in one or two leaves
            lab = [0] * len(lab)
            lab[rng.randrange(len(lab))] = rng.randrange(k)
        y = []
        for x in base:
            v = 0
            while v < nn:
                f, t = splits[tree[v]]
                v = 2 * v + (1 if x[f] <= t else 2)
            y.append(lab[v - nn] if rng.random() >= q else rng.randrange(k))
    else:
        y = [rng.randrange(k) for _ in range(n)]
    for c in range(k):
        y[c] = c
    sc = {"depth": depth, "X": base, "y": y, "labels": rng.choice(list(LABELS)), "splits": [list(s) for s in splits],
          "cand": cand, "dtype": rng.choice(["float", "float", "float32"])}
    if all(isinstance(v, int) for r in base for v in r) and rng.random() < 0.5:
        sc["dtype"] = "int"
    sc["init"] = gen_init(rng, sc, k, extra=rng.choice([0, 0, 1, 4, 10]))
    sc["rows"] = rng.choice([None, {"merge": []}, {"merge": "all"}, {"merge": "all"}])
    if sc["rows"] and sc["rows"]["merge"] == "all":
        pr = [[a, b] for a in range(n) for b in range(a + 1, n)]
        q = rng.choice([1.0, 1.0, 0.5])
        sc["rows"] = {"merge": [p for p in pr if rng.random() < q]}
    if rng.random() < 0.15:
        sc["target_array"] = True
    return sc


def gen_init(rng, sc, k, extra):
    depth, cand = sc["depth"], sc["cand"]
    tree = [rng.choice(c) for c in cand]
    out = []
    D = Desc(dict(sc, init=[]))
    for leaf in range(2 ** depth):
        ids = [n for n, _ in D.anc[leaf]]
        by = {n: tree[n] for n in ids}
        cnt = D.counts(D.follow(leaf, by))
        t = int(cnt.argmax()) if rng.random() < 0.7 else rng.randrange(k)
        out.append([leaf, [by[n] for n in ids], t, rng.choice([0, 1])])
    for _ in range(extra):
        leaf = rng.randrange(2 ** depth)
        ids = [n for n, _ in D.anc[leaf]]
        by = {n: rng.choice(cand[n]) for n in ids}
        cnt = D.counts(D.follow(leaf, by))
        q = [leaf, [by[n] for n in ids], int(cnt.argmax()) if rng.random() < 0.8 else rng.randrange(k), rng.choice([0, 1])]
        if all(q[:3] != p[:3] for p in out):
            out.append(q)
    if rng.random() < 0.3:
        rng.shuffle(out)
    return out


LP_KINDS = ["alt_dual", "alt_dual", "alt_both", "alt_primal", "mid_dual"]
SP_KINDS = ["alt_opt", "suboptimal"]
CP_KINDS = ["stream", "feasible", "final_only"]


def gen_faults(rng, site_kinds, nmax=14, stall=0.03):
    out = []
    for site, kinds in site_kinds.items():
        r = rng.choice([0.0, 0.2, 0.6, 1.0])
        m = nmax if site != "cp" else nmax * 3
        for n in range(m):
            if kinds and rng.random() < r:
                f = {"site": site, "n": n, "kind": rng.choice(kinds), "seed": rng.randrange(1 << 20)}
                if f["kind"] == "noise":
                    f["eps"] = rng.choice([1e-12, 1e-10, 1e-9])
                if f["kind"] in ("stream", "feasible"):
                    f["k"] = rng.choice([1, 2, 4])
                out.append(f)
            elif rng.random() < stall:
                out.append({"site": site, "n": n, "kind": "stall", "extra": rng.choice([1.0, 100.0])})
    return out


_FRAC = []


def fractional(rng):
    """A problem whose LP over all paths has a fractional optimum (from tools/fractional.py), in another disguise."""
    if not _FRAC:
        _FRAC.extend(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fractional.json"))))
    sc = copy.deepcopy(rng.choice(_FRAC))
    k = max(sc["y"]) + 1
    perm = list(range(k))
    rng.shuffle(perm)
    order = list(range(len(sc["X"])))
    if sc["depth"] <= 2 and rng.random() < 0.15:        # every row several times
        order *= rng.choice([m for m in (2, 4, 8, 12) if m * len(order) <= 120])
    rng.shuffle(order)
    sc["X"], sc["y"] = [sc["X"][a] for a in order], [perm[sc["y"][a]] for a in order]
    for c in sc["cand"]:
        rng.shuffle(c)
    sc["labels"] = rng.choice(list(LABELS))
    sc["init"] = gen_init(rng, sc, k, extra=rng.choice([0, 0, 0, 3]))
    sc["rows"] = rng.choice([None, None, {"merge": []}, {"merge": [], "few": False}])
    return sc


def gen(rng, site_kinds, cuts=None, direct=0.0, frac=0.1, **kw):
    is_frac = rng.random() < frac
    sc = fractional(rng) if is_frac else gen_problem(rng, **kw)
    sc["sp"] = rng.choice(["sat", "sat", "old", "mip", "none"] if len(sc["X"]) <= 60 else ["sat", "sat", "none"])
    sc["heur"] = True if sc["sp"] == "none" else rng.random() < 0.5
    sc["custom"] = sc["sp"] in ("mip", "none") or not sc["heur"]
    sc["mip_solver"] = rng.choice(["sat", "cbc", "scip"])
    sc["rmp_solver"] = rng.choice(["glop", "glop", "glop", "clp"])
    sc["max_iterations"] = rng.choice([-1, -1, -1, 1, 2, 3, 12, 25])
    if sc["sp"] == "none":
        sc["max_iterations"] = rng.choice([1, 3, 12, 12, 25])
    sc["time_limit"] = rng.choice([-1, -1, -1, 0.5, 3, 20])
    if cuts is None:
        cuts = rng.random() < 0.5
    sc["cuts"] = {"beta": rng.random() < 0.6, "gen": rng.random() < 0.6, "rounds": rng.choice([1, 3, 10])} if cuts else \
        {"beta": False, "gen": False, "rounds": rng.choice([0, 3])}
    sc["seed"] = rng.randrange(1 << 30)
    if rng.random() < 0.2:
        sc["rand"] = {"kind": "stuck", "period": rng.choice([1, 7, 60, 400])}
    if is_frac:
        if rng.random() < 0.7:
            sc["max_iterations"] = 25 if sc["sp"] == "none" else -1
            sc["time_limit"] = -1
    elif rng.random() < 0.2:
        for op in frustrate(rng, sc):
            if all(op[1:4] != q[:3] for q in sc["init"]):
                sc["init"].append(op[1:])
    if rng.random() < direct:
        sc["ops"] = gen_ops(rng, sc, flood=is_frac)
        sc["custom"] = True
    sc["faults"] = gen_faults(rng, site_kinds, nmax=14 if not sc["custom"] else 40)
    if len(sc.get("ops") or []) > 30 and is_frac and "stream" in site_kinds.get("cut", ()) and rng.random() < 0.7:
        sc["faults"] = [f for f in sc["faults"] if f["site"] != "cut"] + \
            [{"site": "cut", "n": n, "kind": "stream", "seed": rng.randrange(1 << 20), "k": rng.choice([6, 12, 24])} for n in range(60)]
    return sc


def shrink(sc):
    n, d, nn = len(sc["X"]), len(sc["X"][0]), len(sc["cand"])
    k = max(sc["y"]) + 1

    def variants():
        for a in range(n - 1, -1, -1):
            c = copy.deepcopy(sc)
            del c["X"][a], c["y"][a]
            if len(set(c["y"])) == k:
                if c.get("rows"):
                    c["rows"]["merge"] = [[p - (p > a), q - (q > a)] for p, q in c["rows"]["merge"] if a not in (p, q)]
                yield c
        for i in range(len(sc.get("ops", [])) - 1, -1, -1):
            c = copy.deepcopy(sc)
            del c["ops"][i]
            yield c
        used = {(node, s) for q in sc["init"] + [o[1:] for o in sc.get("ops", []) if o[0] == "add"]
                for node, s in zip([m for m, _ in ancestors(q[0], sc["depth"])], q[1])}
        for i in range(len(sc["init"]) - 1, 2 ** sc["depth"] - 1, -1):
            c = copy.deepcopy(sc)
            del c["init"][i]
            yield c
        for node in range(nn):
            for s in sc["cand"][node]:
                if (node, s) not in used and len(sc["cand"][node]) > 1:
                    c = copy.deepcopy(sc)
                    c["cand"][node].remove(s)
                    yield c
        for key, val in (("labels", "int"), ("dtype", "float"), ("rows", None), ("rmp_solver", "glop"),
                         ("mip_solver", "cbc"), ("max_iterations", 1), ("max_iterations", 2), ("time_limit", -1),
                         ("rand", None), ("cuts", {"beta": False, "gen": False, "rounds": 0})):
            if key in sc and sc[key] != val:
                yield dict(copy.deepcopy(sc), **{key: copy.deepcopy(val)})
        if sc.get("rows") and sc["rows"]["merge"]:
            yield dict(copy.deepcopy(sc), rows={"merge": []})
            m = sc["rows"]["merge"]
            h = len(m) // 2
            if h:
                yield dict(copy.deepcopy(sc), rows={"merge": m[:h]})
                yield dict(copy.deepcopy(sc), rows={"merge": m[h:]})
    yield from variants()


# ------------------------------------------------------------------ running

class Run:
    pass


DUR = {"lp": (0.01, 0.1), "sp": (0.01, 0.5), "cp": (0.01, 0.5), "cut": (0.01, 0.3), "ip": (0.01, 0.5)}


def make_clf(sc, D, o):
    import col_gen_estimator._dtree_classifier as t
    import col_gen_estimator._col_gen_classifier as cg
    cu = sc["cuts"]
    if not sc["custom"]:
        return t.DTreeClassifier(
            o.paths, o.leaves, o.nodes, o.splits, tree_depth=D.depth, targets=o.targets,
            max_iterations=sc["max_iterations"], time_limit=sc["time_limit"], num_master_cuts_round=cu["rounds"],
            master_beta_constraints_as_cuts=cu["beta"], master_generate_cuts=cu["gen"], data_rows=o.data_rows,
            use_old_sp=sc["sp"] == "old", master_solver_type=sc["rmp_solver"])
    m, levels = make_parts(sc, D, o)
    return cg.ColGenClassifier(max_iterations=sc["max_iterations"], time_limit=sc["time_limit"], master_problem=m,
                               subproblems=levels, rmp_is_ip=True, subproblem_params=[[""] * len(lv) for lv in levels])


def make_parts(sc, D, o):
    import col_gen_estimator._dtree_classifier as t
    cu = sc["cuts"]
    m = t.DTreeMasterProblem(o.paths, o.leaves, o.nodes, o.splits, beta_constraints_as_cuts=cu["beta"],
                             generate_cuts=cu["gen"], num_cuts_round=cu["rounds"], solver_type=sc["rmp_solver"],
                             data_rows=o.data_rows)
    levels = []
    if sc["heur"]:
        levels.append([t.DTreeSubProblemHeuristic(o.leaves, o.nodes, o.splits, o.targets, D.depth, data_rows=o.data_rows)])
    if sc["sp"] == "mip":
        levels.append([t.DTreeSubProblem(leaf, o.nodes, o.splits, o.targets, D.depth, data_rows=o.data_rows,
                                         solver_str=sc["mip_solver"]) for leaf in o.leaves])
    elif sc["sp"] == "sat":
        levels.append([t.DTreeSubProblemSat(leaf, o.nodes, o.splits, o.targets, D.depth, data_rows=o.data_rows)
                       for leaf in o.leaves])
    elif sc["sp"] == "old":
        levels.append([t.DTreeSubProblemOld(leaf, o.nodes, o.splits, tg, D.depth, data_rows=o.data_rows,
                                            solver_str=sc["mip_solver"]) for leaf in o.leaves for tg in o.targets])
    return m, levels


def frustrate(rng, sc):
    """Makes the LP over the added columns fractional: sibling leaves pair the splits of their nodes in different ways, so
    the columns satisfy the consistency rows on average only, and few rows are left to cut that off."""
    d = rng.choice([4, 5, 6])
    n = rng.choice([4, 5, 6, 8])
    depth = sc["depth"] = rng.choice([2, 2, 3])
    nn = 2 ** depth - 1
    sc["X"] = [[rng.randint(0, 1) for _ in range(d)] for _ in range(n)]
    k = rng.choice([2, 2, 3])
    sc["y"] = [rng.randrange(k) for _ in range(n)]
    for c in range(k):
        sc["y"][c] = c
    sc["splits"] = [[f, 0.5] for f in range(d)]
    sc["dtype"] = rng.choice(["float", "int"])
    sc["cand"] = [sorted(rng.sample(range(d), rng.choice([2, 2, 3]))) for _ in range(nn)]
    D = Desc(dict(sc, init=[], rows=None))
    tree = [rng.choice(c) for c in sc["cand"]]
    sc["init"] = []
    for leaf in range(2 ** depth):
        by = {m: tree[m] for m, _ in D.anc[leaf]}
        t = int(D.counts(D.follow(leaf, by)).argmin())
        sc["init"].append([leaf, [by[m] for m, _ in D.anc[leaf]], t, 0])
    sc["rows"] = rng.choice([None, {"merge": []}, {"merge": [], "few": False}])
    ops = []
    for leaf in range(2 ** depth):
        ids = [m for m, _ in D.anc[leaf]]
        perm = {m: rng.sample(D.cand[m], len(D.cand[m])) for m in ids}
        for j in range(3):
            by = {m: perm[m][j % len(perm[m])] for m in ids}
            cnt = D.counts(D.follow(leaf, by))
            ops.append(["add", leaf, [by[m] for m in ids], int(cnt.argmax()), rng.choice([0, 1])])
    return ops


def flooded(rng, sc):
    """Nearly all columns of a problem whose LP is fractional, first or in two halves, so that many cuts are generated
    and most columns (also later ones) enter several of them."""
    D = Desc(dict(sc, init=[], rows=None))
    sc["rows"] = rng.choice([None, {"merge": []}, {"merge": [], "few": False}])
    if rng.random() < 0.8 or "cuts" not in sc:
        sc["cuts"] = {"beta": rng.random() < 0.3, "gen": True, "rounds": rng.choice([3, 10, 10])}
    q = rng.choice([0.6, 0.9, 1.0])
    ops = []
    for leaf in range(D.nleaves):
        ids = [n for n, _ in D.anc[leaf]]
        for comb in itertools.product(*[D.cand[n] for n in ids]):
            if rng.random() < q:
                cnt = D.counts(D.follow(leaf, dict(zip(ids, comb))))
                ops.append(["add", leaf, list(comb), int(cnt.argmax()), rng.choice([0, 1])])
    rng.shuffle(ops)
    for share in rng.choice([(), (0.5,), (0.7,), (0.9,), (0.9, 0.6), (0.9, 0.7, 0.5, 0.3), (0.9, 0.8, 0.7, 0.6, 0.5, 0.4)]):
        at = int(len(ops) * share)
        ops[at:at] = [["solve", 10]]
    ops.append(["solve", 10])
    if rng.random() < 0.6:         # price every leaf once more or less, with these cuts and with more
        for a in rng.sample(range(64), 8):
            ops += [["price", a], ["solve", rng.choice([1, 1, 1, 10])]]
    return ops


def gen_ops(rng, sc, flood=False):
    """A script of messages for a directly driven master: rounds of adding columns, solving, updating and pricing."""
    ops = []
    if flood and rng.random() < 0.7:
        ops = flooded(rng, sc)
    elif rng.random() < 0.5:
        ops = frustrate(rng, sc)
    D = Desc(sc)

    def rnd_col():
        leaf = rng.randrange(D.nleaves)
        ids = [n for n, _ in D.anc[leaf]]
        by = {n: rng.choice(D.cand[n]) for n in ids}
        cnt = D.counts(D.follow(leaf, by))
        return ["add", leaf, [by[n] for n in ids], int(cnt.argmax()) if rng.random() < 0.85 else rng.randrange(D.k),
                rng.choice([0, 1])]
    for _ in range(rng.choice([0, 3, 10, 25]) if not ops else rng.choice([0, 0, 2])):
        ops.append(rnd_col())
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops.append(["solve", rng.choice([1, 9, 10, 10, 10, 11])])
        for _ in range(rng.choice([0, 1, 2, 4])):
            ops.append(["price", rng.randrange(64)])
            if rng.random() < 0.8:
                ops.append(["solve", rng.choice([1, 1, 1, 2, 10])])
        for _ in range(rng.choice([0, 0, 2, 6])):
            ops.append(rnd_col())
    return ops


def drive(sim, sc, hook=None, after_solve=None):
    """Runs the script sc["ops"] against a real master and real pricing, in the order of the column generation protocol."""
    r = Run()
    r.sc, r.sim, r.D = sc, sim, Desc(sc)
    seams.install()
    D = r.D
    r.c = c = sim.client("main", sc["seed"], faults=sc["faults"], rand_mode=sc.get("rand"), durations=DUR)
    r.lp, r.cut_rows, r.exc, r.harness_add = [], [], None, False
    if hook:
        hook(r)
    with sim.as_client(c):
        r.o = o = D.build()
        r.init = [(q.leaf_id, by_node(q), q.target, q.cost) for q in o.paths]
        m, levels = make_parts(sc, D, o)
        r.clf = type("Parts", (), {"master_problem": m, "subproblems": levels})()
        m.generate_mp(D.X, D.y)
        sps = [sp for lv in levels for sp in lv]
        duals = None
        for op in sc["ops"] + [["solve", 1]]:
            if op[0] == "add":
                r.harness_add = True
                m.add_column(D.mkpath(*op[1:]))
                r.harness_add = False
                duals = None
            elif op[0] == "solve":
                for _ in range(op[1]):
                    duals = m.solve_rmp("")
                    for sp in sps:
                        sp.update_subproblem(D.X, D.y, duals)
                    if after_solve:
                        after_solve(r, m)
            elif op[0] == "price" and duals is not None and sps:
                cols = list(sps[op[1] % len(sps)].generate_columns(D.X, D.y, duals, ""))
                for q in cols[:12]:
                    m.add_column(q)
                if cols:
                    duals = None
        m.solve_ip("")
    digest_run(sim, r)
    return r


def go(sim, sc, hook=None, after_solve=None):
    return drive(sim, sc, hook, after_solve) if "ops" in sc else run(sim, sc, hook=hook)


def run(sim, sc, client="main", catch=False, hook=None):
    r = Run()
    r.sc, r.sim = sc, sim
    r.D = D = Desc(sc)
    seams.install()
    r.c = c = sim.client(client, sc["seed"], faults=sc["faults"], rand_mode=sc.get("rand"), durations=DUR)
    r.cols = []          # (order, path) of accepted columns
    r.exc = None
    r.lp = []            # boundary record of every master LP: (status, objective)
    r.cut_rows = []      # split assignment of every generated cut, in order of the master's cut constraints
    if hook:
        hook(r)
    with sim.as_client(c):
        r.o = D.build()
        r.init = [(q.leaf_id, by_node(q), q.target, q.cost) for q in r.o.paths]
        r.clf = make_clf(sc, D, r.o)
        try:
            r.clf.fit(D.X, D.ylab)
        except Exception as e:
            if not catch:
                raise
            r.exc = e
        except core.InjectedInterrupt as e:
            if not catch:
                raise
            r.exc = e
    digest_run(sim, r)
    return r


def digest_run(sim, r):
    ev = r.c.events
    r.solves = [e for e in ev if e[0] == "solve"]
    r.calls = [e for e in ev if e[0] == "call"]
    ip = [e for e in r.solves if e[1] == "ip"]
    r.ip_obj = ip[-1][4] if ip else None
    r.ip_status = ip[-1][3] if ip else None
    r.added = [e[3][0] for e in r.calls if e[1] == "add_column" and e[4]]
    sel = selected(r.clf)
    sim.log("fit", [(p.leaf_id, list(p.node_ids), list(p.splits), p.target, float(p.cost)) for p in sel] if sel else None,
            getattr(r.clf, "iter_", None), getattr(r.clf, "mp_optimal_", None), len(r.added), type(r.exc).__name__)
    if r.added:
        sim.probe("nontrivial")
    sim.probe("iters", getattr(r.clf, "iter_", 0) or 0)
    sim.probe("columns", len(r.added))


def selected(clf):
    return getattr(clf.master_problem, "selected_paths", None)


# ------------------------------------------------------------------ oracles

def check_path(D, p, who, where, cost=True):
    want = [n for n, _ in D.anc[p.leaf_id]] if 0 <= p.leaf_id < D.nleaves else None
    if want is None:
        raise Violation(f"{who}:leaf", f"{where}: leaf {p.leaf_id}")
    if sorted(map(int, p.node_ids)) != sorted(want):
        raise Violation(f"{who}:nodes", f"{where}: leaf {p.leaf_id} has nodes {list(p.node_ids)}, not {want}")
    if len(p.splits) != len(p.node_ids):
        raise Violation(f"{who}:splits", f"{where}: nodes {list(p.node_ids)} splits {list(p.splits)}")
    for n, s in zip(p.node_ids, p.splits):
        if s not in D.cand[n]:
            raise Violation(f"{who}:candidate", f"{where}: node {n} uses split {s}, offers {D.cand[n]}")
    if not (0 <= p.target < D.k):
        raise Violation(f"{who}:class", f"{where}: leaf {p.leaf_id} splits {by_node(p)} has target {p.target}")
    if cost:
        true = int(D.counts(D.follow(p.leaf_id, by_node(p)))[int(p.target)])
        if abs(p.cost - true) > 1e-6:
            raise Violation(f"{who}:cost", f"{where}: leaf {p.leaf_id} splits {by_node(p)} target {p.target} has cost "
                            f"{p.cost}, but {true} training rows follow it with that class")


def tree_of(D, sel, who):
    """The selected paths as {node: split} and leaf targets; raises when they are not one complete tree."""
    leaves = sorted(p.leaf_id for p in sel)
    if leaves != list(range(D.nleaves)):
        raise Violation(f"{who}:leaves", f"selected paths have leaves {leaves}")
    tree = {}
    for p in sel:
        for n, s in by_node(p).items():
            if tree.setdefault(n, s) != s:
                raise Violation(f"{who}:inconsistent", f"node {n} has splits {tree[n]} and {s}")
    return tree, {p.leaf_id: p.target for p in sel}


def accuracy(D, tree, targets):
    leaf = D.route(tree)
    return int(sum(targets[int(l)] == c for l, c in zip(leaf, D.y)))


def unseen_rows(D, rng, n=25):
    vals = sorted({v for row in D.sc["X"] for v in row} | {t for _, t in D.splits})
    vals += [vals[0] - 10, vals[-1] + 10] + [t + 1e-9 for _, t in D.splits[:2]]
    return np.array([[rng.choice(vals) for _ in range(D.X.shape[1])] for _ in range(n)], float)


def check_tree(r, sim):
    """C12"""
    D = r.D
    sel = selected(r.clf)
    for p in sel:
        check_path(D, p, "C12", "selected path", cost=False)
    tree, tg = tree_of(D, sel, "C12")
    if not r.sc["custom"]:
        rng = core.lrng(r.sc["seed"], "unseen")
        for Z in (D.X, unseen_rows(D, rng)):
            with sim.as_client(r.c):
                got = list(r.clf.predict(Z))
            leaf = D.route(tree, D.leftmat(Z))
            want = [D.labels[tg[int(l)]] for l in leaf]
            if got != want:
                i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), 0)
                raise Violation("C12:predict", f"row {list(Z[i])} follows leaf {leaf[i]} (class {want[i]}), predicted "
                                f"{got[i] if i < len(got) else None}")
            if not set(got) <= set(D.labels):
                raise Violation("C12:unknown_class", f"{set(got)}")
            for i in sorted({0, len(Z) - 1, rng.randrange(len(Z))}):      # the same row without the others
                with sim.as_client(r.c):
                    alone = list(r.clf.predict(Z[i:i + 1]))
                if alone != [want[i]]:
                    raise Violation("C12:predict", f"row {list(Z[i])} alone follows leaf {leaf[i]} (class {want[i]}), predicted {alone}")
    return tree, tg


def check_columns(r, sim):
    """C13 on everything that entered the master."""
    D = r.D
    for p in r.added:
        check_path(D, p, "C13", "added column")
    for p in selected(r.clf):
        check_path(D, p, "C13", "selected path")
    tree, tg = tree_of(D, selected(r.clf), "C13")
    acc = accuracy(D, tree, tg)
    if r.ip_obj is None or abs(r.ip_obj - acc) > 1e-5:
        raise Violation("C13:objective", f"integer objective {r.ip_obj}, fitted tree classifies {acc} rows correctly")
    if not r.sc["custom"]:
        with sim.as_client(r.c):
            got = int((r.clf.predict(D.X) == D.ylab).sum())
        if got != acc:
            raise Violation("C13:predict", f"predict classifies {got} rows correctly, objective says {acc}")


def duals_rc(D, duals, p, cut_rows):
    """Reduced cost of a path from data, duals and cuts."""
    leaf, row, ns, cut = duals[0], duals[1], duals[2], duals[3]
    by = by_node(p)
    m = D.follow(p.leaf_id, by)
    rc = p.cost - leaf[p.leaf_id] - sum(row[i] for i in np.nonzero(m)[0])
    for n, s in by.items():
        rc -= ns[p.leaf_id][n][s]
    for c, assign in enumerate(cut_rows[:len(cut)]):
        if all(bool(assign[by[n]]) == goleft for n, goleft in D.anc[p.leaf_id]):
            rc -= cut[c]
    return rc


def check_prices(D, m, st, sim):
    """Every column of the master LP has there the reduced cost that pricing computes from the duals it is handed."""
    if st["y"] is None:
        return
    arr = solvers.Arrays(m.solver_)
    rc = arr.sign * arr.c - arr.A.T @ st["y"]
    late = arr.A.shape[0]
    for p in m.paths_:
        want = duals_rc(D, st["duals"], p, st["cuts"])
        if abs(rc[p.id] - want) > 1e-6 * (1 + abs(want)):
            raise Violation("C14:wrong_in_master", f"leaf {p.leaf_id} {by_node(p)} cost {p.cost}: reduced cost in the master LP "
                            f"({late} rows) {rc[p.id]}, from data, duals and cuts {want}")
    sim.probe("columns_repriced", len(m.paths_))


def pricing_hook(r):
    """Recomputes reduced costs at the moment columns are generated and entered (C14)."""
    st = {"y": None, "duals": None, "cuts": []}
    sim = r.sim

    def on_solve(solver, site, n, status):
        if site == "lp":
            st["y"] = solvers.dual_values(solver) if status == solvers.OPTIMAL else None
            st["solver"] = solver

    def on_call(name, obj, args, result):
        D = r.D
        if name == "solve_rmp":
            st["duals"] = result
            st["cuts"] = st["cuts"] + [list(a) for a in result[4]]
            r.cut_rows = st["cuts"]
            if len(result[3]) != len(st["cuts"]):
                raise Violation("C14:cut_duals", f"{len(result[3])} cut duals for {len(st['cuts'])} cuts")
            check_prices(D, obj, st, sim)
        elif name == "generate_columns":
            duals = args[2]
            st["priced"] = []
            for p in result:
                check_path(D, p, "C14", type(obj).__name__, cost=False)
                rc = duals_rc(D, duals, p, st["cuts"])
                sim.probe("priced")
                if st["cuts"]:
                    sim.probe("priced_with_cuts")
                if not rc > 0:
                    raise Violation("C14:not_improving", f"{type(obj).__name__} returned leaf {p.leaf_id} {by_node(p)} "
                                    f"target {p.target} cost {p.cost} with reduced cost {rc}")
        elif name == "add_column" and result:
            p = args[0]
            if st["y"] is None:
                return
            arr = solvers.Arrays(obj.solver_)
            j = [i for i, nm in enumerate(arr.names)]
            # the entered column is the variable created last
            y = np.concatenate([st["y"], np.zeros(arr.A.shape[0] - len(st["y"]))])
            rc = arr.reduced_cost(len(arr.names) - 1, y)
            want = duals_rc(D, st["duals"], p, st["cuts"])
            if abs(rc - want) > 1e-6 * (1 + abs(want)):
                raise Violation("C14:entered_wrong", f"leaf {p.leaf_id} {by_node(p)} cost {p.cost}: reduced cost in the "
                                f"master LP {rc}, from data, duals and cuts {want}")
            if not rc > 0 and not getattr(r, "harness_add", False):
                raise Violation("C14:entered_not_improving", f"reduced cost {rc} in the master LP")
    r.c.trace_cb = on_solve
    r.c.call_hook = on_call


def leaf_columns(D, cols):
    """(leaf, splits root down) -> best value among columns [(leaf, by_node, target, cost)]."""
    best = {}
    for leaf, by, t, cost in cols:
        key = (leaf, tuple(by[n] for n, _ in D.anc[leaf]))
        if cost > best.get(key, -1):
            best[key] = cost
    return best


def best_tree(D, cols=None):
    """Most training rows classified correctly by a consistent tree (over given columns, or over all candidate splits)."""
    best = leaf_columns(D, cols) if cols is not None else None

    def leafval(leaf, pre):
        if best is not None:
            return best.get((leaf, pre), -np.inf)
        by = dict(zip([n for n, _ in D.anc[leaf]], pre))
        return int(D.counts(D.follow(leaf, by)).max())

    def val(node, pre):
        if node >= D.nnodes:
            return leafval(node - D.nnodes, pre)
        return max(val(2 * node + 1, pre + (s,)) + val(2 * node + 2, pre + (s,)) for s in D.cand[node])
    return val(0, ())


def trees_over(D, cols, limit, rng):
    """Consistent trees formable from columns, as lists of column indices (all, or a sample of `limit`)."""
    idx = {}
    for i, (leaf, by, t, cost) in enumerate(cols):
        idx.setdefault((leaf, tuple(by[n] for n, _ in D.anc[leaf])), []).append(i)

    def gen(node, pre):
        if node >= D.nnodes:
            yield from ([i] for i in idx.get((node - D.nnodes, pre), []))
            return
        ss = list(D.cand[node])
        rng.shuffle(ss)
        for s in ss:
            ls = list(itertools.islice(gen(2 * node + 1, pre + (s,)), 12))
            if not ls:
                continue
            rs = list(itertools.islice(gen(2 * node + 2, pre + (s,)), 12))
            for a in ls:
                for b in rs:
                    yield a + b
    return list(itertools.islice(gen(0, ()), limit))


def lp_all(D, eq):
    """LP optimum of the formulation over all paths; row constraints '=1' or '<=1'."""
    cols = []
    for leaf in range(D.nleaves):
        ids = [n for n, _ in D.anc[leaf]]
        for sp in itertools.product(*[D.cand[n] for n in ids]):
            by = dict(zip(ids, sp))
            m = D.follow(leaf, by)
            cols.append((leaf, by, m, int(D.counts(m).max())))
    ns = [(n, s) for n in range(D.nnodes) for s in D.cand[n]]
    nsi = {k: i for i, k in enumerate(ns)}
    nc, nv = len(cols), len(cols) + len(ns)
    rows, lo, up = [], [], []
    for leaf in range(D.nleaves):
        a = np.zeros(nv)
        a[[j for j, c in enumerate(cols) if c[0] == leaf]] = 1
        rows.append(a)
        lo.append(1)
        up.append(1)
        for n, _ in D.anc[leaf]:
            for s in D.cand[n]:
                a = np.zeros(nv)
                a[[j for j, c in enumerate(cols) if c[0] == leaf and c[1][n] == s]] = 1
                a[nc + nsi[(n, s)]] = -1
                rows.append(a)
                lo.append(0)
                up.append(0)
    M = np.array([c[2] for c in cols]).T
    for m in np.unique(M, axis=0):
        a = np.zeros(nv)
        a[:nc] = m
        rows.append(a)
        lo.append(1 if eq else -np.inf)
        up.append(1)
    c = np.zeros(nv)
    c[:nc] = [-q[3] for q in cols]
    res = solvers.oracle(c, np.array(rows), np.array(lo, float), np.array(up, float), np.zeros(nv), np.full(nv, np.inf), np.zeros(nv))
    if res.status != 0:
        raise core.HarnessError(f"oracle LP: {res.message}")
    return -float(res.fun)


def lp_hook(r):
    """Records boundary LP objectives per solve_rmp."""
    sim = r.sim

    def on_solve(solver, site, n, status):
        if site == "lp":
            r.lp.append((status, solvers.obj_value(solver) if status == solvers.OPTIMAL else None))
        elif site in ("cp", "sp"):
            r.last_pricing = status
    r.c.trace_cb = on_solve


def pricing_tol(D):
    """The SAT pricing rounds objective coefficients to 1e-5: a positive reduced cost below this may be missed per leaf."""
    return D.nleaves * (1e-5 * (len(D.X) + D.depth + 2) + 1e-5) + 1e-5


def leaf_rcs(D, duals, leaf, cut_rows, target=None):
    """(largest reduced cost of a path of the leaf, the path) by enumeration, from data, duals and cuts."""
    dl, row, ns, cut = duals[0], np.asarray(duals[1], float), duals[2], duals[3]
    ids = [n for n, _ in D.anc[leaf]]
    best = (-np.inf, None)
    for comb in itertools.product(*[D.cand[n] for n in ids]):
        by = dict(zip(ids, comb))
        m = D.follow(leaf, by)
        cnt = D.counts(m)
        rc = (cnt.max() if target is None else cnt[target]) - dl[leaf] - row[m].sum() - sum(ns[leaf][n][s] for n, s in by.items())
        for c, assign in enumerate(cut_rows[:len(cut)]):
            if all(bool(assign[by[n]]) == goleft for n, goleft in D.anc[leaf]):
                rc -= cut[c]
        if rc > best[0]:
            best = (float(rc), by)
    return best


def exact_hook(r):
    """Exact pricing that is answered optimally and returns nothing leaves no improving path of its leaf behind (C15)."""
    sim, st = r.sim, {"cuts": [], "at": 0}

    def on_call(name, obj, args, result):
        ev = r.c.events
        if name == "solve_rmp":
            st["cuts"] = st["cuts"] + [list(a) for a in result[4]]
        elif name == "generate_columns":
            solves = [e for e in ev[st["at"]:] if e[0] == "solve" and e[1] == "sp" or e[0] == "cpsolve" and e[1] == "cp"]
            if len(solves) == 1 and not len(result) and hasattr(obj, "leaf_id_") and \
                    (r.sc["sp"] != "old" or hasattr(obj, "target_")):
                ok = solves[0][3] == (solvers.OPTIMAL if solves[0][0] == "solve" else 4)
                if ok and len(args[2][3]) == len(st["cuts"]):
                    rc, by = leaf_rcs(r.D, args[2], obj.leaf_id_, st["cuts"], getattr(obj, "target_", None))
                    sim.probe("empty_pricing_judged")
                    if st["cuts"]:
                        sim.probe("empty_pricing_judged_with_cuts")
                    if rc > 2 * pricing_tol(r.D) / r.D.nleaves:
                        raise Violation("C15:column_missed", f"{type(obj).__name__}, answered optimally, returns nothing, but path {by} of "
                                        f"leaf {obj.leaf_id_} has reduced cost {rc} ({len(st['cuts'])} cuts)")
        st["at"] = len(ev)
    r.c.call_hook = on_call


def check_bound(r, sim):
    """C15"""
    D, sc = r.D, r.sc
    lazy = sc["cuts"]["rounds"] > 0 and (sc["cuts"]["beta"] or sc["cuts"]["gen"])
    objs = []
    last_ok = True
    for e in r.c.events:
        if e[0] == "solve" and e[1] == "lp":
            objs.append((e[3], e[4]))
            last_ok = True
        # an infeasible pricing model is no solver failure: every leaf has a path
        elif e[0] == "solve" and e[1] == "sp" and e[3] not in (solvers.OPTIMAL, solvers.INFEASIBLE):
            last_ok = False
        elif e[0] == "cpsolve" and e[1] == "cp" and e[3] not in (4, 3):
            last_ok = False
    bad = [k + 1 for k, (s, _) in enumerate(objs) if s == solvers.INFEASIBLE]
    if bad:
        raise Violation("C15:infeasible_master", f"master LP {bad[0]} of {len(objs)} is infeasible, the initial tree satisfies it")
    if not lazy and not sc["cuts"]["beta"]:
        for (s1, a), (s2, b) in zip(objs, objs[1:]):
            if a is not None and b is not None and b < a - 1e-6 * (1 + abs(a)):
                raise Violation("C15:lp_decreased", f"master LP went from {a} to {b}: {objs}")
    last = cur = new = None
    for e in r.c.events:
        if e[0] == "solve" and e[1] == "lp" and e[3] == solvers.OPTIMAL:
            new = e[4]
        elif e[0] == "call" and e[1] == "solve_rmp":
            last, cur = cur, new
        elif e[0] == "call" and e[1] == "rmp_objective_improved" and None not in (last, cur):
            if abs(cur - last) > 1e-6 * (1 + abs(last)) and bool(e[4]) != (cur > last):
                raise Violation("C15:improvement", f"master LP went from {last} to {cur}, reported as improved: {e[4]}")
            sim.probe("improvements_judged")
    tol = pricing_tol(D)
    if r.clf.mp_optimal_ and last_ok and sc["sp"] != "none" and objs[-1][1] is not None:
        z = objs[-1][1]
        sim.probe("optimal_runs")
        bt = best_tree(D)
        if z < bt - tol:
            raise Violation("C15:below_best_tree", f"final master LP {z}, the best tree classifies {bt} rows correctly")
        if not lazy and not sc["cuts"]["beta"]:
            lo, hi = lp_all(D, True), lp_all(D, False)
            sim.probe("lp_compared")
            if not lo - tol <= z <= hi + 1e-5 * (1 + hi):
                raise Violation("C15:lp_optimum", f"final master LP {z}, optimum over all paths {lo} (rows =1) to {hi} (rows <=1)")
    check_start(r, sim)


def check_start(r, sim):
    D = r.D
    init = [(leaf, by, t, int(D.counts(D.follow(leaf, by))[t])) for leaf, by, t, _ in r.init]
    base = best_tree(D, init)
    sel = selected(r.clf)
    tree, tg = tree_of(D, sel, "C15")
    acc = accuracy(D, tree, tg)
    if acc < base:
        raise Violation("C15:worse_than_start", f"fitted tree classifies {acc} rows correctly, initial paths give {base}")
    if acc > base:
        sim.probe("improved_tree")


# ------------------------------------------------------------------ C16: integer master over the columns present

def master_columns(D, m):
    """[(leaf, by_node, target, true value, variable index)] of the columns in the master."""
    out = []
    for p in m.paths_:
        by = by_node(p)
        out.append((p.leaf_id, by, p.target, int(D.counts(D.follow(p.leaf_id, by))[int(p.target)]), p.id))
    return out


def admits(arr, m, D, cols, tree_cols):
    """Does the model admit exactly this tree (given path variables at 1, all other path variables at 0)?"""
    pidx = {c[4] for c in cols}
    x = np.zeros(len(arr.names))
    for j in tree_cols:
        x[cols[j][4]] = 1
    try:
        for (node, s), i in m.ns_vars.items():
            x[i] = 1.0 if any(cols[j][1].get(node) == s for j in tree_cols) else 0.0
        if arr.feasible(x, 1e-6):
            return True
    except AttributeError:
        pass
    l, u = arr.l.copy(), arr.u.copy()
    for i in pidx:
        l[i] = u[i] = x[i]
    res = solvers.oracle(np.zeros(len(x)), arr.A, arr.L, arr.U, l, u, np.zeros(len(x)))
    return res.status == 0


def check_master(r, m, where):
    """C16: the integer master admits every consistent tree over its columns, and its optimum is the best of them."""
    D, sim = r.D, r.sim
    cols = master_columns(D, m)
    arr = solvers.Arrays(m.solver_)
    rng = core.lrng(r.sc["seed"], "trees", len(cols), arr.A.shape[0])
    trees = trees_over(D, [c[:4] for c in cols], 40, rng)
    sim.probe("trees_checked", len(trees))
    for t in trees:
        if not admits(arr, m, D, cols, t):
            desc = [cols[j][:3] for j in t]
            bad = ""
            raise Violation("C16:tree_removed", f"{where}: the master forbids the consistent tree {desc} {bad}")
    best = best_tree(D, [c[:4] for c in cols])
    res = arr.mip()
    if res.status != 0:
        raise Violation("C16:integer_infeasible", f"{where}: integer master has no solution: {res.message}")
    z = arr.value(res.x)
    if z < best - 1e-6:
        res = solvers.oracle(arr.c, arr.A, arr.L, arr.U, arr.l, arr.u, arr.integer, presolve=(False,))
        z = arr.value(res.x)
    if not arr.feasible(res.x, 1e-5) or np.abs(res.x - np.round(res.x))[arr.integer.astype(bool)].max() > 1e-5:
        raise core.HarnessError(f"oracle answered {res.x}")
    if abs(z - best) > 1e-5 * (1 + abs(best)):
        raise Violation("C16:integer_optimum", f"{where}: integer master optimum {z}, best consistent tree over its columns {best}")


def cut_hook(r):
    st = {"n": 0, "k": 0}

    def on_call(name, obj, args, result):
        if name == "solve_rmp":
            st["k"] += 1
            nc = obj.solver_.NumConstraints()
            if nc != st["n"] and st["n"]:
                r.sim.probe("late_rows", nc - st["n"])
                check_master(r, obj, f"after master solve {st['k']}")
            elif st["n"] and st["k"] % 7 == 0:
                check_master(r, obj, f"after master solve {st['k']}")
            st["n"] = nc
            if len(result[4]):
                r.sim.probe("generated_cuts", len(result[4]))
        elif name == "solve_ip":
            check_master(r, obj, "final")
    r.c.call_hook = on_call


def check_cut_result(r, sim):
    D = r.D
    m = r.clf.master_problem
    cols = [c[:4] for c in master_columns(D, m)]
    best = best_tree(D, cols)
    if r.ip_status == solvers.OPTIMAL and abs(r.ip_obj - best) > 1e-5 * (1 + best):
        raise Violation("C16:objective", f"integer objective {r.ip_obj}, best consistent tree over the columns {best}")
    tree, tg = tree_of(D, selected(r.clf), "C16")
    acc = accuracy(D, tree, tg)
    if r.ip_status == solvers.OPTIMAL and acc != best:
        raise Violation("C16:selected", f"selected tree classifies {acc} rows correctly, best over the columns {best}")
