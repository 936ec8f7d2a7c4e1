"""The column generation protocol (C01-C05) observed on the real rule and tree learners: real master, pricing and solvers,
simulated solver answers, durations, failures and clocks.  Histories have the form loop.py gives them."""
import zlib

import numpy as np

from . import core, seams, bdr, dtree, loop
from .core import HarnessError

KIND = {"generate_mp": "mp", "solve_rmp": "lp", "update_subproblem": "upd", "generate_columns": "gen", "add_column": "add",
        "solve_ip": "ip", "rmp_objective_improved": "impr"}


def gen(rng, tier, *, p_time=0.5, jumps=0.4, exc=0.1):
    fam = rng.choice(["bdr", "dtree"])
    if fam == "bdr":
        sc = bdr.gen(rng, {"lp": bdr.LP_KINDS, "sp": bdr.SP_KINDS, "ip": ["alt_opt"]} if rng.random() < 0.5 else {}, nmax=8, dmax=4)
    else:
        sc = dtree.gen(rng, {"lp": dtree.LP_KINDS, "sp": dtree.SP_KINDS, "cp": dtree.CP_KINDS, "cut": dtree.CP_KINDS, "ip": ["alt_opt"]}
                       if rng.random() < 0.5 else {}, nmax=12)
        sc.pop("ops", None)
    sc["real"] = fam
    sites = ["lp", "sp", "cp"]
    if rng.random() < exc:
        sc["faults"].append({"site": rng.choice(sites + ["ip"]), "n": rng.choice([0, 1, 2, 5]), "kind": rng.choice(list(core.EXC)), "seed": 0})
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 2])):
            sc["faults"].append({"site": rng.choice(sites), "n": rng.randrange(8), "kind": "stall",
                                 "extra": rng.choice([0.5, 5.0, 1000.0])})
    sc["fits"] = []
    nf = 1 if sc.get("custom") or sc.get("variant") == "custom" or rng.random() < 0.6 else 2
    for _ in range(nf):
        f = {"max_iterations": sc["max_iterations"] if rng.random() < 0.5 else rng.choice([1, 2, 3, 7, 25]),
             "time_limit": -1, "jumps": []}
        if rng.random() < p_time:
            f["time_limit"] = rng.choice([0.05, 0.3, 1, 3, 10, 1000])
        if rng.random() < jumps:
            f["jumps"] = sorted([round(rng.uniform(0, 6), 4), rng.choice([-1, 1]) * rng.choice([0.3, 5, 3600, 1e6])]
                                for _ in range(rng.choice([1, 2, 4])))
        sc["fits"].append(f)
    return sc


def shrink(sc):
    import copy
    mod = bdr if sc["real"] == "bdr" else dtree
    for i in range(len(sc["fits"])):
        if len(sc["fits"]) > 1:
            c = copy.deepcopy(sc)
            del c["fits"][i]
            yield c
    for i, f in enumerate(sc["fits"]):
        for k, v in (("jumps", []), ("time_limit", -1), ("max_iterations", 1), ("max_iterations", 2)):
            if f[k] != v:
                c = copy.deepcopy(sc)
                c["fits"][i][k] = v
                yield c
    yield from mod.shrink(sc)


def token(o):
    def canon(v):
        if isinstance(v, dict):
            return sorted((repr(k), canon(w)) for k, w in v.items())
        if isinstance(v, (list, tuple)):
            return [canon(w) for w in v]
        if isinstance(v, np.ndarray):
            return v.tolist()
        if isinstance(v, (set, frozenset)):
            return sorted(map(repr, v))
        if isinstance(v, (np.generic,)):
            return v.item()
        return v
    return zlib.crc32(repr(canon(o)).encode())


def column(fam, q):
    if fam == "bdr":
        return tuple(map(int, q))
    return (q.leaf_id, tuple(sorted(dtree.by_node(q).items())), int(q.target), float(q.cost))


def run(sim, sc):
    seams.install()
    fam = sc["real"]
    c = sim.client("main", sc["seed"], faults=sc["faults"], rand_mode=sc.get("rand"), durations=dtree.DUR)
    with sim.as_client(c):
        if fam == "bdr":
            X, y = bdr.data(sc)
            clf = bdr.make_clf(sc)
        else:
            D = dtree.Desc(sc)
            X, y = D.X, D.ylab
            clf = dtree.make_clf(sc, D, D.build())
    hists = []
    st = {}

    def sp_of(obj):
        for lv, row in enumerate(clf.subproblems):
            for s, q in enumerate(row):
                if q is obj:
                    return (lv, s)
        raise HarnessError("a subproblem that the classifier does not list")

    def before(name, obj, args):
        e = {"k": KIND[name], "t0": sim.now}
        if e["k"] in ("upd", "gen"):
            e["sp"] = sp_of(obj)
            e["dual"] = token(args[2])
        elif e["k"] == "add":
            e["col"] = column(fam, args[0])
        st["h"].ev.append(e)
        st["open"].append(e)

    def after(name, obj, args, result):
        e = st["open"].pop()
        e["t1"] = sim.now
        if e["k"] == "lp":
            e["dual"] = token(result)
        elif e["k"] == "gen":
            e["cols"] = [column(fam, q) for q in result]
        elif e["k"] == "add":
            e["acc"] = bool(result)
        elif e["k"] == "impr":
            e["n"] = int(bool(result))
        sim.log(e["k"], e.get("sp"), e.get("col"), e.get("acc"), round(sim.now, 9))
        sim.state((e["k"], e.get("sp"), e.get("acc"), e.get("n")))
    c.pre_hook, c.call_hook = before, after
    for fi, f in enumerate(sc["fits"]):
        h = loop.Hist(dict(f, rmp_is_ip=True), None)
        st["h"], st["open"] = h, []
        clf.max_iterations, clf.time_limit = f["max_iterations"], f["time_limit"]
        sim.start = sim.now
        sim.time_faults = [tuple(j) for j in f["jumps"]]
        h.t0 = sim.now
        with sim.as_client(c):
            try:
                clf.fit(X, y)
                h.outcome = "ok"
            except Exception as e:
                if not any(k.split(":")[-1] in core.EXC for k in sim.fired):
                    raise
                h.outcome = "exc"
            except core.InjectedInterrupt:
                h.outcome = "exc"
        h.t1 = sim.now
        h.levels = [len(r) for r in clf.subproblems]
        h.fit["improved"] = [e["n"] for e in h.ev if e["k"] == "impr" and "n" in e] or [0]
        h.attrs = loop.snapshot(clf) if h.outcome == "ok" else {}
        sim.log("fit", fi, h.outcome, round(sim.now, 9), sorted((k, repr(v)) for k, v in h.attrs.items()))
        hists.append(h)
        if len(h.ev) > 6:
            sim.probe("nontrivial")
        sim.probe("real_fits:" + fam)
        loop.classify(sim, h)
    c.pre_hook = c.call_hook = None
    return clf, hists
