"""Decision trees: LP bound and initial tree."""
from .. import dtree

ID = "C15"
RUNS = {"quick": 2600, "thorough": 100000}
RULE = ("Scenario: random data set, splits, candidate splits, initial paths, merged rows, pricing methods, cut options, limits, "
        "plus a random list of solver behaviours per call, all drawn from VERIF_SEED. Non-trivial: a behaviour fired or a column was added.")
ASSUMPTIONS = ["replaced solver answers are legal: verified optimal duals, feasible incumbents, solution streams the solver could produce",
               "the initial paths form a tree and carry correct costs"]
KINDS = {"lp": dtree.LP_KINDS, "sp": ["alt_opt"], "cp": ["stream", "final_only", "feasible"], "cut": dtree.CP_KINDS, "ip": ["alt_opt"]}


def generate(rng, i, tier):
    return dtree.gen(rng, KINDS, cuts=rng.random() < 0.4, direct=0.45, frac=0.35)


shrink = dtree.shrink


def execute(sim, sc):
    r = dtree.go(sim, sc, hook=dtree.exact_hook)
    if "ops" in sc:
        dtree.check_start(r, sim)
    else:
        dtree.check_bound(r, sim)
