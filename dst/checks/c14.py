"""Decision trees: pricing_hook."""
from .. import dtree

ID = "C14"
RUNS = {"quick": 2400, "thorough": 100000}
RULE = ("Scenario: random data set, splits, candidate splits, initial paths, merged rows, pricing methods, cut options, limits, "
        "plus a random list of solver behaviours per call, all drawn from VERIF_SEED. Non-trivial: a behaviour fired or a column was added.")
ASSUMPTIONS = ["replaced solver answers are legal: verified optimal duals, feasible incumbents, solution streams the solver could produce",
               "the initial paths form a tree and carry correct costs"]
KINDS = {"lp": dtree.LP_KINDS, "sp": dtree.SP_KINDS + ["noise"], "cp": dtree.CP_KINDS, "cut": dtree.CP_KINDS, "ip": []}


def generate(rng, i, tier):
    return dtree.gen(rng, KINDS, cuts=rng.random() < 0.8, direct=0.6, frac=0.2)


shrink = dtree.shrink


def execute(sim, sc):
    dtree.go(sim, sc, hook=dtree.pricing_hook)
