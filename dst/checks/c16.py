"""Decision trees: cutting planes."""
from .. import dtree

ID = "C16"
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("Scenario: random data set, splits, candidate splits, initial paths, merged rows, pricing methods, cut options, limits, "
        "plus a random list of solver behaviours per call, all drawn from VERIF_SEED. Non-trivial: a behaviour fired or a column was added.")
ASSUMPTIONS = ["replaced solver answers are legal: verified optimal duals, feasible incumbents, solution streams the solver could produce",
               "the initial paths form a tree and carry correct costs"]
KINDS = {"lp": dtree.LP_KINDS, "sp": dtree.SP_KINDS, "cp": dtree.CP_KINDS, "cut": dtree.CP_KINDS, "ip": ["alt_opt"]}


def generate(rng, i, tier):
    return dtree.gen(rng, KINDS, cuts=rng.random() < 0.85, direct=0.75, frac=0.25)


shrink = dtree.shrink


def execute(sim, sc):
    r = dtree.go(sim, sc, hook=dtree.cut_hook)
    dtree.check_cut_result(r, sim)
