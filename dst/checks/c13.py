"""Decision trees: check_columns."""
from .. import dtree

ID = "C13"
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("Scenario: random data set, splits, candidate splits, initial paths, merged rows, pricing methods, cut options, limits, "
        "plus a random list of solver behaviours per call, all drawn from VERIF_SEED. Non-trivial: a behaviour fired or a column was added.")
ASSUMPTIONS = ["replaced solver answers are legal: verified optimal duals, feasible incumbents, solution streams the solver could produce",
               "the initial paths form a tree and carry correct costs"]
KINDS = {"lp": dtree.LP_KINDS + ["noise"], "sp": dtree.SP_KINDS + ["noise"], "cp": dtree.CP_KINDS + ["unknown"],
         "cut": dtree.CP_KINDS, "ip": ["alt_opt", "suboptimal"]}


def generate(rng, i, tier):
    return dtree.gen(rng, KINDS, direct=0.3)


shrink = dtree.shrink


def execute(sim, sc):
    r = dtree.go(sim, sc)
    dtree.check_columns(r, sim)
