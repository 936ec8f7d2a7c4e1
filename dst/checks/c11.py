"""Boolean decision rules: check_optimum."""
from .. import bdr

ID = "C11"
RUNS = {"quick": 3000, "thorough": 200000}
RULE = ("Scenario: random binary data, labels, budget, penalty, variant (exact, heuristic, custom levels) and solvers, plus a "
        "random list of solver behaviours per call, all drawn from VERIF_SEED. Non-trivial: a behaviour fired or a column was added.")
ASSUMPTIONS = ["replaced solver answers are legal: verified optimal duals, feasible incumbents, values within 1e-7 of integers"]
KINDS = {"lp": bdr.LP_KINDS, "sp": ["alt_opt"], "ip": ["alt_opt"]}


def generate(rng, i, tier):
    return bdr.gen(rng, KINDS)


shrink = bdr.shrink


def execute(sim, sc):
    r = bdr.run(sim, sc)
    bdr.check_optimum(r, sim)
