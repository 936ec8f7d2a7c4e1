"""Level order and dual freshness."""
from .. import loop

ID = "C01"
RUNS = {"quick": 20000, "thorough": 300000}
RULE = ("Scenario: random levels and subproblems, a random script of produced/accepted columns per iteration, random step "
        "durations and stalls, wall-clock jumps, limits, exceptions and repeated fits; one run in eight is a real rule or tree learner with random data, solver behaviours, "
        "failures, stalls and clock jumps; all drawn from VERIF_SEED. "
        "Non-trivial: more than six messages and a fault fired or several iterations.")
REAL_COMPONENTS = "ColGenClassifier.fit, scikit-learn validation; in one run of eight the whole rule or tree learner and its solvers"
STUBS = "master problem and subproblems (simulated peers) in seven runs of eight, clocks, random module"
ASSUMPTIONS = ["master and subproblems behave as their base classes document"]


def generate(rng, i, tier):
    return loop.gen(rng, tier, p_time=0.25, jumps=0.1, exc=0.2)


shrink = loop.shrink


def execute(sim, sc):
    clf, hs = loop.run(sim, sc)
    for h in hs:
        loop.check_order(h)
