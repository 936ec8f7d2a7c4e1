"""Solver tuning."""
from .. import tuner

ID = "C18"
RUNS = {"quick": 5000, "thorough": 200000}
RULE = ("Scenario: one to three subproblems with scripted CP-SAT outcomes (status, duration, objective, bound, or an exception; in "
        "convergence scenarios the outcome depends on the value of one parameter), solved in a random order (in some scenarios by several threads whose solves overlap), or a whole tree training "
        "with simulated CP-SAT answers; drawn from VERIF_SEED. Non-trivial: a scripted outcome was used.")
ASSUMPTIONS = ["a FEASIBLE answer has an objective different from its bound",
               "the tuner's own statistics are read through Parameter.print_stats"]
generate = tuner.gen
shrink = tuner.shrink
execute = tuner.execute
