"""Experiments."""
from .. import exp

ID = "C20"
RUNS = {"quick": 240, "thorough": 12000}
RULE = ("Scenario: random training and test files, options, clock speed and steps, disk errors and solver behaviours; the whole experiment is run in a scratch directory; drawn from VERIF_SEED. Non-trivial: the experiment returned normally or a fault fired.")
generate = exp.gen_exp
shrink = exp.shrink_exp
execute = exp.execute_exp
REAL_COMPONENTS = "examples/dtree_experiment.py, whole library under /repo; OR-Tools solvers (single-threaded); scikit-learn; pandas; numpy"
STUBS = "clock, random module, file operations in the scratch directory where a fault fired, solver answers where a fault fired, CP-SAT solution delivery"
ASSUMPTIONS = ["a lost write that the operating system reports as successful cannot be noticed and is not injected", "scikit-learn and pandas take no simulated time"]
