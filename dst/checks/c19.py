"""Row preprocessing."""
from .. import exp

ID = "C19"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = ("Scenario: random data, splits and candidate splits (often with many similar rows), a time budget, a cost per clock read and steps of the clock, so that the merge is cut off anywhere; in a quarter of the runs a tree learner is then trained on the rows; drawn from VERIF_SEED. Non-trivial: rows were merged or a fault fired.")
generate = exp.gen_pre
shrink = exp.shrink_pre
execute = exp.execute_pre
REAL_COMPONENTS = "examples/dtree_experiment.py, whole library under /repo; OR-Tools solvers (single-threaded); scikit-learn; pandas; numpy"
STUBS = "clock, random module, solver answers where a fault fired"
