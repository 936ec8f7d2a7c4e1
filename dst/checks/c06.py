"""Aborted fits."""
from .. import life

ID = "C06"
RUNS = {"quick": 1200, "thorough": 60000}
RULE = ("Scenario: one rule or tree learner, one or two data sets, a history of fits of which some are aborted by an exception raised at a chosen line of the library (anywhere, in a chosen function, or near the end) or by a solver call and some refused for data that cannot be trained on, then a fit that completes; all drawn from VERIF_SEED. Each fit is compared with a fresh estimator's. Non-trivial: an abort or solver behaviour fired or a column was added.")
generate = life.gen_abort_history
shrink = life.shrink_abort
execute = life.execute_abort
