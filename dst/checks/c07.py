"""Estimator histories."""
from .. import life

ID = "C07"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("Scenario: up to three rule or tree learners and one or two data sets; a history of fit (also with data that cannot be trained on), predict, set_params, get_params, clone and construction drawn from VERIF_SEED, each fit with its own legal solver behaviours and compared with a fresh estimator's. Non-trivial: a solver behaviour fired or a column was added.")
generate = life.gen_history
shrink = life.shrink_history
execute = life.execute_history
ASSUMPTIONS = ["estimators built from caller-owned master and subproblem objects (the generic ColGenClassifier) keep those objects by design and are not part of the histories"]
