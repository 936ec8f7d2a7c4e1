"""Failing solver calls."""
from .. import fail

ID = "C17"
RUNS = {"quick": 5000, "thorough": 200000}
RULE = ("Scenario: a rule or tree learner run as in C09/C12 with one to four failing solver calls (status or exception) at random "
        "positions, drawn from VERIF_SEED. Non-trivial: a failure fired.")
ASSUMPTIONS = ["a failed solve leaves all variable values and duals at 0, as the real interface does"]
generate = fail.gen
shrink = fail.shrink
execute = fail.execute
