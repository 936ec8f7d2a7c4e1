"""Shared descriptions."""
from .. import life

ID = "C08"
RUNS = {"quick": 900, "thorough": 30000}
RULE = ("Scenario: two or three learners over one shared description, trained sequentially in a random order or concurrently under a cooperative scheduler that switches at chosen solver calls, messages and library lines; all drawn from VERIF_SEED. Each is compared with training alone. Non-trivial: a switch or solver behaviour fired or a column was added.")
generate = life.gen_shared
shrink = life.shrink_shared
execute = life.execute_shared
ASSUMPTIONS = ["threads switch only at library lines and seam calls; OR-Tools calls are atomic"]
