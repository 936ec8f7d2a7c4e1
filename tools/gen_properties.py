"""Writes /verif/properties.jsonl (the list is kept here so that it can be edited as Python)."""
import json, os
G = "col_gen_estimator/_col_gen_classifier.py"
B = "col_gen_estimator/_bdr_classifier.py"
D = "col_gen_estimator/_dtree_classifier.py"
T = "col_gen_estimator/_parameter_tuner.py"
E = "examples/dtree_experiment.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": hook}})


prop("C01", "Subproblem levels are served in order, with the duals of the current RMP",
     "In every iteration of the column generation loop the master LP is solved once, every subproblem is then updated once with "
     "the dual costs that solve returned, and only after that are subproblems asked for columns, with those same duals, in increasing level order. "
     "A level is asked only if every subproblem of all lower levels was asked in that iteration and the master accepted no column from them; "
     "the columns a subproblem returns are offered to the master exactly once each, in order, before anything else happens.",
     ["schedules", "histories", "configurations"],
     "Any number of levels and subproblems per level, any pattern of which subproblem yields which columns when, and any pattern of columns the master accepts or rejects.",
     "The tests run one or two fixed data sets whose loop takes two or three iterations; they never see a level with several members, rejected columns or long alternations.",
     [G], [("ColGenClassifier.fit loop", G)],
     ["call sequence on master_problem / subproblems (solve_rmp, update_subproblem, generate_columns, add_column)"])
prop("C02", "The optimality flag is a true certificate",
     "After fit, mp_optimal_ is true exactly when the loop stopped because, against the last master LP solution, every subproblem of every level was asked and the master accepted no column. "
     "A run stopped by the iteration limit or by the time limit never claims optimality, and time_limit_reached_ is true exactly when the time limit stopped it.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "Any interleaving of productive, empty and rejected pricing rounds, any point at which either limit strikes, any number of levels.",
     "Tests only look at runs that converge in two or three iterations; no test has a time limit, and none stops inside a pricing level.",
     [G], [("rmp_updated / time_limit_reached_ handling", G)], ["mp_optimal_", "time_limit_reached_"])
prop("C03", "A positive time limit bounds training, and training still yields a model",
     "With a positive time limit, no subproblem is asked for columns once more than that many seconds have elapsed since fit began, and at most one master LP solve starts after that moment, whatever the subproblems produce and however the system's wall clock is stepped. "
     "The run then still solves the final integer master and returns a fitted estimator, and time_elapsed_ is the true elapsed duration. A non-positive limit never stops a run.",
     ["schedules", "fault_sequences", "configurations"],
     "Any durations of master, update and pricing steps (stalls included), any wall-clock steps forwards or backwards at any moment, endless column supply.",
     "No test sets a time limit or controls a clock; real time cannot be made to run out at a chosen point or to jump.",
     [G, D], [("time() checks before each generate_columns", G)], ["time_limit_reached_", "time_elapsed_", "call times on the simulated clock"])
prop("C04", "Iterations are bounded, counted, and the loop always terminates",
     "With a positive max_iterations the master LP is solved at most that many times; with a negative one the loop ends at the first iteration in which no column is accepted. "
     "iter_ and performed_iter_ equal the number of iterations performed, and num_improving_iter_ the number of iterations after which the master reported an improved objective.",
     ["schedules", "histories", "configurations"],
     "Any sequence of productive and unproductive rounds and any iteration limit.",
     "Tests check iter_ for two or three iterations and never look at performed_iter_ or num_improving_iter_.",
     [G], [("iteration counters in fit", G)], ["iter_", "performed_iter_", "num_improving_iter_"])
prop("C05", "Column and time accounting is conserved",
     "After fit, num_col_added_sp_[level][i] equals the number of columns of that subproblem the master accepted. "
     "time_spent_sp_[level][i], time_spent_master_, time_add_col_ and time_spent_master_ip_ equal the durations actually spent in updating and pricing that subproblem, solving the master LP, adding columns and solving the integer master, and time_elapsed_ the whole duration of fit.",
     ["schedules", "histories", "fault_sequences"],
     "Any durations per step, any acceptance pattern, any stop reason.",
     "Real durations are not reproducible, so no test can state the expected times; column counts are tested for a single column.",
     [G], [("time and column counters in fit", G)], ["num_col_added_sp_", "time_spent_sp_", "time_spent_master_", "time_add_col_", "time_spent_master_ip_", "time_elapsed_"])
prop("C06", "An aborted fit never leaves a usable but wrong model",
     "If fit is aborted by an exception or interrupt at any instant, predict afterwards either refuses or answers exactly as the last successfully completed fit did; it never mixes old and new state. "
     "A later fit that completes gives the same predictions, columns and certificate as the same fit on a freshly constructed estimator.",
     ["crash_points", "histories", "fault_sequences"],
     "Every instant of fit (any executed line of the package, any solver call), any earlier history of fits, then any data for the next fit.",
     "Tests never interrupt a fit, and never use an estimator again after an exception.",
     [G, B, D], [("is_fitted_, label_encoder_ and generated_ handling", G), ("generate_mp guards", B)], ["predict after abort", "predict after recovery"])
prop("C07", "Fitting is a function of parameters and data, not of history",
     "Whatever sequence of fit, predict, set_params, get_params and clone calls came before, fit(X, y) leaves the estimator with the same predictions, selected columns, iteration count and certificate as a newly constructed estimator with the same current parameters fitted on the same data under the same solver behaviour. "
     "predict never changes the model, and fitting a clone or the original leaves the other untouched.",
     ["histories", "configurations", "inputs"],
     "Any sequence of estimator operations on any data sets, including different shapes, label sets and parameter changes between fits.",
     "Every test fits each estimator once; scikit-learn's estimator checks are skipped for these estimators because of their tags.",
     [G, B, D], [("generate_mp / generated_ guards", B), ("problem construction in __init__", D)], ["predict", "master_problem solution", "iter_", "mp_optimal_"])
prop("C08", "Estimators sharing a problem description do not disturb each other",
     "Several estimators built from the same problem description objects (initial paths, leaves, nodes, splits, data rows) and fitted in any interleaving, sequential or concurrent, each end with exactly the predictions, columns and certificate they have when trained alone under the same solver behaviour. "
     "Training does not change the description's paths, candidate splits or row weights.",
     ["schedules", "histories"],
     "Any interleaving, at every line of the package and every solver call, of two or three training runs.",
     "Tests build one estimator per process step and never share descriptions; thread interleavings cannot be chosen by a unit test.",
     [D, B, G], [("aliasing of initial_paths, splits and data_rows", D)], ["predict", "selected_paths", "initial_paths of the description"])
prop("C09", "A fitted decision rule respects its budget and means what predict says",
     "Whatever feasible answers the solvers give, the fitted rule's total complexity (sum of clause length plus one) is at most C, every clause uses distinct existing features, and predict labels a row with the second class exactly when the row has all features of some clause of the rule, the first otherwise, in the original label values. "
     "The rule's training cost never exceeds the objective the integer solver reported.",
     ["schedules", "fault_sequences", "inputs"],
     "Any legal solver behaviour (alternative optima and duals, suboptimal incumbents, values within integrality tolerance, any solver order) on any binary data and labels; including rows not seen in training.",
     "Tests use one 4x4 data set with labels 0/1, the solver's own deterministic answer and training rows only.",
     [B], [("solve_ip explanation extraction", B), ("predict", B)], ["explanation", "predict"])
prop("C10", "Rule pricing only returns new, improving, admissible clauses",
     "Every clause a pricing step returns has a reduced cost below zero under the duals it was given (recomputed from data and duals), consists of distinct existing features in number at most the allowed clause size, and is not already in the master. "
     "Whenever exact pricing with an optimal solver answer returns nothing, no admissible clause has a reduced cost noticeably below zero; enumerative pricing returns every new clause up to its size with a reduced cost noticeably below zero.",
     ["schedules", "fault_sequences", "inputs"],
     "Any sequence of duals an LP solver may legally return over a training run, and any legal MIP answer (optimal, suboptimal incumbent, values within integrality tolerance).",
     "Tests price two hand-made dual vectors on one data set with exact solver answers.",
     [B], [("BDRSubProblem.generate_columns", B), ("BDRHeuristic.generate_columns", B)], ["return values of generate_columns"])
prop("C11", "Rule learning converges to the true optimum of its master problem",
     "When the solvers answer correctly and a rule learner reports optimality, its final master LP value equals the LP optimum over all admissible clauses. "
     "The selected rule is the cheapest within budget among all generated clauses, so it never costs more on the training data than predicting the negative class everywhere, and the loop needs at most as many iterations as there are admissible clauses plus two.",
     ["schedules", "inputs", "histories"],
     "Any choice among optimal dual solutions and alternative optimal pricing answers in every iteration, any data, budget C and penalty p, with or without the heuristic.",
     "Tests only see one data set on which one clause suffices; they do not compare with the optimum and cannot vary the solver's choice among equal answers.",
     [B, G], [("RMP and pricing models", B)], ["objective values at the solver boundary", "mp_optimal_", "explanation"])
prop("C12", "A fitted decision tree is one consistent tree over the known classes",
     "Whatever feasible answers the solvers give and whenever training stops, the selected paths form one complete tree: exactly one path per leaf and one split per node, chosen from that node's candidates. "
     "Every row, seen or unseen, therefore follows exactly one selected path, and predict returns that path's class, always one of the classes seen in fit.",
     ["schedules", "fault_sequences", "inputs"],
     "Any legal solver behaviour, pricing randomness and stopping point; any problem description whose initial paths form a tree; any row to predict.",
     "Tests predict eight training rows of one data set on one solver answer, for which every leaf holds training rows.",
     [D], [("consistency and leaf constraints in generate_mp/add_column", D), ("target choice in pricing", D), ("predict", D)], ["selected_paths", "predict"])
prop("C13", "Tree columns carry their true value; the objective is training accuracy",
     "Every path that enters the master, from any pricing method, has the leaf's own nodes, one candidate split per node, a known class, and a cost equal to the number of training rows that follow it and have its class. "
     "The integer objective therefore equals the number of training rows the fitted tree classifies correctly.",
     ["schedules", "fault_sequences", "inputs"],
     "Any pricing method, any intermediate or suboptimal solver solution, any random choices, with or without preprocessed (merged, weighted) rows.",
     "Tests check the cost of a single generated path on one data set.",
     [D], [("path.cost computation in the pricing classes", D)], ["columns passed to add_column", "objective at the solver boundary", "score"])
prop("C14", "Tree pricing only returns improving columns, correctly entered into the master",
     "Every path a pricing method returns has a positive reduced cost under the duals it was given, recomputed from the data, duals and cuts. "
     "As entered in the master LP, cuts included, its reduced cost is the same, so after any iteration every added column was improving for the duals that priced it.",
     ["schedules", "fault_sequences", "histories"],
     "Any legal duals, any sequence of added cuts and columns, any intermediate or suboptimal solver solution, any random choices.",
     "Tests price one leaf with hand-made duals and no cuts; pricing with cuts is never executed by a test.",
     [D], [("get_reduced_cost, PathGenerator, update_objective, add_cut_rows", D), ("add_column", D)], ["generate_columns results", "LP model at the solver boundary"])
prop("C15", "Tree learning converges to the LP bound and never loses the initial tree",
     "When the solvers answer correctly and a tree learner reports optimality, its final master LP value equals the LP optimum over all paths of the formulation (without cutting planes), hence is never below the accuracy of the best tree over the candidate splits. "
     "Exact pricing that is answered optimally returns nothing for a leaf only if no path of that leaf has a noticeably positive reduced cost under the duals it was given, cuts included. "
     "At any stop, however caused, the fitted tree is at least as accurate on the training data as the best tree formable from the initial paths, and without cutting planes the master LP value never decreases from one iteration to the next; num_improving_iter_ counts the iterations in which it rose.",
     ["schedules", "fault_sequences", "histories"],
     "Any choice among optimal duals, any heuristic randomness, any iteration or time stop, suboptimal pricing answers.",
     "Tests have one two-level example that needs a single column and compare with nothing.",
     [D, G], [("RMP/pricing models for trees", D)], ["objective values at the solver boundary", "score on training data"])
prop("C16", "Cutting planes never remove or admit a tree",
     "With row constraints separated lazily and/or generated cuts, in any rounds, the integer master over the columns present has as optimum exactly the most accurate consistent tree that these columns can form. "
     "Constraints that are added late hold for every consistent tree, also with columns added after them, and no cut is added that every consistent tree could violate.",
     ["schedules", "histories", "configurations"],
     "Any order of cut rounds and column additions, any set of separated rows and generated cuts, any LP solution the separation sees.",
     "No test runs the ten iterations needed before cuts are separated, and none enables cut generation.",
     [D], [("add_beta_cuts, add_cuts, get_satisfied_cuts", D)], ["integer objective at the solver boundary", "selected_paths"])
prop("C17", "A solver failure is never turned into a silently wrong result",
     "If a solver reports a failure (abnormal, not solved, spurious infeasible or unknown) or raises at any solve, fit either raises and leaves no newly fitted model, or returns a model that is valid for its class (budget respected, consistent tree, known classes) and no worse than its starting point. "
     "In particular a failed master LP never leads to a claim of optimality, and a failed integer master never leads to a fitted estimator.",
     ["fault_sequences", "crash_points"],
     "Any solver call of a run failing in any of the ways its interface documents, alone or repeatedly.",
     "Real solvers do not fail on the tests' tiny models, so no test reaches any failure branch.",
     [B, D, G], [("status checks after Solve", B), ("status checks after Solve", D)], ["outcome of fit", "is_fitted_", "mp_optimal_"])
prop("C18", "Solver tuning credits the right value and settles on a clearly better one",
     "Every CP solve runs with one registered value for each tuned parameter and with the requested time limit; its time and gap are recorded once, with the gap between 0 and 1, and credited to exactly the values used. "
     "Each value is tried at least four times before any is dismissed, and once one value of a parameter is consistently clearly better, the tuner uses only it within a bounded number of solves; tuners of different subproblems never influence each other.",
     ["histories", "schedules", "fault_sequences"],
     "Any history of solve durations, statuses, objectives and bounds, any interleaving of several subproblems' solves.",
     "Tests adjust scores by hand for a dozen steps and never drive the tuner through solves with chosen durations and outcomes.",
     [G, T], [("BaseSubproblem.solve_model", G), ("Parameter.get_best_value / adjust_score", T)], ["parameters at the solver boundary", "solve_times_", "gaps_"])
prop("C19", "Row preprocessing is value-preserving wherever its time budget cuts it off",
     "Wherever its time budget stops the merging of similar rows, for every path over the candidate splits and every class the weights of the rows kept for pricing that follow the path equal the number of original rows that do. "
     "Every row whose master constraint was dropped reaches at most two leaves or is, for every path, interchangeable with a row whose constraint is kept, and rows dropped from pricing are dropped from the master as well. The rows that a master prepares itself, when it is given none, obey the same, and in every master the constraints that are kept let at most one of the columns that a row with more than two reachable leaves follows be selected.",
     ["crash_points", "fault_sequences", "inputs"],
     "Any cut-off instant of the quadratic merge (the clock may also be stepped), any data and candidate splits.",
     "The experiment code has no tests at all, and a real clock cannot be made to cut the loop at a chosen pair of rows.",
     [E, D], [("preprocess", E)], ["data rows returned by preprocess", "paths' weighted costs"])
prop("C20", "An experiment keeps its time budget and reports exactly what it trained",
     "An experiment run that returns normally has written a results file with one complete row for the reference tree and one for the trained classifier, whose entries equal the trained model's accuracies and statistics; if reading data or writing results fails, the run fails and does not return normally. "
     "Training gets only what preprocessing left of the time limit, so once the limit has elapsed no further pricing starts, and every initial path uses only splits that its nodes offer.",
     ["fault_sequences", "crash_points", "schedules", "inputs"],
     "Any speed of the clock relative to each step, disk errors at any read or write, any data set.",
     "No test runs the experiment driver; its budget depends on the wall clock and its files on the disk.",
     [E], [("main", E), ("reduce_splits, get_path_for_leaf", E)], ["results CSV", "calls into DTreeClassifier", "simulated clock"])
prop("C21", "Tree geometry: leaves and paths list the right ancestors",
     "For every depth and leaf number, the leaf's left and right nodes and a path's nodes are exactly the ancestors of that leaf in the complete binary tree, split by the branch taken.",
     ["inputs"], "Every depth and leaf number.",
     "Tests enumerate depth 2 only.",
     [D], [("Leaf.create_leaf, Path.set_leaf", D)], ["left_nodes", "right_nodes", "node_ids"])
prop("C22", "Running statistics equal the textbook mean and variance",
     "After any sequence of values pushed, also after a clear, mean, variance and standard deviation equal those of the values pushed since the last clear, up to rounding.",
     ["inputs"], "Every sequence of numbers.",
     "Tests push two values.",
     [T], [("RunningStat.push", T)], ["mean", "variance", "standard_deviation"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
