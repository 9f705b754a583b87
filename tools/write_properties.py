"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
S = "pySOT/strategy/surrogate_strategy.py"
SRBF = "pySOT/strategy/srbf_strategy.py"
DYC = "pySOT/strategy/dycors_strategy.py"
SOP = "pySOT/strategy/sop_strategy.py"
EI = "pySOT/strategy/ei_strategy.py"
LCB = "pySOT/strategy/lcb_strategy.py"
RND = "pySOT/strategy/random_strategy.py"
CK = "pySOT/controller/controller.py"
SUR = "pySOT/surrogate/surrogate.py"
RBF = "pySOT/surrogate/rbf.py"
ALLS = [S, SRBF, DYC, SOP, EI, LCB]

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "The evaluation budget is never exceeded and is fully used",
     "At every moment the number of completed evaluations plus the number in flight is at most the maximum number of "
     "evaluations the user gave; rejected proposals and failed evaluations do not count. A run ends before that many "
     "evaluations have completed only if completed plus in-flight evaluations had already reached the budget once (an "
     "evaluation then failed), if the user stopped it, or if it converged with restarts disabled.",
     ["schedules", "fault_sequences", "configurations", "histories"],
     "Every strategy, synchronous or asynchronous, with any number of workers, any order of completions, rejections, "
     "failures, worker deaths, restarts, crashes and resumes.",
     "The tests run a handful of fault-free runs to the end and look at the final count; the quantifier is over all "
     "interleavings of proposals, completions and failures, in particular with several evaluations in flight near the end.",
     ALLS + [RND], [("check_termination", S + ":198"), ("propose_action", S + ":254")],
     [("num_evals", "completed evaluations", S), ("pending_evals", "evaluations in flight", S)],
     ["replies to propose_action", "updates of evaluation records"])

prop("C02", "A run always makes progress, ends, and never crashes",
     "Whatever mixture of rejected proposals, failed or killed evaluations, worker deaths and delays a run meets, as long "
     "as some worker keeps working every call into the strategy returns without an exception, whenever nothing is in "
     "flight an evaluation or termination is proposed, and after a bounded number of further completions the run ends. "
     "Termination is proposed only when nothing is in flight.",
     ["schedules", "fault_sequences", "configurations"],
     "All strategies, surrogates, designs, domains (continuous, integer, mixed), objective value types and histories of "
     "values, under serial, threaded and simulated-team controllers with unreliable workers.",
     "The tests use fault-free workers and one or two configurations per strategy, so the reject and abort handlers, the "
     "retry queue, restarts with evaluations in flight and unusual histories of values are rarely or never reached.",
     ALLS + [RND], [("propose_action", S + ":254"), ("on_adapt_aborted", S + ":447"),
                    ("on_initial_aborted", S + ":381"), ("generate_evals", SOP + ":299")],
     [("terminate", "no more proposals", S), ("proposals_pending", "proposals not replied to", S),
      ("batch_queue", "generated points not proposed yet", S)], ["propose_action", "controller.run()"])

prop("C03", "The evaluation history is exactly what was evaluated",
     "At every moment the recorded history (points and values) holds each completed evaluation exactly once with the value "
     "the objective returned, plus the user's known points, and nothing else; the counter of completed evaluations and the "
     "list of finished records agree with it. The record that a run returns is a completed evaluation with the lowest value.",
     ["schedules", "fault_sequences", "histories"],
     "All orders of completion, failures, duplicates of the same point, restarts, intermediate updates of a record, crashes "
     "and resumes.",
     "Tests only look at the best value or the number of rows at the end of a fault-free run.",
     ALLS, [("on_initial_completed", S + ":361"), ("on_adapt_completed", S + ":428"), ("log_completion", S + ":218")],
     [("X, fX", "history over all runs", S), ("fevals", "finished records", S)],
     ["X, fX, num_evals, fevals after every event", "record returned by run()"])

prop("C04", "The set of pending points mirrors the evaluations in flight",
     "At every moment the points the strategy regards as pending are, as a multiset, exactly the points of the evaluations "
     "that were accepted and have not finished, and the count of pending evaluations equals their number. This holds also "
     "when several evaluations in flight have equal coordinates.",
     ["schedules", "fault_sequences", "histories"],
     "All interleavings of acceptance, rejection, intermediate updates, completion, failure and kill, for continuous and "
     "integer domains, across restarts and resumes.",
     "The tests never compare pending points with the evaluations actually in flight; duplicates in flight and failures do "
     "not occur in them.",
     [S, SOP, SRBF], [("remove_pending", S + ":318"), ("on_adapt_accept", S + ":406"), ("on_initial_accepted", S + ":339")],
     [("Xpend", "points in flight", S), ("pending_evals", "their number", S)], ["Xpend, pending_evals after every event"])

prop("C05", "Every proposed point is feasible",
     "Every point proposed for evaluation is a finite vector of the problem's dimension, lies within the bounds, and is "
     "integral in every integer variable. This holds for initial, adaptive, restart and retried points of every strategy.",
     ["inputs", "histories", "configurations", "schedules"],
     "All domains (asymmetric, shifted, wide, small integer ranges), designs, strategies, histories of values and fault "
     "sequences.",
     "Tests check a few final results on one or two domains; points proposed along unusual histories (tiny radius, best "
     "point on the boundary, restarts, retries) are not looked at.",
     ALLS + [RND, "pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py",
             "pySOT/utils.py", "pySOT/experimental_design/slhd.py", "pySOT/experimental_design/lhd.py"],
     [("round_vars", "pySOT/utils.py:68"), ("from_unit_box", "pySOT/utils.py:36")], (), ["arguments of eval proposals"])

prop("C06", "The initial design is evaluated completely, first, and retried",
     "Each run, and each restart, first evaluates every point of its experimental design plus the supplied points without "
     "a value: no adaptively chosen point is proposed while one of them has been neither accepted nor, after a rejection or "
     "failed evaluation, proposed again. A rejected or failed initial point is proposed again until it completes, as long as "
     "budget is left.",
     ["schedules", "fault_sequences", "configurations"],
     "All sequences of rejections and failures (repeated for the same point too), any number of workers, restarts, crashes "
     "and resumes.",
     "In the tests initial evaluations never fail and proposals are never rejected more than trivially.",
     [S, SOP], [("sample_initial", S + ":227"), ("init_proposal", S + ":325"), ("on_initial_rejected", S + ":345"),
                ("on_initial_aborted", S + ":381"), ("propose_action", S + ":254")],
     [("init_queue", "design points waiting", S), ("init_pending", "design points in flight", S), ("phase", "1 or 2", S)],
     ["proposals compared with the generated design"])

prop("C07", "The surrogate holds exactly the data of the current run",
     "At every moment the surrogate's data are exactly the completed evaluations that were started after the latest "
     "(re)start, each once and with its value, plus, until the first restart, the user's known points. Evaluations started "
     "before a restart are kept out of the new surrogate even if they finish later.",
     ["schedules", "fault_sequences", "histories"],
     "All orders of completion around restarts, convergence and step-size changes with evaluations in flight; failures; "
     "resumes from a checkpoint.",
     "No test looks at the surrogate of a running optimization, restarts hardly occur in them, and never with evaluations "
     "in flight.",
     [S, SRBF, SOP, SUR], [("sample_restart", S + ":203"), ("get_ev", S + ":143"), ("on_adapt_completed", S + ":428"),
                           ("add_points", SUR + ":50")],
     [("ev_restart", "number of the first evaluation of this run", S)], ["surrogate.X, surrogate.fX after every event"])

prop("C08", "Synchronous runs work in complete batches",
     "In synchronous mode an adaptive batch is generated only when no evaluation is in flight, and all of its members are "
     "proposed (again, if a proposal was rejected) before any point of a later batch. A new run (restart) starts only when "
     "the whole batch has finished.",
     ["schedules", "fault_sequences", "configurations"],
     "All batch sizes and numbers of workers, all completion orders, rejections, failures and worker deaths within a batch.",
     "Tests run synchronous batches with reliable workers; overlap of batches is not observed by any of them.",
     [S, SRBF, SOP], [("propose_action", S + ":254"), ("adapt_proposal", S + ":392"), ("on_adapt_reject", S + ":412")],
     [("batch_queue", "members waiting", S), ("pending_evals", "members in flight", S)], ["propose_action", "replies"])

prop("C09", "Asynchronous runs never idle a worker without reason",
     "In asynchronous mode, whenever a proposal is requested and the budget is not used up by completed plus in-flight "
     "evaluations, an evaluation is proposed immediately, also right after convergence if restarts are enabled. The only "
     "exceptions are a run that has been stopped, or has converged with restarts disabled, and waits for its last evaluations, and "
     "a SOP run with at least as many evaluations in flight as it has centers.",
     ["schedules", "fault_sequences", "configurations"],
     "All strategies in asynchronous mode, any number of workers, all delays and completion orders (stragglers), rejections "
     "and failures, restarts and resumes.",
     "Tests check that asynchronous runs end, not that a free worker always gets work while slow evaluations are outstanding.",
     [S, SRBF, SOP], [("propose_action", S + ":254"), ("generate_evals", SOP + ":299")],
     [("centers", "centers and the points they wait for", SOP)], ["propose_action returning nothing"])

prop("C10", "A crash at any instant leaves a complete checkpoint",
     "Once a run has saved a checkpoint, the checkpoint file exists, can be loaded and is a complete snapshot of a state "
     "the run really was in, no matter at which instant the process is killed, the machine loses power, a write is "
     "short, or the disk reports an error or is full while the next checkpoint is written. A failed save leaves the "
     "previous checkpoint intact.",
     ["crash_points", "fault_sequences"],
     "Every system call of every save, partially executed writes, loss of any data and directory updates that were not "
     "synced, any checkpoint path (relative, absolute, in a directory).",
     "Tests interrupt a run between evaluations at most; no test crashes inside a save or loses unsynced data.",
     [CK, S], [("CheckpointController._save", CK), ("SurrogateBaseStrategy.save", S + ":167")], (),
     ["content of the disk after a crash"])

prop("C11", "Every finished evaluation is checkpointed before anything else starts",
     "With a checkpoint controller, as soon as an evaluation has finished (completed, failed or been killed) and the "
     "strategy has taken it into account, the checkpoint file on disk holds that state: a process killed right after keeps "
     "all finished evaluations, none is lost or repeated.",
     ["crash_points", "schedules", "histories"],
     "All histories of finished evaluations and all crash points between simulator events, for each kind of controller.",
     "Tests resume from checkpoints but do not compare the checkpoint's content with what had finished when it was written.",
     [CK, S], [("CheckpointController.on_new_feval", CK), ("CheckpointController._save", CK)], (),
     ["checkpoint content after every finished evaluation"])

prop("C12", "A resumed run continues the interrupted one",
     "Resuming from a checkpoint restores all evaluations finished by then; evaluations that were in flight are no longer "
     "regarded as pending, initial points among them are evaluated again, and the run then goes on under all the guarantees "
     "of an uninterrupted run until the total budget has completed. Crashes and resumes may be repeated any number of times.",
     ["crash_points", "schedules", "fault_sequences", "histories"],
     "Every crash point (in the initial phase, in the adaptive phase, with a stopped or almost finished run, after a "
     "restart), repeated crashes, different controllers and numbers of workers after the crash.",
     "Tests kill one run once at a fixed moment and check that the resumed one ends with the right number of evaluations.",
     [CK, S, SOP], [("resume", S + ":186"), ("SOPStrategy.resume", SOP + ":286"), ("CheckpointController.resume", CK)],
     [("init_pending", "initial points in flight", S)], ["strategy after resume()", "proposals after resume()"])

prop("C13", "Starting never destroys a checkpoint; resuming needs one",
     "Starting a checkpointed run whose file already exists raises an error, evaluates nothing and leaves every file as it "
     "was, whatever the file contains. Resuming without a checkpoint file raises an error, evaluates nothing and creates "
     "nothing.",
     ["crash_points", "inputs"],
     "Files left by runs that died at any point, by finished runs, by other programs, empty files, leftovers of an "
     "interrupted save; repeated attempts.",
     "One test covers one existing file; what is left after a crash at an arbitrary point is not covered.",
     [CK], [("CheckpointController.run", CK), ("CheckpointController.resume", CK)], (),
     ["exception, files and evaluations after run() / resume()"])

prop("C14", "A run depends only on numpy's seed and the order of events",
     "Two runs in the same configuration, with numpy's global generator seeded alike and the same sequence of replies and "
     "completions, propose identical points in the same order. This also holds between a run with checkpointing and one "
     "without it.",
     ["schedules", "configurations", "histories"],
     "All strategies, designs and surrogates; any schedule and fault sequence, replayed identically.",
     "No test repeats a run; hidden sources of randomness or saving with side effects go unnoticed.",
     ALLS + [RND, CK, "pySOT/experimental_design/lhd.py", "pySOT/experimental_design/slhd.py", "pySOT/utils.py"],
     [("generate_points", "pySOT/experimental_design/lhd.py:33"), ("save", S + ":167")], (), ["sequence of proposals"])

prop("C15", "SRBF and DYCORS adapt the sampling radius by the documented rule",
     "The sampling radius starts at 0.2 and changes only by the rule: an adaptive step (asynchronous: one completed "
     "evaluation, synchronous: a batch judged by its best value) is a success if it is the run's first or improves the best "
     "adaptive value of the run by more than 0.1 percent; three successes in a row double the radius up to 0.2, a tolerance "
     "of failures in a row (max(d, 4) evaluations, rounded up to whole batches) halves it, and evaluations started before the latest "
     "change are ignored. The run is converged, and restarted if enabled, exactly when the radius has come down to 0.2/64 or "
     "four tolerances of steps in a row brought no success; a restart resets all this.",
     ["histories", "schedules", "fault_sequences"],
     "All histories of values (improving, stagnating, mixed, failed) and all completion orders around radius changes.",
     "Tests run a few dozen evaluations on one function; sequences that grow the radius again, converge by either criterion "
     "or change it with evaluations in flight are not examined.",
     [SRBF, DYC], [("adjust_step", SRBF + ":196"), ("on_adapt_completed", SRBF + ":150")],
     [("sampling_radius", "step size", SRBF), ("status", "streak", SRBF), ("failcount", "failed steps", SRBF)],
     ["sampling radius after every event", "restarts"])

prop("C16", "EI and LCB keep a minimum distance to finished and pending points",
     "Every adaptive point proposed by the EI and LCB strategies is at least the minimum distance (the user's, or 0.1 percent of "
     "the domain's diagonal) away from every finished evaluation of the current run and from every pending point, in the "
     "same batch or in flight. It is assumed that the evaluated values are not all equal.",
     ["histories", "schedules"],
     "All numbers of workers and batch sizes, all completion orders and failures, given that duplicates would waste "
     "evaluations and make the Gaussian process singular.",
     "Tests do not measure distances between points in flight.",
     [EI, LCB, "pySOT/auxiliary_problems/ei_ga.py", "pySOT/auxiliary_problems/lcb_ga.py",
      "pySOT/auxiliary_problems/ei_merit.py", "pySOT/auxiliary_problems/lcb_merit.py"],
     [("ei_merit", "pySOT/auxiliary_problems/ei_merit.py:6"), ("lcb_merit", "pySOT/auxiliary_problems/lcb_merit.py:5")], (),
     ["proposed points against finished and pending ones"])

prop("C17", "Supplied points are used: known values kept, unknown points evaluated once",
     "Points the user supplies with a finite value are part of the history and, until the first restart, of the surrogate, "
     "and are not evaluated again; points supplied with a missing or non-finite value are evaluated as part of the initial design "
     "and not again after they completed. The user's arrays are not modified.",
     ["inputs", "schedules", "fault_sequences"],
     "Any number and order of known and unknown points, all encodings of 'unknown' (nan, infinities, no values at all), "
     "rejections and failures of their evaluations, crashes and resumes.",
     "Tests supply one fixed set of points in a fault-free run and look at the end result.",
     [S], [("sample_initial", S + ":227"), ("__init__", S + ":82")], (), ["history, surrogate and proposals"])

prop("C18", "A surrogate depends only on its data, not on how they were added",
     "After any sequence of added points (single or in batches), predictions in between and resets, a surrogate's "
     "predictions and its stored data equal those of a fresh surrogate given the same points at once; interpolating surrogates "
     "without output transformation reproduce the data, and points passed in are not modified. Predictions, and the standard deviations "
     "of a Gaussian process, are those of the model the class stands for (interpolation system, Gaussian process, ridge regression), "
     "computed from these data, however often and in whatever order points are asked for. The derivative an RBF interpolant "
     "reports is that of its predictions. A surrogate saved and loaded, or copied, in between behaves the same.",
     ["histories"],
     "All histories of additions, predictions, resets and save/load, for every kernel, tail and output transformation, with "
     "growing storage.",
     "Tests add all points once or twice in a fixed pattern and compare with the function, not with a fresh fit.",
     [SUR, RBF, "pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py"],
     [("RBFInterpolant._fit", RBF + ":97"), ("add_points", SUR + ":50"), ("reset", RBF + ":89")],
     [("updated", "fit is current", SUR), ("L, U, piv", "incremental factorization", RBF)], ["predict"])

prop("C19", "Optimizations in one process do not influence each other",
     "Several optimization runs whose steps are interleaved in one process, each with its own random stream, behave as each "
     "would alone: same proposals, same history. This includes runs that share the problem object, the supplied points, the experimental design or the surrogates' kernel and tail.",
     ["schedules", "configurations"],
     "All interleavings of two or three runs of any strategies.",
     "Tests run one optimization at a time.",
     ALLS + [SUR, RBF], [("instance state set up in __init__", S + ":82")], (), ["sequence of proposals of each run"])

prop("C20", "Each adaptive point is the best candidate of the weighted merit",
     "Each adaptive point of SRBF and DYCORS is the candidate with the best weighted sum of scaled surrogate value and "
     "scaled distance to all evaluated and pending points of the current run and to the batch's earlier members, "
     "excluding candidates closer than the tolerance when others exist; each point of SOP is the candidate of its centre with the "
     "lowest prediction. The weights of SRBF and DYCORS are used "
     "in the given order, cycling without skipping or repeating, over the whole run.",
     ["histories", "schedules"],
     "All histories, batch sizes and weights, with evaluations in flight and rejected proposals.",
     "One test calls the merit function once with nothing pending; the cycling and the pending points in a running "
     "optimization are not covered.",
     [SRBF, DYC, "pySOT/auxiliary_problems/candidate_srbf.py"],
     [("weighted_distance_merit", "pySOT/auxiliary_problems/candidate_srbf.py:8"), ("get_weights", SRBF + ":170")],
     [("next_weight", "position in the cycle", SRBF)], ["candidates given to the surrogate", "proposed points"])

prop("C21", "A stop request is honoured",
     "After the user sets the strategy's terminate flag, no further evaluation is proposed, not even one that was waiting "
     "or had been rejected; evaluations in flight are still recorded when they finish, and then termination is proposed. A stopped run "
     "that has a checkpoint can be resumed and then continues as if it had not been stopped.",
     ["schedules", "fault_sequences"],
     "Stop requests at every point of a run: in the initial phase, within a batch, with rejected proposals waiting, just "
     "before a restart.",
     "No test sets the flag.",
     [S], [("propose_action", S + ":254"), ("check_termination", S + ":198")],
     [("terminate", "stop flag", S)], ["propose_action after the request"])

prop("C22", "Candidates are sampled around the right centre with the right radius",
     "The candidates among which SRBF, DYCORS and SOP choose are as many as the user asked for (100 per variable by default), each the centre plus a normal perturbation whose deviation in each "
     "variable is the current sampling radius times the width of the variable's range (at least 1 for integer "
     "variables), confined to the box and, for integer variables, rounded. The centre of SRBF and DYCORS is the best point of the current run, that of SOP the "
     "selected one with its own radius. DYCORS perturbs a random subset of the variables, at "
     "least one, each with a probability that falls from min(20/d, 1) with the logarithm of the adaptive evaluations made, "
     "but not below 1/d; when none would be perturbed, one is, each with the same chance.",
     ["histories", "schedules", "configurations"],
     "Every adaptive proposal of every run: out-of-order completions, restarts, changes of the radius, failures, known "
     "points, batches, any scaling of the domain.",
     "Tests look at final values of fault-free runs; a wrong centre, scale or probability still converges on the test "
     "functions.",
     [SRBF, DYC, SOP, "pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py"],
     [("candidate_srbf", "pySOT/auxiliary_problems/candidate_srbf.py:60"),
      ("candidate_dycors", "pySOT/auxiliary_problems/candidate_dycors.py:8")],
     [("sampling_radius", "radius", SRBF), ("X, fX of the run", "where the centre comes from", S)],
     ["points at which the surrogate is predicted"])

prop("C23", "SOP selects centres by rank and tabu status and learns from results",
     "A new SOP centre is the best evaluated point if it is not in use, or else the next point, ordered by tabu status, "
     "nondominated rank (of value and distance to the nearest neighbour) and value, that is outside the shrinking "
     "radius of the centres selected with it. Whenever the point evaluated for a centre is dominated, the "
     "centre's radius is halved, and its fourth such failure makes it tabu for five rounds and starts it afresh with the initial radius and no "
     "failures. Rejected, failed and lost evaluations count neither as success nor as failure and set the centre free.",
     ["histories", "schedules", "fault_sequences"],
     "All numbers of centres, synchronous and asynchronous, any order of completions, with rejected and failed evaluations.",
     "Tests run SOP twice without faults and check the final value.",
     [SOP, "pySOT/utils.py"], [("update_center_list", SOP + ":439"), ("adjust_memory", SOP + ":353")],
     [("evals", "archive with radius, failures and tabu status", SOP), ("centers", "centres in use", SOP)],
     ["points at which the surrogate is predicted", "proposed points"])

prop("C24", "EI and LCB evaluate the best point they found or restart",
     "Each adaptive point of EI is the point of largest expected improvement over the best value of the current run, and each "
     "of LCB the one of smallest mean minus kappa deviations, among those its search looked at that keep the distance to all "
     "evaluated and pending points. If that point promises less than the tolerance (EI: improvement over the best of the run; LCB: below the best value "
     "of all runs), the point is not proposed and a new run "
     "starts (or none, with restarts disabled); otherwise no restart happens.",
     ["histories", "schedules", "configurations"],
     "Every adaptive proposal of every run, with evaluations in flight, any tolerance and kappa, after restarts and failures.",
     "Tests run each strategy once and check the final value; the tolerance is never reached.",
     [EI, LCB, "pySOT/auxiliary_problems/ei_ga.py", "pySOT/auxiliary_problems/lcb_ga.py"],
     [("ei_ga", "pySOT/auxiliary_problems/ei_ga.py:8"), ("lcb_ga", "pySOT/auxiliary_problems/lcb_ga.py:8")],
     [("converged", "no promising point is left", S)], ["predictions and deviations requested from the surrogate"])

prop("C25", "Every experimental design has its defining structure",
     "The design with which a run, and each restart, begins has exactly the requested number of points, whatever the random "
     "state. In a Latin hypercube design every variable has one point in each of n equal slices of its range; in a symmetric "
     "one every variable takes each of n equidistant levels from bound to bound once and the mirror image of each point is in "
     "the design; a two-factorial one is every corner once (integer variables: after rounding). A restart draws a new Latin "
     "hypercube. With continuous variables and at least 2d points no Latin hypercube design lies in a hyperplane, so that it "
     "determines a linear model.",
     ["histories", "configurations", "inputs"],
     "All domains and sizes, at the start and at every restart, in whatever state the random numbers are by then.",
     "Tests generate a few designs in the unit box; a rare degenerate design ends a run with an exception only for some seeds.",
     ["pySOT/experimental_design/experimental_design.py", "pySOT/experimental_design/lhd.py",
      "pySOT/experimental_design/slhd.py", "pySOT/experimental_design/two_factorial.py"],
     [("_expdes_dist", "pySOT/experimental_design/experimental_design.py:37"),
      ("_slhd", "pySOT/experimental_design/slhd.py:62")],
     [("num_pts", "size of the design", "pySOT/experimental_design/experimental_design.py")], ["design handed to a strategy"])

prop("C26", "Random search evaluates all of one uniform sample",
     "RandomStrategy draws max_evals independent points, uniform in the box (integer variables rounded), and evaluates exactly these: "
     "a point whose proposal is rejected or whose evaluation fails is tried again, also if that happens after all others have been "
     "proposed, no point is evaluated again once it has completed, and the run ends when all have completed.",
     ["schedules", "fault_sequences", "histories"],
     "All orders of completion and any number of workers, rejected proposals, failures and deaths of workers.",
     "The one test has no faults and checks the number of evaluations.",
     [RND], [("RandomStrategy", RND + ":15")], (), ["propose_action", "set of proposed points"])

prop("C90", "The benchmark problems attain their stated minimum at the stated point",
     "Every test problem evaluates to its stated minimal value at its stated minimizer and nowhere in its box to less.",
     ["inputs"], "All points of each domain.", "Tests evaluate a few points.", ["pySOT/optimization_problems"], [("eval", "pySOT/optimization_problems")])

prop("C92", "Derivatives of kernels and tails are those of their values",
     "The derivative a kernel or tail reports equals the derivative of its value.",
     ["inputs"], "All data sets and points.", "Tests compare at a few points.", ["pySOT/surrogate"],
     [("deriv", "pySOT/surrogate/kernels")])

prop("C93", "Nondominated sorting and the genetic algorithm meet their definitions",
     "The nondominated front and the ranking contain exactly the points the definition of dominance demands, and the genetic "
     "algorithm returns a feasible point no worse than the best of its initial population.",
     ["inputs"], "All matrices of objective values, all functions.", "Tests use one function.", ["pySOT/utils.py"],
     [("nd_sorting", "pySOT/utils.py:452"), ("GeneticAlgorithm", "pySOT/utils.py:200")])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
