#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the text stays reviewable).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

prop("C01","Thread pool runs every task exactly once and waiting waits for all of them",
 "Every task handed to the thread pool is executed exactly once while the pool is running, on whatever number of threads, whether it was added before or after the threads were launched. A call to wait returns only after every task added before it has finished (unless the documented per-task timeout elapses), and never hangs when the tasks themselves finish. Stopping the threads joins every worker, loses no queued task (it runs after a relaunch), and the pool can be launched, waited on and stopped any number of times.",
 ["schedules","histories"],"all interleavings of the caller and 1..n worker threads, over every history of add / launch / wait / stop / relaunch operations",
 "The tests run a handful of fixed histories under whatever schedule the OS happens to give; lost wakeups, double execution and early returns need one particular interleaving.",
 ["altro/common/threadpool.hpp","altro/common/threadpool.cpp","altro/common/threadsafe_queue.hpp"],
 [("packaged task + future per added task","threadpool.hpp AddTask"),("waiting on every future, then forgetting them","threadpool.cpp Wait"),("worker loop: pop, run, otherwise yield","threadpool.cpp WorkerThread"),("stop flag and join","threadpool.cpp StopThreads")],
 [("queued tasks","tasks not yet taken by a worker","ThreadPool::queue_"),("outstanding futures","tasks that the next wait must see finished","ThreadPool::futures_"),("running flag","workers may take tasks","ThreadPool::is_running_")],
 ["task bodies (user code)","return from wait/stop"])
prop("C02","Task queue is a linearizable FIFO that loses and duplicates nothing",
 "Under any number of concurrent producers and consumers each pushed element is delivered to exactly one successful pop, in FIFO order, and a pop fails only if the queue was empty at some instant during the call. The emptiness test, and the size whenever the queue is quiescent, agree with the elements held, and the size is never larger than the number of elements that could be in the queue at that moment. Clearing the queue or move-assigning over it discards the old elements, completes without blocking, and leaves a queue that keeps working; a moved-to queue holds exactly the elements of its source in order.",
 ["schedules","histories"],"all interleavings of concurrent push / pop / emptiness / size calls, and all histories including clear, move construction and move assignment",
 "The tests push and pop a few integers, mostly from one thread, and never clear or move a populated queue; linearizability is a statement about every interleaving.",
 ["altro/common/threadsafe_queue.hpp"],
 [("separate head and tail locks with a dummy node","threadsafe_queue.hpp Push/TryPopHead"),("element counter","threadsafe_queue.hpp Size"),("clear under the head lock","threadsafe_queue.hpp Clear")],
 [("linked list between head and dummy tail","the queued elements in order","ThreadSafeQueue::head_/tail_"),("size counter","number of elements","ThreadSafeQueue::size_")],
 ["return values of push/pop/size/emptiness"])
prop("C03","Parallel expansion covers each knot point exactly once and matches serial",
 "For every horizon length, thread count and tasks-per-thread setting the default work assignment is a strictly increasing list starting at the first knot point and ending one past the terminal one, with threads times tasks-per-thread tasks (at most one per segment) whenever these settings change, so each knot point is expanded exactly once per iteration. A custom assignment is accepted exactly when it has that shape, is kept until changed, and is the one actually used by the following expansions. Whatever the assignment and thread count, expansions and complete solves give exactly the single-threaded result.",
 ["configurations","schedules","inputs"],"all horizon lengths, thread counts, tasks per thread and custom partitions, changed in any order between solves, under any worker schedule",
 "Tests use a few (horizon, threads) pairs for which the floating-point partition happens to be exact; other pairs abort, skip or repeat knot points.",
 ["altro/ilqr/ilqr.hpp"],
 [("default partition","ilqr.hpp DefaultTaskAssignment"),("custom partition validation","ilqr.hpp SetTaskAssignment"),("rebuilding tasks when options change","ilqr.hpp LaunchThreads/ShouldRedoTaskAssignment"),("serial or pooled expansion","ilqr.hpp UpdateExpansions")],
 [("work indices","partition of knot points into tasks","iLQR::work_inds_"),("task list","closures sent to the pool","iLQR::tasks_")],
 ["cost/dynamics callbacks per knot point","work assignment getter","solver results"])
prop("C04","The constrained solver's final status tells the truth",
 "The constrained solver reports success only if its last inner solve converged and the trajectory it returns has a maximum constraint violation, recomputed from that trajectory, below the constraint tolerance. Any other final status names a condition that really holds at exit (inner failure, penalty above its maximum, outer or total iteration budget used up), with inner failures taking precedence over success, success over the penalty limit, the penalty limit over the outer limit and that over the total limit. It never runs more outer iterations than allowed, does not continue once a stopping condition holds, and never reports a status left over from an earlier solve.",
 ["inputs","histories","configurations"],"all problems, option settings (tolerances, limits, penalties) and sequences of solves on the same solver",
 "Tests solve two well-behaved problems once and check for success; the limit statuses, their precedence, stale statuses and violations measured on a rejected trial step are never reached.",
 ["altro/augmented_lagrangian/al_solver.hpp","altro/ilqr/ilqr.hpp","altro/constraints/constraint_values.hpp"],
 [("outer loop and its stopping test","al_solver.hpp Solve/IsDone"),("violation and penalty statistics","al_solver.hpp UpdateConvergenceStatistics")],
 [("status","final status","AugmentedLagrangianiLQR::status_")],
 ["status, statistics, returned trajectory"])
prop("C05","The unconstrained solver stops for the reason it reports and within its budgets",
 "The unconstrained solver reports success exactly when its last iteration had valid gains and both the cost decrease and the normalised feedforward gain are below their tolerances; otherwise it reports the inner iteration limit, the total iteration limit, or the failure the last iteration ended in (regularization failure, or a state or control bound violated by the last trial of its line search), in that order of precedence. It continues exactly as long as none of these holds, never exceeds the inner limit, and counts every iteration once in both the inner and the total count. The normalised gain is the mean over time steps of the largest |feedforward| / (|control|+1).",
 ["inputs","histories","configurations"],"all costs, dynamics, option settings and histories of repeated solves",
 "Tests check the status of a few converging solves; the precedence among reasons and the limits at their boundaries need adversarial costs and dynamics.",
 ["altro/ilqr/ilqr.hpp"],
 [("stopping test","ilqr.hpp IsDone"),("convergence statistics","ilqr.hpp UpdateConvergenceStatistics/NormalizedFeedforwardGain"),("iteration loop","ilqr.hpp Solve"),("state/control bound checks","ilqr.hpp RolloutClosedLoop")],
 [("status","current/final status","iLQR::status_"),("iteration counters","inner and total counts","SolverStats")],
 ["status, counters, histories after solve"])
prop("C06","The returned trajectory is dynamically feasible and starts at the initial state",
 "After any solve, whatever its status, the trajectory object the user supplied starts exactly at the problem's current initial state and each next state equals the discrete dynamics of that time step applied to its state, control, time and step length. Neither its times and step lengths nor its terminal control are altered by the solver, and uneven time steps are honoured. The reported cost of the solution equals the sum of the stage costs evaluated on the returned trajectory.",
 ["inputs","histories"],"all problems (different dynamics and costs per time step, uneven steps), initial guesses, option settings and solve outcomes including failures",
 "Tests compare a few end points; feasibility after rejected steps, bound violations and with per-step dynamics or uneven steps is never examined.",
 ["altro/ilqr/ilqr.hpp","altro/common/trajectory.hpp"],
 [("open-loop rollout","ilqr.hpp Rollout"),("closed-loop rollout into the trial trajectory","ilqr.hpp RolloutClosedLoop"),("copying an accepted trial, times kept in step","ilqr.hpp ForwardPass/SolveSetup")],
 [("trajectory","user's guess and result","iLQR::Z_"),("trial trajectory","line-search candidate","iLQR::Zbar_")],
 ["returned trajectory","dynamics callbacks"])
prop("C07","Line search accepts only sufficient decrease and otherwise changes nothing",
 "A forward pass tries step lengths 1, 1/f, 1/f^2, ... (f the decrease factor) up to the configured number of trials and takes the first whose closed-loop rollout stays within the state and control bounds, lowers the total cost, and whose ratio of actual to predicted decrease lies within the configured bounds. The accepted trajectory is exactly the closed-loop rollout for that step length, and its cost, step length and ratio are what is recorded; hence the recorded cost never increases. If no trial qualifies the current trajectory is left exactly as it was and the regularization is increased.",
 ["inputs","histories"],"all costs, dynamics, gains, bounds and line-search options, in every iteration of every solve",
 "Tests only exercise forward passes that accept the full step on a convex problem.",
 ["altro/ilqr/ilqr.hpp"],
 [("line search loop and acceptance test","ilqr.hpp ForwardPass"),("closed-loop rollout and bound checks","ilqr.hpp RolloutClosedLoop"),("expected decrease","ilqr.hpp BackwardPass deltaV")],
 [("expected decrease terms","linear and quadratic predicted decrease","iLQR::deltaV_")],
 ["sequence of trial trajectories seen by cost callbacks","recorded histories","trajectory before/after"])
prop("C08","The backward pass solves the regularised LQ subproblem exactly",
 "For any cost and dynamics expansions, a successful backward pass yields gains that satisfy the regularised stationarity equations at every time step, with cost-to-go gradients and Hessians equal to those of the unregularised quadratic model under these gains, starting from the terminal cost expansion. The predicted cost decrease used by the line search is the sum over the time steps of exactly this pass. On a linear-quadratic problem without regularization one full step therefore reaches the optimum and the predicted decrease equals the actual one.",
 ["inputs","histories"],"all expansions (with cross terms, any dimensions, time-varying), regularization values, and passes that restart after a failed factorization",
 "Tests compare one or two fixed expansions without regularization or cross terms, and never a pass that restarts.",
 ["altro/ilqr/ilqr.hpp","altro/ilqr/knot_point_function_type.hpp","altro/ilqr/cost_expansion.hpp","altro/ilqr/dynamics_expansion.hpp"],
 [("action-value expansion","knot_point_function_type.hpp CalcActionValueExpansion"),("regularised gains","knot_point_function_type.hpp RegularizeActionValue/CalcGains"),("cost-to-go recursion","knot_point_function_type.hpp CalcCostToGo"),("restart on failed factorization","ilqr.hpp BackwardPass")],
 None,["gains, cost-to-go, action-value getters after a pass"])
prop("C09","Regularization follows its schedule, stays bounded, and its failure is reported",
 "Before each solve the regularization is its configured initial value; it grows geometrically (ever faster on consecutive increases) after every failed factorization or failed line search, shrinks correspondingly after every backward pass, and after any update lies between the configured minimum and maximum. A backward pass restarts with the increased value until every factorization succeeds. If factorizations keep failing at maximum regularization the configured number of times, the solve stops and reports regularization failure, leaving the trajectory as it was.",
 ["inputs","histories","configurations"],"all sequences of factorization and line-search outcomes and all regularization options",
 "No test makes a factorization fail, so the schedule, its clamps, the restart and the failure status are never executed.",
 ["altro/ilqr/ilqr.hpp"],
 [("increase / decrease","ilqr.hpp IncreaseRegularization/DecreaseRegularization"),("failure counting and restart","ilqr.hpp BackwardPass"),("increase on failed line search","ilqr.hpp ForwardPass")],
 [("regularization and its rate","current value and multiplicative rate","iLQR::rho_/drho_")],
 ["regularization getter and history","status"])
prop("C10","Dual variables and penalties are updated by the augmented Lagrangian rules",
 "After each inner solve every multiplier becomes the projection onto the dual cone of (multiplier - penalty * constraint value of the returned trajectory), so inequality multipliers are never positive, and all constraints at all knot points are updated exactly once. Between outer iterations, and only then, every penalty is multiplied by its own scaling factor. At the start of a solve multipliers are zeroed exactly when the reset option is on, and penalties are set to the configured initial penalty exactly when it is positive; setting penalties or scalings reaches every constraint at every knot point.",
 ["inputs","histories","configurations"],"all problems with any number and mix of constraints per knot point, all penalty/scaling/reset options, and all histories of outer iterations and repeated solves",
 "Tests check one update of one or two constraints; skipping a knot point, a mis-ordered update or a wrong constraint value after a rejected step goes unnoticed.",
 ["altro/augmented_lagrangian/al_solver.hpp","altro/augmented_lagrangian/al_cost.hpp","altro/constraints/constraint_values.hpp"],
 [("dual update","constraint_values.hpp UpdateDuals"),("penalty update","constraint_values.hpp UpdatePenalties"),("per-solve reset","al_solver.hpp Init")],
 [("multipliers and penalties","per constraint vectors","ConstraintValues::lambda_/penalty_")],
 ["multiplier, penalty and constraint-value getters around each outer iteration"])
prop("C11","The augmented cost is the exact augmented Lagrangian with matching derivatives",
 "At every point, multiplier and penalty the augmented cost equals the original cost plus, for every equality and inequality constraint, (|projected multiplier|^2 - |multiplier|^2)/(2*penalty); without constraints it is the original cost. Its gradient is the exact gradient of that value and its Hessian the Gauss-Newton Hessian (penalty times the Jacobian of the active rows, squared, including cross terms). Evaluating it never alters multipliers or penalties.",
 ["inputs","configurations"],"all points, multipliers (including the cone boundary), penalties, dimensions, and any number and order of constraints",
 "Tests check a few points with one or two constraints; mixed active sets, cross terms, several constraints of both kinds and repeated evaluation are not covered.",
 ["altro/augmented_lagrangian/al_cost.hpp","altro/constraints/constraint_values.hpp","altro/constraints/constraint.hpp"],
 [("augmented Lagrangian term, gradient, Hessian","constraint_values.hpp AugLag*"),("sum over constraints","al_cost.hpp Evaluate/Gradient/Hessian"),("cone projections and their Jacobians","constraint.hpp")],
 None,["values returned by the augmented cost"])
prop("C12","Constraint violations and information are reported completely and correctly",
 "The maximum violation of a trajectory is the largest distance of any constraint component to its cone over all constraints and all knot points (zero for satisfied inequalities, the absolute value for equalities), in the requested norm, and the violation recorded after an inner solve is that of the returned trajectory. Constraint information lists every constraint once with its label, knot point and violation vector (value minus its projection onto the cone); sorted output is the same list in non-increasing order of largest violation. Constraint counts per knot point and in total equal the sums of the constraint lengths.",
 ["inputs","configurations","histories"],"all trajectories, all placements of constraints on knot points, and any sequence of queries and solves",
 "Tests query one problem at one trajectory; a missed knot point, a stale value, a sign error on one cone or an unsorted tie needs other shapes.",
 ["altro/augmented_lagrangian/al_solver.hpp","altro/augmented_lagrangian/al_cost.hpp","altro/constraints/constraint_values.hpp","altro/constraints/constraint.hpp","altro/constraints/constraint.cpp"],
 [("max violation","al_solver.hpp/al_cost.hpp/constraint_values.hpp MaxViolation"),("constraint info","al_solver.hpp GetConstraintInfo")],
 None,["violation queries, info list, violation history"])
prop("C13","Solve statistics form a consistent per-iteration history",
 "All recorded histories always have the same length; starting a new iteration carries every value forward (zero at first) and logging overwrites only the newest value of the named series, so after a solve row i holds the values of iteration i and logging an unknown name changes no recorded value. The recorded cost is the cost of the trajectory held after that iteration (also when the step was rejected), the recorded decrease is the difference of consecutive costs starting from the initial cost, and the recorded regularization, gradient, violation and penalty are those of the iteration; step length and ratio are those of the most recent accepted step. A reset clears every history and counter.",
 ["histories","inputs","configurations"],"all sequences of log / new iteration / reset / capacity operations, and all solves including iterations with rejected steps, repeated solves and moved objects",
 "Tests check lengths after one or two converging solves; iterations that reject their step and series beyond the first few rows are never compared.",
 ["altro/common/solver_stats.hpp","altro/common/solver_stats.cpp","altro/ilqr/ilqr.hpp","altro/augmented_lagrangian/al_solver.hpp"],
 [("row append with carry-forward","solver_stats.cpp NewIteration"),("write to newest row","solver_stats.hpp Log/SetData"),("reset","solver_stats.cpp Reset")],
 [("series","named value histories","SolverStats::floats_ and public vectors"),("row count","current number of rows","SolverStats::len_")],
 ["public histories and counters"])
prop("C14","Solving again, or after a move, behaves like a fresh solve",
 "Solving the same problem again from the same initial guess on the same solver, with multipliers and penalties reset, repeats the first solve exactly: same status, trajectory and iteration count, however often it is repeated and whatever happened in between. Options changed between solves take effect in the next solve. A solver that was moved before solving produces the same result and statistics as one that was not.",
 ["histories","configurations"],"all histories of solves, option changes, trajectory changes, initial-state changes and moves",
 "Tests solve once, or twice at most, and never inspect a moved solver's statistics or exhaust the total iteration budget over several solves.",
 ["altro/ilqr/ilqr.hpp","altro/augmented_lagrangian/al_solver.hpp","altro/common/solver_stats.hpp"],
 [("per-solve reset","ilqr.hpp SolveSetup/ResetInternalVariables, al_solver.hpp Init"),("move construction","ilqr.hpp move constructor")],
 None,["status, trajectory, statistics of each solve"])
prop("C15","A problem holds exactly what was put in and hands exactly that to the solvers",
 "A problem reports itself fully defined exactly when every knot point has a cost, every time step has dynamics and an initial state of matching dimension is set; asking never crashes, whatever is missing. Each cost, dynamics model and constraint is kept at exactly the knot point it was set for (a later setting replaces cost and dynamics, constraints accumulate in order), and copies and moved-to problems are equal to the original in all of this including the number of segments. The constrained solver sees each constraint exactly once, at its own knot point and with its own type, and both solvers follow later changes of the problem's initial state.",
 ["histories","configurations"],"all sequences of set / copy / move / query operations on problems of any length, and all solver constructions from them",
 "Tests build a few complete problems; partial definitions in other orders, copies, moves and constraints spread over knot points are not compared.",
 ["altro/problem/problem.hpp","altro/problem/problem.cpp","altro/augmented_lagrangian/al_problem.hpp","altro/ilqr/ilqr.hpp"],
 [("definition check","problem.cpp IsFullyDefined"),("setters","problem.hpp Set*"),("copy and move","problem.hpp constructors and assignments"),("constraint transfer","al_problem.hpp BuildAugLagProblem")],
 None,["getters, definition check, callbacks made by the solvers"])
prop("C16","Integrators advance the model by their method, with the matching Jacobian",
 "The explicit Euler and fourth-order Runge-Kutta steps equal the textbook formulas applied to the continuous model, evaluating time-dependent models at the correct stage times. The Jacobian they return is the exact derivative of the step with respect to state and control, for time-dependent and nonlinear models too. Results depend only on the arguments, not on earlier calls.",
 ["inputs","histories"],"all continuous models (nonlinear, time-varying), states, controls, times, step lengths and call histories",
 "Tests use time-independent models only, a handful of points and mostly finite differences with loose tolerances.",
 ["altro/problem/integration.hpp","altro/problem/discretized_model.hpp"],
 [("stage evaluation","integration.hpp Integrate"),("chain rule over stages","integration.hpp Jacobian")],
 None,["next state and Jacobian, arguments of the model callbacks"])
prop("C17","Trajectories and knot points are faithful containers with consistent times",
 "What is written to the state, control, time or step of a knot point is what is read back, for that knot point only; copies and assignments are deep, moves transfer everything, and zeroing clears states and controls but keeps times. Constructing from lists or setting a uniform step yields times and steps consistent with each other and with the arguments, with a terminal knot point of zero step, and the consistency check accepts a trajectory exactly when every step matches the difference of its neighbouring times. Conversions between compile-time and run-time sizes preserve every value.",
 ["histories","inputs"],"all sequences of container operations on trajectories of any length and size",
 "Tests touch individual accessors on one or two trajectories; aliasing, off-by-one at the terminal point and non-uniform times are not explored.",
 ["altro/common/trajectory.hpp","altro/common/knotpoint.hpp"],
 [("container operations","trajectory.hpp, knotpoint.hpp")],None,["getters after each operation"])
prop("C18","Iteration printing shows the right rows, columns and headers",
 "Printing emits a header before the first row and then again after every configured number of rows, restarting after a clear; the silent level prints nothing. A row contains exactly the columns enabled at the current verbosity, in the configured column order and width, each showing the value most recently logged while it was enabled (kept from row to row, blank after a clear) in its own format. The colour of a value reflects its bounds.",
 ["histories","configurations"],"all sequences of column definitions, level and frequency changes, logging, printing and clearing",
 "Tests print to the terminal and assert almost nothing about the output.",
 ["altro/common/solver_logger.hpp","altro/common/solver_logger.cpp","altro/common/log_entry.hpp","altro/common/log_entry.cpp"],
 [("header frequency","solver_logger.cpp Print"),("column order","solver_logger.hpp AddEntry"),("active columns","log_entry.hpp IsActive"),("formatting and colours","log_entry.hpp Log/Print")],
 None,["standard output"])
prop("C19","Profiling attributes each timed scope to its call path and never affects results",
 "While active, the profiler accumulates for every call path (nested scope names) the total duration of exactly the scopes run under it, lists each path once under its parent, and a parent's total is at least the sum of its children; percentages equal the corresponding ratios. Scopes started while inactive leave no trace, and activation can be toggled at any time without corrupting the nesting of scopes opened later. The summary goes to the selected output, which may be switched repeatedly without losing or closing an output the user owns; enabling profiling does not change solver results.",
 ["histories","configurations"],"all nestings and repetitions of scopes, activation toggles, output switches and name orders",
 "The timer tests are timing-dependent and excluded from the stable set; they assert on a few nestings only.",
 ["altro/common/timer.hpp","altro/common/timer.cpp","altro/common/profile_entry.hpp","altro/common/profile_entry.cpp"],
 [("scope stack and path names","timer.cpp Start / ~Stopwatch"),("summary tree","timer.cpp PrintSummary, profile_entry.cpp"),("output selection","timer.cpp/timer.hpp SetOutput")],
 [("scope stack","names of open scopes","Timer::stack_"),("totals","time per call path","Timer::times_")],
 ["printed summary"])
prop("C20","Derivative checks accept correct derivatives and reject wrong ones",
 "Finite differences of any smooth function return an array of the right shape approximating its true Jacobian, gradient or Hessian to the accuracy of the scheme, column by column, and leave the input untouched. The built-in checks of a function's Jacobian, gradient and Hessian succeed when these are correct at the tested point and fail when any single entry is off by more than the tolerance.",
 ["inputs","programs"],"all polynomial functions of any input and output size, evaluation points, step sizes and single-entry perturbations of their derivatives",
 "Tests check a few functions whose derivatives are right; that a wrong entry in an arbitrary position is noticed is not tested.",
 ["altro/utils/derivative_checker.hpp","altro/common/functionbase.hpp","altro/common/functionbase.cpp"],
 [("finite differences","derivative_checker.hpp"),("comparison","functionbase.cpp")],None,["returned matrices and verdicts"])
prop("C21","The shipped costs, constraints and models equal their formulas and derivatives",
 "The quadratic cost, the goal, control-bound and circle-obstacle constraints and the triple-integrator and unicycle models evaluate to their documented formulas and return exactly their derivatives, for every dimension, parameter and choice of indices. Bounds produce one row per finite bound (lower bounds first), updated when the bounds are changed, and infinite bounds produce none.",
 ["inputs","configurations"],"all parameters (dimensions, references, bounds, obstacles, index choices), states and controls",
 "Tests evaluate each at a few points with default settings.",
 ["examples/quadratic_cost.hpp","examples/quadratic_cost.cpp","examples/basic_constraints.hpp","examples/obstacle_constraints.hpp","examples/triple_integrator.cpp","examples/unicycle.cpp"],
 [("formulas","quadratic_cost.cpp, basic_constraints.hpp, obstacle_constraints.hpp, triple_integrator.cpp, unicycle.cpp")],None,["returned values and Jacobians"])
prop("C22","Misuse is rejected, valid use is not",
 "With assertions enabled every call that violates a documented precondition (index out of range, null object, inconsistent dimension or length, invalid bound, penalty, scaling, frequency or partition, solving without a trajectory or problem) aborts with a diagnostic before anything is changed. Every call that satisfies its documented preconditions, including the boundary values, is accepted.",
 ["inputs","histories"],"all arguments at and around the documented limits of the public operations, in any object state",
 "Death tests cover a few of the checks on one side of the limit only; the accepted side of each boundary is not tested.",
 ["altro/problem/problem.hpp","altro/problem/problem.cpp","altro/ilqr/ilqr.hpp","altro/augmented_lagrangian/al_solver.hpp","altro/augmented_lagrangian/al_cost.hpp","altro/constraints/constraint_values.hpp","altro/common/trajectory.hpp","altro/common/solver_logger.hpp","altro/common/log_entry.cpp","altro/common/state_control_sized.hpp"],
 [("assertions","ALTRO_ASSERT at each public entry point")],None,["abort or normal return of each call"])
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open("properties.jsonl","w") as f:
    for p in P:
        if len(p["title"])>80: print("LONG",p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
