import json
FG="src/factorama/factor_graph.cpp"; FGH="src/factorama/factor_graph.hpp"; SO="src/factorama/sparse_optimizer.cpp"; SOH="src/factorama/sparse_optimizer.hpp"
BT="src/factorama/base_types.hpp"; NJ="src/factorama/numerical_jacobian.hpp"; SW="src/factorama/stopwatch.hpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"state the property ranges over","where":files[0]}]
    a["observe_at"]=[observe]; a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Evaluation describes the graph's current structure and values",
 "Whenever a finalized FactorGraph evaluates (residual vector, dense Jacobian, sparse Jacobian, in any order), each result equals the graph's own factors' residuals and Jacobian blocks at the variables' current values, rows in factor insertion order and columns in insertion order of the non-constant variables, exactly as a freshly built graph with the same variables, values and factors would return. This holds after every history of additions, value changes, constness changes followed by finalize_structure(), earlier evaluations, optimizations and failed calls: no row, block, pattern, buffer, validity flag or ID choice from an earlier state, nor the contents of fresh or reused memory or of the caller's output buffers, survives into a result.",
 ["histories","inputs","fault_sequences"],"all operation histories over graphs mixing every shipped variable and factor type, with callback exceptions, allocation failures and adversarial heap contents in between",
 "A unit test evaluates a graph once or twice from a clean state; stale state appears only after particular edit/evaluate/fail/re-finalize sequences and depends on what reused memory held.",
 [FG,FGH,BT],[("dense/sparse assembly","FactorGraph::compute_full_jacobian_matrix, compute_sparse_jacobian_matrix, copy_sparse_data_to_eigen_matrix"),("residual assembly","FactorGraph::compute_full_residual_vector"),("structure build","FactorGraph::finalize_structure")],
 "return values of compute_* and jacobian()/residual()/sparse_jacobian() accessors","cached_jacobian_, sparse_jacobian_, sparse_jacobian_data_, *_valid_ flags")
p("C02","Failed graph edits leave no trace and can be retried",
 "add_variable, add_factor and finalize_structure either succeed completely or, when they fail at any point (duplicate ID, unregistered or null variable, under-constrained problem, allocation failure), throw and leave the sets of variables and factors reported by the graph, and its ID lookup, exactly as before. After a failed finalize_structure, or an edit not yet followed by a successful one, evaluation and increments are refused with an exception rather than run on a half-built or outdated structure; and once the cause is gone, retrying gives the same graph, results and evaluation as if the failure had never happened.",
 ["histories","fault_sequences","crash_points"],"every edit history with a failure injected at any allocation or validation point inside any edit",
 "Tests provoke a duplicate ID at best; they cannot place an allocation failure between any two internal updates and then continue using the graph.",
 [FG,FGH],[("edits","FactorGraph::add_variable, add_factor"),("structure build","FactorGraph::finalize_structure")],"get_all_variables/get_all_factors/get_variable/num_variables and the outcome of later evaluations","variables_map_, variables_vector_, factors_map_, factors_, structure_finalized_")
p("C03","A fault during optimize() is contained at a complete iterate",
 "If a factor or variable callback throws (a std::exception or anything else), or an allocation fails, at any point during SparseOptimizer::optimize(), the call returns or propagates without crashing, never reports SUCCESS, RUNNING or valid statistics for the failed run when it returns normally, and leaves all variables together at one complete iterate: the entry values or the values after a whole number of completed steps of the fault-free run, never a partially applied or untested trial step. If evaluation or a computed step becomes non-finite, optimize() never reports SUCCESS and never leaves a variable with a non-finite value that it did not have on entry.",
 ["fault_sequences","crash_points","inputs"],"all problems, both methods, every fault kind at every callback/allocation index inside optimize()",
 "The outcome depends on the exact instant of the fault relative to applying, testing, accepting or rolling back a step; tests never make a callback fail mid-iteration.",
 [SO,SOH],[("iteration driver","SparseOptimizer::optimize"),("steps","single_step_gauss_newton, single_step_levenberg_marquardt")],"variable values, current_stats_.status/valid and propagated exception after optimize()","variable values, current_stats_")
p("C04","Levenberg-Marquardt never worsens the problem and rolls back exactly",
 "With the Levenberg-Marquardt method, for every problem, starting point, settings (damping, factors, limits, learning rate, iteration cap) and any faults during the run, the true cost at the variables' values on return is never above the cost on entry, and never increases from one completed iteration to the next. When no step is accepted the variables hold their entry values (to floating-point round trip), whatever rejected trials were evaluated in between.",
 ["inputs","fault_sequences","configurations"],"all problems and optimizer settings, with transient non-finite evaluations, exceptions and allocation failures injected at any point",
 "Tests run well-behaved problems where nearly every step is accepted; rejection sequences, and faults inside a rejected trial, are not sampled.",
 [SO],[("accept/reject/rollback","SparseOptimizer::single_step_levenberg_marquardt")],"cost recomputed by an independent evaluation of the factors before and after","variable values, damping_parameter")
p("C05","Optimizer status and statistics tell the truth",
 "When optimize() returns, current_stats_.chi2 and residual_norm are the squared norm and norm of the residual at the variables' final values, initial_stats_ holds those at entry, current_iteration counts the steps performed and never exceeds max_num_iterations, and status is final (never RUNNING). SUCCESS always comes with valid=true and finite statistics, FAILED, SINGULAR_HESSIAN and ILL_CONDITIONED with valid=false; DIVERGED is reported only if the final cost is not below the initial one; a second optimize() call or a fault during a previous call leaves nothing of the old run in the new statistics.",
 ["inputs","histories","fault_sequences","configurations"],"all problems (including singular, ill-conditioned, diverging), settings, repeated calls and injected faults",
 "Tests check the status of a handful of converging problems, not the correspondence between reported numbers and real state over repeated, capped, diverging or faulted runs.",
 [SO,SOH],[("statistics","SparseOptimizer::optimize and both single_step_* functions")],"current_stats_/initial_stats_ against an independent evaluation at the actual values","current_stats_, initial_stats_")
p("C06","Constant variables never move",
 "A variable that is constant (set before finalize_structure) keeps a bit-identical value() and derived state through every optimize() (either method, accepted, rejected, failed or faulted steps), graph apply_increment(), set_variable_values_from_vector(), evaluation, numerical Jacobian, covariance and printing call. It occupies no column and no slice of the variable vector, and toggling constness and re-finalizing takes full effect both ways.",
 ["histories","inputs","fault_sequences"],"all graphs, subsets of constant variables, operation histories and injected faults",
 "Tests check one constant pose in a converging run; rollback, fault and toggle paths are separate code that also writes variables.",
 [SO,FG,NJ],[("increment and rollback loops","SparseOptimizer::single_step_*"),("vector write-back","FactorGraph::apply_increment, set_variable_values_from_vector")],"value() of constant variables compared bitwise before/after","variable values")
p("C07","Observing a problem never changes it, even when evaluation fails",
 "Evaluating residuals or Jacobians, ComputeNumericalJacobians, detailed_factor_test, covariance preparation and estimation, printing, lookups and cloning never change any variable's value or constness, the graph's structure, or the outcome of a later optimization. This also holds when a factor callback, an output stream or an allocation fails in the middle of the observation: a perturbed variable is always put back.",
 ["histories","fault_sequences","crash_points"],"every observer call on every graph, with a fault at any callback, allocation or stream write inside it",
 "Tests call observers only on the success path; the temporary perturbation inside numerical differentiation is visible only if something fails while it is in place.",
 [NJ,FG,SO],[("temporary perturbation","ComputeNumericalJacobians"),("diagnostics","FactorGraph::detailed_factor_test, print_*"),("covariance","SparseOptimizer::prepare_to_estimate_covariances, estimate_covariance, print_all_covariances")],"variable values and later optimize() results compared with an unobserved twin","variable values")
p("C08","Independent problems do not interfere across threads",
 "Any number of threads, each building, evaluating, optimizing and estimating covariances on its own graph, variables, factors and optimizer (with overlapping IDs), obtain bit for bit the values, statistics and errors they would obtain running alone, under every thread interleaving. The library keeps no shared mutable state between distinct objects.",
 ["schedules","histories"],"all interleavings (preemption at any basic block, allocation or virtual call) of up to 4 threads on disjoint objects",
 "Interference needs a preemption inside a window of a few instructions; unit tests are single-threaded.",
 ["src/factorama"],[("whole library","every function reachable from FactorGraph, SparseOptimizer, factors, variables")],"per-thread results compared with the same program run solo","any static or namespace-scope state")
p("C09","Concurrent read-only use of shared objects is safe",
 "Several threads may concurrently call const operations on the same variables, factors and graph (residuals and Jacobians of factors into caller-owned buffers, value(), clone(), names, vector and placement lookups) while nobody mutates them, and under every interleaving each call returns what it returns single-threaded. Const operations also give the same result however often and in whatever order they are repeated and whatever the caller's output buffers held.",
 ["schedules","histories"],"all interleavings of up to 4 reader threads between single-threaded mutation phases",
 "A hidden cache or scratch buffer in a const method is invisible to single-threaded tests.",
 ["src/factorama"],[("const factor evaluation","Factor::compute_residual/compute_jacobians const"),("const variable access","Variable::value/clone, PoseVariable::dcm_CW"),("const graph access","FactorGraph::get_variable_vector, variable_placement, get_variable")],"values returned in each thread compared with sequential evaluation","any mutable member")
p("C10","Timing is sane under any clock and never affects results",
 "Stopwatch::elapsed() equals the monotonic time spent between start and stop since the last reset: never negative, never decreasing without a reset, unaffected by redundant start/stop calls and by jumps of the system (wall) clock in either direction. The times optimize() reports are non-negative and cover only that call, and no clock behaviour (jumps, freezes, coarse or huge steps) changes the values or statistics an optimization produces.",
 ["schedules","histories","fault_sequences"],"all start/stop/reset/read sequences and optimizations under seeded clock jumps, freezes and skew between wall and monotonic time",
 "Tests read the real clock and sleep; a wall-clock step during a measurement cannot be produced there.",
 [SW,SO],[("stopwatch","Stopwatch"),("timing report","SparseOptimizer::optimize summary")],"elapsed() against a model on the simulated monotonic clock; verbose timing lines; final values","accumulated_time_, start_time_")
p("C11","Logging has no effect on results and its failure is harmless",
 "Turning verbose output on or off, and any behaviour of stdout/stderr (failing, short, stalled or closed streams), changes neither the final variable values nor the statistics of an optimization nor any evaluation result, bit for bit, and never causes an exception or crash while stream exceptions are disabled. With verbose off, optimize() and covariance estimation write nothing to stdout.",
 ["fault_sequences","configurations","inputs"],"all problems and settings with a stream failure at any byte of the output",
 "Tests run with a healthy stdout and never compare verbose with quiet runs.",
 [SO,FG],[("verbose blocks","SparseOptimizer::optimize, single_step_*, prepare_to_estimate_covariances"),("diagnostics","FactorGraph print_*/detailed_factor_test")],"results of twin runs; bytes written to the simulated streams","std::cout/std::cerr state, verbose_")
p("C12","optimize() terminates in bounded work and recovers once faults stop",
 "Under any fault sequence optimize() finishes within max_num_iterations Jacobian evaluations and a bounded number (at most 8 per iteration plus 2) of full residual evaluations. Once faults stop, calling optimize() again on the same objects behaves exactly like a fresh optimizer and graph at the same values: same final values, status and statistics, and on a well-posed problem it converges to the same solution as a run that never saw a fault.",
 ["fault_sequences","histories","configurations"],"all fault sequences during one or more optimize() calls followed by a fault-free call, same or changed settings and graph",
 "Recovery after a mid-run fault depends on every cached member (solver, Hessian, Jacobian pattern, damping, statistics) being reset; tests use each optimizer once.",
 [SO,SOH,FG],[("iteration bounds","SparseOptimizer::optimize, single_step_levenberg_marquardt"),("reuse","SparseOptimizer::setup, cached members")],"counts of factor evaluations; results compared with fresh twin objects","sparse_solver_, residual1_, residual2_, damping_parameter")
p("C13","A covariance reported valid is the inverse information of the current problem",
 "Whenever estimate_covariance() reports valid, the matrix is symmetric and equals the variable's block of the inverse of J^T J at the variable values of the last prepare_to_estimate_covariances(), with the structure the graph has now. After a new optimize(), a re-finalized structure, a new setup() or any failure the estimate is either re-prepared and right or reported invalid; it is never stale, never out of bounds, never from a damped or half-factorized Hessian.",
 ["histories","fault_sequences","inputs"],"all histories of setup/optimize/prepare/estimate/edit/finalize calls with injected faults",
 "Tests estimate once right after one successful optimization; reuse after another optimize or a structural edit is not covered.",
 [SO,SOH],[("covariance cache","prepare_to_estimate_covariances, estimate_covariance, cached_hessian_*, sparse_solver_")],"returned matrix against a dense inverse computed independently","cached_hessian_, cached_hessian_valid_for_covariance_est_, sparse_solver_")
p("C14","Malformed calls are rejected without damage",
 "Calls that violate an interface's documented preconditions detectably (null variable or factor, duplicate ID, wrong-size increment or value vector on graph or variable, evaluation before finalize, optimizing without a graph, covariance of a null or constant variable) throw an exception (or return invalid, for covariance) without touching memory out of bounds. They leave every variable value, the graph and the optimizer exactly as they were, at any point of any history.",
 ["histories","inputs","fault_sequences"],"malformed calls of every kind injected at every position of a valid history, alone or while an allocation fails",
 "Tests check that a few of these throw; they neither check that state is untouched afterwards nor sizes that happen to read adjacent memory.",
 [FG,SO,"src/factorama/*_variable.*"],[("argument checks","add_variable, add_factor, apply_increment, set_variable_values_from_vector, set_value_from_vector, estimate_covariance")],"exception raised, memory checker silent, state digest unchanged","all")
p("C15","Vector and placement interface is coherent with the variables",
 "On a finalized graph get_variable_vector() is the concatenation of the values of the non-constant variables in insertion order, variable_placement(id) gives each variable's slice of it and the matching Jacobian columns, apply_increment(dx) moves every non-constant variable exactly as its own apply_increment with its slice would, and set_variable_values_from_vector(x) exactly as its own set_value_from_vector would. get_variable(id), get_all_variables(), get_all_factors(), get_variables_of_type() and the counts agree with what was successfully added, for any IDs, after any history.",
 ["histories","inputs","fault_sequences"],"all histories of edits, constness changes, re-finalizations, writes and failed calls with arbitrary (negative, huge, permuted) IDs",
 "Agreement has to hold after every history, not only right after construction with IDs 0..n.",
 [FG,FGH],[("slices","FactorGraph::get_variable_vector, apply_increment, set_variable_values_from_vector, variable_placement"),("lookup","get_variable, get_variables_of_type")],"returned vectors and variable values against an independent model","variable_placement_, variables_map_")
p("C16","Variables stay on their manifold with coherent derived state",
 "After any history of finite writes, increments, clones, optimizations and faults, rotation matrices are orthonormal with determinant one and agree with the rotation vector in value(), plane normals have unit length, 2D headings lie in [-pi, pi], inverse ranges stay within their limits, and all accessors of a variable agree with its value(). A clone has the same type, ID, constness, value and behaviour as its original at that moment and shares no state with it afterwards.",
 ["histories","inputs","fault_sequences"],"all histories of reads, writes, increments of any finite size, clones and faulted optimizations on every variable type",
 "Drift, stale derived matrices and shared state need long or interrupted histories.",
 ["src/factorama/pose_variable.cpp","src/factorama/rotation_variable.hpp","src/factorama/plane_variable.hpp","src/factorama/pose_2d_variable.cpp","src/factorama/inverse_range_variable.cpp"],[("value/derived state updates","set_value_from_vector, apply_increment, set_* setters, clone of each variable")],"value(), dcm accessors and clones after each operation","pose_CW_/dcm_CW_, value_/dcm_AB_, unit_vector_/value_")
p("C17","Python objects stay alive as long as anything reachable uses them",
 "From Python, whatever order references are dropped and the garbage collector runs in, using any still-reachable object (graph, optimizer, factor, variable, arrays and matrices returned by them) never touches freed memory and gives the values it would give with all references kept. No object is destroyed twice, and a failing call (wrong type, wrong size, duplicate ID, raising callback) leaks no inconsistency into later ones.",
 ["schedules","histories","fault_sequences"],"all interleavings of object creation, use, reference drops and collector runs over the binding surface",
 "Lifetime errors need a drop at the wrong moment and memory reuse afterwards; the Python tests keep every object in a local variable.",
 ["python_bindings/python/factorama"],[("ownership policies","py::class_ holders, return_value_policy and keep_alive annotations in the binding source")],"values read through surviving references, memory checker, process exit","C++ objects owned by Python or by shared_ptr")
p("C18","Optimization is reproducible",
 "Two optimizations of equal problems (same variables, values, factors, order, settings) give bit-identical final values, statistics and covariances, whatever the numeric IDs, the contents of uninitialised or reused memory, allocation addresses, the clock, and whatever other graphs or optimizers did before in the process.",
 ["schedules","inputs","configurations"],"all problems under seeded heap contents, ID permutations, address layouts and prior activity",
 "Dependence on uninitialised memory or hash order shows only under a heap and ID layout that a test run does not control.",
 [SO,FG],[("iteration order and scratch buffers","unordered_map traversals, resized but unfilled Eigen buffers")],"bitwise comparison of twin runs","heap contents, unordered_map order")
na=[("N01","Analytic Jacobians equal the derivative of the residual","Every built-in factor's analytic Jacobian equals the derivative of its residual with respect to the variable's increment, at every state away from singularities.",["src/factorama/*_factor*"],"compute_jacobians of each factor"),
("N02","SO(3) maps are mutually inverse and accurate","ExpMapSO3 and LogMapSO3 are inverse to each other on the principal domain, and compute_inverse_right_jacobian_so3 is the derivative of the logarithm, for every rotation.",["src/factorama/random_utils.cpp"],"ExpMapSO3, LogMapSO3, compute_inverse_right_jacobian_so3"),
("N03","Factor residuals implement the documented measurement models","Every built-in factor's residual is the documented measurement error, scaled by 1/sigma, in the documented frame and sign convention, with angles wrapped.",["src/factorama/*_factor*","README.md"],"compute_residual of each factor"),
("N04","Robust kernels weight residual and Jacobian consistently","HuberKernel scales residual and Jacobians by the Huber weight and its derivative for every residual.",["src/factorama/kernels.hpp"],"HuberKernel")]
for i,t,s,f,m in na:
    p(i,t,s,["inputs"],"all inputs","The domain is continuous; tests sample a few points.",f,[("pure function",m)],"return values")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
try:
    import jsonschema; sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sch)
except ImportError: print("nojs")
import re
for x in P: print(x["id"],len(x["title"]), len(re.findall(r"[.](?:\s|$)",x["statement"])))
