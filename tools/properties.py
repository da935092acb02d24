#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long statements stay readable)."""
import json, os
DE = "dynamic_expressions/src/"
SR = "symbolic_regression/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Evaluating an expression computes its mathematical value on every row",
 "For every well-formed expression, operator set, float type and dataset layout, evaluation returns for each data row the value obtained by applying the operators recursively to that row's features and the expression's constants. Each built-in operator computes the function it is named after, including at domain edges, and no row's result depends on any other row, on the number of rows or on the memory layout of the data.",
 ["inputs", "programs"], "all expressions (any depth, arity 1-4, shared constants, constant-only subtrees) x data matrices of any row count and layout x f32/f64",
 "The tests evaluate a few dozen hand-written trees on a handful of rows; fused constant/variable instruction forms, register reuse and chunk boundaries multiply into cases no test list covers.",
 [DE+"evaluate.rs", DE+"compile.rs", DE+"dispatch.rs", DE+"operator_enum.rs", DE+"operators.rs"],
 [("plan compilation with register allocation", DE+"compile.rs"), ("specialised kernels per operand kind", DE+"dispatch.rs, evaluate.rs")], ["evaluation entry points"])
prop("P02", "The completion flag of an evaluation tells whether all values are finite",
 "With finiteness checking enabled, evaluating an expression whose root is an operator, or any expression over finite data, reports success exactly when every intermediate and final value the expression computes on every row is finite. Stopping early on a non-finite value never changes the reported flag, and whenever success is reported the returned values are complete and correct; with checking disabled every value is still produced.",
 ["inputs", "programs"], "all expressions x data that does or does not overflow, divide by zero or leave a domain, on any single row or operator",
 "Tests provoke a few non-finite values; which operator, operand form and row produces the only non-finite value is a product space they sample a handful of times.",
 [DE+"evaluate.rs", DE+"evaluate_derivative.rs", DE+"dispatch.rs"],
 [("finite check after each instruction", DE+"dispatch.rs"), ("early exit", DE+"evaluate.rs")], ["boolean returned by evaluation"])
prop("P03", "Derivatives equal the true partial derivatives of the expression",
 "For every expression that is differentiable at a data row, the derivative with respect to any variable, and the gradient with respect to all variables or all constants, equal the exact partial derivatives at that row, with one entry per variable or constant in order. The value returned next to a derivative equals the plain evaluation, and derivatives are finite wherever the mathematical derivative is.",
 ["inputs", "programs"], "all expressions x rows x variables and constants x f32/f64",
 "Existing property tests compare against finite differences on smooth samples with loose tolerances for a subset of operators.",
 [DE+"evaluate_derivative.rs", DE+"evaluate.rs", DE+"dispatch.rs", DE+"operators.rs"],
 [("chain rule over compiled instructions", DE+"evaluate_derivative.rs"), ("per-operator partial derivatives", DE+"operators.rs")], ["directional derivative and gradient entry points"])
prop("P04", "Reused evaluation state never leaks into a later result",
 "The result of an evaluation, derivative or gradient depends only on the expression, the data and the options of that call. Reusing contexts, scratch buffers and compiled plans across any sequence of expressions, constant updates, structural edits, row counts and failed evaluations gives exactly the results that fresh state would give.",
 ["histories", "inputs"], "all call sequences mixing expressions, constants, row counts, plan reuse and early exits on shared contexts",
 "Tests reuse a context for one or two calls; stale caches only show after particular histories.",
 [DE+"evaluate.rs", DE+"evaluate_derivative.rs", DE+"expression.rs"],
 [("plan cache keyed by expression", DE+"evaluate.rs"), ("scratch resizing", DE+"evaluate.rs")], ["evaluation results of consecutive calls on one context"],
 state=[("context", "cached plan, scratch matrices, row count", DE+"evaluate.rs")])
prop("P05", "Simplification and constant folding preserve what an expression computes",
 "Simplifying an expression yields a well-formed expression that has the same value, up to rounding, on every input where the original is finite, never has more nodes, uses no operator or variable the original did not use, and reports a change whenever it made one. Folding replaces exactly the subexpressions without variables whose value is finite, and merging of nested constants applies only to genuine additions, subtractions, multiplications and divisions.",
 ["programs", "inputs"], "all expressions over all operator sets, including sets in which different arities share ids or names",
 "Tests fold a few named trees; interaction of several rewrite rules, operand orders and operator sets is combinatorial.",
 [DE+"simplify.rs"], [("constant folding", DE+"simplify.rs"), ("combination of constants in nested operators", DE+"simplify.rs")], ["simplification entry points"])
prop("P06", "Every mutation yields a well-formed expression, a legal edit of its parent",
 "Every mutation applied to a well-formed expression yields a well-formed expression over the configured operators, the available variables and consistently numbered constants, with no unreferenced constants. Each kind of mutation makes only the edit it is named after: one constant scaled, one operator exchanged for another of the same arity, one variable replaced by another, two operands exchanged, one rotation, one operator inserted or deleted while all other parts are carried over unchanged. A random replacement has any size up to the size limit, each equally likely, and new leaves are constants or variables in equal parts, with variables equally likely and constants standard normal.",
 ["inputs", "programs"], "all parent expressions x operator sets x mutation kinds x random choices",
 "Tests run single seeds on single trees; a wrong splice or constant index shows only for particular shapes and choices.",
 [SR+"mutation_functions.rs", SR+"mutate.rs"], [("postfix subtree splicing", SR+"mutation_functions.rs"), ("renumbering of constants", DE+"node_utils.rs")], ["offspring of each mutation kind"])
prop("P07", "Reported equations satisfy the size, depth and operator constraints",
 "Every equation in the hall of fame, and the reported best equation whenever any equation seen satisfies them, respects the maximum size measured with the configured complexities, the maximum depth, the per-argument size limits of operators and the nesting limits. The acceptance decision for a candidate agrees with these definitions exactly, for any complexity assignment.",
 ["configurations", "inputs", "histories"], "all constraint and complexity configurations x expressions x searches",
 "Tests check one constraint at a time on hand-made trees, not their combination nor what whole searches output.",
 [SR+"check_constraints.rs", SR+"complexity.rs", SR+"hall_of_fame.rs", SR+"search_utils.rs"],
 [("constraint check before accepting an offspring", SR+"mutate.rs"), ("constraint check on entry to the hall of fame", SR+"hall_of_fame.rs")], ["hall of fame and best of a search"])
prop("P08", "Reported loss, cost and complexity are true for the full dataset",
 "For every equation reported by a search (hall of fame, Pareto front, best), the stated loss equals the configured loss of that equation's predictions on the complete training dataset with its weights, the stated complexity is the configured complexity, and the stated cost is the loss normalised by the baseline plus the parsimony penalty. This holds for every configuration, including mini-batching.",
 ["histories", "configurations", "inputs"], "all searches: loss functions, weights, batching, complexity and parsimony settings, seeds, cycle counts",
 "Tests look at returned losses of single members; stale losses arise from sequences of mutation, simplification, optimisation, batching and migration.",
 [SR+"pop_member.rs", SR+"search_utils.rs", SR+"single_iteration.rs", SR+"loss_functions.rs", SR+"complexity.rs"],
 [("re-evaluation after simplification and constant optimisation", SR+"single_iteration.rs"), ("cost formula", SR+"loss_functions.rs")], ["hall of fame, Pareto front and best of a search"])
prop("P09", "The hall of fame only improves and its Pareto front is exact",
 "During a search the hall of fame never loses a complexity level and never replaces an equation by a costlier one of the same complexity, and after any sequence of candidates it holds for each complexity a cheapest admissible candidate offered. The Pareto front consists exactly of the entries that strictly improve the loss over all simpler ones, ordered by complexity, and the reported best is never worse in loss than any hall-of-fame entry and never gets worse.",
 ["histories", "inputs"], "all sequences of candidates and all searches observed at every step",
 "Tests insert a few members by hand; monotonicity is a statement about every prefix of every search.",
 [SR+"hall_of_fame.rs", SR+"search_utils.rs"], [("replacement rule per complexity", SR+"hall_of_fame.rs"), ("best tracking", SR+"search_utils.rs")], ["hall of fame after every step"])
prop("P10", "A search is a deterministic function of dataset, options and seed",
 "Running the same stepwise search twice with equal dataset, options and seed gives identical hall of fame, best equation, losses and evaluation counts, no matter how the work is divided into steps or what else runs in the process. A parallel search restricted to one worker returns the same result as the stepwise search, and different seeds lead to different searches.",
 ["configurations", "histories", "schedules"], "all options and seeds x all partitions of the run into steps x concurrent activity",
 "Tests fix one seed and one step size; hidden global state or hash-order dependence only shows when runs are repeated and interleaved.",
 [SR+"search_utils.rs", SR+"random.rs", SR+"operators.rs"], [("per-population seeded generators", SR+"search_utils.rs"), ("seeded task order", SR+"search_utils.rs")], ["result of stepwise and parallel searches"])
prop("P11", "A parallel search terminates, does all its work and surfaces worker failures",
 "A parallel search returns for every thread-pool size, number of populations and calling context, including calls from inside a pool and several searches sharing one pool. It performs exactly the configured number of population cycles, and if evaluation panics in a worker the panic reaches the caller instead of a hang or a partial result.",
 ["schedules", "fault_sequences", "configurations"], "all worker schedules x pool sizes x nesting x points at which a worker fails",
 "Tests run one search on the default pool; deadlocks need small pools, nesting or failures at particular moments.",
 [SR+"search_utils.rs"], [("dispatch/collect loop over a channel", SR+"search_utils.rs"), ("one result per task", SR+"search_utils.rs")], ["return or panic of the search call; operator evaluations as heartbeat"])
prop("P12", "Evolution conserves the population and keeps ids, ages and lineage consistent",
 "Through every evolution cycle, optimisation pass and migration each population keeps its configured size, one offspring per tournament replaces the oldest member (a failed attempt does so with a copy of its parent, or not at all when failures are skipped), each member is chosen for constant optimisation with the configured probability wherever it stands, and every member's stored evaluation plan, complexity and expression agree. Member ids identify one expression across populations and the hall of fame, birth stamps grow, and migration only copies existing members, from the hall's Pareto front or the `topn` best of the other populations as they stand, with sources and places equally likely and their number a Poisson number (configured fraction times population size, capped by population and candidates), giving each copy a fresh id, birth stamp and its source as parent.",
 ["histories", "configurations"], "all searches and all sequences of cycles and migrations",
 "Tests call single replacements on two-member populations; drift needs many generations and migrations.",
 [SR+"regularized_evolution.rs", SR+"population.rs", SR+"migration.rs", SR+"single_iteration.rs", SR+"search_utils.rs"],
 [("replace-oldest", SR+"population.rs"), ("migration with fresh ids", SR+"migration.rs")], ["populations after each cycle"], hook="read access to the populations of a stepwise search, and to the migration and evolution-cycle functions")
prop("P13", "Constant optimisation never makes a member worse and finds easy optima",
 "Optimising the constants of an equation changes nothing but its constants, never increases its loss on the given data, keeps its reported loss, cost and complexity in agreement with the new constants, and reports improvement exactly when the loss decreased; without improvement the member is left exactly as it was. For well-conditioned problems (for example linear least squares) it reaches the optimum to tight accuracy within its call budget, which it respects.",
 ["inputs", "programs"], "all expressions with constants x datasets x losses x starting values x budgets",
 "Tests fit two formulas from one start; the line search and the quasi-Newton update have many rarely taken branches.",
 [SR+"constant_optimization.rs", SR+"optim.rs"], [("keep best of restarts, else restore", SR+"constant_optimization.rs"), ("backtracking line search", SR+"optim.rs")], ["member before and after optimisation"])
prop("P14", "Loss functions equal their definitions and their derivatives are consistent",
 "Every loss computes the (weighted) mean of its textbook point loss, or its root for the root-mean-square loss, for any finite predictions, targets and weights, is non-negative, and is zero for exact predictions. Its derivative with respect to each prediction is the derivative of that very function, scaling all weights changes nothing, unit weights equal no weights, and a loss selected by name or parameter is the loss requested.",
 ["inputs"], "all predictions, targets, weights, loss parameters, f32/f64, including large residuals",
 "Tests evaluate each loss on a few small residuals.",
 [SR+"loss_functions.rs"], [("weighted mean of point losses", SR+"loss_functions.rs")], ["loss value and derivative"])
prop("P15", "Datasets keep every value in place, whatever the layout, also in batches",
 "A dataset built from arrays of any memory layout exposes exactly the given features, targets and weights, row by row, and the (weighted) mean target. Every row of a resampled batch is an unaltered copy of one source row with its own target and weight, each source row is equally likely, and the source dataset is never modified.",
 ["inputs", "histories"], "all array shapes and memory layouts, with and without weights, and all resampling sequences",
 "Tests use contiguous arrays and check shapes or a single sample.",
 [SR+"dataset.rs"], [("layout normalisation", SR+"dataset.rs"), ("row resampling", SR+"dataset.rs")], ["dataset fields; loss of searches on strided data"])
prop("P16", "Printed expressions denote exactly the expression",
 "The printed form of an expression, read back with ordinary precedence rules, denotes the same expression: same operators, operand order, variables and constants. Custom variable names and pretty names are used consistently and printing never loses the precision of a constant.",
 ["programs"], "all expressions, operator sets and variable names",
 "Tests compare a few fixed strings; missing parentheses show only for particular nestings.",
 [DE+"strings.rs"], [("parenthesisation rules", DE+"strings.rs")], ["printed string"])
prop("P17", "Operator selection offers exactly the requested operators, sampled uniformly",
 "Selecting operators by name yields exactly the named operators with the requested arity, without duplicates, for every spelling the library documents, and every unknown, ambiguous or misplaced name is rejected with an error that names it. Sampling only returns selected operators, with arity chosen in proportion to the number of operators that fit and operators uniform within their arity.",
 ["inputs", "configurations"], "all name lists, arities and operator sets",
 "Tests look up a few names and do not check distributions.",
 [SR+"operators.rs", SR+"operator_library.rs", DE+"operator_enum.rs"], [("token lookup", SR+"operators.rs"), ("arity sampling", SR+"operators.rs")], ["selected operators and samples"])
prop("P18", "Tournament selection returns the right member with the right probability",
 "Parent selection draws a uniformly random subset of the configured size without repetition and returns its member of rank k with probability proportional to p(1-p)^(k-1), ranked by cost multiplied by the frequency penalty when that is enabled. It always returns an unmodified copy of an existing member, and never fails on infinite or zero costs, oversized tournaments or any frequency statistics.",
 ["inputs", "configurations"], "all populations, costs including ties, zero and infinity, tournament sizes, probabilities and statistics",
 "Tests cover one population with extreme parameters; ranks and probabilities are statistical.",
 [SR+"selection.rs", SR+"adaptive_parsimony.rs"], [("weighted place in the sorted sample", SR+"selection.rs")], ["selected member"])
prop("P19", "The browser interface ingests, splits and scores data faithfully",
 "Reading a CSV table yields exactly its numbers in the selected columns with the right names, or an error for malformed tables and inconsistent column choices. The train/validation split partitions the rows, has the requested size, never leaves the training set empty and depends only on its inputs; the reported metrics equal their definitions, and every option set by the user reaches the search. A session answers every request with the equations, scores and predictions of the search it runs, on the rows asked for, and refuses invalid requests with an error; it offers exactly the operators and default options that the library has.",
 ["inputs", "configurations"], "all tables, column selections, fractions, seeds, predictions, weights and option values",
 "Only option defaults are tested there.",
 ["web/wasm/src/lib.rs", SR+"options.rs"], [("CSV parsing and column mapping", "web/wasm/src/lib.rs"), ("split", "web/wasm/src/lib.rs"), ("metrics", "web/wasm/src/lib.rs")], ["datasets, split, metrics, options"], hook="the binding functions are private and their public wrappers need a JavaScript host")
prop("P20", "Offspring are accepted by the annealing rule and carry true bookkeeping",
 "An offspring is accepted with probability min(1, exp(-cost increase / (temperature x alpha)) x frequency ratio), each factor only when enabled; a simplified parent, which keeps its scores, is always accepted, an offspring that violates a constraint or a changed one without finite cost never. Within an iteration the temperature falls linearly from one to zero. Mutation kinds are drawn in proportion to their weights among those that apply (changing constants weighted by their number, up to eight). Every returned offspring has a fresh id, its parent's id as parent, a fresh birth stamp, a loss, cost, complexity and plan that belong to its own expression, and a rejected attempt returns the parent's expression unchanged.",
 ["inputs", "histories", "configurations"], "all parents, temperatures, statistics, weights and random choices",
 "Acceptance is a probability over random draws; tests exercise single seeds.",
 [SR+"mutate.rs"], [("acceptance probability", SR+"mutate.rs"), ("weights conditioned on the member", SR+"mutate.rs")], ["offspring returned for a parent"])
prop("P21", "Expression algebra builds the expression it denotes",
 "Combining expressions with arithmetic operators, negation, builder functions and scalar operands yields an expression whose value on every row is that operation applied to the operands' values, in operand order. Operands are not altered, constants of both sides are kept apart, and the result is well-formed with the variable names of the first operand that has any.",
 ["programs", "inputs"], "all operand expressions, operators and scalars, on either side",
 "Tests combine a few two-leaf expressions.",
 [DE+"expression_algebra.rs", DE+"expression.rs"], [("concatenation with constant renumbering", DE+"expression_algebra.rs")], ["value and structure of the combined expression"])
prop("P22", "Complexity statistics form a distribution that tracks the observed sizes",
 "The running statistics count every observed in-range size once, ignore others, and after normalisation sum to one with positive probability for every size. Moving the window reduces the total to the window size whenever possible without dropping any size below one, never changes the order of two sizes' frequencies and never changes totals that are within the window.",
 ["histories"], "all sequences of observations, window moves and normalisations",
 "Tests run one short sequence.",
 [SR+"adaptive_parsimony.rs"], [("window shrinking", SR+"adaptive_parsimony.rs")], ["frequencies and normalised frequencies"])
prop("P23", "No valid use panics, overflows, reads out of bounds or races",
 "Evaluating, differentiating, mutating, simplifying, printing and searching with any valid configuration and any data, including non-finite values, never panics, overflows an integer, accesses memory out of bounds, uses uninitialised memory or races. This includes option values at the edges of their ranges and the smallest datasets and populations.",
 ["inputs", "configurations", "schedules"], "all valid configurations and data, all schedules of the parallel search",
 "Tests are built for comfortable sizes and run without sanitizers.",
 [SR+"search_utils.rs", SR+"mutate.rs", SR+"selection.rs", SR+"warmup.rs", DE+"evaluate.rs", DE+"dispatch.rs"], [("slice indexing and buffer sizing", DE+"evaluate.rs"), ("task dispatch", SR+"search_utils.rs")], ["process outcome under sanitizers"])
prop("P24", "The size limit warms up from three to the maximum and then stays there",
 "While the size limit warms up, the limit in force grows from three to the configured maximum in proportion to the elapsed fraction of the search, never decreases and never exceeds the maximum; afterwards and without warm-up it is the maximum. No new equation larger than the limit in force enters the hall of fame during a cycle.",
 ["configurations", "histories"], "all warm-up fractions, maximum sizes, cycle counts and searches",
 "Tests check one or two points of the schedule.",
 [SR+"warmup.rs", SR+"search_utils.rs"], [("schedule", SR+"warmup.rs"), ("limit passed to each cycle", SR+"search_utils.rs")], ["sizes entering the hall of fame per cycle"])
prop("P25", "Search recovers simple laws from clean data",
 "Given noiseless data from a short formula over the available operators and a moderate budget, the search reports an equation with essentially zero loss. Without size warm-up, more iterations with otherwise equal settings never give a worse best loss in the stepwise search.",
 ["inputs", "configurations"], "a family of target formulas, datasets, operator sets, losses and seeds",
 "Tests run far smaller searches and only check that something is returned.",
 [SR+"search_utils.rs", SR+"regularized_evolution.rs", SR+"mutate.rs", SR+"constant_optimization.rs"], [("evolution with constant optimisation and migration", SR+"single_iteration.rs")], ["best loss of a search"])
prop("P26", "Tree measurements and constant editing agree with the tree",
 "Size, depth, subtree boundaries, operator and leaf counts and constant lists reported for an expression are those of the tree it denotes, and malformed node sequences are recognised as such. Reading constants and writing them back, in any order or subset, changes exactly the addressed constants, and compacting constants keeps the denoted expression.",
 ["programs", "inputs"], "all expressions and malformed node sequences",
 "Tests measure a few small trees.",
 [DE+"node_utils.rs", DE+"node.rs", DE+"utils.rs", DE+"traits.rs"], [("single pass over the postfix sequence", DE+"node_utils.rs")], ["reported measurements"])
prop("P27", "Crossover exchanges exactly one subtree between two parents",
 "Crossover of two expressions yields two well-formed expressions, the first obtained from the first parent by replacing one of its subtrees with a subtree of the second, and the second by the reverse exchange of the same two subtrees, with all constants keeping their values. Offspring violating a constraint are never returned as successful, parents are unchanged, every subtree can be chosen, and each offspring is scored on its own.",
 ["inputs", "programs"], "all pairs of expressions, including shared constants, x random choices",
 "Tests run one seed and check lengths.",
 [SR+"mutation_functions.rs", SR+"mutate.rs"], [("subtree splice with constant remapping", SR+"mutation_functions.rs")], ["offspring pair"], hook="crossover is not public")
prop("P28", "A search does exactly the work it reports",
 "Each step of the stepwise search performs as many population cycles as asked for, or as many as are left, and returns that number; every iteration gives each population exactly one cycle, and the totals, completed cycles and end of the search are reported accordingly. Steps after the end change nothing. The evaluation count grows by exactly one for each expression scored on data: initial members, offspring whether accepted, rejected or failing, members seen in batches and members rescored at the end of a cycle (evaluations inside constant optimisation come on top).",
 ["histories", "configurations", "inputs"], "all step sequences of all searches, all option combinations",
 "Tests step a search once and compare nothing but the end.",
 [SR+"search_utils.rs", SR+"single_iteration.rs", SR+"mutate.rs", SR+"regularized_evolution.rs"], [("step, prepare_iteration and apply_task_result", SR+"search_utils.rs"), ("evaluation counts of offspring", SR+"mutate.rs")], ["step return value, cycles_completed, total_evals, operator applications"], hook="populations of an engine are not public")
prop("P29", "The progress display shows the true state of the search",
 "On a terminal of at least 80 columns, a search with its progress display on shows how many of all cycles are done, the evaluations made so far, their rate, the elapsed time and a table with exactly the Pareto front of that moment: complexity, loss to four digits and the whole equation, wrapped over lines if needed, none missing and none twice. What is shown belongs to one completed cycle, never goes back and lags by at most half a second and a cycle; the last picture shows everything done and the final state. Nothing is shown when the display is off or the output is no terminal.",
 ["histories", "configurations", "inputs"], "all searches, equations, terminal widths and timings",
 "The display needs a terminal, which tests do not have; they check one header line.",
 [SR+"progress_bars.rs", SR+"search_utils.rs"], [("rate-limited message with wrapped table", SR+"progress_bars.rs"), ("calls after each cycle", SR+"search_utils.rs")], ["bytes written to the terminal"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
print(len(P))
