"""Property texts (written to properties.jsonl by gen.py) and the manifest frame."""
SPECS = []
def S(id, title, statement, quant, why, files, mech, over=("inputs",), observe=(), hook=None):
    SPECS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=list(files), mech=list(mech), over=list(over), observe=list(observe), hook=hook))
DE = "dynamic_expressions/src/"; SR = "symbolic_regression/src/"

S("C01", "Evaluating an expression computes exactly what the tree denotes",
  "For every well-formed expression, data set (any number of rows, including one) and evaluation options, every row of the evaluated output is bit for bit what applying the operators of the tree to that row's variables and the expression's constants in order gives. Neither the order in which intermediate results are computed, nor scratch memory left over from earlier use, nor row count or options change a value that the evaluation reports as complete. Malformed node sequences are rejected, never evaluated to a value.",
  "every tree shape, operator choice, constant, row value and option within the stated size", "Tests evaluate a few fixed trees on a few rows; slot reuse, operand order and batching bugs depend on tree shape and operand kinds in combination.",
  [DE + "compile.rs", DE + "evaluate.rs", DE + "dispatch.rs", DE + "operator_enum.rs"], [("compiled plan with slot reuse", DE + "compile.rs: compile_plan"), ("kernels", DE + "evaluate.rs: eval_plan_array_into, eval_nary")], ["inputs", "programs"], ["eval_tree_array", "eval_tree_array_into", "eval_plan_array_into"])
S("C02", "The completion flag tells exactly whether intermediate results stayed finite",
  "With finiteness checking on, evaluation reports incomplete if and only if some operator application in the tree yields a non-finite value at some row; with checking off it always reports complete. Early exit may only stop work on evaluations that are reported incomplete: a complete result has every row fully computed. The values half of derivative and gradient evaluation obeys the same rule.",
  "every tree, data value (NaN, infinities, subnormals included), row position and option combination", "Tests use one or two non-finite inputs; the flag must be right whichever node and row produces the value and however values later cancel.",
  [DE + "evaluate.rs", DE + "evaluate_derivative.rs"], [("per-kernel finiteness check", DE + "evaluate.rs: eval_nary, diff_nary, grad_nary"), ("plan-level early exit", DE + "evaluate.rs: eval_plan_array_into")], ["inputs", "configurations"], ["second component returned by eval_tree_array and friends"])
S("C03", "Directional derivatives and gradients follow the chain rule exactly",
  "For every expression, row and direction, the derivative with respect to a variable, and the gradient with respect to all variables or all constants, equal the chain rule applied over the tree: the sum over operands of the operator's partial derivative times the operand's derivative, where an operand that does not depend on the quantity differentiated contributes exactly zero. Repeated variables or constants accumulate; unused ones give zero; values returned alongside equal plain evaluation; zero rows give empty results of the right shape.",
  "every tree, operator partials, direction, data and constants", "Tests compare a handful of expressions with finite differences at sample points.",
  [DE + "evaluate_derivative.rs", DE + "evaluate.rs"], [("forward mode kernels", DE + "evaluate.rs: diff_nary, grad_nary"), ("plan walk", DE + "evaluate_derivative.rs")], ["inputs", "programs"], ["eval_diff_tree_array", "eval_grad_tree_array"])
S("C04", "Built-in operators compute the function they are named after, and its derivative",
  "Every built-in operator returns, for every argument, the value of the function it is named after, in f32 and f64 alike; its partial derivatives are that function's derivatives wherever the function is differentiable; and operators flagged commutative or associative really are.",
  "every built-in operator, argument index and argument value", "Tests probe single points with tolerances; sign, branch and argument-order slips hide between the points.",
  [DE + "operator_enum.rs"], [("operator table", DE + "operator_enum.rs: builtin_op!")], ["inputs"], ["eval_tree_array / eval_diff_tree_array on one-operator trees"])
S("C05", "Reusing an evaluation context never changes results",
  "Evaluating any sequence of expressions, data sets and options through one reused evaluation, derivative or gradient context gives the same values and flags as using a fresh context each time, including when an expression is edited in place between evaluations, when constants change, and when an earlier evaluation was cut short.",
  "every pair of consecutive evaluations (and aborted evaluations) on one context", "Tests reuse a context for one expression; staleness shows only for particular pairs.",
  [DE + "evaluate.rs", DE + "evaluate_derivative.rs", DE + "compile.rs"], [("plan cache", DE + "evaluate.rs: EvalContext"), ("plan cache", DE + "evaluate_derivative.rs: DiffContext, GradContext")], ["histories", "inputs"], ["eval_tree_array_into", "eval_diff_tree_array", "eval_grad_tree_array"])
S("C06", "Simplification keeps the function, the shape and the size in bounds",
  "Simplifying any well-formed expression leaves a well-formed expression that is no larger and denotes the same function: folding a constant subexpression keeps its exact value and is done whenever that value is finite, and regrouping constants through addition, subtraction and multiplication is exact up to reassociation. Constants stay finite, no unused constant remains after full simplification, and when no change is reported nothing has changed. Operators that merely share an internal number with another operator of different arity are never confused.",
  "every tree over +, -, * and arbitrary other operators, all finite constants (shared and unused entries included)", "Tests check about ten fixed rewrites.",
  [DE + "simplify.rs", DE + "utils.rs"], [("constant folding", DE + "simplify.rs: simplify_tree_in_place"), ("constant regrouping", DE + "simplify.rs: combine_node"), ("table compaction", DE + "utils.rs: compress_constants")], ["inputs", "programs"], ["simplify_in_place", "simplify_tree_in_place", "combine_operators_in_place"])
S("C07", "Composing expressions and editing their constants is exact",
  "Combining expressions with operators, scalars or the named wrapper functions yields the operator applied to the operands in order, each keeping its own constants, with the variable names of the first operand that has any. Reading constants and writing them back, or compacting the constant table, never changes which constant a leaf uses nor which leaves share one, and structural queries (size, depth, counts, subtree spans, validity) agree with the tree.",
  "all operand trees, constants and scalars; every node sequence for the structural queries", "Tests combine a few expressions; constant offset and sharing errors need particular combinations of tables.",
  [DE + "expression_algebra.rs", DE + "operators.rs", DE + "utils.rs", DE + "node_utils.rs"], [("operand merge with constant offsets", DE + "expression_algebra.rs: __apply_postfix"), ("constant access", DE + "utils.rs"), ("tree folds", DE + "node_utils.rs")], ["inputs", "programs"], ["+ - * / neg, operators::*", "get/set_scalar_constants", "compress_constants", "subtree_sizes, subtree_range, count_depth, is_valid_postfix"])
S("C08", "Rendered text denotes exactly the rendered expression",
  "The text rendered for an expression can be read back unambiguously as that expression: infix operators are parenthesised wherever grouping matters, function-style operators list their arguments in order, each constant and variable appears under its own name, and only redundant outermost parentheses are dropped. Names supplied for the rendering win over the expression's own, and missing ones fall back to the default name; two different expressions never render alike.",
  "every tree, every naming source, plain and pretty form (names and constants free of blanks, commas and parentheses)", "Tests compare a few rendered strings.",
  [DE + "strings.rs"], [("rendering fold", DE + "strings.rs: string_tree"), ("parenthesis stripping", DE + "strings.rs: strip_outer_parens")], ["inputs", "programs"], ["string_tree", "Display"])
S("C09", "Operator names resolve to exactly the operators they denote",
  "A token resolves to an operator exactly when, after trimming, it equals the operator's name ignoring case, or its display or infix symbol; no match and several matches are reported as errors naming the token and listing the candidates, and asking for an arity considers only that arity. Building an operator selection from tokens yields exactly the requested operators, once each, in order and under their arity, or the error for the first token that is unknown, ambiguous, duplicated or of too large an arity; random draws only ever yield selected operators within the arity cap, each of them possible and arities in proportion to how many operators they have.",
  "every ASCII token, every list of tokens over an operator table with clashing names, every draw", "Tests resolve a dozen tokens.",
  [DE + "traits.rs", SR + "operators.rs"], [("token lookup", DE + "traits.rs: matches_token, lookup, lookup_with_arity"), ("selection", SR + "operators.rs: from_names, from_names_by_arity, sample_arity, sample_op")], ["inputs", "configurations"], ["OperatorSet::lookup*", "Operators::from_names*"])
S("C10", "Mutation, crossover and random generation build well-formed expressions and make only the change they name",
  "Every tree-editing operator of the search - changing a constant, operator or variable, swapping operands, rotating, appending, prepending, inserting or deleting an operator, crossover, and random generation - turns a well-formed expression into a well-formed one that uses only selected operators under their own arity, existing variables and existing constants, and differs from the original by exactly one change of the kind named: everything outside the edited place, the order of operands, constant values, constant sharing and variable names stay as they were. It reports success exactly when such a change was possible, and a refused change alters nothing. Crossover exchanges one subtree of each parent, each with its own constant values; random generation gives exactly the requested size or number of operators where the selected arities permit.",
  "every tree, operator selection and sequence of random draws within the stated size", "Tests run random mutations and check validity of what came up; wrong spans, shared constants and rare draws go unnoticed.",
  [SR + "mutation_functions.rs", SR + "random.rs"], [("tree surgery on postfix spans", SR + "mutation_functions.rs"), ("random trees", SR + "mutation_functions.rs: random_expr, random_expr_append_ops")], ["inputs", "schedules"], ["mutate_*, swap_operands, rotate_tree_in_place, insert/append/prepend/delete, crossover_trees, random_expr"])
S("C11", "Size, depth and nesting limits are enforced exactly as configured",
  "An expression is accepted by the constraint check exactly when its complexity is within the current size limit, its depth within the depth limit, every operator's arguments within their configured size limits, and no operator is nested inside another more often than the nesting rules allow. Complexity is the node count by default and the sum of the configured per-variable, per-constant and per-operator complexities otherwise; operators of equal number but different arity are kept apart.",
  "every tree shape and every setting of the limits within the stated size", "Tests check a few trees against one limit at a time.",
  [SR + "check_constraints.rs", SR + "complexity.rs"], [("constraint check", SR + "check_constraints.rs: check_constraints"), ("complexity", SR + "complexity.rs: compute_complexity")], ["inputs", "configurations"], ["check_constraints, compute_complexity"])
S("C12", "The hall of fame keeps the best at each size and its front is exactly the non-dominated part",
  "After any sequence of offers, the hall of fame holds, for every complexity, a member of that complexity whose cost no eligible offer of that complexity undercuts, the earliest of equals, unchanged; a member too complex or otherwise breaking the limits is never stored. The Pareto front is made of hall members in order of increasing complexity and strictly decreasing loss, and every hall member of finite loss is matched by a front member that is no more complex and no worse.",
  "every sequence of offers, all costs and losses that are numbers", "Tests insert two or three members.",
  [SR + "hall_of_fame.rs"], [("slot update", SR + "hall_of_fame.rs: consider"), ("front", SR + "hall_of_fame.rs: pareto_front")], ["histories", "inputs"], ["HallOfFame::consider, update_from_members, pareto_front"])
S("C13", "Losses, costs and member scores are what their definitions say",
  "Every built-in loss is the (weighted) mean of its row losses - root mean square being the root of the mean square - and its derivative is the gradient of that loss with respect to each prediction; no rows or no weight give zero loss. The cost is the loss divided by the baseline (never by less than 0.01) plus parsimony times complexity; the baseline is the loss of predicting zero. Evaluating a member stores exactly the loss of its expression's predictions, the cost that follows and its complexity, and infinite loss and cost whenever the evaluation is not finite.",
  "all predictions, targets, weights, loss parameters and baselines", "Tests check losses at one or two hand-made vectors.",
  [SR + "loss_functions.rs", SR + "pop_member.rs"], [("losses", SR + "loss_functions.rs: LossFn impls"), ("cost", SR + "loss_functions.rs: loss_to_cost"), ("member evaluation", SR + "pop_member.rs: PopMember::evaluate")], ["inputs", "configurations"], ["LossFn::loss, dloss_dyhat, loss_to_cost, PopMember::evaluate"])

S("C14", "Constant optimisation either strictly improves a member, consistently, or leaves it as it was",
  "Whatever the loss function answers, optimising a member's constants changes nothing but constants, loss, cost and age. If it reports an improvement, the stored loss is the loss of the expression with the stored constants, is strictly lower than the loss before, the cost follows from it, and the member counts as newly born; otherwise constants, loss, cost and age are bit for bit what they were. It does no work when switched off or when there are no constants.",
  "every loss function (arbitrary values and derivatives), data, constants and restart draws within the stated numbers of iterations", "Tests optimise one or two smooth problems that converge; failing line searches, non-finite losses and misleading derivatives are not reached.",
  [SR + "constant_optimization.rs", SR + "optim.rs"], [("accept or restore", SR + "constant_optimization.rs: optimize_constants"), ("minimisers", SR + "optim.rs: bfgs_minimize, newton_1d_minimize")], ["inputs", "configurations"], ["optimize_constants"])
S("C15", "Line search and minimisers report what they evaluated and move only where the objective justifies it",
  "Whatever the objective answers, the line search returns only a step whose evaluated value is finite and decreases the objective sufficiently (first-order condition), together with that value and that point; it tries the requested step first (within the largest allowed), halves it until a value is finite, then shrinks it to between a tenth and half each time, and stops at the first acceptable step. BFGS and Newton move only to accepted points, respect their evaluation budget and count their evaluations; their result is a point they evaluated, with its value, and for Newton the best iterate. Their steps follow their formulas: steepest descent first, then the BFGS update; gradient over curvature for Newton. The gradient they are given is the chain rule of the loss through the expression, using the data set's targets and weights.",
  "every sequence of objective answers within the stated number of steps; steps and gradients over exact real arithmetic", "Tests minimise a few smooth quadratics, which converge even with a wrong update, a wrong step rule or a stale value.",
  [SR + "optim.rs", SR + "constant_optimization.rs"], [("line search", SR + "optim.rs: backtracking_linesearch"), ("BFGS", SR + "optim.rs: bfgs_minimize"), ("Newton", SR + "optim.rs: newton_1d_minimize"), ("loss gradient", SR + "constant_optimization.rs: loss_and_grad")], ["inputs", "histories"], ["bfgs_minimize, newton_1d_minimize, backtracking_linesearch (through cfg(verif_hooks))", "optimize_constants"])
S("C16", "An evolution step breeds from the winner, scores every child truthfully and replaces only the oldest",
  "One mutation attempt takes one new id, and the child knows its parent: an accepted child is well formed, within the limits, carries the loss, cost and complexity of its own expression on the data it was evaluated on and a fresh age; a refused one is the parent's expression and scores. Children whose score is not finite are refused, a do-nothing step keeps everything, and acceptance by annealing and by size frequency follows its formula. Kinds of mutation that cannot apply get no chance. Crossover yields two children within the limits, each scored on its own expression, or the parents unchanged. A generation replaces exactly the oldest members - one for a mutation, two for a crossover - by the children of the tournament's winner, and nobody when a failed mutation is to be skipped; all others stay as they were.",
  "every draw, every finite data row, every parent and population within the stated sizes", "Tests run whole searches and look at the final loss only.",
  [SR + "mutate.rs", SR + "regularized_evolution.rs", SR + "population.rs"], [("mutation step", SR + "mutate.rs: next_generation"), ("crossover step", SR + "mutate.rs: crossover_generation"), ("aging", SR + "population.rs: replace_oldest, replace_two_oldest"), ("cycle", SR + "regularized_evolution.rs: reg_evol_cycle")], ["inputs", "schedules"], ["next_generation, crossover_generation, reg_evol_cycle (through cfg(verif_hooks))"])
S("C17", "Migration hands on copies of the best under new identities and touches nothing else",
  "The members offered for migration are the requested number of lowest-cost members of a population (all of them if fewer), as exact copies in order of cost. Migrating into a population replaces at most as many members as it has and as there are migrants, by copies of migrants - any migrant, any place - with the same expression and scores, consecutive new ids and ages and the migrant as parent; everybody else stays as they were. The number replaced follows the Poisson rule with mean fraction times size, and nothing moves without migrants, members or a positive finite fraction.",
  "every population, set of migrants, fraction and sequence of draws within the stated size", "Tests do not look at migration in isolation.",
  [SR + "migration.rs", SR + "random.rs"], [("selection of migrants", SR + "migration.rs: best_sub_pop"), ("replacement", SR + "migration.rs: migrate_into"), ("Poisson draw, shuffle", SR + "random.rs")], ["inputs", "schedules"], ["best_sub_pop, migrate_into, poisson_sample, shuffle (through cfg(verif_hooks))"])
S("C18", "Weighted draws and tournaments select what their rules say",
  "A weighted draw never yields an item of zero weight, gives each item exactly its share of the unit interval, and refuses weights that are negative, not finite or all zero. A tournament compares the requested number of different members, any of them, by cost (times the exponential of the scaled frequency of their size when so configured); without chance its winner is the best of them, and otherwise the place drawn follows the truncated geometric distribution of the configured probability. The winner is an exact copy of a member.",
  "every list of weights, every draw, every population with comparable costs within the stated size", "Tests check that bad weights panic and that sampled indices are distinct.",
  [SR + "selection.rs"], [("weighted draw", SR + "selection.rs: weighted_index"), ("tournament", SR + "selection.rs: best_of_sample, sample_tournament_place, sample_indices")], ["inputs", "schedules"], ["weighted_index, best_of_sample (through cfg(verif_hooks))"])
S("C19", "Size statistics count every member once, forget evenly and normalise to shares",
  "The running statistics start even, count each member at its own size once (sizes out of range nowhere), and leave everything else alone. Normalising gives every size its share of the total (zero when nothing was seen); asking for a size gives its share, never less than the floor, and the floor for sizes without statistics. When the total exceeds the window, forgetting levels the largest counts down evenly to exactly the window, never below one for any size and never raising any; otherwise nothing is forgotten.",
  "every vector of counts, window and size within the stated length; exact real arithmetic", "Tests do not exercise the window.",
  [SR + "adaptive_parsimony.rs"], [("counting", SR + "adaptive_parsimony.rs: update_frequencies"), ("forgetting", SR + "adaptive_parsimony.rs: move_window"), ("shares", SR + "adaptive_parsimony.rs: normalize, freq")], ["inputs"], ["RunningSearchStatistics (through cfg(verif_hooks))"])
S("C20", "The warm-up size limit grows on schedule from three to maxsize and stays there",
  "During the warm-up part of a search the size limit is three plus the elapsed share of the way to maxsize, rounded down; it never exceeds maxsize, never falls below three (or maxsize, if smaller), never shrinks as cycles pass, and equals maxsize once the warm-up is over or when there is none.",
  "every warm-up fraction, number of cycles and maxsize within the stated size", "Tests sample two points of the schedule.",
  [SR + "warmup.rs"], [("schedule", SR + "warmup.rs: get_cur_maxsize")], ["inputs", "configurations"], ["get_cur_maxsize (through cfg(verif_hooks))"])
S("C22", "Data sets and batches keep every row together with its target and weight",
  "A data set holds exactly the values it was given, whatever the memory layout of the arrays: every feature value at its row, every target and every weight, with the (weighted) mean of the targets; members are scored on exactly these rows. A batch has the requested number of rows, each a whole row of the full set - features, target and weight of one and the same row, any row - and keeps the full set's mean and names; drawing a batch leaves the full set alone.",
  "all values, memory layouts, batch sizes and draws within the stated size", "Tests resample one batch of four rows.",
  [SR + "dataset.rs"], [("construction", SR + "dataset.rs: build_dataset, compute_avg_y"), ("batches", SR + "dataset.rs: make_batch_buffer, resample_from")], ["inputs", "schedules"], ["Dataset::new, with_weights_and_names, make_batch_buffer, resample_from"])

S("C21", "A search keeps its books, and everything it reports is true, within the limits and never worse than before",
  "Stepping a search performs as many cycles as asked or as remain (iterations times populations in all), and counts them; every population gets one turn per iteration, in any order; a finished search stays as it is. At every moment each hall-of-fame entry sits in the slot of its size, satisfies the limits in force when it entered, and carries the loss and cost of its own expression on the full data set, as does the best member and, after its turn, every member of a population - also with batching, constant optimisation, simplification and migration on. A slot never gets worse or emptied, nothing in the hall has a lower loss than the best, the best never gets worse and respects the limits as soon as anything found does, and (where acceptance depends on the score alone) nothing that was ever scored beats everything in the hall. Populations keep their size; ids are unique and, like ages, taken from their population's own counter; every member is counted in the size statistics once per turn; evaluations are counted. The temperature falls evenly from one to zero over the cycles of an iteration when annealing, and migrants come only from the other populations' best or from the front of the hall, as configured.",
  "every data row, draw and sequence of steps within the stated numbers of populations, members, iterations and cycles", "Tests run a few whole searches with fixed seeds and look at the final loss.",
  [SR + "search_utils.rs", SR + "single_iteration.rs", SR + "hall_of_fame.rs"], [("stepping", SR + "search_utils.rs: SearchEngine::step"), ("result of a cycle", SR + "search_utils.rs: execute_task, apply_task_result"), ("one iteration", SR + "single_iteration.rs: s_r_cycle, optimize_and_simplify_population"), ("start", SR + "search_utils.rs: init_populations")], ["inputs", "histories", "configurations"], ["SearchEngine::{new, step, run_to_completion, total_cycles, cycles_completed, total_evals, is_finished, hall_of_fame, best}"], "SearchEngine::verif_pops, verif_stats (cfg(verif_hooks))")
S("C23", "The same seed gives the same search",
  "Two searches with the same options, seed and data make the same random draws from the same seeded generators and end in the same state - best member, hall of fame, populations, ids, scores and number of evaluations - however the steps are grouped. All randomness comes from generators derived from the seed, a different one for every population and for the order of the turns; another seed gives other generators. A parallel search with one worker gives the same result as stepping.",
  "every seed, pair of seeds, data row, draw and grouping of steps within the stated sizes", "Tests repeat a run at most once with one seed.",
  [SR + "search_utils.rs"], [("generators", SR + "search_utils.rs: init_populations, SearchEngine::new, equation_search_parallel"), ("turns", SR + "search_utils.rs: prepare_iteration, run_scoped_search")], ["inputs", "histories"], ["SearchEngine::step", "equation_search"])
S("C24", "A parallel search gives a true and consistent result whatever the order of completion",
  "However many workers there are and in whatever order their tasks complete, a parallel search ends, and its result obeys the same rules as a sequential one: each hall-of-fame entry in the slot of its size, within the limits, with the loss and cost of its own expression on the full data set, and a best member that is true, within the limits, and no worse than any entry. No turn is lost: where acceptance depends on the score alone, nothing that was ever scored beats everything in the hall.",
  "every data row, draw, number of workers and order of completion within the stated sizes", "A test run sees one schedule.",
  [SR + "search_utils.rs"], [("dispatch and collection", SR + "search_utils.rs: run_scoped_search"), ("result of a cycle", SR + "search_utils.rs: apply_task_result")], ["schedules", "inputs"], ["equation_search"])
S("C25", "The browser layer splits, scores and shows the data and equations it was given",
  "What the browser sees is faithful: CSV cells land in the row and column they stand in and ill-formed input is refused; the data set has exactly the chosen feature, target and weight columns; the validation split puts every row, with its own features, target and weight, on exactly one side, in the proportion asked for, always leaving rows to train on, and depends on the seed alone; the metrics are the weighted mean errors, the coefficient of determination, the plain Pearson correlation and the extreme errors of the given predictions; every option and the named loss reach the engine; and a snapshot shows the engine's own best member, progress and the most accurate part of its front, each point of which can be looked up and evaluated as shown.",
  "every data value, weight, seed, draw, choice of columns and option value within the stated sizes", "The web crate has three tests, of default option values only.",
  ["web/wasm/src/lib.rs", SR + "options.rs"], [("split", "web/wasm/src/lib.rs: make_split_indices, split_train_val, select_rows"), ("data set", "web/wasm/src/lib.rs: parse_csv_to_rows, build_full_dataset"), ("metrics", "web/wasm/src/lib.rs: compute_metrics, r2_and_corr"), ("options", "web/wasm/src/lib.rs: options_from_wasm; " + SR + "options.rs: WasmOptionsShim::apply_to"), ("snapshot", "web/wasm/src/lib.rs: snapshot, find_member_by_id, eval_member_on_dataset")], ["inputs"], ["WasmSearch"])

def manifest(checks, na, commits):
    return {"version": 1, "setup_cmd": "python3 bin/setup.py",
      "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' on the harness crates' build (bin/check.py)", "source_commits": commits},
      "checks": checks, "not_applicable": na,
      "notes": "All checks: bin/check.py builds harness crate h (path dependencies on /repo) to whole-program LLVM IR, executes it symbolically with rsx (this repository) and z3, and replays counterexamples natively. Bounds per harness are in bin/props.py and in each evidence file."}
