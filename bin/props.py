"""What each check runs: harness binary, harnesses, tier bounds, required coverage points."""
# H(name, quick params, thorough params, **opts)
#   covers: coverage points that must be reached on the unchanged tree (vacuity guard)
#   mode: 'uf' (default; floats as uninterpreted functions, refined to IEEE/real on demand) or 'ieee'
def H(name, q=(), t=None, covers=(), mode="uf", bounds="", **kw):
    return dict(name=name, q=list(q), t=list(q if t is None else t), covers=list(covers), mode=mode, bounds=bounds, **kw)

PROPS = {}
def P(pid, *hs, crate="h", assume=(), bin=None):
    PROPS[pid] = dict(bin=bin or pid.lower(), crate=crate, harnesses=list(hs), assume=list(assume))

COMMON_ASSUME = [
  "float comparison/branching is first decided with float operations as uninterpreted functions (sound for 'holds'), refined to IEEE-754 or exact-real queries where that is not enough",
  "libm functions are uninterpreted (any deterministic function)",
  "rustc/LLVM front end (opt-level 2, fat LTO, panic=abort, overflow checks on) preserves source semantics",
  "fastrand replaced by a stub returning any value its contract allows",
]

P("C01",
  H("h_eval_big", (1, 2), (1, 3), covers=[1], bounds="larger trees of eight shapes, 9..p0-list nodes (0: ..40, 1: ..130, 2: ..20, 3: ..33), p1 rows, all values"),
  H("h_layout", (3,), (4,), covers=[1], bounds="trees<=p0 nodes; transposed, strided and offset views of the data"),
  H("h_eval_tree", (4, 1), (5, 2), covers=[1, 2, 3, 4, 100], bounds="trees<=p0 nodes, arity<=3, 2 features, 2 constants, rows<=p1, all options"),
  H("h_eval_deep", (9, 2), (11, 3), covers=[0, 1, 2, 3], bounds="every tree shape<=p0 nodes, arity<=3, distinct leaves, p1 rows"),
  H("h_eval_rows", (0, 4), (1, 5), covers=[1, 2, 3, 4], bounds="trees<=p1 nodes; 3..34, 63..66, 127..129, 255, 257, 513 (thorough: up to 1026) rows, all values"),
  H("h_malformed", (3,), (5,), covers=[1, 2, 3], bounds="every node sequence<=p0 incl. out-of-range leaves"),
  H("h_eval_plan", (4,), (5,), covers=[1, 2, 3, 4], bounds="trees<=p0 nodes, 2 rows, arbitrary scratch contents/shape"),
)
P("C02",
  H("h_flag_big", (0,), (1,), covers=[1, 2], bounds="larger trees of eight shapes, 9..p0-list nodes (0: ..40, 1: ..130, 2: ..20, 3: ..33); first non-finite result from any operator"),
  H("h_flag", (4, 2), (5, 2), covers=[1, 2, 3, 4], bounds="trees<=p0 nodes, arity<=3, rows<=p1, all options, all values"),
  H("h_flag_rows", (2, 4), (3, 4), covers=[2, 3, 4], bounds="trees<=p1 nodes; 4, 9, 17, 33, 65 (thorough: up to 129) rows, the non-finite result in any row"),
  H("h_flag_diff", (3, 2), (4, 2), covers=[1, 3, 4], bounds="trees<=p0 nodes, rows<=p1, all options"),
  H("h_flag_grad", (3, 2), (4, 2), covers=[1, 3, 4], bounds="trees<=p0 nodes, rows<=p1, all options, both gradient kinds"),
)
P("C03",
  H("h_big", (0,), (0,), covers=[0, 1, 2], bounds="larger trees of eight shapes, 9..p0-list nodes (0: ..40, 1: ..130, 2: ..20, 3: ..33), 3 variables and 2 constants repeated, non-zero inner derivatives; exact real arithmetic"),
  H("h_rows", (0, 4), (1, 4), covers=[1, 2, 3, 4], bounds="trees<=p1 nodes; 3..34, 63..66, 127..129, 255, 257, 513 (thorough: up to 1026) rows, derivative and both gradients"),
  H("h_diff", (4, 2), (5, 2), covers=[1, 2, 3, 4], bounds="trees<=p0 nodes, 2 features, 1 constant, p1 rows, every direction"),
  H("h_diff_deep", (6, 1), (8, 1), covers=[1, 6], bounds="every shape<=p0 nodes"),
  H("h_grad", (4, 2), (5, 2), covers=[1, 2, 3, 4], bounds="trees<=p0 nodes, 2 features, 2 constants, p1 rows, both gradient kinds"),
  H("h_grad_deep", (6, 1), (8, 1), covers=[1, 6], bounds="every shape<=p0 nodes"),
  H("h_grad_shared", (5,), (6,), covers=[1, 5], bounds="trees<=p0 nodes over one variable and one constant"),
  H("h_no_rows", covers=[1, 2, 3], bounds="trees<=3 nodes, zero rows"),
  H("h_pow_const", covers=[0, 1], bounds="x^c, all x, all c"),
)
P("C04",
  H("h_value", covers=[1, 2, 3], bounds="every built-in f64 operator, every argument value"),
  H("h_value32", covers=[1, 2, 3], bounds="every built-in f32 operator, every argument value"),
  H("h_partial", covers=[1, 2, 3, 10], bounds="every built-in operator and argument index, every finite regular point (exact real arithmetic)"),
  H("h_flags", covers=[1, 2], bounds="every built-in operator, all values"),
)
P("C05",
  H("h_eval_ctx", (3, 2), (4, 2), covers=[1, 2, 3, 11, 12, 13], bounds="two arbitrary trees<=p0 nodes one after the other, p1 rows, 1-2 features, 0-2 constants"),
  H("h_eval_ctx_abort", (3,), (4,), covers=[1, 2], bounds="first evaluation aborted at any instruction; trees<=p0 nodes"),
  H("h_edit", (4,), (5,), covers=[1, 2, 3, 4], bounds="trees<=p0 nodes; any node replaced in place, constants changed"),
  H("h_grad_ctx", (3, 1), (4, 2), covers=[1, 2, 3, 11, 12, 13], bounds="two arbitrary trees<=p0 nodes, either gradient kind each time"),
  H("h_diff_ctx", (3, 1), (4, 2), covers=[1, 2, 3, 11, 12, 13], bounds="two arbitrary trees<=p0 nodes, any direction each time"),
  H("h_digest", covers=[1], bounds="one pair of 23-node trees with equal 64-bit node digest; all data"),
)

P("C06",
  H("h_big", (0,), (1,), covers=[0, 1, 2], bounds="larger trees of eight shapes, 9..p0-list nodes (0: ..40, 1: ..130, 2: ..20, 3: ..33); constants in most leaves, a few or none"),
  H("h_fold", (5,), (6,), covers=[1, 2, 3], bounds="trees<=p0 nodes, arity<=3, 1-2 finite constants (shared/unused included), all options"),
  H("h_combine", (6,), (7,), covers=[1, 2], bounds="trees<=p0 nodes over + - * and uninterpreted operators with overlapping ids"),
  H("h_combine_chain", (4,), (5,), covers=[1, 2], bounds="left/right-leaning chains of p0 operators, every leaf kind and orientation"),
  H("h_all", (5,), (6,), covers=[1, 2], bounds="trees<=p0 nodes, all options"),
)
P("C07",
  H("h_big", (1,), (1,), covers=[1], bounds="larger trees of eight shapes, 9..p0-list nodes (0: ..40, 1: ..130, 2: ..20, 3: ..33)"),
  H("h_algebra", (3,), (4,), covers=list(range(8)), bounds="operands<=p0 nodes each, all values"),
  H("h_algebra_scalar", (4,), (5,), covers=list(range(11)), bounds="operand<=p0 nodes, all scalars"),
  H("h_algebra3", (2,), (3,), covers=[0, 1], bounds="three operands<=p0 nodes"),
  H("h_compress", (4, 3), (5, 4), covers=[0, 1], bounds="node sequences<=p0, tables<=p1 constants"),
  H("h_get_set", (4,), (5,), covers=[1, 2], bounds="trees<=p0 nodes"),
  H("h_structure", (5,), (6,), covers=[1, 2], bounds="every node sequence<=p0"),
)
P("C08",
  H("h_big", (1,), (1,), covers=[1], bounds="larger trees of eight shapes, 9..p0-list nodes (0: ..40, 1: ..130, 2: ..20, 3: ..33)"),
  H("h_roundtrip", (4,), (4,), covers=[0, 1, 2, 3, 5], bounds="trees<=p0 nodes over prefix, infix (arity 2 and 3) and unary-infix operators; all naming sources; plain and pretty"),
  H("h_names", (3,), (5,), covers=[1], bounds="trees<=p0 nodes; every number of supplied and own names 0..3"),
  H("h_deep", (8,), (9,), covers=[1], bounds="trees<=p0 nodes, one unary, three binary operators, different leaves"),
  H("h_injective", (5,), (6,), covers=[0, 1], bounds="pairs of trees<=p0 nodes"),
)
P("C09",
  H("h_lookup", (4,), (5,), covers=[1, 2, 3], bounds="every ASCII token up to p0 bytes against a table of 7 operators with clashing names"),
  H("h_select", (3,), (4,), covers=[10, 11, 12, 13, 14], bounds="every list of <=p0 of 10 tokens, D=2 and 3"),
  H("h_select_by_arity", (3,), (4,), covers=[10, 11, 12, 13, 14], bounds="every distribution of <=p0 of 10 tokens over the arities"),
  H("h_sample", covers=[1, 2, 3, 4, 5], bounds="0-2 operators per arity, every cap, every draw"),
  H("h_builtin", covers=[1, 2], bounds="every built-in operator"),
)
P("C11",
  H("h_big", (0,), (1,), covers=[0, 1], bounds="larger trees of eight shapes, 9..p0-list nodes (0: ..40, 1: ..130, 2: ..20, 3: ..33); every size cap<=60, depth cap<=50, argument limit<=60; nesting limits<=20"),
  H("h_limits", (6,), (7,), covers=[0, 1, 2, 4], bounds="trees<=p0 nodes, arity<=3, every size cap<=9, depth cap<=7, argument limit<=6"),
  H("h_custom", (5,), (6,), covers=[0, 1, 2, 4], bounds="trees<=p0 nodes, complexities of variables/constants/operators 0..4"),
  H("h_nested", (7,), (8,), covers=[0, 1, 3], bounds="trees<=p0 nodes over 2 unary and 1 binary operator, up to two nesting rules"),
)
P("C12",
  H("h_consider", (3, 3), (4, 3), covers=[1], bounds="every sequence of p0 members of complexity 1..p1, all costs (not NaN), all size caps"),
  H("h_front", (6,), (7,), covers=[1, 2], bounds="every hall of p0 slots, all losses (not NaN)"),
)
P("C13",
  H("h_mean", (1,), (2,), covers=[0, 1, 2, 3, 4, 5, 6], bounds="1 or 2 (p0=2: or 4) rows, weighted or not, every loss and parameter; exact real arithmetic"),
  H("h_rows", (2,), (7,), covers=[0, 1, 2, 3, 4], bounds="5, 9, 17 (p0=7: ..65) rows, one of them (each in turn) symbolic, parameter 1.5, the losses without transcendental functions; exact real arithmetic"),
  H("h_rmse", (2,), (2,), covers=[7], bounds="1, 2 or 4 rows, weighted or not"),
  H("h_empty", covers=[8, 9, 10], bounds="no rows / zero weights"),
  H("h_cost", covers=[1, 2], bounds="all losses, parsimony, baselines; complexity 0..3"),
  H("h_baseline", (3,), (4,), covers=[8, 9], bounds="<=p0 rows, every loss"),
  H("h_member", (3, 2), (4, 2), covers=[1, 2, 3], bounds="trees<=p0 nodes, p1 rows, all data"),
)
P("C10",
  H("h_point", (102,), (103,), covers=[2, 3, 4, 5], bounds="larger trees of eight shapes: 9, 12, 17, 20 (thorough: 9, 13, 17, 18, 33) nodes, every draw"),
  H("h_swap", (102,), (103,), covers=[1, 2], bounds="larger trees of eight shapes: 9, 12, 17, 20 (thorough: 9, 13, 17, 18, 33) nodes, every draw"),
  H("h_rotate", (102,), (103,), covers=[1], bounds="larger trees of eight shapes: 9, 12, 17, 20 (thorough: 9, 13, 17, 18, 33) nodes, every draw"),
  H("h_grow", (102,), (103,), covers=[1, 10, 11, 12, 13], bounds="larger trees of eight shapes: 9, 12, 17, 20 (thorough: 9, 13, 17, 18, 33) nodes, every draw"),
  H("h_delete", (102,), (103,), covers=[1], bounds="larger trees of eight shapes: 9, 12, 17, 20 (thorough: 9, 13, 17, 18, 33) nodes, every draw"),
  H("h_cross", (102,), (103,), covers=[1, 2], bounds="larger trees of eight shapes: 9, 12, 17, 20 (thorough: 9, 13, 17, 18, 33) nodes, every draw"),
  H("h_point", (5,), (6,), covers=[2, 3, 4, 5], bounds="trees<=p0 nodes, arity<=3, three operator selections, every draw"),
  H("h_swap", (6,), (7,), covers=[1, 2], bounds="trees<=p0 nodes, every draw"),
  H("h_rotate", (6,), (7,), covers=[1, 2], bounds="trees<=p0 nodes, every draw"),
  H("h_grow", (4,), (5,), covers=[1, 10, 11, 12, 13], bounds="trees<=p0 nodes, every operator, place and draw"),
  H("h_delete", (6,), (7,), covers=[1, 2], bounds="trees<=p0 nodes, every draw"),
  H("h_cross", (4,), (5,), covers=[1, 2], bounds="pairs of trees<=p0 nodes, every draw"),
  H("h_random", (5,), (6,), covers=[1, 2], bounds="sizes 1..p0, every draw"),
)
P("C14",
  H("h_one", (2, 2, 5, 0), (3, 2, 8, 1), covers=[1, 2, 3], bounds="trees<=p0 nodes, one constant, p1 iterations, p2 loss calls, p3 restarts; arbitrary loss"),
  H("h_two", (0, 1, 3, 0), (0, 2, 5, 1), covers=[1, 2, 3], bounds="two trees with two constants, p1 iterations, p2 loss calls, p3 restarts; arbitrary loss"),
  H("h_rows", (2, 2, 5, 0), (3, 1, 6, 0), covers=[1, 2, 3], bounds="two rows"),
  H("h_one", (1, 1, 1, 1, 1), (2, 1, 2, 2, 1), covers=[1, 2, 3], bounds="p3 restarts, near and far, p2 loss calls each; arbitrary loss"),
  H("h_none", (3, 1, 4, 1), covers=[2, 3], bounds="no constants"),
)
P("C15",
  H("h_line", (2, 1), (3, 2), covers=[1, 2, 3, 4, 5], bounds="p0 steps, first p1 answers failing, every answer, step and maximum step"),
  H("h_line_point", (2, 1), (3, 1), covers=[1, 2, 3, 4, 5], bounds="two unknowns, p0 steps"),
  H("h_line_halving", covers=[1, 2, 4, 5], bounds="49..53 failing first answers"),
  H("h_bfgs", (1, 2, 4, 1), (2, 2, 5, 1), covers=[1, 2, 3], bounds="1-2 unknowns, <=p0 iterations, p1 steps each, budget<=p2, p3 failing answers"),
  H("h_bfgs_long", (2, 2, 5), (2, 3, 7), covers=[1, 2, 3], bounds="p0 unknowns, p1 iterations, budget<=p2"),
  H("h_bfgs_step", (2, 1), (2, 1), covers=[1, 2], bounds="two unknowns, first gradient (1,2), second with one arbitrary component; exact real arithmetic"),
  H("h_gradient", (2,), (3,), covers=[1], bounds="four expressions with two constants, p0 weighted rows, any data and loss derivative; exact real arithmetic"),
  H("h_newton", (2, 1, 5, 1), (2, 2, 8, 1), covers=[1, 2], bounds="<=p0 iterations, p1 steps each, budget<=p2, p3 failing answers"),
  H("h_newton_step", covers=[1], bounds="one iteration; exact real arithmetic"),
)
P("C16",
  H("h_generation", (2,), (3,), covers=[0, 1, 2, 5, 6, 8, 9, 10, 20, 21, 22, 30], bounds="trees<=p0 nodes, every kind of mutation, every draw up to 6 fresh ones (then the last repeats), one data row of any finite values, with and without annealing and baseline"),
  H("h_frequency", (4,), (4,), covers=[1, 2, 3], bounds="chains<=p0 nodes growing or shrinking by one, any frequencies, acceptance by frequency"),
  H("h_weights", (3,), (4,), covers=[1], bounds="trees<=p0 nodes, every base weight"),
  H("h_crossover", (2, 2), (3, 2), covers=[1, 2], bounds="parents of <=p0 and <=p1 nodes, every size cap 1..5"),
  H("h_oldest", (4,), (5,), covers=[1, 2], bounds="populations of <=p0 members with any ages"),
  H("h_cycle", (3,), (3,), covers=[1, 2, 3], bounds="populations of p0 members, tournament over all, any winner, any order of ages"),
)
P("C17",
  H("h_best", (4,), (5,), covers=[1, 2], bounds="populations of <=p0 members, all costs (not NaN), every count"),
  H("h_migrate", (2, 2, 4), (3, 3, 5), covers=[1, 2], musts={10: "a migrant arriving in the first place", 11: "a migrant arriving in the last place", 20: "the first migrant moving", 21: "the last migrant moving", 30: "a single migrant arriving in the first place", 31: "a single migrant arriving in the last place"}, bounds="<=p0 places, <=p1 migrants, fraction below 5 (or none, NaN, infinite), <=p2 draws; exact real arithmetic for the mean"),
  H("h_poisson", (5,), (8,), covers=[1, 2, 3], bounds="means below 30, <=p0 draws"),
  H("h_reject", (2, 4), (3, 6), covers=[1, 3, 4, 5, 6], bounds="means 30, 47.5, 300 (1000), first draw of an attempt from nine values, any second draw, <=p1/2 attempts"),
  H("h_shuffle", (4,), (5,), musts={100 + a * 9 + b * 3 + 3 - a - b: "the order %d %d %d" % (a, b, 3 - a - b) for a in range(3) for b in range(3) if a != b}, bounds="<=p0 items, every draw"),
)
P("C18",
  H("h_weight", (4,), (5,), covers=[0, 1, 2, 3], bounds="<=p0 weights, any numbers below 1e100, every draw, any rounding"),
  H("h_split", (3,), (4,), covers=[0, 1, 2], bounds="<=p0 weights below 1e6, every draw; exact real arithmetic"),
  H("h_refuse", (3,), (4,), covers=[1], bounds="<=p0 weights"),
  H("h_winner", (4,), (4,), covers=[10, 11, 12, 20, 21, 22], musts={30: "member 0 sitting out although better", 31: "member 1 sitting out although better", 32: "member 2 sitting out although better"}, bounds="populations of <=p0, every tournament size, all costs, frequencies and scalings that give numbers"),
  H("h_place", (3,), (4,), covers=[1, 10, 11, 12], bounds="<=p0 members, all in the tournament, probabilities 1/4, 1/2, 3/4; exact real arithmetic"),
)
P("C19",
  H("h_new", (4,), (6,), covers=[1], bounds="<=p0 sizes"),
  H("h_count", (3,), (4,), covers=[1, 2], bounds="<=p0 sizes, up to two members of any size"),
  H("h_normalize", (3,), (4,), covers=[1, 2], bounds="<=p0 sizes, counts below 1e9; exact real arithmetic"),
  H("h_freq", (3,), (4,), covers=[1, 2], bounds="<=p0 sizes"),
  H("h_window", (3, 4), (4, 5), covers=[1, 2, 3, 4], bounds="<=p0 sizes, windows 0..p1, counts in [1,1e6) that differ by at least a thousandth or not at all; exact real arithmetic"),
)
P("C20",
  H("h_formula", (5, 3), (7, 4), mode="ieee", covers=[1, 2, 3, 4], bounds="maxsize<=p0, <=p1 cycles, every warm-up fraction in [0,1]; IEEE single precision"),
  H("h_monotone", (5, 3), (7, 4), mode="ieee", covers=[1], bounds="maxsize<=p0, <=p1 cycles, every warm-up fraction in [0,1]; IEEE single precision"),
)
P("C22",
  H("h_new", (2, 3), (3, 4), covers=[1, 2], bounds="<=p0 features, <=p1 rows, four memory layouts, all values"),
  H("h_score", (3,), (4,), covers=[1], bounds="<=p0 rows, four memory layouts, all finite values"),
  H("h_batch", (2, 3, 3), (3, 3, 4), covers=[0, 1], bounds="<=p0 features, <=p1 rows, batches of <=p2 rows, two draws of the whole batch"),
  H("h_draw", musts={10 * i + j: "row %d in place %d" % (j - 4, i - 1) for i in (1, 2) for j in (4, 5, 6)}, bounds="three rows, batch of two"),
)
def EN(q, t=None, covers=(), bounds="", name="h_engine"): return H(name, q, t, covers=covers, bounds="populations,size,iterations,cycles,kind of mutation,maxsize,fresh draws,options,floats = p0..p8: " + bounds)
P("C21",
  EN((1, 2, 1, 2, 1, 2, 3, 0, 99), (1, 2, 2, 2, 1, 3, 4, 0, 99), [1, 20], "deletions"),
  EN((2, 1, 1, 2, 2, 3, 3, 0, 99), (2, 2, 2, 1, 2, 3, 3, 0, 99), [1, 2, 20, 21], "insertions, two populations"),
  EN((1, 2, 1, 1, 4, 3, 3, 0, 99), (1, 2, 1, 2, 4, 3, 4, 0, 99), [1], "fresh expressions"),
  EN((1, 2, 2, 1, 2, 3, 3, 1, 99), (1, 3, 2, 1, 2, 3, 3, 1, 99), [1, 2], "failed mutations enter"),
  EN((1, 2, 1, 2, 1, 2, 3, 514, 99), (1, 2, 2, 2, 1, 2, 3, 514, 99), [1], "annealing and frequencies"),
  EN((1, 2, 1, 1, 0, 2, 3, 4, 99), (1, 3, 2, 2, 0, 2, 3, 4, 99), [1], "baseline"),
  EN((2, 1, 1, 1, 0, 2, 3, 24, 10), (2, 1, 2, 1, 0, 2, 3, 24, 14), [1, 2, 20, 21], "migration"),
  EN((1, 2, 1, 1, 0, 2, 4, 32, 99), (1, 2, 2, 1, 1, 3, 4, 32, 99), [1], "batches of one row out of two"),
  EN((1, 1, 1, 1, 3, 2, 4, 64, 99), (1, 2, 1, 1, 3, 2, 4, 64, 99), [1], "constant optimisation"),
  EN((1, 2, 1, 1, 0, 2, 3, 128, 99), (1, 2, 2, 2, 2, 3, 3, 128, 99), [1], "simplification"),
  EN((1, 2, 1, 1, 0, 2, 3, 257, 99), (1, 3, 1, 1, 0, 2, 3, 257, 99), [1], "crossover"),
  EN((1, 2, 2, 1, 2, 4, 3, 1024, 99), (1, 2, 3, 1, 2, 5, 3, 1024, 99), [1, 2], "size warm-up"),
  EN((1, 2, 2, 1, 1, 2, 3, 2048, 99), (1, 3, 2, 1, 1, 2, 3, 2048, 99), [1, 2], "initial members all too deep"),
  H("h_anneal", (1, 3), (1, 5), covers=[1, 2, 3, 4], bounds="<=p1 cycles, any initial score, any data row"),
  EN((1, 1, 1, 1, 0, 4, 4, 5184, 99), (1, 1, 2, 1, 3, 4, 4, 5184, 99), [1], "size warm-up and constant optimisation"),
  H("h_route", (2, 4, 10), (2, 5, 14), covers=[0, 1, 2, 3, 10, 11, 12, 13], bounds="p0 populations of one member, one step"),
  H("h_route", (3, 4, 10), (4, 4, 10), covers=[0, 1, 2, 3, 10, 11, 12, 13], bounds="p0 populations of one member, one step"),
)
P("C23",
  EN((1, 2, 1, 1, 0, 2, 3, 0, 99), (1, 2, 2, 2, 1, 3, 4, 0, 99), [1], "plain", name="h_again"),
  EN((2, 1, 1, 1, 2, 3, 3, 0, 99), (2, 2, 2, 1, 2, 3, 3, 0, 99), [1], "two populations", name="h_again"),
  EN((2, 1, 1, 1, 0, 2, 3, 24, 10), (2, 1, 2, 1, 0, 2, 3, 24, 14), [1], "migration", name="h_again"),
  H("h_given", (12,), (20,), covers=list(range(10)), bounds="populations, data sets and expressions of about p0; one or two fresh draws, then repeating ones"),
  EN((1, 2, 1, 1, 0, 2, 4, 32, 99), (1, 2, 2, 1, 1, 3, 4, 32, 99), [1], "batches", name="h_again"),
  EN((1, 1, 1, 1, 3, 2, 4, 64, 99), (1, 2, 1, 1, 3, 2, 4, 64, 99), [1], "constant optimisation", name="h_again"),
  EN((2, 1, 1, 1, 0, 3, 3, 0, 99), (3, 2, 1, 1, 0, 3, 3, 0, 99), [1], "all pairs of different seeds", name="h_seed"),
  EN((2, 1, 1, 1, 2, 3, 3, 0, 99, 1), (2, 2, 2, 1, 2, 3, 3, 0, 99, 1), [1], "one worker thread against stepping", name="h_parallel"),
  EN((2, 1, 1, 1, 0, 2, 3, 24, 10, 1), (2, 1, 2, 1, 0, 2, 3, 24, 14, 1), [1], "one worker thread against stepping, migration", name="h_parallel"),
  bin="c21")
P("C25",
  H("h_split", (4, 21), (5, 41), covers=[1, 2, 10, 11, 12, 13, 14], bounds="<=p0 rows, p1+5 fractions (0 to 1.05 and NaN, infinities, negative), every seed, every draw"),
  H("h_split_any", (4,), (5,), covers=[10, 13, 20, 23, 30, 33], bounds="p0 rows, every number held out, every draw"),
  H("h_full", (2, 3), (2, 4), covers=[1, 2, 3], bounds="<=p0 rows (one possibly longer), <=p1 columns, every choice of columns, with and without header, all values"),
  H("h_rows", (3, 2), (3, 3), covers=[1, 2], bounds="p0 rows, every list of <=p1 row numbers on either side, weighted or not, all values"),
  H("h_metrics", (2, 0), covers=[11, 12, 14], bounds="mean errors: 1, 2, 4 rows, weighted or not; exact real arithmetic"),
  H("h_metrics", (3, 1), (4, 1), covers=[1, 2, 11, 12, 14, 18], bounds="coefficient of determination: 1, 2, 4, 8 (thorough: 16) rows, from 4 on one of them (each in turn) symbolic"),
  H("h_metrics", (3, 2), (4, 2), covers=[3, 4, 11, 12, 14, 18], bounds="correlation: 1, 2, 4, 8 (thorough: 16) rows, from 4 on one of them (each in turn) symbolic"),
  H("h_metrics", (2, 3), covers=[11, 12, 14], bounds="extreme errors: 1, 2, 4 rows"),
  H("h_options", covers=[1], bounds="every option value, every spelling of a loss"),
  H("h_snapshot", (1, 8), (2, 6), covers=[1, 2, 5], bounds="one population of p0, before and after one step, expressions without constants, front cut to 0, 1 or 2"),
  H("h_csv", (2, 2), (3, 2), covers=[1, 2], bounds="p0 x p1 cells from four spellings, both line ends, header or not, ill-formed cells and rows"),
  crate="hw",
)
P("C24",
  EN((2, 1, 2, 1, 1, 2, 3, 0, 99, 2), (3, 1, 2, 1, 1, 2, 3, 0, 99, 3), [1, 2], "one to p9 workers, every order of completion", name="h_parallel"),
  EN((3, 1, 1, 1, 0, 2, 2, 0, 99, 3), (3, 1, 2, 1, 0, 2, 2, 0, 99, 3), [1, 2, 3], "one to p9 workers, every order of completion", name="h_parallel"),
  EN((2, 1, 1, 1, 1, 2, 10, 0, 99, 2), (2, 1, 2, 1, 1, 2, 10, 0, 99, 2), [1, 2], "populations that differ: no turn is lost", name="h_parallel"),
  EN((2, 1, 1, 1, 0, 2, 3, 0, 99, 3, 1), (2, 1, 2, 1, 0, 2, 3, 0, 99, 3, 1), [1, 2, 3], "called from inside the pool", name="h_parallel"),
  EN((2, 1, 1, 1, 0, 2, 3, 24, 10, 2), (2, 1, 2, 1, 0, 2, 3, 24, 14, 2), [1, 2], "migration", name="h_parallel"),
  EN((2, 1, 1, 1, 0, 2, 3, 32, 99, 2), (2, 1, 2, 1, 0, 2, 3, 32, 99, 2), [1, 2], "batches", name="h_parallel"),
  assume=["rayon replaced by a stub that runs held-back tasks one at a time in any order; tasks share only immutable borrows and the result channel"],
  bin="c21")
