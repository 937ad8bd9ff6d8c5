prop("C01", "Expression arithmetic is exact ring arithmetic",
 "Building, combining and modifying expressions with the public arithmetic (sum, difference, product, scaling, appending/prepending of terms and factors, division, adjoint, cloning, copying and moving), in any order and also when an expression is combined with itself, denotes exactly the corresponding operation on the mathematical objects, keeps the order of non-commuting factors, and changes nothing but its target. Scalars are exact complex rationals. Hash values never go stale when an expression is modified in place.",
 ["histories", "inputs"], "all sequences of up to 2 (thorough: 3) of the arithmetic operations on two registers holding any two of 13 expressions (constants, variables, powers, tensors, operators, sums, nested products), aliased operands included; after every operation both registers are evaluated in a reference ring",
 "the tests check single operations on a few expressions; which fast path (flattening, merging of constants, zero elimination, memoized hash) is taken depends on the history and on aliasing of the operands",
 ["SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/constant.hpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/expr_operators.hpp"],
 [("Product::append/prepend", "SeQuant/core/expressions/product.hpp"), ("Sum::append/prepend", "SeQuant/core/expressions/sum.hpp"), ("operators", "SeQuant/core/expressions/expr_operators.hpp")])
prop("C02", "Expansion, flattening and simplification preserve the value and reach their normal form",
 "For any expression tree of sums and products of scalars, tensors and non-commuting operators, nested in any way: expand, flatten, rapid_simplify, simplify and non_canon_simplify return an expression that denotes the same mathematical object; an expanded expression has no sum below a product, a flattened one has no sum directly in a sum and no product directly in a product, a simplified one has no zero or duplicate terms left, and the difference of two equal expressions simplifies to zero.",
 ["inputs"], "all trees with up to 5 leaves over 2-13 kinds of leaves (variables, powers, constants including zero, tensor and operator terms, bare operators) and up to 5 kinds of inner nodes",
 "tests simplify hand-picked expressions; which rewriting fires depends on the nesting, on zeros and on unit factors deep in the tree",
 ["SeQuant/core/expressions/expr_algorithms.cpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/product.hpp"],
 [("expand, rapid_simplify, simplify", "SeQuant/core/expressions/expr_algorithms.cpp"), ("flatten", "SeQuant/core/expressions/expr_algorithms.hpp")])
prop("C03", "Canonicalization and simplification preserve the value of a term",
 "Bringing a product or sum of tensors, creation/annihilation operators and scalars to canonical form, by any of the offered methods, and simplifying it, never changes what it denotes: slots of declared (anti)symmetries may be permuted with the right sign, summation indices renamed, commuting factors reordered and equal terms merged, and nothing else. External indices keep their names, and clones that were not canonicalized stay untouched.",
 ["inputs", "configurations"], "all tensor networks of the listed shapes (up to 4 tensors of rank up to 3, all symmetry attributes, aux and proto indices, 1-2 normal operators, scalars), every way to label and contract the slots with 2 index spaces, every order of the factors, 3 methods; pairs of such terms in a sum; evaluated with 2 orbitals per space",
 "tests compare printed forms of selected terms; a wrong sign or an illegal permutation needs a particular combination of symmetry, contraction pattern and factor order",
 ["SeQuant/core/tensor_network/v3.cpp", "SeQuant/core/tensor_canonicalizer.cpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/expr_algorithms.cpp"],
 [("TensorNetworkV3::canonicalize", "SeQuant/core/tensor_network/v3.cpp"), ("Product::canonicalize_impl, Sum::canonicalize_impl", "SeQuant/core/expressions/expr.cpp"), ("DefaultTensorCanonicalizer", "SeQuant/core/tensor_canonicalizer.cpp")])
prop("C04", "Equal terms are recognized however they are written",
 "Two presentations of the same non-vanishing term (summation indices renamed, factors in another order, slots permuted according to the declared symmetries with the corresponding sign) are recognized as equal: their difference simplifies to zero, a sum of them collects into a single term with the added coefficient, and their canonical network hash is the same.",
 ["inputs"], "all networks of the listed shapes as for canonicalization, times every presentation one elementary step away",
 "tests exercise hand-picked presentations; the property is over all pairs of presentations of all networks",
 ["SeQuant/core/tensor_network/v3.cpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/tensor_network/vertex_painter.cpp"],
 [("TensorNetworkV3::canonicalize_graph", "SeQuant/core/tensor_network/v3.cpp"), ("Sum::canonicalize_impl", "SeQuant/core/expressions/expr.cpp")])
prop("C05", "Equality, hashing and ordering of expressions agree with their structure",
 "Two expressions (tensors, operators, scalars, powers, products, sums, nested in any way) compare equal if and only if they have the same structure; equal expressions have equal hash values; operator< is a strict weak ordering consistent with equality; the same holds for indices. This is so whatever history of in-place modifications (adjoint, canonicalization, index substitution, arithmetic, replacement of parts, relabelling) produced an object: it equals, and hashes like, the same expression built anew, and clones made before the modification are unaffected.",
 ["histories", "inputs"], "all pairs and triples of about 700 objects in 6 families; all sequences of 3 (thorough: 4) of 19 modifications of 15 start expressions, with hashes memoized before every step",
 "tests compare a few pairs; stale memoized hashes and broken orderings need a particular history or a particular triple of objects",
 ["SeQuant/core/expressions/expr.hpp", "SeQuant/core/expressions/tensor.hpp", "SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/index.hpp", "SeQuant/core/op.hpp"],
 [("Expr::operator==, hash_value, operator<", "SeQuant/core/expressions/expr.hpp"), ("Tensor::memoizing_hash, static_less_than", "SeQuant/core/expressions/tensor.hpp"), ("Index::operator<=>", "SeQuant/core/index.hpp")])
prop("C06", "Wick's theorem is an identity of the Fock-space operator algebra",
 "Applying Wick's theorem to a product or sum of normal-ordered operator products multiplied by tensors and scalars yields exactly the same element of the operator algebra: with full contractions its vacuum expectation value (physical or Fermi vacuum), otherwise the equivalent sum of normal-ordered operators; for fermions and bosons, for spin-orbital and spin-free operators, with repeated indices, with external and with summation indices, whether or not the terms have symmetries.",
 ["inputs", "configurations"], "all operator sequences of up to 3 normal operators with up to 4 (thorough 5-6) elementary operators over occupied/unoccupied/complete spaces and all index labellings, all networks of tensors with normal operators of the listed shapes and contraction patterns, all products of 2-3 many-body operators from a menu of 10, sums thereof; evaluated as matrices over a Fock space of up to 12 spin-orbitals",
 "the tests compare counts of terms and selected strings; signs, factors and missed contractions show for particular index coincidences, spaces and operator orders",
 ["SeQuant/core/wick.hpp", "SeQuant/core/wick.impl.hpp", "SeQuant/core/op.hpp"],
 [("WickTheorem::compute, recursive_nontensor_wick", "SeQuant/core/wick.hpp"), ("reduce_wick_impl, topology", "SeQuant/core/wick.impl.hpp"), ("NormalOperator", "SeQuant/core/op.hpp")])
prop("C09", "The index space registry is a consistent set algebra",
 "After any sequence of adding, replacing and removing index spaces, unions and intersections, of role (vacuum/reference occupied, complete, hole, particle) and mask settings, copies, clones, assignments and clear(): every query (retrieval by label, by index label, by type and quantum numbers; base spaces; occupancy; intersection and union of registered spaces; roles by quantum number; equality) answers according to the current set of spaces, types being bit sets of base spaces; duplicate labels or attributes and unregistered unions/intersections are rejected; an operation that fails changes nothing; copies share the set of spaces and clones do not.",
 ["histories"], "all sequences of up to 3 (thorough: 4) of 33 operations on one registry from 3 start states, and of up to 2 (thorough: 3) of 36 operations on two registries that may share their spaces from 6 start states; about 600 queries compared with a plain model after the sequence, with the memoized data filled between the operations",
 "tests register one convention and query it; stale memoized data and partial updates need particular sequences",
 ["SeQuant/core/index_space_registry.hpp", "SeQuant/core/index_space_registry.cpp", "SeQuant/core/space.hpp"],
 [("IndexSpaceRegistry", "SeQuant/core/index_space_registry.hpp"), ("IndexSpace::Attr", "SeQuant/core/space.hpp")])
prop("C14", "Cached intermediates live exactly as long as they are needed",
 "A cache manager hands out a registered intermediate exactly as often as declared and releases it with its last use (persistent entries live on until everything is reset); reset() restores the initial lives, soft reset keeps persistent results, counts and memory figures describe the current contents, and unregistered trees are passed through. The cache built for a set of evaluation trees registers exactly the intermediates that evaluating the trees needs at least the requested number of times, with that number of uses, so that a full evaluation computes every registered intermediate once and leaves no transient result behind, and the predicted peak of cached memory is the true one.",
 ["histories", "inputs"], "all sequences of 4 (thorough: 6) operations (store, access, reset, soft reset) on two registered entries with all combinations of lifetimes up to 3 and persistence plus one unregistered one; all forests of up to 3 evaluation trees with up to 4 (thorough: 5) leaves over 1-2 leaf names, with min_repeats 1-3, volatile leaves and footprint limits; every node followed through the evaluation of the forest",
 "lifetimes are counters shared between a static analysis of the trees and the run-time order of uses: an off-by-one shows only for particular sharing patterns or particular histories",
 ["SeQuant/core/eval/cache_manager.hpp", "SeQuant/core/eval/cache_manager.cpp", "SeQuant/core/eval/eval.hpp"],
 [("CacheManager::store/access/reset", "SeQuant/core/eval/cache_manager.hpp"), ("cache_manager(nodes), imed counting", "SeQuant/core/eval/cache_manager.hpp"), ("peak_cache", "SeQuant/core/eval/cache_manager.cpp")])
prop("C15", "Evaluation trees compute the value of their expression",
 "Evaluating the tree built from a tensor expression returns the array the expression denotes, in the requested order of external indices, whatever the arrangement of products and sums, scalar prefactors, symmetric or antisymmetric leaves, traces, scalars, aux or proto indices; sharing intermediates through a cache, evaluating many terms into one accumulator, deferred (batched) evaluation, symmetrization and antisymmetrization return the same values, and never change the data of a leaf or a cached intermediate. Trees that compare equal have the same value up to the recorded phase and layout.",
 ["inputs", "configurations"], "all products and sums of up to 3-4 factors from menus of tensors of rank up to 3 with all symmetry attributes and all contraction patterns over 2-3 index spaces, times nesting, prefactors and layout of the result, each evaluated without cache, with caches of every threshold, and pairs of terms through one shared cache; executed by an exact array backend",
 "tests evaluate a few coupled-cluster terms with random numbers on one backend; wrong phases or layouts of shared intermediates need two particular terms to meet in a cache",
 ["SeQuant/core/eval/eval.hpp", "SeQuant/core/eval/eval_expr.cpp", "SeQuant/core/eval/eval_expr.hpp", "SeQuant/core/eval/eval_node_compare.hpp", "SeQuant/core/eval/cache_manager.hpp"],
 [("evaluate", "SeQuant/core/eval/eval.hpp"), ("binarize, EvalExpr", "SeQuant/core/eval/eval_expr.cpp"), ("TreeNodeEqualityComparator", "SeQuant/core/eval/eval_node_compare.hpp")])

prop("C07", "The options of Wick's theorem select exactly the requested contractions",
 "Whatever connections between normal operators are required or to be avoided, for full and for partial contractions, for operator sequences and for products and sums of tensors with operators: the result contains exactly the contraction patterns that satisfy the constraints, each with its right sign and weight; the term count asked for is the number of those patterns. Declaring equivalent operators or normal operators, using topology, and skipping the initial canonicalization never change the value; indices declared external are neither renamed nor summed over even if they appear twice; malformed specifications (indices out of range, duplicates) are rejected.",
 ["inputs", "configurations"], "all sequences of 2-3 (thorough: 4) normal operators with up to 4 (thorough: 5) operators over occupied/unoccupied/complete spaces times every assignment of free/required/avoided to the pairs; products of 1-2 tensors with 2-3 normal operators in every contraction pattern times the same constraints; all subsets of repeated indices declared external; all equivalence partitions of the operators of 2-3 normal operators contracted with antisymmetric tensors; sums of 2 of 6 operator products; both vacua",
 "the tests use one connectivity pattern of coupled-cluster type; pruning by connectivity depends on the order in which contractions are enumerated",
 ["SeQuant/core/wick.hpp", "SeQuant/core/wick.impl.hpp"],
 [("set_nop_connections, set_nop_avoided_connections, NontensorWickState::connect", "SeQuant/core/wick.hpp"), ("set_op_partitions, op_permutational_degeneracy", "SeQuant/core/wick.hpp"), ("WickTheorem::compute", "SeQuant/core/wick.impl.hpp")])

prop("C08", "Serialized expressions can be read back; malformed text is rejected",
 "Converting any expression (tensors with bra, ket and aux indices and every symmetry, proto indices, normal operators of either vacuum and statistics, numbers of any size, variables and powers with conjugation, products and sums nested in any way, result expressions) to text and back gives an equal expression (for nested ones, one of equal value), with or without symmetry annotations, from wide and narrow strings. Text is given the meaning ordinary precedence and sign rules assign to it, independently of optional blanks; ill-formed text is rejected with a SerializationError that points into the input and is never accepted, misread or rejected differently.",
 ["inputs"], "all tensors of up to 2+2+2 indices with all symmetry attributes, all operators of up to 2+2, all scalars of a menu of 9 numbers and 13 names, all products of up to 3 (thorough: 4) and sums of 2 (3) of 11 factors, all trees of up to 3 (4) leaves, result expressions with 6 kinds of left-hand side; all strings of up to 5 (6) tokens of the expression grammar with and without blanks, all strings of up to 6 (8) characters of the number grammar, all strings of up to 5 (6) pieces of the tensor grammar, against reference parsers",
 "the tests read and write some tens of strings; precedence and sign errors need particular neighbours",
 ["SeQuant/core/io/serialization/v1/serialize.cpp", "SeQuant/core/io/serialization/v1/deserialize.cpp", "SeQuant/core/io/serialization/v1/ast_conversions.hpp", "SeQuant/core/io/serialization/serialization.hpp"],
 [("to_string", "SeQuant/core/io/serialization/v1/serialize.cpp"), ("from_string, the grammar", "SeQuant/core/io/serialization/v1/deserialize.cpp"), ("ast_to_expr", "SeQuant/core/io/serialization/v1/ast_conversions.hpp")])

prop("C12", "Single-term optimization finds a cheapest order and changes nothing else",
 "Optimizing a product of tensors, scalars and sums yields the same factors and the same value, arranged as a binary tree of contractions whose cost is minimal: with the default pruning among all orders that never form an outer product needlessly, without it among all orders, for the flop count as objective as well as for the peak-memory objectives (which take the fewest operations among the orders whose peak is within the tolerance of the smallest one), with intermediates recomputed or kept, volatile tensors and batched axes accounted for. The search with reuse of common intermediates preserves value and factors, too. Target indices, aux and proto indices, sums as factors and scalar factors in any position are respected.",
 ["inputs", "configurations"], "all networks of 3 tensors from menus of rank up to 3 with up to 4 externals, plus shapes with 4 and 5 tensors, with aux and proto indices, over 1-3 index spaces of different extents, all mixtures of up to 4 scalars, sums and tensors, all target index sets; 6 settings of objective, pruning and reuse; each compared with the minimum over every binary schedule, enumerated explicitly",
 "tests check the cost of a few known networks; whether dynamic programming over subsets misses the optimum depends on the extents and on the contraction pattern",
 ["SeQuant/core/optimize/single_term.hpp", "SeQuant/core/optimize/cost_model.hpp", "SeQuant/core/optimize/optimize.cpp"],
 [("single_term_opt", "SeQuant/core/optimize/single_term.hpp"), ("cost models", "SeQuant/core/optimize/cost_model.hpp"), ("optimize(ExprPtr)", "SeQuant/core/optimize/optimize.cpp")])
prop("C13", "Optimizations across terms keep the value of every result",
 "Eliminating common subexpressions from a list of equations defines every intermediate exactly once and before its first use, keeps the equations in order with their result indices, and the equations with the intermediates inserted have their original values - also if intermediates are filtered, equal only up to a sign or a permutation of their indices, if hashes collide, and if an index is declared to run in batches (an intermediate is then shared only between uses for the same batch). Reordering and clustering the terms of a sum, optimizing a sum term by term (in any number of threads), fusing two terms with a common factor and extracting subtrees keep the values, find what they promise, and lose or duplicate no term.",
 ["inputs", "configurations"], "all pairs of products of 2-4 tensors (symmetric, antisymmetric, aux indices) from menus and all contraction patterns as two equations with a common part; chains of 2-4 (thorough 5) matrices in every bracketing with sums; scalar expressions of up to 6 leaves; 6 settings; all sums of up to 3 of 13 terms; all pairs of products of up to 3 factors with 6 prefactors for fusion, all pairs of fractions up to 8/8 (thorough 12/12); forests of 2 equations with 8 predicates for extraction; executed by an exact array backend",
 "tests eliminate from some coupled-cluster equations and compare the form; a wrong sign needs a first occurrence of an intermediate with a negative phase",
 ["SeQuant/core/optimize/common_subexpression_elimination.hpp", "SeQuant/core/optimize/sum.cpp", "SeQuant/core/optimize/fusion.cpp", "SeQuant/core/optimize/extract_subtrees.hpp", "SeQuant/core/eval/eval_expr.hpp"],
 [("eliminate_common_subexpressions", "SeQuant/core/optimize/common_subexpression_elimination.hpp"), ("reorder, clusters", "SeQuant/core/optimize/sum.cpp"), ("Fusion", "SeQuant/core/optimize/fusion.cpp"), ("extract_subtrees", "SeQuant/core/optimize/extract_subtrees.hpp"), ("to_expr, binarize(ResultExpr)", "SeQuant/core/eval/eval_expr.hpp")])
prop("C16", "Generated code computes the exported expressions",
 "Executing the operations that exporting an expression produces - create, load, zero, add a product, unload, destroy, store - literally and in order computes the value of every exported result: everything used is declared before, loaded or created exactly once before its use and initialized, everything in memory is released by the end of the expression, no operation reads what it adds to; for nested sums and products of tensors, numbers, powers and variables, several expressions that read earlier results, expressions exported in sections, batched indices, every setting of prunable scalars, declaration scopes and memory layout. Optimizing the generated operations (eliding unload/load pairs) leaves the computations unchanged and adds no loads. The NumPy and PyTorch programs, executed statement by statement, compute the same values.",
 ["inputs", "configurations"], "all bracketings of sums and products of up to 5 (thorough: 6) matrices over one space, up to 4 over two spaces, with numbers in any position of up to 3 (4) factors; all scalar expressions of depth 2; all pairs of expressions of up to 3 (4) leaves where the second reads the first; batched over 1-2 indices; rank-4 tensors of all symmetries under all layouts; each with up to 6 generator configurations, with and without the optimizer; Python programs for all expressions of up to 3 (4) leaves, run by an interpreter of the generated statements over exact arithmetic (conjugated and complex numbers in scalars only)",
 "the tests compare the generated text of some expressions; lifetimes, reuse of names and prefactors go wrong for particular shapes of trees",
 ["SeQuant/core/export/export.hpp", "SeQuant/core/export/export.cpp", "SeQuant/core/export/context.cpp", "SeQuant/core/export/reordering_context.cpp", "SeQuant/core/export/generation_optimizer.hpp", "SeQuant/core/export/python_einsum.hpp"],
 [("export_groups, preprocess, GenerationVisitor", "SeQuant/core/export/export.hpp"), ("GenerationOptimizer", "SeQuant/core/export/generation_optimizer.hpp"), ("PythonEinsumGeneratorBase", "SeQuant/core/export/python_einsum.hpp")])
prop("C17", "Spin tracing preserves values",
 "Integrating out spin keeps the value: for every expression over spin orbitals whose tensors conserve spin, the spin-free expression (closed shells: spintrace, closed_shell_spintrace) over spatial orbitals equals the sum over the spins of all internal indices for the chosen spins of the externals, and every spin case of open_shell_spintrace / open_shell_CC_spintrace equals the spin-orbital expression with the external indices restricted to that case; for antisymmetric and nonsymmetric tensors, externals in any position, scalars, sums, results. Antisymmetrizers, symmetrizers and permutation operators are expanded to exactly the sum over permutations they stand for. Spin labels are added, removed and flipped without changing anything else; predicates on the spin of tensors decide exactly.",
 ["inputs"], "all networks of 1-2 (thorough: 3) tensors of rank up to 3 with up to 3 external pairs in all connection patterns, with and without antisymmetrizer, a scalar in any position; all pairs of such terms as sums; all spin labellings and orders of bra and ket of tensors up to rank 3 (4); expressions evaluated exactly over 2-3 orbitals per space and spin by brute-force summation over spin orbitals, tensors given random spin-conserving elements of the declared symmetry",
 "the tests compare some coupled-cluster residuals with recorded output; signs and factors depend on the contraction pattern",
 ["SeQuant/domain/mbpt/spin.cpp", "SeQuant/domain/mbpt/spin.hpp"],
 [("spintrace_impl, closed_shell_spintrace_impl, open_shell_spintrace_impl", "SeQuant/domain/mbpt/spin.cpp"), ("expand_A_op, expand_P_op, S_maps, expand_antisymm", "SeQuant/domain/mbpt/spin.cpp"), ("open_shell_CC_spintrace", "SeQuant/domain/mbpt/spin.cpp")])

prop("C18", "Many-body operators and coupled-cluster equations represent the operators they name",
 "Operator-level algebra, expectation values and models agree with the operators as matrices over Fock space: the tensor form of every operator is the documented normal-ordered expression with the documented normalization; simplification, canonicalization and adjoint of operator products and sums preserve the operator; the quantum numbers of a product cover everything it does to the vacuum, so that screening by them drops only vanishing terms; vacuum and reference expectation values, at the operator and the tensor level, with and without screening and topological shortcuts, equal the matrix element, restricted to the contractions that declared connections demand; similarity transformations equal the truncated commutator series, unitary or not; the coupled-cluster amplitude, energy, lambda, equation-of-motion, perturbed and density-matrix equations equal the projections of the transformed operators that define them.",
 ["inputs", "configurations"], "all products of up to 2 of 25 operators, of up to 3 of 16 (thorough 22), of 4 of 5 (7); quantum numbers for products of up to 3 (4); connections of all products of 3-4 of 5-7 operators; transformations of 8 by 5 operators up to rank 4 (5); CCS, CCSD, CCD, traditional, orbital-optimized and unitary, all equations, with and without screening and topology; 2 (3) occupied and 3 unoccupied spin orbitals, exact arithmetic with random amplitudes",
 "the tests compare the number of terms of the equations and some expressions with recorded output",
 ["SeQuant/domain/mbpt/op.cpp", "SeQuant/domain/mbpt/op.hpp", "SeQuant/domain/mbpt/op.ipp", "SeQuant/domain/mbpt/vac_av.cpp", "SeQuant/domain/mbpt/utils.cpp", "SeQuant/domain/mbpt/models/cc.cpp"],
 [("operators, OpMaker, quantum numbers", "SeQuant/domain/mbpt/op.cpp"), ("commutes_with_atom, adjoint", "SeQuant/domain/mbpt/op.ipp"), ("vac_av, ref_av", "SeQuant/domain/mbpt/vac_av.cpp"), ("lst, screen_vac_av", "SeQuant/domain/mbpt/utils.cpp"), ("CC", "SeQuant/domain/mbpt/models/cc.cpp")])
prop("C25", "Parallel work gives the same result under every schedule",
 "Whatever the interleaving of threads: parallel loops and reductions process every item exactly once, combine all results and hand an exception of any worker to the caller; every accepted number of threads does all the work; memoized values are computed once, are what every caller gets and stay valid, and a failed computation neither blocks other callers nor poisons the cache; singletons are constructed once and seen complete; temporary indices made by several threads are distinct; concurrent factorials, access to the default contexts, parallel transformation and Wick reduction of sums (with shared summands), and work on separate expressions in different threads give the results of serial execution; and none of this has a data race, a use of released memory or a deadlock.",
 ["schedules", "inputs", "failures"], "all schedules with at most 2 preemptions (thorough 3; expression work 1, thorough 2) at mutex, condition, thread and sequentially consistent atomic operations, for 2-3 threads; data races by happens-before over every instrumented access; sums of 2-3 terms; every item of a loop throwing in turn",
 "the tests run one schedule, the one the machine happens to take",
 ["SeQuant/core/runtime.hpp", "SeQuant/core/utility/memoize.hpp", "SeQuant/core/utility/singleton.hpp", "SeQuant/core/index.hpp", "SeQuant/core/math.hpp", "SeQuant/core/context.cpp", "SeQuant/core/wick.impl.hpp"],
 [("for_each, transform_reduce, parallel_do", "SeQuant/core/runtime.hpp"), ("memoize", "SeQuant/core/utility/memoize.hpp"), ("Singleton", "SeQuant/core/utility/singleton.hpp"), ("IndexFactory", "SeQuant/core/index.hpp"), ("factorial", "SeQuant/core/math.hpp"), ("default contexts", "SeQuant/core/context.cpp"), ("parallel reduction", "SeQuant/core/wick.impl.hpp")])
prop("C10", "Default contexts are what was set last in the innermost scope",
 "After any history of setting default contexts (for all or for one kind of statistics, from objects, options or maps), entering and leaving scoped contexts (normally or by an exception, nested, also with a context that compares equal to the current one), resetting, cloning, copying and modifying contexts and their registries: the context in force for every kind of statistics, with every one of its settings and with the very registry it was given, is the one set last in the innermost scope, falling back to the one for arbitrary statistics and to the initial one; leaving a scope restores exactly what was in force before; clones share nothing with their original, copies share the registry; contexts that share a registry are equal exactly if all settings are. The same holds for many-body contexts, and their operator registries answer according to the operators added, removed and redefined, rejecting duplicate, unknown and reserved labels.",
 ["histories", "inputs"], "all histories of up to 3 (thorough: 4) of 43 operations, each also wrapped in a scope that ends by an exception, on 6 contexts and 3 statistics; all histories of up to 4 (5) of 27 operations on many-body contexts; all pairs of 14 contexts",
 "tests set and reset a context once; whether a scope is undone depends on what happens inside it",
 ["SeQuant/core/context.cpp", "SeQuant/core/utility/context.hpp", "SeQuant/core/options.hpp", "SeQuant/domain/mbpt/context.cpp", "SeQuant/domain/mbpt/op_registry.cpp"],
 [("get/set/reset_default_context, Context", "SeQuant/core/context.cpp"), ("ImplicitContextResetter, set_scoped_implicit_context", "SeQuant/core/utility/context.hpp"), ("CanonicalizeOptions::operator==", "SeQuant/core/options.hpp"), ("mbpt::Context", "SeQuant/domain/mbpt/context.cpp"), ("OpRegistry", "SeQuant/domain/mbpt/op_registry.cpp")])
prop("C23", "Tensor decompositions keep the value of every term",
 "Density fitting, tensor hypercontraction and the transformation of cluster-specific virtuals replace every tensor they are meant for, and no other, by its definition in terms of the factors: whatever else the term contains (further tensors to decompose, also of another name in a second pass, indices of the auxiliary space or of the same names that are in use already, nested products and sums, prefactors), the result, as it is and expanded, has the value of the given expression with the definition inserted, and the given expression is left as it was.",
 ["inputs"], "all networks of 1-3 tensors (of rank 2+2 and others, with and without antisymmetry) in all contraction patterns with up to 4 external indices, presented in 6 shapes, decomposed in one pass or two passes by either rule; all networks of 2-4 tensors with cluster-specific indices over 2 target bases; evaluated exactly",
 "the tests decompose three products each and none with cluster-specific indices; a clash of names needs two decompositions in one term",
 ["SeQuant/domain/mbpt/rules/df.cpp", "SeQuant/domain/mbpt/rules/thc.cpp", "SeQuant/domain/mbpt/rules/csv.cpp"],
 [("density_fit", "SeQuant/domain/mbpt/rules/df.cpp"), ("tensor_hypercontract", "SeQuant/domain/mbpt/rules/thc.cpp"), ("csv_transform", "SeQuant/domain/mbpt/rules/csv.cpp")])
prop("C19", "Asymptotic costs are exact polynomials with the asymptotic order",
 "A cost built by any history of additions, subtractions, multiplications and divisions by rational numbers, copies and self-combination is exactly the polynomial in the sizes of the index spaces that the operations define: equal polynomials compare equal, terms that cancel are gone, its text, LaTeX form and number of operations are those of the polynomial. Costs are ordered by their most expensive differing term (by degree, then by the larger space): a strict total order, consistent with equality, in which adding a positive cost makes any cost more expensive; the maximum of costs is the greatest of them.",
 ["histories", "inputs"], "all histories of 4 (thorough: 5) of 20 operations on costs over 3 spaces; all pairs of the 3^5 (4^5) non-negative costs of 5 monomials",
 "the tests compare some costs; ordering goes wrong only for costs that agree in their expensive terms",
 ["SeQuant/core/asy_cost.cpp", "SeQuant/core/asy_cost.hpp"],
 [("operator+, -, *, /, <, ==", "SeQuant/core/asy_cost.cpp"), ("text, to_latex, ops", "SeQuant/core/asy_cost.hpp")])
prop("C20", "Queries and replacements on expressions do what they are defined to do",
 "For every expression (tensors, products, sums, nested in any way): the external (used, uncontracted) indices it reports are exactly those that occur once, in the slots they occur in; expressions and results are declared valid exactly if no index is used more than twice and all summands (and the result's left-hand side) have the same external indices. Replacing a tensor, as given or wherever a tensor of the same shape occurs, inserts the replacement with the indices adapted and changes nothing else; substituting indices maps all of them simultaneously, also inside protoindices; the difference of two expressions is empty exactly if they are equal; collecting tensors of a kind removes exactly these. The parity of a permutation is the sign of the permutation, ordering by a given comparison sorts, cycles and loops are counted exactly, and subset and bit enumeration visits each subset once.",
 ["inputs"], "all networks of up to 3 tensors of 8 lists of ranks with all labellings (protoindices and empty slots included), in 7 shapes of nesting; all replacements of 4 targets by 5 expressions in these; all index maps of 3 indices onto a menu; all pairs of expressions of a menu; all permutations of up to 6 (thorough: 7) elements, all chains of pairs of up to 4 (5) columns, all bit sets of 10 (14) bits",
 "the tests look at a few expressions; repeated indices within one tensor, empty slots and whole-expression matches are not among them",
 ["SeQuant/core/utility/indices.hpp", "SeQuant/core/utility/expr.cpp", "SeQuant/core/utility/expr.hpp", "SeQuant/core/utility/permutation.hpp", "SeQuant/core/utility/tensor.hpp", "SeQuant/core/algorithm.hpp"],
 [("get_unique_indices, get_used_indices, get_uncontracted_indices", "SeQuant/core/utility/indices.hpp"), ("is_valid, diff, transform_expr, replace", "SeQuant/core/utility/expr.cpp"), ("permutation_parity", "SeQuant/core/utility/permutation.hpp"), ("count_cycles, bits", "SeQuant/core/algorithm.hpp")])
