# -*- coding: utf-8 -*-
"""Single source of /verif/properties.jsonl and of the per-property part of
/verif/MANIFEST.json.  Run tools/gen_meta.py after editing."""

P = []

def prop(id, title, statement, over, quant, why, files, mech, observe, claimed=True,
         note="", reason="", state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant,
                  why=why, files=files, mech=mech, observe=observe, claimed=claimed,
                  note=note, reason=reason, state=state or [], hook=hook))

I = "include/opengm/"

# ----------------------------------------------------------------- model layer
prop("M01", "A model evaluates to the fold of its factor values",
 "For every graphical model and every complete labeling, evaluating the model returns exactly the combination, under the model's operation, of all its factors' table values at the labels of their variables, no matter whether the labeling is given as iterator, container or partial order of construction, how functions are shared between factors, which function types encode the tables, or whether the model was copied, assigned or converted to a model type with different function types.",
 ["inputs", "histories"],
 "All label spaces, variable orders, function encodings, function sharing patterns, construction orders, copies, assignments and conversions, and all labelings.",
 "Unit tests evaluate a few hand-written models of one or two function types; the equation quantifies over every model, encoding and labeling.",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx", I+"graphicalmodel/graphicalmodel_function_wrapper.hxx"],
 [("evaluate folds operatorType::op over factors", I+"graphicalmodel/graphicalmodel.hxx: GraphicalModel::evaluate"),
  ("factor evaluation dispatches on function type id", I+"graphicalmodel/graphicalmodel_function_wrapper.hxx: FunctionWrapper::getValue")],
 ["GraphicalModel::evaluate", "Factor::operator()", "GraphicalModel::operator="])

prop("M02", "Factor-graph adjacency is consistent after any build history",
 "After any sequence of adding variables, adding functions and adding factors (immediately or deferred with a final finalisation), copying and assigning, every adjacency query of the model (factors of a variable, variables of a factor, neighbouring variables, neighbouring factors, connectivity of variable or factor pairs, counts) agrees with the list of factor variable sets that was supplied. Each adjacency list is sorted and free of duplicates, and the variables of a factor are reported in the order given.",
 ["histories", "inputs"],
 "All sequences of construction operations over all label spaces and factor scopes, including copies and assignments at any point.",
 "Tests build a handful of fixed models; they cannot cover every interleaving of construction calls nor every scope pattern.",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"graphicalmodel/graphviews/factorgraph.hxx"],
 [("adjacency sets maintained on addFactor / finalize", I+"graphicalmodel/graphicalmodel.hxx: addFactor, addFactorNonFinalized, finalize"),
  ("derived queries", I+"graphicalmodel/graphviews/factorgraph.hxx")],
 ["FactorGraph queries on the model"],
 state=[("variableFactorAdjaceny_", "factors of every variable"), ("factorsVis_", "variables of every factor")])

prop("M03", "Structural queries describe the factor graph truthfully",
 "For every model the structural queries (is the factor graph acyclic, connected, a chain, a grid; the maximal factor order and the number of variables and factors) return true exactly when the bipartite graph of variables and factors has that shape, and shortest paths and extent queries agree with breadth-first search on that graph.",
 ["inputs"],
 "All factor graphs: trees, forests, chains, cycles, grids, relabelled grids, isolated variables, duplicate and higher-order factors.",
 "Tests check a few fixed graphs; solvers choose exact or approximate modes on the answer, so a wrong answer on any other graph silently breaks optimality.",
 [I+"graphicalmodel/graphviews/factorgraph.hxx"],
 [("graph traversals", I+"graphicalmodel/graphviews/factorgraph.hxx: isAcyclic, isConnected, isChain, isGrid, twoHopConnected, shortestPath")],
 ["FactorGraph::isAcyclic/isConnected/isChain/isGrid/factorOrder"])

# ------------------------------------------------------------------- functions
prop("F01", "Every function encoding evaluates to its mathematical definition",
 "Each function type of the library (dense table, constant, Potts for two and for n variables, partition-based Potts, absolute and squared difference, their truncated forms, sparse table, static single-site table, products-of-experts) returns at every label tuple the value given by its mathematical definition and parameters, and reports its shape, dimension and size accordingly. Copies and re-assigned instances behave identically.",
 ["inputs"],
 "All shapes, parameters and label tuples.",
 "Existing tests probe single shapes with a few label tuples; the definitions quantify over all shapes, parameters and tuples.",
 [I+"functions/explicit_function.hxx", I+"functions/constant.hxx", I+"functions/potts.hxx", I+"functions/pottsn.hxx", I+"functions/pottsg.hxx",
  I+"functions/absolute_difference.hxx", I+"functions/squared_difference.hxx", I+"functions/truncated_absolute_difference.hxx",
  I+"functions/truncated_squared_difference.hxx", I+"functions/sparsemarray.hxx", I+"functions/singlesitefunction.hxx", I+"functions/fieldofexperts.hxx"],
 [("operator() of every function class", I+"functions/*.hxx")],
 ["operator()(labels)", "shape(i)", "dimension()", "size()"])

prop("F02", "Function property queries and reductions agree with the value table",
 "Whatever a function or a factor says about itself (minimum, maximum, both at once, sum, product, arbitrary accumulations, being Potts, generalised Potts, submodular, absolute or squared difference, truncated or linearly constrained, equality of functions, enumeration of values in label or switched order) is what its full value table says, whether answered by a closed-form shortcut of the encoding or by enumeration. (Being Potts is asked of functions of two or more variables, being generalised Potts of two to four; submodularity of unary and two-label pairwise functions, other shapes are refused with an exception; the closed-form 'is Potts' answer of a partition-based function may only err towards no.)",
 ["inputs"],
 "All function encodings, shapes, parameters and derived queries.",
 "Shortcuts are per encoding and per shape; tests evaluate them on one or two instances each, while solvers trust them on every input.",
 [I+"functions/function_properties_base.hxx", I+"functions/function_properties.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx",
  I+"functions/potts.hxx", I+"functions/pottsg.hxx"],
 [("enumerating defaults", I+"functions/function_properties_base.hxx: FunctionBase"),
  ("closed-form overrides", I+"functions/potts.hxx, pottsn.hxx, pottsg.hxx, absolute_difference.hxx, ...")],
 ["FunctionBase / Factor predicates and reductions"])

prop("F03", "Views and derived functions equal the transformation they denote",
 "A function that is defined in terms of another one (a plain view of a factor, a scaled view, a value-type converting view, a view with some variables fixed (positions in ascending order), an accumulated view, a view of a whole model, an explicit copy of a model's factors, the minimal canonical form of a model) returns at every label tuple exactly the transformed value of the underlying object, and its shape is the corresponding projection of the underlying shape.",
 ["inputs"],
 "All underlying factors, all fixed-variable subsets and values, scales, accumulators and label tuples.",
 "Tests exercise single examples of each view; index bookkeeping must be right for every subset of positions and every shape.",
 [I+"functions/view.hxx", I+"functions/scaled_view.hxx", I+"functions/view_convert_function.hxx", I+"functions/view_fix_variables_function.hxx",
  I+"functions/accumulated_view.hxx", I+"functions/modelviewfunction.hxx", I+"graphicalmodel/graphicalmodel_explicit_storage.hxx", I+"utilities/canonical_view.hxx"],
 [("view operators", I+"functions/*view*.hxx"), ("explicit storage", I+"graphicalmodel/graphicalmodel_explicit_storage.hxx")],
 ["operator()", "shape", "ExplicitStorage::operator[]"])

prop("F04", "Constraint functions are exactly the indicator of their constraint",
 "A hard-constraint function (label order, number of used labels, linear constraints) returns its 'satisfied' value exactly on the labelings that satisfy the constraint and its 'violated' value on all others, and a soft-constraint function (label cost, sum constraint) returns exactly the cost of its definition. The violated-constraint lists they report for fractional relaxations contain exactly the listed constraints whose weighted violation exceeds the tolerance, with correct weights, and never cut off a feasible integral point.",
 ["inputs"],
 "All shapes, bounds, coefficients, operators and labelings; all fractional points.",
 "The tests enumerate a few small shapes; correctness is over all constraint descriptions and all (fractional) labelings.",
 [I+"functions/constraint_functions/label_order_function.hxx", I+"functions/constraint_functions/num_labels_limitation_function.hxx",
  I+"functions/constraint_functions/linear_constraint_function.hxx", I+"functions/soft_constraint_functions/label_cost_function.hxx",
  I+"functions/soft_constraint_functions/sum_constraint_function.hxx", I+"datastructures/linear_constraint.hxx"],
 [("operator() and challenge methods", I+"functions/constraint_functions, "+I+"functions/soft_constraint_functions")],
 ["operator()", "linearConstraints", "challengeLinearConstraints", "challengeRelaxation"])

prop("F05", "Weighted functions are linear in the learned weights",
 "Every function parameterised by a shared weight vector returns at every labeling the inner product of the current weights with its reported per-weight gradients (or its documented closed form), follows every later change of the weights it was bound to, and reports exactly the indices of the weights it depends on; weight vectors and constraints on weights store what was set.",
 ["inputs", "histories"],
 "All weight values, feature values, label tuples and sequences of weight updates.",
 "Tests check single weights and labels; linearity is a statement over all weights, features and update histories.",
 [I+"functions/learnable/lpotts.hxx", I+"functions/learnable/lunary.hxx", I+"functions/learnable/lweightedsum_of_functions.hxx", I+"graphicalmodel/weights.hxx", I+"functions/unary_loss_function.hxx"],
 [("weightGradient and operator()", I+"functions/learnable/*.hxx")],
 ["operator()", "weightGradient", "weightIndex", "numberOfWeights", "setWeights"])

# --------------------------------------------------------------- serialization
prop("S01", "Saving and loading a model or function is lossless",
 "Writing any supported model to a file and reading it back yields a model with the same variables, factors, factor scopes and the same value at every labeling, for every mix of function types in the model; serialising a single function to its index and value sequences and deserialising yields an equal function, and the announced sequence sizes are exactly the sizes written.",
 ["inputs"],
 "All models and functions of serialisable types, including shared functions, constant factors, unary-only and factor-free models.",
 "The tests round-trip two or three fixed models; encodings are per type and per shape and every combination must survive.",
 [I+"graphicalmodel/graphicalmodel_hdf5.hxx", I+"graphicalmodel/graphicalmodel_function_wrapper.hxx", I+"functions/*.hxx"],
 [("FunctionSerialization of each type", I+"functions/*.hxx"), ("hdf5 save/load", I+"graphicalmodel/graphicalmodel_hdf5.hxx")],
 ["hdf5::save / hdf5::load", "FunctionSerialization<F>"])

prop("S02", "Array file I/O round-trips and hyperslabs address the right block",
 "A multi-dimensional array of dimension one or more saved to a file under a dataset name is loaded back with identical shape and elements for every supported element type, dimension and storage order, arrays stored under different names do not interfere, and loading or saving a rectangular sub-block reads or changes exactly the elements of that block.",
 ["inputs", "histories"],
 "All shapes, element types, storage orders, dataset names and sub-blocks.",
 "Tests write and read a few fixed arrays; block addressing and order conversion must be right for every shape.",
 [I+"datastructures/marray/marray_hdf5.hxx"],
 [("save/load/loadHyperslab/saveHyperslab", I+"datastructures/marray/marray_hdf5.hxx")],
 ["marray::hdf5::save/load/loadHyperslab/saveHyperslab"])

# ------------------------------------------------------------------ operations
prop("A01", "Operations form the semirings that inference relies on",
 "Every combining operation (sum, product, and, or, minimum, maximum, log-sum-exp, integration, tropical and normalising variants) is associative and commutative with its declared neutral element, its inverse undoes it where an inverse exists, its hyper-operation is its k-fold repetition, and every accumulation picks the best or total value together with a label configuration that attains it; orders (better, better-or-equal, no bound) are consistent with the values returned as neutral and ineutral.",
 ["inputs"],
 "All operand values and all sequences of operands.",
 "Tests use a few constants; algebraic laws quantify over all operands.",
 [I+"operations/adder.hxx", I+"operations/multiplier.hxx", I+"operations/minimizer.hxx", I+"operations/maximizer.hxx", I+"operations/integrator.hxx",
  I+"operations/logsumexp.hxx", I+"operations/and.hxx", I+"operations/or.hxx", I+"operations/normalize.hxx", I+"operations/weightedoperations.hxx", I+"utilities/accumulation.hxx"],
 [("static op/iop/ihop/hop/bop", I+"operations/*.hxx"), ("Accumulation", I+"utilities/accumulation.hxx")],
 ["OP::op, OP::iop, OP::hop, OP::ihop, OP::neutral, OP::bop"])

prop("A02", "Factor algebra computes pointwise on the union of scopes",
 "Combining two factors, a factor and a scalar, or transforming a factor with any binary or unary operation yields a factor over the sorted union of the variables whose value at every joint labeling is the operation applied to the operand values at the projected labels, in or out of place; accumulating a factor over a subset of its variables (or all of them) yields at each remaining labeling the accumulated value over the eliminated ones, with arg-optimal labels that attain it, and fixing variables restricts the table accordingly.",
 ["inputs"],
 "All factor scopes (disjoint, overlapping, nested, empty), shapes, operations and eliminated subsets.",
 "Tests combine a few fixed scopes; index projection must be right for every pair of scopes and every shape.",
 [I+"graphicalmodel/graphicalmodel_factor_operator.hxx", I+"graphicalmodel/graphicalmodel_factor_accumulator.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx", I+"functions/operations/operator.hxx", I+"functions/operations/accumulator.hxx"],
 [("binary operation on functions", I+"functions/operations/operator.hxx"), ("accumulation on functions", I+"functions/operations/accumulator.hxx")],
 ["IndependentFactor operators, operateBinary, accumulate, fixVariables"])

# --------------------------------------------------------- model transformations
prop("G01", "Model reduction preserves the energy and optima of the original model",
 "After fixing any set of variables to labels and building the reduced model, every labeling of the reduced model has exactly the energy that the original model assigns to the corresponding full labeling, the mapping between reduced and original labelings is a bijection on the free variables, and decomposing into independent sub-models (optionally eliminating dangling trees) and recombining sub-solutions yields a full labeling whose energy is the combination of the sub-energies, optimal whenever the sub-solutions are optimal. Releasing or re-fixing variables, unlocking and building again returns the reduction to the corresponding state. In dropping mode the reduced model is the sum of the factors without fixed variables. The listing of dangling trees names exactly the variables outside the cyclic core together with the core variables they hang on, with parents leading to one root per tree. Optimising any subset of the variables with the others held at their labels (with a solver, in place, or by dynamic programming on forests) yields the best labeling of that subset, after any history of such steps.",
 ["inputs", "histories"],
 "All models, all sequences of fixing and freeing variables, all label choices.",
 "Tests reduce a few fixed models; correctness is over all scopes, fix patterns and orders.",
 [I+"graphicalmodel/graphicalmodel_manipulator.hxx", I+"functions/view_fix_variables_function.hxx", I+"inference/auxiliary/submodel/submodel_builder.hxx"],
 [("buildModifiedModel / buildModifiedSubModels", I+"graphicalmodel/graphicalmodel_manipulator.hxx"),
  ("tentacle elimination", I+"graphicalmodel/graphicalmodel_manipulator.hxx: lockAndTentacelElimination")],
 ["GraphicalModelManipulator"])

prop("G02", "Model decompositions cover the model and reparametrise exactly",
 "Every automatic decomposition of a model into sub-models (a single tree by duplicating variables, spanning trees, k-fans of second-order models, closed blocks, open blocks, manual factor lists) refers in every sub-model only to variables that sub-model contains, maps each sub-factor to the variables of the original factor, covers each variable and factor (open blocks: exactly the factors inside a block; manual: the listed factors), yields acyclic sub-models where trees are promised, and with every factor shared evenly among the sub-models that contain it the sub-model energies of any labeling sum to the original energy. Reordering sorts sub-variables in model order and renames scopes consistently; completion only adds unary sub-factors, until every copy of a variable that occurs more than once carries one; an incomplete decomposition is never called valid.",
 ["inputs"],
 "All factor graphs, decomposition kinds, block counts and assembly histories.",
 "Tests decompose one or two grids; validity must hold for arbitrary factor graphs.",
 [I+"graphicalmodel/decomposition/graphicalmodeldecomposer.hxx", I+"graphicalmodel/decomposition/graphicalmodeldecomposition.hxx"],
 [("decomposers", I+"graphicalmodel/decomposition/graphicalmodeldecomposer.hxx"), ("completeness, reorder, validity", I+"graphicalmodel/decomposition/graphicalmodeldecomposition.hxx")],
 ["GraphicalModelDecomposer::decompose*", "GraphicalModelDecomposition"])

prop("G03", "Label spaces report the sizes they were built from",
 "Every kind of label space (general, uniform, compile-time uniform, grid, view of a vector) reports for every variable the number of labels it was constructed or last assigned with, the number of variables, and grows correctly when variables are added; spaces that cannot represent an addition or assignment (other label counts in uniform spaces, growth of grids and views) refuse it with an exception; copies are independent and equal, and models over any kind of space evaluate alike.",
 ["inputs", "histories"],
 "All variable counts, label counts and sequences of additions and assignments.",
 "Tests construct a few spaces; growth and assignment histories are unbounded.",
 [I+"graphicalmodel/space/discretespace.hxx", I+"graphicalmodel/space/simplediscretespace.hxx", I+"graphicalmodel/space/static_simplediscretespace.hxx", I+"graphicalmodel/space/grid_space.hxx", I+"graphicalmodel/space/vector_view_space.hxx", I+"graphicalmodel/space/viewspace.hxx"],
 [("space classes", I+"graphicalmodel/space/*.hxx")],
 ["numberOfLabels", "numberOfVariables", "addVariable", "assign"])

# -------------------------------------------------------------- data structures
prop("D01", "Array views address the same elements as index arithmetic on the parent",
 "For every multi-dimensional array and every composition of sub-views, bound dimensions, transpositions, permutations, reshapes, squeezes and shifts in either storage order, element access, iteration, copying, resizing, comparison and arithmetic through the view read and write exactly those elements of the underlying memory that the index mapping prescribes, and leave all others unchanged; expressions on arrays equal element-wise arithmetic.",
 ["inputs", "histories"],
 "All shapes, storage orders, view compositions and operation sequences.",
 "Tests use fixed small arrays; stride arithmetic must be right for every composition.",
 [I+"datastructures/marray/marray.hxx"],
 [("Geometry, View, Marray, Iterator", I+"datastructures/marray/marray.hxx")],
 ["View / Marray operations"])

prop("D02", "Containers behave like their standard mathematical counterparts",
 "The library's containers (sorted set, small-buffer sequence, growing buffer, sparse array, disjoint-set forests with and without representatives, priority queues) behave under any sequence of operations exactly like a set, vector, map, partition of integers and priority queue respectively, including copy, assignment, swap, iteration order and reported sizes. (Elements gained by resizing have unspecified values; queues hold at most the number of elements they were constructed for.)",
 ["histories"],
 "All operation sequences.",
 "Tests run short fixed sequences; container bugs appear at buffer boundaries and after particular histories.",
 [I+"datastructures/randomaccessset.hxx", I+"datastructures/fast_sequence.hxx", I+"datastructures/buffer_vector.hxx", I+"datastructures/partition.hxx", I+"utilities/disjoint-set.hxx", I+"datastructures/sparsemarray/sparsemarray.hxx", I+"utilities/queues.hxx"],
 [("container classes", I+"datastructures/*.hxx, "+I+"utilities/disjoint-set.hxx, "+I+"utilities/queues.hxx")],
 ["public container API"])

prop("D03", "Enumeration and index utilities visit every element exactly once, in order",
 "Label-tuple walkers, sub-sequence and accessor iterators, index/coordinate conversions, set-partition enumeration and its index mapping, union/intersection index helpers, sorting by permutation, integer powers and three-valued logic produce exactly the sequence or value of their mathematical definition for every input (fixed positions are given in ascending order; partition numbers fit the index type).",
 ["inputs"],
 "All shapes, subsets, sequences and truth values.",
 "Tests enumerate a few shapes; every solver iterates with these helpers over arbitrary shapes.",
 [I+"utilities/indexing.hxx", I+"utilities/subsequence_iterator.hxx", I+"utilities/accessor_iterator.hxx", I+"utilities/shape_accessor.hxx", I+"utilities/partitions.hxx", I+"utilities/sorting.hxx", I+"utilities/tribool.hxx", I+"utilities/unsigned_integer_pow.hxx", I+"utilities/vector_view.hxx", I+"utilities/functors.hxx"],
 [("walkers and helpers", I+"utilities/*.hxx")],
 ["public helper API"])

# ------------------------------------------------------------------- inference
prop("I01", "Exact solvers return a global optimum with the true optimal value",
 "Brute force, A* search, dynamic programming on acyclic models, and graph cut on submodular binary models return a labeling whose energy equals the true optimum over all labelings for every model in their domain, for minimisation and maximisation; the k-th best search returns the k best labelings in order.",
 ["inputs", "configurations"],
 "All models in each solver's domain, both optimisation senses, sum and product models, all parameter settings.",
 "Tests solve a few random instances of fixed shapes; optimality must hold on every model of the domain, including disconnected, constant and degenerate ones.",
 [I+"inference/bruteforce.hxx", I+"inference/astar.hxx", I+"inference/dynamicprogramming.hxx", I+"inference/graphcut.hxx", I+"inference/messagepassing/messagepassing.hxx"],
 [("solver classes", I+"inference/bruteforce.hxx, astar.hxx, dynamicprogramming.hxx, graphcut.hxx")],
 ["infer", "arg", "value", "Inference::args"])

prop("I02", "Every solver returns a valid labeling consistent with its reported value",
 "For every solver and every model it accepts, the returned labeling has one in-range label per variable, the reported value equals the model's energy at that labeling where the solver claims to report it, and the reported bound is never on the wrong side of the optimum: in the order of the optimisation sense the bound comes first, then the optimum, then the returned value (up to numerical tolerance).",
 ["inputs", "configurations"],
 "All solvers that build here, all models, all parameter settings.",
 "Tests compare values on fixed problem families; this is a contract over every solver, model and parameter combination.",
 [I+"inference/inference.hxx", I+"inference/*.hxx"],
 [("Inference base contract", I+"inference/inference.hxx")],
 ["arg", "value", "bound"])

prop("I03", "Local search never gets worse and stops only at its promised local optimum",
 "Started from any labeling, iterated conditional modes, lazy flipping, alpha-expansion, alpha-beta-swap, inf-and-flip and the other move-making searches return a labeling at least as good as the start, and at convergence no move of their neighbourhood (changing one variable or factor, any connected set up to the given size, any expansion or swap move) improves it.",
 ["inputs", "configurations"],
 "All models, starting points, move sizes and orders.",
 "Tests check values of a few instances; local optimality quantifies over all models, starts and neighbourhoods.",
 [I+"inference/icm.hxx", I+"inference/lazyflipper.hxx", I+"inference/alphaexpansion.hxx", I+"inference/alphabetaswap.hxx", I+"inference/infandflip.hxx", I+"inference/movemaker.hxx"],
 [("solver classes", I+"inference/icm.hxx, lazyflipper.hxx, alphaexpansion.hxx, alphabetaswap.hxx")],
 ["infer", "arg", "setStartingPoint"])

prop("I04", "The move maker tracks the energy of its state under any move sequence",
 "After any sequence of moves, tentative evaluations, optimal-subset moves, random moves and resets, the reported current value equals the energy of the current labeling, a tentative evaluation equals the energy after the move without changing the state, and an optimal move over a variable subset finds the best labeling of that subset given the rest.",
 ["histories", "inputs"],
 "All models and sequences of move operations.",
 "Tests run a short fixed sequence; incremental bookkeeping must hold after every history.",
 [I+"inference/movemaker.hxx"],
 [("incremental energy bookkeeping", I+"inference/movemaker.hxx: Movemaker")],
 ["Movemaker::value, valueAfterMove, move, moveOptimally"])

prop("I05", "Message passing is exact on trees",
 "On acyclic models belief propagation (parallel and sequential schedules) yields exact variable and factor marginals for sum-product semirings and exact min-/max-marginals with an optimal labeling for optimisation semirings, tree-reweighted propagation coincides with it on trees, and on every model the marginals are normalised and, once the messages have converged, consistent between a factor and its variables and a reparametrisation of the model (with the factor weights of the spanning-tree decomposition or the given ones).",
 ["inputs", "schedules"],
 "All factor graphs of any order, acyclic or not, semirings, damping, node orders, factor weights and update schedules.",
 "Tests check marginals of a few fixed models; exactness quantifies over every tree and schedule.",
 [I+"inference/messagepassing/messagepassing.hxx", I+"inference/messagepassing/messagepassing_bp.hxx", I+"inference/messagepassing/messagepassing_trbp.hxx", I+"inference/messagepassing/messagepassing_operations.hxx"],
 [("message updates", I+"inference/messagepassing/*.hxx")],
 ["marginal", "factorMarginal", "arg"])

prop("I06", "Minimum s-t cut returns a cut of minimum capacity",
 "For every graph with non-negative capacities, each max-flow back end's reported cut separates source from sink, and its capacity equals the minimum over all cuts, whatever the insertion order or repetition of edges and whatever an earlier run left in the result vector. GraphCut, which states a binary submodular model (factors of up to three variables) as such a cut, returns a labeling of minimum energy.",
 ["inputs"],
 "All graphs, capacities and insertion orders.",
 "Tests check one small graph.",
 [I+"inference/auxiliary/minstcutboost.hxx", I+"inference/graphcut.hxx"],
 [("boost max-flow wrapper", I+"inference/auxiliary/minstcutboost.hxx")],
 ["addEdge", "calculateCut"])

prop("I07", "Roof duality is persistent and its bound is valid",
 "For every binary pairwise model, all variables that the roof-duality solver labels take their labels jointly in some optimal labeling, the partial labeling (one half elsewhere) attains the optimum of the linear relaxation, every variable on which all optima of the relaxation agree is labelled, the reported labeling of a submodular model is optimal, and the reported value is the labeling's.",
 ["inputs"],
 "All binary models up to second order.",
 "Tests look at a few instances; persistency is a guarantee over all energies.",
 [I+"inference/qpbo.hxx"],
 [("flow construction and labeling", I+"inference/qpbo.hxx")],
 ["infer", "arg", "partialOptimality"])

prop("I08", "2-satisfiability is decided correctly",
 "For every binary model whose factors are constraints over two variables each, the solver reports satisfiable exactly when some labeling satisfies all factors, and it rejects factors of other orders.",
 ["inputs"],
 "All conjunctions of clauses of length at most two.",
 "Tests check a few formulas.",
 [I+"inference/sat.hxx"],
 [("strongly connected components of the implication graph", I+"inference/sat.hxx")],
 ["SAT::value"])

prop("I09", "Dual solvers report valid bounds and are tight on trees",
 "For every pairwise model, dual decomposition, sequential tree-reweighted message passing, adaptive diminishing smoothing and accelerated gradient methods report lower bounds that never exceed the optimum and integer solutions never better than it, in every decomposition and parameter setting, and on tree-structured models they close the gap. (The chain-based solvers are given models with one unary factor per variable, and grid-structured models for the grid decomposition.)",
 ["inputs", "configurations"],
 "All pairwise models, decompositions, starting points, solver parameters.",
 "Tests check a few grids; bound validity must hold for all models and parameters.",
 [I+"inference/dualdecomposition/dualdecomposition_base.hxx", I+"inference/dualdecomposition/dualdecomposition_subgradient.hxx", I+"inference/trws/trws_trws.hxx", I+"inference/trws/trws_adsal.hxx", I+"inference/trws/smooth_nesterov.hxx", I+"inference/trws/trws_base.hxx"],
 [("dual update and bound computation", I+"inference/trws/*.hxx, "+I+"inference/dualdecomposition/*.hxx")],
 ["bound", "value", "arg"])

prop("I10", "Reparametrisation leaves the energy of every labeling unchanged",
 "For any dual variables, the reparametrised model has the same energy at every labeling as the original, its local-polytope bound never exceeds the optimum, and masks computed from it (local optimal labels, arc consistency) contain what they claim. Dual variables written to a file are read back unchanged.",
 ["inputs"],
 "All pairwise models and dual vectors.",
 "Tests evaluate one labeling of one model.",
 [I+"inference/auxiliary/lp_reparametrization.hxx", I+"inference/auxiliary/lp_reparametrization_hdf5.hxx", I+"inference/trws/trws_reparametrization.hxx"],
 [("reparametrised views", I+"inference/auxiliary/lp_reparametrization.hxx")],
 ["LPReparametrizer::getReparametrizedModel"])

prop("I11", "The transportation solver attains the optimum of the transportation problem",
 "For every cost matrix and non-negative marginals of equal mass, the solver returns a feasible plan whose cost equals the returned value and is minimal, for whole sequences of problems on one solver object; and the primal bound built from such plans reports, after any history of marginal updates and queries, the value and plans of the current marginals (the energy at integral points).",
 ["inputs"],
 "All cost matrices and marginals, including degenerate and sparse ones.",
 "Tests solve a few fixed matrices; simplex bases degenerate in input-specific ways.",
 [I+"inference/auxiliary/transportationsolver.hxx", I+"inference/auxiliary/primal_lpbound.hxx"],
 [("transportation simplex", I+"inference/auxiliary/transportationsolver.hxx")],
 ["Solve", "GetSolution"])

prop("I12", "Fusing two labelings never yields a worse labeling than either",
 "For every model and pair of labelings, a fusion move returns a labeling that takes each variable's label from one of the two, is no worse than the better of them, and is the best such mixture where the back end is exact; the fusion-based search built on it improves monotonically.",
 ["inputs", "configurations"],
 "All models, labeling pairs, proposal generators and back ends.",
 "Tests run a few random models and compare values loosely.",
 [I+"inference/auxiliary/fusion_move/fusion_mover.hxx", I+"inference/fusion_based_inf.hxx", I+"inference/self_fusion.hxx"],
 [("fusion model construction", I+"inference/auxiliary/fusion_move/fusion_mover.hxx")],
 ["HlFusionMover::fuse", "FusionBasedInf"])

prop("I13", "Sampling inference keeps consistent state and marginal estimates",
 "A Gibbs sampler's best labeling is the best it visited, its value matches its labeling, visitors see the value of the chain's current state, marginal estimates are normalised non-negative histograms of exactly the counted samples, and with growing sample counts they approach the true distribution.",
 ["inputs", "schedules"],
 "All models, parameter settings and random schedules.",
 "Tests run one model with a loose check; statistical laws over all models cannot be sampled by one run.",
 [I+"inference/gibbs.hxx"],
 [("sampler and marginal visitor", I+"inference/gibbs.hxx")],
 ["Gibbs::infer", "GibbsMarginalVisitor"])

prop("I14", "Solvers are reproducible and observation does not change results",
 "Running the same deterministic solver on the same model and parameters twice, on a copy of the model, after a reset, or with any visitor attached, returns the same labeling and value; visitors observe monotone time, the iterations that happened, and can stop the solver early without leaving it in an invalid state. (Greedy heuristics that continue from their last labeling may improve it when run again on the same object; a solver stopped before it found a first labeling reports the neutral value.)",
 ["histories", "configurations"],
 "All solvers, models, visitors, stop points and reset sequences.",
 "Tests never run a solver twice on the same object or compare visited runs.",
 [I+"inference/visitors/visitors.hxx", I+"inference/inference.hxx"],
 [("visitor protocol", I+"inference/visitors/visitors.hxx")],
 ["infer(visitor)", "reset"])

prop("I15", "LP translation of models, functions and constraints is exact",
 "Translating a function into indicator variables, slack variables and linear constraints yields a system whose best objective at every labeling is the function's value. The programs the LP inference base builds contain a labeling as integral point exactly when it satisfies all linear constraint functions, with its energy as objective; whatever LP/MIP solver is plugged in, the local, loose and tight polytopes, heuristics, limits on added constraints and merged or transferred factors lead to the same relaxation value, a bound on the optimum (tight on trees), never exceed their limits, and with integral node variables to an optimal feasible labeling or the report that there is none.",
 ["inputs", "configurations"],
 "All models with table, Potts, label order, number of labels, linear constraint, label cost and sum constraint functions, all labelings and all parameter combinations of LPInferenceBase; sum constraint transfer with the sign of weight that penalises deviation.",
 "Tests translate a few functions and need commercial solvers to run the LP inference at all; exactness must hold over all labelings, constraint structures and cutting plane histories.",
 [I+"inference/lp_inference_base.hxx", I+"inference/auxiliary/lp_functiontransfer.hxx", I+"inference/auxiliary/lp_solver/lp_solver_interface.hxx", I+"datastructures/linear_constraint.hxx"],
 [("LPFunctionTransfer specialisations", I+"inference/auxiliary/lp_functiontransfer.hxx")],
 ["LPInferenceBase::infer", "LPInferenceBase::bound", "LPFunctionTransfer::getLinearConstraints", "getIndicatorVariables", "isTransferable"])

# --------------------------------------------------------------------- programs
prop("C01", "Command-line inference tools agree with the library on every model file",
 "For every valid model file and every available algorithm and setting, the command-line programs terminate with success and write the labeling that the library computes with the same settings, so exact algorithms write an optimal one; a protocol lists the values and bounds that the library reports, ends with the value of that labeling and excludes no optimum; --evaluate and --modelinfo report the model's value and structure. Truncated or missing files, missing datasets, unknown or unavailable algorithms, values that are not permitted and vectors that do not fit the model are rejected with an error status instead of a crash.",
 ["inputs", "configurations"],
 "All model files, algorithms and settings; truncated, missing and unrelated files; vectors of wrong sizes.",
 "No existing test runs the tools.",
 ["src/interfaces/commandline/double/opengm_min_sum.cxx", "src/interfaces/common/io/io_hdf5.hxx", "src/interfaces/common/interface_base.hxx", "src/interfaces/common/argument/argument.hxx"],
 [("command line parsing and caller classes", "src/interfaces/common, src/interfaces/commandline")],
 ["process exit status, output files"])

prop("C02", "Format converters preserve the model",
 "Converting a model between the text interchange format and the native file format, in either direction, yields a model with the same variables and label counts and the same energy at every labeling (up to the text format's printed precision and its exponential encoding), and special-purpose converters produce models whose energy equals their source problem's objective.",
 ["inputs"],
 "All models expressible in the formats.",
 "No existing test runs the converters.",
 ["src/converter/uai2opengm.cxx", "src/converter/opengm2uai.cxx", "src/converter/matching2opengm.cxx", "src/converter/opengm2wudag.cxx"],
 [("converter programs", "src/converter/*.cxx")],
 ["converter input and output files"])

prop("C03", "Random model generators produce models of the requested structure",
 "For every generator parameter set the produced model has the requested number of variables and labels, the requested graph structure (grid whose factors are the runs of the requested order in rows and columns, star around one root, fully connected), factors of the requested function family with values and parameters within the requested ranges, one function shared by equally shaped factors exactly when sharing is requested, and the same id yields the same model. Random number generators draw from [low, high), reach every value of an integer range, repeat their sequence for the same seed, and draw indices with the frequencies their weights state.",
 ["inputs", "configurations"],
 "All generator parameters and seeds.",
 "Tests use the generators as input source and never check their output.",
 [I+"graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx", I+"utilities/random.hxx"],
 [("generators", I+"graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx")],
 ["buildGrid, buildStar, buildFull"])
