#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl (the source of truth for ids, titles, statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                   observe_at=observe or [], hook_needed=hook)))
I = "include/opengm/"
# ------------------------------------------------------------------ storage
prop("P01", "An acknowledged model save loads back as the identical model",
 "If saving a graphical model to HDF5 returns normally, then loading that file and dataset name - in the same or a later process - yields a model with the same variables, label counts, factors, factor scopes and exactly the same factor values, whatever disk faults (full disk, I/O errors, short writes, failing opens or closes) happened during the save. A save or load that cannot complete because of a disk fault reports it with an exception, it never crashes and never returns a wrong model. Once the fault is gone, retrying the same save or load in the same process on the same path succeeds.",
 ["fault_sequences", "inputs"], "every model over the registered function types, every position and kind of disk fault during save and load, every sequence of retries",
 "test_io_hdf5 saves and loads a handful of models on a healthy disk; no test ever makes a disk operation fail.",
 [I+"graphicalmodel/graphicalmodel_hdf5.hxx", I+"datastructures/marray/marray_hdf5.hxx", I+"functions"],
 [("hdf5::save / hdf5::load", I+"graphicalmodel/graphicalmodel_hdf5.hxx"), ("marray::hdf5 file/group/dataset helpers", I+"datastructures/marray/marray_hdf5.hxx"), ("FunctionSerialization specialisations", I+"functions/*.hxx")],
 observe=["opengm::hdf5::save", "opengm::hdf5::load", "bytes handed to the operating system"])
prop("P02", "A save interrupted by a crash never yields a different model",
 "If the process dies at any instant while a model is being saved to HDF5 - also when it overwrites an older file - then a later load of that path either throws or returns exactly the model that was being saved (or, if the old file was not touched yet, the old model). It never returns some third model and never crashes the loading process.",
 ["crash_points", "inputs"], "every model and every prefix of the byte-level writes of a save, including a torn last write",
 "no test kills a save; crash points are instants of the write stream, which unit tests do not reach.",
 [I+"graphicalmodel/graphicalmodel_hdf5.hxx", I+"datastructures/marray/marray_hdf5.hxx"],
 [("hdf5::save writes header, label counts, functions, factors", I+"graphicalmodel/graphicalmodel_hdf5.hxx"), ("hdf5::load", I+"graphicalmodel/graphicalmodel_hdf5.hxx")],
 observe=["opengm::hdf5::load on the surviving bytes"])
prop("P03", "The HDF5 array store behaves like a map under disk faults",
 "Any sequence of creating and opening files and groups, saving whole arrays, vectors and hyperslabs, and reading them back in whole or part, in either storage order, behaves like a simple map from names to arrays: a read returns exactly the values of the last acknowledged write to each cell. An operation hit by a disk fault throws and leaks no open handle, and every acknowledged array survives closing and reopening the file.",
 ["fault_sequences", "histories"], "all operation sequences on files, groups, datasets and hyperslabs, and all disk-fault positions in them",
 "the only HDF5 test goes through whole-model save/load; hyperslabs, groups, read-write reopening and failing disks are not sampled.",
 [I+"datastructures/marray/marray_hdf5.hxx"],
 [("save, saveHyperslab, load, loadHyperslab, loadVec, loadShape, create/open/close of files and groups", I+"datastructures/marray/marray_hdf5.hxx")],
 observe=["values read back", "number of open HDF5 objects"])
prop("P04", "Format converters never silently drop or damage a model",
 "Converting an OpenGM HDF5 model with factors of order at most two to UAI format and back yields a model over the same variables, label counts and factor scopes with the same factor values up to a uniform printing precision; a well-formed UAI text with factors of any order and any order of the variables in a scope converts to the model it describes. The partition converters (opengm2wudag, partition2potts) and the voxel converter (brain) likewise produce exactly the constant, edges, weights or model that their input describes. If the output cannot be written completely or the input is missing, truncated, malformed, unreadable or of an unsupported kind, the converter reports failure (non-zero exit status or exception) instead of reporting success, and works again once the fault is gone.",
 ["fault_sequences", "inputs"], "every such model, every disk-fault position in reading and writing, every truncation point and malformed token of the text file",
 "the converters have no test at all.",
 ["src/converter/opengm2uai.cxx", "src/converter/uai2opengm.cxx", "src/converter/opengm2wudag.cxx", "src/converter/partition2potts.cxx", "src/converter/brain.cxx"],
 [("main of the converters", "src/converter")], observe=["exit status and produced files"])
# ------------------------------------------------------------------ model
prop("P05", "Model construction histories match a simple reference model",
 "After any sequence of adding variables, functions, shared functions and factors (immediately or in bulk followed by finalisation), changing function values, copying, assigning and converting, every query of a graphical model - counts, labels, factor scopes, factor order, factor values, factor properties and extrema, function identifiers and their order, evaluation of any labelling, and the adjacency between variables and factors in both directions - agrees with a plain table of what was added.",
 ["histories", "inputs"], "all operation histories, over all function types of the model, with readers scheduled between any two operations",
 "test_graphicalmodel and test_factorgraph build a few fixed models; histories mixing bulk addition, sharing, mutation and copying are not sampled.",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx", I+"graphicalmodel/graphviews/factorgraph.hxx", I+"datastructures/randomaccessset.hxx"],
 [("addVariable, addFunction, addSharedFunction, addFactor, addFactorNonFinalized, finalize, operator=", I+"graphicalmodel/graphicalmodel.hxx"), ("FactorGraph queries", I+"graphicalmodel/graphviews/factorgraph.hxx")])
prop("P06", "A failed model-building operation changes nothing observable",
 "If adding a variable, a function or a factor fails - because its arguments are rejected (unsorted or out-of-range variable indices) or because memory cannot be allocated at any point inside it - the failure is reported by an exception and the model answers every query exactly as before the call. The same operation, repeated without the fault or with valid arguments, then has its normal effect.",
 ["fault_sequences", "histories"], "every allocation index inside every operation, every invalid argument, at every point of a construction history",
 "tests never make an allocation fail and never look at a model again after a rejected call.",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"datastructures/randomaccessset.hxx", I+"graphicalmodel/space/discretespace.hxx"],
 [("addVariable, addFunction, addSharedFunction, addFactor, addFactorNonFinalized", I+"graphicalmodel/graphicalmodel.hxx")])
prop("P07", "Copies and converted models are independent of their source",
 "A model obtained by copy construction, assignment or assignment from a model type with other function types evaluates every labelling like its source at the moment of copying and exposes the same structure. From then on source and copy are independent: mutating, reassigning or destroying either one, in any interleaving, never changes the other.",
 ["histories", "schedules"], "all interleavings of tasks that each mutate, copy, reassign and destroy their own models",
 "tests copy a model once and compare immediately; lifetimes and later mutations are not interleaved.",
 [I+"graphicalmodel/graphicalmodel.hxx", I+"graphicalmodel/graphicalmodel_factor.hxx"],
 [("copy constructor, operator=, cross-type operator=, factor back pointers", I+"graphicalmodel/graphicalmodel.hxx")])
prop("P08", "Fixing and freeing variables preserves the energy of every labelling",
 "After any history of fixing, freeing, locking and unlocking variables of a model manipulator in the mode that keeps factors, the modified model's value of any labelling of the free variables equals the original model's value of the labelling it is mapped back to, and the sub-models' values combine to it. Fixed variables always keep exactly the label they were fixed to, and operations are ignored while locked.",
 ["histories"], "all histories of fix, free, lock, unlock, build, on all models, with failing allocations between and inside operations",
 "test_graphicalmodelmanipulator runs one short fixed scenario.",
 [I+"graphicalmodel/graphicalmodel_manipulator.hxx", I+"functions/view_fix_variables_function.hxx"],
 [("fixVariable, freeVariable, lock, unlock, buildModifiedModel, buildModifiedSubModels, modifiedState2OriginalState, lockAndTentacelElimination", I+"graphicalmodel/graphicalmodel_manipulator.hxx")])
prop("P26", "Structure queries of a factor graph are right at every point of its construction",
 "At every point of a construction history - also right after a query that failed for lack of memory, on copies, and after bulk insertion followed by finalisation - the structural queries of a model tell the truth about its factors: isAcyclic, isConnected (with one representative per component), isChain and isGrid (a grid or chain is recognised whatever the numbering of its variables, the returned order is really that chain or grid, and nothing else is taken for one), the factor order queries, variable/factor connection tests, the variables of a factor and factors of a variable, and the adjacency matrix and lists.",
 ["histories", "fault_sequences", "inputs"], "all construction histories and numberings, every prefix of a history, every failing allocation inside a query",
 "test_factorgraph asks a handful of fixed graphs with one numbering each, once they are complete.",
 [I+"graphicalmodel/graphviews/factorgraph.hxx", I+"datastructures/partition.hxx", I+"utilities/accessor_iterator.hxx"],
 [("isAcyclic, isConnected, isChain, isGrid, maxFactorOrder, *Connection, variableAdjacencyMatrix, variableAdjacencyList, factorAdjacencyList", I+"graphicalmodel/graphviews/factorgraph.hxx")])
# ------------------------------------------------------------------ inference
SOLV = [I+"inference/"+x for x in ("icm.hxx","lazyflipper.hxx","bruteforce.hxx","astar.hxx","alphaexpansion.hxx","alphabetaswap.hxx","graphcut.hxx","dynamicprogramming.hxx","messagepassing/messagepassing.hxx","dualdecomposition/dualdecomposition_subgradient.hxx","trws/trws_trws.hxx","trws/trws_adsal.hxx","trws/smooth_nesterov.hxx","self_fusion.hxx","fusion_based_inf.hxx","infandflip.hxx","greedygremlin.hxx")]
prop("P10", "An optimizer's reported solution is valid at every observable instant",
 "Whenever an optimizer hands control to its visitor after inference has begun, and after it returns for whatever reason, the labelling it reports has one in-range label per variable, and the value it reports is the model's value of that labelling (or the worst possible value as long as it has not found any labelling). This holds for every optimizer, every model it accepts, and wherever the run is stopped.",
 ["schedules", "inputs"], "every optimizer and model, every callback instant, every stop point",
 "tests look at the solution only after an undisturbed run has returned.",
 SOLV+[I+"inference/inference.hxx"],
 [("arg(), value(), visitor callbacks in each infer()", I+"inference")], observe=["visitor callbacks", "after infer()"])
prop("P11", "Local search and move-making never make the solution worse",
 "For the local-search and move-making optimizers (ICM, Lazy Flipper, alpha-expansion and alpha-beta-swap on their supported energies, fusion-based inference, inference-and-flip), the value never gets worse from one visitor callback to the next, and the final value is never worse than that of the given starting labelling - even if the run is stopped at any point, hits a step limit, or was restarted from an earlier result.",
 ["schedules", "histories", "inputs"], "every stop point, chain of restarts, parameter setting and random proposal stream",
 "tests compare final values of complete runs with brute force on a few models.",
 [I+"inference/icm.hxx", I+"inference/lazyflipper.hxx", I+"inference/alphaexpansion.hxx", I+"inference/alphabetaswap.hxx", I+"inference/fusion_based_inf.hxx", I+"inference/self_fusion.hxx", I+"inference/infandflip.hxx", I+"inference/movemaker.hxx"],
 [("move acceptance", I+"inference/movemaker.hxx")], observe=["value() and arg() at every callback"])
prop("P12", "Stop requests are honoured and callbacks are well ordered",
 "Every optimizer run with a visitor calls begin exactly once before any other callback and end exactly once as the last callback. As soon as the visitor asks to stop, the optimizer performs no further optimisation step: it makes no further ordinary visitor call (closing bookkeeping aside) and returns with its current result.",
 ["schedules"], "every optimizer, model and callback index at which the stop is requested, through the plain and the timing/verbose visitors",
 "tests use visitors that never stop.",
 SOLV+[I+"inference/visitors/visitors.hxx"],
 [("visitor return value handling in each infer()", I+"inference"), ("VisitorReturnFlag", I+"inference/visitors/visitors.hxx")], observe=["callback sequence"])
prop("P13", "Time limits and timing logs follow the clock",
 "With the timing visitor, inference stops at the first evaluated step at which the accumulated measured time exceeds the configured limit, or at which value and bound are closer than the configured gap, and is never stopped by the visitor before that. The recorded protocol has one entry per evaluated step with non-decreasing times that equal the simulated clock's elapsed run time at that step and with the values and bounds the optimizer reported at that instant.",
 ["schedules", "configurations"], "every sequence of clock readings (slow steps, stalls, clock jumps, equal readings), step interval, limit and gap",
 "tests cannot steer the clock; none checks time limits or the recorded protocol.",
 [I+"inference/visitors/visitors.hxx", I+"utilities/timer.hxx"],
 [("TimingVisitor", I+"inference/visitors/visitors.hxx"), ("Timer", I+"utilities/timer.hxx")],
 state=[("protocol", "map from log name to recorded numbers", I+"inference/visitors/visitors.hxx")], observe=["getProtocolMap()", "callbacks"])
prop("P14", "Exact optimizers return a global optimum",
 "Brute force, A* with a valid heuristic, dynamic programming and acyclic message passing on forests, graph cut on submodular (when maximising: supermodular) binary models of order up to three (two), QPBO on submodular binary models and the multicut decomposition DMC around an exact solver return a labelling whose value equals the best value over all labellings whenever they run to completion. The labels QPBO marks as optimal belong together to some global optimum of any binary model of order two, and the 2-SAT solver's answer is right. This holds regardless of what else runs interleaved with them, of previously aborted or failed runs, and of the contents of uninitialised memory.",
 ["inputs", "schedules", "histories"], "every supported model, every interleaving with other solvers, every history of earlier stopped or failed runs, every heap content",
 "tests compare with brute force on a few generated models in isolated, undisturbed runs.",
 [I+"inference/bruteforce.hxx", I+"inference/astar.hxx", I+"inference/dynamicprogramming.hxx", I+"inference/messagepassing/messagepassing.hxx", I+"inference/graphcut.hxx", I+"inference/auxiliary/minstcutboost.hxx", I+"inference/qpbo.hxx", I+"inference/dmc.hxx", I+"inference/sat.hxx"],
 [("infer()/arg() of the exact optimizers", I+"inference")])
prop("P15", "Reported bounds are valid at every instant and never retreat",
 "At every visitor callback and after every run, stopped or complete, the bound reported by an optimizer that computes one (dual decomposition, TRWS, adaptive diminishing smoothing, Nesterov, A*, brute force) is on the right side of the optimum - not above the minimum when minimising - and therefore never crosses the reported value. The best bound of the dual optimizers never gets weaker from one callback to the next.",
 ["schedules", "inputs"], "every model, callback instant, stop point and solver parameter",
 "tests check bounds only at the end of complete runs.",
 [I+"inference/dualdecomposition/dualdecomposition_subgradient.hxx", I+"inference/dualdecomposition/dualdecomposition_base.hxx", I+"inference/trws/trws_base.hxx", I+"inference/trws/trws_adsal.hxx", I+"inference/trws/smooth_nesterov.hxx", I+"inference/trws/smoothing_strategy.hxx", I+"inference/astar.hxx", I+"inference/bruteforce.hxx"],
 [("bound()", I+"inference")], observe=["bound() at every callback"])
prop("P16", "Solvers sharing one model do not influence each other",
 "Any number of optimizers that run interleaved on the same constant model - switching at any function evaluation or callback, with different parameters and even when some of them are stopped or fail - each produce exactly the callbacks, values and labelling they produce when run alone. The shared model is never modified.",
 ["schedules"], "every interleaving at function evaluations and visitor callbacks",
 "tests run one solver at a time.",
 SOLV+[I+"graphicalmodel/graphicalmodel.hxx"],
 [("const model access, no static or shared mutable state", I+"inference")], observe=["per-solver event traces"])
prop("P17", "Re-running, resetting and restarting equals a fresh solver",
 "For optimizers that offer it, calling reset and running again gives the same result as a newly constructed solver with the same parameters would give - after complete runs, runs stopped at any callback and runs aborted by an exception. Setting a starting point on a used optimizer and running it again ends in a valid result that is never worse than that starting point, and for ICM and the lazy flipper in exactly the result of a new solver with that starting point. Running twice in a row never makes an optimizer's result invalid, nor worse for move-making and exact optimizers.",
 ["histories"], "all sequences of run, stop, reset, set starting point and run again",
 "tests construct a new solver for each run.",
 [I+"inference/icm.hxx", I+"inference/bruteforce.hxx", I+"inference/alphaexpansion.hxx", I+"inference/messagepassing/messagepassing.hxx", I+"inference/dynamicprogramming.hxx", I+"inference/lazyflipper.hxx", I+"inference/gibbs.hxx", I+"inference/movemaker.hxx"],
 [("reset(), setStartingPoint(), infer()", I+"inference")])
prop("P18", "A fault inside inference propagates cleanly",
 "If a user-defined function throws during evaluation, a visitor callback throws, or an allocation fails, at any instant of constructing, running or querying an optimizer, the exception reaches the caller, nothing crashes and no memory is leaked once the optimizer is destroyed. The model is unchanged and a new optimizer on it behaves as if the failed one had never existed.",
 ["fault_sequences"], "every optimizer, every evaluation, callback and allocation index",
 "no test injects a failure.",
 SOLV, [("exception safety of constructors, infer() and destructors", I+"inference")], observe=["live heap blocks", "exception type", "fresh-run trace"])
prop("P19", "Message passing on forests is exact under every message schedule",
 "On acyclic models, belief propagation reaches the exact (max-/sum-) marginals of every variable and factor and an optimal labelling, for the parallel, sequential (with any node order) and tree schedules, with and without damping and normalisation, once enough rounds have run. Stopping earlier or running longer never makes an already exact result wrong.",
 ["schedules", "inputs"], "every forest, message schedule (mode, node order, damping, normalisation, number of rounds) and stop point",
 "tests use default schedules on a few models and check only the labelling.",
 [I+"inference/messagepassing/messagepassing.hxx", I+"inference/messagepassing/messagepassing_bp.hxx", I+"inference/messagepassing/messagepassing_operations.hxx", I+"inference/messagepassing/messagepassing_buffer.hxx"],
 [("inferAcyclic/inferParallel/inferSequential, marginal, factorMarginal", I+"inference/messagepassing/messagepassing.hxx")])
prop("P20", "MCMC samplers follow their random stream and keep the best state",
 "For every stream of random numbers, the Gibbs sampler's chain state is always a valid labelling whose tracked value is its true value, every proposal is accepted or rejected according to the acceptance rule for that stream, and the reported best state is the best state visited by the chain so far. Two runs on the same model with the same random stream are identical.",
 ["schedules", "histories"], "every random stream, proposal mode, number of steps, stop point and reset",
 "the sampler's test is not even built; statistical sampling tests cannot pin down individual steps.",
 [I+"inference/gibbs.hxx", I+"inference/swendsenwang.hxx", I+"inference/movemaker.hxx", I+"utilities/random.hxx"],
 [("infer, acceptance, currentBestState_", I+"inference/gibbs.hxx")], observe=["markovState, markovValue, currentBestState, currentBestValue at every callback"])
prop("P21", "Move bookkeeping always matches full evaluation",
 "After any history of tentative evaluations, moves, optimal moves, resets and initialisations - including operations aborted by an exception from a function evaluation - a move maker's value equals the model's value of its current state, tentative evaluations return exactly the value the state would have after the move without changing anything, and optimal moves pick the best joint relabelling of the given variables.",
 ["histories", "fault_sequences"], "all operation histories and all positions of a failing function evaluation",
 "test_movemaker performs a few moves on one fixed model.",
 [I+"inference/movemaker.hxx"], [("valueAfterMove, move, moveOptimally, moveOptimallyWithAllLabelsChanging, moveAstarOptimally", I+"inference/movemaker.hxx")])
prop("P22", "Random number utilities stay in range for every random stream",
 "For every outcome of the underlying random source, including its extreme values, uniform integer and floating point generators return values inside the documented half-open interval, and weighted discrete generators return a valid index with non-zero weight. The same seed and stream always give the same sequence.",
 ["schedules", "inputs"], "every outcome sequence of the random source, every range and weight vector",
 "test_random draws from the real source, which practically never yields the extremes.",
 [I+"utilities/random.hxx"], [("RandomUniform*, RandomDiscreteWeighted", I+"utilities/random.hxx")])
prop("P23", "Containers behave like their models through failures",
 "Random-access sets, buffered vectors, fast sequences, partitions and changeable priority queues answer every query like a simple mathematical set, sequence, equivalence relation or priority map after any history of operations. If an allocation or an element copy fails inside an operation, the exception propagates, nothing leaks or is corrupted, and the container stays usable.",
 ["histories", "fault_sequences"], "all operation histories and all positions of a failing allocation",
 "their tests run short fixed histories without failures.",
 [I+"datastructures/randomaccessset.hxx", I+"datastructures/buffer_vector.hxx", I+"datastructures/fast_sequence.hxx", I+"datastructures/partition.hxx", I+"utilities/queues.hxx"],
 [("member operations", I+"datastructures")])
prop("P24", "Generated benchmark models depend only on their identifier and parameters",
 "SyntheticModelGenerator and SyntheticModelGenerator2 produce the same model for the same identifier, sizes and parameters, whatever was drawn, generated or aborted before; and for every random stream the model has the requested structure (each grid, full or star neighbourhood exactly once), label numbers between one and the maximum, and function values of the requested type inside the requested interval, shared exactly as requested.",
 ["random_streams", "histories"], "all parameters, random streams and histories of other draws and generations",
 "only a decomposition test uses one generator with default parameters.",
 [I+"graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx", I+"utilities/random.hxx"], [("buildGrid, buildFull, buildStar, addFunction, addUnaries", I+"graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx")])
prop("P25", "A complete local search ends in a local optimum of its own moves",
 "When ICM, LazyFlipper, AlphaExpansion, AlphaBetaSwap, InfAndFlip or PartitionMove return without having been stopped or having reached an iteration limit, no move of their own kind (relabelling one variable or one factor, flipping a connected subset up to the given size, one expansion, one swap, moving one variable to another set) improves the reported labelling - whatever start, and whatever stopped or complete runs the optimizer went through before.",
 ["schedules", "histories"], "all models, starts, stop instants and run histories",
 "tests compare a few final values with brute force within a tolerance.",
 [I+"inference/icm.hxx", I+"inference/lazyflipper.hxx", I+"inference/alphaexpansion.hxx", I+"inference/alphabetaswap.hxx", I+"inference/infandflip.hxx", I+"inference/partition-move.hxx"], [("infer", I+"inference")])
# ------------------------------------------------------------------ pure: not applicable
prop("N01", "Built-in functions evaluate to their defining formula",
 "Every built-in factor function (Potts, Potts-N, Potts-G, truncated and plain absolute and squared differences, sparse, view, learnable and constraint functions) returns, for every in-range labelling and parameter set, the value of its mathematical definition, and its shape, size and classification queries agree with that.",
 ["inputs"], "all parameters and labellings", "tests check a few parameter sets.", [I+"functions"], [("operator() of each function", I+"functions")])
prop("N02", "Factor algebra agrees with pointwise computation",
 "Combining factors with an operation and accumulating over variables gives exactly the factor obtained by computing every entry from its definition, for all scopes, shapes and operations.",
 ["inputs"], "all factors, scopes and operations", "tests use small fixed factors.", [I+"operations", I+"graphicalmodel/graphicalmodel_factor_operator.hxx", I+"graphicalmodel/graphicalmodel_factor_accumulator.hxx"], [("operateBinary, accumulate", I+"graphicalmodel")])
prop("N03", "Array views address exactly the documented elements",
 "Views, sub-views, permutations, reshapes and iterators of multi-dimensional arrays address exactly the elements given by shape, strides and coordinate order, for all shapes and orders.",
 ["inputs"], "all shapes, orders and view chains", "tests use a few shapes.", [I+"datastructures/marray/marray.hxx"], [("View, Marray, Iterator", I+"datastructures/marray/marray.hxx")])
prop("N04", "Model decompositions cover every factor exactly",
 "Every decomposition of a model into sub-models distributes each factor's weight so that the sub-models' values sum to the original value for every labelling, and tree decompositions contain only acyclic sub-models.",
 ["inputs"], "all models and decomposition kinds", "tests check a few grids.", [I+"graphicalmodel/decomposition"], [("GraphicalModelDecomposer", I+"graphicalmodel/decomposition/graphicalmodeldecomposer.hxx")])
prop("N05", "The transport and LP building blocks are exact",
 "The transportation solver returns an optimal feasible transport plan, and indicator variables, linear constraints and their violation searches agree with their definition, for all inputs.",
 ["inputs"], "all inputs", "tests use fixed instances.", [I+"inference/auxiliary/transportationsolver.hxx", I+"datastructures/linear_constraint.hxx", I+"datastructures/indicator_variable.hxx"], [("TransportationSolver", I+"inference/auxiliary/transportationsolver.hxx")])
prop("N06", "Commercial and external solver bindings agree with the native model",
 "The LP, multicut, reduced-inference, QPBO, AD3, MPLP, DAI and similar bindings hand the same optimisation problem to the external library that the model states, and translate its answer back faithfully.",
 ["inputs"], "all models", "the libraries are absent, so none of these is compiled here.", [I+"inference/external", I+"inference/lpcplex.hxx", I+"inference/multicut.hxx", I+"inference/reducedinference.hxx"], [("bindings", I+"inference/external")])
prop("N07", "The Python and Matlab interfaces mirror the C++ library",
 "Every model built and solved through the Python or Matlab interface has the same structure, values and results as the same calls in C++.",
 ["programs"], "all interface programs", "the interfaces are not built by the test configuration.", ["src/interfaces/python", "src/interfaces/matlab"], [("bindings", "src/interfaces")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
