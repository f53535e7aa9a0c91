"""The registered checks: what is compiled, what is real, what is assumed."""
CORE = ["sim.cpp"]
FS = ["sim.cpp", "fs.cpp", "h5ledger.cpp"]
CHECKS = {}


def add(pid, **kw):
    CHECKS[pid] = kw


CRASHNOTE = "the simulated disk applies writes in order; a crash keeps a prefix of the write log (the last write possibly torn); power loss that reorders un-synced writes is out of scope because libhdf5 never calls fsync"
H5REAL = ["opengm graphical model, functions, HDF5 save/load and marray HDF5 bridge (from /repo)", "libhdf5 1.10 (system library)", "libstdc++"]
H5STUB = ["POSIX file system below libhdf5 (in-memory disk with fault plans)", "operator new / malloc of the library under test (may fail)"]

add("P01", sources=FS + ["p01.cpp", "p01_special.cpp"], hdf5=True,
    rule="a run generates a model (20 function types, 5 model layouts), a history of saves and loads and a fault plan for the simulated disk and allocator; non-trivial: at least one acknowledged save was loaded back and compared query by query",
    real=H5REAL, stub=H5STUB,
    technique="deterministic simulation of the disk and allocator under the real HDF5 save/load; acknowledged saves compared with a reference model",
    level_note="seeded search over save/load histories and disk/allocator fault plans; sampling, no proof. Trusts libhdf5 and the in-memory reference model.",
    assumptions=["models have at most a few thousand table entries", "after an unreported failure of close inside libhdf5 itself nothing is concluded"])
add("P02", sources=FS + ["p02.cpp"], hdf5=True,
    rule="a run saves a model on the simulated disk, crashes it at a drawn point of the write log (or faults the save) and restarts; non-trivial: the crash left a non-empty file or the save was cut short",
    real=H5REAL, stub=H5STUB,
    technique="deterministic simulation with crash injection at every write prefix; recovered file must load as the saved model, the previous one, or be rejected",
    level_note="seeded search over crash points (prefixes of the write log and torn writes) and models; sampling, no proof.",
    assumptions=[CRASHNOTE])
add("P03", sources=FS + ["p03.cpp"], hdf5=True,
    rule="a run drives a history of marray HDF5 operations against a map model under a drawn disk fault plan; non-trivial: a dataset was stored and read back, or a fault fired inside an operation",
    real=H5REAL, stub=H5STUB,
    technique="deterministic simulation of the disk under the real array store; every acknowledged operation compared with a map",
    level_note="seeded search over operation histories and fault plans; sampling, no proof.",
    assumptions=["a file opened for writing while a write fails, or whose close fails, has unknown contents afterwards (libhdf5 rewrites the superblock)", "EINTR from ftruncate is a hard error because libhdf5 does not retry it"])

GMREAL = ["opengm graphical model, ten function types, label spaces, factors, factor graph (from /repo)"]
GMSTUB = ["operator new / malloc (may fail)", "a user-defined function type (its copies may throw, its copies and evaluations switch tasks)"]
add("P04", sources=FS + ["p04.cpp"] + ["p04_%s.cpp" % c for c in ("opengm2uai", "uai2opengm", "opengm2wudag", "partition2potts", "brain")], hdf5=True,
    rule="a run draws a model, a UAI text or a voxel volume and converts it on the simulated disk, cleanly, under a fault plan or with a full disk, and with a truncated, malformed or missing input; non-trivial: an output that was reported as written was read back and compared",
    real=["the main functions of opengm2uai, uai2opengm, opengm2wudag, partition2potts and brain (from /repo/src/converter)", "opengm HDF5 save/load, graphical model (from /repo)", "libhdf5 1.10 (system library)", "libstdc++ streams"], stub=["POSIX file system below libhdf5 and libstdc++ (in-memory disk with fault plans)"],
    technique="deterministic simulation of the disk below the converters, with truncated and malformed inputs; outputs acknowledged as written are compared with a reference model",
    level_note="seeded search over models, texts, fault plans, truncation points and malformed tokens; sampling, no proof.",
    assumptions=["a text truncated inside its last number is still a well-formed file and is not judged", "an uncaught exception counts as a reported failure (the process aborts with a non-zero status)", "function values lie within +-20, where exp() neither overflows nor vanishes"])
add("P05", sources=["sim.cpp", "p05.cpp"],
    rule="a run drives a history of construction operations, copies, assignments and conversions on one of five model layouts; non-trivial: the final models were compared query by query with the table of what was added",
    real=GMREAL, stub=GMSTUB,
    technique="deterministic simulation of construction histories with readers between any two operations; every query compared with a plain table",
    level_note="seeded search over histories, function types and layouts; sampling, no proof.",
    assumptions=["at most 8 variables of at most 4 labels and factors of order at most 4", "functions are added with the shape of the variables their factors connect"])
add("P06", sources=["sim.cpp", "p05.cpp"],
    rule="a run drives a construction history in which operations are hit by failing allocations, throwing function copies and invalid arguments; non-trivial: an operation failed and the model was compared with the table of what was added before",
    real=GMREAL, stub=GMSTUB,
    technique="deterministic simulation of construction histories with failing allocations and function copies at drawn indices inside operations and rejected arguments; model compared with its reference after each failure and after the repetition",
    level_note="seeded search over histories and fault positions; sampling, no proof.",
    assumptions=["after a failed assignment, conversion or finalize only the source, destruction, reassignment and repetition are judged"])
add("P07", sources=["sim.cpp", "p05.cpp"],
    rule="a run interleaves two to four tasks that mutate, copy, convert, destroy and read five models; non-trivial: a model was copied or converted and compared with its source's reference",
    real=GMREAL, stub=GMSTUB,
    technique="deterministic simulation of the task schedule (switch points at every operation, function copy and function evaluation); every model compared with its own reference",
    level_note="seeded search over task programs and interleavings; sampling, no proof.",
    assumptions=["a model that is written is not used by another task at the same time"])
add("P26", sources=["sim.cpp", "p05.cpp"],
    rule="a run builds a chain, grid, tree, random or slightly damaged graph in a drawn order and queries its structure in between; non-trivial: all structure queries were compared with a plain graph",
    real=["opengm factor graph queries, graphical model, Partition (from /repo)"], stub=["operator new / malloc (may fail)"],
    technique="deterministic simulation of construction histories with structure queries in between, some hit by failing allocations; answers compared with a plain graph",
    level_note="seeded search over graphs, numberings and histories; sampling, no proof.",
    assumptions=["at most 26 variables", "isChain and isGrid are not judged for graphs with parallel pairwise factors"])

def mp(gm, acc, name, mi, mul, rule="opengm::BeliefPropagationUpdateRules", flags="0"):
    return ("s_mp.cpp", ["-DMP_GM=" + gm, "-DMP_ACC=opengm::" + acc, '-DMP_NAME="%s"' % name, "-DMP_MIN=" + mi, "-DMP_MUL=" + mul, "-DMP_RULE=" + rule, "-DMP_FLAGS=" + flags])


SOLVER_SRC = ["sim.cpp", "solvers.cpp", "s_local.cpp", "s_lazy.cpp", "s_tree.cpp", "s_cut.cpp", "s_part.cpp", "s_dmc.cpp", "s_expand.cpp", "s_self.cpp", "s_gibbs.cpp"]
SOLVER_VAR = [("s_tree.cpp", ["-DTREE_ASTAR"]), ("s_mp.cpp", []), mp("GMA", "Maximizer", "bp-max", "false", "false"), mp("GMM", "Maximizer", "bp-mul-max", "false", "true"),
              ("s_dd.cpp", []), ("s_dd.cpp", ["-DDD_VIEW"]), ("s_dd.cpp", ["-DDD_CYCLIC"]), ("s_dd.cpp", ["-DDD_CYCLIC", "-DDD_VIEW"]), ("s_trws.cpp", []), ("s_trws.cpp", ["-DTR_ADSAL"]), ("s_trws.cpp", ["-DTR_NEST"]),
              ("s_fusion.cpp", []), ("s_fusion.cpp", ["-DFG=1"])]
SREAL = ["opengm optimizers ICM, Gibbs, LazyFlipper, Bruteforce, AStar, AlphaExpansion, AlphaBetaSwap, GraphCut (3 min-cuts; minimising and maximising), QPBO (3 min-cuts), PartitionMove, DMC, DynamicProgramming, BP, dual decomposition, TRWSi, ADSal, Nesterov, fusion-based, SelfFusion, InfAndFlip, GreedyGremlin and the graphical model (from /repo)", "libstdc++, Boost graph"]
SSTUB = ["visitor (the simulator's, decides stop requests)", "rand()/srand() (seeded LCG of the simulator)", "clocks (simulated)", "operator new / malloc (may fail)", "a user-defined function type (may throw, yield or take simulated time)", "the multicut solver behind DMC (enumerates partitions)"]


def addS(pid, src, **kw):
    kw.setdefault("real", SREAL)
    kw.setdefault("stub", SSTUB)
    kw.setdefault("assumptions", ["models have at most 7 variables and a few hundred labellings", "optimizers that need libraries absent here (CPLEX, Gurobi, external QPBO and maxflow, ...) are not covered"])
    add(pid, sources=SOLVER_SRC + [src], variants=SOLVER_VAR, **kw)


STECH = "deterministic simulation of the visitor/caller schedule around every optimizer"
SLEVEL = "seeded search over optimizers, models, parameters, stop instants and call histories; sampling, no proof."
addS("P10", "p10.cpp",
     rule="a run draws an optimizer, an accepted model, parameters, a start labelling and a visitor stop instant; non-trivial: at least one callback was inspected with inference under way",
     technique="deterministic simulation of the visitor/caller schedule around every optimizer; reported labelling and value checked against a reference model at every callback",
     level_note="seeded search over optimizers, models, parameters, stop instants and callback instants; sampling, no proof.")

addS("P11", "p11.cpp",
     rule="a run draws a move-making optimizer, model, parameters and a history of up to three runs (stopped anywhere, run again, restarted from a result or another labelling); non-trivial: at least one run was compared with its start and its callbacks with each other",
     technique=STECH + "; the model value of the labelling at every callback, judged by a reference model, must never get worse within and across runs",
     level_note=SLEVEL)
addS("P12", "p12.cpp",
     rule="a run drives one optimizer undisturbed and then again with stop requests at drawn callbacks, through the timing and verbose visitors and without a visitor; non-trivial: a stopped, timed or plain run was compared with the undisturbed one",
     technique=STECH + "; callback order, absence of work after a stop, and equality with the undisturbed run up to the stop are checked on the recorded history",
     level_note=SLEVEL)
addS("P13", "p13.cpp",
     rule="a run drives an optimizer or a scripted value/bound sequence through the shipped timing visitors under a simulated clock; non-trivial: the recorded protocol was compared entry by entry with the simulated elapsed time and the reported values",
     technique="deterministic simulation of the clock under the timing visitors (slow steps, stalls, jumps, equal readings); stop decisions and protocol compared with the simulated elapsed time",
     level_note=SLEVEL, assumptions=["simulated time never runs backwards (the visitor uses the process CPU clock)", "time spent inside the visitor itself is not simulated", "stop decisions within 10 microseconds of the limit are not judged"])
addS("P14", "p14.cpp",
     rule="a run draws an exact optimizer, an accepted model, a history of stopped, throwing or memory-starved runs on the same model, the contents of fresh memory and an interleaving with other optimizers; non-trivial: a complete run was compared with the optimum over all labellings",
     technique="deterministic simulation of the task schedule, fault history and memory contents around the exact optimizers; result compared with exhaustive reference evaluation",
     level_note=SLEVEL)
addS("P18", "p18.cpp",
     rule="a run measures an undisturbed optimizer run and repeats it with a failing function evaluation, callback or allocation at a drawn index of it; non-trivial: a fault fired and the propagation, heap, model and a fresh optimizer were checked",
     technique="deterministic fault injection at every function evaluation, callback and allocation of an optimizer's life; exception, live heap blocks, model and a following fresh run are checked",
     level_note="seeded search over optimizers, models and fault indices (uniform over the evaluations, callbacks and allocations of the undisturbed run); sampling, no proof.")
addS("P15", "p15.cpp",
     rule="a run draws an optimizer (mostly one that computes bounds), model, parameters, a stop instant or a timing visitor on a simulated clock, and an earlier disturbed run; non-trivial: a finite bound was compared with the exact optimum and with the bound before",
     technique=STECH + "; the bound at every callback and in the timing log is compared with the exact optimum, the reported value and the previous bound",
     level_note=SLEVEL)
addS("P25", "p25.cpp",
     rule="a run draws a local search, model, parameters and a history of up to four stopped or complete runs with restarts, resets and reruns in between; non-trivial: the result of a complete run was compared with every move of the search's own move space",
     technique=STECH + "; every complete run's result is compared, by a reference model, with all moves of the algorithm's move space",
     level_note=SLEVEL)
addS("P16", "p16.cpp",
     rule="a run draws two to four optimizers on one model, some stopped or thrown out of an evaluation or callback, runs each alone and then all interleaved with a switch possible at every evaluation and callback; non-trivial: interleaved traces were compared with the solo traces",
     technique="deterministic simulation of the task schedule (switch points at every function evaluation and visitor callback); recorded traces compared with solo runs",
     level_note="seeded search over optimizers, parameters, faults and interleavings; sampling, no proof.")
addS("P17", "p17.cpp",
     rule="a run draws an optimizer, a history of complete, stopped, plain and aborted runs, and then a reset, new starting point or rerun; non-trivial: the following run was compared with a freshly constructed optimizer",
     technique="deterministic simulation of caller histories with stops and failing evaluations; the run after reset/restart compared callback by callback with a fresh optimizer",
     level_note="seeded search over optimizers, histories, stop instants and parameters; sampling, no proof.")


def mp19(gm, acc, name, mi, mul, rule="opengm::BeliefPropagationUpdateRules", flags="0"):
    return ("p19_mp.cpp", mp(gm, acc, name, mi, mul, rule, flags)[1])


TR = "opengm::TrbpUpdateRules"
add("P19", sources=["sim.cpp", "solvers.cpp", "p19.cpp"],
    variants=[mp19("GMA", "Minimizer", "bp-min", "true", "false"), mp19("GMA", "Maximizer", "bp-max", "false", "false"), mp19("GMM", "Maximizer", "bp-mul-max", "false", "true"),
              mp19("GMM", "Integrator", "bp-mul-sum", "false", "true", flags="p19::Sum"), mp19("GMA", "Minimizer", "trbp-min", "true", "false", TR), mp19("GMM", "Integrator", "trbp-mul-sum", "false", "true", TR, "p19::Sum")],
    rule="a run draws a forest, a schedule (tree, parallel or sequential with a node order, damping, normalisation, rounds), a history of stopped, aborted, complete runs and resets, and a stop instant; non-trivial: marginals were compared with enumeration",
    real=["opengm message passing with BP and TRBP update rules, marginals, factor marginals, labelling, graphical model (from /repo)"], stub=SSTUB,
    technique="deterministic simulation of message schedules, stop instants and run histories; every marginal compared with enumeration over all labellings",
    level_note="seeded search over forests, schedules and histories; sampling, no proof.",
    assumptions=["forests of at most 6 variables and 300 labellings", "enough rounds: longest chain of factors + 1 without damping, 250 with damping of at least 0.3"])
add("P20", sources=["sim.cpp", "solvers.cpp", "p20.cpp"],
    rule="a run draws a model, sampler parameters, a random stream (uniform or full of extreme outcomes) and a history of complete, stopped and aborted runs, resets and new starting points; non-trivial: a run was followed step by step",
    real=["opengm Gibbs sampler, GibbsMarginalVisitor, move maker, random number utilities, graphical model (from /repo)"], stub=SSTUB,
    technique="deterministic simulation of the random stream; the chain is compared after every proposal with a reference chain driven by the same stream",
    level_note="seeded search over models, parameters, random streams, stop instants and histories; sampling, no proof.",
    assumptions=["the order in which variable, label and acceptance number are drawn is part of the observable stream", "models with zero probabilities are not used (the acceptance ratio is undefined)", "Swendsen-Wang does not compile (it includes a header that does not exist) and is not covered"])
add("P08", sources=["sim.cpp", "solvers.cpp", "p08.cpp"],
    rule="a run draws a model and a history of fixing, freeing, locking, unlocking, building the modified model and the sub-models, eliminating tentacles and copying on one or two manipulators of it, operations possibly hit by a failing function evaluation or allocation; non-trivial: the modified model or the sub-models were compared with the original one over labellings of the free variables",
    real=["opengm GraphicalModelManipulator, ViewFixVariablesFunction, ViewFunction, DynamicProgramming and belief propagation on tentacles, graphical model (from /repo)"], stub=["a user-defined function type (may throw)", "operator new / malloc (may fail)"],
    technique="deterministic simulation of operation histories with failing evaluations and allocations; values over labellings of the free variables compared with a reference evaluation of the original model",
    level_note="seeded search over models, histories and fault positions; sampling, no proof.",
    assumptions=["models are queried only after a successful build (as the library's assertions demand)", "after a failed tentacle elimination the manipulator is used again only after unlock()"])
add("P21", sources=["sim.cpp", "solvers.cpp", "p21.cpp"],
    rule="a run draws a model (additive or a product, with zeros) and a history of tentative evaluations, moves, optimal moves, proposals by a sub-model optimizer, initialisations and resets, each possibly hit by a failing function evaluation or allocation; non-trivial: an operation's result was compared with full evaluation",
    real=["opengm Movemaker, its sub-models, Bruteforce and ICM on sub-models, graphical model (from /repo)"], stub=["a user-defined function type (may throw)", "operator new / malloc (may fail)"],
    technique="deterministic simulation of operation histories with failing evaluations and allocations; every state and value compared with a reference evaluation",
    level_note="seeded search over models, histories and fault positions; sampling, no proof.",
    assumptions=["products have non-negative factors (optimal moves judge only the factors of the moved variables)", "a failing allocation inside an operation may leave the labels of the moved variables either as before or as after"])
add("P22", sources=["sim.cpp", "p22.cpp"],
    rule="a run draws a generator, its interval or weights and a random source (uniform, with extreme outcomes, close to either end); non-trivial: draws were compared with the interval or weights",
    real=["opengm RandomUniform, RandomUniformInteger, RandomUniformFloatingPoint, RandomDiscreteWeighted (from /repo)"], stub=["rand()/srand()"],
    technique="deterministic simulation of the random source below the generators, including its extreme outcomes",
    level_note="seeded search over intervals, weights and random streams; sampling, no proof.",
    assumptions=["intervals are not empty and their length does not overflow", "the source does not return RAND_MAX more than six times in a row"])
add("P24", sources=["sim.cpp", "p24.cpp"],
    rule="a run draws a generator, shape, sizes, parameters and either a random stream with extreme outcomes or a history of other random draws, other and aborted generations between repetitions; non-trivial: the model was compared with the structure and value ranges asked for",
    real=["opengm SyntheticModelGenerator, SyntheticModelGenerator2, RandomUniform and the graphical model (from /repo)"], stub=["rand()/srand()", "operator new / malloc (may fail; fresh memory has drawn contents)"],
    technique="deterministic simulation of the random source and of the calls between two generations; models compared with the documented structure, ranges and with each other",
    level_note="seeded search over generators, parameters, random streams and histories; sampling, no proof.",
    assumptions=["at most 16 variables, 4 labels and order 3", "value intervals are not empty", "buildHigherOrderGrid: only values and repeatability are judged", "SyntheticModelGenerator::buildFull and buildStar are declared but not implemented"])
add("P23", sources=["sim.cpp", "p23.cpp"],
    rule="a run draws a container, an element type and a history of operations, each possibly hit by a failing allocation or element copy; non-trivial: the content was compared with the reference container",
    real=["opengm RandomAccessSet, BufferVector, FastSequence, Partition, disjoint_set, ChangeablePriorityQueue, FiFoQueue (from /repo)"], stub=["operator new / malloc (may fail)", "an element type whose copies may fail"],
    technique="deterministic simulation of operation histories with failing allocations and element copies; every query compared with a reference container, heap blocks counted",
    level_note="seeded search over containers, histories and fault positions; sampling, no proof.",
    assumptions=["operations respect their documented preconditions (indices in range, queue capacity)", "an element copy failing inside std::vector leaves a RandomAccessSet usable but with unspecified content"])
