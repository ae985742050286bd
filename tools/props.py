P = [
dict(id="C02", title="Running out of memory ends in a failure status",
 statement="""Whenever an allocation the library makes fails, at any point of any public call and on any thread, the call comes back with a failure status: the process is not terminated, no exception crosses the C interface, and the call does not go on to report success with work left undone. The same holds inside parallel regions, where an exception that leaves the block terminates the process.""",
 over=["fault_sequences","inputs","schedules"], qtext="every allocation site, every call path from a C entry point to it, every OpenMP block in between",
 why="A test would have to make each of about 1300 allocations fail in turn on each call path, in the sequential and in the threaded code; in ordinary runs every allocation succeeds.",
 files=["source/core/nearest_neighbors/nearest_neighbors.cpp","source/core/svm/base_svm.cpp","source/core/linear_model/linear_model.cpp","source/core/csv/read_csv.hpp","source/core/clustering/kmeans/kmeans.cpp"],
 mech="try { resize/new } catch (std::bad_alloc) -> da_status_memory_error; new (std::nothrow) with a null test; per-region handlers that raise a flag",
 technique="interprocedural exception-effect analysis (allocation escape sets over the call graph, OpenMP block boundaries, path analysis of every handler)",
 note="Allocations: growth and sized construction of standard containers (sequences, maps, sets), da_vector and discrete distributions, and throwing new. Refills of containers that are given their size under a handler, map subscripts, strings, smart pointers and the error records themselves are trusted not to fail."),
dict(id="C03", title="Handles are validated before anything behind them is used",
 statement="""Every public function that takes a handle or a data store answers a null one with its documented failure status and never dereferences it. A call for one precision or one algorithm on a handle of another precision or algorithm touches no algorithm state and reports a failure, and an error left by an earlier call is never still on record when a call records its own or runs the algorithm.""",
 over=["inputs","histories"], qtext="every public entry point, every handle kind and precision, every earlier call sequence",
 why="Tests call a few functions with a few wrong handles; the guarantee is for every entry point crossed with every handle state, and most entry points are not even compiled by the runnable tests.",
 files=["source/core/utilities/da_handle.cpp","source/core/utilities/da_handle_public.cpp","source/core/utilities/options_public.cpp","source/core/data_management/data_store_public.cpp"],
 mech="null test, clear(), check_precision<T>(), dynamic_cast of the algorithm object, in that order, in every *_public function",
 technique="path-sensitive interprocedural typestate analysis of the handle protocol over the clang-resolved program",
 note="All paths of all entry points, following helpers up to 9 calls deep; trusts clang's resolution of templates and calls and that da_error_t::rec returns the status it is given (decided separately by the error-record check)."),
dict(id="C04", title="The C interface forwards faithfully to the C++ one",
 statement="""Every function declared in the public headers is defined. Each C entry point with a precision or type suffix calls the C++ overload of the same name exactly once, in the precision its suffix names, with its own arguments unchanged and in the same positions, and returns what that call returned.""",
 over=["inputs","programs"], qtext="all C entry points and all argument values",
 why="The runnable tests link no C wrapper at all, and the library's own tests go through the C++ overloads; two swapped same-typed arguments compile silently.",
 files=["source/core/utilities/aoclda_c_wrapper.cpp","source/include/aoclda.hpp"],
 mech="one-line extern \"C\" forwarders",
 technique="value-flow (identity forwarding) analysis of every exported wrapper over the resolved program",
 note="Decides the identity of forwarded values and of the result, on every path; helpers in between are followed. Trusts clang's overload resolution."),
dict(id="C11", title="Options are registered, read and documented consistently",
 statement="""Every option name, value type and value with which the library itself reads or sets an option is one that some constructor registers for that object, with that type and inside the registered range. Every registration is valid (default inside its own bounds, no name registered twice in one registry, labels distinct, and each label mapped to the enumerator or yes/no code it spells), every registered option is read by the code that owns it, and the documented option tables agree with the registry in names, types, defaults and bounds.""",
 over=["inputs","programs"], qtext="every registry, every read and write of an option in the library, every documented table row",
 why="A mistyped option name or an out-of-range internal value only fails at run time in the one branch that uses it; tests never set most options, and no test can see that an option is silently ignored.",
 files=["source/core/utilities/options.hpp","source/core/utilities/da_handle.cpp","doc/C/options/all_table.rst"],
 mech="register_*_options called from constructors; opts.get/set by string key inside the algorithms",
 technique="whole-program constant-string dataflow of option keys against a registry model extracted from the resolved constructors",
 note="All registrations and all uses with statically determined names (helper-registered ones are resolved through the callers); user-supplied names are outside. Trusts the option classes' set() to reject values outside the registered range."),
dict(id="C01", title="No failure status is ever lost",
 statement="""When any internal step fails (a call returning a status, a status passed by reference, a LAPACK info result, an allocation failure reported that way), the public call that ran it does not report success: on every path of every function the failure is returned, turned into another failure, stored for the caller, or at least tested and answered (fallback solver, type probing). A status is never overwritten or discarded before anyone looked at it.""",
 over=["inputs","fault_sequences"], qtext="every call site of a fallible operation, every path from it to an exit of its caller",
 why="Tests would have to make each of thousands of internal calls fail in turn (out of memory, solver breakdown, corrupt buffer); a dropped status looks like success with wrong results.",
 files=["source/core/utilities/da_error.hpp","source/core/decision_forest/forest/decision_forest_training.hpp","source/core/nearest_neighbors/binary_tree.cpp","source/core/svm/svm.cpp"],
 mech="da_status results checked after each call; info arguments of LAPACK wrappers; error flags set inside OpenMP regions and tested after them",
 technique="path-sensitive interprocedural dataflow of failure results over the control-flow graph of every function",
 note="All functions and paths of the resolved program (generic architecture, LP64). A short committed list of callees whose tested failure may be answered by the caller, and of best-effort calls, is trusted; registered options with a constant name are taken not to fail (decided by C11)."),
dict(id="C06", title="Results are served only from a successfully trained, current model",
 statement="""Every method that serves results, predictions or a stored model reads what training produced only when the model is marked as trained, and otherwise reports a failure. A model becomes marked as trained only by a call that produced those results and reports success (or a warning). After a training call that fails, and after new data, options that resize the model, or another model type are installed, the handle no longer serves the earlier results.""",
 over=["histories","fault_sequences"], qtext="every order of data, option, training and query calls on a handle, and every failure inside a call",
 why="The number of call orders and failure points is unbounded; tests fit once and query once, and a stale model after a failed second fit returns plausible wrong numbers or reads freed memory.",
 files=["source/core/svm/svm.cpp","source/core/clustering/kmeans/kmeans.cpp","source/core/decision_forest/forest/decision_forest_training.hpp","source/core/nearest_neighbors/nearest_neighbors.cpp","source/core/interpolation/cubic_spline/cubic_spline.cpp"],
 mech="model_trained flag per algorithm object, tested in get_result/predict/transform/save, lowered and raised by fit/compute/set_data",
 technique="path-sensitive interprocedural typestate analysis of the trained flag combined with a member read/write effect analysis",
 note="All API methods of all algorithm classes, following calls on the same object. Model members are those training writes and guarded queries read. Writes through pointers kept outside the object and allocation failure between two scalar writes of a setter are outside."),
dict(id="C08", title="A loaded model answers queries from restored data, never from defaults",
 statement="""Whatever a query (prediction, score, transform, result retrieval) on a loaded model looks at, and that training, data setting or model selection had produced in the saved one, is part of the saved stream and read back, or re-established by the loading itself. No query on a loaded model reads a member left at its default value or a null pointer where the original model had a value.""",
 over=["histories","inputs"], qtext="every model type, every query that the API allows on a loaded handle, every option setting it was trained with",
 why="Round-trip tests compare the outputs of a few queries for a few option settings; a member missing from the stream shows only in the one query and configuration that reads it.",
 files=["source/core/utilities/basic_handle.cpp","source/core/decision_forest/forest/decision_forest.cpp","source/core/linear_model/linear_model.cpp","source/core/nearest_neighbors/nearest_neighbors.cpp"],
 mech="serialize/load_model overrides list the members stored; queries read members of the algorithm object",
 technique="interprocedural member effect analysis (written by training, read by queries) against the layout folded from the serializers",
 note="All saveable classes and the object graph behind them; five genuine omissions are listed as known findings. Values are assumed to be restored as stored (layout agreement is C09)."),
dict(id="C09", title="Saving, measuring and loading agree on the layout of a saved model",
 statement="""For every model, the bytes measured before saving, the bytes written and the bytes read back are the same sequence of items of the same types, under the same conditions, and every item is restored to where it came from, including the data the user supplied, for either storage order. Header, option registry and option values are written and read with the same meaning and order.""",
 over=["inputs","configurations"], qtext="every model type and every configuration that decides what is stored (algorithm, metric, weights, order, sizes)",
 why="A mismatch appears only for the configuration whose branch differs; the stable tests exercise no save and load of a model at all.",
 files=["source/core/utilities/model_persistence.hpp","source/core/utilities/model_persistence.cpp","source/core/utilities/basic_handle.cpp","source/core/decision_forest/tree/decision_tree_handle_utilities.hpp"],
 mech="one serialize routine run in three buffer modes, io_dispatch per member, loops and conditions around it",
 technique="abstract interpretation of the serializers into symbolic stream grammars, compared token for token across the three modes",
 note="All serializers with helpers, lambdas and virtual calls followed. Element values themselves are copied byte-wise and not modelled."),
dict(id="C10", title="Loading never trusts the bytes of a file or buffer",
 statement="""Whatever the bytes offered to a load call are, loading never reads past them, never sizes an allocation by, indexes with or moves a pointer by a number from them that was not first found to be non-negative and bounded, and never uses an unknown option or a missing algorithm object. Files with a wrong keyword, an unsupported version, or illegal number sizes are refused with an error status.""",
 over=["inputs"], qtext="every byte sequence given to a load call",
 why="The space of corrupt files is unbounded; a test truncates or flips a few bytes of a few models.",
 files=["source/core/utilities/model_persistence.cpp","source/core/utilities/basic_handle.cpp","source/core/utilities/options.hpp","source/core/utilities/da_handle.cpp"],
 mech="size test before every memory read, vector sizes tested against the bytes left, metadata and version tests",
 technique="path-sensitive guard (dominance) analysis with linear facts over lengths and offsets, plus taint of loaded numbers",
 note="All read primitives and all load paths. That two restored members are mutually consistent (a dimension and the size of a vector loaded separately) is not decided, except where the number itself sizes, indexes or moves a pointer during loading."),
dict(id="C12", title="Setting an option stores a legal value or changes nothing",
 statement="""Setting an option, by any interface, either stores a value that is legal for it (inside the registered range, honouring open, closed and infinite bounds and refusing NaN; one of the registered labels) and reports success, or reports a failure and leaves every option as it was. An option is set only when the registry is not locked, the name exists and the type matches. A getter returns the stored value under the same name and type tests, writes the caller's variable in no other case, and the C string getter never writes more than the length it was given and reports the length needed.""",
 over=["inputs","histories"], qtext="every option, every bound kind, every value, every sequence of set and get calls",
 why="Ranges with open, closed and infinite ends give a case split over values and bounds that no sample covers, and an illegal stored value only shows up in whichever algorithm reads it later.",
 files=["source/core/utilities/options.hpp","source/core/utilities/options_public.cpp","source/core/utilities/da_handle.cpp"],
 mech="OptionNumeric::set/constructor range tests, OptionString label lookup, OptionRegistry::set/get lock, lookup and type tests",
 technique="path-sensitive abstract interpretation of setters over the finite partition of value/bound orders, plus dominance (guard) and writer analysis of the registry",
 note="All option classes and registry accessors, all bound kinds and orders. What a label or value means to the algorithm that reads it is C11 and outside."),
dict(id="C05", title="Arguments are validated before they are used",
 statement="""No public function dereferences a pointer argument, hands it to a routine outside the library, or reports success with it, before it has been found not null, where its documentation says a null is refused; and no public function dereferences any pointer argument on a path where it may be null. Each documented constraint on an integer argument (a lower bound, a leading dimension at least the row count for column-major and the column count for row-major data, a feature count equal to the model's) holds on every path that reports success.""",
 over=["inputs"], qtext="every public function, every combination of argument values",
 why="Tests try a few illegal values of a few arguments; a missing or weakened check is an out-of-bounds access in a caller's process for one combination of order, size and leading dimension that nobody sampled.",
 files=["source/core/utilities/da_utils.cpp","source/core/utilities/basic_handle.cpp","source/core/decision_forest/tree/decision_tree_inference.hpp","source/core/factorization/pca/pca.cpp","source/include/aoclda_pca.h"],
 mech="check_1D_array/check_2D_array/store_2D_array and explicit tests at the head of every method",
 technique="interprocedural nullness and linear-inequality dataflow with function summaries per storage order, against constraints read from the public headers",
 note="All entry points and paths; constraints on floating-point arguments, on values of arrays and those that apply only after some other call are not expressed. An optional array left out promises nothing about its sizes. Trusts that a call keeps one storage order."),
dict(id="C07", title="A result query writes within the caller's array and reports the size needed",
 statement="""A query for results (da_handle_get_result_*, da_nn_classes and the like, da_get_arch_info, da_get_int_info) reads and writes the caller's array only below the length the caller gave, and never looks at the array before the length. When the array is too short nothing is delivered: the query reports a failure and the length the result needs is left in *dim, the same length that fits afterwards. How much is delivered does not depend on how much longer than needed the array is.""",
 over=["inputs","histories"], qtext="every query of every algorithm, every array length, every problem size",
 why="A test passes one right size and one wrong size per query; an off-by-one or a product of the wrong two sizes shows only for shapes where the two differ, and an overrun of the caller's array often shows nowhere.",
 files=["source/core/utilities/basic_handle.cpp","source/core/factorization/pca/pca.cpp","source/core/nearest_neighbors/nearest_neighbors.cpp","source/core/svm/svm.cpp","source/core/linear_model/linear_model.cpp"],
 mech="each get_result() case compares *dim with the size it is about to copy",
 technique="path-sensitive symbolic bounds analysis: positions as polynomials over sizes, discharged from loop bounds and the length comparison on the path",
 note="All get_result overloads and helpers they hand the array to. A product of sizes is compared exactly as a polynomial (no solver). Positions that count data (the i-th core sample) and containers whose size is the class's own are accepted when the compared size is a size the class gives that container, respectively not a constant; their counts are in the evidence."),
dict(id="C13", title="Memory is released exactly once and never used afterwards",
 statement="""Whatever the library allocates for itself with new, new[] or malloc is released exactly once, by the matching operation, and not touched afterwards. No path through any function, failures and early returns included, loses the only pointer to a block it allocated, releases a block twice, reads, writes or passes on a released block, or returns with a member of the object still pointing at or into a block it released. Setting data, training or resizing again on the same object does not lose the block of the previous call.""",
 over=["histories","inputs","fault_sequences"], qtext="every path of every function that allocates, releases or hands out a raw block, every sequence of calls on one handle, every failed allocation or check on the way",
 why="A block lost on an error path or a second release after a refit changes no returned number; it needs a failing allocation, a rejected argument after a copy was taken, or a repeated call, and tests run without a leak checker.",
 files=["source/core/svm/svm.cpp","source/core/linear_model/linear_model.cpp","source/core/data_management/data_store.hpp","source/core/csv/read_csv.hpp","source/core/decision_forest/tree/decision_tree_inference.hpp"],
 mech="each function frees its temporaries on every exit; destructors and the functions that set data free members before reusing them",
 technique="path-sensitive ownership typestate of raw blocks over the functions that allocate, release or hand blocks out (their helpers analysed in context)",
 note="Containers, smart pointers and da_vector are trusted to manage what they hold. Elements of arrays of pointers are not told apart: their individual release is not tracked. A block a function receives through an output parameter from a helper is tracked for misuse, but its loss is judged only where it is allocated. C sources are out of scope."),
dict(id="C14", title="Threads of a team never write the same place",
 statement="""Within every OpenMP parallel region and task, no two threads (or iterations handed to different threads) write the same memory without protection: every write to memory the team shares goes to a place that belongs to the iteration, thread or ticket making it, or happens inside a critical, atomic, single or master construct or while an OpenMP lock is held. Results are therefore not lost or mixed up by how iterations happen to be scheduled, for any number of threads.""",
 over=["schedules","inputs","configurations"], qtext="every interleaving and assignment of iterations to any number of threads, every input",
 why="A lost update needs two threads at the same place at the same moment; the unit tests run small problems for which the library uses one thread, and a schedule that happened to work proves nothing about the next.",
 files=["source/core/clustering/dbscan/dbscan.cpp","source/core/decision_forest/forest/decision_forest_inference.hpp","source/core/clustering/kmeans/kmeans_lloyd.hpp","source/core/nearest_neighbors/nearest_neighbors.cpp","source/core/svm/base_svm.cpp","source/core/dimension_reduction/tsne/barnes_hut.cpp"],
 mech="per-thread slots indexed by omp_get_thread_num(), per-iteration slices, reductions, critical/atomic merges and locks",
 technique="interprocedural write-effect and index-dependence analysis of every OpenMP region and task",
 note="All regions and tasks of source/core. That places of different work items do not overlap is judged by what an address depends on, not by its arithmetic: a wrong stride is not seen. Reads that race with writes of another phase (a missing barrier or a wrong nowait) are not covered. Calls through function pointers and std::function are not followed; routines outside the source are taken to write through pointers to floating-point data only. Error records and registry messages are excluded."),
dict(id="C16", title="Everything random comes from the user's seed",
 statement="""Given a seed, a computation is a function of the data, the options and that seed: every random number it uses comes from an engine that this very call seeded, from the `seed` the user gave, so neither earlier calls on the handle, nor the clock, nor the interleaving of threads has a part in the result. Nondeterministic entropy is consulted only when the user asked for it with seed -1.""",
 over=["histories","schedules","inputs"], qtext="every earlier sequence of calls on the handle, every thread interleaving, every option combination",
 why="A test fits a fresh handle once or twice; an engine that keeps its state across a refit, is left unseeded by one combination of options or is shared by threads shows only after a particular history or schedule.",
 files=["source/core/clustering/kmeans/kmeans.cpp","source/core/svm/svm.cpp","source/core/decision_forest/forest/decision_forest_training.hpp","source/core/utilities/da_randsvd.hpp","source/core/approximate_neighbors/approximate_neighbors.cpp"],
 mech="option seed, -1 -> std::random_device; mt_engine.seed(seed) at the start of each compute/fit; per-tree seeds drawn before the parallel region",
 technique="path-sensitive interprocedural typestate of every random engine, with a provenance analysis of the seeds",
 note="Engines are the standard and boost ones; what they produce from a seed is trusted. Clocks read for reported times and time limits are outside. The floating-point effect of the number of threads on sums is not part of this property."),
dict(id="C17", title="Handles are independent: no call leaves a trace in the process",
 statement="""No API call changes state that outlives it outside the objects it was given: no variable of static storage (global, static member, static local, thread-local) is modified by any call, so that two handles, used one after the other or from two threads, cannot influence each other's results. The exceptions by role are the lazily refreshed architecture description and the hidden debug settings. No process-wide setting is changed: the OpenMP settings a call alters are put back on every path out of it, and no C library function with hidden process-wide state is called.""",
 over=["histories","schedules"], qtext="every sequence and interleaving of calls on any number of handles",
 why="A static scratch variable or a thread count not put back changes the results or the speed of some other call later; tests exercise one handle at a time and never look at the settings of the process afterwards.",
 files=["source/core/dynamic_dispatch/context.hpp","source/core/utilities/da_utils.cpp","source/core/dimension_reduction/tsne/tsne.cpp","source/core/decision_forest/forest/decision_forest_training.hpp"],
 mech="all state lives in the handle's object; context singleton read-only after construction; omp_set_* calls paired with restores",
 technique="whole-program effect analysis over variables of static storage plus path-sensitive save/restore analysis of OpenMP settings",
 note="All translation units of source/. Settings changed inside the BLAS/LAPACK libraries called are outside the source analysed. Exceptional exits are not required to restore."),
dict(id="C18", title="Arrays given for input are never written or released",
 statement="""An array that a public function takes as input (a pointer to const) is never modified and never released by the library, in that call or in a later one that still refers to it: wherever an algorithm works in place, it works on a private copy on every path, whatever the storage order, scaling, solver, automatic fallback between solvers and earlier calls on the same handle.""",
 over=["inputs","configurations","histories"], qtext="every public function, every combination of options and every sequence of calls on one handle",
 why="A solver that destroys the caller's matrix returns the right coefficients; the damage shows only when the caller uses the matrix again, and only for the configuration in which the copy was skipped.",
 files=["source/core/linear_model/linear_model.cpp","source/core/svm/base_svm.cpp","source/core/utilities/basic_handle.cpp","source/core/csv/char_to_num.hpp"],
 mech="inputs are const throughout; the few casts that drop const feed members replaced by private copies before anything writes them",
 technique="whole-program pointer-flow analysis from every const-dropping cast, plus path-sensitive ownership analysis of members that hold either the caller's array or a copy",
 note="All functions of source/. Routines of BLAS/LAPACK are taken to write what they receive through non-const pointers and nothing else. Inputs whose prototype is not const (bounds and weights of the nonlinear solver, statistics for standardisation) are outside."),
dict(id="C30", title="Direct computations are accurate to working precision",
 statement="""Statistics, distances, kernels, standardisation, correlation, PCA, ordinary least squares and spline evaluation return the mathematically defined value up to the rounding error expected of the working precision, for every finite input, size, storage order and leading dimension.""",
 over=["inputs","configurations"], qtext="every finite data matrix of every shape, every option combination",
 why="Tests compare against stored references for a few small matrices; nothing bounds the error elsewhere (cancellation, remainder loops of the vector kernels, edges of the blocking).",
 files=["source/core/basic_statistics/moment_statistics.cpp","source/core/metrics/pairwise_distances.cpp","source/core/kernel_functions/kernel_functions.cpp","source/core/factorization/pca/pca.cpp","source/core/interpolation/cubic_spline/cubic_spline.cpp"],
 mech="blocked two-pass formulae; calls to BLAS and LAPACK",
 na="Numerical: the values come from BLAS/LAPACK routines outside the source and from floating-point sums whose error no static argument over unbounded sizes bounds usefully."),
dict(id="C31", title="Iterative solvers return an optimum of the problem they were given",
 statement="""When fitting of a regression, SVM, nonlinear least squares, k-means or t-SNE model reports success without a warning, the result satisfies the optimality or stopping condition of the documented objective to the tolerance set by the options, from any admissible starting point.""",
 over=["inputs","configurations"], qtext="every data set, regularisation, starting point and solver choice",
 why="A test samples a handful of well-conditioned problems; convergence on the others depends on the data.",
 files=["source/core/optimization/coord.hpp","source/core/linear_model/linear_model.cpp","source/core/svm/svm.cpp","source/core/clustering/kmeans/kmeans.cpp","source/core/nlls/nlls.cpp"],
 mech="stopping tests inside each iteration",
 na="Convergence of floating-point iterations quantifies over runtime values; only execution or a mathematical proof of each algorithm could decide it, no property of the source text in reach does."),
dict(id="C32", title="Exact neighbour searches return the true neighbours",
 statement="""The k nearest neighbours, and the neighbours within a radius, that brute force, k-d tree and ball tree report are exactly the true ones under the chosen metric, equal in distance whichever method, leaf size, thread count and storage order was chosen.""",
 over=["inputs","configurations"], qtext="every training and query set, metric and leaf size",
 why="Pruning errors show only for point configurations close to a bounding region's border.",
 files=["source/core/nearest_neighbors/kd_tree.cpp","source/core/nearest_neighbors/ball_tree.cpp","source/core/nearest_neighbors/nearest_neighbors.cpp"],
 mech="pruning by lower bounds of bounding boxes and balls; heap of the best k",
 na="Soundness of pruning is an inequality between floating-point bounds and distances of runtime data; deciding it needs a numerical proof or execution."),
dict(id="C33", title="Clusterings, trees and forests are what their definitions say",
 statement="""The labels of DBSCAN are those of its density definition. A trained tree obeys its depth, leaf and split-size limits and each split is the best one under the chosen criterion, and a forest's prediction is the vote or mean of its trees.""",
 over=["inputs","configurations"], qtext="every data set and option combination",
 why="Tests check a few data sets against scores, which many wrong trees or clusterings also reach.",
 files=["source/core/clustering/dbscan/dbscan.cpp","source/core/decision_forest/tree/decision_tree_training_split.hpp","source/core/decision_forest/forest/decision_forest_inference.hpp"],
 mech="region growing; recursive best-split search over histograms or sorted features",
 na="Functional correctness over the values of the data (which split scores best, which points are reachable); a static abstraction of the loops forgets exactly those values."),
dict(id="C34", title="Results do not depend on the instruction set or the storage order",
 statement="""The same problem given in row-major or column-major order, with any leading dimension, on any supported instruction set and with any block size chosen by the tuning tables, yields results that agree within rounding error.""",
 over=["inputs","configurations"], qtext="every entry point, every architecture path, both storage orders",
 why="One machine runs one path of the dispatch, and the tests use a few shapes.",
 files=["source/core/kernel_functions/kernel_functions_simd.cpp","source/core/metrics/kernels_avx2.cpp","source/core/svm/svm_kernels.cpp","source/core/dynamic_dispatch/dynamic_dispatch.hpp"],
 mech="one generic kernel template per operation, specialised per vector width",
 na="Equivalence of vectorised and scalar floating-point programs over unbounded sizes is relational and value-dependent (translation validation), not decidable by a dataflow rule over either."),
dict(id="C35", title="Sizes never overflow the integer type they are computed in",
 statement="""No size, offset or workspace length computed from valid dimensions overflows the integer type it is computed in before it is used to allocate or address memory, in builds with 32-bit as well as 64-bit integers.""",
 over=["inputs","configurations"], qtext="every admissible combination of dimensions and leading dimensions",
 why="It takes arrays of more than two thousand million elements to see it.",
 files=["source/core/utilities/basic_handle.cpp","source/core/kernel_functions/kernel_functions.cpp","source/core/svm/svm.cpp","source/core/linear_model/linear_model.cpp"],
 mech="index arithmetic in da_int, some of it widened",
 na="The dimensions are bounded only by what fits in memory, so nearly every product n*ld may overflow in a 32-bit build by its types alone; a static rule would flag the design of the index type at hundreds of sites rather than defects."),
dict(id="C36", title="A data store behaves like the table it describes",
 statement="""After any sequence of loads, concatenations, selections, missing-row removals and edits, extracting from a data store yields exactly the elements a plain table under the same operations would hold, with each column keeping its type and name.""",
 over=["histories","inputs"], qtext="every sequence of data store calls",
 why="The number of operation sequences is unbounded; the tests run a few fixed ones.",
 files=["source/core/data_management/data_store.hpp","source/core/data_management/interval_map.hpp","source/core/data_management/interval_set.hpp"],
 mech="interval maps from columns to shared blocks; interval sets for selections",
 na="Functional equivalence with a reference table over unbounded histories: contents of maps and blocks are runtime quantities. The safety side of the same code (statuses, ownership, argument checks) is decided by C01, C05 and C13."),
]
