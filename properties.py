prop("C02", "Integer and float arithmetic is exact for every width and sign",
     "For int, every Int[N] and UInt[N] and float, each operator (arithmetic, division in C and in Python numerics, remainder, divmod, shifts, bitwise, power, comparison, negation, absolute value), conversion between any two widths and signednesses, text, hash, population count and bit length gives the mathematical result reduced modulo 2^N (or the IEEE result), at every optimisation level.",
     ["inputs"], "every pair of values of every signed and unsigned width from 1 to 6 (8) bits; every pair of boundary values of widths 9 to 128; conversions between every two of 13 (20) widths; every pair of boundary values of int, float and mixtures, in both numerics; debug and release",
     "One wrong extension or comparison predicate shows only for one width, one sign or a NaN.",
     ["stdlib/internal/types/int.codon", "stdlib/internal/types/intn.codon", "stdlib/internal/types/float.codon", "stdlib/internal/format.codon", "codon/cir/transform/pythonic", "codon/cir/transform/folding"],
     [("widths", "stdlib/internal/types/intn.codon"), ("int", "stdlib/internal/types/int.codon")],
     check="integers.py", technique="exhaustive enumeration of all operand pairs of small widths and boundary pairs of wide ones, executed by the compiled code and by a modular-arithmetic reference",
     note="Division by zero, the one overflowing quotient and shifts by the width or more are undefined here and are not compared.",
     observe=["the result of each operation"])

prop("C03", "Structured control flow runs exactly as Python defines it",
     "A program built from if, while/for with else, try/except/else/finally, with, break, continue, return and raise executes exactly the statements, in exactly the order, that Python's rules give for the same branch decisions: every finally block and __exit__ on a path runs once, jumps reach the right loop or handler, and the function returns or raises what it should.",
     ["programs", "histories"], "every nest of compound statements to depth 3, every placement of one or two conditional jumps, every sequence of branch decisions",
     "The tests contain a handful of fixed nests; the lowering of jumps through finally blocks is a state machine whose states combine across nesting levels.",
     ["codon/cir/llvm/llvisitor.cpp", "codon/parser/visitors/typecheck/loops.cpp", "codon/parser/visitors/typecheck/error.cpp", "codon/parser/visitors/translate/translate.cpp"],
     [("try/finally state machine", "codon/cir/llvm/llvisitor.cpp visit(TryCatchFlow)"), ("loop else rewriting", "codon/parser/visitors/typecheck/loops.cpp")],
     check="control_flow.py", technique="exhaustive enumeration of bounded programs and all their decision sequences, executed by the real compiler, each trace compared with CPython's",
     note="All statement nests and decision sequences within the bound were executed; CPython 3.12 is the reference for the trace. Nothing is said about deeper nests.",
     observe=["the log of executed statements"])

prop("C20", "Dataflow facts cover every execution of a function",
     "For every function in the IR, the control-flow graph contains every path an execution can take (including exceptions, loop exits, jumps through try blocks, and zero-trip loops), the reaching definitions at every value are exactly those of the graph and include the definition each execution actually sees, and a value reported as dominating another has run before it in every execution.",
     ["programs", "histories"], "every function body up to 3 statements (4 in thorough runs) over assignments, branches, all loop kinds, try/except/else/finally, ternaries, yields, throws and jumps; every branch, exception and iteration decision of each",
     "Unit tests look at a few graphs; optimisation passes trust these facts on every function, and one missing edge silently miscompiles release builds.",
     ["codon/cir/analyze/dataflow/cfg.cpp", "codon/cir/analyze/dataflow/reaching.cpp", "codon/cir/analyze/dataflow/dominator.cpp"],
     [("graph construction", "codon/cir/analyze/dataflow/cfg.cpp CFVisitor"), ("reaching definitions", "codon/cir/analyze/dataflow/reaching.cpp RDInspector::analyze"), ("dominators", "codon/cir/analyze/dataflow/dominator.cpp DominatorInspector")],
     check="dataflow.py", technique="exhaustive enumeration of IR functions and of all their executions, checked against the real analyses' answers; the answers also compared with brute-force graph search",
     note="The executor of IR functions is the model; it is bound to the code by C03's and C01's executions of the same constructs. Bounds: statements, one exception, three loop iterations per execution.",
     observe=["RDInspector::getReachingDefinitions", "DominatorInspector::isDominated", "CFGraph edges"])

prop("C18", "A clone of IR is independent of the original and otherwise identical",
     "Cloning a value or function yields a tree with the same structure, types, fields, attributes and loop schedules, in which no node is shared with the original; jumps whose loop was cloned target the cloned loop, variables and functions are remapped exactly where asked, and changing the clone never changes the original. A cloned function owns its own arguments and locals, keeps every flag, type, parent type and attribute, and its recursive calls call the clone.",
     ["programs"], "every IR tree of one compound node over all node kinds with every field value, every shape of two (three in thorough runs) nested compound nodes, every function kind",
     "Inlining, outlining and specialisation all clone; a field that is not copied is only noticed when a pass happens to clone that node kind.",
     ["codon/cir/util/cloning.cpp", "codon/cir/transform/parallel/schedule.h"],
     [("clone visitor", "codon/cir/util/cloning.cpp CloneVisitor"), ("attribute cloning", "codon/cir/attribute.cpp")],
     check="cloning.py", technique="exhaustive enumeration of bounded IR trees and functions, each cloned by the real CloneVisitor and compared with an independent reading of both trees",
     note="Trees are built through the public constructors; dsl custom nodes are not enumerated.",
     observe=["util::CloneVisitor::clone/forceClone", "structure of both trees after the clone is modified"])

prop("C19", "Structural matching of IR is exact",
     "util::match answers true for two IR trees exactly when they have the same node kinds, fields, types, jump targets, loop schedules and flags throughout (with checkNames also the same node names; with varIdMatch also the same variables); it always terminates and is reflexive and symmetric.",
     ["programs"], "every pair of trees of one compound node within a node kind, every tree against every other kind, all four option settings, all nests of two loops with every jump and target",
     "Optimisations rewrite code that matches; one ignored field makes two different computations equal and release builds wrong.",
     ["codon/cir/util/matching.cpp"],
     [("match visitor", "codon/cir/util/matching.cpp MatchVisitor")],
     check="matching.py", technique="exhaustive enumeration of all pairs in a bounded universe of IR trees; the real matcher's answer compared with equality of independent renderings",
     note="Float constants are compared by ==, as the matcher does; NaN is not in the universe.",
     observe=["util::match"])

prop("C24", "IR nodes report and replace all they use, and traversals visit all of it",
     "For every IR node and function the used values, variables and types reported are exactly those it holds; replacing one changes every occurrence and nothing else and reports how many; a lazily replaced node answers as its replacement everywhere; walking a tree visits each reachable node, in its documented order, with the right ancestors; and inserting before or after a node in a flow puts it at that place.",
     ["programs", "histories"], "every IR tree of one compound node over all node kinds, every shape of two (three in thorough runs) nested ones, every child, variable and type replaced; every position of insertion",
     "Every pass depends on these queries; a child that is not reported is a child that no pass transforms.",
     ["codon/cir/flow.cpp", "codon/cir/instr.cpp", "codon/cir/func.cpp", "codon/cir/base.h", "codon/cir/util/operator.h"],
     [("node queries", "codon/cir/base.h Node::getUsed*/replaceUsed*"), ("traversal", "codon/cir/util/operator.h Operator"), ("function queries", "codon/cir/func.cpp")],
     check="nodes.py", technique="exhaustive enumeration of bounded IR trees and of every single replacement, insertion and traversal on them, against an independent reading of the tree",
     note="dsl custom nodes are not enumerated.",
     observe=["getUsedValues/Variables/Types", "replaceUsed*", "replaceAll", "Operator hooks and iterators"])

prop("C01", "Optimisation never changes what a program does",
     "A program compiled with optimisation prints the same, raises the same and ends the same as without: constant folding gives exactly the value the running program would compute (integers wrap, division and modulo and shifts follow the selected numerics, floats are bit-exact, nothing is folded that would trap); algebraic simplification, constant and global propagation, dead code elimination, loop and generator rewriting and the list, dictionary, string and I/O idiom rewrites keep every side effect, exception and order of evaluation.",
     ["programs", "histories"], "every pair of boundary constants under every operator, every tree of two or three operators, every sequence of up to three (four) assignments, branches, loops and calls around one variable, every pattern a rewrite looks for with operands that log, raise, or change what the others read",
     "A rewrite is right only if it is right for every operand, type, definition and history that matches; tests exercise one of each.",
     ["codon/cir/transform", "codon/cir/analyze", "codon/cir/llvm/optimize.cpp", "stdlib/internal/types/collections/dict.codon"],
     [("folding rules", "codon/cir/transform/folding"), ("dead code, globals", "codon/cir/transform/cleanup, lowering"), ("idiom rewrites", "codon/cir/transform/pythonic"), ("side effects", "codon/cir/analyze/module/side_effect.cpp")],
     check="optimisation.py", technique="exhaustive enumeration of bounded programs, each compiled by the real pipeline without and with the optimisation passes and executed; outputs compared with exact arithmetic and with CPython",
     note="Undefined operations (division by zero and over-long shifts under C numerics) are not executed. Release code generation of every program is part of thorough runs; quick runs use the release IR passes with debug code generation.",
     observe=["stdout and exceptions of the compiled program, per optimisation level"])

prop("C22", "Inlining a call and outlining a region keep behaviour",
     "Replacing a call by util::inlineCall's result, or a range of a series by util::outlineRegion's call, leaves what the program does unchanged: each argument is evaluated once, in the caller's variables (also when the function calls itself); the callee's parameters and locals do not alias the caller's; a return, break or continue in the moved code, at any nesting and inside try/finally, leaves exactly what it left before, with the same value; variables and globals changed in an outlined region are changed for the caller, and the reported argument kinds and number of out-flows match the generated call. Aggressive inlining accepts every function with a body.",
     ["programs", "histories"], "every range of every series of every function with up to two nested compound statements and one or two jumps, with and without outlining globals; every such function (and recursive, throwing and global-changing ones) inlined in thirteen kinds of places; all branch decision sequences of length 4 (6)",
     "Whether moved code keeps its meaning depends on every combination of jumps, handlers and variables around the cut; parallel loops and plugins rely on it for all of them.",
     ["codon/cir/util/outlining.cpp", "codon/cir/util/inlining.cpp", "codon/cir/util/cloning.cpp"],
     [("outlining", "codon/cir/util/outlining.cpp Outliner, OutlineReplacer"), ("inlining", "codon/cir/util/inlining.cpp inlineFunction")],
     check="regions.py", technique="exhaustive enumeration of bounded functions, of all their regions and call places, and of all their branch decision sequences; each transformed program is executed by the real compiler and compared with CPython's run of the original",
     note="Regions containing yields are refused by design and not part of the bodies. allByValue outlining (documented to change semantics) is not covered.",
     observe=["log of executed statements and values", "OutlineResult", "InlineResult"])

prop("C21", "Capture, escape and side-effect facts cover every execution of a function",
     "For every function: when some execution makes an object reachable through an argument reachable from the result, from another argument or from outside (a global, an external call, a thrown object), or writes to it, the capture analysis reports that; an object the escape query reports as local never leaves the function; a function reported pure changes nothing a caller can see; and removing the statements reported to have no side effect leaves all outcomes the same.",
     ["programs", "histories"], "every function body of 3 heap statements (copies, loads, stores, allocation, helper and external calls, conditional values, globals, throws, returns) in 7 control-flow shapes with up to 3 loop iterations and every decision",
     "Dead-code removal and fusion trust these facts on all code; a missed alias through a loop deletes a store the program depends on.",
     ["codon/cir/analyze/dataflow/capture.cpp", "codon/cir/analyze/module/side_effect.cpp"],
     [("capture analysis", "codon/cir/analyze/dataflow/capture.cpp CaptureTracker"), ("side effects", "codon/cir/analyze/module/side_effect.cpp SideEfectAnalyzer")],
     check="capture.py", technique="exhaustive enumeration of bounded heap-manipulating IR functions and all their executions on a concrete heap, compared with the real analyses' answers",
     note="The heap machine is the model; it shares the IR builder with the analysis run, statement by statement. Objects have one field; initial objects of different arguments do not overlap.",
     observe=["CaptureResult", "escapes()", "SideEffectResult::hasSideEffect"])

prop("C23", "Passes run in the registered order, each on analyses that are up to date",
     "For every sequence of registrations (passes appended or inserted before another, with requirements, invalidations, repetitions, groups, equal keys, disabled keys; analyses with dependencies), running the manager runs exactly the enabled passes in the resulting order, each as often as it asks; whenever a pass or analysis runs, the analyses it requires (and transitively theirs) have results computed after anything they depend on was last invalidated, valid results are reused rather than recomputed, keys are unique, and an invalidated result is gone, also for later runs of the manager.",
     ["histories"], "every history with 2 passes and 3 analyses over all dependency graphs, requirements and invalidations; restricted choices for 3 passes; 4 analyses with 2 passes; two consecutive runs each",
     "A stale analysis makes an optimisation act on code that no longer exists; it shows only for particular combinations of passes and dependencies.",
     ["codon/cir/transform/manager.cpp", "codon/cir/transform/manager.h", "codon/cir/transform/pass.cpp", "codon/cir/transform/pass.h"],
     [("pass manager", "codon/cir/transform/manager.cpp PassManager"), ("groups", "codon/cir/transform/pass.cpp PassGroup")],
     check="pass_manager.py", technique="exhaustive enumeration of registration histories driving the real PassManager; its event log compared with a reference model after two runs",
     note="The passes and analyses are recording stand-ins; the standard pipeline's own declarations are exercised by C01.",
     observe=["events of Pass::run and Analysis::run", "PassManager::getAnalysisResult, hasPass, hasAnalysis"])

prop("C25", "Unification decides and undoes exactly, and every type has its own name",
     "For every history of unifications, two types unify exactly when a substitution respecting literal kinds, traits and the occurs check makes them equal, the result is the most general such substitution with levels lowered accordingly, a trial changes nothing, undoing restores the previous state exactly, and redoing repeats the result; generalisation abstracts exactly the variables at or above the level, instances share variables only through a common table, and the queries for unknowns agree with the structure; a more specific pattern scores higher; two ground types have the same realized name exactly when they are the same type, and literals are written so that they read back.",
     ["histories", "inputs"], "every history of 2 (3) unifications over 21 terms of variables, classes, literals, sized integers and functions, for 5 assignments of levels and every placement of a trait; every ground type of depth 1 (2) over classes, tuples, unions, functions and literals; every text of up to 2 bytes and of up to 4 (5) bytes of a selected alphabet",
     "Inference mutates shared type variables and backs out of failed attempts; a lost undo entry shows only after a particular failed unification and then as a wrong type far away.",
     ["codon/parser/ast/types", "codon/parser/common.cpp"],
     [("variables", "codon/parser/ast/types/link.cpp LinkType::unify, occurs, generalize, instantiate"), ("classes, unions, literals, functions", "codon/parser/ast/types/class.cpp, union.cpp, static.cpp, function.cpp"), ("undo", "codon/parser/ast/types/type.cpp Type::Unification::undo"), ("literal text", "codon/parser/common.cpp escape, unescape")],
     check="unification.py", technique="exhaustive exploration of unification histories on the real type objects against a reference unifier, each step tried, done, undone and redone",
     note="Unification of a literal variable with one that may stand for any type, callable traits and n-tuples are not explored; functions are explored without a parent.",
     observe=["the reading of every variable, its level and kind after every step; names; scores"])

prop("C26", "Conversions between half, single and double precision are exact",
     "Converting between 16-, 32- and 64-bit floats in the runtime gives the correctly rounded result (nearest, ties to even) for every input: subnormals, overflow to infinity, underflow to signed zero, infinities and signs; NaNs stay quiet NaNs with their sign.",
     ["inputs"], "every half, every single; every double with any sign, exponent and leading mantissa bits followed by each pattern of trailing bits that decides rounding",
     "Rounding errors hide in isolated inputs (ties, the subnormal boundary, carries into the exponent) that samples do not hit.",
     ["codon/runtime/floatlib/fp_trunc.inc", "codon/runtime/floatlib/fp_extend.inc", "codon/runtime/floatlib/truncdfhf2.c", "codon/runtime/floatlib/truncsfhf2.c", "codon/runtime/floatlib/extendhfsf2.c"],
     [("truncation", "codon/runtime/floatlib/fp_trunc_impl.inc __truncXfYf2__"), ("extension", "codon/runtime/floatlib/fp_extend_impl.inc __extendXfYf2__")],
     check="floatlib.py", technique="exhaustive execution of the real conversion code on its whole input space (double sources: all classes of bit patterns that decide the result), against exact arithmetic",
     note="The 16- and 32-bit input spaces are covered entirely; doubles are covered per class of trailing mantissa bits.",
     observe=["__truncsfhf2, __truncdfhf2, __extendhfsf2, __extendsfdf2, __truncdfsf2 results"])

prop("C27", "Sorting, selection and searching are correct on every sequence",
     "Every sorting routine (list.sort and sorted under each algorithm, with key and reverse; heapq; the NumPy sort, argsort, partition, argpartition and lexsort entry points, scalar and vectorised) returns a permutation of its input in order; routines documented stable keep equal elements in input order, also in reverse; NaN sorts last in NumPy; partition puts the k-th smallest element at k; bisect and searchsorted return the first and last insertion point.",
     ["inputs"], "every sequence of up to 8 (10) elements over 3 keys, 5 (7) over 5, 13 (17) over 2, every permutation of up to 7 (9), every concatenation of two or three shaped runs with lengths around every algorithm's cut-offs, every single displacement in sorted sequences; every native routine on every element type",
     "Sort bugs need particular lengths and run structures (merge, gallop, partition and cut-off paths); the tests use a few random lists and never check stability.",
     ["stdlib/internal/sort.codon", "stdlib/algorithms", "stdlib/heapq.codon", "stdlib/bisect.codon", "stdlib/numpy/sorting.codon", "codon/runtime/numpy/sort.cpp"],
     [("list sorting", "stdlib/internal/sort.codon, stdlib/algorithms/timsort.codon, pdqsort.codon, heapsort.codon, insertionsort.codon, qsort.codon"), ("vectorised sorting", "codon/runtime/numpy/sort.cpp cnp_sort_*")],
     check="sorting.py", technique="exhaustive enumeration of bounded input sequences, run through the real routines (native ones called directly, the others compiled), each result judged by the definition",
     note="Elements carry their position, so stability and permutation are judged exactly. Long inputs are limited to the listed run shapes.",
     observe=["resulting sequences", "cnp_sort_* buffers"])

prop("C31", "NumPy element-wise kernels agree with the scalar function at every position",
     "A vectorised element-wise loop in the runtime (unary and binary, single and double precision, every function) produces at every element the scalar function's value within its error bound, whatever the length, alignment, input and output strides (including zero strides that broadcast, negative and overlapping-free interleaved ones), touches nothing outside its output elements, and gives the standard's special values for zeros, infinities, NaN, subnormals and huge arguments with the right sign; the complex functions satisfy the C standard's special-value tables and agree with high-precision references.",
     ["inputs"], "every length up to several vectors with every stride combination and every start, every position of every special value; every argument of a grid covering every exponent and sign; every pair of special values for binary and complex functions",
     "The vector loop, its tail and its strided version are three code paths with different masks; tests use contiguous arrays of one length.",
     ["codon/runtime/numpy/loops.cpp", "codon/runtime/numpy/zmath.cpp"],
     [("vector loops", "codon/runtime/numpy/loops.cpp"), ("complex functions", "codon/runtime/numpy/zmath.cpp")],
     check="kernels.py", technique="exhaustive enumeration of lengths, strides, positions and special arguments over the real runtime functions, compared with long double and scalar references",
     note="Values between grid points are not covered; the error bound is a few units in the last place, as measured by the vector library's documentation.",
     observe=["output arrays including guard elements"])

prop("C04", "A generator resumes exactly where it stopped",
     "For every generator body built from nested conditionals, loops with else, try/except/else/finally, with, yield, yield from, return, raise, break and continue, every history of branch decisions, and every interleaving of the steps of two live instances, the values produced, the side effects, the exceptions and the end come in Python's order, locals surviving every suspension; a generator asked beyond its end stays at its end; values sent arrive at the yield that waits for them.",
     ["schedules", "inputs"], "every nest of compound statements of depth 1 and 2 (3) with every placement of up to two jumps or yields, under all branch histories of length 4 (5), alone, in a for statement, and as two instances under all 2^4 (2^6) schedules; every sequence of up to 4 (6) values sent",
     "Coroutine frames, handlers and finalisers are rewritten for suspension: an error shows only for one nest, one history and one suspension point.",
     ["codon/cir/llvm/llvisitor.cpp", "codon/cir/transform/lowering", "codon/parser/visitors/typecheck/loops.cpp", "stdlib/internal/types/generator.codon"],
     [("coroutines", "codon/cir/llvm/llvisitor.cpp LLVMVisitor::makeYield, visit(const ForFlow *)"), ("protocol", "stdlib/internal/types/generator.codon")],
     check="generators.py", technique="exhaustive enumeration of generator bodies x branch histories x schedules of two instances, executed by the compiled code and compared with CPython",
     note="Finalisation of abandoned generators (close, GeneratorExit) is not offered by the language and is not compared.",
     observe=["values, side effects, exceptions and ends"])

prop("C05", "Every call binds arguments to parameters as Python does",
     "For every signature built from plain, defaulted and star parameters and every call shape valid for it (positional, named in any order, star arguments splitting any run of the positions), a function, constructor, method, static method and call operator receive the same values in the same parameters as in Python, with arguments evaluated once each, from left to right, and defaults evaluated once, at definition; a partial call fixes the arguments it is given and leaves the others as they were; a call that Python rejects is rejected by the compiler.",
     ["inputs"], "every signature of up to 2 (3) named parameters with and without defaults, *args followed by keyword parameters, and **kwargs, under every call of up to 3 (4) positional and 2 (3) named arguments, every split of the positional run into starred tuples; every invalid call of these",
     "Binding is a slot assignment with positional, named, default, starred and captured arguments interleaved; each combination is its own path.",
     ["codon/parser/visitors/typecheck/call.cpp", "codon/parser/visitors/typecheck/function.cpp", "codon/parser/visitors/typecheck/typecheck.cpp"],
     [("slot assignment", "codon/parser/visitors/typecheck/typecheck.cpp TypecheckVisitor::reorderNamedArgs"), ("argument expressions and partials", "codon/parser/visitors/typecheck/call.cpp TypecheckVisitor::callReorderArguments")],
     check="arguments.py", technique="exhaustive enumeration of signatures x calls within bounds, executed by the compiled code and compared with CPython's binding",
     note="A required parameter after one with a default and a bare * are not accepted by the language and are not compared.",
     observe=["the values bound, the order of evaluation, rejection"])

prop("C10", "Containers behave as their Python counterparts over every history of operations",
     "For list, dict, set, deque (bounded or not), Counter and defaultdict, with any element or key type (also keys whose hashes collide), every sequence of operations leaves exactly the contents, results, order (where there is one) and exceptions Python's container would have; aliases see each other's changes, copies do not, and an operation given the container itself as argument behaves as if given a copy.",
     ["histories"], "every history of up to 3 operations (4 for integer keys, deques and counters; 5 for plain deques) out of 14 to 52 operations per container, including fills and removals that force rehashing and growth",
     "Open-addressing tables and ring buffers go wrong after particular orders of growth, deletion and reuse; tests run a few fixed sequences.",
     ["stdlib/internal/types/collections", "stdlib/internal/khash.codon", "stdlib/collections.codon"],
     [("lists", "stdlib/internal/types/collections/list.codon"), ("hash tables", "stdlib/internal/types/collections/dict.codon, set.codon _kh_put, _kh_resize"), ("deque, Counter, defaultdict", "stdlib/collections.codon")],
     check="containers.py", technique="exhaustive enumeration of operation histories up to a depth, each executed on the real containers compiled by the real compiler and on CPython's, states compared after every operation",
     note="Iteration order of dict and set is documented to differ and is not compared; changing a container while iterating over it is not explored; set.pop of an empty set raises ValueError here, as the repository's tests require.",
     observe=["contents, results and exceptions after every operation"])

prop("C11", "Indexing and slicing select, replace and delete exactly what Python does",
     "For every sequence, index and slice (any of start, stop and step absent, negative, out of range, or near the limits of int), reading, assigning (also a sequence to itself), deleting and popping give Python's result or raise Python's exception, and never touch memory outside the sequence; ranges have Python's length, elements and membership; tuple slices with constant bounds have the right elements.",
     ["inputs"], "every length up to 5 (7), every start and stop in and around the sequence and at the limits of int, every small and huge step, in every syntactic form of a slice, for lists (read, assign 0 to 4 elements, assign itself, delete), strings, ranges and tuples",
     "Each combination of sign, absence and overlap takes a different path; samples miss the one that overruns.",
     ["stdlib/internal/types/slice.codon", "stdlib/internal/types/collections/list.codon", "stdlib/internal/str.codon", "stdlib/internal/types/range.codon"],
     [("index normalisation", "stdlib/internal/types/slice.codon adjust_indices"), ("slice assignment and deletion", "stdlib/internal/types/collections/list.codon"), ("tuple slices", "codon/parser/visitors/typecheck/access.cpp")],
     check="slicing.py", technique="exhaustive enumeration of bounded sequences, slice forms and bounds, executed by the compiled code and by CPython",
     note="Ranges whose end is within a step of the limits of int are not explored.",
     observe=["resulting sequences and exceptions"])

prop("C12", "Numbers and text convert to each other exactly",
     "Formatting an integer, float or string with any format specification (fill, alignment, sign, alternate form, zero padding, width, grouping, precision, type), alone or in an f-string with conversions and the = form, gives Python's text; int() in every base and float() accept exactly the texts Python accepts and give the same number, correctly rounded; 17 digits identify a float.",
     ["inputs"], "every specification of a grid over boundary integers, floats, infinities and strings; every text of up to 4 (5) characters over number alphabets parsed in nine bases and as float; decimal texts and neighbours around every power of two and ten; every pair of replacement fields in an f-string",
     "Rounding and padding errors show only for one value under one specification.",
     ["stdlib/internal/format.codon", "stdlib/internal/builtin.codon", "codon/runtime/lib.cpp", "codon/parser/visitors/scoping/scoping.cpp", "codon/parser/peg/grammar.peg"],
     [("specifications", "stdlib/internal/format.codon _python_to_fmt_format"), ("parsing", "stdlib/internal/builtin.codon int._from_str, float._from_str"), ("f-strings", "codon/parser/visitors/scoping/scoping.cpp unpackFString")],
     check="formats.py", technique="exhaustive enumeration of values x format specifications and of number texts over small alphabets, executed by the compiled code and by CPython",
     note="Underscores in numbers, brace escapes and nested replacement fields, integers formatted with float types, and C-style octal prefixes are outside the language's subset and are not compared.",
     observe=["formatted texts, parsed values and errors"])

prop("C13", "NumPy array programs mean what they mean in NumPy",
     "A program over NumPy arrays (whole-array expressions, views, slice, mask and index reads and writes, in-place operators, ufuncs with outputs, reductions along any axes, reshaping, sorting, set and sequence routines) computes what NumPy computes, or raises where NumPy raises, for every layout (transposed, reversed, strided, broadcast) and also where the result overwrites an operand; fusing expressions into one loop and forwarding them to their use changes nothing, whatever control flow, aliasing and side effects lie in between.",
     ["inputs", "programs"], "every program of a defining expression x one of 16 statements (element, slice and aliased writes, calls that mutate, branches, loops, handlers) x a final expression, for both branch conditions; every slice pair assigned, added or viewed on arrays of 3 and 4 elements; every mask and index triple of up to 4 elements; every pair of shapes up to 3x3; 2- and 3-dimensional arrays in 4 and 5 layouts under 250 expressions; every vector of up to 4 digits under 110 expressions; 70 writes through outputs and views on all start values",
     "Fusion, forwarding, contiguous fast paths and loop reordering are chosen by shape, stride and use; a test sees one combination each.",
     ["stdlib/numpy", "codon/cir/transform/numpy", "codon/runtime/numpy"],
     [("fusion and forwarding", "codon/cir/transform/numpy/numpy.cpp, expr.cpp, forward.cpp"), ("arrays and loops", "stdlib/numpy/ndarray.codon, ufunc.codon, reductions.codon"), ("indexing", "stdlib/numpy/indexing.codon")],
     check="arrays.py", technique="exhaustive enumeration of array programs over a statement grammar, and of shapes, layouts, slices, masks and indices, executed by the compiled code and by NumPy",
     note="Values are small integers and halves, exact in floating point; functions needing BLAS, random numbers, dates and file formats are not explored.",
     observe=["the elements of every array at the end, results and exceptions"])

prop("C28", "String methods agree with Python on every string",
     "Every method of str (searching forwards and backwards with and without bounds, counting, replacing, splitting and partitioning from either end, stripping, line splitting, tab expansion, padding, case mapping and classification, comparison, hashing, repetition, joining) gives Python's result for every ASCII string and argument, whatever their lengths.",
     ["inputs"], "every string of up to 8 (11) characters over two letters with every pattern of up to 3 (4); every string of up to 6 (9) over whitespace and line-ending alphabets; every ASCII character alone and in context; 240 periodic patterns against 150 periodic texts around the search's block size",
     "The search functions are hand-unrolled block algorithms: an error shows only for one offset of one length.",
     ["stdlib/internal/str.codon", "stdlib/algorithms/strings.codon", "stdlib/internal/types/str.codon"],
     [("search", "stdlib/algorithms/strings.codon forward_find, backward_find"), ("methods", "stdlib/internal/str.codon")],
     check="texts.py", technique="exhaustive enumeration of strings and arguments over small alphabets, executed by the compiled code and by CPython",
     note="Strings are byte strings in this language: non-ASCII text and the separators 0x1c to 0x1f are not compared.",
     observe=["results and exceptions of each call"])
