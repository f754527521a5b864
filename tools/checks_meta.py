VF = "static value-flow analysis over LLVM IR: "
TECH["P01"] = VF + "call-site forwarding rule per wrapper"
NOTE["P01"] = "Holds for all argument values of every wrapper in the list: the summary of each wrapper is one external call with the arguments in position. Trusts clang's front end and the external routines."
TECH["P06"] = VF + "store-effect polynomials of every sum operator against the element-wise definition; inductive step rule on the sparse merge loop"
NOTE["P06"] = "For all shapes, values and sparsity patterns of well-formed operands; arithmetic is read as exact real arithmetic, distinct objects are assumed not to overlap. Code shapes the summary cannot express become undecided obligations (listed in the evidence), never alarms."
TECH["P08"] = VF + "store-effect polynomials of every native product against the sum over k; compaction rule for sparse results"
NOTE["P08"] = "For all shapes, values and sparsity patterns of well-formed operands, column- and row-major dense, sparse, zero and sub-matrix operands; exact real arithmetic and non-overlapping objects assumed. Code shapes the summary cannot express become undecided obligations, never alarms."
TECH["P11"] = VF + "each query's returned value traced to the setting it was read from"
NOTE["P11"] = "Every (representation, precision) query, copy and load path of the threshold table; holds for all settings."
TECH["P12"] = "abstract interpretation of the filters' comparison code over all order types of (value, bounds), signs and NaN"
NOTE["P12"] = "The comparison code is loop-free and only compares, so deciding every order type of the inputs decides every input. Reads infinities as large finite values."
TECH["P21"] = "syntax-tree query (every exception object is thrown, no handler swallows) plus IR reachability of the normal return under each documented error condition"
NOTE["P21"] = "Covers every header, template and source; the reachability part covers the operations in drivers/refuse.cpp, for all inputs with the error condition. Sources with missing third-party headers are parsed best effort."
TECH["P18"] = "path-sensitive data flow over LLVM IR (unwinding edges included) of every tracked kernel; syntax-tree enumeration of the slots"
NOTE["P18"] = "For all inputs and every way a kernel is left. External back ends are declarations that may throw; the report's layout is not checked, only which slots it shows and from where."
TECH["P16"] = "compile-time witnesses on the type lists; LLVM IR guard feasibility of the dispatch chains, evaluation of the dispatch tables' initialisers, call-structure comparison of the dynamic functors and queries"
NOTE["P16"] = "All 7 types and 49 pairs; type lists up to length 8. The table initialisers are read from the unoptimised module, their order across template instantiations is assumed."
TECH["P17"] = "type-level witnesses: generated static assertions decided by the compiler on /repo's headers"
NOTE["P17"] = "All 49 ordered pairs, three operations, native and automatic product policy."
TECH["P22"] = VF + "sequence of (type, member, loop) of save against load, with archives whose leaf operations are opaque calls; ownership stores after load"
NOTE["P22"] = "For all contents and sizes of every class whose serialisation compiles (dense, sparse, dimension, both storages, path). Boost's split glue is expanded from its headers."
TECH["P02"] = VF + "the values reaching the back end's entry point, as polynomials over symbolic operand shapes, against the true operation"
NOTE["P02"] = "For all shapes and contents with agreeing inner dimension; OpenBLAS, Intel MKL (dense, sparse x dense, sparse x sparse), Eigen and Blaze, both precisions and the mixed ones. Eigen and Blaze are not installed and are replaced by recording stand-ins. Row-major operands are a known finding; sub-matrix operands do not compile (decided on every run)."
TECH["P14"] = VF + "the returned value of every norm and counting function as a fold over symbolic element values; inductive proof of the sub-matrix iteration"
NOTE["P14"] = "For all shapes, values and patterns of dense, sparse, zero, blocked and sub-matrix arguments, both orientations and precisions, static and dynamic. Exact real arithmetic, free summation order; narrowing is checked separately. Counting in blocked matrices does not compile and is not covered; multiple matrices belong to P07."
TECH["P10"] = VF + "store-effect polynomials of every conversion against the position-for-position definition; append, offset and counting-sort rules for sparse results; inductive proof of sub-matrix walks"
NOTE["P10"] = "For all shapes, contents, filters: dense, sparse, zero, sub-matrix sources, both orientations and precisions, transposition, copy and the converter's functors with their thresholds. Rounding to the target's type is not modelled, but where narrowing happens is checked. Multiple matrices belong to P07, blocked ones to P19."
TECH["P13"] = VF + "offsets, keys and counts of every sparse result as closed forms over symbolic shapes and patterns; whole-object operations field by field"
NOTE["P13"] = "For all shapes and patterns: sums, products, conversions, transposition, construction, copy, assignment, move, swap, resize and shrink. Ascending keys follow from the candidates' order. The native row-major sparse product is a known finding."
TECH["P05"] = "ownership typestate: path-sensitive data flow over LLVM IR (unwinding edges included, allocations may throw) of each operation followed by the destructors"
NOTE["P05"] = "Inductive: an object owns what its own destructor would release, for any representation; every operation of the dense, fixed and sparse storages and of the dense and sparse matrices is followed by the destruction of all objects involved. Standard containers' nodes and shared pointers are left to the standard library."
TECH["P04"] = VF + "reported rows, columns, size and storage length after every shape-changing operation, compared with the request or the source; a refused resize changes no field on any path (path-sensitive typestate)"
NOTE["P04"] = "For all shapes: construction, copy, assignment (self too), move, swap, resize, filling and conversion of dense (both orders, float and double), zero, sparse, sub- and blocked matrices. Histories follow by induction over the well-formedness of the operands. Opaque calls (shared pointers, stored value checkers) are taken not to touch the matrix."
TECH["P20"] = "LLVM IR control-flow rules against recording stand-ins for streams, archives and the file system: which calls precede which, under which conditions the normal return is reachable, which object and name reach the archive"
NOTE["P20"] = "For all file states, settings and both formats: every path of readXML, writeXML, readBinary, writeBinary and of the matrix reader. Boost's archives and the standard streams are replaced by stand-ins whose operations are opaque; what Boost itself does with a damaged archive is not covered."
TECH["P24"] = VF + "the stores of every filler as closed forms over symbolic shapes, compared with the filler's definition; inductive proof of sub-matrix walks; a difference is reported with a shape that shows it"
NOTE["P24"] = "For all shapes and fill values: constant, diagonal, Hilbert and consecutive-number fillers, filling construction, resizing and assignment, initializer lists, conversion from zero matrices; dense (both orders and precisions), sparse and sub-matrix targets. Exact real arithmetic. The random generator's values are P32."
TECH["P03"] = VF + "addresses delivered by the call operator, cursors and iterators as polynomials; one-step rules of the striped iterator; inductive proof of the walks"
NOTE["P03"] = "For all shapes, positions and both orders and precisions: dense matrices, sub-matrices and sub-matrices of sub-matrices, const and non-const, all four cursor directions, forward and reverse, and the arrays of sparse matrices. The index operator of a cursor across the storage order is a raw offset and is not covered."
TECH["P15"] = VF + "the values returned and kept by every cached query in every cache state; the cache state after every content-replacing operation"
NOTE["P15"] = "For all matrices, cache states, filters and bounds: dense (both orders and precisions), sub-, sparse, blocked and zero matrices; resize, fill, assignment, value and compound assignment, conversion, move, copy, swap, load and native products. The table of counts is replaced by an opaque map; writing single elements does not invalidate by design."

TECH["P23"] = VF + "the library's headers on small stand-ins for tables, strings and output streams; what every lookup returns, what the comparison computes and what is printed as closed forms"
NOTE["P23"] = "For all names, enumerators, values, bounds and labels. Name tables: one and two registrations, renaming, re-valuing, and the tracker's own table entry by entry. Approximate equality: every pair of double, float, int and complex<double> that compiles. NaN operands are not judged."

TECH["P07"] = VF + "whole-matrix algebra: elementary operations replaced by formal sums of values and shapes; element-wise contents with the real operations"
NOTE["P07"] = "For all halves and operands: sums, differences, compound assignments, products, norms and conversions of every pair of the seven matrix kinds with a multiple matrix, also through the dynamic functors; construction and reset from halves of different shape (where failures are reported as exceptions). Elementary operations of plain matrices are P06, P08, P10, P14."
TECH["P09"] = VF + "whole-matrix algebra: elementary products replaced by formal ones; contents of evaluated expressions and of the automatic method against the sum over k; back-end call arguments"
NOTE["P09"] = "All 49 pairs of the seven matrix kinds, statically and through the dynamic functor, chains of three, construction from expressions, and the automatic method with the native products, OpenBLAS and Intel MKL (column-major; row-major delegation is P02's known finding). Which functor a dynamic product reaches is P16, products of blocked matrices P19."

TECH["P19"] = VF + "block positions, shapes and products as formal functions of the block's address; the set of borders as a formal ordered set (contents = what is inserted); guards of the dividing step"
NOTE["P19"] = "For all shapes, lists of block sizes, contents, detection arrays and limits; products for one to three inner blocks and any outer shape. Conversion of a single block, copying into a sub-matrix and the dynamic product of two blocks are opaque here (P06, P07, P10, P09). std::set and std::sort are trusted; that a position is read inside the sorted list is assumed. Where the heuristic divides is not judged."

TECH["P25"] = VF + "engines and distributions replaced by unknown functions: shape of the result, stores that cover every element, data flow from the seed to the engine, from the engine to every draw and from the draws of the same turn to the stored value"
NOTE["P25"] = "For all shapes, seeds, ranges and histories. Standard engines and distributions are trusted to give equal sequences for equal seeds and numbers within the range. How well the sequence fits the distribution is P32; the setting 'occupation' is not used by the generator (DESIGN.md)."

TECH["P26"] = VF + "the number of elements a filter accepts is an unknown function of matrix and bounds; the returned truth value and the returned conversion are compared with the rule for all combinations of signs of the differences between occupation and threshold (up to 3^14)"
NOTE["P26"] = "Covers dense (double and single), sparse and part-of-matrix operands. Occupations are compared as real numbers; matrices without elements and thresholds below zero are out of scope. What each conversion does to the contents is P10; which setting a query returns is P11. If no representation is admissible an assertion fails (BLASBOOSTER_CORE_FAILURE); the result in builds without assertions is not judged."
