#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H="include/BlasBooster/"
C=H+"Core/"; U=H+"Utilities/"; B=H+"BlasInterface/"
prop("P01","Every BLAS entry point forwards to its own routine, arguments in order",
 "Calling the wrapper of a BLAS routine of a back end (OpenBLAS, Intel MKL) invokes exactly the external routine of the same name (for complex OpenBLAS dot products, whose calling convention differs, its cblas _sub form), once, with every argument in its own position, and hands back exactly that routine's result. Every routine in the published function list has a wrapper in each back end, with the same signature in both, and setting the thread count passes the requested number to the back end.",
 ["inputs","configurations"],"every routine in the function list, both back ends, all argument values",
 "The tests call two or three routines; the ~230 wrappers are never all called, and the MKL back end cannot be linked here at all.",
 ["src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp","src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp",B+"BlasInterface_OpenBLAS.h",B+"BlasInterface_IntelMKL.h",B+"Blas.h",B+"FunctionTypes.h",B+"IntelMKL_SpBlas.h",B+"FunctionList.yml"],
 [("generated forwarding operators","src/Interfaces/*/BlasInterface_*.cpp")],
 observe=["external symbol called and its arguments"])
prop("P02","GEMM back ends receive the operands' true shapes, strides and coefficients",
 "When a product is delegated to an external back end, the back end is told the true operation: no transposition, alpha 1, beta 0, rows of A, columns of B, the shared inner dimension, each operand's own data and leading dimension, and a result that has been given the shape rows(A) x columns(B) beforehand. This holds for full matrices and for sub-matrices inside a larger one, for both precisions.",
 ["inputs","configurations"],"all operand shapes, all leading dimensions, both element types, every external back end",
 "Square or equal-dimension tests cannot tell m, n, k and the leading dimensions apart; sub-matrix and rectangular shapes are unbounded; the MKL and Blaze back ends are not installed.",
 [C+"Multiplication_OpenBLAS.h",C+"Multiplication_Eigen.h",C+"Multiplication_IntelMKL.h",C+"DenseMatrix.h",C+"Dimension.h"],
 [("MultiplicationFunctor<..., OpenBLAS/IntelMKL/Eigen>","Multiplication_OpenBLAS.h, Multiplication_IntelMKL.h, Multiplication_Eigen.h"),("leading dimension accessors","Dimension.h, DenseMatrix.h")],
 observe=["arguments of the external gemm/csrmm call"])
prop("P03","Element access, cursors and iterators address the same element",
 "For a matrix and an in-range (row, column), the call operator, the row/column cursors and the storage iterators agree on which memory location holds the element: offset row + column*ld for column-major and row*ld + column for row-major, where ld is the matrix's own leading dimension (that of the parent for a sub-matrix). Distinct positions have distinct locations and every location lies inside the storage, and walking any iterator or cursor from begin visits each element once and then compares equal to end.",
 ["inputs"],"all shapes, all positions, both orientations, plain and sub-matrix",
 "Tests use a few small, often square, shapes; confusion of rows with columns or of ld with nbRows stays invisible on them.",
 [C+"DenseMatrix.h",C+"Cursor.h",C+"CursorBase.h",C+"StridedCursorBase.h",C+"StripedIterator.h",C+"Storage.h",C+"Dimension.h"],
 [("getPosition","DenseMatrix.h"),("Cursor::begin/end","Cursor.h"),("StripedIterator::increment/decrement","StripedIterator.h")])
prop("P04","A matrix's reported shape always matches its storage",
 "After any construction, resize, assignment, move, swap or conversion, the reported number of rows, columns, total size and storage length of a matrix agree with each other and with what was requested or copied from the source; a swap exchanges all of them. A copy reports the same shape as its source, and a moved-to object reports what the source reported (moved-from objects are only to be destroyed or assigned).",
 ["inputs","histories"],"all shapes and all sequences of shape-changing operations on dense, sparse, zero, sub- and blocked matrices",
 "Only a handful of sequences are run; a bookkeeping field left stale shows only when a later operation reads it.",
 [C+"Dimension.h",C+"DenseMatrix.h",C+"SparseMatrix.h",C+"ZeroMatrix.h",C+"SparseStorage.h",C+"Storage.h",C+"MultipleMatrix.h"],
 [("dimension / storage base classes","Dimension.h, Storage.h"),("swap, resize, copy/move members","DenseMatrix.h, SparseMatrix.h")],
 state=[("nbRows_, nbColumns_, full_size_","logical shape","Dimension.h"),("size_","storage length","Storage.h")])
prop("P05","Matrix storage is released exactly once and external memory is never freed",
 "Every buffer a storage allocates is released exactly once over the life of the objects that hold it, on every path through construction, copy, move, assignment (including self-assignment), resize, load and destruction. Memory supplied by the caller is never released or resized, and a copy never shares a buffer that either side will release.",
 ["histories","inputs"],"all sequences of construction, copy, move, assignment, swap, resize and destruction, owning and external, empty and non-empty",
 "A leak, double free or freed external buffer does not change any value the tests compare, and the tests do not run under a leak checker.",
 [C+"Storage.h",C+"SparseStorage.h",C+"Memory.h",C+"DenseMatrix.h"],
 [("ownMemory_ flag","Storage.h"),("allocate / deallocate","Memory.h")],
 state=[("ownMemory_","true iff data_ must be released by this object","Storage.h")])
prop("P06","Matrix addition and subtraction are exact element-wise operations",
 "For every pair of representations (dense, sparse, zero), C = A + B and C = A - B set each element of C to the sum respectively difference of the elements of A and B at the same position, A += B and A -= B update A likewise, and the operands are left unchanged. The result has the operands' shape; a combination the library does not implement refuses with an exception instead of computing something else.",
 ["inputs"],"all shapes, values and sparsity patterns, both operations, all operand representations",
 "Tests use fixed small matrices, mostly for addition, and never the mixed subtractions; every shape and pattern is needed.",
 [C+"BinaryFunctors.h",C+"DenseMatrix.h",C+"SparseMatrix.h",C+"ZeroMatrix.h"],
 [("BinaryOperationFunctor, BinaryAssignmentOperationFunctor","BinaryFunctors.h")])
prop("P07","A multiple matrix behaves as the sum of its two halves",
 "A multiple matrix stands for the sum of its two halves: its shape is that of both halves, and adding, subtracting, converting, measuring or multiplying it gives the same result as doing so with that sum. Building one from halves of different shape is rejected.",
 ["inputs"],"all halves, all operations on multiple matrices",
 "Only one or two combinations are ever exercised; an operation applied to both halves or with a half's sign flipped is invisible for zero halves.",
 [C+"MultipleMatrix.h",C+"BinaryFunctors.h",C+"Norm.h",C+"MatrixMultExp.h",C+"DenseMatrix.h",C+"Occupation.h"],
 [("operator +,-,+=,-= for MultipleMatrix","BinaryFunctors.h"),("getMatrix1/getMatrix2","MultipleMatrix.h")])
prop("P08","Native products compute sum over k of A(i,k)*B(k,j) for every operand kind",
 "The native multiplication gives C the shape rows(A) x columns(B) and sets C(i,j) to exactly the sum over the inner index of A(i,k)*B(k,j), independent of C's previous content, for dense, sparse, zero and sub-matrix operands. Incompatible inner dimensions are not silently multiplied where a check exists, and the operands are not modified.",
 ["inputs"],"all shapes, contents, sparsity patterns and previous contents of the result",
 "The tests compare a few small products; wrong strides, missing zeroing or a dropped last element need specific shapes and a dirty result buffer.",
 [C+"Multiplication_Native.h",C+"Multiplication.h",C+"BlockedMatrix.h"],
 [("MultiplicationFunctor<..., Native>","Multiplication_Native.h")])
prop("P09","A product expression multiplies its operands in order with the chosen method",
 "Evaluating a product of two operands or of a chain multiplies the operands in the written order, each operand used exactly as given, and assigns exactly that product; for static, dynamic and multiple matrices the same expression gives the sum of the corresponding partial products. The automatic method chooses an implementation for exactly the given operand types and passes the operands on unchanged and in order (with Intel MKL it multiplies a float and a double operand in single precision).",
 ["programs","inputs"],"all expressions built from * over all matrix types and method selections",
 "Every combination of operand kinds and chain lengths is a separate template instantiation; tests instantiate a few.",
 [C+"MatrixMultExp.h",C+"Multiplication_TheBestPolicy.h",C+"Multiplication.h",C+"DynamicMatrixFunctions.h"],
 [("MatrixMultExp::execute","MatrixMultExp.h"),("TheBestPolicy dispatch","Multiplication_TheBestPolicy.h")])
prop("P10","Conversion between representations keeps every element at its position",
 "Converting a matrix between dense, sparse, zero, multiple and sub-matrix representations, orientations and element types keeps the shape and puts the value of position (i,j) of the source at position (i,j) of the result. Where a value filter is given, elements it rejects become zero (or are not stored) and all others are kept; nothing else is altered.",
 ["inputs"],"all shapes, contents, filters and pairs of representations",
 "Tests convert a few small matrices; orientation, offset and filter errors depend on shape and content.",
 [C+"DenseMatrix.h",C+"SparseMatrix.h",C+"SparseStorage.h",C+"Transposition.h",C+"Copy.h",C+"MatrixConverter.h",C+"ZeroMatrix.h"],
 [("conversion constructors","DenseMatrix.h, SparseMatrix.h, SparseStorage.h"),("transpose, copy","Transposition.h, Copy.h")])
prop("P11","Each threshold query returns its own setting",
 "Asking the threshold table for the significance threshold of a precision, or for the occupation threshold of a matrix representation at a precision, returns exactly the configured setting named for that representation and precision, and block-size bounds return the configured bounds; copying a table copies every setting.",
 ["configurations"],"every representation, precision and settings value",
 "Defaults coincide for many entries, so a swapped pair of entries gives the same answer on the default settings.",
 [C+"Threshold.h"],[("SignificanceThresholdDistributor, OccupationThresholdDistributor","Threshold.h")])
prop("P12","Range filters accept exactly the magnitudes in their documented range",
 "An absolute-value filter accepts x exactly when |x| lies in its range, with each bound inclusive or exclusive as the filter's type says: Exclusive/NoBound t < |x|, Exclusive/Inclusive lo < |x| <= hi, Inclusive/Inclusive lo <= |x| <= hi, Exclusive/Exclusive lo < |x| < hi, so that an Exclusive/Inclusive range and the unbounded range above it split the values with no overlap and no gap. A negative bound, or an upper bound below the lower (or equal to it where a bound is exclusive), is rejected at construction. Two filters compare equal only when they have the same kind and the same bounds, and their ordering is a strict weak ordering.",
 ["inputs"],"all real x and all bounds, including boundary values",
 "A few values are sampled; the boundary and ordering laws quantify over all values.",
 [C+"AbsoluteValueRangeChecker.h"],[("operator()","AbsoluteValueRangeChecker.h"),("ValueCheckerLess","AbsoluteValueRangeChecker.h")])
prop("P13","Sparse matrices stay well-formed compressed lists",
 "Every sparse matrix the library produces starts its offset list at zero, never decreases it, ends it with the number of stored elements, has one offset entry per major line plus one, and stores exactly as many keys as values, with every stored element's key inside the minor dimension. The reported number of non-zeros is the number of elements actually stored.",
 ["inputs","histories"],"all sparse results of construction, conversion, addition, subtraction, multiplication and transposition",
 "A malformed tail or offset is not visible through the few equality comparisons the tests make.",
 [C+"SparseStorage.h",C+"SparseMatrix.h",C+"BinaryFunctors.h",C+"Multiplication_Native.h",C+"Transposition.h"],
 [("value_/key_/offset_ arrays","SparseStorage.h")])
prop("P14","Norms and occupation counts follow their definitions",
 "The one-norm of a matrix is the sum of the absolute values of its elements, the max-norm the largest absolute value, the two-norm the root of the sum of squares, and the number of significant elements is the number of stored elements the filter accepts; all are the same for the dense and sparse representation of the same matrix and zero for a zero matrix. The maximal deviation of two dense matrices is the largest absolute difference of their elements, the root mean square deviation the root of the mean squared difference.",
 ["inputs"],"all shapes, contents (including all-negative and single element) and representations",
 "Sampled matrices cannot exclude a dropped last column, a missing absolute value or a wrong initial maximum.",
 [C+"Norm.h",C+"NormPolicy.h",C+"Occupation.h",C+"OccupationPolicy.h",C+"ZeroMatrix.h",C+"StatisticalErrorInformation.h"],
 [("NormOne, NormTwo, NormMax functors","Norm.h"),("countDesiredElements","Occupation.h")])
prop("P15","Cached norms and counts are recomputed or served correctly",
 "A matrix's norm query returns the norm computed from the current object the first time and the same value until the matrix is resized, swapped, assigned or the cache is otherwise invalidated, comparisons with a bound use that norm strictly (larger means >, smaller means <), and an occupation query for a filter never returns the count cached for a different filter; occupation is count divided by the total number of elements.",
 ["histories","inputs"],"all query orders, filters and bounds",
 "Needs specific query histories with different filters or boundary values.",
 [C+"NormPolicy.h",C+"OccupationPolicy.h",C+"AbsoluteValueRangeChecker.h",C+"ZeroMatrix.h"],
 [("isNormUpToDate_","NormPolicy.h"),("nbDesiredElementsMap_","OccupationPolicy.h")])
prop("P16","Dynamic dispatch reaches the handler of the object's own type",
 "Type lists report position, type and size consistently with their declaration order; every dynamic matrix carries the index of its own type, and the one- and two-argument dynamic dispatchers call the handler instantiated for exactly the dynamic types of their arguments, in order.  Asking a dynamic matrix for its rows, columns, size, norm, or whether its norm exceeds a bound gives exactly the answer of the object it holds.",
 ["programs","inputs"],"all types of the dynamic type list, all pairs",
 "36 pairs of types times several dispatchers; tests use a few, and a transposed table is invisible for symmetric cases.",
 [U+"TypeList.h",U+"exec_dyn.h",U+"exec_dyn_2dim.h",U+"exec_if.h",U+"exec_if_2dim.h",U+"TypeChecker.h",C+"DynamicMatrixTypeList.h",C+"DynamicMatrixFunctions.h"],
 [("DynFuncGenerator tables","exec_dyn.h, exec_dyn_2dim.h"),("typeIndex_","DenseMatrix.h, SparseMatrix.h, ZeroMatrix.h, MultipleMatrix.h")])
prop("P17","Result types of matrix expressions stay inside the dynamic type list",
 "For every pair of dynamic matrix types, the result of adding, subtracting or multiplying them is again a type in the dynamic type list (so it can be stored, dispatched and converted), with the wider element type and the denser representation of the two for sums, zero absorbing in products.",
 ["programs"],"all ordered pairs of types in the dynamic type list and all three operations",
 "Each pair is a separate compile-time computation; tests instantiate few.",
 [C+"DynamicMatrixTypeList.h",C+"BinaryFunctors.h",C+"MatrixMultExp.h",C+"Multiplication_Native.h"],
 [("operator +,-,* tag functions","BinaryFunctors.h, Multiplication*.h"),("DynamicMatrixTypeList","DynamicMatrixTypeList.h")])
prop("P18","Every tracked kernel is counted once, under its own name",
 "When tracking is enabled, each execution of a tracked kernel adds exactly one call and its elapsed time to the slot of that kernel and to no other, whichever way the kernel is left; every slot has a unique printable name that maps back to it, and the report shows exactly the slots that were used with their own count and time.",
 ["programs","histories"],"all kernels and all exits",
 "Tests never look at the tracker; a swapped id or name is invisible to numerical results.",
 [U+"Tracker.h","src/Utilities/tracker.cpp",U+"EnumParser.h",C+"Multiplication_Native.h",C+"Multiplication_OpenBLAS.h",C+"Multiplication_Eigen.h",C+"Multiplication_IntelMKL.h",C+"Multiplication_Blaze.h",C+"BlockSizeGenerator.h"],
 [("Tracker<ID> RAII","Tracker.h"),("EnumParser<TrackerID>","Tracker.h")])
prop("P19","Blocking partitions the matrix completely and without overlap",
 "The block sizes computed for a dimension are positive, add up to exactly that dimension, and no block that is divided leaves a part below the smallest block size; cutting a matrix into blocks by any two lists of sizes and joining the blocks again places every element at its original position; multiplying blocked matrices puts at block (i, j) exactly the sum of the products A(i, k) * B(k, j). The tables of block types, shapes and norms list every block at its own position, and the type counts count each block once from zero.",
 ["inputs"],"all dimensions, block size bounds and contents",
 "Remainders and degenerate bounds need specific dimensions; tests use one or two.",
 [C+"BlockSizeGenerator.h",C+"BlockedMatrixGenerator.h",C+"BlockedMatrix.h",C+"DenseMatrix.h",C+"GenerateTypeMatrix.h"],
 [("getEqualBlockSizes / get_block_size","BlockSizeGenerator.h"),("BlockedMatrixGenerator","BlockedMatrixGenerator.h")])
prop("P20","File errors are reported and existing files are not overwritten unasked",
 "Reading settings or a matrix from a missing file fails with an exception before anything is read, writing with overwrite disabled onto an existing file fails with an exception before the file is touched, and what is read or written is the object and name the caller gave. A matrix file whose contents do not fit its header is rejected rather than partly read.",
 ["inputs","fault_sequences"],"all file states, settings and both formats",
 "Tests cover the happy path; missing/existing file combinations for each of the functions are not run.",
 [U+"FileIO.h",C+"MatrixFileIO.h",C+"MatrixIO.h",C+"DenseMatrix.h",H+"MatrixFactory/MatrixFileImporter.h"],
 [("readXML/writeXML/readBinary/writeBinary","FileIO.h"),("load/save","MatrixFileIO.h")])
prop("P21","Errors the code detects are actually raised",
 "Whenever a code path detects an error and builds an exception object for it, that exception is thrown; no detected error is constructed and then dropped, and no error-returning path continues as though nothing had happened.",
 ["inputs","configurations"],"all error-detecting statements of the library and its tools",
 "Tests never enter most error branches, and the benchmark and analyzer tools are not built by the test build.",
 ["include/BlasBooster","src"],[("throw expressions","all headers and sources")])
prop("P22","Saving and loading use the same fields in the same order",
 "For every serialisable class, loading reads the same sequence of fields that saving writes, and a loaded object owns storage of exactly the stored length, so a saved object can be restored field by field.",
 ["inputs","programs"],"all serialisable classes and contents",
 "Serialisation of most classes is never exercised by the tests (the binary is not built).",
 [C+"Storage.h",C+"SparseStorage.h",C+"Dimension.h",C+"DenseMatrix.h",C+"SparseMatrix.h",U+"BoostSerializePath.h"],
 [("serialize/save/load","Storage.h, SparseStorage.h, Dimension.h, ...")])
prop("P23","Small utilities honour their contracts",
 "An enum parser registers a name and an enumerator together so that lookup in either direction returns the partner; approximate equality accepts exactly values whose distance is at most the larger of the two types' accuracies; ranges iterate from their begin to their end; a scoped timer reports its label and the time elapsed since its construction exactly once.",
 ["inputs"],"all names, enumerators, values, ranges and labels",
 "Each is used incidentally with one or two values.",
 [U+"EnumParser.h",U+"EqualWithinNumericalAccuracy.h",U+"range.h",U+"ScopedTimer.h"],
 [("map / operator()","EnumParser.h"),("equalWithinNumericalAccuracy","EqualWithinNumericalAccuracy.h")])
prop("P24","Fillers write every element exactly as specified",
 "Filling a matrix sets every element, and only elements of that matrix, to the value the filler defines (a constant everywhere, the constant on the diagonal and zero elsewhere, or the given data in storage order).",
 ["inputs"],"all shapes, orientations and fill values",
 "Square shapes and fresh buffers hide missed elements and transposed positions.",
 [C+"MatrixFiller.h",C+"DenseMatrix.h",C+"Storage.h"],
 [("AllFiller, DiagonalFiller, RandomFiller, ...","MatrixFiller.h")])
prop("P25","Generated matrices have the requested shape and follow from the settings alone",
 "A matrix generator delivers a matrix of the requested shape whose every element is plus or minus ten to the power of minus a number drawn anew, for that element, from the requested range of exponents; the numbers come from an engine made for that call from the seed of the settings and from nothing else, so the same settings give the same matrix every time.",
 ["inputs","histories"],"all shapes, seeds and ranges, any number of calls before",
 "A test sees one sequence; a missed element, a shared engine or another source of numbers shows only for other shapes, seeds or call sequences.",
 ["src/MatrixFactory/MatrixGenerator.cpp",H+"MatrixFactory/MatrixGenerator.h",H+"MatrixFactory/MatrixFactory.h"],
 [("MatrixGenerator::operator()","MatrixGenerator.cpp"),("MatrixGenerator","MatrixGenerator.h")])
prop("P26","Automatic conversion takes the first representation the thresholds admit",
 "A representation is admissible for a matrix exactly if the share of its elements above the significance threshold of double precision is not larger than that representation's occupation threshold for double precision, and likewise for single precision; the automatic conversion of a matrix yields, made from that matrix with those thresholds, the first admissible of: zero, sparse single, dense single, sparse double, sparse double with sparse single, sparse double with dense single, dense double.",
 ["inputs","configurations"],"all matrices and all threshold settings",
 "Seven representations with two thresholds each: tests try two matrices with one table of thresholds.",
 [C+"MatrixConverter.h",C+"DynamicMatrixTypeList.h",C+"Threshold.h",C+"OccupationPolicy.h",H+"Utilities/exec_if.h"],
 [("IsConvertible, MatrixConverter::operator()","MatrixConverter.h"),("exec_if_impl","exec_if.h"),("getOccupation","OccupationPolicy.h")])
# not applicable (recorded so that the scope is explicit)
prop("P30","The chosen mixed-precision representation keeps the error within the threshold",
 "For every input, the product computed with automatically chosen representations and precisions deviates from the double-precision product by no more than the configured significance threshold implies.",
 ["inputs"],"all matrices and threshold settings",
 "A bound over all inputs; tests sample a few matrices.",
 [C+"BlockedMatrixGenerator.h",C+"MatrixConverter.h",C+"Threshold.h"],[("threshold classification","MatrixConverter.h")])
prop("P31","Automatic block sizes and methods are never slower than the plain product",
 "Choosing block sizes and methods automatically does not make a multiplication slower than the plain back-end call.",
 ["inputs","configurations"],"all matrices and machines","Timing depends on the machine and inputs.",
 [C+"BlockSizeGenerator.h",C+"Multiplication_TheBestPolicy.h"],[("detection arrays","BlockSizeGenerator.h")])
prop("P32","Generated matrices fit the requested distribution",
 "The occupation and the distribution of the magnitudes of generated matrices are those requested.",
 ["inputs","configurations"],"all seeds and settings","Distributional statement over all seeds.",
 [H+"MatrixFactory/MatrixGenerator.h",C+"MatrixFiller.h"],[("RandomFiller","MatrixFiller.h")])
prop("P33","Concurrent use from several threads is safe",
 "Concurrent multiplications and queries on distinct or shared constant matrices neither race nor corrupt caches or tracker counts.",
 ["schedules"],"all schedules","The tests are single-threaded.",
 [U+"Tracker.h",C+"NormPolicy.h",C+"OccupationPolicy.h"],[("no synchronisation exists","Tracker.h")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
