known("K-P08-rowmajor-sparse", "P08", r"drv_mul_(ddr_sdr_ddr:content|sdr_ddr_ddr:content|sdr_sdr_sdr:(lines|line length|append [vk] position|nnz|nk))",
      "native products with a row-major sparse operand treat its lines (rows) as columns: Multiplication_Native.h, Sparse*Sparse, Sparse*Dense, Dense*Sparse")
fixed("P01", "3a28e8d", "complex dot products of OpenBLAS used the wrong calling convention")
fixed("P06", "dbb68f5", "sparse-dense and zero-matrix differences had the wrong sign")
fixed("P07", "e4c3d52", "MultipleMatrix -, += and -= combined the halves wrongly")
fixed("P14", "fcd7223", "one-norm of a MultipleMatrix and norms of a zero matrix")
fixed("P14", "fe60c3b", "max-norm lost precision in float")
fixed("P13", "48cf902", "SparseStorage::shrink kept a wrong number of elements")
fixed("P05", "90533a7", "copy assignment of a fixed SparseStorage")
fixed("P13", "e0817cc", "offset list of row-major sparse matrices had the wrong length")
fixed("P04", "0cc2615", "swap did not exchange every field")
fixed("P04", "9c56f3a", "move constructor and resize of blocked matrices")
fixed("P04", "32dc7b0", "resize of a zero matrix")
fixed("P15", "ed70ce9", "norm and occupation caches survived changes of the matrix")
fixed("P05", "93aa01e", "the copy constructor of Storage did not own its memory")
fixed("P05", "f03b925", "assignment of fixed Storage")
fixed("P05", "b7428d1", "self-move released the own buffer")
fixed("P05", "3365a8f", "a failed allocation or load left a dangling buffer")
fixed("P06", "05fd7a9", "dense += sparse scattered row-major elements to the wrong place")
fixed("P10", "69575c4", "conversions ignored the value filter; transpose of an empty sparse matrix")
fixed("P08", "db52a8c", "row-major sub-matrices and products")
fixed("P03", "fa85b86", "end() of an empty sub-matrix")
fixed("P11", "2da7a36", "zero float threshold")
fixed("P12", "91df0b1", "filter ordering was not a strict weak ordering")
fixed("P21", "371cfca", "runtime_errors were constructed but not thrown")
fixed("P02", "bfaa08d", "sparse product of Intel MKL got wrong arguments")
fixed("P10", "702804a", "conversion from dense row-major to sparse")
fixed("P06", "ca7e8bc", "sums of matrices with external memory released that memory")
fixed("P20", "c24c227", "a truncated matrix file was partly read without an error, and the matrix was resized before its header was checked")
fixed("P19", "a06c9e8", "block size generation used uninitialised indices when no block could be divided")
fixed("P18", "eabe3af", "products of row-major dense matrices were not counted")
fixed("P22", "5468f12", "loading a fixed-size storage that uses external memory claimed ownership of that memory")
fixed("P15", "41731d5", "loading a dense matrix kept the cached norm and occupation of the old content")
known("P02-row-major", "P02", r"(openblas|intelmkl|eigen|blaze):gemm_row_(dd|ff|fd|df):order",
      "products of row-major dense matrices delegated to OpenBLAS, Intel MKL, Eigen or Blaze are computed as if the operands were column-major")
known("K-P13-rowmajor-sparse", "P13", r"drv_mul_sdr_sdr_sdr:(lines|append [vk] position|nnz|nk)$",
      "the native product of row-major sparse matrices treats their lines (rows) as columns, so the lines of the result are not the product's rows: Multiplication_Native.h, Sparse*Sparse")
fixed("P05", "ba66c6b", "a fixed-size storage on the heap leaked its memory when its initializer-list or conversion constructor threw")
fixed("P05", "f45edff", "loading a storage that uses external memory leaked the new buffer when reading an element failed")
fixed("P04", "477fd7e", "resizing a dense matrix with external memory changed its shape before refusing")
fixed("P03", "0bcb41c", "stepping a sub-matrix iterator back from end() left the sub-matrix or lost its line")
fixed("P03", "f7005f2", "reverse iteration over an empty sub-matrix never ended")
fixed("P15", "647345c", "assigning a value to all elements kept the cached norm and counts")
fixed("P15", "9d0f08e", "adding to or subtracting from a dense matrix kept the cached norm and counts")
fixed("P07", "7b6e545", "resetting a multiple matrix to halves of different shape took them over before refusing")
fixed("P19", "0642252", "block types were counted starting from uninitialised memory")
