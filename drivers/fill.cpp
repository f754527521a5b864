// Filling matrices: what every element is afterwards.
#include "vp.h"
#include "BlasBooster/Core/MatrixFiller.h"
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> SubP; typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> SubPr;
#define DENSE(N, T, V) \
DRV drv_fill_##N##_fill(T& A, V v) { probe("A", A); A.fill(v); probe("C", A); } \
DRV drv_fill_##N##_all(T& A, V v) { probe("A", A); AllFiller<V> f(v); f(A); probe("C", A); } \
DRV drv_fill_##N##_assign(T& A, V v) { probe("A", A); A = v; probe("C", A); } \
DRV drv_fill_##N##_number(T& A) { probe("A", A); ContinuousNumberFiller f; f(A); probe("C", A); } \
DRV drv_fill_##N##_hilbert(T& A) { probe("A", A); HilbertFiller f; f(A); probe("C", A); } \
DRV drv_fill_##N##_diagonal(T& A, V v) { if (A.getNbRows() != A.getNbColumns()) return; probe("A", A); DiagonalFiller<V> f(v); f(A); probe("C", A); } \
DRV drv_fill_##N##_ctor(size_t r, size_t c, V v) { T A(r, c, AllFiller<V>(v)); probe("C", A); } \
DRV drv_fill_##N##_resize(T& A, size_t r, size_t c, V v) { A.resize(r, c, AllFiller<V>(v)); probe("C", A); } \
DRV drv_fill_##N##_zero(T& A, ZZ const& Z) { probe("Z", Z); T C(Z); probe("C", C); }
#define SUB(N, M, T, X, V) \
DRV drv_fill_##N##_all(M& PA, size_t m, size_t n, size_t r, size_t c, V v) { probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); AllFiller<V> f(v); f(A); } \
DRV drv_fill_##N##_assign(M& PA, size_t m, size_t n, size_t r, size_t c, V v) { probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); A = v; } \
DRV drv_fill_##N##_diagonal(M& PA, size_t m, size_t n, size_t r, size_t c, V v) { if (m != n) return; probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); DiagonalFiller<V> f(v); f(A); } \
DRV drv_fill_##N##_hilbert(M& PA, size_t m, size_t n, size_t r, size_t c) { probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); HilbertFiller f; f(A); }
#define SPARSE(N, T, V) \
DRV drv_fill_##N##_all(T& A, V v) { probe("A", A); AllFiller<V> f(v); f(A); probe("C", A); } \
DRV drv_fill_##N##_ctor(size_t r, size_t c, size_t k, V v) { T A(r, c, k, AllFiller<V>(v)); probe("C", A); } \
DRV drv_fill_##N##_number(T& A) { probe("A", A); ContinuousNumberFiller f; f(A); probe("C", A); }
DENSE(dd, DD, double)
DENSE(df, DF, float)
DENSE(ddr, DDr, double)
SPARSE(sd, SD, double)
SPARSE(sf, SF, float)
DRV drv_fill_dd_list(std::initializer_list<std::initializer_list<double>> const& l) { vp_probe("L", l.size(), l.begin()->size()); DD C(l); probe("C", C); }
DRV drv_fill_ddr_list(std::initializer_list<std::initializer_list<double>> const& l) { vp_probe("L", l.size(), l.begin()->size()); DDr C(l); probe("C", C); }
#ifdef PARTSUB
SUB(sub, DD, double, SubP, double)
SUB(subf, DF, float, SubP, float)
SUB(subr, DDr, double, SubPr, double)
#endif
