// Products delegated to an external back end: the back end's entry points are recording stand-ins.
#include "vp.h"
#define DD2(N, M1, T1, M2, T2, T3, P, I) \
DRV drv_gemm_##N(Matrix<M1,T1,P> const& A, Matrix<M2,T2,P> const& B, Matrix<Dense,T3,P>& C) { probe("A", A); probe("B", B); probe("C0", C); \
    MultiplicationFunctor<M1,T1,P,M2,T2,P,Dense,T3,P,I>()(A, B, C); probe("C", C); probe("A2", A); probe("B2", B); }
#define GEMM(I, G, T) void BlasInterface<I, G>::operator()(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* al, const T* a, const int* la, const T* b, const int* lb, const T* be, T* c, const int* lc) const \
    { vp_probe("gemm", (int)*ta, (int)*tb, *m, *n, *k, *al, a, *la, b, *lb, *be, c, *lc, (int)sizeof(T)); }
#if defined(EIGEN) || defined(BLAZE)
extern "C" void vp_backend(const char* what, std::size_t elemC, void* C, std::size_t rowsC, std::size_t columnsC, std::size_t ldC,
    std::size_t elemA, const void* A, std::size_t rowsA, std::size_t columnsA, std::size_t ldA,
    std::size_t elemB, const void* B, std::size_t rowsB, std::size_t columnsB, std::size_t ldB)
{ vp_probe("mul", what, elemC, C, rowsC, columnsC, ldC, elemA, A, rowsA, columnsA, ldA, elemB, B, rowsB, columnsB, ldB); }
#endif
#ifdef OPENBLAS
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
namespace BlasBooster { GEMM(OpenBLAS, dgemm, double) GEMM(OpenBLAS, sgemm, float) }
#define I OpenBLAS
#elif defined(INTELMKL)
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
namespace BlasBooster { GEMM(IntelMKL, dgemm, double) GEMM(IntelMKL, sgemm, float) }
#define I IntelMKL
#elif defined(EIGEN)
#include "BlasBooster/Core/Multiplication_Eigen.h"
#define I EigenI
#elif defined(BLAZE)
#include "BlasBooster/Core/Multiplication_Blaze.h"
#define I Blaze
#endif
#ifdef BEST
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#undef I
#define I TheBestPolicy
#endif
DD2(dd, Dense, double, Dense, double, double, ColP, I)
DD2(ff, Dense, float, Dense, float, float, ColP, I)
DD2(row_dd, Dense, double, Dense, double, double, RowP, I)
DD2(row_ff, Dense, float, Dense, float, float, RowP, I)
#if defined(EIGEN) || defined(BLAZE) || defined(BEST)
DD2(fd, Dense, float, Dense, double, double, ColP, I)
DD2(df, Dense, double, Dense, float, double, ColP, I)
DD2(row_fd, Dense, float, Dense, double, double, RowP, I)
DD2(row_df, Dense, double, Dense, float, double, RowP, I)
#endif
#ifdef INTELMKL
namespace BlasBooster {
#define CSRMM(G, T) void BlasInterface<IntelMKL, G>::operator()(const char* ta, const int* m, const int* n, const int* k, const T* al, const char* d, const T* v, const int* key, const int* ob, const int* oe, const T* b, const int* lb, const T* be, T* c, const int* lc) const \
    { vp_probe("csrmm", (int)*ta, *m, *n, *k, *al, (int)d[0], (int)d[3], v, key, ob, oe, b, *lb, *be, c, *lc); }
CSRMM(dcsrmm, double) CSRMM(scsrmm, float) }
#define SD2(N, T, P) \
DRV drv_csrmm_##N(Matrix<Sparse,T,P> const& A, Matrix<Dense,T,P> const& B, Matrix<Dense,T,P>& C) { probe("A", A); probe("B", B); probe("C0", C); \
    MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,I>()(A, B, C); probe("C", C); probe("A2", A); probe("B2", B); }
SD2(d, double, ColP)
SD2(f, float, ColP)
namespace BlasBooster {
#define CSRMUL(G, T) void BlasInterface<IntelMKL, G>::operator()(const char* ta, const int* rq, const int* sort, const int* m, const int* n, const int* k, T* a, int* ka, int* oa, T* b, int* kb, int* ob, T* c, int* kc, int* oc, const int* nz, int* info) const \
    { vp_probe("csrmul", (int)*ta, *rq, *m, *n, *k, a, ka, oa, b, kb, ob, c, kc, oc, *nz, info, (size_t)1, (size_t)1, (size_t)1); }
CSRMUL(dcsrmultcsr, double) CSRMUL(scsrmultcsr, float) }
#define SS2(N, T, P) \
DRV drv_csrmul_##N(Matrix<Sparse,T,P> const& A, Matrix<Sparse,T,P> const& B, Matrix<Sparse,T,P>& C) { probe("A", A); probe("B", B); \
    MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,I>()(A, B, C); probe("A2", A); probe("B2", B); }
SS2(d, double, ColP)
SS2(f, float, ColP)
#endif
#ifdef SUBS
// sub-matrices of larger matrices
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> XP;
#define SUB3(N, TA, TB, T) \
DRV drv_sub_##N(Matrix<Dense,TA> const& PA, Matrix<Dense,TB> const& PB, Matrix<Dense,T>& PC, size_t m, size_t k, size_t n, size_t ar, size_t ac, size_t br, size_t bc, size_t cr, size_t cc) { \
    probe("PA", PA); probe("PB", PB); probe("PC", PC); \
    Matrix<Dense,TA,XP> A(PA, m, k, ar, ac); Matrix<Dense,TB,XP> B(PB, k, n, br, bc); Matrix<Dense,T,XP> C(PC, m, n, cr, cc); \
    MultiplicationFunctor<Dense,TA,XP,Dense,TB,XP,Dense,T,XP,I>()(A, B, C); vp_probe("end", (size_t)1); }
SUB3(dd, double, double, double)
SUB3(ff, float, float, float)
#endif
