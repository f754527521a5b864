// Whole-matrix algebra: every elementary operation of two plain matrices is replaced by a recording one that keeps a
// matrix's formal value in its row count and its formal shape in its column count (needs -fno-access-control).
#include <sys/single_threaded.h>
static const char vp_single = 1;                       // reference counts are counted plainly
#define __libc_single_threaded vp_single
#include "vp.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
extern "C" size_t vp_times(size_t, size_t) noexcept __attribute__((const));
extern "C" size_t vp_shape(size_t, size_t) noexcept __attribute__((const));
extern "C" double vp_norm(int, size_t) noexcept __attribute__((const));
struct Rec {};
namespace BlasBooster {
#define ELEM(M1, T1, M2, T2) PM(Plus, +, M1, T1, M2, T2) PM(Minus, -, M1, T1, M2, T2)
#define PM(OP, S, M1, T1, M2, T2) \
template <> struct BinaryOperationFunctor<OP, M1, T1, ColP, M2, T2, ColP, decltype(M1() S M2()), decltype(T1() S T2()), ColP> { \
    void operator()(Matrix<M1, T1> const& A, Matrix<M2, T2> const& B, Matrix<decltype(M1() S M2()), decltype(T1() S T2())>& C) const \
    { static_cast<ColP::dimension&>(C).resize(A.getNbRows() S B.getNbRows(), A.getNbColumns()); } }; \
template <> struct BinaryAssignmentOperationFunctor<OP, M1, T1, ColP, M2, T2, ColP> { \
    void operator()(Matrix<M1, T1>& A, Matrix<M2, T2> const& B) const { static_cast<ColP::dimension&>(A).resize(A.getNbRows() S B.getNbRows(), A.getNbColumns()); } };
#define ELEMS(M, T) ELEM(M, T, Zero, NullType) ELEM(M, T, Sparse, float) ELEM(M, T, Sparse, double) ELEM(M, T, Dense, float) ELEM(M, T, Dense, double)
ELEMS(Zero, NullType) ELEMS(Sparse, float) ELEMS(Sparse, double) ELEMS(Dense, float) ELEMS(Dense, double)
#define NORM(K, N, M, T) template <> struct NormFunctor<N, Matrix<M, T>> { double operator()(Matrix<M, T> const& m) const { return vp_norm(K, m.getNbRows()); } };
#define NORMS(M, T) NORM(1, NormOne, M, T) NORM(2, NormTwo, M, T) NORM(3, NormMax, M, T)
NORMS(Sparse, float) NORMS(Sparse, double) NORMS(Dense, float) NORMS(Dense, double)
template <class M1, class T1, class M2, class T2, class M3, class T3> struct MultiplicationFunctor<M1, T1, ColP, M2, T2, ColP, M3, T3, ColP, Rec> {
    void operator()(Matrix<M1, T1> const& A, Matrix<M2, T2> const& B, Matrix<M3, T3>& C) const
    { static_cast<ColP::dimension&>(C).resize(vp_times(A.getNbRows(), B.getNbRows()), vp_shape(A.getNbColumns(), B.getNbColumns())); } };
}
typedef MultipleMatrix<SD, SF> MS; typedef MultipleMatrix<SD, DF> MD;
template <class T> struct Mk { typedef T X1; typedef T X2; static T& of(T& a, T&) { return a; }
    static void see(const char* t, T const& m) { vp_probe(t, m.getNbRows(), (size_t)0, m.getNbColumns(), m.getNbColumns(), (size_t)0, (size_t)0, (size_t)0); } };
template <class A, class B> struct Mk<MultipleMatrix<A, B>> { typedef A X1; typedef B X2;
    static MultipleMatrix<A, B> of(A& a, B& b) { return MultipleMatrix<A, B>(std::shared_ptr<A>(std::shared_ptr<A>(), &a), std::shared_ptr<B>(std::shared_ptr<B>(), &b)); }
    static void see(const char* t, MultipleMatrix<A, B> const& m) { auto& a = m.getMatrix1(); auto& b = m.getMatrix2(); vp_probe(t, a.getNbRows(), b.getNbRows(), a.getNbColumns(), b.getNbColumns(), (size_t)0, (size_t)0, (size_t)0); } };
template <class T> void see(const char* t, T const& m) { Mk<T>::see(t, m); }
#define BIN(N, TA, TB, ...) DRV drv_##N(Mk<TA>::X1& A1, Mk<TA>::X2& A2, Mk<TB>::X1& B1, Mk<TB>::X2& B2) { \
    auto&& A = Mk<TA>::of(A1, A2); auto&& B = Mk<TB>::of(B1, B2); see("A", A); see("B", B); __VA_ARGS__; see("A2", A); see("B2", B); }
#define SUM(a_, TA, b_, TB) BIN(add_##a_##_##b_, TA, TB, auto C = A + B; see("C", C)) BIN(sub_##a_##_##b_, TA, TB, auto C = A - B; see("C", C))
#define ASG(a_, TA, b_, TB) BIN(ads_##a_##_##b_, TA, TB, auto& C = (A += B); see("C", C); vp_probe("same", &C == &A)) BIN(sus_##a_##_##b_, TA, TB, auto& C = (A -= B); see("C", C); vp_probe("same", &C == &A))
#define MUL(a_, TA, b_, TB) BIN(mul_##a_##_##b_, TA, TB, auto C = (A * B).template execute<Rec>(); see("C", C))
#define ALL(X, A, TA) X(A, TA, zz, ZZ) X(A, TA, sf, SF) X(A, TA, sd, SD) X(A, TA, df, DF) X(A, TA, dd, DD)
#define MUL2(X, A, TA) X(A, TA, ms, MS) X(A, TA, md, MD)
#ifdef PARTSUMS
MUL2(SUM, zz, ZZ) MUL2(SUM, sf, SF) MUL2(SUM, sd, SD) MUL2(SUM, df, DF) MUL2(SUM, dd, DD) ALL(SUM, ms, MS) ALL(SUM, md, MD) MUL2(SUM, ms, MS) MUL2(SUM, md, MD)
#endif
#ifdef PARTASSIGN
MUL2(ASG, zz, ZZ) MUL2(ASG, sf, SF) MUL2(ASG, sd, SD) MUL2(ASG, df, DF) MUL2(ASG, dd, DD) ALL(ASG, ms, MS) ALL(ASG, md, MD) MUL2(ASG, ms, MS) MUL2(ASG, md, MD)
#endif
#ifdef PARTMUL
ALL(MUL, zz, ZZ) ALL(MUL, sf, SF) ALL(MUL, sd, SD) ALL(MUL, df, DF) ALL(MUL, dd, DD)
MUL2(MUL, zz, ZZ) MUL2(MUL, sf, SF) MUL2(MUL, sd, SD) MUL2(MUL, df, DF) MUL2(MUL, dd, DD) ALL(MUL, ms, MS) ALL(MUL, md, MD) MUL2(MUL, ms, MS) MUL2(MUL, md, MD)
#endif
#define UN(N, TA, WHAT) DRV drv_##N(Mk<TA>::X1& A1, Mk<TA>::X2& A2) { auto&& A = Mk<TA>::of(A1, A2); see("A", A); WHAT; see("A2", A); }
#ifdef PARTONE
#define NRM(a_, TA) UN(norm1_##a_, TA, vp_probe("n", norm<NormOne>(A))) UN(norm2_##a_, TA, vp_probe("n", norm<NormTwo>(A))) UN(normx_##a_, TA, vp_probe("n", norm<NormMax>(A)))
NRM(ms, MS) NRM(md, MD)
#define CNV(a_, TA, T, TC) UN(conv_##a_##_##T, TA, TC C(A); see("C", C))
CNV(ms, MS, dd, DD) CNV(ms, MS, df, DF) CNV(md, MD, dd, DD) CNV(md, MD, df, DF)
#define SHP(a_, TA) UN(shape_##a_, TA, vp_probe("s", A.getNbRows(), A.getNbColumns(), A.getSize(), &A.getMatrix1() == &A1, &A.getMatrix2() == &A2))
SHP(ms, MS) SHP(md, MD)
#endif
#ifdef PARTBUILD
#define CTR(a_, TA) DRV drv_ctor_##a_(Mk<TA>::X1& A1, Mk<TA>::X2& A2) { see("A1", A1); see("A2", A2); \
    TA M(std::shared_ptr<Mk<TA>::X1>(std::shared_ptr<Mk<TA>::X1>(), &A1), std::shared_ptr<Mk<TA>::X2>(std::shared_ptr<Mk<TA>::X2>(), &A2)); vp_probe("m", &M.getMatrix1() == &A1, &M.getMatrix2() == &A2); } \
DRV drv_reset_##a_(TA& M, Mk<TA>::X1& A1, Mk<TA>::X2& A2) { see("A1", A1); see("A2", A2); \
    std::shared_ptr<Mk<TA>::X1> p(std::shared_ptr<Mk<TA>::X1>(), &A1); std::shared_ptr<Mk<TA>::X2> q(std::shared_ptr<Mk<TA>::X2>(), &A2); vp_probe("go", 0); \
    M.reset(p, q); vp_probe("m", &M.getMatrix1() == &A1, &M.getMatrix2() == &A2); }
CTR(ms, MS) CTR(md, MD)
#endif
#ifdef PARTDYN
template <class T> DynamicMatrix dyn(T& m) { return DynamicMatrix(std::shared_ptr<MatrixBase>(), &m); }
template <class A, class B> using RecMult = DynamicMultFunctor<Rec, A, B>;
#define DYN(N, F, a_, TA, b_, TB, R) BIN(dyn##N##_##a_##_##b_, TA, TB, auto pa = dyn(A); auto pb = dyn(B); DynamicMatrix pc = F<TA, TB>()(pa, pb); typedef R ResultType; see("C", static_cast<ResultType&>(*pc)))
#define DOP(a_, TA, b_, TB) \
    DYN(add, DynamicAddFunctor, a_, TA, b_, TB, decltype(A + B)) DYN(sub, DynamicSubFunctor, a_, TA, b_, TB, decltype(A - B)) \
    DYN(mul, RecMult, a_, TA, b_, TB, decltype((A * B).template execute<Rec>())) \
    DYN(ads, DynamicAddAssignFunctor, a_, TA, b_, TB, TA) DYN(sus, DynamicSubAssignFunctor, a_, TA, b_, TB, TA)
ALL(DOP, DA, DTA) MUL2(DOP, DA, DTA)
#endif
#ifdef PARTCHAIN
#define TRI(N, TA, TB, TC, ...) DRV drv_chain_##N(Mk<TA>::X1& A1, Mk<TA>::X2& A2, Mk<TB>::X1& B1, Mk<TB>::X2& B2, Mk<TC>::X1& E1, Mk<TC>::X2& E2) { \
    auto&& A = Mk<TA>::of(A1, A2); auto&& B = Mk<TB>::of(B1, B2); auto&& E = Mk<TC>::of(E1, E2); see("A", A); see("B", B); see("E", E); __VA_ARGS__; see("C", C); see("A2", A); see("B2", B); see("E2", E); }
#define CHN(a_, TA, b_, TB, c_, TC) TRI(l_##a_##_##b_##_##c_, TA, TB, TC, auto C = ((A * B).template execute<Rec>() * E).template execute<Rec>()) \
    TRI(r_##a_##_##b_##_##c_, TA, TB, TC, auto C = (A * (B * E).template execute<Rec>()).template execute<Rec>())
CHN(dd, DD, dd, DD, dd, DD) CHN(sd, SD, df, DF, sf, SF) CHN(zz, ZZ, sd, SD, dd, DD) CHN(sf, SF, sf, SF, sd, SD)
CHN(ms, MS, dd, DD, sd, SD) CHN(dd, DD, ms, MS, df, DF) CHN(sf, SF, dd, DD, md, MD) CHN(ms, MS, ms, MS, sd, SD) CHN(md, MD, ms, MS, md, MD)
#endif
