// Element access: call operator, cursors, iterators.
#include "vp.h"
#include "BlasBooster/Core/Cursor.h"
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> SubP; typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> SubPr;
template <class M, class D1, class D2, class V> inline void cursors(M& A, size_t k, size_t t, V v)
{
    typedef Cursor<M, D1> O; typedef Cursor<O, D2> I;
    O o(A, k); vp_probe("o", *o, o.begin(), o.end(), 0);
    O p(A, k); ++p; vp_probe("o1", *p, p.begin()); --p; vp_probe("o2", *p, p.begin(), (size_t)(p == o), (size_t)(p != o));
    I x(A, o.begin()); vp_probe("i", &*x, &x[t]);
    ++x; vp_probe("i1", &*x); --x; vp_probe("i2", &*x);
    I c(A, o.begin()), e(A, o.end());
    for ( ; c != e; ++c) *c = v;
}
template <class M, class D1, class D2> inline void ccursors(M const& A, size_t k, size_t t)
{
    typedef Cursor<const M, D1> O; typedef Cursor<O, D2> I;
    O o(A, k); vp_probe("o", *o, o.begin(), o.end(), 0);
    O p(A, k); ++p; vp_probe("o1", *p, p.begin()); --p; vp_probe("o2", *p, p.begin(), (size_t)(p == o), (size_t)(p != o));
    I x(A, o.begin()); vp_probe("i", &*x, &x[t]);
    ++x; vp_probe("i1", &*x); --x; vp_probe("i2", &*x);
}
template <class M> inline void iters(M& A, size_t) { auto b = A.begin(); auto e = A.end(); vp_probe("it", &*b, &*e); }
template <class I> inline void fields(const char* tag, I const& i) { vp_probe(tag, i.iter_, i.position_, i.block_, i.continuousSizeMinus1_, i.separatorSizePlus1_, i.nbBlocks_, 0); }
template <class S> inline void striped(S& A, S const& cA)
{
    fields("b", A.begin()); fields("e", A.end()); fields("rb", A.rbegin()); fields("re", A.rend());
    fields("cb", cA.begin()); fields("ce", cA.end()); fields("crb", cA.rbegin()); fields("cre", cA.rend());
    typename S::const_iterator q(A.begin()); fields("q", q);
}
using Direction::Row; using Direction::Column; using Direction::Major; using Direction::Minor;
#define ACCESS(N, PRE, M, V) \
DRV drv_acc_##N##_at(PRE##ARG(M), size_t i, size_t j) { PRE##MK(M); M const& cA = A; vp_probe("e", &A(i, j), &cA(i, j), A.getDataPointer(), cA.getDataPointer(), A.getLdRows(), A.getLdColumns(), 0); } \
DRV drv_acc_##N##_rc(PRE##ARG(M), size_t k, size_t t, V v) { PRE##MK(M); cursors<M, Row, Column>(A, k, t, v); } \
DRV drv_acc_##N##_cr(PRE##ARG(M), size_t k, size_t t, V v) { PRE##MK(M); cursors<M, Column, Row>(A, k, t, v); } \
DRV drv_acc_##N##_jn(PRE##ARG(M), size_t k, size_t t, V v) { PRE##MK(M); cursors<M, Major, Minor>(A, k, t, v); } \
DRV drv_acc_##N##_nj(PRE##ARG(M), size_t k, size_t t, V v) { PRE##MK(M); cursors<M, Minor, Major>(A, k, t, v); } \
DRV drv_acc_##N##_crc(PRE##ARG(M), size_t k, size_t t) { PRE##MK(M); ccursors<M, Row, Column>(A, k, t); } \
DRV drv_acc_##N##_ccr(PRE##ARG(M), size_t k, size_t t) { PRE##MK(M); ccursors<M, Column, Row>(A, k, t); } \
DRV drv_acc_##N##_cjn(PRE##ARG(M), size_t k, size_t t) { PRE##MK(M); ccursors<M, Major, Minor>(A, k, t); } \
DRV drv_acc_##N##_cnj(PRE##ARG(M), size_t k, size_t t) { PRE##MK(M); ccursors<M, Minor, Major>(A, k, t); } \
DRV drv_acc_##N##_it(PRE##ARG(M), V v) { PRE##MK(M); for (typename M::iterator i = A.begin(), e = A.end(); i != e; ++i) *i = v; }
#define PLAINARG(M) M& A
#define PLAINMK(M) probe("A", A)
#define DENSE(N, T, V) ACCESS(N, PLAIN, T, V) \
DRV drv_acc_##N##_ends(T& A) { probe("A", A); T const& cA = A; vp_probe("it", &*A.begin(), &*A.end(), &*cA.begin(), &*cA.end()); }
#define xARG(M) P_##M& PA, size_t m, size_t n, size_t r, size_t c
#define xMK(M) probe("PA", PA); M A(PA, m, n, r, c)
#define yARG(M) P_##M& PA, size_t m, size_t n, size_t r, size_t c, size_t m1, size_t n1, size_t r1, size_t c1
#define yMK(M) probe("PA", PA); M B(PA, m1, n1, r1, c1); M A(B, m, n, r, c)
typedef Matrix<Dense, double, SubP> XD; typedef Matrix<Dense, double, SubPr> XDr; typedef Matrix<Dense, float, SubP> XF; typedef Matrix<Dense, float, SubPr> XFr;
typedef DD P_XD; typedef DDr P_XDr; typedef DF P_XF; typedef DFr P_XFr;
#define SUB(N, M, V) ACCESS(N, x, M, V) \
DRV drv_acc_##N##_str(xARG(M)) { xMK(M); M const& cA = A; striped<M>(A, cA); } \
DRV drv_acc_##N##_cpy(xARG(M)) { xMK(M); M B(A); M const& cA = B; striped<M>(B, cA); }
#if PART == 1
DENSE(dd, DD, double)
DENSE(df, DF, float)
DENSE(ddr, DDr, double)
DENSE(dfr, DFr, float)
#elif PART == 2
SUB(xd, XD, double)
SUB(xf, XF, float)
SUB(xdr, XDr, double)
SUB(xfr, XFr, float)
ACCESS(yd, y, XD, double)
ACCESS(ydr, y, XDr, double)
#else
// one step of the striped iterator from element q of line b
#define STEP(N, T) \
DRV drv_step_##N##_inc(T* p, size_t q, int b, size_t S, size_t sep, size_t B) { StripedIterator<T> i(p, q, b, S, sep, B); ++i; fields("i", i); } \
DRV drv_step_##N##_dec(T* p, size_t q, int b, size_t S, size_t sep, size_t B) { StripedIterator<T> i(p, q, b, S, sep, B); --i; fields("i", i); } \
DRV drv_step_##N##_eq(T* p, size_t x, size_t y, size_t q, int b, size_t q1, int b1, size_t S, size_t sep, size_t B) { StripedIterator<T> i(p + x, q, b, S, sep, B), j(p + y, q1, b1, S, sep, B); vp_probe("i", (size_t)(i == j), (size_t)(i != j), &*i, 0); }
STEP(d, double)
STEP(f, float)
STEP(c, const double)
// the arrays of a sparse matrix
#define SPARSE(N, T) \
DRV drv_acc_##N##_arr(T& A) { probe("A", A); T const& cA = A; vp_probe("it", &*A.begin(), &*A.end(), &*cA.begin(), &*cA.end()); \
  vp_probe("key", &*A.beginKey(), &*A.endKey(), &*cA.beginKey(), &*cA.endKey()); vp_probe("off", &*A.beginOffset(), &*A.endOffset(), &*cA.beginOffset(), &*cA.endOffset()); }
SPARSE(sd, SD)
SPARSE(sf, SF)
SPARSE(sdr, SDr)
SPARSE(sfr, SFr)
#endif
