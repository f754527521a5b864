// Norms and counts of significant elements.
#include "vp.h"
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> XP;
typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> XPr;
#define NORMS(N, ...) \
DRV drv_one_##N(__VA_ARGS__ const& A) { probe("A", A); vp_probe("r", norm<NormOne>(A)); probe("A2", A); } \
DRV drv_two_##N(__VA_ARGS__ const& A) { probe("A", A); vp_probe("r", norm<NormTwo>(A)); probe("A2", A); } \
DRV drv_max_##N(__VA_ARGS__ const& A) { probe("A", A); vp_probe("r", norm<NormMax>(A)); probe("A2", A); }
NORMS(dd, DD) NORMS(df, DF) NORMS(ddr, DDr) NORMS(sd, SD) NORMS(sf, SF) NORMS(sdr, SDr) NORMS(zz, ZZ)
#define SUBN(N, M, T, X) \
DRV drv_one_##N(M const& PA, size_t m, size_t n, size_t r, size_t c) { probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); vp_probe("r", norm<NormOne>(A)); } \
DRV drv_two_##N(M const& PA, size_t m, size_t n, size_t r, size_t c) { probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); vp_probe("r", norm<NormTwo>(A)); } \
DRV drv_max_##N(M const& PA, size_t m, size_t n, size_t r, size_t c) { probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); vp_probe("r", norm<NormMax>(A)); }
SUBN(xd, DD, double, XP) SUBN(xdr, DDr, double, XPr)
// a transparent filter with a bound of its own
struct Filter { double t; bool operator()(double x) const { return t < x; } };
#define COUNT(N, ...) DRV drv_cnt_##N(__VA_ARGS__ const& A, double t) { probe("A", A); vp_probe("r", countDesiredElements(A, Filter{t})); probe("A2", A); }
COUNT(dd, DD) COUNT(df, DF) COUNT(ddr, DDr) COUNT(sd, SD) COUNT(sf, SF) COUNT(sdr, SDr)
#define SUBC(N, M, T, X) DRV drv_cnt_##N(M const& PA, size_t m, size_t n, size_t r, size_t c, double t) { probe("PA", PA); Matrix<Dense,T,X> A(PA, m, n, r, c); vp_probe("r", countDesiredElements(A, Filter{t})); }
SUBC(xd, DD, double, XP) SUBC(xdr, DDr, double, XPr)
DRV drv_cnt_zz(ZZ const& A, double t) { probe("A", A); vp_probe("r", A.getNbOfSignificantElements(t)); probe("A2", A); }
// blocked matrices: the norm of a block is any number attached to it (here: read through its handle)
#ifdef BLOCKED
namespace BlasBooster {
template <class N> struct BlockNorm { double operator()(DynamicMatrix const& p) const { return *reinterpret_cast<double const*>(&p); } };
template <> struct NormFunctor<NormOne, DynamicMatrix> : BlockNorm<NormOne> {};
template <> struct NormFunctor<NormTwo, DynamicMatrix> : BlockNorm<NormTwo> {};
template <> struct NormFunctor<NormMax, DynamicMatrix> : BlockNorm<NormMax> {};
}
typedef Matrix<Dense, DynamicMatrix> BD;
NORMS(bd, BD)
#endif
// the norm of a dynamic matrix of a given type is that of the matrix itself
#define DYNN(N, M) \
DRV drv_one_y##N(M& A) { probe("A", A); DynamicMatrix d(std::shared_ptr<M>(), &A); vp_probe("r", DynamicNormFunctor<NormOne, M>()(d)); probe("A2", A); } \
DRV drv_two_y##N(M& A) { probe("A", A); DynamicMatrix d(std::shared_ptr<M>(), &A); vp_probe("r", DynamicNormFunctor<NormTwo, M>()(d)); probe("A2", A); } \
DRV drv_max_y##N(M& A) { probe("A", A); DynamicMatrix d(std::shared_ptr<M>(), &A); vp_probe("r", DynamicNormFunctor<NormMax, M>()(d)); probe("A2", A); }
#ifndef BLOCKED
DYNN(dd, DD) DYNN(df, DF) DYNN(sd, SD) DYNN(zz, ZZ)
#endif
