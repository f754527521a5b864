// What matrices report about their shape after every way of making, changing and replacing them.
#include "vp.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/Copy.h"
#include "BlasBooster/Core/Transposition.h"
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> SubP; typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> SubPr;
typedef Matrix<Dense, double, SubP> SM; typedef Matrix<Dense, double, SubPr> SMr;
typedef BlockedDenseMatrix BM;
template <class T, class P> inline std::enable_if_t<!P::isSubMatrix && !P::isBlockedMatrix> sh(const char* t, Matrix<Dense,T,P> const& m)
{ typedef typename Matrix<Dense,T,P>::storage S; vp_probe(t, (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize(), (size_t)static_cast<S const&>(m).size()); }
template <class T, class P> inline std::enable_if_t<P::isBlockedMatrix> sh(const char* t, Matrix<Dense,T,P> const& m)
{ typedef typename Matrix<Dense,T,P>::storage S; vp_probe(t, (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize(), (size_t)static_cast<S const&>(m).size(), (size_t)m.getUnblockedRows(), (size_t)m.getUnblockedColumns(), (size_t)0, (size_t)0); }
template <class T, class P> inline std::enable_if_t<P::isSubMatrix> sh(const char* t, Matrix<Dense,T,P> const& m)
{ typedef typename Matrix<Dense,T,P>::storage S; vp_probe(t, (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize(), (size_t)static_cast<S const&>(m).size(), (size_t)m.getLdRows(), (size_t)m.getLdColumns(), m.getDataPointer()); }
template <class T, class P> inline void sh(const char* t, Matrix<Sparse,T,P> const& m)
{ vp_probe(t, (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize(), (size_t)m.nnz(), (size_t)m.sizeOffset()); }
template <class P> inline void sh(const char* t, Matrix<Zero,NullType,P> const& m)
{ vp_probe(t, (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize(), (size_t)0); }
#define OTHER(A, C) if ((void*)&A == (void*)&C) __builtin_unreachable();
#define COMMON(N, T) \
DRV drv_sh_##N##_default() { T C; sh("C", C); } \
DRV drv_sh_##N##_copy(T const& A) { sh("A", A); T C(A); sh("C", C); } \
DRV drv_sh_##N##_assign(T const& A, T& C) { OTHER(A, C) sh("A", A); C = A; sh("C", C); } \
DRV drv_sh_##N##_selfassign(T& A) { T const& R = A; sh("A", A); A = R; sh("C", A); } \
DRV drv_sh_##N##_move(T& A) { sh("A", A); T C(std::move(A)); sh("C", C); } \
DRV drv_sh_##N##_moveassign(T& A, T& C) { OTHER(A, C) sh("A", A); C = std::move(A); sh("C", C); } \
DRV drv_sh_##N##_selfmove(T& A) { T& R = A; sh("A", A); A = std::move(R); sh("C", A); } \
DRV drv_sh_##N##_swap(T& A, T& B) { using std::swap; OTHER(A, B) sh("A", A); sh("B", B); swap(A, B); sh("C", A); sh("E", B); }
#define CTOR(N, T) DRV drv_sh_##N##_ctor(size_t r, size_t c) { T C(r, c); sh("C", C); }
#define RESIZE(N, T) DRV drv_sh_##N##_resize(T& C, size_t r, size_t c) { sh("A", C); C.resize(r, c); sh("C", C); }
#define DENSE(N, T, V) COMMON(N, T) CTOR(N, T) RESIZE(N, T) \
DRV drv_sh_##N##_external(V* p, size_t r, size_t c) { T C(r, c, p); sh("C", C); } \
DRV drv_sh_##N##_filled(size_t r, size_t c, V v) { T C(r, c, AllFiller<V>(v)); sh("C", C); } \
DRV drv_sh_##N##_resizefilled(T& C, size_t r, size_t c, V v) { sh("A", C); C.resize(r, c, AllFiller<V>(v)); sh("C", C); }
#define CONV(N, TO, FROM) DRV drv_sh_##N##_conv(FROM const& A) { sh("A", A); TO C(A); sh("C", C); }
#ifdef PART1
DENSE(dd, DD, double)
DENSE(df, DF, float)
DENSE(rdd, DDr, double)
COMMON(zz, ZZ) CTOR(zz, ZZ) RESIZE(zz, ZZ)
COMMON(rzz, ZZr) CTOR(rzz, ZZr) RESIZE(rzz, ZZr)
#endif
#ifdef PART2
COMMON(sd, SD)
COMMON(rsd, SDr)
#define SPARSE(N, T) CTOR(N, T) RESIZE(N, T) \
DRV drv_sh_##N##_ctorn(size_t r, size_t c, size_t k) { T C(r, c, k); sh("C", C); } \
DRV drv_sh_##N##_resizen(T& C, size_t r, size_t c, size_t k) { sh("A", C); C.resize(r, c, k); sh("C", C); }
SPARSE(sd, SD)
SPARSE(rsd, SDr)
COMMON(sub, SM)
COMMON(rsub, SMr)
DRV drv_sh_sub_ctor(DD const& A, size_t r, size_t c, size_t i, size_t j) { sh("A", A); SM C(A, r, c, i, j); sh("C", C); }
DRV drv_sh_rsub_ctor(DDr const& A, size_t r, size_t c, size_t i, size_t j) { sh("A", A); SMr C(A, r, c, i, j); sh("C", C); }
DRV drv_sh_sub_nested(SM const& A, size_t r, size_t c, size_t i, size_t j) { sh("A", A); SM C(A, r, c, i, j); sh("C", C); }
DRV drv_sh_rsub_nested(SMr const& A, size_t r, size_t c, size_t i, size_t j) { sh("A", A); SMr C(A, r, c, i, j); sh("C", C); }
DRV drv_sh_dd_sublist(DD& C, std::initializer_list<std::initializer_list<double>> const& l) { vp_probe("A", l.size(), l.begin()->size()); DD D(l); sh("C", D); }
#endif
#ifdef PART3
CONV(dd_df, DD, DF) CONV(dd_rdd, DD, DDr) CONV(rdd_dd, DDr, DD) CONV(dd_sd, DD, SD) CONV(dd_sdr, DD, SDr) CONV(dd_zz, DD, ZZ) CONV(dd_sub, DD, SM)
CONV(sd_dd, SD, DD) CONV(sd_sf, SD, SF) CONV(sd_sdr, SD, SDr) CONV(zz_dd, ZZ, DD) CONV(zz_sd, ZZ, SD) CONV(zz_sub, ZZ, SM) CONV(df_dd, DF, DD) CONV(sf_sd, SF, SD) CONV(rdd_rsub, DDr, SMr)
#endif
#ifdef PART4
COMMON(bm, BM)
DRV drv_sh_bm_ctor(size_t r, size_t c, size_t p, size_t q) { BM C(r, c, p, q); sh("C", C); }
DRV drv_sh_bm_resize(BM& C, size_t r, size_t c, size_t p, size_t q) { sh("A", C); C.resize(r, c, p, q); sh("C", C); }
#endif
#ifdef PART5
DRV drv_ref_dd(DD& C, size_t r, size_t c) { C.resize(r, c); }
DRV drv_ref_df(DF& C, size_t r, size_t c) { C.resize(r, c); }
DRV drv_ref_rdd(DDr& C, size_t r, size_t c) { C.resize(r, c); }
DRV drv_ref_ddfill(DD& C, size_t r, size_t c, double v) { C.resize(r, c, AllFiller<double>(v)); }
DRV drv_ref_bm(BM& C, size_t r, size_t c, size_t p, size_t q) { C.resize(r, c, p, q); }
#endif
#ifdef PART6
// where the caches of the norm and the occupations lie in the object
template <class M> inline void caches(M& C) {
  vp_probe("N", (size_t)((char*)static_cast<typename M::normPolicy*>(&C) - (char*)&C), sizeof(typename M::normPolicy));
  vp_probe("O", (size_t)((char*)static_cast<typename M::occupationPolicy*>(&C) - (char*)&C), sizeof(typename M::occupationPolicy)); }
DRV drv_off_dd(DD& C) { caches(C); }
DRV drv_off_df(DF& C) { caches(C); }
DRV drv_off_rdd(DDr& C) { caches(C); }
DRV drv_off_ddfill(DD& C) { caches(C); }
DRV drv_off_bm(BM& C) { caches(C); }
#endif
