// Conversions between representations, orientations and element types.
#include "vp.h"
#include "BlasBooster/Core/Copy.h"
#include "BlasBooster/Core/MatrixConverter.h"
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> XP;
typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> XPr;
typedef Matrix<Dense,double,XP> XD; typedef Matrix<Dense,float,XP> XF; typedef Matrix<Dense,double,XPr> XDr;
// a transparent filter; the number of elements it accepts is an opaque quantity (defined by P14, cached by P15)
struct Filter { double t; bool operator()(double x) const { return t < x; } };
extern "C" size_t vp_count(const void*, double) noexcept __attribute__((pure));
namespace BlasBooster {
#define CNT(M) template <> template <> inline size_t OccupationPolicy<M>::getNbOfSignificantElements<Filter>(Filter const& f) const { return vp_count(static_cast<M const*>(this), f.t); }
CNT(DD) CNT(DF) CNT(DDr) CNT(XD) CNT(XDr)
}
// plain and filtered construction
#define CV(N, A_, C_) DRV drv_cv_##N(A_ const& A) { probe("A", A); C_ C(A); probe("C", C); probe("A2", A); }
#define CF(N, A_, C_) DRV drv_cf_##N(A_ const& A, double t) { probe("A", A); C_ C(A, Filter{t}); probe("C", C); probe("A2", A); }
#define XV(N, P_, A_, C_) DRV drv_xv_##N(P_ const& PA, size_t m, size_t n, size_t r, size_t c) { probe("PA", PA); A_ A(PA, m, n, r, c); C_ C(A); probe("C", C); }
#define XX(N, P_, A_, C_) DRV drv_xf_##N(P_ const& PA, size_t m, size_t n, size_t r, size_t c, double t) { probe("PA", PA); A_ A(PA, m, n, r, c); C_ C(A, Filter{t}); probe("C", C); }
#if PART == 1
CV(dd_dd, DD, DD) CV(dd_df, DD, DF) CV(df_dd, DF, DD) CV(ddr_ddr, DDr, DDr) CV(ddr_dfr, DDr, DFr) CV(df_df, DF, DF)
CV(dd_ddr, DD, DDr) CV(ddr_dd, DDr, DD) CV(dd_dfr, DD, DFr) CV(ddr_df, DDr, DF)
CF(dd_dd, DD, DD) CF(dd_df, DD, DF) CF(df_dd, DF, DD) CF(ddr_ddr, DDr, DDr) CF(dd_ddr, DD, DDr) CF(ddr_dd, DDr, DD) CF(dd_dfr, DD, DFr)
XV(xd_dd, DD, XD, DD) XV(xd_df, DD, XD, DF) XV(xdr_ddr, DDr, XDr, DDr) XV(xf_dd, DF, XF, DD)
XX(xd_dd, DD, XD, DD) XX(xdr_ddr, DDr, XDr, DDr)
CV(zz_dd, ZZ, DD) CV(zz_df, ZZ, DF) CV(dd_zz, DD, ZZ) CV(sd_zz, SD, ZZ) CV(df_zz, DF, ZZ)
CV(sd_dd, SD, DD) CV(sd_df, SD, DF) CV(sf_dd, SF, DD) CV(sf_df, SF, DF) CV(sdr_ddr, SDr, DDr) CV(sd_ddr, SD, DDr) CV(sdr_dd, SDr, DD)
DRV drv_tr_dd(DD const& A) { probe("A", A); DD C(transpose(A)); probe("C", C); probe("A2", A); }
DRV drv_tr_df(DF const& A) { probe("A", A); DF C(transpose(A)); probe("C", C); probe("A2", A); }
DRV drv_tr_ddr(DDr const& A) { probe("A", A); DDr C(transpose(A)); probe("C", C); probe("A2", A); }
DRV drv_cp_dd_dd(DD const& A, DD& C) { probe("A", A); probe("C", C); copy(A, C); probe("A2", A); }
DRV drv_cp_df_dd(DF const& A, DD& C) { probe("A", A); probe("C", C); copy(A, C); probe("A2", A); }
DRV drv_cp_ddr_dd(DDr const& A, DD& C) { probe("A", A); probe("C", C); copy(A, C); probe("A2", A); }
#elif PART == 2
CF(dd_sd, DD, SD) CF(dd_sf, DD, SF) CF(df_sf, DF, SF) CF(df_sd, DF, SD) CF(ddr_sdr, DDr, SDr) CF(dd_sdr, DD, SDr) CF(ddr_sd, DDr, SD)
XX(xd_sd, DD, XD, SD) XX(xdr_sdr, DDr, XDr, SDr) XX(xd_sf, DD, XD, SF)
#elif PART == 4
// the converter's functors: which elements go where for given significance thresholds
typedef AbsoluteValueRangeChecker<double> Above; typedef AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound> Within;
extern "C" size_t vp_count2(const void*, double, double) noexcept __attribute__((pure));
namespace BlasBooster {
template <> template <> inline size_t OccupationPolicy<DD>::getNbOfSignificantElements<Above>(Above const& f) const { return vp_count(static_cast<DD const*>(this), *(double const*)((char const*)&f + 8)); }
template <> template <> inline size_t OccupationPolicy<DD>::getNbOfSignificantElements<Within>(Within const& f) const { return vp_count2(static_cast<DD const*>(this), *(double const*)((char const*)&f + 8), *(double const*)((char const*)&f + 16)); }
}
#define MC(N, A_, C_) DRV drv_mc_##N(A_ const& A, ThresholdSettings const& s) { Threshold th(s); \
  double hi = s.significanceThresholdSinglePrecision, lo = s.significanceThresholdDoublePrecision; \
  if (!(hi >= 0.0 && lo >= 0.0 && lo < hi)) return; probe("A", A); vp_probe("t", lo, hi); \
  DynamicMatrix d = ConversionFunctor<typename A_::matrix_type,typename A_::value_type,typename A_::parameter,C_>()(A, th); probe("C", static_cast<C_&>(*d)); probe("A2", A); }
MC(dd_zz, DD, ZZ) MC(dd_dd, DD, DD) MC(dd_df, DD, DF) MC(dd_sd, DD, SD) MC(dd_sf, DD, SF)
#define MM(N, X, Y) DRV drv_mm_##N(DD const& A, ThresholdSettings const& s) { Threshold th(s); \
  double hi = s.significanceThresholdSinglePrecision, lo = s.significanceThresholdDoublePrecision; \
  if (!(hi >= 0.0 && lo >= 0.0 && lo < hi)) return; probe("A", A); vp_probe("t", lo, hi); typedef MultipleMatrix<X,Y> M; \
  DynamicMatrix d = ConversionFunctor<Dense,double,typename DD::parameter,M>()(A, th); M& m = static_cast<M&>(*d); probe("C", m.getMatrix1()); probe("E", m.getMatrix2()); probe("A2", A); }
MM(dd_sd_sf, SD, SF) MM(dd_sd_df, SD, DF)
#else
CF(sd_sd, SD, SD) CF(sd_sf, SD, SF) CF(sf_sd, SF, SD) CF(sdr_sdr, SDr, SDr) CF(sd_sdr, SD, SDr) CV(sd_sf, SD, SF) CV(sd_sdr, SD, SDr)
DRV drv_tr_sd(SD const& A) { probe("A", A); SD C(transpose(A)); probe("C", C); probe("A2", A); }
DRV drv_tr_sdr(SDr const& A) { probe("A", A); SDr C(transpose(A)); probe("C", C); probe("A2", A); }
#endif
