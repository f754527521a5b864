#include "vp.h"
#ifdef IFACE
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#else
#define IFACE Native
#endif
template <class M> struct VT { typedef typename M::value_type type; };
template <class P> struct VT<Matrix<Zero, NullType, P>> { typedef NullType type; };
// native products; C has an arbitrary previous content and shape
#define MUL(N, MA, MB, MC) \
DRV drv_mul_##N(MA const& A, MB const& B, MC& C) { probe("A", A); probe("B", B); probe("C0", C); \
    MultiplicationFunctor<typename MA::matrix_type, typename VT<MA>::type, typename MA::parameter, \
        typename MB::matrix_type, typename VT<MB>::type, typename MB::parameter, \
        typename MC::matrix_type, typename VT<MC>::type, typename MC::parameter, IFACE>()(A, B, C); \
    probe("C", C); probe("A2", A); probe("B2", B); }
typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> XD;
typedef Matrix<Dense, double, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>> XDr;
#ifdef PART1
MUL(dd_dd_dd, DD, DD, DD) MUL(dd_df_dd, DD, DF, DD) MUL(df_dd_dd, DF, DD, DD) MUL(df_df_df, DF, DF, DF)
MUL(ddr_ddr_ddr, DDr, DDr, DDr) MUL(ddr_dd_dd, DDr, DD, DD) MUL(dd_ddr_ddr, DD, DDr, DDr) MUL(dd_dd_ddr, DD, DD, DDr)
#endif
#ifdef PART2
MUL(sd_dd_dd, SD, DD, DD) MUL(sf_df_df, SF, DF, DF) MUL(sd_df_dd, SD, DF, DD) MUL(sf_dd_dd, SF, DD, DD)
MUL(dd_sd_dd, DD, SD, DD) MUL(df_sf_df, DF, SF, DF) MUL(dd_sf_dd, DD, SF, DD) MUL(df_sd_dd, DF, SD, DD)
#endif
#ifdef PART3
MUL(sd_sd_sd, SD, SD, SD) MUL(sf_sf_sf, SF, SF, SF) MUL(sd_sf_sd, SD, SF, SD) MUL(sf_sd_sd, SF, SD, SD)
MUL(dd_zz_zz, DD, ZZ, ZZ) MUL(sd_zz_zz, SD, ZZ, ZZ) MUL(zz_dd_zz, ZZ, DD, ZZ) MUL(zz_sf_zz, ZZ, SF, ZZ) MUL(zz_zz_zz, ZZ, ZZ, ZZ)
#endif
#ifdef PART5
// row-major compressed operands
MUL(sdr_sdr_sdr, SDr, SDr, SDr) MUL(sdr_ddr_ddr, SDr, DDr, DDr) MUL(ddr_sdr_ddr, DDr, SDr, DDr)
#endif
#ifdef PART4
// sub-matrices of larger matrices as operands
#define SUB(N, TA, TB, MC, ...) \
DRV drv_sub_##N(TA::base const& PA, TB::base const& PB, MC& C, size_t m, size_t k, size_t n, size_t ar, size_t ac, size_t br, size_t bc) { \
    probe("PA", PA); probe("PB", PB); typename TA::type A(TA::make(PA, m, k, ar, ac)); typename TB::type B(TB::make(PB, k, n, br, bc)); \
    MultiplicationFunctor<Dense, double, typename TA::type::parameter, Dense, double, typename TB::type::parameter, Dense, double, typename MC::parameter, IFACE>()(A, B, C); \
    probe("C", C); }
template <class M, class X> struct Sub { typedef M base; typedef X type; static X make(M const& p, size_t r, size_t c, size_t br, size_t bc) { return X(p, r, c, br, bc); } };
typedef Sub<DD, XD> SC; typedef Sub<DDr, XDr> SR;
SUB(xd_xd_dd, SC, SC, DD) SUB(xr_xr_dr, SR, SR, DDr)
#define SUB1(N, TA, MB, MC) \
DRV drv_sua_##N(TA::base const& PA, MB const& B, MC& C, size_t m, size_t k, size_t ar, size_t ac) { probe("PA", PA); probe("B", B); typename TA::type A(TA::make(PA, m, k, ar, ac)); \
    MultiplicationFunctor<Dense, double, typename TA::type::parameter, Dense, double, typename MB::parameter, Dense, double, typename MC::parameter, IFACE>()(A, B, C); probe("C", C); } \
DRV drv_sux_##N(MB const& A, TA::base const& PB, MC& C, size_t k, size_t n, size_t br, size_t bc) { probe("A", A); probe("PB", PB); typename TA::type B(TA::make(PB, k, n, br, bc)); \
    MultiplicationFunctor<Dense, double, typename MB::parameter, Dense, double, typename TA::type::parameter, Dense, double, typename MC::parameter, IFACE>()(A, B, C); probe("C", C); }
SUB1(xd_dd_dd, SC, DD, DD) SUB1(xr_dr_dr, SR, DDr, DDr)
#endif
#ifdef PART6
// product expressions: evaluated with a chosen method, and as a constructor argument
#define EXE(N, MA, MB) DRV drv_exe_##N(MA const& A, MB const& B) { probe("A", A); probe("B", B); auto C = (A * B).template execute<IFACE>(); probe("C", C); probe("A2", A); probe("B2", B); }
#define CON(N, MA, MB, MC) DRV drv_con_##N(MA const& A, MB const& B) { probe("A", A); probe("B", B); MC C(A * B); probe("C", C); probe("A2", A); probe("B2", B); }
EXE(dd_dd_dd, DD, DD) EXE(dd_df_dd, DD, DF) EXE(df_dd_dd, DF, DD) EXE(df_df_df, DF, DF) EXE(ddr_ddr_dd, DDr, DDr) EXE(ddr_dd_dd, DDr, DD) EXE(dd_ddr_dd, DD, DDr)
EXE(sd_dd_dd, SD, DD) EXE(sf_dd_dd, SF, DD) EXE(sd_df_dd, SD, DF) EXE(sf_df_df, SF, DF) EXE(dd_sd_dd, DD, SD) EXE(dd_sf_dd, DD, SF) EXE(df_sd_dd, DF, SD) EXE(df_sf_df, DF, SF)
EXE(sd_sd_sd, SD, SD) EXE(sf_sd_sd, SF, SD) EXE(sd_sf_sd, SD, SF) EXE(sf_sf_sf, SF, SF)
EXE(dd_zz_zz, DD, ZZ) EXE(zz_dd_zz, ZZ, DD) EXE(sd_zz_zz, SD, ZZ) EXE(zz_sf_zz, ZZ, SF) EXE(zz_zz_zz, ZZ, ZZ)
CON(dd_dd_dd, DD, DD, DD) CON(df_df_df, DF, DF, DF) CON(df_dd_dd, DF, DD, DD) CON(sd_dd_dd, SD, DD, DD) CON(dd_sd_dd, DD, SD, DD) CON(dd_df_dd, DD, DF, DD) CON(sf_df_df, SF, DF, DF)
CON(sd_sd_sd, SD, SD, SD) CON(sf_sf_sf, SF, SF, SF) CON(sd_sf_sd, SD, SF, SD)
#endif
