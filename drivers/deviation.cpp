// How far two matrices are apart.
#include "vp.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
#define DEV(N, X, Y) \
DRV drv_devmax_##N(X const& A, Y const& B) { probe("A", A); probe("B", B); vp_probe("r", getMaximalDeviation(A, B)); probe("A2", A); probe("B2", B); } \
DRV drv_devrms_##N(X const& A, Y const& B) { probe("A", A); probe("B", B); vp_probe("r", getRootMeanSquareDeviation(A, B)); probe("A2", A); probe("B2", B); }
DEV(dd_dd, DD, DD) DEV(dd_df, DD, DF) DEV(df_dd, DF, DD) DEV(ddr_ddr, DDr, DDr)
