#include "vp.h"
#include "BlasBooster/Core/Threshold.h"
// each query, directly, on a copy and on an assigned table
#define Q(N, FIELD, ...) \
DRV drv_get_##N(ThresholdSettings const& s) { Threshold t(s); vp_probe("r", (double)s.FIELD, (double)(__VA_ARGS__)); } \
DRV drv_cpy_##N(ThresholdSettings const& s) { Threshold t0(s); Threshold t(t0); vp_probe("r", (double)s.FIELD, (double)(__VA_ARGS__)); } \
DRV drv_asg_##N(ThresholdSettings const& s, Threshold& t) { Threshold t0(s); t = t0; vp_probe("r", (double)s.FIELD, (double)(__VA_ARGS__)); } \
DRV drv_src_##N(ThresholdSettings const& s) { Threshold t(s); Threshold u; u = t; vp_probe("r", (double)s.FIELD, (double)(__VA_ARGS__)); }
#define OCC(N, FIELD, ...) \
  Q(N##_f, occupationThreshold##FIELD##SinglePrecision, t.getOccupationThreshold<__VA_ARGS__, float>()) \
  Q(N##_d, occupationThreshold##FIELD##DoublePrecision, t.getOccupationThreshold<__VA_ARGS__, double>())
typedef MultipleMatrix<SD, SF> MSS; typedef MultipleMatrix<SD, DF> MSD;
Q(sig_f, significanceThresholdSinglePrecision, t.getSignificanceThreshold<float>())
Q(sig_d, significanceThresholdDoublePrecision, t.getSignificanceThreshold<double>())
OCC(zz, MatrixZero, ZZ)
OCC(sf, MatrixSparseFloat, SF)
OCC(df, MatrixDenseFloat, DF)
OCC(sd, MatrixSparseDouble, SD)
OCC(dd, MatrixDenseDouble, DD)
OCC(mss, MultipleMatrixSparseDoubleSparseFloat, MSS)
OCC(msd, MultipleMatrixDenseFloatSparseDouble, MSD)
Q(minb, min_block_size, t.get_min_block_size())
Q(maxb, max_block_size, t.get_max_block_size())
