// Choosing a representation: the number of elements a filter accepts is an unknown function of the matrix and the bounds of the filter.
#include "vp.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/AllMatrixTypes.h"
typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> XD;
extern "C" size_t vp_fn_count(void const* m, size_t kind, double lower, double upper) noexcept __attribute__((const));
extern "C" MatrixBase* vp_fn_convert(size_t type, void const* m, void const* t) noexcept __attribute__((const));
template <class L, class U> inline size_t cnt(void const* m, AbsoluteValueRangeChecker<double, L, U> const& v) {
    return vp_fn_count(m, 2 * std::is_same<L, InclusiveBound>::value + std::is_same<U, InclusiveBound>::value, v.lowerThreshold_, v.upperThreshold_); }
inline size_t cnt(void const* m, AbsoluteValueRangeChecker<double, ExclusiveBound, NoBound> const& v) { return vp_fn_count(m, 4, v.threshold_, 0); }
namespace BlasBooster {
#define KIND(M) template <> template <class V> size_t OccupationPolicy<M>::getNbOfSignificantElements(V const& v) const { return cnt(static_cast<M const*>(this), v); }
KIND(DD) KIND(XD) KIND(SD) KIND(DF)
}
typedef MultipleMatrix<SD, SF> MSS; typedef MultipleMatrix<SD, DF> MSD;
#define TYPES(F) F(0, zz, ZZ, MatrixZero) F(1, sf, SF, MatrixSparseFloat) F(2, df, DF, MatrixDenseFloat) F(3, sd, SD, MatrixSparseDouble) F(4, mss, MSS, MultipleMatrixSparseDoubleSparseFloat) F(5, msd, MSD, MultipleMatrixDenseFloatSparseDouble) F(6, dd, DD, MatrixDenseDouble)
#define SHOW(I, N, T, FIELD) vp_probe(#N, (double)s.occupationThreshold##FIELD##SinglePrecision, (double)s.occupationThreshold##FIELD##DoublePrecision);
inline void settings(ThresholdSettings const& s) { vp_probe("sig", (double)s.significanceThresholdSinglePrecision, (double)s.significanceThresholdDoublePrecision); TYPES(SHOW) }
#ifdef PARTCHECK
#define ADM(I, N, T, FIELD) DRV drv_adm_##N(OPERAND const& A, Threshold const& t) { ThresholdSettings const& s = reinterpret_cast<ThresholdSettings const&>(t); vp_probe("A", &A, A.getSize(), A.getNbRows(), A.getNbColumns()); vp_probe("t", &t); settings(s); vp_probe("r", (size_t)(IsConvertible<T>()(A, t) ? 1 : 0)); }
TYPES(ADM)
#endif
#ifdef PARTCHOOSE
namespace BlasBooster {
#define CONV(I, N, T, FIELD) template <> inline DynamicMatrix ConversionFunctor<OPERAND::matrix_type, OPERAND::value_type, OPERAND::parameter, T>::operator()(OPERAND const& m, Threshold const& t) const { return DynamicMatrix(std::shared_ptr<MatrixBase>(), vp_fn_convert(I, &m, &t)); }
TYPES(CONV)
}
DRV drv_choose(OPERAND const& A, Threshold const& t) { ThresholdSettings const& s = reinterpret_cast<ThresholdSettings const&>(t); vp_probe("A", &A, A.getSize(), A.getNbRows(), A.getNbColumns()); vp_probe("t", &t); settings(s); vp_probe("r", MatrixConverter()(A, t).get()); }
#endif
