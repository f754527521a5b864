// Value filters: acceptance, construction, ordering.
#include <cassert>
#include <tuple>
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
using namespace BlasBooster;
extern "C" void vp_probe(const char* tag, ...) noexcept;
#define DRV extern "C" void
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, NoBound> Fen;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound> Fei;
typedef AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound> Fii;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound> Fee;

DRV drv_acc_en_double(double lo, double hi, double x) { Fen f(lo); vp_probe("r", (int)f(x)); }
DRV drv_acc_en_float(double lo, double hi, float x) { Fen f(lo); vp_probe("r", (int)f(x)); }
DRV drv_acc_end_double(double lo, double hi, double x) { Fen f; vp_probe("r", (int)f(x)); }
typedef AbsoluteValueRangeChecker<float, ExclusiveBound, NoBound> Ffn;
typedef AbsoluteValueRangeChecker<float, ExclusiveBound, InclusiveBound> Ffi;
#define ACC(N) \
DRV drv_acc_##N##_double(double lo, double hi, double x) { F##N f(lo, hi); vp_probe("r", (int)f(x)); } \
DRV drv_acc_##N##_float(double lo, double hi, float x) { F##N f(lo, hi); vp_probe("r", (int)f(x)); }
ACC(ei) ACC(ii) ACC(ee)
#define M1(N, a, b) F##N(a)
#define M2(N, a, b) F##N(a, b)
#define LESS(N, MA, K, MB) \
DRV drv_less_##N##_##K(double lo, double hi, double mo, double mi) { F##N a = MA(N, lo, hi); F##K b = MB(K, mo, mi); \
    ValueCheckerBase const& x = a; ValueCheckerBase const& y = b; vp_probe("r", (int)(x < y)); }
#define LESSF(N, MA, K, MB) \
DRV drv_less_##N##_##K(float lo, float hi, float mo, float mi) { F##N a = MA(N, lo, hi); F##K b = MB(K, mo, mi); \
    ValueCheckerBase const& x = a; ValueCheckerBase const& y = b; vp_probe("r", (int)(x < y)); }
#define LROW(N, MA) LESS(N, MA, en, M1) LESS(N, MA, ei, M2) LESS(N, MA, ii, M2) LESS(N, MA, ee, M2)
LROW(en, M1) LROW(ei, M2) LROW(ii, M2) LROW(ee, M2)
#define LP(N, MA, K, MB) DRV drv_cmp_##N##_##K(double lo, double hi, double mo, double mi) { F##N a = MA(N, lo, hi); F##K b = MB(K, mo, mi); \
    std::shared_ptr<ValueCheckerBase> x(std::shared_ptr<ValueCheckerBase>(), &a), y(std::shared_ptr<ValueCheckerBase>(), &b); vp_probe("r", (int)ValueCheckerLess()(x, y)); }
LESSF(fn, M1, fn, M1) LESSF(fn, M1, fi, M2) LESSF(fi, M2, fn, M1) LESSF(fi, M2, fi, M2) LESSF(fn, M1, ii, M2) LESSF(ii, M2, fn, M1)
LP(en, M1, en, M1) LP(en, M1, ei, M2) LP(ei, M2, ii, M2) LP(ee, M2, ee, M2) LP(ii, M2, en, M1)
