// Small utilities: name tables, approximate equality, ranges, the scoped timer.
#include <cstddef>
extern "C" void vp_probe(const char* tag, ...) noexcept;
extern "C" void vp_body() noexcept;
#define DRV extern "C" void
#ifdef PARTTABLE
#include "BlasBooster/Utilities/EnumParser.h"
using namespace BlasBooster;
enum class E1 : int {}; enum class E2 : unsigned long {};
extern const char *s1, *s2; extern int e1, e2;
#define TABLE(N, E) \
DRV drv_enum_##N##_one(E a, const char* s) { EnumParser<E> p; std::string n(s); p.map(n, a); vp_probe("name", p(a).p); vp_probe("value", (size_t)p(n)); } \
DRV drv_enum_##N##_two(E a, E b, const char* s, const char* t) { if (a == b || s == t) return; EnumParser<E> p; std::string n(s), m(t); p.map(n, a); p.map(m, b); \
    vp_probe("name", p(a).p); vp_probe("value", (size_t)p(n)); vp_probe("name2", p(b).p); vp_probe("value2", (size_t)p(m)); } \
DRV drv_enum_##N##_rename(E a, const char* s, const char* t) { if (s == t) return; EnumParser<E> p; std::string n(s), m(t); p.map(n, a); p.map(m, a); \
    vp_probe("name2", p(a).p); vp_probe("value2", (size_t)p(m)); } \
DRV drv_enum_##N##_revalue(E a, E b, const char* s) { if (a == b) return; EnumParser<E> p; std::string n(s); p.map(n, a); p.map(n, b); \
    vp_probe("name2", p(b).p); vp_probe("value2", (size_t)p(n)); }
TABLE(int, E1) TABLE(long, E2)
#endif
#ifdef PARTTRACKER
#define BLASBOOSTER_USE_TRACKER
#include "BlasBooster/Utilities/Tracker.h"
using namespace BlasBooster;
#define ID(X) vp_probe("id", #X, (size_t)TrackerID::X);
DRV drv_tracker_names() { IDS EnumParser<TrackerID> p; vp_probe("end", 0); }
#endif
#ifdef PARTTIMER
#include "BlasBooster/Utilities/ScopedTimer.h"
DRV drv_timer(const char* s, int n) { { ScopedTimer t(std::string(s), n); vp_body(); } vp_probe("end", 0); }
DRV drv_timer_default(const char* s) { { ScopedTimer t((std::string(s))); vp_body(); } vp_probe("end", 0); }
#endif
#ifdef PARTRANGE
#include "BlasBooster/Utilities/range.h"
using namespace BlasBooster;
DRV drv_range_ptr(double* a, double* b, double* o) { auto r = range(a, b); vp_probe("r", r.begin(), r.end()); }
DRV drv_range_const(const int* a, const int* b) { auto r = range(a, b); vp_probe("r", r.begin(), r.end(), r.begin(), r.end()); }
DRV drv_range_walk(double* a, size_t n, double v) { for (double& x : range(a, a + n)) x = v; }
#endif
#if defined(PARTEQUAL) || defined(PARTEQUALZ)
#include "BlasBooster/Utilities/EqualWithinNumericalAccuracy.h"
using namespace BlasBooster;
#define EQUAL(N, A, B) DRV drv_equal_##N(A const& a, B const& b, bool& r) { vp_probe("acc", numericalAccuracy<A>(), numericalAccuracy<B>()); r = equalWithinNumericalAccuracy(a, b); }
#endif
#ifdef PARTEQUAL
EQUAL(d_d, double, double) EQUAL(f_f, float, float) EQUAL(d_f, double, float) EQUAL(f_d, float, double) EQUAL(i_i, int, int)
EQUAL(i_d, int, double) EQUAL(d_i, double, int) EQUAL(i_f, int, float) EQUAL(f_i, float, int)
#endif
#ifdef PARTEQUALZ
EQUAL(z_z, std::complex<double>, std::complex<double>) EQUAL(z_d, std::complex<double>, double) EQUAL(d_z, double, std::complex<double>)
#endif
