// Life of storages: one operation each, then every object involved is destroyed.  What the destructor releases on entry
// (drv_own_T_dtor) is what the object owns.  Compiled with -fno-access-control and allocations that may throw.
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/serialization.hpp>
#include "vp.h"
extern "C" { void vp_read(void*); void vp_end() noexcept; }
struct In { typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading;
    template <class T> std::enable_if_t<std::is_arithmetic<T>::value, In&> operator>>(T& x) { T y; vp_read(&y); x = y; return *this; }
    template <class T> std::enable_if_t<!std::is_arithmetic<T>::value, In&> operator>>(T& x) { boost::serialization::serialize_adl(*this, x, 0); return *this; }
    template <class T> In& operator&(T& x) { return *this >> x; } };
#define TRY(...) try { __VA_ARGS__; } catch (...) {}
#define COMMON(N, T) \
DRV drv_own_##N##_dtor(T& A) { A.T::~T(); } \
DRV drv_own_##N##_copy(T const& A) { TRY(T C(A)) const_cast<T&>(A).T::~T(); } \
DRV drv_own_##N##_move(T& A) { TRY(T C(std::move(A))) A.T::~T(); } \
DRV drv_own_##N##_assign(T const& A, T& B) { TRY(B = A) const_cast<T&>(A).T::~T(); B.T::~T(); } \
DRV drv_own_##N##_moveassign(T& A, T& B) { TRY(B = std::move(A)) A.T::~T(); B.T::~T(); } \
DRV drv_own_##N##_selfassign(T& A) { T const& R = A; TRY(A = R) A.T::~T(); } \
DRV drv_own_##N##_selfmove(T& A) { T& R = A; TRY(A = std::move(R)) A.T::~T(); } \
DRV drv_own_##N##_swap(T& A, T& B) { using std::swap; swap(A, B); A.T::~T(); B.T::~T(); }
typedef Storage<double, false, false, 0> SV; typedef Storage<float, false, false, 0> SVf; typedef Storage<double, false, true, 6> SH; typedef Storage<double, true, true, 6> SS;
typedef SparseStorage<double, size_t, false, 0> SP;
COMMON(sv, SV)
COMMON(sh, SH)
COMMON(sp, SP)
COMMON(dd, DD)
COMMON(sd, SD)
DRV drv_own_sv_default() { TRY(SV C) }
DRV drv_own_sv_size(size_t n) { TRY(SV C(n)) }
DRV drv_own_sv_list(std::initializer_list<double> const& l) { TRY(SV C(l)) }
DRV drv_own_sv_convert(SVf const& A) { TRY(SV C(A)) }
DRV drv_own_sv_convert2(SS const& A) { TRY(SV C(A)) }
DRV drv_own_sv_convert3(SH const& A) { TRY(SV C(A)) }
DRV drv_own_sv_external(double* p, size_t n) { TRY(SV C(p, n)) }
DRV drv_own_sv_resize(SV& A, size_t n) { TRY(A.resize(n)) A.SV::~SV(); }
DRV drv_own_sv_load(SV& A) { In ar; TRY(ar >> A) A.SV::~SV(); }
DRV drv_own_sh_default() { TRY(SH C) }
DRV drv_own_sh_list(std::initializer_list<double> const& l) { TRY(SH C(l)) }
DRV drv_own_sh_convert(SV const& A) { TRY(SH C(A)) }
DRV drv_own_sh_convert2(SS const& A) { TRY(SH C(A)) }
DRV drv_own_sh_external(double* p, size_t n) { TRY(SH C(p, n)) }
DRV drv_own_sh_load(SH& A) { In ar; TRY(ar >> A) A.SH::~SH(); }
DRV drv_own_sp_size(size_t n, size_t m) { TRY(SP C(n, m)) }
DRV drv_own_sp_resize(SP& A, size_t n, size_t m) { TRY(A.resize(n, m)) A.SP::~SP(); }
DRV drv_own_sp_shrink(SP& A, size_t n) { TRY(A.shrink(n)) A.SP::~SP(); }
DRV drv_own_dd_size(size_t r, size_t c) { TRY(DD C(r, c)) }
DRV drv_own_dd_external(double* p, size_t r, size_t c) { TRY(DD C(r, c, p)) }
DRV drv_own_dd_resize(DD& A, size_t r, size_t c) { TRY(A.resize(r, c)) A.DD::~DD(); }
DRV drv_own_dd_fill(DD& A, size_t r, size_t c) { TRY(A.resize(r, c, AllFiller<double>(1.0))) A.DD::~DD(); }
DRV drv_own_dd_load(DD& A) { In ar; TRY(ar >> A) A.DD::~DD(); }
DRV drv_own_dd_convert(DF const& A) { TRY(DD C(A)) }
DRV drv_own_dd_sparse(SD const& A) { TRY(DD C(A)) }
DRV drv_own_sd_size(size_t r, size_t c, size_t n) { TRY(SD C(r, c, n)) }
DRV drv_own_sd_resize(SD& A, size_t r, size_t c, size_t n) { TRY(A.resize(r, c, n)) A.SD::~SD(); }
DRV drv_own_sd_dense(DD const& A, double t) { TRY(SD C(A)) }
DRV drv_own_sd_sum(SD const& A, SD const& B) { TRY(SD C(A + B)) }
DRV drv_own_dd_sum(DD const& A, DD const& B) { TRY(DD C(A + B)) }
DRV drv_own_dd_inc(DD& A, DD const& B) { TRY(A += B) A.DD::~DD(); }
DRV drv_own_dd_incs(DD& A, SD const& B) { TRY(A += B) A.DD::~DD(); }
DRV drv_own_sd_inc(SD& A, SD const& B) { TRY(A += B) A.SD::~SD(); }
DRV drv_own_dd_product(DD const& A, DD const& B, DD& C) { TRY(C = A * B) C.DD::~DD(); }
DRV drv_own_sd_product(SD const& A, SD const& B, SD& C) { TRY(C = A * B) C.SD::~SD(); }
DRV drv_own_sd_transpose(SD const& A) { TRY(SD C(transpose(A))) }
