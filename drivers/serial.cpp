// Archives whose leaves are calls: what is written and what is read, in order.
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array_wrapper.hpp>
#include <boost/serialization/serialization.hpp>
#include "vp.h"
#include "BlasBooster/Utilities/BoostSerializePath.h"
extern "C" {
void vp_put_d(double) noexcept; void vp_put_f(float) noexcept; void vp_put_u(size_t) noexcept; void vp_put_p(void const*) noexcept; void vp_put_s(const char*, void const*) noexcept;
double vp_get_d() noexcept; float vp_get_f() noexcept; size_t vp_get_u() noexcept; void* vp_get_p() noexcept; void vp_get_s(const char*, void*) noexcept;
}
struct Out { typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading;
    Out& operator<<(double const& x) { vp_put_d(x); return *this; }
    Out& operator<<(float const& x) { vp_put_f(x); return *this; }
    Out& operator<<(size_t const& x) { vp_put_u(x); return *this; }
    Out& operator<<(bool const& x) { vp_put_u(x); return *this; }
    Out& operator<<(int const& x) { vp_put_u(x); return *this; }
    Out& operator<<(unsigned const& x) { vp_put_u(x); return *this; }
    template <class T> Out& operator<<(boost::serialization::array_wrapper<T> const& x) { for (size_t i = 0; i != x.count(); ++i) *this << x.address()[i]; return *this; }
    template <class T> Out& operator<<(boost::serialization::nvp<T> const& x) { vp_put_s(x.name(), &x.const_value()); return *this; }
    template <class T> Out& operator<<(T* const& x) { vp_put_p(x); return *this; }
    template <class T> Out& operator<<(T const& x) { boost::serialization::serialize_adl(*this, const_cast<T&>(x), 0); return *this; }
    template <class T> Out& operator&(T const& x) { return *this << x; } };
struct In { typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading;
    In& operator>>(double& x) { x = vp_get_d(); return *this; }
    In& operator>>(float& x) { x = vp_get_f(); return *this; }
    In& operator>>(size_t& x) { x = vp_get_u(); return *this; }
    In& operator>>(bool& x) { x = vp_get_u(); return *this; }
    In& operator>>(int& x) { x = vp_get_u(); return *this; }
    In& operator>>(unsigned& x) { x = vp_get_u(); return *this; }
    template <class T> In& operator>>(boost::serialization::array_wrapper<T> const& x) { for (size_t i = 0; i != x.count(); ++i) *this >> x.address()[i]; return *this; }
    template <class T> In& operator>>(boost::serialization::nvp<T> const& x) { vp_get_s(x.name(), &x.value()); return *this; }
    template <class T> In& operator>>(T*& x) { x = (T*)vp_get_p(); return *this; }
    template <class T> In& operator>>(T& x) { boost::serialization::serialize_adl(*this, x, 0); return *this; }
    template <class T> In& operator&(T& x) { return *this >> x; }
    template <class T> In& operator&(boost::serialization::nvp<T> const& x) { return *this >> x; }
    template <class T> In& operator&(boost::serialization::array_wrapper<T> const& x) { return *this >> x; } };
#define TT(N, ...) DRV drv_save_##N(__VA_ARGS__& m) { Out ar; ar & m; } DRV drv_load_##N(__VA_ARGS__& m) { In ar; ar & m; vp_probe("end", &m); }
TT(dense_d, DD)
TT(dense_f, DF)
TT(dense_r, DDr)
TT(dim, Dimension<VariableSize, ColP>)
typedef Storage<double, false, false, 0> St; typedef Storage<size_t, false, false, 0> Su; typedef Storage<float, false, false, 0> Sf; typedef Storage<double, false, true, 6> H6;
TT(storage_d, St)
TT(storage_u, Su)
TT(storage_f, Sf)
typedef SparseStorage<double, size_t, false, 0> SpS; typedef SparseStorage<float, size_t, false, 0> SpF;
TT(sparse_d, SpS)
TT(sparse_f, SpF)
TT(heap6, H6)
DRV drv_save_path(boost::filesystem::path& m) { Out ar; ar & m; }
DRV drv_load_path(boost::filesystem::path& m) { In ar; ar & m; vp_probe("end", &m); }
