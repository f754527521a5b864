// Cached norms and counts (needs -fno-access-control).
// Every content of the table of counts is one opaque value: 0 is the empty table.
#include <cassert>
#include <cmath>
#include <map>
#include <memory>
#include <tuple>
#include <boost/serialization/base_object.hpp>
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
extern "C" size_t vp_map_has(void const* map, void const* kind, double a, double b) noexcept;
extern "C" size_t vp_map_size(void const* map) noexcept;
extern "C" __attribute__((pure)) size_t* vp_map_next(void const* map, void const* kind, double a, double b) noexcept;
extern "C" __attribute__((returns_nonnull)) size_t* vp_map_at(void const* map, void const* kind, double a, double b) noexcept;
#ifndef KEY
#define KEY NoBound
#define KEYA threshold_
#define KEYB threshold_
#endif
typedef BlasBooster::AbsoluteValueRangeChecker<double, BlasBooster::ExclusiveBound, BlasBooster::KEY> VC;
namespace std {
template <> class map<shared_ptr<BlasBooster::ValueCheckerBase>, size_t, BlasBooster::ValueCheckerLess>
{
public:
    typedef shared_ptr<BlasBooster::ValueCheckerBase> key_type; typedef pair<const key_type, size_t> value_type;
    size_t vp;
    map() : vp(0) {}
    map(map const& o) : vp(o.vp) {}
    map(map&& o) noexcept : vp(o.vp) { o.vp = 0; }
    map& operator = (map const& o) { vp = o.vp; return *this; }
    map& operator = (map&& o) noexcept { size_t x = o.vp; o.vp = 0; vp = x; return *this; }
    void swap(map& o) { size_t x = o.vp; o.vp = vp; vp = x; }
    void clear() { vp = 0; }
    static VC const& vc(key_type const& k) { return static_cast<VC const&>(*k); }
    size_t count(key_type const& k) const { return vp_map_has(this, *(void const* const*)k.get(), vc(k).KEYA, vc(k).KEYB); }
    size_t& operator [] (key_type const& k) const { return *vp_map_at(this, *(void const* const*)k.get(), vc(k).KEYA, vc(k).KEYB); }
    size_t& at(key_type const& k) const { return operator[](k); }
    // an iterator stands for the entry or for none
    // (the key of an entry found beyond the asked one is known only to be larger)
    struct iterator { size_t* p; key_type first; struct proxy { key_type const& first; size_t& second; proxy* operator -> () { return this; } };
        proxy operator -> () const { return proxy{first, *p}; }
        proxy operator * () const { return proxy{first, *p}; }
        bool operator == (iterator const& o) const { return p == o.p; } bool operator != (iterator const& o) const { return p != o.p; } };
    typedef iterator const_iterator;
    iterator end() const { return iterator{nullptr, key_type()}; }
    iterator find(key_type const& k) const { if (count(k)) return iterator{&operator[](k), k}; return end(); }
    iterator lower_bound(key_type const& k) const { if (count(k)) return iterator{&operator[](k), k}; return upper_bound(k); }
    iterator upper_bound(key_type const& k) const { return iterator{vp_map_next(this, *(void const* const*)k.get(), vc(k).KEYA, vc(k).KEYB), key_type()}; }
    struct key_compare { bool operator () (key_type const& a, key_type const& b) const { return a.get() != b.get() && (!a || !b || *a < *b); } };
    key_compare key_comp() const { return key_compare(); }
    iterator emplace_hint(iterator, key_type const& k, size_t v) { return emplace(k, v).first; }
    pair<iterator, bool> emplace(key_type const& k, size_t v) { if (count(k)) return {find(k), false}; operator[](k) = v; return {find(k), true}; }
    pair<iterator, bool> insert(pair<key_type, size_t> const& e) { return emplace(e.first, e.second); }
    pair<iterator, bool> insert(value_type const& e) { return emplace(e.first, e.second); }
    template <class K> pair<iterator, bool> try_emplace(K const& k, size_t v) { return emplace(k, v); }
    pair<iterator, bool> insert_or_assign(key_type const& k, size_t v) { bool h = count(k); operator[](k) = v; return {find(k), !h}; }
    size_t size() const { return vp_map_size(this); }
    bool empty() const { return vp == 0; }
};
}
#include "vp.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/BlockedMatrix.h"
typedef BlockedDenseMatrix BD;
typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> XD;
extern "C" __attribute__((pure)) double vp_norm(void const*) noexcept;
extern "C" __attribute__((pure)) size_t vp_count(void const*, double a, double b) noexcept;
extern "C" void vp_any(void*, void*, void*) noexcept;
namespace BlasBooster {
#define OPAQUE(M_) template <> struct NormFunctor<M_::parameter::NormType, M_> { double operator () (M_ const& m) const { return vp_norm(&m); } };
OPAQUE(DD) OPAQUE(DF) OPAQUE(DDr) OPAQUE(SD) OPAQUE(SF) OPAQUE(XD) OPAQUE(BD)
#define COUNTS(M_, T_, P_) template <> struct CountDesiredElementsFunctor<M_, T_, P_> { template <class X> size_t operator () (Matrix<M_,T_,P_> const& m, X const& c) const { return vp_count(&m, c.KEYA, c.KEYB); } };
COUNTS(Dense, double, DD::parameter) COUNTS(Dense, float, DF::parameter) COUNTS(Dense, double, DDr::parameter) COUNTS(Sparse, double, SD::parameter) COUNTS(Sparse, float, SF::parameter) COUNTS(Dense, double, XD::parameter)
}
template <class M> inline void st(const char* tag, M const& m) { vp_probe(tag, (size_t)m.isNormUpToDate_, m.norm_, m.nbDesiredElementsMap_.vp, m.getSize(), m.getNbRows(), m.getNbColumns(), 0); }
#define OTHER(A, C) if ((void*)&A == (void*)&C) __builtin_unreachable();
// queries
#if PART == 1
#define NORM(N, T) \
DRV drv_q_##N##_norm(T const& A) { st("A", A); double x = A.getNorm(); vp_probe("q", x, 0); st("C", A); } \
DRV drv_q_##N##_uptodate(T const& A) { st("A", A); vp_probe("q", (size_t)A.isNormUpToDate(), 0); st("C", A); } \
DRV drv_q_##N##_update(T const& A) { st("A", A); A.updateNorm(); st("C", A); } \
DRV drv_q_##N##_larger(T const& A, double v) { st("A", A); size_t x = A.isNormLargerThan(v); vp_probe("q", x, 0); st("C", A); } \
DRV drv_q_##N##_smaller(T const& A, double v) { st("A", A); size_t x = A.isNormSmallerThan(v); vp_probe("q", x, 0); st("C", A); }
NORM(dd, DD) NORM(df, DF) NORM(ddr, DDr) NORM(sd, SD) NORM(sf, SF) NORM(xd, XD) NORM(bd, BD)
DRV drv_z_norm(ZZ const& A) { vp_probe("q", A.getNorm(), 0); }
DRV drv_z_larger(ZZ const& A, double v) { vp_probe("q", (size_t)A.isNormLargerThan(v), 0); }
DRV drv_z_smaller(ZZ const& A, double v) { vp_probe("q", (size_t)A.isNormSmallerThan(v), 0); }
DRV drv_z_count(ZZ const& A, double t) { vp_probe("q", A.getNbOfSignificantElements(t), 0); }
DRV drv_z_occ(ZZ const& A, double t) { vp_probe("q", A.getOccupation(t), 0); }
DRV drv_z_occlarger(ZZ const& A, double v, double t) { vp_probe("q", (size_t)A.isOccupationLargerThan(v, t), 0); }
DRV drv_z_occsmaller(ZZ const& A, double v, double t) { vp_probe("q", (size_t)A.isOccupationSmallerThan(v, t), 0); }
#elif PART == 2
#define COUNT(N, T) \
DRV drv_c_##N##_count(T const& A, VC const& v) { st("A", A); VC u(v); vp_probe("v", v.KEYA, v.KEYB, *(void const* const*)&u, 0); size_t x = A.getNbOfSignificantElements(v); vp_probe("q", x, 0); st("C", A); } \
DRV drv_c_##N##_occ(T const& A, VC const& v) { st("A", A); double x = A.getOccupation(v); vp_probe("q", x, 0); } \
DRV drv_c_##N##_occlarger(T const& A, double b, VC const& v) { st("A", A); vp_probe("q", (size_t)A.isOccupationLargerThan(b, v), 0); } \
DRV drv_c_##N##_occsmaller(T const& A, double b, VC const& v) { st("A", A); vp_probe("q", (size_t)A.isOccupationSmallerThan(b, v), 0); }
COUNT(dd, DD) COUNT(df, DF) COUNT(ddr, DDr) COUNT(sd, SD) COUNT(sf, SF) COUNT(xd, XD)
#elif PART == 3
// every way a matrix gets another content
struct LoadAr { struct is_loading { static const bool value = true; }; template <class X> LoadAr& operator & (X& x) { vp_any(&x, 0, 0); return *this; } template <class X> LoadAr& operator & (X const& x) { vp_any((void*)&x, 0, 0); return *this; } };
#define CHG(N, T) \
DRV drv_n_##N##_cassign(T& A, T const& B) { OTHER(A, B) st("A", A); st("B", B); A = B; st("C", A); } \
DRV drv_n_##N##_massign(T& A, T& B) { OTHER(A, B) st("A", A); st("B", B); A = std::move(B); st("C", A); } \
DRV drv_n_##N##_copy(T const& B) { st("B", B); T A(B); st("C", A); } \
DRV drv_n_##N##_move(T& B) { st("B", B); T A(std::move(B)); st("C", A); } \
DRV drv_n_##N##_fresh(size_t) { T A; st("C", A); } \
DRV drv_n_##N##_swap(T& A, T& B) { OTHER(A, B) st("A", A); st("B", B); using std::swap; swap(A, B); st("C", A); st("D", B); }
#define RES(N, T) DRV drv_n_##N##_resize(T& A, size_t r, size_t c) { st("A", A); A.resize(r, c); st("C", A); } \
DRV drv_n_##N##_fresh2(size_t r, size_t c) { T A(r, c); st("C", A); }
#define LOAD(N, T) DRV drv_n_##N##_load(T& A, LoadAr& ar) { st("A", A); A.serialize(ar, 0u); st("C", A); }
#define VAL(N, T, V) DRV drv_n_##N##_value(T& A, V v) { st("A", A); A = v; st("C", A); } \
DRV drv_n_##N##_filled(T& A, size_t r, size_t c, V v) { st("A", A); A.resize(r, c, AllFiller<V>(v)); st("C", A); }
CHG(dd, DD) CHG(df, DF) CHG(ddr, DDr) CHG(sd, SD) CHG(sf, SF) CHG(xd, XD) CHG(bd, BD)
RES(dd, DD) RES(df, DF) RES(ddr, DDr) RES(sd, SD) RES(sf, SF)
DRV drv_n_bd_resize(BD& A, size_t r, size_t c, size_t p, size_t q) { st("A", A); A.resize(r, c, p, q); st("C", A); }
LOAD(dd, DD) LOAD(df, DF) LOAD(ddr, DDr) LOAD(bd, BD)
VAL(dd, DD, double) VAL(df, DF, float) VAL(ddr, DDr, double)
DRV drv_n_xd_value(XD& A, double v) { st("A", A); A = v; st("C", A); }
#elif PART == 4
// conversions, compound assignments and products into an existing matrix
#define CONV(N, TA, TB) DRV drv_n_##N##_conv(TA& A, TB const& B) { OTHER(A, B) st("A", A); A = B; st("C", A); } \
DRV drv_n_##N##_add(TA& A, TB const& B) { OTHER(A, B) st("A", A); A += B; st("C", A); } \
DRV drv_n_##N##_sub(TA& A, TB const& B) { OTHER(A, B) st("A", A); A -= B; st("C", A); }
CONV(dddf, DD, DF) CONV(dfdd, DF, DD) CONV(ddsd, DD, SD) CONV(sddd, SD, DD) CONV(sdsf, SD, SF) CONV(dfsd, DF, SD)
#define SELF(N, TA) DRV drv_n_##N##_add(TA& A, TA const& B) { OTHER(A, B) st("A", A); A += B; st("C", A); } \
DRV drv_n_##N##_sub(TA& A, TA const& B) { OTHER(A, B) st("A", A); A -= B; st("C", A); }
SELF(dd, DD) SELF(df, DF) SELF(ddr, DDr) SELF(sd, SD) SELF(sf, SF)
DRV drv_n_ddzz_add(DD& A, ZZ const& B) { st("A", A); A += B; st("S", A); }
DRV drv_n_ddzz_sub(DD& A, ZZ const& B) { st("A", A); A -= B; st("S", A); }
template <class M> struct VT { typedef typename M::value_type type; };
template <class P> struct VT<Matrix<Zero, NullType, P>> { typedef NullType type; };
#define MUL(N, MA, MB, MC) \
DRV drv_n_##N##_product(MC& A, MA const& B, MB const& C) { OTHER(A, B) OTHER(A, C) st("A", A); \
    MultiplicationFunctor<typename MA::matrix_type, typename VT<MA>::type, typename MA::parameter, \
        typename MB::matrix_type, typename VT<MB>::type, typename MB::parameter, \
        typename MC::matrix_type, typename VT<MC>::type, typename MC::parameter, Native>()(B, C, A); st("C", A); }
MUL(dddd, DD, DD, DD) MUL(dfdf, DF, DF, DF) MUL(sddd, SD, DD, DD) MUL(ddsd, DD, SD, DD) MUL(sdsd, SD, SD, SD) MUL(sfsd, SF, SD, SD) MUL(ddrddr, DDr, DDr, DDr)
#elif PART == 6 || PART == 7
// products delegated to a back end, whose entry points do nothing here
#define GEMM(I, G, T) void BlasInterface<I, G>::operator()(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* al, const T* a, const int* la, const T* b, const int* lb, const T* be, T* c, const int* lc) const {}
#if PART == 6
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#define I OpenBLAS
#else
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
#define I IntelMKL
#endif
namespace BlasBooster { GEMM(I, dgemm, double) GEMM(I, sgemm, float) }
#define MUL(N, M) \
DRV drv_n_##N##_product(M& A, M const& B, M const& C) { OTHER(A, B) OTHER(A, C) st("A", A); \
    MultiplicationFunctor<Dense, M::value_type, M::parameter, Dense, M::value_type, M::parameter, Dense, M::value_type, M::parameter, I>()(B, C, A); st("C", A); }
MUL(dddd, DD) MUL(dfdf, DF) MUL(ddrddr, DDr)
#elif PART == 5
// the public way to forget the counts
#define RESET(N, T) DRV drv_n_##N##_reset(T& A) { st("A", A); A.reset(); st("C", A); }
RESET(dd, DD) RESET(df, DF) RESET(ddr, DDr) RESET(sd, SD) RESET(sf, SF) RESET(xd, XD) RESET(bd, BD)
#endif
