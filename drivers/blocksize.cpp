// Block sizes: the set of borders is a formal ordered set, known only by what is put into it and taken out of it.
#include <cstddef>
#include <set>
#include <vector>
#include <iterator>
#include <initializer_list>
#include <tuple>
extern "C" void vp_set_new(void*) noexcept;
extern "C" void vp_set_insert(void*, size_t) noexcept;
extern "C" void vp_set_erase(void*, size_t) noexcept;
extern "C" size_t vp_set_size(void const*) noexcept __attribute__((pure));
extern "C" size_t vp_set_at(void const*, size_t) noexcept __attribute__((pure));
extern "C" size_t vp_set_lower(void const*, size_t) noexcept __attribute__((pure));
extern "C" size_t vp_set_upper(void const*, size_t) noexcept __attribute__((pure));
extern "C" size_t vp_set_find(void const*, size_t) noexcept __attribute__((pure));
struct VpSetIter {
    typedef std::bidirectional_iterator_tag iterator_category; typedef size_t value_type; typedef std::ptrdiff_t difference_type; typedef size_t const* pointer; typedef size_t const& reference;
    void const* s; size_t p; size_t v = 0;
    size_t operator*() const { return vp_set_at(s, p); }
    VpSetIter& operator++() { ++p; return *this; }
    VpSetIter& operator--() { --p; return *this; }
    VpSetIter operator++(int) { auto o = *this; ++p; return o; }
    VpSetIter operator--(int) { auto o = *this; --p; return o; }
    bool operator==(VpSetIter const& o) const { return p == o.p; }
    bool operator!=(VpSetIter const& o) const { return p != o.p; }
};
namespace std {
template <> class set<size_t> {
    char tag;
public:
    typedef VpSetIter iterator; typedef VpSetIter const_iterator; typedef size_t value_type; typedef size_t size_type;
    set() { vp_set_new(this); }
    set(std::initializer_list<size_t> l) { vp_set_new(this); for (auto x : l) vp_set_insert(this, x); }
    template <class I> set(I b, I e) { vp_set_new(this); for (; b != e; ++b) vp_set_insert(this, *b); }
    std::pair<iterator, bool> insert(size_t v) { vp_set_insert(this, v); return {iterator{this, vp_set_find(this, v)}, true}; }
    template <class... A> std::pair<iterator, bool> emplace(A... a) { return insert(size_t(a...)); }
    size_t erase(size_t v) { vp_set_erase(this, v); return 1; }
    iterator erase(iterator i) { vp_set_erase(this, *i); return i; }
    void clear() { vp_set_new(this); }
    size_t size() const { return vp_set_size(this); }
    bool empty() const { return vp_set_size(this) == 0; }
    iterator begin() const { return {this, 0}; }
    iterator end() const { return {this, vp_set_size(this)}; }
    iterator cbegin() const { return {this, 0}; }
    iterator cend() const { return {this, vp_set_size(this)}; }
    iterator lower_bound(size_t v) const { return {this, vp_set_lower(this, v)}; }
    iterator upper_bound(size_t v) const { return {this, vp_set_upper(this, v)}; }
    iterator find(size_t v) const { return {this, vp_set_find(this, v)}; }
    size_t count(size_t v) const { return vp_set_find(this, v) != vp_set_size(this); }
};
}
#include "vp.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
inline void lprobe(const char* t, std::vector<size_t> const& v) { vp_probe(t, v.data(), v.size()); }
#ifdef PARTORDER
DRV drv_order(std::vector<double> const& v) { vp_probe("v", v.data(), v.size()); auto r = sort_indices(v); lprobe("r", r); }
#endif
#ifdef PARTSIZES
DRV drv_sizes(BlockSizeGenerator const& G, std::vector<double> const& v) { vp_probe("v", v.data(), v.size()); vp_probe("G", G.min_block_size, G.max_block_size); auto r = G.get_block_size(v); lprobe("r", r); }
#endif
#ifdef PARTUSE
// what is computed from an array of differences is a formal function of its length
extern "C" size_t vp_fn_cut(size_t) noexcept __attribute__((const));
namespace BlasBooster { template <> inline std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<double> const& d) const { return std::vector<size_t>(1, vp_fn_cut(d.size())); } }
inline void use(const char* t, std::vector<size_t> const& v) { vp_probe(t, v.size(), v[0]); }
DRV drv_one(BlockSizeGenerator const& G, DD const& A) { probe("A", A); vp_probe("G", G.min_block_size, G.max_block_size); auto [r, c] = G(A); use("r", r); use("c", c); }
DRV drv_mult(BlockSizeGenerator const& G, DD const& A, DD const& B) { probe("A", A); probe("B", B); auto [r, k, c] = G.matrix_matrix_mult(A, B); use("r", r); use("k", k); use("c", c); }
DRV drv_limits(size_t a, size_t b) { BlockSizeGenerator G(a, b); vp_probe("G", G.min_block_size, G.max_block_size, a, b, (size_t)0); }
#endif
