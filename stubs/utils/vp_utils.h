// stand-ins for strings, tables and output: a string is its characters' address, a table is a list of pairs
#pragma once
#include <cstddef>
#include <utility>
#include <initializer_list>
extern "C" int vp_strcmp(const char*, const char*) noexcept __attribute__((const));
extern "C" void vp_probe(const char* tag, ...) noexcept;
extern "C" void vp_out(int what, ...) noexcept;
extern "C" void vp_full() __attribute__((noreturn));
#ifndef VP_CAPACITY
#define VP_CAPACITY 3
#endif
namespace std {
struct string {
    const char* p;
    string() : p("") {}
    string(const char* q) : p(q) {}
    string(size_t, char) : p("") {}
    string(string const& o) : p(o.p) {}
    string& operator=(string const& o) { p = o.p; return *this; }
    ~string() {}
    const char* c_str() const { return p; }
    const char* data() const { return p; }
    void swap(string& o) { const char* q = p; p = o.p; o.p = q; }
};
inline bool operator==(string const& a, string const& b) { return (a.p == b.p); }
inline bool operator!=(string const& a, string const& b) { return !(a.p == b.p); }
inline bool operator<(string const& a, string const& b) { return vp_strcmp(a.p, b.p) < 0; }
typedef string vp_string;

#ifdef VP_RECORD
// every entry made is an observed call
template <class T> inline void vp_entry(string const& k, T v) { vp_probe("name", k.p, (size_t)v); }
template <class T> inline void vp_entry(T k, string const& v) { vp_probe("value", v.p, (size_t)k); }
template <class K, class V> class vp_table {
    struct entry { K k; void operator=(V const& v) { vp_entry(k, v); } };
public:
    typedef pair<K, V>* const_iterator; typedef pair<K, V>* iterator; typedef pair<K, V> value_type;
    vp_table() {}
    vp_table(initializer_list<value_type> l) { for (auto const& x : l) vp_entry(x.first, x.second); }
    entry operator[](K const& k) { return {k}; }
    void insert(value_type const& x) { vp_entry(x.first, x.second); }
    void insert_or_assign(K const& a, V const& b) { vp_entry(a, b); }
    void emplace(K const& a, V const& b) { vp_entry(a, b); }
    void try_emplace(K const& a, V const& b) { vp_entry(a, b); }
    // the keys are meant to be distinct: none is found before it is entered
    iterator find(K const&) const { return 0; } iterator end() const { return 0; } size_t count(K const&) const { return 0; } V& at(K const&) const { vp_full(); }
};
#else
template <class K, class V> class vp_table {
public:
    typedef K key_type; typedef V mapped_type; typedef size_t size_type;
    struct value_type { K first; V second; };
    typedef value_type* iterator; typedef value_type const* const_iterator;
    vp_table() : n_(0) {}
    vp_table(initializer_list<pair<const K, V>> l) : n_(0) { for (auto const& x : l) insert(x); }
    iterator begin() { return a_; } iterator end() { return a_ + n_; }
    const_iterator begin() const { return a_; } const_iterator end() const { return a_ + n_; }
    const_iterator cbegin() const { return a_; } const_iterator cend() const { return a_ + n_; }
    iterator find(K const& k) { return const_cast<iterator>(look<0>(k)); }
    const_iterator find(K const& k) const { return look<0>(k); }
    size_t count(K const& k) const { return find(k) != end(); }
    size_t size() const { return n_; }
    bool empty() const { return n_ == 0; }
    void clear() { n_ = 0; }
    V& operator[](K const& k) { iterator it = find(k); if (it == end()) add(k, V()); return it->second; }
    V& at(K const& k) { iterator it = find(k); if (it == end()) vp_full(); return it->second; }
    V const& at(K const& k) const { const_iterator it = find(k); if (it == end()) vp_full(); return it->second; }
    template <class A, class B> pair<iterator, bool> emplace(A const& a, B const& b) { iterator it = find(a); if (it != end()) return {it, false}; add(a, b); return {it, true}; }
    template <class B> pair<iterator, bool> try_emplace(K const& a, B const& b) { return emplace(a, b); }
    template <class B> pair<iterator, bool> insert_or_assign(K const& a, B const& b) { iterator it = find(a); if (it != end()) { it->second = b; return {it, false}; } add(a, b); return {it, true}; }
    template <class A, class B> pair<iterator, bool> insert(pair<A, B> const& x) { return emplace(x.first, x.second); }
    pair<iterator, bool> insert(value_type const& x) { return emplace(x.first, x.second); }
    size_t erase(K const& k) { iterator it = find(k); if (it == end()) return 0; --n_; for (; it != end(); ++it) *it = it[1]; return 1; }
private:
    template <size_t I> value_type const* look(K const& k) const { if constexpr (I == VP_CAPACITY) return a_ + I; else return I == n_ || a_[I].first == k ? a_ + I : look<I + 1>(k); }
    void add(K const& k, V const& v) { if (n_ == VP_CAPACITY) vp_full(); a_[n_].first = k; a_[n_].second = v; ++n_; }
    size_t n_; value_type a_[VP_CAPACITY];
};
#endif
template <class K, class V, class... X> using map = vp_table<K, V>;
template <class K, class V, class... X> using unordered_map = vp_table<K, V>;

struct ostream {
    ostream& operator<<(string const& s) { vp_out(1, s.p); return *this; }
    ostream& operator<<(const char*) { vp_out(2, 0); return *this; }
    ostream& operator<<(char) { vp_out(2, 0); return *this; }
    ostream& operator<<(double v) { vp_out(3, v); return *this; }
    ostream& operator<<(long v) { vp_out(4, v); return *this; }
    ostream& operator<<(unsigned long v) { vp_out(4, v); return *this; }
    ostream& operator<<(int v) { vp_out(4, (long)v); return *this; }
    struct vp_manip { int w; int n; };
    ostream& operator<<(vp_manip m) { vp_out(5, m.w, m.n); return *this; }
    ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
    ostream& flush() { return *this; }
    long precision(int n) { vp_out(5, 1, n); return 0; }
};
extern ostream cout, cerr, clog;
inline ostream& endl(ostream& s) { vp_out(2, 0); return s; }
inline ostream& flush(ostream& s) { return s; }
inline ostream& fixed(ostream& s) { return s; }
inline ostream& scientific(ostream& s) { return s; }
inline ostream::vp_manip setprecision(int n) { return {1, n}; }
inline ostream::vp_manip setw(int n) { return {2, n}; }
}
