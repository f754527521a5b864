// stand-in for <random>: making an engine, seeding and copying it and drawing from it are calls of unknown functions
#pragma once
extern "C" {
unsigned long vp_get_rng(unsigned long seed) noexcept;
unsigned long vp_get_rngcopy(unsigned long rng) noexcept;
unsigned vp_get_device(void) noexcept;
double vp_get_real(unsigned long rng, double a, double b) noexcept;
long vp_get_int(unsigned long rng, long a, long b) noexcept;
bool vp_get_bool(unsigned long rng, double p) noexcept;
unsigned long vp_get_raw(unsigned long rng) noexcept;
double vp_get_other(unsigned long rng, int kind, double a, double b) noexcept;
}
namespace std {
template <int Kind> struct vp_rng {
    typedef unsigned long result_type;
    static constexpr result_type default_seed = Kind == 2 || Kind == 3 ? 5489u : 1u;
    unsigned long h;
    vp_rng() : h(vp_get_rng(default_seed)) {}
    template <class S> explicit vp_rng(S const& s) : h(vp_get_rng(s)) {}
    vp_rng(vp_rng const& o) : h(vp_get_rngcopy(o.h)) {}
    vp_rng(vp_rng& o) : h(vp_get_rngcopy(o.h)) {}
    vp_rng& operator=(vp_rng const& o) { h = vp_get_rngcopy(o.h); return *this; }
    void seed() { h = vp_get_rng(default_seed); }
    template <class S> void seed(S const& s) { h = vp_get_rng(s); }
    void discard(unsigned long long) { vp_get_raw(h); }
    result_type operator()() { return vp_get_raw(h); }
    static constexpr result_type min() { return Kind > 1 ? 0 : 1; }
    static constexpr result_type max() { return Kind == 3 ? ~0ul : Kind == 2 ? 4294967295ul : 2147483646ul; }
};
typedef vp_rng<0> default_random_engine; typedef vp_rng<0> minstd_rand0; typedef vp_rng<1> minstd_rand;
typedef vp_rng<2> mt19937; typedef vp_rng<3> mt19937_64; typedef vp_rng<4> knuth_b; typedef vp_rng<5> ranlux24; typedef vp_rng<6> ranlux48;
struct random_device {
    typedef unsigned result_type;
    random_device() {}
    unsigned operator()() { return vp_get_device(); }
    operator unsigned() { return vp_get_device(); }
    static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 4294967295u; }
};
template <class T, class Id> struct vp_dist {
    typedef T result_type;
    struct param_type { T a_, b_; param_type(T a = 0, T b = 1) : a_(a), b_(b) {} T a() const { return a_; } T b() const { return b_; } };
    param_type p_;
    vp_dist(T a, T b) : p_(a, b) {}
    T a() const { return p_.a_; } T b() const { return p_.b_; } T min() const { return p_.a_; } T max() const { return p_.b_; }
    param_type param() const { return p_; } void param(param_type const& p) { p_ = p; } void reset() {}
};
template <class T = double> struct uniform_real_distribution : vp_dist<T, uniform_real_distribution<T>> {
    typedef typename vp_dist<T, uniform_real_distribution>::param_type param_type;
    explicit uniform_real_distribution(T a = 0, T b = 1) : vp_dist<T, uniform_real_distribution>(a, b) {}
    explicit uniform_real_distribution(param_type const& p) : vp_dist<T, uniform_real_distribution>(p.a_, p.b_) {}
    template <class E> T operator()(E& e) { return vp_get_real(e.h, this->p_.a_, this->p_.b_); }
    template <class E> T operator()(E& e, param_type const& p) { return vp_get_real(e.h, p.a_, p.b_); }
};
template <class T = int> struct uniform_int_distribution : vp_dist<T, uniform_int_distribution<T>> {
    typedef typename vp_dist<T, uniform_int_distribution>::param_type param_type;
    explicit uniform_int_distribution(T a = 0, T b = static_cast<T>(~(~0ull << (8 * sizeof(T) - (static_cast<T>(-1) < static_cast<T>(0)))))) : vp_dist<T, uniform_int_distribution>(a, b) {}
    explicit uniform_int_distribution(param_type const& p) : vp_dist<T, uniform_int_distribution>(p.a_, p.b_) {}
    template <class E> T operator()(E& e) { return vp_get_int(e.h, this->p_.a_, this->p_.b_); }
    template <class E> T operator()(E& e, param_type const& p) { return vp_get_int(e.h, p.a_, p.b_); }
};
struct bernoulli_distribution {
    typedef bool result_type; double p_;
    explicit bernoulli_distribution(double p = 0.5) : p_(p) {}
    template <class E> bool operator()(E& e) { return vp_get_bool(e.h, p_); }
};
template <int Kind, class T> struct vp_dist2 {
    typedef T result_type; double a_, b_;
    explicit vp_dist2(double a = 0, double b = 1) : a_(a), b_(b) {}
    template <class E> T operator()(E& e) { return vp_get_other(e.h, Kind, a_, b_); }
};
template <class T = double> struct normal_distribution : vp_dist2<1, T> { using vp_dist2<1, T>::vp_dist2; };
template <class T = double> struct exponential_distribution : vp_dist2<2, T> { using vp_dist2<2, T>::vp_dist2; };
template <class T = double> struct lognormal_distribution : vp_dist2<3, T> { using vp_dist2<3, T>::vp_dist2; };
template <class T = int> struct binomial_distribution : vp_dist2<4, T> { using vp_dist2<4, T>::vp_dist2; };
template <class T = int> struct poisson_distribution : vp_dist2<5, T> { using vp_dist2<5, T>::vp_dist2; };
}
