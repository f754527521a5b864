// Recording stand-in for blaze (not installed): what the wrapper hands over is what is observed.
#pragma once
#include <cstddef>
extern "C" void vp_backend(const char* what, std::size_t elemC, void* C, std::size_t rowsC, std::size_t columnsC, std::size_t ldC,
    std::size_t elemA, const void* A, std::size_t rowsA, std::size_t columnsA, std::size_t ldA,
    std::size_t elemB, const void* B, std::size_t rowsB, std::size_t columnsB, std::size_t ldB);
namespace blaze {
enum AlignmentFlag { unaligned, aligned };
enum PaddingFlag { unpadded, padded };
constexpr bool rowMajor = false, columnMajor = true;
template <class A, class B> struct Prod { A const& a; B const& b; };
template <class A, class B> Prod<A, B> const& eval(Prod<A, B> const& x) { return x; }
template <class A, class B> Prod<A, B> const& noalias(Prod<A, B> const& x) { return x; }
// What a custom matrix hands over: a pointer, its extents, the distance of its lines.
template <class T, bool SO> struct View {
    typedef T value_type; static constexpr bool order = SO;
    T const* p; std::size_t r, c, ld;
    View(T const* p, std::size_t r, std::size_t c, std::size_t ld) : p(p), r(r), c(c), ld(ld) {}
    std::size_t rows() const { return r; }
    std::size_t columns() const { return c; }
};
template <class T> struct Plain { typedef T type; };
template <class T> struct Plain<T const> { typedef T type; };
template <class T, AlignmentFlag AF, PaddingFlag PF, bool SO = rowMajor> struct CustomMatrix : View<typename Plain<T>::type, SO> {
    typedef View<typename Plain<T>::type, SO> V;
    CustomMatrix(T* p, std::size_t r, std::size_t c, std::size_t ld) : V(p, r, c, ld) {}
    CustomMatrix(T* p, std::size_t r, std::size_t c) : V(p, r, c, SO ? r : c) {}
    template <class A, class B> CustomMatrix& operator=(Prod<A, B> const& x) {
        static_assert(A::order == SO && B::order == SO, "mixed storage orders");
        vp_backend(SO ? "product, column-major" : "product, row-major", sizeof(T), const_cast<T*>(this->p), this->r, this->c, this->ld, sizeof(typename A::value_type), x.a.p, x.a.r, x.a.c, x.a.ld,
            sizeof(typename B::value_type), x.b.p, x.b.r, x.b.c, x.b.ld);
        return *this;
    }
};
template <class T1, bool S1, class T2, bool S2> Prod<View<T1, S1>, View<T2, S2>> operator*(View<T1, S1> const& a, View<T2, S2> const& b) { return {a, b}; }
}
