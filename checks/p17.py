"""P17: every sum, difference and product of two dynamic matrix types is again a dynamic matrix type, of the documented kind."""
from vlib import *

PRELUDE = r'''
#include <boost/serialization/base_object.hpp>
#include <array>
#include <cassert>
#include "BlasBooster/Core/AllMatrixTypes.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include <type_traits>
using namespace BlasBooster;
// own list machinery: the library's is what P16 decides
template <class T, class L> struct in; template <class T, class... Ts> struct in<T, TypeList<Ts...>> : std::disjunction<std::is_same<T, Ts>...> {};
template <size_t I, class L> struct at; template <size_t I, class T, class... Ts> struct at<I, TypeList<T, Ts...>> : at<I - 1, TypeList<Ts...>> {};
template <class T, class... Ts> struct at<0, TypeList<T, Ts...>> { typedef T type; };
template <class L> struct len; template <class... Ts> struct len<TypeList<Ts...>> : std::integral_constant<size_t, sizeof...(Ts)> {};
typedef DynamicMatrixTypeList L;
template <size_t I> using Ty = typename at<I, L>::type;
// rank of representation and of element type; a multiple matrix counts as the wider of its halves
template <class T> struct er; template <> struct er<float> { enum { v = 1 }; }; template <> struct er<double> { enum { v = 2 }; }; template <> struct er<NullType> { enum { v = 0 }; };
constexpr int mx(int a, int b) { return a < b ? b : a; }
template <class T> struct rk { enum { rep = -1, elem = -1, multi = 0 }; };
template <class T, class P> struct rk<Matrix<Zero, T, P>> { enum { rep = 0, elem = 0, multi = 0 }; };
template <class T, class P> struct rk<Matrix<Sparse, T, P>> { enum { rep = 1, elem = er<T>::v, multi = 0 }; };
template <class T, class P> struct rk<Matrix<Dense, T, P>> { enum { rep = 2, elem = er<T>::v, multi = 0 }; };
template <class A, class B> struct rk<MultipleMatrix<A, B>> { enum { rep = mx(rk<A>::rep, rk<B>::rep), elem = mx(rk<A>::elem, rk<B>::elem), multi = 1 }; };
template <size_t I, size_t J> using Add = std::decay_t<decltype(std::declval<Ty<I> const&>() + std::declval<Ty<J> const&>())>;
template <size_t I, size_t J> using Sub = std::decay_t<decltype(std::declval<Ty<I> const&>() - std::declval<Ty<J> const&>())>;
template <size_t I, size_t J, class P> using Mul = std::decay_t<decltype((std::declval<Ty<I> const&>() * std::declval<Ty<J> const&>()).template execute<P>())>;
template <class R, size_t I, size_t J> constexpr bool sumok() { return int(rk<R>::rep) == mx(rk<Ty<I>>::rep, rk<Ty<J>>::rep) && int(rk<R>::elem) == mx(rk<Ty<I>>::elem, rk<Ty<J>>::elem); }
template <class R, size_t I, size_t J> constexpr bool mulok() { return (int(rk<Ty<I>>::rep) == 0 || int(rk<Ty<J>>::rep) == 0) ? int(rk<R>::rep) == 0 : int(rk<R>::elem) == mx(rk<Ty<I>>::elem, rk<Ty<J>>::elem) && int(rk<R>::rep) > 0; }
'''

def run(c):
    c.rules = ["for every ordered pair of types in the dynamic type list, the type computed by the compiler for A + B, A - B and (A * B).execute<Policy>() is in the list",
               "sum and difference: densest representation and widest element type of the two (a multiple matrix counts as the wider of its halves)",
               "product: zero if either operand is zero, otherwise not zero and with the wider element type",
               "the types the dynamic functors create are these same types"]
    c.assumptions = ["clang's type computation"]
    c.floor = 300
    r = witness(c, "length", PRELUDE, [("n%d" % k, "len<L>::value == %d" % k) for k in range(1, 20)])
    n = next(int(k[1:]) for k, v in r.items() if v[0] == "ok")
    c.units.append("dynamic type list of %d types" % n)
    items = []
    for i in range(n):
        for j in range(n):
            for nm, ty in [("sum", "Add<%d, %d>" % (i, j)), ("difference", "Sub<%d, %d>" % (i, j)), ("product-native", "Mul<%d, %d, Native>" % (i, j)), ("product-best", "Mul<%d, %d, TheBestPolicy>" % (i, j))]:
                f = "mulok" if nm.startswith("product") else "sumok"
                items.append(("%s-%d-%d-in-list" % (nm, i, j), "in<%s, L>::value" % ty))
                items.append(("%s-%d-%d-kind" % (nm, i, j), "%s<%s, %d, %d>()" % (f, ty, i, j)))
    res = witness(c, "pairs", PRELUDE, items)
    for k, e in items:
        st, txt = res[k]
        nm, i, j, what = re.match(r"(.*?)-(\d+)-(\d+)-(.*)", k).groups()
        t = "%s of list types %s and %s" % (nm, i, j)
        if st == "ok": c.ok(k, e)
        elif st == "ill": c.viol(k, "the %s has no type: %s" % (t, txt[-300:]), txt.split(": error")[0])
        else: c.viol(k, "the type of the %s is %s" % (t, "not in the dynamic type list" if what == "in-list" else "not of the documented representation and element type"), "include/BlasBooster/Core/BinaryFunctors.h, MatrixMultExp.h, Multiplication*.h")
