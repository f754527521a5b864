// Dispatchers with recording handlers; the lists are of tag types, so that every handler names its own position.
#include "vp.h"
#include "BlasBooster/Utilities/exec_if.h"
#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Utilities/exec_dyn.h"
#include "BlasBooster/Utilities/exec_dyn_2dim.h"
#include "BlasBooster/Utilities/TypeChecker.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Norm.h"
#include <functional>
template <int K> struct Tag { static constexpr size_t typeIndex_ = K; };
typedef TypeList<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>, Tag<6>> Tags;
struct Rec { typedef void result_type;
    template <int K> void operator()(Tag<K>*) const { vp_probe("h", (size_t)K); }
    template <int K, int J> void operator()(Tag<K>*, Tag<J>*) const { vp_probe("h", (size_t)K, (size_t)J); }
    template <class T> void operator()(T*) const { vp_probe("h", GetIndex<T, DynamicMatrixTypeList>::value); } };
#ifdef PART1
DRV drv_if_tags(size_t i) { exec_if<Tags>(TypeChecker(i), Rec()); }
DRV drv_if_list(size_t i) { exec_if<DynamicMatrixTypeList>(TypeChecker(i), Rec()); }
DRV drv_if2_tags(size_t i, size_t j) { exec_if_2dim<Tags>(TypeChecker(i), TypeChecker(j), Rec()); }
template <size_t I> using Ty = typename GetType<I, DynamicMatrixTypeList>::type;
#define TI(K) DRV drv_index_##K(Ty<K> const& m) { vp_probe("ti", m.Ty<K>::getTypeIndex()); }
TI(0) TI(1) TI(2) TI(3) TI(4) TI(5) TI(6)
#endif
#ifdef PART2
template <class... Ts> struct Fun; // names its own types
template <int A> struct Fun<Tag<100>, Tag<A>> { enum { id = A }; };
template <int A, int B> struct Fun<Tag<100>, Tag<A>, Tag<B>> { enum { id = 8 * A + B }; };
struct Callee { typedef size_t result_type; size_t id; // what the table holds for one entry
    template <class F> constexpr Callee(F const&) : id(F::id) {}
    size_t operator()(DynamicMatrix const& a) const { vp_probe("call", id, &a); return id; }
    size_t operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { vp_probe("call", id, &a, &b); return id; } };
DRV drv_dyn1(DynamicMatrix const& a) { vp_probe("ta", a->getTypeIndex(), &a); vp_probe("r", exec_dyn<Tags, Fun, TypeList<Tag<100>>, Callee>(a)); }
DRV drv_dyn2(DynamicMatrix const& a, DynamicMatrix const& b) { vp_probe("ta", a->getTypeIndex(), &a); vp_probe("tb", b->getTypeIndex(), &b);
    vp_probe("r", exec_dyn_2dim<Tags, Fun, TypeList<Tag<100>>, Callee>(a, b)); }
#endif
#ifdef PART3
template <class L> void vp_list();
DRV drv_names() { vp_list<DynamicMatrixTypeList>(); }
DRV drv_add(DynamicMatrix& c, DynamicMatrix const& a, DynamicMatrix const& b) { vp_probe("ta", a->getTypeIndex()); vp_probe("tb", b->getTypeIndex()); c = a + b; }
DRV drv_sub(DynamicMatrix& c, DynamicMatrix const& a, DynamicMatrix const& b) { vp_probe("ta", a->getTypeIndex()); vp_probe("tb", b->getTypeIndex()); c = a - b; }
DRV drv_addassign(DynamicMatrix& a, DynamicMatrix const& b) { vp_probe("ta", a->getTypeIndex()); vp_probe("tb", b->getTypeIndex()); a += b; }
DRV drv_subassign(DynamicMatrix& a, DynamicMatrix const& b) { vp_probe("ta", a->getTypeIndex()); vp_probe("tb", b->getTypeIndex()); a -= b; }
DRV drv_mult(DynamicMatrix& c, DynamicMatrix const& a, DynamicMatrix const& b) { vp_probe("ta", a->getTypeIndex()); vp_probe("tb", b->getTypeIndex()); c = (a * b).template execute<Native>(); }
DRV drv_norm(DynamicMatrix const& a) { vp_probe("ta", a->getTypeIndex()); vp_probe("r", norm<NormOne>(a)); }
#endif
