// Blocked matrices: the blocks are formal matrices, known by address; their shapes, contents and products are opaque functions of it.
#include <memory>
#include <cstddef>
namespace BlasBooster { class MatrixBase; }
struct VpBlock {
    size_t getTypeIndex() const noexcept; size_t getNbRows() const noexcept; size_t getNbColumns() const noexcept; size_t getSize() const noexcept; double getNorm() const noexcept;
    bool isNormLargerThan(double) const noexcept; template <class F> double getOccupation(F const&) const noexcept; template <class F> bool isOccupationLargerThan(F const&, double = 0) const noexcept;
};
namespace std {
template <> class shared_ptr<BlasBooster::MatrixBase> {            // what is pointed to is of no concern, nor how long it lives
    BlasBooster::MatrixBase* p;
public:
    typedef BlasBooster::MatrixBase element_type;
    shared_ptr() : p(nullptr) {}
    shared_ptr(std::nullptr_t) : p(nullptr) {}
    template <class T> explicit shared_ptr(T* q) : p(reinterpret_cast<BlasBooster::MatrixBase*>(q)) {}
    template <class T> shared_ptr(shared_ptr<T> const& q) : p(reinterpret_cast<BlasBooster::MatrixBase*>(q.get())) {}
    template <class T> shared_ptr(shared_ptr<T> const& q, BlasBooster::MatrixBase* r) : p(r) {}
    shared_ptr(shared_ptr const&) = default;
    shared_ptr& operator=(shared_ptr const&) = default;
    BlasBooster::MatrixBase* get() const noexcept { return p; }
    VpBlock const* operator->() const noexcept { return reinterpret_cast<VpBlock const*>(p); }
    BlasBooster::MatrixBase& operator*() const noexcept { return *p; }
    explicit operator bool() const noexcept { return p; }
    void reset() { p = nullptr; }
    void swap(shared_ptr& o) { auto q = p; p = o.p; o.p = q; }
};
}
template <class T> struct VpCast { BlasBooster::MatrixBase* p;
    VpBlock const* operator->() const noexcept { return reinterpret_cast<VpBlock const*>(p); }
    T& operator*() const noexcept { return *reinterpret_cast<T*>(p); }
    operator std::shared_ptr<T>() const noexcept { return std::shared_ptr<T>(std::shared_ptr<T>(), reinterpret_cast<T*>(p)); } };
namespace std { template <class T> VpCast<T> static_pointer_cast(shared_ptr<BlasBooster::MatrixBase> const& r) noexcept { return VpCast<T>{r.get()}; } }
extern "C" size_t vp_fn_type(void const*) noexcept __attribute__((const));
extern "C" size_t vp_fn_rows(void const*) noexcept __attribute__((const));
extern "C" size_t vp_fn_columns(void const*) noexcept __attribute__((const));
extern "C" double* vp_fn_data(void const*) noexcept __attribute__((const));
extern "C" BlasBooster::MatrixBase* vp_fn_mul(void const*, void const*) noexcept __attribute__((const));
extern "C" BlasBooster::MatrixBase* vp_fn_add(void const*, void const*) noexcept __attribute__((const));
extern "C" BlasBooster::MatrixBase* vp_fn_convert(void const* data, size_t rows, size_t columns, size_t ld, void const* threshold) noexcept __attribute__((const));
size_t VpBlock::getTypeIndex() const noexcept { return vp_fn_type(this); }
size_t VpBlock::getNbRows() const noexcept { return vp_fn_rows(this); }
size_t VpBlock::getNbColumns() const noexcept { return vp_fn_columns(this); }
#include "vp.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> XD;
typedef BlockedDenseMatrix BD;
// sums of blocks (better matches than the library's operator)
#define PLUS(X, Y) inline DynamicMatrix operator+(DynamicMatrix X a, DynamicMatrix Y b) { return DynamicMatrix(vp_fn_add(a.get(), b.get())); }
namespace BlasBooster { PLUS(&, &&) PLUS(&, &) PLUS(&&, &) PLUS(&&, &&) PLUS(&, const&&) PLUS(const&&, &&) }
namespace BlasBooster {
template <> template <> inline DynamicMatrix MatrixMultExp<DynamicMatrix, DynamicMatrix>::execute<TheBestPolicy>() const { return DynamicMatrix(vp_fn_mul(ptrA.get(), ptrB.get())); }
template <> template <> inline DynamicMatrix MatrixMultExp<DynamicMatrix, DynamicMatrix>::execute<Native>() const { return DynamicMatrix(vp_fn_mul(ptrA.get(), ptrB.get())); }
template <> inline DynamicMatrix MatrixConverter::operator()(XD const& m, Threshold const& t) const { return DynamicMatrix(vp_fn_convert(m.getDataPointer(), m.getNbRows(), m.getNbColumns(), m.getLdRows(), &t)); }
template <> inline DD::Matrix(DynamicMatrix const& m) : dimension(vp_fn_rows(m.get()), vp_fn_columns(m.get())), storage(vp_fn_data(m.get()), vp_fn_rows(m.get()) * vp_fn_columns(m.get())) {}
template <> inline void copy(DD const& s, XD& d) { vp_probe("copy", s.getDataPointer(), s.getNbRows(), s.getNbColumns(), d.getDataPointer(), d.getNbRows(), d.getNbColumns(), d.getLdRows()); }
}
template <class M> inline void bprobe(const char* t, M const& m) { vp_probe(t, m.getNbRows(), m.getNbColumns(), m.getSize(), m.getUnblockedRows(), m.getUnblockedColumns(), (size_t)static_cast<typename M::storage const&>(m).size(), m.getDataPointer()); }
#ifdef PARTGEN
DRV drv_generate(DD const& A, std::vector<size_t> const& R, std::vector<size_t> const& C, Threshold const& t) { probe("A", A); vp_probe("lists", R.data(), R.size(), C.data(), C.size());
    BD B(BlockedMatrixGenerator()(A, R, C, t)); bprobe("B", B); }
#endif
#ifdef PARTJOIN
DRV drv_join(BD const& B) { bprobe("B", B); DD A(B); probe("C", A); }
#endif
#ifdef PARTTABLE
extern "C" double vp_fn_norm(void const*) noexcept __attribute__((const));
double VpBlock::getNorm() const noexcept { return vp_fn_norm(this); }

DRV drv_types(BD const& B) { bprobe("B", B); auto T(generateTypeMatrix(B)); probe("T", T); }
DRV drv_sizes(BD const& B) { bprobe("B", B); auto T(generateDimensionMatrix(B)); probe("T", T); }
DRV drv_norms(BD const& B) { bprobe("B", B); auto T(generateNormMatrix(B)); probe("T", T); }
DRV drv_counts(BD const& B, std::array<size_t, GetSize<DynamicMatrixTypeList>::value>& out) { bprobe("B", B); out = get_type_counting(B); vp_probe("out", out.data(), out.size()); }
#endif
#ifdef PARTMUL
DRV drv_mul(BD const& A, BD const& B, BD& C) { bprobe("A", A); bprobe("B", B); bprobe("C0", C); 
    MultiplicationFunctor<Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Native>()(A, B, C); bprobe("C", C); }
DRV drv_expr(BD const& A, BD const& B) { bprobe("A", A); bprobe("B", B); BD C((A * B).execute<TheBestPolicy>()); bprobe("C", C); }
#endif
