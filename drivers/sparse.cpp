// Sparse matrices that are made, copied, moved or resized as a whole.
#include "vp.h"
DRV drv_st_default(SD&) { SD C; probe("C", C); }
DRV drv_st_ctor(size_t r, size_t c, size_t k) { SD C(r, c, k); probe("C", C); }
DRV drv_st_ctorr(size_t r, size_t c, size_t k) { SDr C(r, c, k); probe("C", C); }
DRV drv_st_resize(SD& C, size_t r, size_t c, size_t k) { probe("A", C); C.resize(r, c, k); probe("C", C); }
DRV drv_st_resizer(SDr& C, size_t r, size_t c, size_t k) { probe("A", C); C.resize(r, c, k); probe("C", C); }
DRV drv_st_copy(SD const& A) { probe("A", A); SD C(A); probe("C", C); probe("A2", A); }
DRV drv_st_assign(SD const& A, SD& C) { if (&A == &C) __builtin_unreachable(); probe("A", A); C = A; probe("C", C); probe("A2", A); }
DRV drv_st_move(SD& A) { probe("A", A); SD C(std::move(A)); probe("C", C); }
DRV drv_st_moveassign(SD& A, SD& C) { if (&A == &C) __builtin_unreachable(); probe("A", A); C = std::move(A); probe("C", C); }
DRV drv_st_swap(SD& A, SD& B) { if (&A == &B) __builtin_unreachable(); probe("A", A); probe("B", B); swap(A, B); probe("C", A); probe("E", B); }
DRV drv_st_shrink(SD& A, size_t k) { probe("A", A); A.shrink(k); probe("C", A); }
