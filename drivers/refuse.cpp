// Every operation here is entered with an error it must detect: control must not come back normally.
#include "vp.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include <cmath>

DRV drv_diagonal_dd(DD& A, double v) { if (A.getNbRows() == A.getNbColumns()) return; DiagonalFiller<double> f(v); f(A); vp_probe("back"); }
DRV drv_diagonal_df(DF& A, float v) { if (A.getNbRows() == A.getNbColumns()) return; DiagonalFiller<float> f(v); f(A); vp_probe("back"); }
DRV drv_blocksize(size_t lo, size_t hi) { if (2*lo <= hi) return; BlockSizeGenerator g(lo, hi); vp_probe("back", g.min_block_size); }

// a shared pointer to an object the caller keeps
template <class M> inline std::shared_ptr<M> ref(M& m) { return std::shared_ptr<M>(std::shared_ptr<M>(), &m); }

#ifdef BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION
typedef MultipleMatrix<SD, DF> MM;
DRV drv_multiple_rows(SD& a, DF& b) { if (a.getNbRows() == b.getNbRows()) return; MM m(ref(a), ref(b)); vp_probe("back"); }
DRV drv_multiple_columns(SD& a, DF& b) { if (a.getNbColumns() == b.getNbColumns()) return; MM m(ref(a), ref(b)); vp_probe("back"); }
DRV drv_multiple_reset_rows(SD& a, DF& b) { if (a.getNbRows() == b.getNbRows()) return; MM m; m.reset(ref(a), ref(b)); vp_probe("back"); }
DRV drv_multiple_reset_columns(SD& a, DF& b) { if (a.getNbColumns() == b.getNbColumns()) return; MM m; m.reset(ref(a), ref(b)); vp_probe("back"); }
DRV drv_multiple_occupation(MM& m, double t) { m.getOccupation(t); vp_probe("back"); }
DRV drv_multiple_occupation_larger(MM& m, double v, double t) { m.isOccupationLargerThan(v, t); vp_probe("back"); }
DRV drv_multiple_norm(MM& m) { m.getNorm(); vp_probe("back"); }
DRV drv_multiple_norm_larger(MM& m, double v) { m.isNormLargerThan(v); vp_probe("back"); }
#endif

DRV drv_storage_resize(size_t n, double* p) { Storage<double, false, false, 0> e(p, n); e.resize(n + 1); vp_probe("back"); }
typedef Storage<double, false, true, 4> Fixed;
DRV drv_storage_fixed_list(std::initializer_list<double> l) { if (l.size() == 4) return; Fixed f(l); vp_probe("back", f.getDataPointer()); }
typedef Storage<double, false, true, 6> Other;
DRV drv_storage_fixed_convert(Other& o) { Fixed f(o); vp_probe("back", f.getDataPointer()); }
