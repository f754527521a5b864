// Kernels that are tracked, each with the slot it belongs to (compiled with BLASBOOSTER_USE_TRACKER).
#include "vp.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "BlasBooster/Core/Multiplication_Blaze.h"
template <class M> struct VT { typedef typename M::value_type type; };
template <class P> struct VT<Matrix<Zero, NullType, P>> { typedef NullType type; };
#define SLOT(ID) vp_probe("slot", (size_t)TrackerID::ID);
#define MUL(N, ID, MA, MB, MC, I) \
DRV drv_kernel_##N(MA const& A, MB const& B, MC& C) { SLOT(ID) \
    MultiplicationFunctor<typename MA::matrix_type, typename VT<MA>::type, typename MA::parameter, \
        typename MB::matrix_type, typename VT<MB>::type, typename MB::parameter, \
        typename MC::matrix_type, typename VT<MC>::type, typename MC::parameter, I>()(A, B, C); }
#ifdef PART1
MUL(native_dd, Native_GeneralDense, DD, DD, DD, Native) MUL(native_dsd, Native_GeneralDense, DD, DF, DD, Native) MUL(native_ddr, Native_GeneralDense, DDr, DDr, DDr, Native)
MUL(native_sd_sd, Native_sparse, SD, SD, SD, Native) MUL(native_sf_sf, Native_sparse, SF, SF, SF, Native)
MUL(native_sd_dd, Native_sparse_dense, SD, DD, DD, Native) MUL(native_sf_df, Native_sparse_dense, SF, DF, DF, Native)
MUL(native_dd_sd, Native_dense_sparse, DD, SD, DD, Native) MUL(native_df_sf, Native_dense_sparse, DF, SF, DF, Native)
MUL(native_dd_zz, Native_matrix_zero, DD, ZZ, ZZ, Native) MUL(native_sd_zz, Native_matrix_zero, SD, ZZ, ZZ, Native)
MUL(native_zz_dd, Native_zero_matrix, ZZ, DD, ZZ, Native) MUL(native_zz_sd, Native_zero_matrix, ZZ, SD, ZZ, Native)
MUL(native_zz_zz, Native_zero_zero, ZZ, ZZ, ZZ, Native)
#endif
#ifdef PART2
MUL(openblas_d, OpenBLAS_dgemm, DD, DD, DD, OpenBLAS) MUL(openblas_s, OpenBLAS_sgemm, DF, DF, DF, OpenBLAS)
MUL(mkl_d, IntelMKL_dgemm, DD, DD, DD, IntelMKL) MUL(mkl_s, IntelMKL_sgemm, DF, DF, DF, IntelMKL)
MUL(eigen_d, Eigen_dgemm, DD, DD, DD, EigenI) MUL(eigen_s, Eigen_sgemm, DF, DF, DF, EigenI)
MUL(eigen_sd, Eigen_sdgemm, DF, DD, DD, EigenI) MUL(eigen_ds, Eigen_dsgemm, DD, DF, DD, EigenI)
MUL(blaze_d, Blaze_dgemm, DD, DD, DD, Blaze) MUL(blaze_s, Blaze_sgemm, DF, DF, DF, Blaze)
MUL(blaze_sd, Blaze_sdgemm, DF, DD, DD, Blaze) MUL(blaze_ds, Blaze_dsgemm, DD, DF, DD, Blaze)
#endif
#ifdef PART3
MUL(mkl_dcsrmm, IntelMKL_dcsrmm, SD, DD, DD, IntelMKL) MUL(mkl_scsrmm, IntelMKL_scsrmm, SF, DF, DF, IntelMKL)
MUL(mkl_dcsrmultcsr, IntelMKL_dcsrmultcsr, SD, SD, SD, IntelMKL) MUL(mkl_scsrmultcsr, IntelMKL_scsrmultcsr, SF, SF, SF, IntelMKL)
DRV drv_kernel_detection(BlockSizeGenerator& g, DD const& A) { SLOT(get_detection_arrays) auto r = g.get_detection_arrays(A); vp_probe("r", &r); }
DRV drv_kernel_blocksize(BlockSizeGenerator& g, std::vector<double> const& d) { SLOT(get_block_size) auto r = g.get_block_size(d); vp_probe("r", &r); }
#endif
#ifdef PART4
DRV drv_add(TrackerID id, clock::duration const& d) { TrackerRegister::add(id, d); }
DRV drv_names() { vp_probe("size", (size_t)TrackerID::size); EnumParser<TrackerID> p; vp_probe("p", &p); }
DRV drv_print(std::ostream& os) { vp_probe("size", (size_t)TrackerID::size); TrackerRegister::print(os); }
#endif
