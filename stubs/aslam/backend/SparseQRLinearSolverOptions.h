#ifndef VERIF_ASLAM_BACKEND_SQRO_HPP
#define VERIF_ASLAM_BACKEND_SQRO_HPP
namespace aslam { namespace backend {
struct SparseQRLinearSolverOptions {
  bool colNorm = false, verbose = false;
  double qrTol = 0.02, normTol = 1e-8;
};
} }
#endif
