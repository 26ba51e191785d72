#ifndef VERIF_TSVD_OPTIONS_H
#define VERIF_TSVD_OPTIONS_H
namespace truncated_svd_solver {
struct TruncatedSvdSolverOptions {
  TruncatedSvdSolverOptions() : columnScaling(false), epsNorm(1e-8), epsSVD(1e-8), epsQR(1e-8), svdTol(-1.0),
                                qrTol(-1.0), verbose(false) {}
  bool columnScaling;
  double epsNorm, epsSVD, epsQR, svdTol, qrTol;
  bool verbose;
};
}
#endif
