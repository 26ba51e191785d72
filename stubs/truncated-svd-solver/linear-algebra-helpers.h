#ifndef VERIF_TSVD_LAH_H
#define VERIF_TSVD_LAH_H
#include <Eigen/Core>
#include <cholmod.h>
namespace truncated_svd_solver {
inline void eigenDenseToCholmodDenseView(const Eigen::VectorXd& in, cholmod_dense* out) {
  out->nrow = in.size(); out->ncol = 1; out->nzmax = in.size(); out->d = in.size();
  out->x = reinterpret_cast<void*>(const_cast<double*>(in.data()));
  out->z = nullptr; out->xtype = CHOLMOD_REAL; out->dtype = CHOLMOD_DOUBLE;
}
}
#endif
