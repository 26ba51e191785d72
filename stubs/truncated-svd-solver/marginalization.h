#ifndef VERIF_TSVD_MARGINALIZATION_H
#define VERIF_TSVD_MARGINALIZATION_H
#include <cstddef>
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <cholmod.h>
#include <truncated-svd-solver/tsvd-solver.h>
#include <verif_env.hpp>
namespace truncated_svd_solver {
// answered by the environment only
inline double marginalize(const cholmod_sparse* Jt, std::ptrdiff_t j, Eigen::MatrixXd& NS, Eigen::MatrixXd& CS, Eigen::MatrixXd& Sigma,
                          Eigen::MatrixXd& SigmaP, Eigen::MatrixXd& Omega, double = -1, double = -1) {
  auto* e = ::verif::Env::current();
  ::verif::SvdAnswer a;
  if (!e || !e->onMarginalize(Jt, j, a)) throw std::runtime_error("marginalize: not modelled");
  NS = a.nullSpace; CS = a.rowSpace; Sigma = a.covariance; SigmaP = a.rowSpaceCovariance; Omega = a.matrixU;
  return a.svLog2Sum;
}
}
#endif
