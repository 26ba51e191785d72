// A small dense implementation of the truncated SVD solver, used when no
// environment answers.
#include <truncated-svd-solver/tsvd-solver.h>
#include <Eigen/Dense>
#include <algorithm>
namespace truncated_svd_solver {
void TruncatedSvdSolver::dense(const cholmod_sparse* A, std::ptrdiff_t j, bool scale, const Eigen::VectorXd* b, Eigen::VectorXd* x) {
    Eigen::MatrixXd J = toDense(A);
    const int n = (int)J.cols();
    Eigen::VectorXd s = Eigen::VectorXd::Ones(n);
    if (scale)
      for (int c = 0; c < n; ++c) { double nn = J.col(c).norm(); s(c) = nn > tsvd_options_.epsNorm ? 1.0 / nn : 0.0; }
    Eigen::MatrixXd Js = J * s.asDiagonal();
    const int nt = n - (int)j;
    Eigen::MatrixXd P = Js.leftCols(j), T = Js.rightCols(nt);
    Eigen::MatrixXd proj = Eigen::MatrixXd::Identity(J.rows(), J.rows());
    int qr = 0;
    Eigen::JacobiSVD<Eigen::MatrixXd> ps;
    if (j > 0 && J.rows() > 0) {
      ps.compute(P, Eigen::ComputeThinU | Eigen::ComputeThinV);
      ps.setThreshold(1e-10);
      qr = (int)ps.rank();
      Eigen::MatrixXd U = ps.matrixU().leftCols(qr);
      proj -= U * U.transpose();
    }
    Eigen::MatrixXd R = proj * T;
    Eigen::MatrixXd omega = R.transpose() * R;
    ans_ = ::verif::SvdAnswer();
    if (nt > 0) {
      Eigen::JacobiSVD<Eigen::MatrixXd> sv(omega, Eigen::ComputeFullU | Eigen::ComputeFullV);
      ans_.singularValues = sv.singularValues();
      const double tol = std::max(1e-10, 1e-10 * ans_.singularValues(0));
      int rank = 0;
      while (rank < nt && ans_.singularValues(rank) > tol) ++rank;
      ans_.svdTolerance = tol; ans_.qrTolerance = 1e-10;
      ans_.svdRank = rank; ans_.svdRankDeficiency = nt - rank;
      ans_.qrRank = qr; ans_.qrRankDeficiency = j - qr;
      ans_.matrixV = sv.matrixV(); ans_.matrixU = sv.matrixU();
      ans_.rowSpace = sv.matrixV().leftCols(rank);
      ans_.nullSpace = sv.matrixV().rightCols(nt - rank);
      Eigen::VectorXd inv = ans_.singularValues.head(rank).cwiseInverse();
      ans_.covariance = ans_.rowSpace * inv.asDiagonal() * ans_.rowSpace.transpose();
      ans_.rowSpaceCovariance = inv.asDiagonal();
      for (int i = 0; i < rank; ++i) ans_.svLog2Sum += std::log2(ans_.singularValues(i));
      ans_.memory = 1; ans_.peakMemory = 1; ans_.numFlops = 1;
    }
    if (b && x) {
      Eigen::VectorXd xt = Eigen::VectorXd::Zero(nt), xp = Eigen::VectorXd::Zero(j);
      if (nt > 0) xt = ans_.covariance * (R.transpose() * (proj * *b));
      if (j > 0 && qr > 0) xp = ps.solve(*b - T * xt);
      x->resize(n);
      x->head(j) = xp; x->tail(nt) = xt;
      *x = s.asDiagonal() * *x;
    }
  }
}
