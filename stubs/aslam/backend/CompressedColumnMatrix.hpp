// Stand-in for aslam_backend's CompressedColumnMatrix.
#ifndef VERIF_ASLAM_BACKEND_CCM_HPP
#define VERIF_ASLAM_BACKEND_CCM_HPP

#include <cstddef>
#include <ostream>
#include <vector>

#include <Eigen/Core>
#include <cholmod.h>

namespace aslam {
namespace backend {

template <typename I>
class CompressedColumnMatrix {
 public:
  CompressedColumnMatrix() : _rows(0), _cols(0), _colPtr(1, 0) {}
  // a fixed pattern: every entry of the dense matrix is stored, so that the
  // view has well-defined, sorted columns
  void assign(const Eigen::MatrixXd& M) {
    _rows = M.rows(); _cols = M.cols();
    _colPtr.assign(1, 0); _rowInd.clear(); _values.clear();
    for (int c = 0; c < M.cols(); ++c) {
      for (int r = 0; r < M.rows(); ++r) { _rowInd.push_back(r); _values.push_back(M(r, c)); }
      _colPtr.push_back((I)_values.size());
    }
  }
  size_t rows() const { return _rows; }
  size_t cols() const { return _cols; }
  size_t nnz() const { return _values.size(); }
  double operator()(size_t r, size_t c) const {
    for (I k = _colPtr[c]; k < _colPtr[c + 1]; ++k) if ((size_t)_rowInd[k] == r) return _values[k];
    return 0.0;
  }
  Eigen::MatrixXd toDense() const {
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(_rows, _cols);
    for (size_t c = 0; c < _cols; ++c)
      for (I k = _colPtr[c]; k < _colPtr[c + 1]; ++k) M(_rowInd[k], c) = _values[k];
    return M;
  }
  // row, column and value of every entry, counted from one
  void writeMATLAB(std::ostream& o) const {
    for (size_t c = 0; c < _cols; ++c)
      for (I k = _colPtr[c]; k < _colPtr[c + 1]; ++k) o << _rowInd[k] + 1 << " " << c + 1 << " " << _values[k] << "\n";
  }
  void getView(cholmod_sparse* v) {
    static I none = 0; static double noneValue = 0;
    v->nrow = _rows; v->ncol = _cols; v->nzmax = _values.size();
    v->p = _colPtr.data();
    v->i = _rowInd.empty() ? &none : _rowInd.data();
    v->nz = nullptr;
    v->x = _values.empty() ? &noneValue : _values.data();
    v->z = nullptr;
    v->stype = 0;
    v->itype = sizeof(I) == 8 ? CHOLMOD_LONG : CHOLMOD_INT;
    v->xtype = CHOLMOD_REAL; v->dtype = CHOLMOD_DOUBLE; v->sorted = 1; v->packed = 1;
  }

 private:
  size_t _rows, _cols;
  std::vector<I> _colPtr, _rowInd;
  std::vector<double> _values;
};

}  // namespace backend
}  // namespace aslam
#endif
