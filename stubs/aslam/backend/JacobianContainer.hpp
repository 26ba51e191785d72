#ifndef VERIF_ASLAM_BACKEND_JACOBIAN_CONTAINER_HPP
#define VERIF_ASLAM_BACKEND_JACOBIAN_CONTAINER_HPP

#include <map>
#include <stdexcept>

#include <Eigen/Core>

#include <aslam/backend/DesignVariable.hpp>

namespace aslam {
namespace backend {

class JacobianContainer {
 public:
  typedef std::map<DesignVariable*, Eigen::MatrixXd> map_t;
  typedef map_t::iterator iterator;
  typedef map_t::const_iterator const_iterator;
  explicit JacobianContainer(int rows) : _rows(rows) {}
  virtual ~JacobianContainer() {}
  void add(DesignVariable* dv, const Eigen::Ref<const Eigen::MatrixXd>& J) {
    if (!dv || !dv->isActive()) return;
    if (J.rows() != _rows || J.cols() != dv->minimalDimensions())
      throw std::runtime_error("JacobianContainer::add: wrong Jacobian size");
    map_t::iterator it = _jacobians.find(dv);
    if (it == _jacobians.end()) _jacobians.insert(std::make_pair(dv, Eigen::MatrixXd(J)));
    else it->second += J;
  }
  void clear() { _jacobians.clear(); }
  int rows() const { return _rows; }
  size_t numDesignVariables() const { return _jacobians.size(); }
  iterator begin() { return _jacobians.begin(); }
  iterator end() { return _jacobians.end(); }
  const_iterator begin() const { return _jacobians.begin(); }
  const_iterator end() const { return _jacobians.end(); }
  const map_t& jacobians() const { return _jacobians; }

 private:
  int _rows;
  map_t _jacobians;
};

}  // namespace backend
}  // namespace aslam
#endif
