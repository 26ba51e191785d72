// Stand-in for numpy_eigen's header: boost.python, with matrices handed over
// by value (the converters are the harness's).
#ifndef VERIF_NUMPY_EIGEN_HPP
#define VERIF_NUMPY_EIGEN_HPP
#include <boost/python.hpp>
#include <Eigen/Core>
namespace boost { namespace python { namespace detail {
template <> struct default_getter_by_ref<Eigen::MatrixXd> : mpl::bool_<false> {};
template <> struct default_getter_by_ref<Eigen::VectorXd> : mpl::bool_<false> {};
} } }
#endif
