#ifndef VERIF_TSVD_CHOLMOD_HELPERS_H
#define VERIF_TSVD_CHOLMOD_HELPERS_H
#include <cholmod.h>
#include <cstddef>
namespace truncated_svd_solver {
template <typename T> struct CholmodFree;
template <> struct CholmodFree<cholmod_sparse> { static void free(cholmod_sparse** p, cholmod_common* c) { cholmod_l_free_sparse(p, c); } };
template <> struct CholmodFree<cholmod_dense> { static void free(cholmod_dense** p, cholmod_common* c) { cholmod_l_free_dense(p, c); } };
template <typename T>
class SelfFreeingCholmodPtr {
 public:
  SelfFreeingCholmodPtr(T* p, cholmod_common& c) : _p(p), _c(c) {}
  ~SelfFreeingCholmodPtr() { reset(nullptr); }
  SelfFreeingCholmodPtr(const SelfFreeingCholmodPtr&) = delete;
  SelfFreeingCholmodPtr& operator=(const SelfFreeingCholmodPtr&) = delete;
  void reset(T* p) { if (_p) CholmodFree<T>::free(&_p, &_c); _p = p; }
  T* get() const { return _p; }
  T* operator->() const { return _p; }
  T& operator*() const { return *_p; }
  operator T*() const { return _p; }
  T** operator&() { return &_p; }
 private:
  T* _p;
  cholmod_common& _c;
};
}
#endif
