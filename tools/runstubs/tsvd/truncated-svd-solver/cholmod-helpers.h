#pragma once
#include <cholmod.h>
#include <Eigen/Core>
namespace truncated_svd_solver {
inline void freeIt(cholmod_sparse** p, cholmod_common& c) { cholmod_l_free_sparse(p, &c); }
inline void freeIt(cholmod_dense** p, cholmod_common& c) { cholmod_l_free_dense(p, &c); }
template<typename T> class SelfFreeingCholmodPtr {
public:
  explicit SelfFreeingCholmodPtr(T* p, cholmod_common& c) : _c(c), _p(p) {}
  SelfFreeingCholmodPtr(const SelfFreeingCholmodPtr&) = delete;
  ~SelfFreeingCholmodPtr() { reset(NULL); }
  void reset(T* p) { if (_p) freeIt(&_p, _c); _p = p; }
  SelfFreeingCholmodPtr& operator=(T* p) { reset(p); return *this; }
  operator T*() { return _p; }
  T* operator->() { return _p; }
  T** operator&() { return &_p; }
private:
  cholmod_common& _c;
  T* _p;
};
inline void eigenDenseToCholmodDenseView(const Eigen::VectorXd& v, cholmod_dense* d) {
  cholmod_dense s = cholmod_dense();
  s.nrow = v.size(); s.ncol = 1; s.nzmax = v.size(); s.d = v.size(); s.x = const_cast<double*>(v.data()); s.xtype = CHOLMOD_REAL; s.dtype = CHOLMOD_DOUBLE;
  *d = s;
}
}
