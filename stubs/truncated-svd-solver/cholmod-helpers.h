#pragma once
#include <cholmod.h>
#include <memory>
#include <Eigen/Core>
namespace truncated_svd_solver {
template<typename T>
class SelfFreeingCholmodPtr {
public:
  explicit SelfFreeingCholmodPtr(T* ptr, cholmod_common& common);
  SelfFreeingCholmodPtr(const SelfFreeingCholmodPtr&) = delete;
  ~SelfFreeingCholmodPtr();
  SelfFreeingCholmodPtr& operator=(T* ptr);
  void reset(T* ptr);
  operator T*();
  T* operator->();
  T** operator&();
private:
  cholmod_common& common_;
  T* ptr_;
};
void eigenDenseToCholmodDenseView(const Eigen::VectorXd& vector, cholmod_dense* view);
}
