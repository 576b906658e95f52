#pragma once
#include <cholmod.h>
namespace aslam { namespace backend {
template<typename I> class CompressedColumnMatrix {
public:
  CompressedColumnMatrix() { p[0] = 0; p[1] = 1; p[2] = 2; i[0] = 0; i[1] = 1; x[0] = 1; x[1] = 2; broken = false; }
  void getView(cholmod_sparse* v) {
    cholmod_sparse s = cholmod_sparse();
    s.nrow = 2; s.ncol = 2; s.nzmax = 2; s.p = p; s.i = i; s.x = x; s.stype = 0; s.itype = CHOLMOD_LONG; s.xtype = broken ? 77 : CHOLMOD_REAL;
    s.dtype = CHOLMOD_DOUBLE; s.sorted = 1; s.packed = 1;
    *v = s;
  }
  SuiteSparse_long p[3], i[2];
  double x[2];
  bool broken;              // a matrix that cannot be transposed
};
} }
