#pragma once
namespace truncated_svd_solver {
struct TruncatedSvdSolverOptions {
  TruncatedSvdSolverOptions() : columnScaling(true), epsNorm(1), epsSVD(2), epsQR(3), svdTol(4), qrTol(5), verbose(false) {}
  bool columnScaling; double epsNorm, epsSVD, epsQR, svdTol, qrTol; bool verbose;
};
}
