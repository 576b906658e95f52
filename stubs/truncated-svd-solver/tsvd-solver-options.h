#pragma once
namespace truncated_svd_solver {
struct TruncatedSvdSolverOptions {
  TruncatedSvdSolverOptions();
  bool columnScaling;
  double epsNorm;
  double epsSVD;
  double epsQR;
  double svdTol;
  double qrTol;
  bool verbose;
};
}
