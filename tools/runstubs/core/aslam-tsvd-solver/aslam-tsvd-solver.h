// A solver whose outcome the demonstration scripts.
#pragma once
#include <cstddef>
#include <vector>
#include <Eigen/Core>
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
namespace sm { class PropertyTree; }
namespace aslam { namespace backend {
struct Outcome {            // one state of the system: index 0 scaled, 1 unscaled
  double value[2];          // every matrix the solver reports is filled with this
  double log2sum, svdTol, qrTol, flops;
  std::ptrdiff_t rankTheta, rankThetaDef, rankPsi, rankPsiDef;
  size_t peak, mem;
  int iterations;
  double JStart, JFinal;
  double move;              // what the optimisation adds to every active variable
  bool fail;
};
struct Script {
  static Outcome& next() { static Outcome o = Outcome(); return o; }
  static std::ptrdiff_t& margin() { static std::ptrdiff_t m = -1; return m; }
  static int& optimised() { static int n = 0; return n; }
  static std::vector<const DesignVariable*>& order() { static std::vector<const DesignVariable*> v; return v; }
};
class AslamTruncatedSvdSolver : public LinearSystemSolver {
public:
  struct Options { Options() : columnScaling(true), epsNorm(1e-10), epsSVD(1e-10), epsQR(1e-10), svdTol(-1), qrTol(-1), verbose(false) {}
    bool columnScaling; double epsNorm, epsSVD, epsQR, svdTol, qrTol; bool verbose; };
  AslamTruncatedSvdSolver(const Options& o = Options()) : _o(o), _marg(0), _stage(0) {}
  AslamTruncatedSvdSolver(const sm::PropertyTree&) : _marg(0), _stage(0) {}
  const Options& getOptions() const { return _o; }
  Options& getOptions() { return _o; }
  void setMargStartIndex(std::ptrdiff_t i) { _marg = i; Script::margin() = i; }
  std::ptrdiff_t getMargStartIndex() const { return _marg; }
  const CompressedColumnMatrix<std::ptrdiff_t>& getJacobianTranspose() const { return _J; }
  void take() { _c = Script::next(); _stage = _o.columnScaling ? 0 : 1; }
  bool analyzeMarginal() { _stage = 1; return true; }
  Eigen::VectorXd getSingularValues() const { return Eigen::VectorXd::Constant(1, 1 + _c.value[_stage]); }
  Eigen::MatrixXd getNullSpace() const { return Eigen::MatrixXd::Constant(1, 1, 2 + _c.value[_stage]); }
  Eigen::MatrixXd getRowSpace() const { return Eigen::MatrixXd::Constant(1, 1, 3 + _c.value[_stage]); }
  Eigen::MatrixXd getCovariance() const { return Eigen::MatrixXd::Constant(1, 1, 4 + _c.value[_stage]); }
  Eigen::MatrixXd getRowSpaceCovariance() const { return Eigen::MatrixXd::Constant(1, 1, 5 + _c.value[_stage]); }
  double getSingularValuesLog2Sum() const { return _stage ? _c.log2sum : 0.5 * _c.log2sum; }
  double getSVDTolerance() const { return _c.svdTol; }
  double getQRTolerance() const { return _c.qrTol; }
  std::ptrdiff_t getSVDRank() const { return _c.rankTheta; }
  std::ptrdiff_t getSVDRankDeficiency() const { return _c.rankThetaDef; }
  std::ptrdiff_t getQRRank() const { return _c.rankPsi; }
  std::ptrdiff_t getQRRankDeficiency() const { return _c.rankPsiDef; }
  size_t getPeakMemoryUsage() const { return _c.peak; }
  size_t getMemoryUsage() const { return _c.mem; }
  double getNumFlops() const { return _c.flops; }
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets, bool) { _dvs = dvs; _ets = ets; }
  void buildSystem(int, bool) {}
  std::vector<DesignVariable*> _dvs;
  std::vector<ErrorTerm*> _ets;
private:
  Options _o;
  std::ptrdiff_t _marg;
  int _stage;
  Outcome _c;
  CompressedColumnMatrix<std::ptrdiff_t> _J;
};
} }
