// Contract of InteriorPointSolver::optimize against the contracts of its callees (modular): residuals, statistics, convergence
// test, step length, scalings and linear solves return arbitrary values allowed by their contracts; ghost state records
// which point each judgement was made about.
#include "kvh.hpp"
#include <solver/optimizer/IPSolver.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec;
static const SolverDoubleParam STATS[] = {SolverDoubleParam_PrimalCost, SolverDoubleParam_DualCost, SolverDoubleParam_DualityGap, SolverDoubleParam_KappaOverTau, SolverDoubleParam_MeritFunction, SolverDoubleParam_RelativeDualityGap, SolverDoubleParam_PrimalResidual, SolverDoubleParam_DualResidual, SolverDoubleParam_PrimalInfeasibility, SolverDoubleParam_DualInfeasibility};
struct Snap { Vec opt; std::vector<double> stats; double cx, by, hz; bool has_stats = false; };
static std::vector<Snap> snaps; static int judged, nsolve, nls, nresid; static bool affine; static ExitCode last; static Vec last_opt; static bool success; static double last_step;
static bool same(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!kv::valid(kv::eq(a[i], b[i]))) return false; return true; }
static int find(const Vec& v) { for (int i = (int)snaps.size() - 1; i >= 0; i--) if (same(snaps[i].opt, v)) return i; return -1; }
namespace solver {
void LinSolver::initialize(Cone& cone, SolverSetting& setting, SolverStorage& storage) { cone_ = &cone; setting_ = &setting; storage_ = &storage; int N = cone.extSizeProb(); perm_.resize(N); perm_.setIdentity(); invPerm_ = perm_; }
void LinSolver::initializeMatrix() {} void LinSolver::updateMatrix() {} FactStatus LinSolver::numericFactorization() { return kv::choice("factorization " + std::to_string(nls++), 4) == 3 ? FactStatus::Failure : FactStatus::Optimal; }
int LinSolver::solve(const Eigen::Ref<const Vec>&, OptimizationVector& d, bool) { nsolve++; Vec a(cone_->sizeProb()); for (int i = 0; i < a.size(); i++) a[i] = nsolve % 3 == 0 ? input("sol" + std::to_string(nsolve) + "_" + std::to_string(i)) : kv::Real(0.0); d.xyz() = a; return 0; }
void LinSolver::matrixTransposeTimesVector(const Eigen::SparseMatrix<double>&, const Eigen::Ref<const Vec>&, Eigen::Ref<Vec>, bool, bool) {}
ConeStatus Cone::updateNTScalings(const Vec&, const Vec&, Vec& lambda) { lambda.setOnes(); return kv::choice("scaling " + std::to_string(nls++), 3) == 2 ? ConeStatus::Outside : ConeStatus::Inside; }
void Cone::conicNTScaling(const Vec& z, Eigen::Ref<Vec> lambda) const { lambda.setOnes(); }
void Cone::conicDivision(const Eigen::Ref<const Vec>&, const Eigen::Ref<const Vec>&, Eigen::Ref<Vec> v) const { v.setOnes(); }
double InteriorPointSolver::lineSearch(const Eigen::Ref<const Vec>&, const Eigen::Ref<const Vec>&, double, double, double, double) { if (!affine) { affine = true; return kv::Real(0.5); } affine = false; return kv::choice("step " + std::to_string(nls++), 2) ? getSetting().get(SolverDoubleParam_MinimumStepLength) : kv::Real(0.5); }
void InteriorPointSolver::rhsAffineStep() {} void InteriorPointSolver::rhsCenteringPredictorStep() {}
ExitCode InteriorPointSolver::initializeVariables() { if (kv::choice("start", 3) == 2) return ExitCode::Indeterminate; for (int i = 0; i < opt_.size(); i++) opt_[i] = input("start" + std::to_string(i)); opt_.tau() = 1.0; opt_.kappa() = 1.0; optimization_info_.get(SolverDoubleParam_StepLength) = 0.0; return ExitCode::Optimal; }
void InteriorPointSolver::computeResiduals() { int k = find(opt_); if (k < 0) { Snap s; s.opt = opt_; std::string t = std::to_string(snaps.size()); s.cx = input("cx" + t); s.by = input("by" + t); s.hz = input("hz" + t); snaps.push_back(s); k = snaps.size() - 1; } cx_ = snaps[k].cx; by_ = snaps[k].by; hz_ = snaps[k].hz; residual_t_ = 0.0; res_.setZero(); }
void InteriorPointSolver::updateStatistics() { int k = find(opt_); prove("statistics are computed from the residuals of this very point", k >= 0 && kv::valid(kv::eq(cx_, snaps[k].cx)) && kv::valid(kv::eq(by_, snaps[k].by)) && kv::valid(kv::eq(hz_, snaps[k].hz))); if (k < 0) return;
  if (!snaps[k].has_stats) { for (int i = 0; i < 10; i++) { snaps[k].stats.push_back(i == 2 || i == 4 || i == 6 ? input("stat" + std::to_string(k) + "_" + std::to_string(i)) : i == 8 ? kv::Real(SolverSetting::nan) : kv::Real(1.0 / (k + 1 + i))); } snaps[k].has_stats = true; } for (int i = 0; i < 10; i++) optimization_info_.get(STATS[i]) = snaps[k].stats[i]; }
ExitCode InteriorPointSolver::convergenceCheck(const PrecisionConvergence& mode) {
  int k = find(opt_); prove("only evaluated points are judged", k >= 0 && snaps[k].has_stats); if (k < 0 || !snaps[k].has_stats) throw kv::Infeasible();
  bool st = true; for (int i = 0; i < 10; i++) st = st && kv::valid(kv::eq(optimization_info_.get(STATS[i]), snaps[k].stats[i])); prove("the statistics judged are those of this very point", st);
  prove("the costs judged are those of this very point", kv::valid(kv::eq(cx_, snaps[k].cx)) && kv::valid(kv::eq(by_, snaps[k].by)) && kv::valid(kv::eq(hz_, snaps[k].hz)));
  int c = kv::choice("verdict " + std::to_string(judged++), 3); bool full = mode == PrecisionConvergence::Full; last_opt = opt_; success = c != 0; last = c == 0 ? ExitCode::NotConverged : c == 1 ? (full ? ExitCode::Optimal : ExitCode::OptimalInacc) : (full ? ExitCode::PrimalInf : ExitCode::PrimalInfInacc); return last; }
}
static void run(int iters) {
  for (auto f : {"optimize", "saveIterateAsBest", "restoreBestIterate", "internalInitialization", "initialize"}) kv::under_contract(std::string("solver::InteriorPointSolver::") + f); kv::under_contract("solver::OptimizationInfo::operator=, isBetterThan"); kv::bounded("up to 2 iterations; 1 variable, 1 LP row; verdicts, statistics, factorisation failures and iterates arbitrary");
  kv::assumption("callees of optimize (residuals, statistics, verdict, step length, scalings, linear solves) are replaced by their contracts, proved in the units ip, cone and kkt"); kv::require_defined(false); kv::set_max_paths(60000); kv::set_timeouts(300, 10000);
  snaps.clear(); judged = nsolve = nls = 0; affine = success = false; last = ExitCode::Indeterminate; Cone cone; SolverStorage st; SolverSetting s; InteriorPointSolver ip; Eigen::VectorXi q(0); cone.initialize(1, 0, 1, q); st.initialize(cone, s); st.cleanCoeffs(); st.addCoeff(Eigen::Triplet<double>(0, 0, kv::Real(4.0))); st.initializeMatrices(); s.set(SolverIntParam_EquilibrationIters, 1); s.set(SolverBoolParam_Verbose, false);
  s.set(SolverIntParam_SolverMaxIters, iters); s.set(SolverDoubleParam_SafeGuard, 500.0); s.set(SolverDoubleParam_MinimumStepLength, 0.125); s.set(SolverDoubleParam_StepLengthScaling, 0.5); s.set(SolverDoubleParam_MaximumCenteringStep, 1.0); s.set(SolverDoubleParam_MinimumCenteringStep, 0.0001); ip.initialize(st, cone, s); Vec E = ip.equilibration_routine_.equilVec();
  ExitCode code = ip.optimize(); bool succ = code == ExitCode::Optimal || code == ExitCode::OptimalInacc || code == ExitCode::PrimalInf || code == ExitCode::PrimalInfInacc || code == ExitCode::DualInf || code == ExitCode::DualInfInacc;
  prove("success is reported only if the last verdict says so", !succ || (success && code == last)); prove("a verdict of success is not lost", !success || succ); prove("not converged is never returned", code != ExitCode::NotConverged);
  if (succ) { kv::cover("success"); OptimizationVector o = ip.optimalVector(); double tau = last_opt[2]; prove_eq("the point handed back is the judged one (x)", o[0] * E[0] * tau, last_opt[0]); prove_eq("the point handed back is the judged one (z)", o[1] * E[1] * tau, last_opt[1]); prove_eq("the point handed back is the judged one (s)", o[4] * tau, last_opt[4] * E[1]); }
}
KV_CASE(protocol_0) { run(0); }
KV_CASE(protocol_1) { run(1); }
KV_CASE(protocol_2) { run(2); }
