// Contract of one iteration of InteriorPointSolver::optimize: the new iterate is the old one plus the (scaled) step returned
// by the line search times exactly the direction the line search was asked about, so that it stays strictly inside the cone.
// lineSearch, the statistics, the verdict and the linear solves are replaced by their contracts; Cone and scalings are real.
#include "kvh.hpp"
#include <solver/optimizer/IPSolver.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec;
struct LS { Vec ds, dz; double tau, dt, kappa, dk, a; };
static std::vector<LS> ls; static std::vector<Vec> points, sols; static std::vector<double> gam; static int judged; static double gamma_;
namespace solver {
void LinSolver::initialize(Cone& cone, SolverSetting& setting, SolverStorage& storage) { cone_ = &cone; setting_ = &setting; storage_ = &storage; int N = cone.extSizeProb(); perm_.resize(N); perm_.setIdentity(); invPerm_ = perm_; }
void LinSolver::initializeMatrix() {} void LinSolver::updateMatrix() {} FactStatus LinSolver::numericFactorization() { return FactStatus::Optimal; }
int LinSolver::solve(const Eigen::Ref<const Vec>&, OptimizationVector& d, bool) { Vec a(cone_->sizeProb()); for (int i = 0; i < a.size(); i++) a[i] = input("sol" + std::to_string(sols.size()) + "_" + std::to_string(i)); sols.push_back(a); d.xyz() = a; return 0; }
void LinSolver::matrixTransposeTimesVector(const Eigen::SparseMatrix<double>&, const Eigen::Ref<const Vec>&, Eigen::Ref<Vec>, bool, bool) {}
double InteriorPointSolver::lineSearch(const Eigen::Ref<const Vec>& ds, const Eigen::Ref<const Vec>& dz, double tau, double dt, double kappa, double dk) { LS r; r.ds = ds; r.dz = dz; r.tau = tau; r.dt = dt; r.kappa = kappa; r.dk = dk; r.a = ls.size() % 2 ? input("step", 0.1, 1) : kv::Real(0.5); ls.push_back(r); return r.a; }
ExitCode InteriorPointSolver::initializeVariables() { return ExitCode::Optimal; }
void InteriorPointSolver::computeResiduals() { points.push_back(opt_); residual_t_ = 0.0; res_.setZero(); }
void InteriorPointSolver::updateStatistics() { auto& I = optimization_info_; I.get(SolverDoubleParam_DualityGap) = 1.0; I.get(SolverDoubleParam_PrimalResidual) = 1.0; I.get(SolverDoubleParam_MeritFunction) = input("mu", 0.1, 1); I.get(SolverDoubleParam_PrimalInfeasibility) = 1.0; }
ExitCode InteriorPointSolver::convergenceCheck(const PrecisionConvergence&) { return judged++ ? ExitCode::Optimal : ExitCode::NotConverged; }
}
static void run(int n, int p, int l, std::vector<int> q) {
  for (auto f : {"optimize", "rhsAffineStep", "rhsCenteringPredictorStep"}) kv::under_contract(std::string("solver::InteriorPointSolver::") + f); kv::bounded("one iteration; up to 2 variables, 1 equality, 2 LP rows, one cone of size 2; every point, search direction, step and scaling");
  kv::assumption("callees of optimize (line search, residuals, statistics, verdict, linear solves) are replaced by their contracts, proved in the units ip and kkt"); kv::require_defined(false); kv::set_timeouts(1000, 20000);
  ls.clear(); points.clear(); sols.clear(); judged = 0; Cone cone; SolverStorage st; SolverSetting s; InteriorPointSolver ip; Eigen::VectorXi qi(q.size()); for (size_t i = 0; i < q.size(); i++) qi[i] = q[i]; cone.initialize(n, p, l, qi); st.initialize(cone, s); st.cleanCoeffs(); st.initializeMatrices(); int m = cone.sizeCone(); st.c().setZero(); st.b().setZero(); st.h().setZero();
  s.set(SolverIntParam_EquilibrationIters, 0); s.set(SolverBoolParam_Verbose, false); s.set(SolverIntParam_SolverMaxIters, 3); s.set(SolverDoubleParam_SafeGuard, 500.0); s.set(SolverDoubleParam_MinimumStepLength, 1e-7); double g = input("step scaling", 0.5, 0.99); kv::assume(kv::gt(g, 0.0)); kv::assume(kv::lt(g, 1.0)); s.set(SolverDoubleParam_StepLengthScaling, g); s.set(SolverDoubleParam_MaximumCenteringStep, 1.0); s.set(SolverDoubleParam_MinimumCenteringStep, 0.0001); ip.initialize(st, cone, s);
  auto& o = ip.opt_; for (int i = 0; i < n + p; i++) o[i] = input("o" + std::to_string(i)); o.tau() = input("tau", 0.2, 2); o.kappa() = input("kappa", 0.2, 2); kv::assume(kv::gt(o.tau(), 0.0)); kv::assume(kv::gt(o.kappa(), 0.0));
  Vec w(l), lam(l); for (int i = 0; i < l; i++) { w[i] = input("w" + std::to_string(i), 0.5, 2); lam[i] = input("lam" + std::to_string(i), 0.5, 2); kv::assume(kv::gt(w[i], 0.0)); kv::assume(kv::gt(lam[i], 0.0)); double sv = w[i] * lam[i], zv = lam[i] / w[i]; o.s()[i] = sv; o.z()[i] = zv; kv::lemma_sqrt("linear scaling", sv / zv, w[i]); }
  for (int i = l; i < m; i++) { o.s()[i] = i == l ? 1.25 : 0.75; o.z()[i] = i == l ? 1.25 : -0.75; }
  ip.optimize(); prove("one step was taken", points.size() == 2 && ls.size() == 2); if (points.size() != 2 || ls.size() != 2) return; Vec a = points[0], b = points[1]; LS& L = ls[1]; double step = L.a * g; const int K = n + p + m;
  prove_eq("the line search is asked about the current tau", L.tau, a[K]); prove_eq("the line search is asked about the current kappa", L.kappa, a[K + 1]); prove_eq("tau moves by the step along the searched direction", b[K], a[K] + step * L.dt); prove_eq("kappa moves by the step along the searched direction", b[K + 1], a[K + 1] + step * L.dk);
  Vec dz = b.segment(n + p, m) - a.segment(n + p, m), ds = b.segment(K + 2, m) - a.segment(K + 2, m); Vec Wdz(m), Wds(m); cone.conicNTScaling(dz, Wdz); cone.conicNTScaling(L.ds, Wds);
  for (int i = 0; i < m; i++) { prove_eq("z moves by the step along the searched direction", Wdz[i], step * L.dz[i]); prove_eq("s moves by the step along the searched direction", ds[i], step * Wds[i]); }
  for (int i = 0; i < n + p; i++) { double d1 = sols.back()[i], d2 = sols[0][i]; prove_eq("x and y move by the step along the combined solution", b[i], a[i] + step * (d1 + L.dt * d2)); }
  for (int i = 0; i < l; i++) { double D = input("D" + std::to_string(i)), E = input("E" + std::to_string(i)), al = L.a; kv::assume(kv::ge(lam[i] + al * D, 0.0)); kv::assume(kv::ge(al, 0.0)); double t = al * D; kv::lemma("scaled steps stop before the boundary", kv::gt(lam[i] + g * t, 0.0)); prove("so that the iterate stays strictly inside the cone", kv::gt(w[i] * (lam[i] + g * t), 0.0)); }
}
KV_CASE(iteration_lp) { run(1, 0, 1, {}); }
KV_CASE(iteration_lp2) { run(1, 1, 2, {}); }
KV_CASE(iteration_soc) { run(2, 1, 1, {2}); }
