// Contracts of the interior-point solver's own functions. LinSolver is replaced by its contracts (proved in the kkt unit).
#include "kvh.hpp"
#include <solver/optimizer/IPSolver.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static std::vector<Vec> rhss; static int nsolve; static bool init_flag; static std::vector<Vec> answers;
static Vec inv_perm_of(LinSolver& l, const Vec& pb) { Vec b(pb.size()); for (int i = 0; i < b.size(); i++) b[i] = pb[l.invPerm(i)]; return b; }
namespace solver {
void LinSolver::initialize(Cone& cone, SolverSetting& setting, SolverStorage& storage) { cone_ = &cone; setting_ = &setting; storage_ = &storage; int N = cone.extSizeProb(); perm_.resize(N); for (int i = 0; i < N; i++) perm_.indices()[i] = (i + 1) % N; invPerm_ = perm_.inverse(); }
void LinSolver::initializeMatrix() {} void LinSolver::updateMatrix() {} FactStatus LinSolver::numericFactorization() { return FactStatus::Optimal; }
int LinSolver::solve(const Eigen::Ref<const Vec>& pb, OptimizationVector& d, bool init) { rhss.push_back(inv_perm_of(*this, pb)); init_flag = init; Vec a(cone_->sizeProb()); for (int i = 0; i < a.size(); i++) a[i] = input("sol" + std::to_string(nsolve) + "_" + std::to_string(i)); nsolve++; answers.push_back(a); d.xyz() = a; return 0; }
void LinSolver::matrixTransposeTimesVector(const Eigen::SparseMatrix<double>& A, const Eigen::Ref<const Vec>& x, Eigen::Ref<Vec> y, bool add, bool is_new) { Vec r = Mat(A).transpose() * Vec(x); for (int i = 0; i < y.size(); i++) y[i] = (is_new ? kv::Real(0.0) : y[i]) + (add ? r[i] : -r[i]); }
}
struct Prob { Cone cone; SolverStorage st; SolverSetting s; InteriorPointSolver ip; Mat A, G; Vec b, c, h; int n, p, m, l; std::vector<int> q; };
static void setup(Prob& P, int n, int p, int l, std::vector<int> q) {
  rhss.clear(); answers.clear(); nsolve = 0; Eigen::VectorXi qi(q.size()); for (size_t i = 0; i < q.size(); i++) qi[i] = q[i]; P.n = n; P.p = p; P.l = l; P.q = q; P.cone.initialize(n, p, l, qi); P.st.initialize(P.cone, P.s); P.st.cleanCoeffs(); int m = P.m = P.cone.sizeCone();
  P.A = Mat(p, n); P.G = Mat(m, n); P.s.set(SolverIntParam_EquilibrationIters, 0); P.s.set(SolverBoolParam_Verbose, false);
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) { P.A(i, j) = input("A" + std::to_string(i) + std::to_string(j)); P.st.addCoeff(Eigen::Triplet<double>(i, j, P.A(i, j)), true); } for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { P.G(i, j) = input("G" + std::to_string(i) + std::to_string(j)); P.st.addCoeff(Eigen::Triplet<double>(i, j, P.G(i, j))); } P.st.initializeMatrices();
  P.b = Vec(p); P.c = Vec(n); P.h = Vec(m); for (int i = 0; i < p; i++) P.b[i] = input("b" + std::to_string(i)); for (int i = 0; i < n; i++) P.c[i] = input("c" + std::to_string(i)); for (int i = 0; i < m; i++) P.h[i] = input("h" + std::to_string(i)); P.st.b() = P.b; P.st.c() = P.c; P.st.h() = P.h;
  static const SolverDoubleParam T[] = {SolverDoubleParam_FeasibilityTol, SolverDoubleParam_DualityGapAbsTol, SolverDoubleParam_DualityGapRelTol, SolverDoubleParam_FeasibilityTolInacc, SolverDoubleParam_DualityGapAbsTolInacc, SolverDoubleParam_DualityGapRelTolInacc}; static const char* N[] = {"feastol", "abstol", "reltol", "feastol_in", "abstol_in", "reltol_in"};
  for (int i = 0; i < 6; i++) { double t = input(N[i], 0.1, 1.5); kv::assume(kv::gt(t, 0.0)); kv::assume(kv::lt(t, 1000.0)); P.s.set(T[i], t); }
  P.ip.initialize(P.st, P.cone, P.s);
}
static double norm(const Vec& v) { double s(0.0); for (int i = 0; i < v.size(); i++) s = s + v[i] * v[i]; return std::sqrt(s); }
static Vec get(const Vec& v, int i, int n) { return v.segment(i, n); }
static void heads(const std::string& b, std::vector<std::string> f) { for (auto& x : f) kv::under_contract("solver::InteriorPointSolver::" + x); kv::bounded(b); kv::set_max_paths(6000); kv::set_timeouts(1000, 20000);
  kv::assumption("LinSolver is replaced by its contracts (any solution of the linear system; sparse products as proved in the kkt unit); equilibration is proved in the equil unit"); }
static void prepared(Prob& P) { P.ip.initializeVariables(); }
// updateStatistics: every statistic is the stated function of the current point, its residuals and costs (all arbitrary)
static void arbitrary_state(Prob& P, Vec& x, Vec& y, Vec& z, Vec& s, int part = 3) {   // part 0: costs, 1: residuals, 2: certificates (the rest concrete), 3: everything
  auto& o = P.ip.opt_; for (int i = 0; i < o.size(); i++) o[i] = part == 0 && i < P.n + P.p ? kv::Real(0.5) : input("o" + std::to_string(i), 0.2, 1.5); kv::assume(kv::gt(o.tau(), 0.0)); kv::assume(kv::gt(o.kappa(), 0.0)); x = get(o, 0, P.n); y = get(o, P.n, P.p); z = get(o, P.n + P.p, P.m); s = get(o, P.n + P.p + P.m + 2, P.m);
  for (int i = 0; i < P.ip.res_.size(); i++) P.ip.res_[i] = part == 0 || part == 2 ? kv::Real(0.0) : input("res" + std::to_string(i)); bool costs = part != 1; P.ip.cx_ = costs ? input("cx") : kv::Real(0.0); P.ip.by_ = costs ? input("by") : kv::Real(0.0); P.ip.hz_ = costs ? input("hz") : kv::Real(0.0);
  for (auto p : {std::make_pair(&P.ip.residual_x_, "nx"), std::make_pair(&P.ip.residual_y_, "ny"), std::make_pair(&P.ip.residual_z_, "nz")}) { if (part < 2) { *p.first = 0.0; continue; } *p.first = input(p.second, 0, 1); kv::assume(kv::ge(*p.first, 0.0)); }
  for (auto p : {std::make_pair(&P.ip.inires_x_, "sx"), std::make_pair(&P.ip.inires_y_, "sy"), std::make_pair(&P.ip.inires_z_, "sz")}) { if (part == 0 || part == 2) { *p.first = 1.0; continue; } *p.first = input(p.second, 1, 2); kv::assume(kv::ge(*p.first, 1.0)); }
}
static void statistics(int part) { heads("1 variable, 1 equality, 1 LP row; every point, residual, cost and scale", {"updateStatistics"}); Prob P; setup(P, 1, 1, 1, {}); Vec x, y, z, s; arbitrary_state(P, x, y, z, s, part); auto& I = P.ip.optimization_info_; auto& R = P.ip; double tau = R.opt_.tau(), kappa = R.opt_.kappa(), rt = P.s.get(SolverDoubleParam_DualityGapRelTol); Vec o0 = R.opt_;
  R.updateStatistics(); for (int i = 0; i < o0.size(); i++) prove_eq("the point is left alone", R.opt_[i], o0[i]); double gap = s.dot(z), cx = R.cx_, byhz = R.by_ + R.hz_;
  prove_eq("primal cost is that of the point", I.get(SolverDoubleParam_PrimalCost) * tau, cx); prove_eq("dual cost is that of the point", I.get(SolverDoubleParam_DualCost) * tau, -byhz); prove_eq("gap is that of the point", I.get(SolverDoubleParam_DualityGap), gap); prove_eq("kappa/tau", I.get(SolverDoubleParam_KappaOverTau) * tau, kappa); prove_eq("merit function", I.get(SolverDoubleParam_MeritFunction) * (P.m + 1), gap + kappa * tau);
  double rel = I.get(SolverDoubleParam_RelativeDualityGap); if (cx < 0.0) prove_eq("relative gap over the primal cost", rel * -cx, gap * tau); else if (byhz < 0.0) prove_eq("relative gap over the dual cost", rel * -byhz, gap * tau); else prove_eq("no relative gap", rel, kv::Real(SolverSetting::nan));
  double pres = I.get(SolverDoubleParam_PrimalResidual), dres = I.get(SolverDoubleParam_DualResidual), ny = norm(R.res_.y()), nz = norm(R.res_.z()), nx = norm(R.res_.x()), A = R.inires_y_ + norm(x), B = R.inires_z_ + norm(x) + norm(s), C = R.inires_x_ + norm(y) + norm(z);
  prove_eq("dual residual", dres * tau * C, nx); if (ny / A < nz / B) prove_eq("primal residual is the larger one", pres * tau * B, nz); else prove_eq("primal residual is the larger one", pres * tau * A, ny);
  double yz = norm(y) + norm(z), xs = norm(x) + norm(s), n1 = norm(x), pi = I.get(SolverDoubleParam_PrimalInfeasibility), di = I.get(SolverDoubleParam_DualInfeasibility); double dyz = yz < 1.0 ? kv::Real(1.0) : yz, dx = n1 < 1.0 ? kv::Real(1.0) : n1, dxs = xs < 1.0 ? kv::Real(1.0) : xs;
  if (byhz < -rt * dyz) prove_eq("primal infeasibility measure", pi * dyz, R.residual_x_); else prove_eq("no primal certificate", pi, kv::Real(SolverSetting::nan));
  if (cx < -rt * dx) { if (R.residual_y_ * dxs < R.residual_z_ * dx) prove_eq("dual infeasibility measure is the larger one", di * dxs, R.residual_z_); else prove_eq("dual infeasibility measure is the larger one", di * dx, R.residual_y_); } else prove_eq("no dual certificate", di, kv::Real(SolverSetting::nan)); }
KV_CASE(statistics_costs) { statistics(0); }
KV_CASE(statistics_residuals) { statistics(1); }
KV_CASE(statistics_certificates) { statistics(2); }
// convergenceCheck: for arbitrary statistics, a success code is returned only if they meet the tolerances of the mode
KV_CASE(verdict) { heads("every statistic, cost and tolerance; both modes", {"convergenceCheck"}); Prob P; setup(P, 1, 1, 1, {}); Vec x, y, z, s; arbitrary_state(P, x, y, z, s); auto& I = P.ip.optimization_info_; bool full = kv::choice("full", 2); auto stat = [&](SolverDoubleParam p, const char* n) { return I.get(p) = input(n); };
  double pres = stat(SolverDoubleParam_PrimalResidual, "pres"), dres = stat(SolverDoubleParam_DualResidual, "dres"), gap = stat(SolverDoubleParam_DualityGap, "gap"), rel = stat(SolverDoubleParam_RelativeDualityGap, "rel"), pi = stat(SolverDoubleParam_PrimalInfeasibility, "pinf"), di = stat(SolverDoubleParam_DualInfeasibility, "dinf");
  double feas = P.s.get(full ? SolverDoubleParam_FeasibilityTol : SolverDoubleParam_FeasibilityTolInacc), ab = P.s.get(full ? SolverDoubleParam_DualityGapAbsTol : SolverDoubleParam_DualityGapAbsTolInacc), re = P.s.get(full ? SolverDoubleParam_DualityGapRelTol : SolverDoubleParam_DualityGapRelTolInacc), cx = P.ip.cx_, byhz = P.ip.by_ + P.ip.hz_, tau = P.ip.opt_.tau(), kappa = P.ip.opt_.kappa();
  ExitCode code = P.ip.convergenceCheck(full ? PrecisionConvergence::Full : PrecisionConvergence::Reduced); prove("the mode is recorded", I.mode() == (full ? PrecisionConvergence::Full : PrecisionConvergence::Reduced));
  if (code == (full ? ExitCode::Optimal : ExitCode::OptimalInacc)) { kv::cover("optimal"); prove("Optimal: primal residual within tolerance", kv::lt(pres, feas)); prove("Optimal: dual residual within tolerance", kv::lt(dres, feas)); prove("Optimal: gap within the absolute or relative tolerance", kv::por(kv::lt(gap, ab), kv::lt(rel, re))); }
  else if (code == (full ? ExitCode::PrimalInf : ExitCode::PrimalInfInacc)) { kv::cover("primal infeasible"); prove("PrimalInf: certificate residual within tolerance", kv::lt(pi, feas)); prove("PrimalInf: tau below kappa or both below the tolerance", kv::por(kv::lt(tau, kappa), kv::pand(kv::lt(tau, feas), kv::lt(kappa, feas)))); }
  else if (code == (full ? ExitCode::DualInf : ExitCode::DualInfInacc)) { kv::cover("dual infeasible"); prove("DualInf: certificate residual within tolerance", kv::lt(di, feas)); prove("DualInf: tau below kappa", kv::lt(tau, kappa)); }
  else { prove("the only other answer is: not converged", code == ExitCode::NotConverged); prove("a point that meets every tolerance is not called unconverged", kv::pnot(kv::pand(kv::pand(kv::lt(pres, feas), kv::lt(dres, feas)), kv::pand(kv::lt(gap, ab), kv::lt(cx, 0.0))))); } }
KV_CASE(residuals) { heads("2 variables, 1 equality, 1 LP row and a cone of size 2; data concrete except c, b, h", {"computeResiduals"}); Prob P; setup(P, 2, 1, 1, {2}); auto& o = P.ip.opt_; for (int i = 0; i < o.size(); i++) o[i] = input("o" + std::to_string(i)); P.ip.computeResiduals(); Vec x = get(o, 0, 2), y = get(o, 2, 1), z = get(o, 3, 3), s = get(o, 8, 3); double tau = o.tau();
  Vec rx = P.A.transpose() * y + P.G.transpose() * z + tau * P.c, ry = P.A * x - tau * P.b, rz = P.G * x + s - tau * P.h; for (int i = 0; i < 2; i++) prove_eq("dual residual vector", P.ip.res_.x()[i], -rx[i]); prove_eq("equality residual vector", P.ip.res_.y()[0], ry[0]); for (int i = 0; i < 3; i++) prove_eq("cone residual vector", P.ip.res_.z()[i], rz[i]);
  prove_eq("c'x", P.ip.cx_, P.c.dot(x)); prove_eq("b'y", P.ip.by_, P.b.dot(y)); prove_eq("h'z", P.ip.hz_, P.h.dot(z)); Vec hx = P.A.transpose() * y + P.G.transpose() * z, hy = P.A * x, hz = P.G * x + s; auto sq = [](const Vec& v) { double t = 0.0; for (int i = 0; i < v.size(); i++) t = t + v[i] * v[i]; return t; };
  prove_eq("the certificate residuals are the norms of the homogeneous residuals (dual)", P.ip.residual_x_ * P.ip.residual_x_, sq(hx)); prove_eq("the certificate residuals are the norms of the homogeneous residuals (equalities)", P.ip.residual_y_ * P.ip.residual_y_, sq(hy)); prove_eq("the certificate residuals are the norms of the homogeneous residuals (cone rows with slack)", P.ip.residual_z_ * P.ip.residual_z_, sq(hz)); prove("and not negative", kv::pand(kv::ge(P.ip.residual_x_, 0.0), kv::pand(kv::ge(P.ip.residual_y_, 0.0), kv::ge(P.ip.residual_z_, 0.0))));
  prove_eq("embedding residual", P.ip.residual_t_, o.kappa() + P.c.dot(x) + P.b.dot(y) + P.h.dot(z)); }
// starting point
KV_CASE(initial_point) { heads("2 variables, 1 equality, 1 LP row, cone of size 3", {"initializeVariables"}); Prob P; setup(P, 2, 1, 1, {3}); prove("initialisation succeeds", P.ip.initializeVariables() == ExitCode::Optimal); prove("two systems are solved", rhss.size() == 2); if (rhss.size() != 2) return; prove("with the unscaled matrix", init_flag);
  auto& o = P.ip.opt_; for (int i = 0; i < 2; i++) { prove_eq("first system: no dual term", rhss[0][i], 0.0); prove_eq("second system: -c", rhss[1][i], -P.c[i]); } prove_eq("first system: b", rhss[0][2], P.b[0]); prove_eq("second system: no b", rhss[1][2], 0.0);
  for (int i = 0; i < 4; i++) { prove_eq("first system: h", rhss[0][3 + i], P.h[i]); prove_eq("second system: no h", rhss[1][3 + i], 0.0); } for (int i = 0; i < 2; i++) { prove_eq("expansion rows are zero", rhss[0][7 + i], 0.0); prove_eq("expansion rows are zero", rhss[1][7 + i], 0.0); }
  for (int i = 0; i < 2; i++) prove_eq("x from the first system", o.x()[i], answers[0][i]); prove_eq("y from the second system", o.y()[0], answers[1][2]); prove_eq("tau", o.tau(), 1.0); prove_eq("kappa", o.kappa(), 1.0);
  Vec s = o.s(), z = o.z(); for (Vec* v : {&s, &z}) { prove("linear part starts strictly inside", kv::gt((*v)[0], 0.0)); prove("cone part starts strictly inside", kv::gt((*v)[1], 0.0)); prove("cone part starts strictly inside", kv::gt((*v)[1] * (*v)[1], (*v)[2] * (*v)[2] + (*v)[3] * (*v)[3])); }
  for (int i = 1; i < 3; i++) { prove_eq("projection only lifts the head", s[1 + i], -answers[0][3 + 1 + i]); prove_eq("projection only lifts the head", z[1 + i], answers[1][3 + 1 + i]); } }
// step length: the step never leaves the cone
static void steps(Prob& P) {
  double maxs = input("max_step", 0.5, 1), mins = input("min_step", 1e-7, 1e-6), thr = 1e-9; kv::assume(kv::gt(mins, 0.0)); kv::assume(kv::le(mins, maxs)); P.s.set(SolverDoubleParam_MaximumStepLength, maxs); P.s.set(SolverDoubleParam_MinimumStepLength, mins); P.s.set(SolverDoubleParam_DynamicRegularizationThresh, thr);
}
KV_CASE(line_search_lp) { heads("1..2 LP rows", {"lineSearch"}); Prob P; int l = 1 + kv::choice("l", 2); setup(P, 1, 0, l, {}); steps(P); Vec ds(l), dz(l), lam(l); for (int i = 0; i < l; i++) { ds[i] = input("ds" + std::to_string(i)); dz[i] = input("dz" + std::to_string(i)); lam[i] = input("lam" + std::to_string(i), 0.2, 2); kv::assume(kv::gt(lam[i], 0.0)); P.ip.lambda_[i] = lam[i]; }
  double tau = input("tau", 0.1, 2), dt = input("dt"), kap = input("kap", 0.1, 2), dk = input("dk"); kv::assume(kv::gt(tau, 0.0)); kv::assume(kv::gt(kap, 0.0)); kv::assume(kv::pnot(kv::eq(dt, 0.0))); kv::assume(kv::pnot(kv::eq(dk, 0.0))); double mins = P.s.get(SolverDoubleParam_MinimumStepLength), maxs = P.s.get(SolverDoubleParam_MaximumStepLength);
  double a = P.ip.lineSearch(ds, dz, tau, dt, kap, dk); prove("step at most the maximum", kv::le(a, maxs)); prove("step at least the minimum", kv::ge(a, mins)); auto clamp = kv::eq(a, mins);
  for (int i = 0; i < l; i++) { prove("s stays in the cone", kv::por(clamp, kv::ge(lam[i] + a * ds[i], 0.0))); prove("z stays in the cone", kv::por(clamp, kv::ge(lam[i] + a * dz[i], 0.0))); } prove("tau stays positive", kv::por(clamp, kv::ge(tau + a * dt, 0.0))); prove("kappa stays positive", kv::por(clamp, kv::ge(kap + a * dk, 0.0))); }
KV_CASE(line_search_soc) { heads("1 LP row with a fixed step and one cone of size 2", {"lineSearch"}); kv::require_defined(false); Prob P; setup(P, 1, 0, 1, {2}); steps(P); Vec ds(3), dz(3), lam(3); ds << 1.0, input("ds1"), input("ds2"); dz << 1.0, input("dz1"), input("dz2");
  // lambda = r (cosh, sinh) in rational form
  double r = input("r", 0.3, 2), t = input("t", -0.8, 0.8); kv::assume(kv::gt(r, 0.0)); kv::assume(kv::lt(t * t, 1.0)); double D = 1.0 - t * t; lam << 1.0, r * (1.0 + t * t) / D, r * 2.0 * t / D; for (int i = 0; i < 3; i++) P.ip.lambda_[i] = lam[i]; kv::lemma_sqrt("hyperbolic norm of lambda", lam[1] * lam[1] - lam[2] * lam[2], r);
  double mins = P.s.get(SolverDoubleParam_MinimumStepLength), maxs = P.s.get(SolverDoubleParam_MaximumStepLength); double a = P.ip.lineSearch(ds, dz, kv::Real(1.0), kv::Real(1.0), kv::Real(1.0), kv::Real(1.0)); prove("step at most the maximum", kv::le(a, maxs)); prove("step at least the minimum", kv::ge(a, mins)); auto clamp = kv::eq(a, mins);
  for (int which = 0; which < 2; which++) { Vec& d = which ? dz : ds; double u = lam[1] + a * d[1], v = lam[2] + a * d[2]; std::string w = which ? "z" : "s"; // cone of size 2: both light-cone coordinates stay non-negative
    prove(w + " stays in the cone (upper ray)", kv::por(clamp, kv::ge(u + v, 0.0))); prove(w + " stays in the cone (lower ray)", kv::por(clamp, kv::ge(u - v, 0.0))); } }
