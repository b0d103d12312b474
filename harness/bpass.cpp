// C12: contract of BackwardPass::optimizeController. The conic model used for control limits is replaced by its contract
// (C01, C02, C06): it returns the minimiser of the objective handed to it over the constraints handed to it.
#include "kvh.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/BackwardPass.hpp>
using namespace solverlqr; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::por; using kv::truth; using kv::Prop;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static std::string S(int i) { return std::to_string(i); }
static Mat sym(const std::string& n, int r, int c) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = input(n + "." + S(i) + S(j)); return m; }
static Mat num(int seed, int r, int c) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { seed = (seed * 1103515245 + 12345) & 0x7fffffff; m(i, j) = double((seed >> 8) % 9 - 4) / kv::Real(2); } return m; }
template <class A, class B> static Prop same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return truth(false);
  Prop p = truth(true); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) p = pand(p, eq(a(i, j), b(i, j))); return p;
}
static Mat half(const Mat& m) { Mat r = m; for (int i = 0; i < r.rows(); i++) for (int j = 0; j < r.cols(); j++) r(i, j) = m(i, j) / 2; return r; }
// ------------------------------------------------------------------ contract of the conic model
struct LC { solver::LinExpr a; std::string s; solver::LinExpr b; };
static std::vector<LC> lincons; static solver::DCPQuadExpr objq; static solver::LinExpr objl; static std::vector<solver::Var> mvars; static int nobj;
static std::function<void()> solve;
namespace solver {
void SolverSetting::initialize(const std::string, const std::string) {}
void ConicProblem::clean() { lincons.clear(); mvars.clear(); nobj = 0; objq = DCPQuadExpr(); objl = LinExpr(); }
Var ConicProblem::addVar(const VarType& type, double lb, double ub, double guess) { Var v(mvars.size(), type, lb, ub, guess); mvars.push_back(v); return v; }
void ConicProblem::addLinConstr(const LinExpr& lhs, const std::string sense, const LinExpr& rhs) { lincons.push_back({lhs, sense, rhs}); }
void ConicProblem::setObjective(const DCPQuadExpr& q, const LinExpr& l) { nobj++; objq = q; objl = l; }
ExitCode Model::optimize() { solve(); return ExitCode::Optimal; }
}
// ------------------------------------------------------------------
struct Ocp : OcpBase { void configure(const YAML::Node&) override {} StateBase dynamics(const StateBase& s, const ControlBase&, int) override { return s; } double objective(const StateBase&, const ControlBase&, int, bool) override { return 0.0; } };
struct P { int t, x, u; SolverLqrSetting s; Ocp o; FiniteDifferences d; ForwardPass f; BackwardPass b; };
static void fill(FiniteDifferences& d, ForwardPass& f, int t, int x, int u) { d = FiniteDifferences(); for (int k = 0; k <= t; k++) { d.cx_seq_.push_back(Mat::Zero(x, 1)); d.cu_seq_.push_back(Mat::Zero(u, 1)); d.cxx_seq_.push_back(Mat::Zero(x, x)); d.cxu_seq_.push_back(Mat::Zero(x, u)); d.cuu_seq_.push_back(Mat::Zero(u, u)); if (k < t) { d.fx_seq_.push_back(Mat::Zero(x, x)); d.fu_seq_.push_back(Mat::Zero(x, u)); } } f.timestep_cost_ = sym("c", t + 1, 1); }
static void setup(P& p, int t, int x, int u, bool lim) { p.t = t; p.x = x; p.u = u; p.s.get(SolverLqrIntParam_TimeDimension) = t; p.s.get(SolverLqrIntParam_StateDimension) = x; p.s.get(SolverLqrIntParam_ControlDimension) = u; p.s.get(SolverLqrBoolParam_HasControlLimits) = lim; p.o.initialize(p.s); fill(p.d, p.f, t, x, u); p.b.initialize(&p.o, p.s); }
static Mat symm(const std::string& n, int k) { Mat m(k, k); for (int i = 0; i < k; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = input(n + "." + S(i) + S(j)); return m; }
static void heads(const std::string& b) { for (auto f : {"initialize", "optimizeController", "hasDiverged", "divergeIteration", "controlSeq"}) kv::under_contract(std::string("solverlqr::BackwardPass::") + f); kv::bounded(b); kv::lazy_max(true); kv::set_tol(1e-5); }
// value of the quadratic model of step k under du = l + L dx:  pieces computed from the definition, not from the recursion
struct Model { double c; Vec q, r; Mat Q, R, Pm, A, B; double v; Vec vx; Mat vxx; double lam;
  // q(dx,du) = c + q'dx + r'du + 1/2 dx'Q dx + du'P dx + 1/2 du'(R+lam I) du + v + vx'(A dx + B du) + 1/2 (..)'vxx(..)
  double at(const Vec& dx, const Vec& du) const { Vec n = A * dx + B * du; double w = c + v; for (int i = 0; i < dx.size(); i++) { w += q[i] * dx[i] + vx[i] * n[i]; for (int j = 0; j < dx.size(); j++) w += (dx[i] * Q(i, j) * dx[j] + n[i] * vxx(i, j) * n[j]) / 2; } for (int i = 0; i < du.size(); i++) { w += r[i] * du[i] + lam * du[i] * du[i] / 2; for (int j = 0; j < du.size(); j++) w += du[i] * R(i, j) * du[j] / 2; for (int j = 0; j < dx.size(); j++) w += du[i] * Pm(i, j) * dx[j]; } return w; }
};
static Model model(P& p, int k, double lam) { Model m; m.c = p.f.timestep_cost_[k]; m.q = p.d.cx(k); m.r = p.d.cu(k); m.Q = p.d.cxx(k); m.R = p.d.cuu(k); m.Pm = p.d.cxu(k).transpose(); m.A = p.d.fx(k); m.B = p.d.fu(k); m.v = p.b.V_[k + 1]; m.vx = p.b.Vx_[k + 1]; m.vxx = p.b.Vxx_[k + 1]; m.lam = lam; return m; }
// the stored value function of step k is the value of the stored policy in the model of that step
static void value(P& p, const Model& m, int k) {
  Vec dx = sym("dx", p.x, 1); Vec l = p.b.controlSeq().control(k).feedforward(); Mat L = p.b.controlSeq().control(k).feedback(); prove("the policy has the dimensions of the problem", l.size() == p.u && L.rows() == p.u && L.cols() == p.x); if (l.size() != p.u || L.rows() != p.u || L.cols() != p.x) return;
  double w = p.b.V_[k]; for (int i = 0; i < p.x; i++) { w += p.b.Vx_[k][i] * dx[i]; for (int j = 0; j < p.x; j++) w += dx[i] * p.b.Vxx_[k](i, j) * dx[j] / 2; } prove_eq("the stored value function is the value of the stored policy", w, m.at(dx, l + L * dx)); prove("the quadratic value matrix is symmetric", same(p.b.Vxx_[k], p.b.Vxx_[k].transpose()));
}
static void terminal(P& p) { prove_eq("terminal value", p.b.V_[p.t], p.f.timestep_cost_[p.t]); prove("terminal value gradient", same(p.b.Vx_[p.t], p.d.cx(p.t))); prove("terminal value matrix", same(p.b.Vxx_[p.t], p.d.cxx(p.t))); }
// unconstrained optimality of the policy of step k: H l = -g, H L = -G
static void optimal(P& p, const Model& m, int k) { Vec l = p.b.controlSeq().control(k).feedforward(); Mat L = p.b.controlSeq().control(k).feedback(); Vec g = m.r + m.B.transpose() * m.vx; Mat SA = m.vxx * m.A, G = m.Pm + m.B.transpose() * SA, SB = m.vxx * m.B, H = m.R + m.B.transpose() * SB; for (int i = 0; i < p.u; i++) H(i, i) += m.lam; Vec hl = H * l; Mat hL = H * L; prove("the feedforward term minimises the model", same(hl, -g)); prove("the feedback term minimises the model", same(hL, -G)); }
// R chosen so that the control Hessian is C C' (C lower triangular, positive diagonal): every positive definite Hessian
static void pd_step(P& p, int k, double lam, const Mat& C) { Mat B = p.d.fu(k), SB = p.b.Vxx_[k + 1] * B, H = C * C.transpose(), R = H - B.transpose() * SB; for (int i = 0; i < p.u; i++) R(i, i) -= lam; p.d.cuu(k) = R; }
static Mat lower(const std::string& n, int u) { Mat C = Mat::Zero(u, u); for (int i = 0; i < u; i++) for (int j = 0; j <= i; j++) { C(i, j) = i == j ? input(n + "." + S(i) + S(j), 0.5, 2) : input(n + "." + S(i) + S(j)); if (i == j) kv::assume(kv::gt(C(i, j), 0.0)); } return C; }
static void one_step(int x, int u, bool symAB) {
  P p; setup(p, 1, x, u, false); double lam = input("lambda", 0, 1); kv::assume(kv::ge(lam, 0.0));
  p.d.cx(1) = sym("qN", x, 1); p.d.cxx(1) = symm("QN", x); p.d.cx(0) = sym("q", x, 1); p.d.cu(0) = sym("r", u, 1); p.d.cxx(0) = symm("Q", x); p.d.cxu(0) = sym("P", x, u); p.d.fx(0) = symAB ? sym("A", x, x) : num(7, x, x); p.d.fu(0) = symAB ? sym("B", x, u) : num(11, x, u); Mat C = lower("C", u); p.b.Vxx_[1] = p.d.cxx(1); pd_step(p, 0, lam, C);
  kv::lemma_sqrt("first pivot", C(0, 0) * C(0, 0), C(0, 0)); if (u > 1) kv::lemma_sqrt("second pivot", C(1, 1) * C(1, 1), C(1, 1)); if (u > 2) kv::lemma_sqrt("third pivot", C(2, 2) * C(2, 2), C(2, 2));
  p.b.optimizeController(p.f, p.d, lam); prove("a positive definite Hessian is no divergence", !p.b.hasDiverged()); if (p.b.hasDiverged()) return; prove("no iteration is reported as diverged", p.b.divergeIteration() == -1); terminal(p); Model m = model(p, 0, lam); optimal(p, m, 0); value(p, m, 0);
}
KV_CASE(one_step_11) { heads("1 state, 1 control; all data with a positive definite control Hessian"); one_step(1, 1, true); }
KV_CASE(one_step_12) { heads("1 state, 2 controls; all data with a positive definite control Hessian"); one_step(1, 2, true); }
KV_CASE(one_step_21) { heads("2 states, 1 control; all data with a positive definite control Hessian"); one_step(2, 1, true); }
KV_CASE(one_step_22) { heads("2 states, 2 controls, numeric dynamics; all other data with a positive definite control Hessian"); one_step(2, 2, false); }
KV_CASE(one_step_22_deep) { heads("2 states, 2 controls; all data with a positive definite control Hessian"); one_step(2, 2, true); }
KV_CASE(one_step_33_deep) { heads("3 states, 3 controls, numeric dynamics"); one_step(3, 3, false); }
// ------------------------------------------------------------------ recursion over the horizon, repeated runs
static void data(P& p, const std::string& n, bool symAB) { int t = p.t, x = p.x, u = p.u; for (int k = 0; k <= t; k++) { p.d.cx(k) = sym(n + "q" + S(k), x, 1); p.d.cxx(k) = symm(n + "Q" + S(k), x); if (k == t) break; p.d.cu(k) = sym(n + "r" + S(k), u, 1); p.d.cxu(k) = sym(n + "P" + S(k), x, u); p.d.cuu(k) = Mat::Identity(u, u); p.d.fx(k) = symAB ? sym(n + "A" + S(k), x, x) : num(7 + k, x, x); p.d.fu(k) = symAB ? sym(n + "B" + S(k), x, u) : num(31 + k, x, u); } }
// the Hessian of step k is prescribed once the value function of step k+1 is known: runs the pass on the remaining steps first
static void horizon(int t, int x, int u, bool symAB, bool numeric_chol) {
  P p; setup(p, t, x, u, false); double lam = input("lambda", 0, 1); kv::assume(kv::ge(lam, 0.0)); data(p, "", symAB); std::vector<Mat> C(t);
  p.b.Vxx_[t] = p.d.cxx(t); p.b.Vx_[t] = p.d.cx(t); p.b.V_[t] = p.f.timestep_cost_[t];
  for (int k = t - 1; k >= 0; k--) { C[k] = numeric_chol ? Mat(num(101 + k, u, u).triangularView<Eigen::Lower>()) : lower("C" + S(k), u); if (numeric_chol) for (int i = 0; i < u; i++) C[k](i, i) = 1.0 + i + k; else for (int i = 0; i < u; i++) kv::lemma_sqrt("pivot", C[k](i, i) * C[k](i, i), C[k](i, i)); pd_step(p, k, lam, C[k]); p.b.optimizeController(p.f, p.d, lam);   /* steps before k still have other data */ if (p.b.hasDiverged()) prove("only a step without a positive definite Hessian diverges", p.b.divergeIteration() < k); }
  prove("positive definite Hessians are no divergence", !p.b.hasDiverged()); if (p.b.hasDiverged()) return; terminal(p); prove("one policy per step", p.b.controlSeq().size() == t); for (int k = t - 1; k >= 0; k--) { Model m = model(p, k, lam); optimal(p, m, k); value(p, m, k); }
}
KV_CASE(horizon_2) { heads("horizon 2, 1 state, 1 control; all data, every positive Hessian; the pass repeated with changed data"); horizon(2, 1, 1, true, false); }
KV_CASE(horizon_3) { heads("horizon 3, 1 state, 1 control, numeric dynamics and Hessians; all other data; the pass repeated with changed data"); horizon(3, 1, 1, false, true); }
KV_CASE(horizon_2_22_deep) { heads("horizon 2, 2 states, 2 controls, numeric dynamics and Hessians; all other data"); horizon(2, 2, 2, false, true); }
KV_CASE(horizon_3_deep) { heads("horizon 3, 1 state, 1 control; all data, every positive Hessian"); horizon(3, 1, 1, true, false); }
KV_CASE(horizon_3_22_deep) { heads("horizon 3, 2 states, 2 controls, numeric dynamics and Hessians; all other data"); horizon(3, 2, 2, false, true); }
KV_CASE(policy_is_the_arg_min) { // from the optimality equations: no control does better, every other control is worse by 1/2 d'Hd
  heads("2 states, 2 controls: completing the square, every control and state deviation"); P p; setup(p, 1, 2, 2, false); double lam = input("lambda", 0, 1); kv::assume(kv::ge(lam, 0.0)); data(p, "", false); Mat C = lower("C", 2); p.b.Vxx_[1] = p.d.cxx(1); pd_step(p, 0, lam, C); for (int i = 0; i < 2; i++) kv::lemma_sqrt("pivot", C(i, i) * C(i, i), C(i, i)); p.b.optimizeController(p.f, p.d, lam); if (p.b.hasDiverged()) return; Model m = model(p, 0, lam); Vec dx = sym("dx", 2, 1), w = sym("w", 2, 1), du = p.b.controlSeq().control(0).feedforward() + p.b.controlSeq().control(0).feedback() * dx; Vec Cw = C.transpose() * w; double extra = Cw[0] * Cw[0] + Cw[1] * Cw[1]; prove_eq("any other control is worse by the Hessian norm of the difference", m.at(dx, du + w), m.at(dx, du) + extra / 2);
}
// ------------------------------------------------------------------ divergence
static void divergence(int t) { heads("horizon 1..2 (3 in the thorough tier), 1 state, 1 control, all data: failure is reported exactly when a Hessian is not positive; the second run after it with more regularisation for horizon 1"); P p; setup(p, t, 1, 1, false); double lam = input("lambda", 0, 1); data(p, "", false); for (int k = 0; k < t; k++) p.d.cuu(k) = sym("R" + S(k), 1, 1);
  for (int run = 0; run < (t == 1 ? 2 : 1); run++) { p.b.optimizeController(p.f, p.d, lam); int it = p.b.hasDiverged() ? p.b.divergeIteration() : -1; prove("a failing step of the horizon is named exactly when the pass failed", p.b.hasDiverged() ? it >= 0 && it < t : p.b.divergeIteration() == -1); for (int k = t - 1; k > it; k--) { Model m = model(p, k, lam); prove("every step up to there has a positive Hessian", kv::gt(m.R(0, 0) + m.B(0, 0) * m.vxx(0, 0) * m.B(0, 0) + lam, 0.0)); optimal(p, m, k); value(p, m, k); } if (it >= 0) { Model m = model(p, it, lam); prove("the named step has no positive Hessian", kv::le(m.R(0, 0) + m.B(0, 0) * m.vxx(0, 0) * m.B(0, 0) + lam, 0.0)); } lam = lam + input("more", 0, 3); } }
KV_CASE(divergence_1) { divergence(1); }
KV_CASE(divergence_horizon) { divergence(2); }
KV_CASE(divergence_horizon_deep) { divergence(3); }
KV_CASE(divergence_2) { heads("1 state, 2 controls, every symmetric control Hessian: failure exactly when it is not positive definite"); P p; setup(p, 1, 1, 2, false); double lam = input("lambda", 0, 1); data(p, "", false); Mat H = symm("H", 2), SB = p.d.cxx(1) * p.d.fu(0); p.d.cuu(0) = H - p.d.fu(0).transpose() * SB; for (int i = 0; i < 2; i++) p.d.cuu(0)(i, i) -= lam; p.b.optimizeController(p.f, p.d, lam); Prop pd = pand(kv::gt(H(0, 0), 0.0), kv::gt(H(0, 0) * H(1, 1) - H(1, 0) * H(1, 0), 0.0)); prove("failure is reported exactly when the control Hessian is not positive definite", p.b.hasDiverged() ? kv::pnot(pd) : pd); prove("the failing step is named", p.b.divergeIteration() == (p.b.hasDiverged() ? 0 : -1)); }
// ------------------------------------------------------------------ control limits
static double fobj(const Vec& z) { for (size_t i = 0; i < mvars.size(); i++) mvars[i].set(solver::SolverDoubleParam_X, z[i]); double v = objl.getValue() + objq.lexpr().getValue(); for (size_t i = 0; i < objq.coeffs().size(); i++) { double w = objq.qexpr()[i].getValue(); v += objq.coeffs()[i] * w * w; } return v; }
static Prop feasible(const Vec& z) { fobj(z); Prop p = truth(true); for (auto& c : lincons) { double d = c.a.getValue() - c.b.getValue(); p = pand(p, c.s == "=" ? eq(d, 0.0) : c.s == "<" ? kv::le(d, 0.0) : kv::ge(d, 0.0)); } return p; }
static void limits(int t, int x, int u, bool numeric_chol) {
  P p; setup(p, t, x, u, true); double lam = input("lambda", 0, 1); kv::assume(kv::ge(lam, 0.0)); data(p, "", false); Vec lo = sym("lo", u, 1), hi = sym("hi", u, 1); for (int i = 0; i < u; i++) kv::assume(kv::lt(lo[i], hi[i])); p.s.get(SolverLqrVectorParam_MinControlLimits) = lo; p.s.get(SolverLqrVectorParam_MaxControlLimits) = hi; for (int k = 0; k < t; k++) { p.o.controlSeq().control(k).feedforward() = sym("u" + S(k), u, 1); }
  std::vector<std::vector<int>> side(t); int now = t; std::vector<Vec> xs(t);
  // contract of the model: the minimiser of what it was given (first-order conditions on the box it was given)
  solve = [&]() { now--; prove("one conic program per step, from the horizon back", now >= 0); if (now < 0) throw kv::Infeasible(); prove("one variable per control and one objective", (int)mvars.size() == u && nobj == 1); if ((int)mvars.size() != u) throw kv::Infeasible(); Vec nom = p.o.controlSeq().control(now).feedforward(), z = sym("z" + S(now), u, 1); Prop box = truth(true); for (int i = 0; i < u; i++) box = pand(box, pand(kv::le(lo[i], nom[i] + z[i]), kv::le(nom[i] + z[i], hi[i]))); prove("the admissible steps are those that keep the control within its limits", kv::iff(feasible(z), box));
    Vec s(u); side[now].resize(u); for (int i = 0; i < u; i++) { side[now][i] = kv::choice("side " + S(now) + S(i), 3); s[i] = side[now][i] == 0 ? lo[i] - nom[i] : side[now][i] == 1 ? hi[i] - nom[i] : kv::Real(input("inside" + S(now) + S(i))); if (side[now][i] == 2) { kv::assume(kv::lt(lo[i] - nom[i], s[i])); kv::assume(kv::lt(s[i], hi[i] - nom[i])); } }
    for (int i = 0; i < u; i++) { Vec a = s, b = s; a[i] += 1.0; b[i] -= 1.0; double g = fobj(a) - fobj(b); kv::assume(side[now][i] == 0 ? kv::ge(g, 0.0) : side[now][i] == 1 ? kv::le(g, 0.0) : eq(g, 0.0)); } xs[now] = s; fobj(s); };
  // prescribe the Hessians one step at a time
  p.b.Vxx_[t] = p.d.cxx(t); Mat C;
  C = numeric_chol ? Mat(num(101, u, u).triangularView<Eigen::Lower>()) : lower("C", u); if (numeric_chol) for (int i = 0; i < u; i++) C(i, i) = 1.0 + i; else for (int i = 0; i < u; i++) kv::lemma_sqrt("pivot", C(i, i) * C(i, i), C(i, i)); for (int k = 0; k < t; k++) p.d.cuu(k) = Mat::Zero(u, u);
  pd_step(p, t - 1, lam, C); p.b.optimizeController(p.f, p.d, lam); int last = p.b.hasDiverged() ? p.b.divergeIteration() + 1 : 0; prove("a step with a positive definite Hessian is no divergence", last <= t - 1); terminal(p);
  for (int k = t - 1; k >= last; k--) { Model m = model(p, k, lam); Vec l = p.b.controlSeq().control(k).feedforward(), nom = p.o.controlSeq().control(k).feedforward(); Mat L = p.b.controlSeq().control(k).feedback(); prove("the step solves the program it stated", same(l, xs[k])); Vec Bv = m.B.transpose() * m.vx, g = m.r + Bv; Mat SA = m.vxx * m.A, G = m.Pm + m.B.transpose() * SA, SB = m.vxx * m.B, H = m.R + m.B.transpose() * SB; for (int i = 0; i < u; i++) H(i, i) += lam; Vec grad = g + H * l;
    for (int i = 0; i < u; i++) { prove("the step solves the box-constrained problem", side[k][i] == 0 ? pand(eq(nom[i] + l[i], lo[i]), kv::ge(grad[i], 0.0)) : side[k][i] == 1 ? pand(eq(nom[i] + l[i], hi[i]), kv::le(grad[i], 0.0)) : eq(grad[i], 0.0)); if (side[k][i] < 2) prove("a saturated control gets no feedback", same(L.row(i), Mat::Zero(1, x))); }
    bool free = true; for (int i = 0; i < u; i++) free = free && side[k][i] == 2; if (free) { Prop away = truth(true); kv::Real tenth = kv::Real(1) / kv::Real(10); for (int i = 0; i < u; i++) away = pand(away, pand(kv::lt(lo[i] + tenth, nom[i] + l[i]), kv::lt(nom[i] + l[i], hi[i] - tenth))); Mat HL = H * L; prove("controls away from their limits keep the optimal feedback", kv::implies(away, same(HL, -G))); } value(p, m, k); }
}
KV_CASE(limits_1) { heads("1 state, 1 control, all data, limits and nominal controls, every positive Hessian"); kv::under_contract("solverlqr::BackwardPass::findConstrainedControls"); kv::assumption("the conic model returns the minimiser of the program it is given (C01, C02, C06)"); limits(1, 1, 1, false); }
KV_CASE(limits_2) { heads("1 state, 2 controls, numeric Hessian, all other data"); kv::under_contract("solverlqr::BackwardPass::findConstrainedControls"); limits(1, 1, 2, true); }
KV_CASE(limits_2_deep) { heads("1 state, 2 controls, all data, every positive definite Hessian"); kv::under_contract("solverlqr::BackwardPass::findConstrainedControls"); limits(1, 1, 2, false); }
KV_CASE(limits_horizon) { heads("horizon 2, 1 state, 1 control, numeric Hessian at the last step, all other data"); kv::under_contract("solverlqr::BackwardPass::findConstrainedControls"); limits(2, 1, 1, true); }
// no constrained program is solved without limits; a re-initialised pass forgets nothing and invents nothing
KV_CASE(initialised_again) { heads("1 state, 1 control, horizon 1, then 2 states, 1 control, horizon 2, with the same object"); solve = [] { prove("no conic program without limits", false); }; P p; setup(p, 1, 1, 1, false); data(p, "a", true); p.b.Vxx_[1] = p.d.cxx(1); Mat C = Mat::Identity(1, 1); pd_step(p, 0, 0.0, C); p.b.optimizeController(p.f, p.d, 0.0); prove("first problem is solved", !p.b.hasDiverged());
  SolverLqrSetting s2; Ocp o2; s2.get(SolverLqrIntParam_TimeDimension) = 2; s2.get(SolverLqrIntParam_StateDimension) = 2; s2.get(SolverLqrIntParam_ControlDimension) = 1; s2.get(SolverLqrBoolParam_HasControlLimits) = false; o2.initialize(s2); p.t = 2; p.x = 2; fill(p.d, p.f, 2, 2, 1); p.b.initialize(&o2, s2); data(p, "b", false); p.b.Vxx_[2] = p.d.cxx(2); pd_step(p, 1, 0.0, C); p.b.optimizeController(p.f, p.d, 0.0); int last = p.b.hasDiverged() ? p.b.divergeIteration() + 1 : 0; prove("the last step is solved", last <= 1); terminal(p); for (int k = 1; k >= last; k--) { Model m = model(p, k, 0.0); optimal(p, m, k); value(p, m, k); } }
