// C15: numerical derivatives are exact on quadratic functions; integration schemes reproduce their formulas.
#include "kvh.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/FiniteDifferences.hpp>
using namespace solverlqr; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::truth; using kv::Prop;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static std::string S(int i) { return std::to_string(i); }
static Mat sym(const std::string& n, int r, int c) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = input(n + "." + S(i) + S(j)); return m; }
template <class A, class B> static Prop same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return truth(false);
  Prop p = truth(true); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) p = pand(p, eq(a(i, j), b(i, j))); return p;
}
// a quadratic function of (x,u):  c + g'z + z'Mz with M not necessarily symmetric
struct Quad { double c; Mat g, M;
  Quad() {}
  Quad(const std::string& n, int nz, bool second = true) { c = input(n + "c"); g = sym(n + "g", nz, 1); M = second ? sym(n + "M", nz, nz) : Mat(Mat::Zero(nz, nz)); }
  double at(const Vec& z) const { double r = c; for (int i = 0; i < z.size(); i++) { r += g(i, 0) * z[i]; for (int j = 0; j < z.size(); j++) r += z[i] * M(i, j) * z[j]; } return r; }
  Vec grad(const Vec& z) const { Vec r(z.size()); for (int i = 0; i < z.size(); i++) { r[i] = g(i, 0); for (int j = 0; j < z.size(); j++) r[i] += (M(i, j) + M(j, i)) * z[j]; } return r; }
  Mat hess() const { return M + M.transpose(); } };
static Vec cat(const Vec& a, const Vec& b) { Vec r(a.size() + b.size()); r << a, b; return r; }
struct Ocp : OcpBase {
  int t, x, u; std::vector<std::vector<Quad>> f; std::vector<Quad> c; bool proto = true;
  Ocp(int t_, int x_, int u_, SolverLqrSetting& s, bool rk, bool second) : t(t_), x(x_), u(u_) {
    s.get(SolverLqrIntParam_TimeDimension) = t; s.get(SolverLqrIntParam_StateDimension) = x; s.get(SolverLqrIntParam_ControlDimension) = u; s.get(SolverLqrDoubleParam_TimeStep) = 0.1; s.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = rk; initialize(s);
    for (int k = 0; k < t; k++) { f.emplace_back(); for (int i = 0; i < x; i++) f[k].push_back(Quad("f" + S(k) + S(i), x + u, second)); } for (int k = 0; k <= t; k++) c.push_back(Quad("c" + S(k), x + u)); point(""); }
  void point(const std::string& n) { for (int k = 0; k <= t; k++) stateSeq().state(k).stateVector() = sym(n + "x" + S(k), x, 1); for (int k = 0; k < t; k++) { controlSeq().control(k).feedforward() = sym(n + "u" + S(k), u, 1); controlSeq().control(k).feedback() = sym(n + "K" + S(k), u, x); } }
  void configure(const YAML::Node&) override {}
  StateBase dynamics(const StateBase& s, const ControlBase& a, int k) override { prove("the dynamics are evaluated at steps of the horizon only", k >= 0 && k < t); StateBase r(x); Vec z = cat(s.stateVector(), a.feedforward()); for (int i = 0; i < x; i++) r.stateVector()[i] = f[k][i].at(z); return r; }
  double objective(const StateBase& s, const ControlBase& a, int k, bool fin) override { prove("the objective is evaluated at steps of the horizon, and as final exactly at the last one", k >= 0 && k <= t && fin == (k == t)); return c[k].at(cat(s.stateVector(), a.feedforward())); }
  Vec z(int k) const { return cat(stateSeq().state(k).stateVector(), k < t ? controlSeq().control(k).feedforward() : Vec(Vec::Zero(u))); }
};
static double step() { double h = input("h", 0.01, 0.1); kv::assume(kv::gt(h, 0.0)); return h; }
static void check_cost(FiniteDifferences& d, Ocp& o, bool first, bool second) {
  const FiniteDifferences& cd = d;
  for (int k = 0; k <= o.t; k++) { Vec g = o.c[k].grad(o.z(k)); Mat H = o.c[k].hess(); Vec gx = g.head(o.x), gu = g.tail(o.u); Mat xx = H.topLeftCorner(o.x, o.x), xu = H.topRightCorner(o.x, o.u), uu = H.bottomRightCorner(o.u, o.u); if (!first) { gx.setZero(); gu.setZero(); } if (!second) { xx.setZero(); xu.setZero(); uu.setZero(); }
    std::string at = k == o.t ? " (final step)" : ""; prove("cost gradient with respect to the state" + at, pand(same(d.cx(k), gx), same(cd.cx(k), gx))); prove("cost gradient with respect to the control" + at, pand(same(d.cu(k), gu), same(cd.cu(k), gu))); prove("cost Hessian with respect to the state" + at, pand(same(d.cxx(k), xx), same(cd.cxx(k), xx))); prove("mixed cost Hessian" + at, pand(same(d.cxu(k), xu), same(cd.cxu(k), xu))); prove("cost Hessian with respect to the control" + at, pand(same(d.cuu(k), uu), same(cd.cuu(k), uu))); }
}
static void check_dyn(FiniteDifferences& d, Ocp& o, bool first, bool second) {
  const FiniteDifferences& cd = d;
  for (int k = 0; k < o.t; k++) { Mat A(o.x, o.x), B(o.x, o.u); std::vector<Mat> xx(o.x, Mat(o.x, o.x)), xu(o.u, Mat(o.x, o.x)), uu(o.u, Mat(o.x, o.u));
    for (int i = 0; i < o.x; i++) { Vec g = o.f[k][i].grad(o.z(k)); Mat H = o.f[k][i].hess(); for (int j = 0; j < o.x; j++) A(i, j) = g[j] + (i == j ? 1.0 : 0.0); for (int j = 0; j < o.u; j++) B(i, j) = g[o.x + j]; for (int r = 0; r < o.x; r++) for (int q = 0; q < o.x; q++) xx[r](i, q) = H(r, q); for (int r = 0; r < o.u; r++) for (int q = 0; q < o.x; q++) xu[r](i, q) = H(o.x + r, q); for (int r = 0; r < o.u; r++) for (int q = 0; q < o.u; q++) uu[r](i, q) = H(o.x + r, o.x + q); }
    if (!first) { A.setZero(); B.setZero(); } if (!second) { for (auto& m : xx) m.setZero(); for (auto& m : xu) m.setZero(); for (auto& m : uu) m.setZero(); }
    prove("state Jacobian of the dynamics", pand(same(d.fx(k), A), same(cd.fx(k), A))); prove("control Jacobian of the dynamics", pand(same(d.fu(k), B), same(cd.fu(k), B)));
    for (int r = 0; r < o.x; r++) prove("second derivative of the dynamics, state/state", pand(same(d.fxx(k)[r], xx[r]), same(cd.fxx(k)[r], xx[r]))); for (int r = 0; r < o.u; r++) prove("second derivative of the dynamics, control/state", pand(same(d.fxu(k)[r], xu[r]), same(cd.fxu(k)[r], xu[r]))); for (int r = 0; r < o.u; r++) prove("second derivative of the dynamics, control/control", pand(same(d.fuu(k)[r], uu[r]), same(cd.fuu(k)[r], uu[r]))); }
}
static void heads(const std::string& b) { for (auto f : {"initialize", "computeDerivatives", "computeDynamicsFirstDerivatives", "computeDynamicsSecondDerivatives", "computeObjectiveFirstDerivatives", "computeObjectiveSecondDerivatives", "fx/fu/fxx/fxu/fuu/cx/cu/cxx/cxu/cuu"}) kv::under_contract(std::string("solverlqr::FiniteDifferences::") + f); kv::under_contract("solverlqr::OcpBase::internal_dynamics"); kv::bounded(b); kv::set_tol(1e-4); }
static void quadratic(int t, int x, int u, int flags) {
  SolverLqrSetting s; Ocp o(t, x, u, s, false, true); FiniteDifferences d; bool o1 = flags & 1, d1 = flags & 2, o2 = flags & 4, d2 = flags & 8; d.h_devs_ = step(); d.initialize(&o, o1, d1, o2, d2); check_cost(d, o, false, false); check_dyn(d, o, false, false);
  StateSequence ss = o.stateSeq(); ControlSequence cs = o.controlSeq(); d.computeDerivatives(); check_cost(d, o, o1, o2); check_dyn(d, o, d1, d2);
  for (int k = 0; k <= t; k++) prove("the states are left as they were", same(o.stateSeq().state(k).stateVector(), ss.state(k).stateVector())); for (int k = 0; k < t; k++) prove("the controls are left as they were", pand(same(o.controlSeq().control(k).feedforward(), cs.control(k).feedforward()), same(o.controlSeq().control(k).feedback(), cs.control(k).feedback())));
  o.point("later "); d.computeDerivatives(); check_cost(d, o, o1, o2); check_dyn(d, o, d1, d2); prove("the derivatives refer to the problem they were initialised with", d.getOcpDescription() == &o);
}
KV_CASE(quadratic_all) { heads("horizon 2, 2 states, 2 controls; every quadratic cost and dynamics, point and step size; recomputed at a second point"); quadratic(2, 2, 2, 15); }
KV_CASE(quadratic_shapes) { heads("horizon 1..2, 1..3 states, 1..3 controls; every quadratic cost and dynamics, point and step size"); int t = 1 + kv::choice("t", 2), x = 1 + kv::choice("x", 3), u = 1 + kv::choice("u", 3); quadratic(t, x, u, 15); }
KV_CASE(quadratic_flags) { heads("horizon 1, 2 states, 1 control; every combination of requested derivatives"); quadratic(1, 2, 1, kv::choice("flags", 16)); }
KV_CASE(default_step) { heads("horizon 1, 1 state, 1 control, the default step size"); SolverLqrSetting s; Ocp o(1, 1, 1, s, false, true); FiniteDifferences d; prove("the default step is positive", kv::gt(d.h_devs_, 0.0)); d.initialize(&o, true, true, true, false); d.computeDerivatives(); check_cost(d, o, true, true); check_dyn(d, o, true, false); }
// derivatives through the Runge-Kutta integrator: linear dynamics stay linear
KV_CASE(linear_runge_kutta) {
  heads("horizon 1, 1..2 states, 1 control, Runge-Kutta integration; every linear dynamics, point and step size"); int x = 1 + kv::choice("x", 2); SolverLqrSetting s; Ocp o(1, x, 1, s, true, false); FiniteDifferences d; d.h_devs_ = step(); d.initialize(&o, false, true, false, true); d.computeDerivatives();
  Mat A(x, x), B(x, 1); for (int i = 0; i < x; i++) { for (int j = 0; j < x; j++) A(i, j) = o.f[0][i].g(j, 0); B(i, 0) = o.f[0][i].g(x, 0); } Mat I = Mat::Identity(x, x), M = I + A / kv::Real(2) + A * A / kv::Real(6) + A * A * A / kv::Real(24);
  prove("state Jacobian through Runge-Kutta", same(d.fx(0), I + A * M)); prove("control Jacobian through Runge-Kutta", same(d.fu(0), M * B)); for (int r = 0; r < x; r++) prove("linear dynamics have no second derivatives", same(d.fxx(0)[r], Mat::Zero(x, x))); prove("linear dynamics have no mixed second derivatives", same(d.fxu(0)[0], Mat::Zero(x, x))); prove("linear dynamics have no second control derivatives", same(d.fuu(0)[0], Mat::Zero(x, 1)));
}
// integrators, arbitrary dynamics: an uninterpreted function (a new unknown for every new argument)
struct Free : OcpBase { int x; struct E { Vec s, a; int k; Vec v; }; std::vector<E> memo; void configure(const YAML::Node&) override {} double objective(const StateBase&, const ControlBase&, int, bool) override { return 0.0; }
  StateBase dynamics(const StateBase& s, const ControlBase& a, int k) override { StateBase r(x); for (auto& e : memo) if (e.k == k && kv::valid(pand(same(e.s, s.stateVector()), same(e.a, a.feedforward())))) { r.stateVector() = e.v; return r; } E e{s.stateVector(), a.feedforward(), k, sym("f#" + S(memo.size()), x, 1)}; memo.push_back(e); r.stateVector() = e.v; return r; } };
KV_CASE(integrators) {
  kv::under_contract("solverlqr::OcpBase::internal_dynamics"); kv::bounded("1..2 states, 1..2 controls; arbitrary (uninterpreted) dynamics, all points"); int x = 1 + kv::choice("x", 2), u = 1 + kv::choice("u", 2), rk = kv::choice("runge kutta", 2), alias = kv::choice("aliased", 2), k = kv::choice("k", 2);
  SolverLqrSetting st; st.get(SolverLqrIntParam_TimeDimension) = 2; st.get(SolverLqrIntParam_StateDimension) = x; st.get(SolverLqrIntParam_ControlDimension) = u; st.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = rk; Free o; o.x = x; o.initialize(st); StateBase s(x), n(x); s.stateVector() = sym("s", x, 1); ControlBase a(x, u); a.feedforward() = sym("a", u, 1); a.feedback() = sym("K", u, x); Vec s0 = s.stateVector(), a0 = a.feedforward(); n.stateVector() = sym("old", x, 1);
  o.internal_dynamics(s, a, alias ? s : n, k); Vec got = (alias ? s : n).stateVector(); int calls = o.memo.size(); auto f = [&](const Vec& z) { StateBase q(x); q.stateVector() = z; ControlBase b(x, u); b.feedforward() = a0; return Vec(o.dynamics(q, b, k).stateVector()); };
  Vec k1 = f(s0), want = s0 + k1; kv::Real h(1); h = h / 2; if (rk) { Vec k2 = f(s0 + h * k1), k3 = f(s0 + h * k2), k4 = f(s0 + k3); want = s0; for (int i = 0; i < x; i++) want[i] += (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6; }
  prove(rk ? "fourth-order Runge-Kutta step" : "forward Euler step", same(got, want)); prove("no evaluation outside the scheme is needed", (int)o.memo.size() == calls); if (!alias) prove("the state is not changed", same(s.stateVector(), s0)); prove("the control is not changed", same(a.feedforward(), a0));
}
