// C13: contract of ForwardPass::applyController for arbitrary (uninterpreted) dynamics and objective.
#include "kvh.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/ForwardPass.hpp>
using namespace solverlqr; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::por; using kv::truth; using kv::Prop;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static std::string S(int i) { return std::to_string(i); }
static Mat sym(const std::string& n, int r, int c) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = input(n + "." + S(i) + S(j)); return m; }
template <class A, class B> static Prop same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return truth(false);
  Prop p = truth(true); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) p = pand(p, eq(a(i, j), b(i, j))); return p;
}
struct Ocp : OcpBase {
  struct E { Vec s, a; int k; Vec v; }; std::vector<E> df, cf; int t, x, u; bool quiet = false;
  void configure(const YAML::Node&) override {}
  Vec eval(std::vector<E>& m, const char* n, int dim, const Vec& s, const Vec& a, int k) { for (auto& e : m) if (e.k == k && kv::valid(pand(same(e.s, s), same(e.a, a)))) return e.v; E e{s, a, k, sym(n + S(m.size()), dim, 1)}; m.push_back(e); return e.v; }
  Vec dyn(const Vec& s, const Vec& a, int k) { return eval(df, "f#", x, s, a, k); }
  double obj(const Vec& s, const Vec& a, int k) { return eval(cf, "c#", 1, s, a, k)[0]; }
  StateBase dynamics(const StateBase& s, const ControlBase& a, int k) override { prove("the dynamics are evaluated at steps of the horizon", k >= 0 && k < t); StateBase r(x); r.stateVector() = dyn(s.stateVector(), a.feedforward(), k); return r; }
  double objective(const StateBase& s, const ControlBase& a, int k, bool fin) override { prove("costs are taken at steps of the horizon, and as final exactly at the last one", k >= 0 && k <= t && fin == (k == t)); return obj(s.stateVector(), a.feedforward(), k); }
};
static void setup(Ocp& o, SolverLqrSetting& s, int t, int x, int u, bool lim) {
  o.t = t; o.x = x; o.u = u; s.get(SolverLqrIntParam_TimeDimension) = t; s.get(SolverLqrIntParam_StateDimension) = x; s.get(SolverLqrIntParam_ControlDimension) = u; s.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = false; s.get(SolverLqrBoolParam_HasControlLimits) = lim; s.get(SolverLqrDoubleParam_DivergenceLimitCheck) = input("divergence", 1, 3); kv::assume(kv::gt(s.get(SolverLqrDoubleParam_DivergenceLimitCheck), 0.0));
  if (lim) { s.get(SolverLqrVectorParam_MinControlLimits) = sym("lo", u, 1); s.get(SolverLqrVectorParam_MaxControlLimits) = sym("hi", u, 1); for (int i = 0; i < u; i++) kv::assume(kv::le(s.get(SolverLqrVectorParam_MinControlLimits)[i], s.get(SolverLqrVectorParam_MaxControlLimits)[i])); } o.initialize(s);
}
static void nominal(const std::string& n, StateSequence& ss, ControlSequence& cs, int t, int x, int u) { ss = StateSequence(t + 1, x); cs = ControlSequence(t, x, u); for (int k = 0; k <= t; k++) ss.state(k).stateVector() = sym(n + "x" + S(k), x, 1); for (int k = 0; k < t; k++) { cs.control(k).feedforward() = sym(n + "u" + S(k), u, 1); cs.control(k).feedback() = sym(n + "K" + S(k), u, x); } }
static Prop equal(const StateSequence& a, const StateSequence& b) { if (a.size() != b.size()) return truth(false); Prop p = truth(true); for (int i = 0; i < a.size(); i++) p = pand(p, same(a.state(i).stateVector(), b.state(i).stateVector())); return p; }
static Prop equal(const ControlSequence& a, const ControlSequence& b) { if (a.size() != b.size()) return truth(false); Prop p = truth(true); for (int i = 0; i < a.size(); i++) p = pand(p, pand(same(a.control(i).feedforward(), b.control(i).feedforward()), same(a.control(i).feedback(), b.control(i).feedback()))); return p; }
static void rollout(ForwardPass& f, Ocp& o, SolverLqrSetting& s, const StateSequence& ns, const ControlSequence& nc, bool lim) {
  StateSequence ks = ns; ControlSequence kc = nc; f.applyController(ns, nc); prove("the nominal trajectory is left alone", pand(equal(ns, ks), equal(nc, kc)));
  const ForwardPass& r = f; prove("the new trajectory has the length of the horizon", r.stateSeq().size() == o.t + 1 && r.controlSeq().size() == o.t); if (r.stateSeq().size() != o.t + 1 || r.controlSeq().size() != o.t) return;
  Vec x = ks.state(0).stateVector(); prove("the rollout starts at the true initial state", same(r.stateSeq().state(0).stateVector(), x)); double cost(0.0); Prop div = truth(false);
  for (int k = 0; k < o.t; k++) { Vec got = r.controlSeq().control(k).feedforward(), law = kc.control(k).feedforward(); for (int i = 0; i < o.u; i++) for (int j = 0; j < o.x; j++) law[i] += kc.control(k).feedback()(i, j) * (x[j] - ks.state(k).stateVector()[j]); prove("the control has the dimension of the problem", got.size() == o.u); if (got.size() != o.u) return;
    for (int i = 0; i < o.u; i++) { if (!lim) { prove_eq("the control is the nominal one plus feedback on the state deviation", got[i], law[i]); continue; } double lo = s.get(SolverLqrVectorParam_MinControlLimits)[i], hi = s.get(SolverLqrVectorParam_MaxControlLimits)[i]; prove("the control lies within its limits", pand(kv::le(lo, got[i]), kv::le(got[i], hi))); prove("a control inside its limits is not changed", kv::implies(pand(kv::le(lo, law[i]), kv::le(law[i], hi)), eq(got[i], law[i]))); prove("a control beyond a limit is put on that limit", pand(kv::implies(kv::lt(hi, law[i]), eq(got[i], hi)), kv::implies(kv::lt(law[i], lo), eq(got[i], lo)))); }
    prove("the feedback gains of the new trajectory are those applied", same(r.controlSeq().control(k).feedback(), kc.control(k).feedback())); double c = o.obj(x, got, k); prove_eq("running cost of the visited step", r.timestepCost(k), c); cost += c; Vec xn = x + o.dyn(x, got, k), gx = r.stateSeq().state(k + 1).stateVector(); prove("the state is that of the model dynamics", same(gx, xn)); x = gx; for (int i = 0; i < o.x; i++) div = por(div, kv::gt(std::abs(xn[i]), s.get(SolverLqrDoubleParam_DivergenceLimitCheck))); }
  double c = o.obj(x, Vec::Zero(o.u), o.t); prove_eq("final cost of the visited final state", r.timestepCost(o.t), c); prove_eq("the cost is the sum over the visited steps", r.newCost(), cost + c); prove("divergence is reported exactly when a state leaves the limit", r.hasDiverged() ? div : kv::pnot(div));
}
static void heads(const std::string& b) { kv::under_contract("solverlqr::ForwardPass::applyController, initialize, newCost, hasDiverged, timestepCost, stateSeq, controlSeq"); kv::bounded(b); }
KV_CASE(rollout_free) { heads("horizon 0..2, 1..2 states, 1..2 controls, no limits; arbitrary dynamics and objective"); int t = kv::choice("t", 3), x = 1 + kv::choice("x", 2), u = 1 + kv::choice("u", 2); SolverLqrSetting s; Ocp o; setup(o, s, t, x, u, false); StateSequence ns; ControlSequence nc; nominal("", ns, nc, t, x, u); ForwardPass f; f.initialize(&o, s); rollout(f, o, s, ns, nc, false); }
KV_CASE(rollout_limits) { heads("horizon 1..2, 1 state, 1..2 controls, limits; arbitrary dynamics and objective"); int t = 1 + kv::choice("t", 2), x = 1, u = 1 + kv::choice("u", 2); SolverLqrSetting s; Ocp o; setup(o, s, t, x, u, true); StateSequence ns; ControlSequence nc; nominal("", ns, nc, t, x, u); ForwardPass f; f.initialize(&o, s); rollout(f, o, s, ns, nc, true); }
KV_CASE(rollout_long) { heads("horizon 4, 1 state, 1 control, no limits"); SolverLqrSetting s; Ocp o; setup(o, s, 4, 1, 1, false); StateSequence ns; ControlSequence nc; nominal("", ns, nc, 4, 1, 1); ForwardPass f; f.initialize(&o, s); rollout(f, o, s, ns, nc, false); }
KV_CASE(rollout_again) { heads("two rollouts with the same object, the second with another horizon; nominal sequences owned by the problem"); SolverLqrSetting s; Ocp o; int t0 = 1 + kv::choice("t0", 2), t1 = 1 + kv::choice("t1", 2); setup(o, s, t0, 1, 1, false); nominal("a", o.stateSeq(), o.controlSeq(), t0, 1, 1); ForwardPass f; f.initialize(&o, s); rollout(f, o, s, o.stateSeq(), o.controlSeq(), false); setup(o, s, t1, 1, 2, false); nominal("b", o.stateSeq(), o.controlSeq(), t1, 1, 2); f.initialize(&o, s); rollout(f, o, s, o.stateSeq(), o.controlSeq(), false); }
KV_CASE(rollout_scaled) {   // as called by the solver: nominal controls plus a scaled backward-pass policy
  heads("horizon 2, 2 states, 1 control: nominal control + step * feedforward + feedback on the deviation"); int t = 2, x = 2, u = 1; SolverLqrSetting s; Ocp o; setup(o, s, t, x, u, false); StateSequence ns; ControlSequence nc, bp; StateSequence dummy; nominal("", ns, nc, t, x, u); nominal("bp", dummy, bp, t, x, u); double al = input("step"); ControlSequence law = nc + al * bp; for (int k = 0; k < t; k++) { prove("the scaled law: feedforward", same(law.control(k).feedforward(), nc.control(k).feedforward() + al * bp.control(k).feedforward())); prove("the scaled law: feedback", same(law.control(k).feedback(), bp.control(k).feedback())); } ForwardPass f; f.initialize(&o, s); rollout(f, o, s, ns, law, false);
}
