// C14: protocol of SolverLqr::optimize against the contracts of its callees. Backward pass, rollouts and derivatives are
// replaced by their contracts (C12, C13, C15): every outcome they can have is explored.
#include "kvh.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/SolverLqr.hpp>
using namespace solverlqr; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::truth; using kv::Prop;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static std::string S(int i) { return std::to_string(i); }
static const int T = 1;
struct Roll { StateSequence s; ControlSequence c; double cost; bool div; };
struct Ghost { OcpBase* o; SolverLqr* q; std::vector<Roll> r; int acc, ninit, nback, nfail, maxfail, nder, maxit; bool inloop, der_fresh; StateSequence s0, ds; ControlSequence c0, b, dc; double lam, lmax, lmin; int bstate, trial, accback, nsucc; bool allow_div; int bacc() { return accback; } void mark() { accback = acc; } bool shrinks(); };
static Ghost G;
template <class A, class B> static bool eqm(const A& a, const B& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (!kv::valid(eq(a(i, j), b(i, j)))) return false; return true; }
static bool same(const StateSequence& a, const StateSequence& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!eqm(a.state(i).stateVector(), b.state(i).stateVector())) return false; return true; }
static bool same(const ControlSequence& a, const ControlSequence& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!eqm(a.control(i).feedforward(), b.control(i).feedforward()) || !eqm(a.control(i).feedback(), b.control(i).feedback())) return false; return true; }
static StateSequence sts(const std::string& n) { StateSequence s(T + 1, 1); for (int i = 0; i <= T; i++) s.state(i).stateVector()[0] = input(n + "x" + S(i)); return s; }
static ControlSequence cts(const std::string& n) { ControlSequence c(T, 1, 1); for (int i = 0; i < T; i++) { c.control(i).feedforward()[0] = input(n + "u" + S(i)); c.control(i).feedback()(0, 0) = input(n + "K" + S(i)); } return c; }
static double& cost() { return G.q->getLqrInfo().get(SolverLqrDoubleParam_Cost); }
// which rollout do the problem's sequences hold?  -1: none, the sequences it started with
static int held() { for (int k = (int)G.r.size() - 1; k >= 0; k--) if (same(G.o->stateSeq(), G.r[k].s) && same(G.o->controlSeq(), G.r[k].c)) return k; return -1; }
// invariant of the loop: what the problem holds is one rollout that did not diverge, with its cost; costs never go up
static void invariant(const std::string& at) {
  int h = held(); prove("the sequences of the problem are those of one rollout" + at, h >= 0); if (h < 0) throw kv::Infeasible(); prove("the accepted rollout did not diverge" + at, !G.r[h].div); prove_eq("the cost belongs to the accepted rollout" + at, cost(), G.r[h].cost);
  if (h != G.acc) { if (G.acc >= 0) { prove("an accepted trajectory is better than the one before" + at, kv::lt(G.r[h].cost, G.r[G.acc].cost)); prove("a trajectory is accepted right after its rollout" + at, h == (int)G.r.size() - 1); } G.acc = h; G.der_fresh = false; } }
static Vec coeffs() { return G.q->getLqrSetting().get(SolverLqrVectorParam_LineSearchCoeffs); }
bool Ghost::shrinks() { Vec al = coeffs(); return trial > 0 && trial <= al.size() && kv::valid(kv::gt(al[trial - 1], al.minCoeff())); }
namespace solverlqr {
void ForwardPass::initialize(OcpBase* o, const SolverLqrSetting& s) { ocp_ = o; stgs_ = &s; }
void BackwardPass::initialize(OcpBase* o, const SolverLqrSetting& s) { ocp_ = o; stgs_ = &s; }
void FiniteDifferences::initialize(OcpBase* o, bool, bool, bool, bool) { ocp_ = o; }
void ForwardPass::applyController(const StateSequence& ns, const ControlSequence& nc) {
  Vec al = coeffs(); int k = G.r.size(); Roll r; r.s = sts("r" + S(k)); r.c = cts("r" + S(k)); r.cost = input("cost" + S(k), 0, 5);
  if (!G.inloop) { prove("initial rollouts start from the given trajectory", same(ns, G.s0)); bool ok = G.ninit < al.size(); prove("at most one initial rollout per line-search coefficient", ok); if (!ok) throw kv::Infeasible(); prove("initial rollouts apply the scaled initial controls", same(nc, al[G.ninit] * G.c0)); G.ninit++; }
  else { invariant(" (before a rollout)"); prove("rollouts follow a successful backward pass", G.bstate == 1); prove("the rollout deviates from the accepted trajectory", same(ns, G.o->stateSeq())); bool ok = G.trial < al.size(); prove("at most one rollout per line-search coefficient", ok); if (!ok) throw kv::Infeasible(); prove("the rollout applies the accepted controls plus the scaled policy", same(nc, G.o->controlSeq() + al[G.trial] * G.b)); G.trial++; }
  r.div = G.allow_div && kv::choice("diverged " + S(k), 2) == 1; G.r.push_back(r); new_state_seq_ = r.s; new_control_seq_ = r.c; new_cost_ = r.cost; has_diverged_ = r.div; timestep_cost_ = Vec(T + 1); timestep_cost_.setZero(); timestep_cost_[0] = r.cost; }
void BackwardPass::optimizeController(const ForwardPass& f, const FiniteDifferences& d, double lambda) {
  G.inloop = true; invariant(" (before a backward pass)"); prove("derivatives belong to the accepted trajectory", G.der_fresh && same(G.ds, G.o->stateSeq()) && same(G.dc, G.o->controlSeq())); prove("the backward pass gets the solver's derivatives", &d == &G.q->getFiniteDiff() && &f == &G.q->getForwPass());
  prove("the regularisation is never negative", kv::ge(lambda, 0.0)); prove("the regularisation never exceeds its maximum", kv::le(lambda, G.lmax));
  bool failed = G.nback > 0 && (G.bstate == 2 || (G.bstate == 1 && G.acc == G.bacc())); 
  if (G.nback > 0) { if (failed) { prove("the regularisation grows after a failed step", kv::gt(lambda, G.lam)); prove("after a failed step the regularisation is at least its minimum", kv::ge(lambda, G.lmin)); } else prove("the regularisation does not grow after a successful step", kv::le(lambda, G.lam)); if (!failed && G.shrinks()) prove("the regularisation shrinks after a successful step", kv::por(kv::lt(lambda, G.lam), pand(eq(lambda, 0.0), eq(G.lam, 0.0)))); }
  G.lam = lambda; G.mark(); G.nback++; G.trial = 0; diverge_flag_ = G.nfail < G.maxfail && kv::choice("no positive Hessian " + S(G.nback), 2) == 1; diverge_iteration_ = diverge_flag_ ? 0 : -1; if (diverge_flag_) G.nfail++; else { G.nsucc++; prove("no more improvement steps than the configured number of iterations", G.nsucc <= G.maxit); } G.bstate = diverge_flag_ ? 2 : 1; dV_.setZero(); control_seq_ = cts("b" + S(G.nback)); G.b = control_seq_; }
void FiniteDifferences::computeDerivatives() { G.inloop = true; invariant(" (before differentiating)"); G.nder++; prove("derivatives are computed at most once per iteration", G.nder <= G.maxit); prove("derivatives are not computed twice for one trajectory", !G.der_fresh); G.ds = G.o->stateSeq(); G.dc = G.o->controlSeq(); G.der_fresh = true; }
double ControlSequence::controlSequenceGradientNorm(const ControlSequence& a, const ControlSequence& b) { prove("the gradient compares the policy with the accepted controls", same(a, G.b) && same(b, G.o->controlSeq())); double g = input("gradient" + S(G.nback), 0, 1); kv::assume(kv::ge(g, 0.0)); return g; }
}

static void heads(const std::string& b) { kv::under_contract("solverlqr::SolverLqr::optimize, initialize"); kv::bounded(b); kv::assumption("backward pass, rollout, derivatives and gradient norm are replaced by their contracts (C12, C13, C15, C16): every outcome is possible"); kv::assumption("line-search coefficients non-empty and positive, 0 < minimum regularisation <= maximum, 0 <= initial regularisation <= maximum, regularisation factor > 1"); kv::set_max_paths(40000); kv::set_timeouts(400, 10000); }
struct Ocp : OcpBase { void configure(const YAML::Node&) override {} StateBase dynamics(const StateBase& s, const ControlBase&, int) override { return s; } double objective(const StateBase&, const ControlBase&, int, bool) override { return 0.0; } };
static void run(int maxit, int nalpha, bool symreg, int maxfail, bool allow_div, int times = 1) {
  SolverLqrSetting s; s.get(SolverLqrIntParam_TimeDimension) = T; s.get(SolverLqrIntParam_StateDimension) = 1; s.get(SolverLqrIntParam_ControlDimension) = 1; s.get(SolverLqrIntParam_LqrMaxIterations) = maxit; s.get(SolverLqrIntParam_Verbosity) = 0; s.get(SolverLqrIntParam_PrecisionDigits) = 3; s.get(SolverLqrBoolParam_StoreData) = false; s.get(SolverLqrBoolParam_HasControlLimits) = false; s.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = false;
  Vec al(nalpha); for (int i = 0; i < nalpha; i++) al[i] = i == 0 ? 1.0 : i == 1 ? 0.5 : 0.25; s.get(SolverLqrVectorParam_LineSearchCoeffs) = al; double lmin = 0.5, lmax = 3.0, l0 = 1.0, f = 2.0, m0 = 1.0;
  if (symreg) { lmin = input("lambda min", 0.1, 1); lmax = input("lambda max", 2, 20); l0 = input("lambda initial", 0, 2); f = input("factor", 1.1, 3); m0 = input("initial factor", 0.2, 2); kv::assume(kv::gt(lmin, 0.0)); kv::assume(kv::le(lmin, lmax)); kv::assume(kv::ge(l0, 0.0)); kv::assume(kv::le(l0, lmax)); kv::assume(kv::gt(f, 1.0)); kv::assume(kv::gt(m0, 0.0)); }
  s.get(SolverLqrDoubleParam_BackPassMinRegularization) = lmin; s.get(SolverLqrDoubleParam_BackPassMaxRegularization) = lmax; s.get(SolverLqrDoubleParam_BackPassInitialRegularization) = l0; s.get(SolverLqrDoubleParam_BackPassMultRegularizationIncr) = f; s.get(SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr) = m0;
  s.get(SolverLqrDoubleParam_ControlGradientTolerance) = input("gradient tolerance", 0, 0.5); s.get(SolverLqrDoubleParam_CostChangeTolerance) = input("cost tolerance", 0, 0.5); s.get(SolverLqrDoubleParam_MinExpectedCostImprovement) = 0.0; s.get(SolverLqrDoubleParam_DivergenceLimitCheck) = 100.0;
  Ocp o; o.initialize(s); SolverLqr q; G = Ghost(); G.o = &o; G.q = &q; q.initialize(&o, s); G.nfail = 0;
  for (int time = 0; time < times; time++) {
    if (time == 0) { o.stateSeq() = sts("given"); o.controlSeq() = cts("given"); } G.s0 = o.stateSeq(); G.c0 = o.controlSeq(); G.acc = -1; G.ninit = G.nback = G.nder = G.nsucc = G.trial = G.bstate = 0; G.accback = -2; G.inloop = G.der_fresh = false; G.maxfail = maxfail; G.allow_div = allow_div; G.maxit = maxit; G.lmax = lmax; G.lmin = lmin; G.lam = l0; size_t first = G.r.size();
    q.optimize(); bool alldiv = true; for (size_t k = first; k < G.r.size(); k++) alldiv = alldiv && G.r[k].div;
    if (alldiv) { prove("without any rollout that stays finite the given trajectory is kept", same(o.stateSeq(), G.s0) && same(o.controlSeq(), G.c0)); prove("every line-search coefficient was tried first", G.ninit == nalpha); continue; }
    G.inloop = true; invariant(" (at the end)"); prove("the iteration counter stays within the configured number", q.getLqrInfo().get(SolverLqrIntParam_CurrentIteration) <= maxit);
    for (size_t k = first + G.ninit; k < G.r.size(); k++) if (!G.r[k].div) prove("an improving rollout is never thrown away", kv::le(G.r[G.acc].cost, G.r[k].cost)); }
}
KV_CASE(one_iteration) { heads("1 iteration, 2 line-search coefficients, symbolic regularisation settings, up to 2 failing backward passes"); run(1, 2, true, 2, true); }
KV_CASE(two_iterations) { heads("2 iterations, 2 line-search coefficients, one failing backward pass, numeric regularisation settings"); run(2, 2, false, 1, true); }
KV_CASE(two_iterations_symbolic) { heads("2 iterations, 1 line-search coefficient, symbolic regularisation settings, one failing backward pass"); run(2, 1, true, 1, false); }
KV_CASE(three_iterations) { heads("3 iterations, 1 line-search coefficient, numeric regularisation settings, no failing backward pass"); run(3, 1, false, 0, true); }
KV_CASE(backward_failures) { heads("1 iteration, up to 4 failing backward passes, numeric regularisation settings"); run(1, 1, false, 4, false); }
KV_CASE(no_iteration) { heads("0 iterations, 1..3 line-search coefficients"); run(0, 1 + kv::choice("coefficients", 3), false, 0, true); }
KV_CASE(optimised_again) { heads("optimised twice with the same object, 1 iteration each"); run(1, 1, false, 1, true, 2); }
KV_CASE(three_iterations_deep) { heads("3 iterations, 2 line-search coefficients, numeric regularisation settings, one failing backward pass"); run(3, 2, false, 1, true); }
KV_CASE(two_iterations_symbolic_deep) { heads("2 iterations, 3 line-search coefficients, symbolic regularisation settings, one failing backward pass"); run(2, 3, true, 1, true); }
