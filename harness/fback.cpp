// C22: contracts of the dynamics feedback problem. SolverLqr::optimize is replaced by its contract (C12-C15): it leaves some
// trajectory and gains in the problem it was given.
#include "kvh.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
using namespace momentumopt; using namespace solverlqr; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::truth; using kv::Prop; using kv::Real;
typedef Eigen::Vector3d V3; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
static std::string S(int i) { return std::to_string(i); }
static Real R(long a, long b = 1) { return Real(a) / Real(b); }
static const int NE = Problem::n_endeffs_;
static MX sym(const std::string& n, int r, int c) { MX m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = input(n + "." + S(i) + "." + S(j)); return m; }
static V3 vec(const std::string& n) { return V3(input(n + "x"), input(n + "y"), input(n + "z")); }
template <class A, class B> static Prop same(const A& a, const B& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return truth(false); Prop p = truth(true); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) p = pand(p, eq(a(i, j), b(i, j))); return p; }
static V3 cross(const V3& a, const V3& b) { return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
static int calls; static OcpBase* given; static MX x0, u0, k0;
static void remember(OcpBase& o) { int n = o.tdim(); x0 = o.stateSeq().state(0).stateVector(); u0 = MX(n, o.udim()); k0 = MX(n * o.udim(), o.xdim()); for (int k = 0; k < n; k++) { u0.row(k) = o.controlSeq().control(k).feedforward().transpose(); k0.block(k * o.udim(), 0, o.udim(), o.xdim()) = o.controlSeq().control(k).feedback(); } }
namespace solverlqr {
void SolverLqr::initialize(OcpBase* o, SolverLqrSetting& s) { ocp_ = o; setting_ = &s; }
void SolverLqr::optimize() { calls++; OcpBase& o = this->getOcp(); given = &o; remember(o); for (int k = 0; k < o.tdim(); k++) { o.controlSeq().control(k).feedback() = sym("K" + S(calls) + "." + S(k), o.udim(), o.xdim()); o.controlSeq().control(k).feedforward() = sym("u" + S(calls) + "." + S(k), o.udim(), 1); } for (int k = 1; k <= o.tdim(); k++) o.stateSeq().state(k).stateVector() = sym("x" + S(calls) + "." + S(k), o.xdim(), 1); }
}
struct W { SolverLqrSetting l; PlannerSetting s; DynamicsFeedback f; DynamicsSequence d; DynamicsState ini; int N, ne; Real m, mg; V3 g; };
static const char* KEYS[7] = {"control_cost", "com_tracking", "lmom_tracking", "amom_tracking", "com_final_tracking", "lmom_final_tracking", "amom_final_tracking"};
static Real weight(int k, int a) { Real w = input(std::string(KEYS[k]) + S(a), 0.1, 2); return w; }
static void plan(DynamicsSequence& d, int N, int ne, const std::string& n, int pattern) { d.resize(N); for (int k = 0; k < N; k++) { DynamicsState& s = d.dynamicsState(k); std::string t = n + S(k); s.time() = input(t + "dt", 0.1, 1); s.centerOfMass() = vec(t + "c"); s.linearMomentum() = vec(t + "l"); s.angularMomentum() = vec(t + "a"); for (int e = 0; e < NE; e++) { s.endeffectorActivation(e) = ((pattern + 5 * k) >> e) & 1; s.endeffectorForce(e) = vec(t + "f" + S(e)); s.endeffectorPosition(e) = vec(t + "p" + S(e)); s.endeffectorCoP(e).setZero(); s.endeffectorTorque(e).setZero(); } } }
static void setup(W& w, int N, int ne, int pattern, bool rk = false) {
  calls = 0; w.N = N; w.ne = ne; w.l.get(SolverLqrIntParam_TimeDimension) = N; w.l.get(SolverLqrIntParam_StateDimension) = 9; w.l.get(SolverLqrIntParam_ControlDimension) = 3 * ne; w.l.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = rk; w.l.get(SolverLqrBoolParam_HasControlLimits) = false; w.l.get(SolverLqrDoubleParam_DivergenceLimitCheck) = R(1000000000);
  YAML::Node y; for (int k = 0; k < 7; k++) for (int a = 0; a < 3; a++) { weight(k, a); kv::assume(kv::gt(weight(k, a), R(0))); 
#ifdef KV_SYM
      y[KEYS[k]].push_back("kv:" + std::string(KEYS[k]) + S(a));
#else
      y[KEYS[k]].push_back((double)weight(k, a));
#endif
    } w.l.get(SolverLqrYamlParam_UserParameters) = y;
  w.s.get(PlannerIntParam_NumActiveEndeffectors) = ne; w.m = input("mass", 1, 50); kv::assume(kv::gt(w.m, R(0))); w.mg = input("weight", 10, 100); w.g = vec("gravity"); w.s.get(PlannerDoubleParam_RobotMass) = w.m; w.s.get(PlannerDoubleParam_MassTimesGravity) = w.mg; w.s.get(PlannerVectorParam_GravityVector) = w.g;
  w.ini.centerOfMass() = vec("com"); w.ini.linearMomentum() = vec("lmom"); w.ini.angularMomentum() = vec("amom"); plan(w.d, N, ne, "d", pattern); }
static void start(W& w) { w.f.initialize(w.l); w.f.setPlannerSetting(w.s); w.f.setStatesAndControls(w.ini, w.d); }
static void heads(const std::string& b) { for (auto f : {"setStatesAndControls", "configure", "objective", "dynamics"}) kv::under_contract(std::string("momentumopt::DynamicsFeedback::") + f); kv::bounded(b); kv::set_tol(1e-6); }
// x(k+1) of the discretised centroidal dynamics, forces acting at the end effectors
static VX step(const W& w, const VX& x, const VX& u, int k) { const DynamicsState& s = w.d.dynamicsState(k); Real dt = s.time(); V3 c = x.segment<3>(0), l = x.segment<3>(3), a = x.segment<3>(6); l += dt * w.m * w.g; for (int e = 0; e < w.ne; e++) if (s.endeffectorActivation(e)) l += dt * V3(u.segment<3>(3 * e)); c += dt / w.m * l; for (int e = 0; e < w.ne; e++) if (s.endeffectorActivation(e)) a += dt * cross(V3(s.endeffectorPosition(e)) - c, V3(u.segment<3>(3 * e))); VX r(9); r << c, l, a; return r; }
static StateBase st(const VX& v) { StateBase s(v.size()); s.stateVector() = v; return s; }
static ControlBase ct(const VX& v) { ControlBase c(9, v.size()); c.feedforward() = v; return c; }
KV_CASE(fb_dynamics) { heads("2 steps, 1..4 end effectors, every contact pattern; every number"); int ne = 1 + kv::choice("effectors", 4), p = kv::choice("pattern", 1 << ne), k = kv::choice("step", 2); W w; setup(w, 2, ne, p); start(w); VX x = sym("x", 9, 1), u = sym("u", 3 * ne, 1); StateBase a = st(x), n(9); ControlBase c = ct(u); w.f.internal_dynamics(a, c, n, k); VX want = step(w, x, u, k); for (int i = 0; i < 3; i++) { prove_eq("the linear momentum integrates gravity and the active contact forces", n.stateVector()[3 + i], want[3 + i]); prove_eq("the centre of mass integrates the new linear momentum", n.stateVector()[i], want[i]); prove_eq("the angular momentum integrates the moments of the active contact forces about the new centre of mass", n.stateVector()[6 + i], want[6 + i]); } prove("evaluating the dynamics leaves state and control alone", pand(same(a.stateVector(), x), same(c.feedforward(), u))); }
static Real expected(const W& w, const VX& x, const VX& u, int k, bool fin) { Real o = R(0); if (!fin) for (int e = 0; e < w.ne; e++) if (w.d.dynamicsState(k).endeffectorActivation(e)) for (int a = 0; a < 3; a++) o += weight(0, a) * u[3 * e + a] * u[3 * e + a]; const DynamicsState& r = w.d.dynamicsState(k ? k - 1 : 0); for (int a = 0; a < 3; a++) { Real c = x[a] - r.centerOfMass()[a], l = x[3 + a] - r.linearMomentum()[a], m = x[6 + a] - r.angularMomentum()[a]; int b = fin ? 4 : 1; o += weight(b, a) * c * c + weight(b + 1, a) * l * l + weight(b + 2, a) * m * m; } return o; }
KV_CASE(fb_objective) { heads("3 steps, 1..4 end effectors, every contact pattern; every number"); int ne = 1 + kv::choice("effectors", 4), p = kv::choice("pattern", 1 << ne), k = kv::choice("step", 4); W w; setup(w, 3, ne, p); start(w); VX x = sym("x", 9, 1), u = sym("u", 3 * ne, 1), z = VX::Zero(3 * ne); bool fin = k == 3; kv::set_max_paths(3000); Real got = w.f.objective(st(x), ct(u), k, fin), none = w.f.objective(st(x), ct(z), k, fin); VX q = VX::Zero(9); 
  prove_eq("controls cost the weighted squares of the active contact forces, and nothing at the end", got - none, expected(w, x, u, k, fin) - expected(w, x, z, k, fin));
  if (!k) return; prove_eq(fin ? "the final cost is the squared deviation from the end of the plan, with the final weights" : "the running cost is the squared deviation from the plan", none, expected(w, x, z, k, fin));
  VX y(9); const DynamicsState& r = w.d.dynamicsState(k - 1); y << r.centerOfMass(), r.linearMomentum(), r.angularMomentum(); prove_eq("tracking the plan costs nothing", w.f.objective(st(y), ct(z), k, fin), R(0)); int i = kv::choice("coordinate", 9); y[i] = x[i]; Real dev = w.f.objective(st(y), ct(z), k, fin); V3 rc = r.centerOfMass(), rl = r.linearMomentum(), ra = r.angularMomentum(); Real ref = i < 3 ? rc[i] : i < 6 ? rl[i - 3] : ra[i - 6]; prove("leaving the plan costs something", kv::implies(kv::pnot(eq(x[i], ref)), kv::gt(dev, R(0)))); }
static Prop started(const W& w, const MX& x, const MX& u, const MX& K) { Prop p = truth(x.size() == 9 && u.rows() == w.N && u.cols() == 3 * w.ne); if (x.size() != 9 || u.rows() != w.N || u.cols() != 3 * w.ne) return p; for (int a = 0; a < 3; a++) p = pand(p, pand(eq(x(a), w.ini.centerOfMass()[a]), pand(eq(x(3 + a), w.ini.linearMomentum()[a]), eq(x(6 + a), w.ini.angularMomentum()[a])))); for (int k = 0; k < w.N; k++) for (int e = 0; e < w.ne; e++) for (int a = 0; a < 3; a++) p = pand(p, eq(u(k, 3 * e + a), w.d.dynamicsState(k).endeffectorActivation(e) ? w.mg * w.d.dynamicsState(k).endeffectorForce(e)[a] : R(0))); for (int i = 0; i < K.rows(); i++) for (int j = 0; j < K.cols(); j++) p = pand(p, eq(K(i, j), R(0))); return p; }
KV_CASE(fb_start) { heads("1..3 steps, 2 or 4 end effectors, several contact patterns; every number"); int N = 1 + kv::choice("steps", 3), ne = kv::choice("effectors", 2) ? 4 : 2, p = 3 * kv::choice("pattern", 5); W w; setup(w, N, ne, p); start(w); remember(w.f); prove("the problem starts at the given state with the planned forces and no feedback", started(w, x0, u0, k0)); DynamicsSequence d; plan(d, N + 1, ne, "e", p); bool threw = false; try { w.f.setStatesAndControls(w.ini, d); } catch (std::runtime_error&) { threw = true; } prove("a plan of another length is refused", threw); }
KV_CASE(fb_rollout) { heads("1..2 steps, 2 end effectors, several contact patterns; a plan that follows the discretised dynamics"); kv::under_contract("momentumopt::DynamicsFeedback with solverlqr::ForwardPass"); int N = 1 + kv::choice("steps", 2), p = kv::choice("pattern", 4); W w; setup(w, N, 2, p); VX x(9); x << w.ini.centerOfMass(), w.ini.linearMomentum(), w.ini.angularMomentum(); Real effort = R(0); for (int k = 0; k < N; k++) { DynamicsState& s = w.d.dynamicsState(k); VX u = VX::Zero(6); for (int e = 0; e < 2; e++) if (s.endeffectorActivation(e)) for (int a = 0; a < 3; a++) { u[3 * e + a] = w.mg * s.endeffectorForce(e)[a]; effort += weight(0, a) * u[3 * e + a] * u[3 * e + a]; } x = step(w, x, u, k); s.centerOfMass() = x.segment<3>(0); s.linearMomentum() = x.segment<3>(3); s.angularMomentum() = x.segment<3>(6); }
  start(w); ForwardPass f; f.initialize(&w.f, w.l); kv::set_max_paths(4000); w.l.get(SolverLqrDoubleParam_DivergenceLimitCheck) = std::numeric_limits<double>::infinity(); f.applyController(w.f.stateSeq(), w.f.controlSeq()); Prop q = truth(true); Real c0 = w.f.objective(w.f.stateSeq().state(0), ct(VX::Zero(6)), 0, false); for (int k = 0; k < N; k++) { VX y(9); y << w.d.dynamicsState(k).centerOfMass(), w.d.dynamicsState(k).linearMomentum(), w.d.dynamicsState(k).angularMomentum(); q = pand(q, same(VX(f.stateSeq().state(k + 1).stateVector()), y)); } prove("the planned forces roll out the planned motion", q); prove_eq("following the plan costs the control effort only", f.newCost(), effort + c0); }
KV_CASE(fb_gains) { heads("1..3 steps, 2 end effectors, query times -2 .. steps+1, optimised once or twice"); kv::under_contract("momentumopt::DynamicsFeedbackWrapper::initialize, optimize, forceGain"); kv::assumption("the LQR solver leaves some trajectory and gains in the problem it was given (C12, C13, C14, C15)"); int N = 1 + kv::choice("steps", 3), again = kv::choice("again", 2); W w; setup(w, N, 2, 2); DynamicsFeedbackWrapper f; f.initialize(w.l, w.s); f.optimize(w.ini, w.d); prove("the feedback problem is solved once", calls == 1); prove("the solver gets the given state, the planned forces and no feedback", started(w, x0, u0, k0));
  if (again) { plan(w.d, N, 2, "e", 1); w.ini.centerOfMass() = vec("com2"); w.ini.linearMomentum() = vec("lmom2"); f.optimize(w.ini, w.d); prove("each plan is solved once", calls == 2); prove("a second plan starts from its own state and forces, without the gains of the first", started(w, x0, u0, k0)); }
  for (int t = -2; t < N + 2; t++) prove("the gain returned for a time step is the one computed for it (the nearest step outside the plan)", same(f.forceGain(t), sym("K" + S(calls) + "." + S(t < 0 ? 0 : t >= N ? N - 1 : t), 6, 9))); }
