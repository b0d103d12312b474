// C24: contracts of the kinematics optimisation problems. The conic model and the robot (KinematicsInterface) are replaced by
// their contracts: the model records what it is told and returns some value of every variable, the robot returns some
// kinematics for each posture (and integrates and differentiates positions linearly).
#include "kvh.hpp"
#include <new>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
using namespace momentumopt; using namespace solver; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::truth; using kv::Prop; using kv::Real;
typedef Eigen::Vector3d V3; typedef Eigen::Quaternion<double> Q; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
static std::string S(int i) { return std::to_string(i); }
static Real R(long a, long b = 1) { return Real(a) / Real(b); }
#ifdef KV_SYM
VX kv_linear_solve(const MX& A, const VX& b) { throw std::runtime_error("no trajectory is interpolated here"); }
#endif
static const int NE = Problem::n_endeffs_; static const int ND = 3, NA = 2, NX = 8;
struct LC { LinExpr a; std::string s; LinExpr b; };
struct Run { std::vector<LC> lin; int other = 0; DCPQuadExpr oq; LinExpr ol; int nobj = 0; std::vector<Var> vars, ids; OptimizationVariable com_, lmom_, amom_, jnt_q_, jnt_qd_, jnt_qdd_, total_qd_, total_qdd_, slack_vars_; };
static std::vector<Run> runs; static int solved; static KinematicsOptimizer* told_by;
namespace solver {
void SolverSetting::initialize(const std::string, const std::string) {}
void ConicProblem::clean() { runs.push_back(Run()); }
Var ConicProblem::addVar(const VarType& type, double lb, double ub, double guess) { Var v(runs.back().vars.size(), type, lb, ub, guess); runs.back().vars.push_back(v); return v; }
void ConicProblem::addLinConstr(const LinExpr& lhs, const std::string sense, const LinExpr& rhs) { runs.back().lin.push_back({lhs, sense, rhs}); }
void ConicProblem::addSocConstr(const DCPQuadExpr& q, const std::string sense, const LinExpr& l) { runs.back().other++; }
void ConicProblem::addQuaConstr(const DCPQuadExpr& q, const std::string sense, const LinExpr& l, const QuadConstrApprox& ap) { runs.back().other++; }
void ConicProblem::setObjective(const DCPQuadExpr& q, const LinExpr& l) { runs.back().nobj++; runs.back().oq = q; runs.back().ol = l; }
ExitCode Model::optimize() { solved++; Run& r = runs.back(); KinematicsOptimizer& o = *told_by; r.ids = o.vars_; r.com_ = o.com_; r.lmom_ = o.lmom_; r.amom_ = o.amom_; r.jnt_q_ = o.jnt_q_; r.jnt_qd_ = o.jnt_qd_; r.jnt_qdd_ = o.jnt_qdd_; r.total_qd_ = o.total_qd_; r.total_qdd_ = o.total_qdd_; r.slack_vars_ = o.slack_vars_; std::string t = "x" + S(runs.size()) + "."; for (size_t i = 0; i < r.vars.size(); i++) r.vars[i].set(SolverDoubleParam_X, input(t + S(i)));  return ExitCode::Optimal; }
}
static Real val(const LinExpr& e) { Real v = e.getConstant(); for (size_t i = 0; i < e.size(); i++) v += e.getCoeff(i) * e.getVar(i).get(SolverDoubleParam_X); return v; }
static Real quad(const DCPQuadExpr& q) { Real v = val(q.lexpr()); for (size_t i = 0; i < q.qexpr().size(); i++) { Real a = val(q.qexpr()[i]); v += q.coeffs()[i] * a * a; } return v; }
static bool same_id(const Real& a, const Real& b) { return kv::valid(eq(a, b)); }
struct Told { std::vector<Real> eqs, les; Prop all = truth(true);
  explicit Told(const Run& r) { for (auto& c : r.lin) { Real d = val(c.a) - val(c.b); if (c.s[0] == '=') eqs.push_back(d); else les.push_back(c.s[0] == '<' ? d : -d); } for (auto& d : eqs) all = pand(all, eq(d, R(0))); }
  void equality(const std::string& l, const Real& d) const { for (auto& e : eqs) if (same_id(e, d) || same_id(e, -d)) { prove(l, true); return; } prove(l, kv::implies(all, eq(d, R(0)))); }
  void at_most(const std::string& l, const Real& d) const { for (auto& e : les) if (same_id(e, d)) { prove(l, true); return; } if (!kv::symbolic()) { bool pre = true; for (auto& e : eqs) pre = pre && fabs(e) < R(1, 1000000); for (auto& e : les) pre = pre && e <= R(0); prove(l, !(pre && d > R(1, 1000))); return; } Prop p = all; for (auto& e : les) p = pand(p, kv::le(e, R(0))); prove(l, kv::implies(p, kv::le(d, R(0)))); } };
static V3 vec(const std::string& n) { return V3(input(n + "x"), input(n + "y"), input(n + "z")); }
static Q quat(const std::string& n) { return Q(input(n + "w"), input(n + "x"), input(n + "y"), input(n + "z")); }
static Real gen(int i, int r, int c) { long k = (i * 31 + r * 7 + c * 13) % 19 - 9; return k == 0 && (r + c) % 3 ? R(1, 7) : R(k, 5); }
static MX table(int i, int rows, int cols) { MX m(rows, cols); for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) m(r, c) = gen(i, r, c); return m; }
struct Posture { V3 p; Q o; VX j; }; static Posture posture(const KinematicsState& s) { return {s.robotPosture().basePosition(), s.robotPosture().baseOrientation(), s.robotPosture().jointPositions()}; }
static bool same(const VX& a, const VX& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!same_id(a[i], b[i])) return false; return true; }
static bool same(const Q& a, const Q& b) { return same(VX(a.coeffs()), VX(b.coeffs())); }
static bool same(const Posture& a, const Posture& b) { return same(VX(a.p), VX(b.p)) && same(a.o, b.o) && same(a.j, b.j); }
static Prop equal(const VX& a, const VX& b) { if (a.size() != b.size()) return truth(false); Prop p = truth(true); for (int i = 0; i < a.size(); i++) p = pand(p, eq(a[i], b[i])); return p; }
static Prop equal(const Posture& a, const Posture& b) { return pand(equal(VX(a.p), VX(b.p)), pand(equal(VX(a.o.coeffs()), VX(b.o.coeffs())), equal(a.j, b.j))); }
// ------------------------------------------------------------------ contract of the robot
struct Kinem { Posture at; V3 c, l, a; std::vector<V3> e; MX jc, h, hv; std::vector<MX> je; VX con; MX conj; };
struct Kin : KinematicsInterface {
  std::vector<Kinem> seen; struct OD { Q a, b; VX w; Real dt; V3 r; }; std::vector<OD> ods; struct OI { Q a; VX w; Real dt; Q r; }; std::vector<OI> ois; struct OL { Q a; V3 r; }; std::vector<OL> ols; int ncon = 0, shown = 0; bool generic = false;
  void initialize(PlannerSetting&) override {}
  V3 logarithmicMap(const Eigen::Vector4d q) override { return log(Q(q[0], q[1], q[2], q[3])); }
  V3 log(const Q& q) { for (auto& l : ols) if (same(l.a, q)) return l.r; OL l{q, vec("log" + S(ols.size()))}; ols.push_back(l); return l.r; }
  Q turn(const Q& q, const V3& w, const Real& dt) { for (auto& t : ois) if (same(t.a, q) && same(t.w, VX(w)) && same_id(t.dt, dt)) return t.r; OI t{q, VX(w), dt, quat("turn" + S(ois.size()))}; ois.push_back(t); return t.r; }
  V3 rate(const Q& a, const Q& b, const Real& dt) { for (auto& t : ods) if (same(t.a, a) && same(t.b, b) && same_id(t.dt, dt)) return t.r; OD t{a, b, VX(), dt, vec("rate" + S(ods.size()))}; ods.push_back(t); return t.r; }
  Kinem& at(const Posture& p) { for (auto& k : seen) if (same(k.at, p)) return k; int i = seen.size(); Kinem k; k.at = p; std::string n = "kin" + S(i); k.c = vec(n + "c"); k.l = vec(n + "l"); k.a = vec(n + "a"); for (int e = 0; e < NE; e++) { k.e.push_back(vec(n + "e" + S(e))); k.je.push_back(table(5 * i + e, 6, 6 + ND)); } k.jc = table(11 * i + 1, 3, 6 + ND); k.h = table(13 * i + 2, 6, 6 + ND); k.hv = table(17 * i + 3, 6, 6 + ND); k.con = VX(ncon); for (int c = 0; c < ncon; c++) k.con[c] = input(n + "con" + S(c)); k.conj = table(19 * i + 4, ncon, 6 + ND); seen.push_back(k); return seen.back(); }
  KinematicsState updateJacobiansAndState(KinematicsState& s, double) override { Kinem k = at(posture(s)); KinematicsState r = s; r.centerOfMass() = k.c; r.linearMomentum() = k.l; r.angularMomentum() = k.a; for (int e = 0; e < NE; e++) { r.endeffectorPosition(e) = k.e[e]; endeffectorJacobian(e) = k.je[e]; } centerOfMassJacobian() = k.jc; centroidalMomentumMatrix() = k.h; centroidalMomentumMatrixVariation() = k.hv; constraintsVector(k.con); constraintsMatrix(k.conj); return r; }
  Posture moved(const Posture& p, const VX& v, const Real& dt) { Posture r = p; for (int i = 0; i < 3; i++) r.p[i] = p.p[i] + dt * v[i]; r.o = turn(p.o, V3(v[3], v[4], v[5]), dt); for (int i = 0; i < ND; i++) r.j[i] = p.j[i] + dt * v[6 + i]; return r; }
  VX velocity(const Posture& a, const Posture& b, const Real& dt) { VX v(6 + ND); V3 w = rate(a.o, b.o, dt); for (int i = 0; i < 3; i++) { v[i] = (b.p[i] - a.p[i]) / dt; v[3 + i] = w[i]; } for (int i = 0; i < ND; i++) v[6 + i] = (b.j[i] - a.j[i]) / dt; return v; }
  KinematicsState integratePosture(KinematicsState& s, double dt) override { KinematicsState r = s; Posture p = moved(posture(s), s.robotVelocity().generalizedJointVelocities(), dt); r.robotPosture().basePosition() = p.p; r.robotPosture().baseOrientation() = p.o; r.robotPosture().jointPositions() = p.j; return r; }
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double dt) override { KinematicsState r = b; r.robotVelocity().generalizedJointVelocities() = velocity(posture(a), posture(b), dt); return r; }
  void displayPosture(const KinematicsState&, double) override { shown++; } };
struct Plan : ContactPlanInterface { void optimize(const DynamicsState&, const TerrainDescription&) override {} };
struct W { PlannerSetting s; Kin r; Plan P; DynamicsState ini; DynamicsSequence d; int N, ne; Real h; V3 wc, wl, wa, wld, wad, we, wn; VX wq, wv, wz, q0, qmin, qmax; Real lam, pen, floor_; KinematicsOptimizer o; };
static V3 num3(int i) { return V3(R(i + 2, 3), R(i + 5, 7), R(2 * i + 3, 11)); }
static void dynstate(DynamicsState& s, const std::string& n, int pattern, int k) { s.time() = R(k + 2, 10); s.centerOfMass() = vec(n + "c"); s.linearMomentum() = vec(n + "l"); s.angularMomentum() = vec(n + "a"); for (int e = 0; e < NE; e++) { s.endeffectorActivation(e) = (pattern >> ((e + k) % 4)) & 1; s.endeffectorPosition(e) = vec(n + "p" + S(e)); } }
static void setup(W& w, int N, int ne, int pattern, int kit, int tit, int ncon = 0) {
  runs.clear(); solved = 0; told_by = &w.o; w.N = N; w.ne = ne; PlannerSetting& s = w.s; w.h = R(1, 4); w.r.ncon = ncon; s.get(PlannerIntParam_NumTimesteps) = N; s.get(PlannerIntParam_NumActiveEndeffectors) = ne; s.get(PlannerIntParam_NumDofs) = ND; s.get(PlannerIntParam_NumActiveDofs) = NA; s.get(PlannerIntParam_NumExtendedActiveDofs) = NX; s.get(PlannerIntParam_MaxKinConvergenceIterations) = kit; s.get(PlannerIntParam_MaxKinTrajectoryIterations) = tit; s.get(PlannerIntParam_NumSubsamples) = 2; s.get(PlannerBoolParam_LoadKinematics) = false; s.get(PlannerBoolParam_DisplayMotion) = false; s.get(PlannerBoolParam_StoreData) = false; s.get(PlannerBoolParam_UseDefaultSolverSetting) = true; s.get(PlannerDoubleParam_KinIntegrationStep) = w.h; s.get(PlannerDoubleParam_KinConvergenceTolerance) = R(-1);
  Eigen::VectorXi ad(NA), ed(NX); ad << 0, 1; for (int i = 0; i < NX; i++) ed[i] = i; s.active_dofs_ = ad; s.extended_active_dofs_ = ed;
  w.wc = s.get(PlannerVectorParam_WeightKinematicTrackingCenterOfMass) = num3(1); w.wl = s.get(PlannerVectorParam_WeightKinematicTrackingLinearMomentum) = num3(2); w.wa = s.get(PlannerVectorParam_WeightKinematicTrackingAngularMomentum) = num3(3); w.wld = s.get(PlannerVectorParam_WeightKinematicTrackingLinearMomentumRate) = num3(4); w.wad = s.get(PlannerVectorParam_WeightKinematicTrackingAngularMomentumRate) = num3(5); w.we = s.get(PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition) = num3(6); w.wn = s.get(PlannerVectorParam_WeightKinematicTrackingNonActiveEndeffectorPosition) = num3(7);
  w.wq = VX(NA); w.qmin = VX(ND); w.qmax = VX(ND); w.q0 = VX(ND); for (int i = 0; i < NA; i++) { w.wq[i] = R(3 * i + 1, 5); } for (int i = 0; i < ND; i++) { w.qmin[i] = input("qmin" + S(i)); w.qmax[i] = input("qmax" + S(i)); w.q0[i] = input("q0" + S(i)); } w.wv = VX(NX); w.wz = VX(NX); for (int i = 0; i < NX; i++) { w.wv[i] = R(i + 1, 9); w.wz[i] = R(2 * i + 1, 13); }
  s.w_kin_default_joints_ = w.wq; s.w_kin_joint_vel_ = w.wv; s.w_kin_joint_acc_ = w.wz; s.default_joint_positions_ = w.q0; s.min_joint_limits_ = w.qmin; s.max_joint_limits_ = w.qmax; w.lam = s.get(PlannerDoubleParam_LambdaRegularization) = R(3, 17); w.pen = s.get(PlannerDoubleParam_KinSlacksPenalty) = R(5, 2); w.floor_ = s.get(PlannerDoubleParam_FloorHeight) = input("floor");
  dynstate(w.ini, "i", pattern, 0); w.d.resize(N); for (int k = 0; k < N; k++) dynstate(w.d.dynamicsState(k), "d" + S(k), pattern, k); w.P.initialize(s); w.o.initialize(s, &w.r); }
static Real X(const Run& r, int id) { return r.ids[id].get(SolverDoubleParam_X); }
static Real sq(const Real& u) { return u * u; }
static void heads(const std::string& b) { for (auto f : {"initialize", "optimize", "initializeTrajectoryKinematicVariables", "optimizeTrajectory", "initializePostureKinematicVariables", "optimizePosture", "addVariableToModel", "saveSolution"}) kv::under_contract(std::string("momentumopt::KinematicsOptimizer::") + f); kv::under_contract("momentumopt::KinematicsInterface::internalInitialization"); kv::under_contract("momentumopt::KinematicsSequence::resize"); kv::bounded(b); kv::set_tol(1e-6); kv::assumption("the conic model returns some value of every variable it was given; what it returns satisfies the constraints it was told (C01, C02, C06)"); kv::assumption("the robot returns some kinematics for every posture; Jacobians are fixed tables of numbers; positions integrate and differentiate linearly, orientations arbitrarily"); kv::assumption("the active joints are the first joints of the robot (as in every configuration of the repository)"); }
// ------------------------------------------------------------------ trajectory problem
static void trajectory(W& w, const Run& run, const std::vector<Posture>& at, const Posture& p0, const std::string& r) {
  Told t(run); auto& O = w.o; Real obj = R(0); prove("the objective is given once" + r, run.nobj == 1 && run.other == 0);
  for (int k = 0; k < w.N; k++) { Kinem K = w.r.at(at[k]); const DynamicsState& s = w.d.dynamicsState(k); Real dt = s.time(); V3 lo = w.r.log(at[k].o), l0 = w.r.log(p0.o);
    for (int i = 0; i < 3; i++) { Real c = X(run, O.com_.id(i, k)), l = X(run, O.lmom_.id(i, k)), a = X(run, O.amom_.id(i, k)), lp = k ? X(run, O.lmom_.id(i, k - 1)) : w.ini.linearMomentum()[i], ap = k ? X(run, O.amom_.id(i, k - 1)) : w.ini.angularMomentum()[i]; obj += w.wc[i] * sq(c - s.centerOfMass()[i]) + w.wl[i] * sq(l - s.linearMomentum()[i]) + w.wa[i] * sq(a - s.angularMomentum()[i]) + w.wld[i] * sq((l - lp) / dt) + w.wad[i] * sq((a - ap) / dt);
      Real cc = K.c[i], ll = R(0), aa = R(0); for (int j = 0; j < NX; j++) { cc += w.h * K.jc(i, j) * X(run, O.jnt_qd_.id(j, k)); ll += K.h(i, j) * X(run, O.total_qd_.id(j, k)); aa += K.h(3 + i, j) * X(run, O.total_qd_.id(j, k)); } t.equality("the centre of mass is that of the moved posture" + r, c - cc); t.equality("the linear momentum is that of the joint velocities" + r, l - ll); t.equality("the angular momentum is that of the joint velocities" + r, a - aa);
      for (int e = 0; e < w.ne; e++) { Real p = X(run, O.eef_pos_[e].id(i, k)), v = R(0); obj += (s.endeffectorActivation(e) ? w.we : w.wn)[i] * sq(p - s.endeffectorPosition(e)[i]); for (int j = 0; j < NX; j++) v += K.je[e](i, j) * X(run, O.jnt_qd_.id(j, k)); t.equality("the end effector moves with its Jacobian" + r, X(run, O.eef_vel_[e].id(i, k)) - v); t.equality("the end effector position is that of the moved posture" + r, p - K.e[e][i] - w.h * X(run, O.eef_vel_[e].id(i, k))); } }
    for (int e = 0; e < w.ne; e++) t.at_most("end effectors stay above the floor" + r, w.floor_ - X(run, O.eef_pos_[e].id(2, k)));
    for (int j = 0; j < NX; j++) { Real q = X(run, O.jnt_q_.id(j, k)), v = X(run, O.total_qd_.id(j, k)), z = X(run, O.total_qdd_.id(j, k)); auto ref = [&](const Posture& p, const V3& l) { return j < 3 ? p.p[j] : j < 6 ? l[j - 3] : p.j[j - 6]; }; t.equality("the posture moves with the joint velocities" + r, q - ref(at[k], lo) - w.h * X(run, O.jnt_qd_.id(j, k))); t.equality("the total velocity differentiates the postures" + r, v - (q - (k ? X(run, O.jnt_q_.id(j, k - 1)) : ref(p0, l0))) / dt); t.equality("the acceleration differentiates the total velocities" + r, z - (v - (k ? X(run, O.total_qd_.id(j, k - 1)) : R(0))) / dt); obj += w.wv[j] * sq(v) + w.wz[j] * sq(z); if (j >= 6) { obj += w.wq[j - 6] * sq(q - w.q0[j - 6]); t.at_most("joints stay above their lower limits" + r, w.qmin[j - 6] - q); t.at_most("joints stay below their upper limits" + r, q - w.qmax[j - 6]); } } }
  prove_eq("the objective is the weighted tracking error and effort of the settings" + r, quad(run.oq) + val(run.ol), obj); }
// what the sequence holds after the trajectory problem has been solved
static std::vector<Posture> stored(W& w, const Run& run, const std::vector<Posture>& at, const Posture& p0, const std::string& r) { auto& O = w.o; std::vector<Posture> now; for (int k = 0; k < w.N; k++) { VX v = VX::Zero(6 + ND); const KinematicsState& s = O.kinematicsSequence().kinematicsState(k); for (int j = 0; j < NX; j++) v[j] = X(run, O.jnt_qd_.id(j, k)); VX pv = s.robotVelocity().generalizedJointVelocities(); Posture m = at[k]; for (int i = 0; i < 3; i++) m.p[i] = at[k].p[i] + w.h * v[i]; Posture got = posture(s); for (int i = 0; i < NA; i++) m.j[i] = at[k].j[i] + w.h * v[6 + i]; prove("each step of the sequence is its posture moved by its joint velocities" + r, pand(equal(VX(got.p), VX(m.p)), equal(VX(got.j.head(NA)), VX(m.j.head(NA))))); bool turned = false; for (auto& t : w.r.ois) turned = turned || (same(t.a, at[k].o) && same(t.w, VX(v.segment(3, 3))) && same_id(t.dt, w.h) && same(t.r, got.o)); prove("the base turns by its angular velocity" + r, turned); now.push_back(got); prove("the stored velocity differentiates the stored postures" + r, equal(VX(pv), w.r.velocity(k ? now[k - 1] : p0, got, w.d.dynamicsState(k).time()))); VX acc = s.robotAcceleration().generalizedJointAccelerations(); Prop z = truth(acc.size() == 6 + ND); for (int j = 0; j < NX; j++) z = pand(z, eq(acc[j], X(run, O.total_qdd_.id(j, k)))); prove("the stored acceleration is that of its step" + r, z); } return now; }
static void given_sequence(W& w, std::vector<Posture>& at, const std::string& n) { at.clear(); for (int k = 0; k < w.N; k++) { KinematicsState& s = w.o.kinematicsSequence().kinematicsState(k); std::string t = n + S(k); s.robotPosture().basePosition() = vec(t + "b"); s.robotPosture().baseOrientation() = quat(t + "o"); for (int i = 0; i < ND; i++) s.robotPosture().jointPositions()[i] = input(t + "j" + S(i)); at.push_back(posture(s)); } }
KV_CASE(kin_trajectory) { heads("1..3 steps, 1, 2 or 4 end effectors, 3 joints (2 active), three contact patterns, one or two iterations; every reference, limit and solution"); int N = 1 + kv::choice("steps", 3), ne = 1 << kv::choice("effectors", 3), p = 5 * kv::choice("pattern", 3), it = 1 + kv::choice("iterations", 2); W w; setup(w, N, ne, p, 0, it); std::vector<Posture> at; given_sequence(w, at, "s"); w.o.optimize(w.ini, &w.P, w.d, false); Posture p0; p0.p = V3(R(0), R(0), R(0)); p0.o = w.o.ini_state_->robotPosture().baseOrientation(); p0.j = w.q0; prove("the initial posture starts from the default joints", equal(posture(*w.o.ini_state_).j, w.q0)); p0 = posture(*w.o.ini_state_); prove("the trajectory problem is solved once per iteration", (int)runs.size() == it && solved == it); if ((int)runs.size() != it) return;
  std::vector<Posture> cur = at; for (int r = 0; r < it; r++) { trajectory(w, runs[r], cur, p0, r ? " (second iteration)" : ""); if (r + 1 < it) { std::vector<Posture> nx; for (int k = 0; k < N; k++) { VX v = VX::Zero(6 + ND); for (int j = 0; j < NX; j++) v[j] = X(runs[r], w.o.jnt_qd_.id(j, k)); if (r == 0) { for (int j = NX; j < 6 + ND; j++) v[j] = R(0); } nx.push_back(w.r.moved(cur[k], v, w.h)); } cur = nx; } }
  stored(w, runs[it - 1], cur, p0, it > 1 ? " (second iteration)" : ""); }
// ------------------------------------------------------------------ posture problem
static void posture_problem(W& w, const Run& run, const Posture& at, const DynamicsState& want, const std::string& r) { Told t(run); const Run& O = run; Kinem K = w.r.at(at); Real obj = R(0); int nc = w.r.ncon; prove("the objective is given once" + r, run.nobj == 1 && run.other == 0); auto qd = [&](int j) { return X(run, O.jnt_qd_.id(j, 0)); };
  for (int i = 0; i < 3; i++) { Real c = -(want.centerOfMass()[i] - K.c[i]) / w.h, l = -(want.linearMomentum()[i] - K.l[i]) / w.h, a = -(want.angularMomentum()[i] - K.a[i]) / w.h; for (int j = 0; j < NX; j++) { Real z = X(run, O.jnt_qdd_.id(j, 0)), v = X(run, O.total_qd_.id(j, 0)); c += K.jc(i, j) * qd(j); l += K.h(i, j) * z + K.hv(i, j) * v; a += K.h(3 + i, j) * z + K.hv(3 + i, j) * v; } obj += w.wc[i] * sq(c) + w.wl[i] * sq(l) + w.wa[i] * sq(a); for (int e = 0; e < w.ne; e++) { Real x = -(want.endeffectorPosition(e)[i] - K.e[e][i]) / w.h; for (int j = 0; j < NX; j++) x += K.je[e](i, j) * qd(j); obj += (want.endeffectorActivation(e) ? w.we : w.wn)[i] * sq(x); } }
  for (int j = 0; j < NX; j++) obj += w.lam * (sq(qd(j)) + sq(X(run, O.jnt_qdd_.id(j, 0)))); for (int c = 0; c < nc; c++) { Real sl = X(run, O.slack_vars_.id(c, 0)), u = -K.con[c]; for (int j = 0; j < NX; j++) u += K.conj(c, j) * qd(j); obj += w.pen * sq(sl); t.at_most("slacks are not negative" + r, -sl); t.at_most("bodies keep apart up to the slack" + r, u - sl); }
  for (int j = 0; j < NA; j++) { Real q = X(run, O.jnt_q_.id(j, 0)); obj += w.wq[j] * sq(q - w.q0[j]); t.equality("the joints move with their velocities" + r, q - at.j[j] - w.h * qd(6 + j)); t.at_most("joints stay above their lower limits" + r, w.qmin[j] - q); t.at_most("joints stay below their upper limits" + r, q - w.qmax[j]); }
  prove_eq("the objective is the weighted tracking error and effort of the settings" + r, quad(run.oq) + val(run.ol), obj); }
KV_CASE(kin_posture) { heads("1..2 steps, 1 or 2 end effectors, 3 joints (2 active), 0 or 2 body constraints, one or two iterations per posture, no trajectory optimisation; every reference, limit and solution"); int N = 1 + kv::choice("steps", 2), ne = 1 + kv::choice("effectors", 2), it = 1 + kv::choice("iterations", 2), nc = 2 * kv::choice("constraints", 2); W w; setup(w, N, ne, 5, it, 0, nc); w.o.optimize(w.ini, &w.P, w.d, true); prove("each posture is optimised for the given number of iterations", (int)runs.size() == it * (N + 1) && solved == it * (N + 1)); if ((int)runs.size() != it * (N + 1)) return; auto& O = w.o; const KinematicsState& s0 = *O.ini_state_; VX last = VX::Zero(6 + ND);
  Posture p; p.p = V3(R(0), R(0), R(0)); p.o = w.o.kinematicsSequence().size() ? KinematicsState(ND).robotPosture().baseOrientation() : Q(1, 0, 0, 0); p.j = w.q0; for (int k = -1; k < N; k++) { const DynamicsState& want = k < 0 ? w.ini : w.d.dynamicsState(k); Posture begin = p; for (int i = 0; i < it; i++) { const Run& run = runs[(k + 1) * it + i]; std::string r = std::string(k < 0 ? " (initial posture)" : "") + (i ? " (second iteration)" : ""); posture_problem(w, run, p, want, r); VX v = last; for (int j = 0; j < NX; j++) v[j] = X(run, run.jnt_qd_.id(j, 0)); p = w.r.moved(p, v, w.h); last = w.r.velocity(begin, p, want.time()); }
    const KinematicsState& s = k < 0 ? s0 : O.kinematicsSequence().kinematicsState(k); prove(k < 0 ? "the initial posture is the last one found" : "each step stores the posture found for it, starting from the step before", equal(posture(s), p)); if (k < 0) { last.setZero(); Prop z = pand(equal(VX(s.linearMomentum()), VX(w.ini.linearMomentum())), equal(VX(s.angularMomentum()), VX(w.ini.angularMomentum()))); prove("the initial state carries the given momenta and is at rest", pand(z, pand(equal(VX(s.robotVelocity().generalizedJointVelocities()), VX::Zero(6 + ND)), equal(VX(s.robotAcceleration().generalizedJointAccelerations()), VX::Zero(6 + ND))))); } else prove("the stored velocity differentiates the postures of its step", equal(VX(s.robotVelocity().generalizedJointVelocities()), last)); } }
KV_CASE(kin_converged) { heads("1 step, 1 end effector, up to two iterations per posture, any tolerance"); kv::set_max_paths(2000); W w; setup(w, 1, 1, 1, 2, 0); Real tol = input("tolerance", 0, 2); kv::assume(kv::gt(tol, R(0))); w.s.get(PlannerDoubleParam_KinConvergenceTolerance) = tol; Posture p; p.p = V3(R(0), R(0), R(0)); p.o = KinematicsState(ND).robotPosture().baseOrientation(); p.j = w.q0; w.o.optimize(w.ini, &w.P, w.d, false); int n = runs.size(); prove("a posture is optimised at most the given number of times", n <= 2 && n == solved); Kinem K = w.r.at(p); Real e2 = R(0); for (int i = 0; i < 3; i++) e2 += sq(K.c[i] - w.ini.centerOfMass()[i]) + sq(K.l[i] - w.ini.linearMomentum()[i]) + sq(K.a[i] - w.ini.angularMomentum()[i]) + sq(K.e[0][i] - w.ini.endeffectorPosition(0)[i]); if (n == 0) prove("iterations stop early only when the tracking error is below the tolerance", kv::lt(e2, sq(tol * w.h))); else prove("iterations go on while the tracking error exceeds the tolerance", kv::ge(e2, R(0))); Posture got = posture(*w.o.ini_state_); if (n == 0) prove("a posture that is good enough is kept", equal(got, p)); }
KV_CASE(kin_lifetime) { kv::under_contract("momentumopt::KinematicsOptimizer, ~KinematicsOptimizer"); kv::bounded("construction and destruction in dirty memory"); typedef KinematicsOptimizer K; void* m = ::operator new(sizeof(K) + 64); void* a = (void*)(((size_t)m + 63) & ~(size_t)63); memset(a, 0x5a, sizeof(K)); K* k = new (a) K(); k->~K(); prove("an optimiser that was never initialised can be destroyed", true); ::operator delete(m); }
