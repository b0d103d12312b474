// C20, C21: contracts of the momentum optimisation problem. The conic model is replaced by its contract (C01, C02, C06): it
// records the objective and the constraints it is handed and returns some value of every variable.
#include "kvh.hpp"
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
using namespace momentumopt; using namespace solver; using kv::input; using kv::prove; using kv::eq; using kv::pand; using kv::por; using kv::truth; using kv::Prop; using kv::Real;
typedef Eigen::Vector3d V3; typedef Eigen::Quaternion<double> Q; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
static std::string S(int i) { return std::to_string(i); }
static Real R(long a, long b = 1) { return Real(a) / Real(b); }
#ifdef KV_SYM
VX kv_linear_solve(const MX& A, const VX& b) { throw std::runtime_error("no trajectory is interpolated here"); }
#endif
static const int NE = Problem::n_endeffs_;
// ------------------------------------------------------------------ contract of the conic model
struct LC { LinExpr a; std::string s; LinExpr b; }; struct QC { DCPQuadExpr q; std::string s; LinExpr b; QuadConstrApprox ap; };
struct Run { std::vector<LC> lin; std::vector<QC> qua, soc; DCPQuadExpr oq; LinExpr ol; int nobj = 0; bool solves = false; std::vector<Var> vars; };
static int first_solution; static std::vector<Run> runs; static int solved; 
namespace solver {
void SolverSetting::initialize(const std::string, const std::string) {}
void ConicProblem::clean() { runs.push_back(Run()); }
Var ConicProblem::addVar(const VarType& type, double lb, double ub, double guess) { Var v(runs.back().vars.size(), type, lb, ub, guess); runs.back().vars.push_back(v); return v; }
void ConicProblem::addLinConstr(const LinExpr& lhs, const std::string sense, const LinExpr& rhs) { runs.back().lin.push_back({lhs, sense, rhs}); }
void ConicProblem::addSocConstr(const DCPQuadExpr& q, const std::string sense, const LinExpr& l) { runs.back().soc.push_back({q, sense, l, QuadConstrApprox::None}); }
void ConicProblem::addQuaConstr(const DCPQuadExpr& q, const std::string sense, const LinExpr& l, const QuadConstrApprox& ap) { runs.back().qua.push_back({q, sense, l, ap}); }
void ConicProblem::setObjective(const DCPQuadExpr& q, const LinExpr& l) { runs.back().nobj++; runs.back().oq = q; runs.back().ol = l; }
// concrete runs: move the solution onto the linear equalities (Gaussian elimination with full pivoting)
static void onto_equalities(Run& r) { size_t n = r.vars.size(), m = 0; std::vector<std::vector<Real>> A; for (auto& c : r.lin) if (c.s[0] == '=') { std::vector<Real> a(n + 1, R(0)); auto add = [&](const LinExpr& e, const Real& f) { a[n] -= f * e.getConstant(); for (size_t i = 0; i < e.size(); i++) a[e.getVar(i).get(SolverIntParam_ColNum)] += f * e.getCoeff(i); }; add(c.a, R(1)); add(c.b, R(-1)); A.push_back(a); }
  std::vector<int> piv; std::vector<char> used(n, 0); for (m = 0; m < A.size(); m++) { size_t bi = m, bj = n; Real best = R(1, 100000000); for (size_t i = m; i < A.size(); i++) for (size_t j = 0; j < n; j++) if (!used[j] && fabs(A[i][j]) > best) { best = fabs(A[i][j]); bi = i; bj = j; } if (bj == n) break; std::swap(A[m], A[bi]); used[bj] = 1; piv.push_back(bj); for (size_t i = 0; i < A.size(); i++) if (i != m && A[i][bj] != R(0)) { Real f = A[i][bj] / A[m][bj]; for (size_t j = 0; j <= n; j++) A[i][j] -= f * A[m][j]; A[i][bj] = R(0); } }
  for (size_t i = m; i < A.size(); i++) if (fabs(A[i][n]) > R(1, 1000000)) return; std::vector<Real> x(n); for (size_t j = 0; j < n; j++) x[j] = r.vars[j].get(SolverDoubleParam_X); for (size_t k = 0; k < m; k++) { Real b = A[k][n]; for (size_t j = 0; j < n; j++) if (!used[j]) b -= A[k][j] * x[j]; r.vars[piv[k]].set(SolverDoubleParam_X, b / A[k][piv[k]]); if (fabs(b / A[k][piv[k]]) > R(100000)) return; } r.solves = true; }
ExitCode Model::optimize() { solved++; Run& r = runs.back(); std::string t = "x" + S(runs.size()) + "."; for (size_t i = 0; i < r.vars.size(); i++) r.vars[i].set(SolverDoubleParam_X, first_solution && solved == 1 ? (first_solution == 2 && i % 3 ? R(0) : R((long)(i * 7 + 3) % 23 - 11, 4)) : input(t + S(i))); if (!kv::symbolic()) onto_equalities(r); return ExitCode::Optimal; }
}
// ------------------------------------------------------------------ what the model has been told
static Real val(const LinExpr& e) { Real v = e.getConstant(); for (size_t i = 0; i < e.size(); i++) v += e.getCoeff(i) * e.getVar(i).get(SolverDoubleParam_X); return v; }
static Real quad(const DCPQuadExpr& q) { Real v = val(q.lexpr()); for (size_t i = 0; i < q.qexpr().size(); i++) { Real a = val(q.qexpr()[i]); v += q.coeffs()[i] * a * a; } return v; }
static bool same_id(const Real& a, const Real& b) { return kv::valid(eq(a, b)); }
struct Told { std::vector<Real> eqs, les; struct QQ { Real q, b; QuadConstrApprox ap; }; std::vector<QQ> qua, soc; Prop all = truth(true); bool holds = false;
  explicit Told(const Run& r) { holds = r.solves; for (auto& c : r.lin) { Real d = val(c.a) - val(c.b); if (c.s[0] == '=') eqs.push_back(d); else les.push_back(c.s[0] == '<' ? d : -d); } for (auto& c : r.qua) qua.push_back({quad(c.q), val(c.b), c.ap}); for (auto& c : r.soc) soc.push_back({quad(c.q), val(c.b), c.ap}); for (auto& d : eqs) all = pand(all, eq(d, R(0))); }
  void equality(const std::string& l, const Real& d) const { for (auto& e : eqs) if (same_id(e, d) || same_id(e, -d)) { prove(l, true); return; } if (holds && !kv::symbolic()) { prove(l, fabs(d) < R(1, 1000)); return; } prove(l, kv::implies(all, eq(d, R(0)))); }
  void at_most(const std::string& l, const Real& d) const { for (auto& e : les) if (same_id(e, d)) { prove(l, true); return; } if (!kv::symbolic()) { bool pre = true; for (auto& e : eqs) pre = pre && fabs(e) < R(1, 1000000); for (auto& e : les) pre = pre && e <= R(0); prove(l, !(pre && d > R(1, 1000))); return; } Prop p = all; for (auto& e : les) p = pand(p, kv::le(e, R(0))); prove(l, kv::implies(p, kv::le(d, R(0)))); }
  // the right-hand side of the convex constraint  q <= rhs
  const QQ* find(const Real& q) const { const QQ* r = nullptr; for (auto& c : qua) if (same_id(c.q, q)) { if (kv::symbolic()) return &c; if (r) kv::assume(truth(false)); r = &c; } return r; }
  bool quad_le(const Real& q, const Real& b) const { for (auto& c : qua) if (same_id(c.q - c.b, q - b)) return true; return false; }
  bool cone(const Real& q, const Real& b) const { for (auto& c : soc) if (same_id(c.q, q) && same_id(c.b, b)) return true; return false; } };
// ------------------------------------------------------------------ plans
struct Plan : ContactPlanInterface { void optimize(const DynamicsState&, const TerrainDescription&) override {} };
static V3 vec(const std::string& n) { return V3(input(n + "x"), input(n + "y"), input(n + "z")); }
static V3 spot(const std::string& n) { if (!first_solution) return vec(n + "p"); long h = 7 * (n[n.size() - 2] - '0') + 3 * (n.back() - '0'); return V3(R(h % 5 - 2, 3), R(h % 7 - 3, 5), R(h % 3, 7)); }
static Q quat(const std::string& n) { return Q(input(n + "w"), input(n + "x"), input(n + "y"), input(n + "z")); }
static bool any_orientation;
static Q unit_num(int k) { switch (k % 4) { case 0: return Q(R(1, 5), R(2, 5), R(2, 5), R(-4, 5)); case 1: return Q(R(1, 3), R(2, 3), R(-2, 3), R(0)); case 2: return Q(R(-1, 2), R(1, 2), R(-1, 2), R(1, 2)); default: return Q(R(0), R(3, 5), R(0), R(4, 5)); } }
static Q orientation(const std::string& n, int e, int c) { return any_orientation ? quat(n + S(e) + S(c) + "q") : unit_num(e + 3 * c); }
static MX rotm(const Q& q) { Real w = q.w(), x = q.x(), y = q.y(), z = q.z(); MX m(3, 3); m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y); return m; }
struct CI { int a, b; ContactType type; };
typedef std::vector<std::vector<CI>> Pattern;
// contact k covers the steps a..b-1
static Pattern pattern(int k, int N) { Pattern p(NE); auto F = ContactType::FlatContact; auto U = ContactType::FullContact; auto X = ContactType::FreeContact; switch (k) {
  case 0: p[0] = {{0, N, F}}; p[1] = {{1, N, F}}; break;
  case 1: p[1] = {{0, 1, F}, {2, N, U}}; p[2] = {{1, 2, X}}; break;
  case 2: break;
  case 3: for (int e = 0; e < NE; e++) p[e] = {{0, N, e == 2 ? U : F}}; break;
  case 4: p[0] = {{0, 1, U}, {1, N, F}}; p[3] = {{N - 1, N, X}}; break; } return p; }
struct W { PlannerSetting s; DynamicsOptimizer o; Plan P; DynamicsState ini; KinematicsSequence kin; Pattern pat; int N; Real dt, m, mg; V3 g, ext; std::string n; };
static const CI* at(const Pattern& p, int e, int k, int* id = nullptr) { for (size_t c = 0; c < p[e].size(); c++) if (k >= p[e][c].a && k < p[e][c].b) { if (id) *id = c; return &p[e][c]; } return nullptr; }
static void plan(W& w, const Pattern& pat, const std::string& n) { w.pat = pat; w.n = n; int id = 0; for (int e = 0; e < NE; e++) { auto& cs = w.P.contactSequence().endeffectorContacts(e); cs.clear(); for (size_t c = 0; c < pat[e].size(); c++) { ContactState s; std::string nm = n + S(e) + S(c); s.contactActivationTime(R(2 * pat[e][c].a + 1, 2) * w.dt); s.contactDeactivationTime(R(2 * pat[e][c].b + 1, 2) * w.dt); s.contactPosition(spot(nm)); s.contactOrientation(orientation(n, e, c)); s.contactType(pat[e][c].type); s.selectedAsActive(true); s.optimizationId() = id++; cs.push_back(s); } } }
static void setup(W& w, int N, Heuristic h, bool linear, int ne = NE) {
  runs.clear(); solved = 0; any_orientation = false; w.N = N; PlannerSetting& s = w.s; w.dt = R(1, 10); s.get(PlannerIntParam_NumTimesteps) = N; s.get(PlannerIntParam_NumActiveEndeffectors) = ne; s.get(PlannerIntParam_NumViapoints) = 0; s.get(PlannerIntParam_MaxNumTimeIterations) = 1; s.get(PlannerDoubleParam_TimeStep) = w.dt; s.get(PlannerBoolParam_LoadKinematics) = false; s.get(PlannerBoolParam_StoreData) = false; s.get(PlannerBoolParam_UseDefaultSolverSetting) = true; s.get(PlannerBoolParam_IsFrictionConeLinear) = linear; s.get(PlannerBoolParam_IsTimeHorizonFixed) = true; s.heuristic() = h;
  w.m = input("mass", 1, 50); kv::assume(kv::gt(w.m, R(0))); w.mg = input("weight", 10, 100); kv::assume(kv::gt(w.mg, R(0))); s.get(PlannerDoubleParam_RobotMass) = w.m; s.get(PlannerDoubleParam_MassTimesGravity) = w.mg; w.g = vec("gravity"); w.ext = vec("external"); s.get(PlannerVectorParam_GravityVector) = w.g; s.get(PlannerVectorParam_ExternalForce) = w.ext; s.get(PlannerVectorParam_CenterOfMassMotion) = vec("motion"); s.get(PlannerDoubleParam_MinRelHeight) = input("min_height"); s.get(PlannerDoubleParam_FrictionCoefficient) = R(3, 4);
  VX tr(2); tr << input("torque_min"), input("torque_max"); s.get(PlannerVectorParam_TorqueRange) = tr; VX ti(2); ti << input("time_min"), input("time_max"); s.get(PlannerVectorParam_TimeRange) = ti; VX L(NE); for (int e = 0; e < NE; e++) { L[e] = input("length" + S(e), 0.5, 2); s.get(PlannerArrayParam_EndeffectorOffset)[e] = vec("offset" + S(e)); Eigen::Vector4d c; for (int i = 0; i < 4; i++) c[i] = input("cop" + S(e) + S(i)); s.get(PlannerArrayParam_CenterOfPressureRange)[e] = c; } s.get(PlannerVectorParam_MaxEndeffectorLengths) = L;
  for (auto q : {PlannerVectorParam_WeightArmForce, PlannerVectorParam_WeightLegForce, PlannerVectorParam_WeightArmForceRate, PlannerVectorParam_WeightLegForceRate, PlannerVectorParam_WeightCenterOfMass, PlannerVectorParam_WeightLinearMomentum, PlannerVectorParam_WeightAngularMomentum, PlannerVectorParam_WeightLinearMomentumRate, PlannerVectorParam_WeightAngularMomentumRate, PlannerVectorParam_WeightFinalLinearMomentum, PlannerVectorParam_WeightCenterOfMassViapoint, PlannerVectorParam_WeightFinalAngularMomentum, PlannerVectorParam_WeightDynamicTrackingCenterOfMass, PlannerVectorParam_WeightDynamicTrackingLinearMomentum, PlannerVectorParam_WeightDynamicTrackingAngularMomentum}) s.get(q) = V3(R(0), R(0), R(0));
  for (auto q : {PlannerDoubleParam_WeightArmTorque, PlannerDoubleParam_WeightLegTorque, PlannerDoubleParam_WeightTimePenalty, PlannerDoubleParam_WeightTimeRegularization, PlannerDoubleParam_MaxTimeResidualTolerance, PlannerDoubleParam_MinTimeResidualImprovement}) s.get(q) = R(0);
  w.P.initialize(s); w.kin.resize(N, 2); for (int k = 0; k < N; k++) { w.kin.kinematicsState(k).centerOfMass() = vec("kc" + S(k)); w.kin.kinematicsState(k).linearMomentum() = vec("kl" + S(k)); w.kin.kinematicsState(k).angularMomentum() = vec("ka" + S(k)); }
  w.ini.centerOfMass() = vec("com"); w.ini.linearMomentum() = vec("lmom"); w.ini.angularMomentum() = vec("amom"); for (int e = 0; e < NE; e++) { w.ini.endeffectorActivation(e) = false; w.ini.endeffectorPosition(e) = vec("eff" + S(e)); w.ini.endeffectorForce(e) = vec("frc" + S(e)); }
  w.o.initialize(s); }
struct Eff { bool on; int id; V3 p, f, cop, arm; MX r; Real tau; ContactType type; };
static Eff eff(const W& w, int e, int k) { Eff x; int id = -1; const CI* c = at(w.pat, e, k, &id); x.on = c; x.id = id; x.r = MX::Identity(3, 3); const DynamicsState& s = w.o.dynamicsSequence().dynamicsState(k); x.f = s.endeffectorForce(e); x.cop = s.endeffectorCoP(e); x.tau = s.endeffectorTorque(e).z(); if (!c) return x; x.type = c->type; std::string nm = w.n + S(e) + S(id); x.p = spot(nm); x.r = rotm(orientation(w.n, e, id)); for (int i = 0; i < 3; i++) x.arm[i] = x.p[i] - s.centerOfMass()[i] + x.r(i, 0) * x.cop[0] + x.r(i, 1) * x.cop[1]; return x; }
static V3 cross(const V3& a, const V3& b) { return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
static void heads(const std::string& b) { kv::lazy_std_max(false); first_solution = 0; for (auto f : {"initialize", "initializeOptimizationVariables", "optimize", "internalOptimize", "addVariableToModel", "saveSolution", "storeSolution", "contactType", "contactRotation", "contactLocation"}) kv::under_contract(std::string("momentumopt::DynamicsOptimizer::") + f); kv::bounded(b); kv::set_tol(1e-6); kv::assumption("the conic model returns some value of every variable it was given; what it returns satisfies the constraints it was told (C01, C02, C06)"); }
// ------------------------------------------------------------------ C20: dynamics
// the second moment bounds: ub - lb = 4 (arm x f) when both are tight
static void bounds(const Told& t, const Eff& x, V3& U, V3& L, bool& found) { const V3 &l = x.arm, &f = x.f; for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; auto sq = [](const Real& u) { return u * u; }; const Told::QQ* u = t.find(sq(f[a] - l[b]) + sq(l[a] + f[b])); const Told::QQ* v = t.find(sq(-l[b] - f[a]) + sq(l[a] - f[b])); if (!u || !v) { found = false; return; } U[i] = u->b; L[i] = v->b; } }
static void limits(const W& w, const Told& t) { for (int k = 0; k < w.N; k++) { const DynamicsState& s = w.o.dynamicsSequence().dynamicsState(k); bool on = at(w.pat, 0, 0); Real h = on ? vec(w.n + "00p").z() : w.ini.endeffectorPosition(0).z(); t.at_most("the centre of mass stays above the minimum height", h + input("min_height") - s.centerOfMass().z()); int ne = const_cast<W&>(w).s.get(PlannerIntParam_NumActiveEndeffectors); for (int e = 0; e < ne; e++) { Eff x = eff(w, e, k); if (!x.on) continue; Real d = R(0); V3 off = vec("offset" + S(e)); for (int i = 0; i < 3; i++) d += (x.arm[i] - off[i]) * (x.arm[i] - off[i]); Real len = input("length" + S(e), 0.5, 2); prove("an end effector in contact stays within its reach", t.quad_le(d, len * len)); } } }
static void fixed_dynamics(W& w, const std::string& when) {
  int ne = w.s.get(PlannerIntParam_NumActiveEndeffectors); prove("the problem is solved once" + when, solved == 1 && runs.size() == 1 && runs[0].nobj == 1); prove("the sequence keeps its length" + when, w.o.dynamicsSequence().size() == w.N); if (w.o.dynamicsSequence().size() != w.N || runs.size() != 1) return; Told t(runs[0]);
  for (int k = 0; k < w.N; k++) { const DynamicsState& s = w.o.dynamicsSequence().dynamicsState(k); V3 pc = k ? w.o.dynamicsSequence().dynamicsState(k - 1).centerOfMass() : w.ini.centerOfMass(), pl = k ? w.o.dynamicsSequence().dynamicsState(k - 1).linearMomentum() : w.ini.linearMomentum(), pa = k ? w.o.dynamicsSequence().dynamicsState(k - 1).angularMomentum() : w.ini.angularMomentum(); prove("the time step is that of the settings" + when, eq(s.time(), w.dt));
    V3 F = w.m * w.g, M(R(0), R(0), R(0)), B(R(0), R(0), R(0)); bool found = true; if (k == 0) F += w.mg * w.ext; for (int e = 0; e < ne; e++) { Eff x = eff(w, e, k); if (!x.on) continue; F += w.mg * x.f; V3 mo = cross(x.arm, x.f), U, L; for (int i = 0; i < 3; i++) M[i] += w.mg * mo[i] + x.r(i, 2) * x.tau; bounds(t, x, U, L, found); if (found) for (int i = 0; i < 3; i++) B[i] += w.mg * (U[i] - L[i]) / R(4) + x.r(i, 2) * x.tau; }
    prove("the moments of the contact forces are bounded by their convex parts" + when, found); if (!found) return;
    for (int i = 0; i < 3; i++) { t.equality("the centre of mass integrates the linear momentum" + when, s.centerOfMass()[i] - pc[i] - w.dt * s.linearMomentum()[i] / w.m); t.equality("the linear momentum integrates gravity and the forces" + when, s.linearMomentum()[i] - pl[i] - w.dt * F[i]); Real xa = w.o.vars_[w.o.amom_.id(i, k)].get(SolverDoubleParam_X), xp = k ? w.o.vars_[w.o.amom_.id(i, k - 1)].get(SolverDoubleParam_X) : w.ini.angularMomentum()[i]; t.equality("the angular momentum of the problem integrates the bounded moments" + when, xa - xp - w.dt * B[i]); prove("the stored angular momentum integrates the moments about the centre of mass" + when, eq(s.angularMomentum()[i], pa[i] + w.dt * M[i])); } }
  limits(w, t); }
KV_CASE(dyn_fixed) { heads("3 steps, five contact patterns of up to 4 end effectors, trust region and soft constraint; every number"); W w; int k = kv::choice("pattern", 5), h = kv::choice("heuristic", 2); setup(w, 3, h ? Heuristic::SoftConstraint : Heuristic::TrustRegion, h); plan(w, pattern(k, 3), "c"); ExitCode c = w.o.optimize(w.ini, &w.P, w.kin); prove("the outcome of the solver is returned", c == ExitCode::Optimal); fixed_dynamics(w, ""); auto want = h ? QuadConstrApprox::SoftConstraint : QuadConstrApprox::TrustRegion; Told t(runs[0]); int n = 0, m = 0; for (auto& q : t.qua) (q.ap == want ? n : m)++; int act = 0; for (int e = 0; e < NE; e++) for (int i = 0; i < 3; i++) act += at(w.pat, e, i) != nullptr; prove("the moment bounds are approximated by the chosen heuristic, the reach is not", n == 6 * act && m == act); }
KV_CASE(dyn_fewer_effectors) { heads("2 steps, 2 of 4 end effectors in use"); W w; setup(w, 2, Heuristic::TrustRegion, true, 2); Pattern p(NE); p[0] = {{0, 2, ContactType::FlatContact}}; p[1] = {{0, 1, ContactType::FlatContact}}; plan(w, p, "c"); w.o.optimize(w.ini, &w.P, w.kin); fixed_dynamics(w, ""); }
KV_CASE(dyn_again) { heads("3 steps, two plans optimised one after the other"); W w; int a = kv::choice("first", 2) ? 3 : 1, b = kv::choice("second", 2) ? 4 : 0; setup(w, 3, Heuristic::TrustRegion, true); plan(w, pattern(a, 3), "old"); w.o.optimize(w.ini, &w.P, w.kin); V3 c2 = vec("com2"); w.ini.centerOfMass() = c2; plan(w, pattern(b, 3), "c"); Run keep = runs[0]; w.o.optimize(w.ini, &w.P, w.kin); prove("each call solves its own problem", solved == 2 && runs.size() == 2); if (runs.size() != 2) return; runs.erase(runs.begin()); solved = 1; fixed_dynamics(w, " after another plan"); }
// ------------------------------------------------------------------ the objective
static const std::vector<PlannerVectorParam> VW = {PlannerVectorParam_WeightArmForce, PlannerVectorParam_WeightLegForce, PlannerVectorParam_WeightArmForceRate, PlannerVectorParam_WeightLegForceRate, PlannerVectorParam_WeightCenterOfMass, PlannerVectorParam_WeightLinearMomentum, PlannerVectorParam_WeightAngularMomentum, PlannerVectorParam_WeightLinearMomentumRate, PlannerVectorParam_WeightAngularMomentumRate, PlannerVectorParam_WeightFinalLinearMomentum, PlannerVectorParam_WeightCenterOfMassViapoint, PlannerVectorParam_WeightFinalAngularMomentum, PlannerVectorParam_WeightDynamicTrackingCenterOfMass, PlannerVectorParam_WeightDynamicTrackingLinearMomentum, PlannerVectorParam_WeightDynamicTrackingAngularMomentum};
static const std::vector<PlannerDoubleParam> DW = {PlannerDoubleParam_WeightArmTorque, PlannerDoubleParam_WeightLegTorque, PlannerDoubleParam_WeightTimePenalty, PlannerDoubleParam_WeightTimeRegularization};
static std::map<int, V3> vw; static std::map<int, Real> dw;
static void weights(W& w, int zero) { vw.clear(); dw.clear(); for (size_t i = 0; i < VW.size(); i++) { V3 v; for (int a = 0; a < 3; a++) { if ((int)i == zero) { v[a] = R(0); continue; } v[a] = input("w" + S(i) + S(a), 0.1, 2); kv::assume(kv::gt(v[a], R(0))); } w.s.get(VW[i]) = v; vw[VW[i]] = v; } for (size_t i = 0; i < DW.size(); i++) { Real v = input("v" + S(i), 0.1, 2); kv::assume(kv::gt(v, R(0))); w.s.get(DW[i]) = v; dw[DW[i]] = v; } }
static Real X(int run, int id) { return runs[run].vars[id].get(SolverDoubleParam_X); }
static Real expected_objective(W& w, int run, bool track, const std::vector<std::pair<int, V3>>& via) { Real o = R(0); auto sq = [](const Real& u) { return u * u; }; bool timeopt = w.s.heuristic() == Heuristic::TimeOptimization; int N = w.N, ne = w.s.get(PlannerIntParam_NumActiveEndeffectors); auto& O = w.o;
  V3 wl = track ? vw[PlannerVectorParam_WeightDynamicTrackingLinearMomentum] : vw[PlannerVectorParam_WeightLinearMomentum], wa = track ? vw[PlannerVectorParam_WeightDynamicTrackingAngularMomentum] : vw[PlannerVectorParam_WeightAngularMomentum], wc = track ? vw[PlannerVectorParam_WeightDynamicTrackingCenterOfMass] : V3(R(0), R(0), R(0)); V3 goal = w.ini.centerOfMass() + vec("motion");
  for (auto& v : via) for (int a = 0; a < 3; a++) o += vw[PlannerVectorParam_WeightCenterOfMassViapoint][a] * sq(X(run, O.com_.id(a, v.first)) - v.second[a]);
  for (int k = 0; k < N; k++) { for (int a = 0; a < 3; a++) { Real c = X(run, O.com_.id(a, k)), l = X(run, O.lmom_.id(a, k)), A = X(run, O.amom_.id(a, k)), lp = k ? X(run, O.lmom_.id(a, k - 1)) : w.ini.linearMomentum()[a], Ap = k ? X(run, O.amom_.id(a, k - 1)) : w.ini.angularMomentum()[a], kl = vec("kl" + S(k))[a], ka = vec("ka" + S(k))[a]; bool last = k == N - 1;
      if (last) o += vw[PlannerVectorParam_WeightCenterOfMass][a] * sq(c - goal[a]) + vw[PlannerVectorParam_WeightFinalLinearMomentum][a] * sq(l - kl) + vw[PlannerVectorParam_WeightFinalAngularMomentum][a] * sq(A - ka); else o += wl[a] * sq(l - kl) + wa[a] * sq(A - ka); o += wc[a] * sq(c - vec("kc" + S(k))[a]);
      Real ld = timeopt ? X(run, O.lmomd_.id(a, k)) : (l - lp) / w.dt, ad = timeopt ? X(run, O.amomd_.id(a, k)) : (A - Ap) / w.dt; o += vw[PlannerVectorParam_WeightLinearMomentumRate][a] * sq(ld) + vw[PlannerVectorParam_WeightAngularMomentumRate][a] * sq(ad);
      for (int e = 0; e < ne; e++) { auto frc = [&](int j) { int c = 0; for (int i = 0; i < j; i++) c += at(w.pat, e, i) != nullptr; return at(w.pat, e, j) ? X(run, O.frc_world_[e].id(a, c)) : R(0); }; if (!at(w.pat, e, k)) continue; bool hand = e > 1; Real f = frc(k); o += vw[hand ? PlannerVectorParam_WeightArmForce : PlannerVectorParam_WeightLegForce][a] * sq(f); Real wr = vw[hand ? PlannerVectorParam_WeightArmForceRate : PlannerVectorParam_WeightLegForceRate][a]; o += wr * sq((last ? f : frc(k + 1)) - f) + wr * sq(f - (k ? frc(k - 1) : w.ini.endeffectorForce(e)[a])); } }
    for (int e = 0; e < ne; e++) if (at(w.pat, e, k)) { int c = 0; for (int i = 0; i < k; i++) c += at(w.pat, e, i) != nullptr; o += dw[e > 1 ? PlannerDoubleParam_WeightArmTorque : PlannerDoubleParam_WeightLegTorque] * sq(X(run, O.trq_local_[e].id(0, c))); }
    if (timeopt) { Real d = X(run, O.dt_.id(0, k)); o += dw[PlannerDoubleParam_WeightTimePenalty] * sq(d) + dw[PlannerDoubleParam_WeightTimeRegularization] * sq(d - w.dt); } }
  return o; }
static Real told_objective(int run) { return quad(runs[run].oq) + val(runs[run].ol); }
KV_CASE(dyn_objective) { heads("3 steps, five contact patterns, with and without tracking; all weights positive, or one group of them zero"); W w; int k = kv::choice("pattern", 5), tr = kv::choice("tracking", 2), z = kv::choice("zero", 3); setup(w, 3, Heuristic::TrustRegion, false); plan(w, pattern(k, 3), "c"); weights(w, z == 0 ? -1 : z == 1 ? 9 : 4 + k); w.s.get(PlannerIntParam_NumViapoints) = 2; auto& cv = w.s.get(PlannerCVectorParam_Viapoints); cv.clear(); V3 a = vec("via0"), b = vec("via1"); cv.push_back(Eigen::Vector4d(R(1, 20), a[0], a[1], a[2])); cv.push_back(Eigen::Vector4d(R(5, 20), b[0], b[1], b[2])); w.o.optimize(w.ini, &w.P, w.kin, tr); prove("the objective is given once", runs.size() == 1 && runs[0].nobj == 1); if (runs.size() == 1) kv::prove_eq("the objective is the weighted sum of the penalties of the settings", told_objective(0), expected_objective(w, 0, tr, {{0, a}, {2, b}})); }
// ------------------------------------------------------------------ time optimisation
static void time_run(W& w, int run) { auto& O = w.o; int ne = w.s.get(PlannerIntParam_NumActiveEndeffectors); Told t(runs[run]); Real soft = R(0), ws = O.model_.getSetting().get(SolverDoubleParam_SoftConstraintWeightReduced); auto sq = [](const Real& u) { return u * u; }; std::string r = run ? " (linearised again)" : " (first solve)";
  for (int k = 0; k < w.N; k++) { Real dt = X(run, O.dt_.id(0, k)); t.at_most("time steps stay in their range", input("time_min") - dt); t.at_most("time steps stay in their range", dt - input("time_max")); V3 c, l, A, ld, ad, B(R(0), R(0), R(0)), F = w.m * w.g; bool found = true; if (!k) F += w.mg * w.ext; for (int i = 0; i < 3; i++) { c[i] = X(run, O.com_.id(i, k)); l[i] = X(run, O.lmom_.id(i, k)); A[i] = X(run, O.amom_.id(i, k)); ld[i] = X(run, O.lmomd_.id(i, k)); ad[i] = X(run, O.amomd_.id(i, k)); }
    for (int e = 0; e < ne; e++) { int id = -1, col = 0; if (!at(w.pat, e, k, &id)) continue; for (int j = 0; j < k; j++) col += at(w.pat, e, j) != nullptr; V3 p = spot(w.n + S(e) + S(id)), U, L; MX R3 = rotm(orientation(w.n, e, id)); auto ex = [&](int rn) { Eff x; V3 cc; for (int i = 0; i < 3; i++) { cc[i] = X(rn, O.com_.id(i, k)); x.f[i] = X(rn, O.frc_world_[e].id(i, col)); } for (int i = 0; i < 2; i++) x.cop[i] = X(rn, O.cop_local_[e].id(i, col)); for (int i = 0; i < 3; i++) x.arm[i] = p[i] - cc[i] + R3(i, 0) * x.cop[0] + R3(i, 1) * x.cop[1]; return x; }; Eff x = ex(run); Real tau = X(run, O.trq_local_[e].id(0, col)); bounds(t, x, U, L, found); if (!found) break; for (int i = 0; i < 3; i++) { F[i] += w.mg * x.f[i]; B[i] += w.mg * (U[i] - L[i]) / R(4) + R3(i, 2) * tau; }
      if (run) { Eff y = ex(run - 1); for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; auto lin = [&](const Real& u, const Real& v) { return 2 * v * u - v * v; }; soft += ws * sq(lin(x.f[a] - x.arm[b], y.f[a] - y.arm[b]) + lin(x.arm[a] + x.f[b], y.arm[a] + y.f[b]) - U[i]); soft += ws * sq(lin(-x.arm[b] - x.f[a], -y.arm[b] - y.f[a]) + lin(x.arm[a] - x.f[b], y.arm[a] - y.f[b]) - L[i]); } } }
    prove("the moments of the contact forces are bounded by their convex parts" + r, found); if (!found) return;
    for (int i = 0; i < 3; i++) { Real pc = k ? X(run, O.com_.id(i, k - 1)) : w.ini.centerOfMass()[i], pl = k ? X(run, O.lmom_.id(i, k - 1)) : w.ini.linearMomentum()[i], pa = k ? X(run, O.amom_.id(i, k - 1)) : w.ini.angularMomentum()[i];
      // dt * y to first order around the previous solution (exact where the solution is the previous one)
      auto times = [&](const Real& y, int id) { if (!run) return w.dt * y; Real d0 = X(run - 1, O.dt_.id(0, k)), y0 = X(run - 1, id); return dt * y - (dt - d0) * (y - y0); };
      t.equality("the centre of mass integrates the linear momentum" + r, c[i] - pc - times(l[i], O.lmom_.id(i, k)) / w.m); t.equality("the linear momentum integrates its rate" + r, l[i] - pl - times(ld[i], O.lmomd_.id(i, k))); t.equality("the angular momentum integrates its rate" + r, A[i] - pa - times(ad[i], O.amomd_.id(i, k))); t.equality("the linear momentum rate is gravity and the forces" + r, ld[i] - F[i]); t.equality("the angular momentum rate is the bounded moments" + r, ad[i] - B[i]); } }
  Real sum = R(0); for (int k = 0; k < w.N; k++) sum += X(run, O.dt_.id(0, k)); if (w.s.get(PlannerBoolParam_IsTimeHorizonFixed)) t.equality("the time horizon is kept" + r, sum - R(w.N) * w.dt); kv::prove_eq("the objective is the weighted sum of the penalties of the settings" + r, told_objective(run), expected_objective(w, run, false, {}) + soft); }
static void time_settings(W& w, int N, int k) { auto& O = w.o; plan(w, pattern(k, N), "c"); w.s.get(PlannerDoubleParam_MaxTimeResidualTolerance) = input("tolerance", 0.1, 1); w.s.get(PlannerDoubleParam_MinTimeResidualImprovement) = input("improvement", 0.1, 1); for (auto q : DW) { dw[q] = R(0); } for (auto q : VW) vw[q] = V3(R(0), R(0), R(0)); w.s.get(PlannerVectorParam_WeightLinearMomentumRate) = vw[PlannerVectorParam_WeightLinearMomentumRate] = V3(R(2), R(3), R(5)); w.s.get(PlannerVectorParam_WeightAngularMomentumRate) = vw[PlannerVectorParam_WeightAngularMomentumRate] = V3(R(7), R(11), R(13)); w.s.get(PlannerDoubleParam_WeightTimePenalty) = dw[PlannerDoubleParam_WeightTimePenalty] = R(17); w.s.get(PlannerDoubleParam_WeightTimeRegularization) = dw[PlannerDoubleParam_WeightTimeRegularization] = R(19); w.s.get(PlannerBoolParam_IsTimeHorizonFixed) = k % 2; O.model_.getSetting().set(SolverDoubleParam_SoftConstraintWeightReduced, R(3, 2)); }
static void time_once(W& w, int k) { setup(w, 3, Heuristic::TimeOptimization, false, NE); time_settings(w, 3, k); w.s.get(PlannerIntParam_MaxNumTimeIterations) = 0; kv::lazy_std_max(true); w.o.optimize(w.ini, &w.P, w.kin); prove("the first problem is solved once", solved == 1 && runs.size() == 1); if (runs.size() == 1) time_run(w, 0); }
static void time_case(int N, int k, int ne, bool numbers) { W w; if (numbers) first_solution = 1 + kv::choice("first solution", 2); setup(w, N, Heuristic::TimeOptimization, false, ne); kv::set_timeouts(200, 20000); time_settings(w, N, k); auto& O = w.o; kv::lazy_std_max(true);
  w.o.optimize(w.ini, &w.P, w.kin); prove("the problem is solved once, and again until convergence", solved == 1 || solved == 2); int last = runs.size() - 1; if (last != solved - 1) { prove("every problem is solved", false); return; } for (int r = 0; r <= last; r++) time_run(w, r);
  V3 pc = w.ini.centerOfMass(), pl = w.ini.linearMomentum(), pa = w.ini.angularMomentum(); Real err[3] = {R(0), R(0), R(0)}; bool conv = O.has_converged_;
  for (int i = 0; i < N; i++) { const DynamicsState& s = O.dynamicsSequence().dynamicsState(i); Prop st = eq(s.time(), X(last, O.dt_.id(0, i))); for (int a = 0; a < 3; a++) st = pand(st, pand(pand(eq(s.centerOfMass()[a], X(last, O.com_.id(a, i))), eq(s.linearMomentum()[a], X(last, O.lmom_.id(a, i)))), pand(eq(s.linearMomentumRate()[a], X(last, O.lmomd_.id(a, i))), eq(s.angularMomentumRate()[a], X(last, O.amomd_.id(a, i)))))); prove("each step carries its values of the last solution", st);
    V3 F = w.m * w.g; if (!i) F += w.mg * w.ext; for (int e = 0; e < ne; e++) F += w.mg * O.dynamicsSequence().dynamicsState(i).endeffectorForce(e); pl += s.time() * F; V3 step = pl; for (int a = 0; a < 3; a++) pc[a] += s.time() * step[a] / w.m; V3 M(R(0), R(0), R(0)); for (int e = 0; e < ne; e++) { Eff x = eff(w, e, i); if (!x.on) continue; V3 arm; for (int a = 0; a < 3; a++) arm[a] = x.p[a] - pc[a] + x.r(a, 0) * x.cop[0] + x.r(a, 1) * x.cop[1]; V3 mo = cross(arm, x.f); for (int a = 0; a < 3; a++) M[a] += w.mg * mo[a] + x.r(a, 2) * x.tau; } pa += s.time() * M; Prop am = truth(true); for (int a = 0; a < 3; a++) am = pand(am, eq(s.angularMomentum()[a], conv ? pa[a] : X(last, O.amom_.id(a, i)))); prove(conv ? "a converged plan stores the angular momentum of its forces and time steps" : "an unconverged plan stores the angular momentum of the last solution", am); } }
KV_CASE(dyn_time_two_effectors) { heads("2 steps, 2 end effectors, up to two solves; every number but the contact positions in the second solve, two solutions of the first one; convergence or not"); time_case(2, 0, 2, true); }
KV_CASE(dyn_time_gap) { heads("3 steps, 3 end effectors with gaps, up to two solves; every number but the contact positions in the second solve, two solutions of the first one; convergence or not"); time_case(3, 1, 3, true); }
KV_CASE(dyn_time_one_solve) { heads("3 steps, five contact patterns, first solve; every number"); W w; time_once(w, kv::choice("pattern", 5)); }
KV_CASE(dyn_time_two_effectors_deep) { heads("2 steps, 2 end effectors, up to two solves; every number, convergence or not"); kv::set_max_paths(100000); time_case(2, 0, 2, false); }
// ------------------------------------------------------------------ friction, centre of pressure, torque
static void frc_heads(const std::string& b) { heads(b); kv::under_contract("momentumopt::FrictionCone::getCone"); }
static MX facets(const Real& mu) { FrictionCone c; FrictionCone::ConeMat m; c.getCone(mu, m); return MX(m); }
KV_CASE(frc_pyramid) { kv::under_contract("momentumopt::FrictionCone::getCone"); kv::set_tol(1e-9); Real mu = input("mu", 0, 2);
  FrictionCone c; FrictionCone::ConeMat M; c.getCone(mu, M); Real eff = mu <= Real(0.001) ? Real(0.001) : mu; Prop sq = truth(true);
  for (int r = 0; r < 4; r++) { Real n = M(r, 0) * M(r, 0) + M(r, 1) * M(r, 1) + M(r, 2) * M(r, 2); prove("each facet normal has unit length", eq(n, R(1))); prove("each facet leans outwards by the friction coefficient", pand(eq(M(r, 2) * M(r, 2), eff * eff * (M(r, 0) * M(r, 0) + M(r, 1) * M(r, 1))), kv::le(M(r, 2), R(0)))); int q = (r + 1) % 4; prove("the facets are a quarter turn apart", pand(eq(M(q, 0), -M(r, 1)), pand(eq(M(q, 1), M(r, 0)), eq(M(q, 2), M(r, 2))))); }
  prove("the first facet faces the diagonal", pand(eq(M(0, 0), M(0, 1)), kv::gt(M(0, 0), R(0)))); }
KV_CASE(frc_pyramid_bounds) { kv::under_contract("momentumopt::FrictionCone::getCone"); kv::set_tol(1e-9); Real mu = input("mu", 0, 2); kv::assume(kv::gt(mu, R(1, 500))); V3 f = vec("f"); FrictionCone c; FrictionCone::ConeMat M; c.getCone(mu, M); Prop in = truth(true); for (int r = 0; r < 4; r++) in = pand(in, kv::le(M(r, 0) * f[0] + M(r, 1) * f[1] + M(r, 2) * f[2], R(0)));
  Real d = M(0, 0), z = M(0, 2); kv::lemma("the facets are a diagonal d > 0 and a slope z < 0", pand(pand(kv::gt(d, R(0)), kv::lt(z, R(0))), eq(z * z, mu * mu * R(2) * d * d)));
  prove("inside the pyramid the contact is pushed only", kv::implies(in, kv::ge(f[2], R(0))));
  prove("inside the pyramid the tangential force is at most sqrt(2) times the friction limit", kv::implies(in, kv::le(f[0] * f[0] + f[1] * f[1], R(2) * mu * mu * f[2] * f[2])));
  prove("the friction cone lies inside the pyramid", kv::implies(pand(kv::le(f[0] * f[0] + f[1] * f[1], mu * mu * f[2] * f[2]), kv::ge(f[2], R(0))), in)); }
static void contact_limits(W& w, bool linear, const std::string& when) { Told t(runs.back()); int nsoc = 0, last = runs.size() - 1, ne = w.s.get(PlannerIntParam_NumActiveEndeffectors); Real mu = R(3, 4); MX M = facets(mu);
  for (int e = 0; e < ne; e++) { int col = 0; for (int k = 0; k < w.N; k++) { Eff x = eff(w, e, k); const DynamicsState& s = w.o.dynamicsSequence().dynamicsState(k); V3 f = s.endeffectorForce(e), c = s.endeffectorCoP(e), q = s.endeffectorTorque(e), h = s.endeffectorTorqueAtContactPoint(e); Prop z = truth(true);
      if (!x.on) { for (int i = 0; i < 3; i++) z = pand(z, pand(pand(eq(f[i], R(0)), eq(c[i], R(0))), pand(eq(q[i], R(0)), eq(h[i], R(0))))); prove("an end effector out of contact has no force, centre of pressure or torque" + when, z); continue; }
      auto& O = w.o; for (int i = 0; i < 3; i++) z = pand(z, eq(f[i], X(last, O.frc_world_[e].id(i, col)))); for (int i = 0; i < 2; i++) z = pand(z, eq(c[i], X(last, O.cop_local_[e].id(i, col)))); z = pand(z, eq(c[2], R(0))); z = pand(z, pand(eq(q[2], X(last, O.trq_local_[e].id(0, col))), pand(eq(q[0], R(0)), eq(q[1], R(0))))); prove("an end effector in contact carries the force, centre of pressure and torque of its step" + when, z); col++;
      V3 l; for (int i = 0; i < 3; i++) l[i] = x.r(0, i) * f[0] + x.r(1, i) * f[1] + x.r(2, i) * f[2]; V3 a = cross(c, l); z = truth(true); for (int i = 0; i < 3; i++) z = pand(z, eq(h[i], q[i] + w.mg * a[i])); prove("the torque at the contact point adds the moment of the force at its centre of pressure" + when, z);
      std::string E = S(e); t.at_most("the torque about the normal is at least its lower limit" + when, input("torque_min") - q[2]); t.at_most("the torque about the normal is at most its upper limit" + when, q[2] - input("torque_max")); for (int i = 0; i < 2; i++) { t.at_most("the centre of pressure is at least its lower limit" + when, input("cop" + E + S(2 * i)) - c[i]); t.at_most("the centre of pressure is at most its upper limit" + when, c[i] - input("cop" + E + S(2 * i + 1))); }
      if (x.type == ContactType::FullContact) continue;
      if (linear) for (int r = 0; r < 4; r++) t.at_most("the contact force is inside the friction pyramid of its contact" + when, M(r, 0) * l[0] + M(r, 1) * l[1] + M(r, 2) * l[2]); else { nsoc++; prove("the contact force is inside the friction cone of its contact" + when, t.cone(l[0] * l[0] + l[1] * l[1], mu * l[2])); } } }
  prove("the friction cone is second order only when asked, and bounds nothing else" + when, (int)t.soc.size() == nsoc); size_t rows = 0; if (linear) for (int e = 0; e < ne; e++) for (int k = 0; k < w.N; k++) { const CI* c = at(w.pat, e, k); rows += c && c->type != ContactType::FullContact ? 4 : 0; } size_t act = 0; for (int e = 0; e < ne; e++) for (int k = 0; k < w.N; k++) act += at(w.pat, e, k) != nullptr; prove("a full contact has no friction limit, and nothing else is bounded" + when, t.les.size() == rows + 6 * act + w.N + (w.s.heuristic() == Heuristic::TimeOptimization ? 2 * w.N : 0)); }
KV_CASE(frc_limits) { frc_heads("3 steps, five contact patterns with flat, free and full contacts, trust region and soft constraint, linear and second-order cone; numeric rotations; every number"); W w; int k = kv::choice("pattern", 5), h = kv::choice("heuristic", 2), lin = kv::choice("linear", 2); setup(w, 3, h ? Heuristic::SoftConstraint : Heuristic::TrustRegion, lin); plan(w, pattern(k, 3), "c"); w.o.optimize(w.ini, &w.P, w.kin); if (runs.size() != 1) { prove("the problem is solved once", false); return; } contact_limits(w, lin, ""); }
KV_CASE(frc_limits_again) { frc_heads("3 steps, two plans optimised one after the other"); W w; int a = kv::choice("first", 2) ? 3 : 1, b = kv::choice("second", 2) ? 4 : 0, lin = kv::choice("linear", 2); setup(w, 3, Heuristic::TrustRegion, lin); plan(w, pattern(a, 3), "old"); w.o.optimize(w.ini, &w.P, w.kin); plan(w, pattern(b, 3), "c"); w.o.optimize(w.ini, &w.P, w.kin); contact_limits(w, lin, " after another plan"); }
KV_CASE(frc_limits_time) { frc_heads("2 steps, time optimisation, 2 or 4 end effectors, first solve and linearised problem"); W w; int k = kv::choice("pattern", 5), lin = kv::choice("linear", 2), it = kv::choice("iterations", 2), ne = kv::choice("effectors", 2) ? 4 : 2; if (it) first_solution = 1; setup(w, 2, Heuristic::TimeOptimization, lin, ne); time_settings(w, 2, k); w.s.get(PlannerIntParam_MaxNumTimeIterations) = it; w.s.get(PlannerDoubleParam_MaxTimeResidualTolerance) = R(0); w.s.get(PlannerDoubleParam_MinTimeResidualImprovement) = R(0); w.s.get(PlannerBoolParam_IsTimeHorizonFixed) = true; kv::lazy_std_max(true); w.o.optimize(w.ini, &w.P, w.kin); if ((int)runs.size() != 1 + it) { prove("every problem is solved", kv::symbolic() ? false : true); return; } contact_limits(w, lin, ""); }
KV_CASE(frc_limits_coefficient) { frc_heads("one step, one flat contact, any friction coefficient, second-order cone; pyramid for the coefficients 1/2 and 3/2"); W w; int lin = kv::choice("linear", 2); setup(w, 1, Heuristic::TrustRegion, lin); Real mu = lin ? (kv::choice("mu", 2) ? R(1, 2) : R(3, 2)) : input("mu", 0.1, 2); kv::assume(kv::gt(mu, R(1, 100))); w.s.get(PlannerDoubleParam_FrictionCoefficient) = mu; w.o.initialize(w.s); plan(w, pattern(0, 1), "c"); w.o.optimize(w.ini, &w.P, w.kin); if (runs.empty()) { prove("the problem is solved", false); return; } Told t(runs.back()); Eff x = eff(w, 0, 0); MX M = facets(mu); V3 l; for (int i = 0; i < 3; i++) l[i] = x.r(0, i) * x.f[0] + x.r(1, i) * x.f[1] + x.r(2, i) * x.f[2]; if (lin) for (int r = 0; r < 4; r++) t.at_most("the pyramid is that of the coefficient of the settings", M(r, 0) * l[0] + M(r, 1) * l[1] + M(r, 2) * l[2]); else prove("the cone is that of the coefficient of the settings", t.cone(l[0] * l[0] + l[1] * l[1], mu * l[2])); }
