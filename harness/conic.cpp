// Contracts of the model -> conic program translation. The interior-point and branch-and-bound solvers are
// replaced by their contracts: "initialize" receives the program, "optimize" returns an arbitrary point and code.
#include "kvh.hpp"
#include <functional>
#include <solver/interface/Model.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
struct Program { Mat A, G; Vec b, h, c; int nlp = 0; std::vector<int> soc; };
static Program prog; static std::vector<Program> history; static std::vector<Vec> answers; static int calls, inits, bnb_calls; static std::vector<int> max_iters; static std::vector<ExitCode> codes;
static Program capture(SolverStorage& s, Cone& c) {
  Program p; p.A = Mat(s.Amatrix()); p.G = Mat(s.Gmatrix()); p.b = s.b(); p.h = s.h(); p.c = s.c(); p.nlp = c.sizeLpc();
  for (int l = 0; l < c.numSoc(); l++) p.soc.push_back(c.sizeSoc(l)); return p;
}
static ExitCode answer(OptimizationVector& opt, Cone& cone, SolverSetting& stg) {
  opt.initialize(cone); Vec x(cone.numVars()); for (int i = 0; i < x.size(); i++) x[i] = input("answer" + std::to_string(calls) + "_" + std::to_string(i)); opt.x() = x; answers.push_back(x); max_iters.push_back(stg.get(SolverIntParam_MaxIters));
  ExitCode r = calls < (int)codes.size() ? codes[calls] : ExitCode::Optimal; calls++; return r;
}
namespace solver {
void InteriorPointSolver::initialize(SolverStorage& storage, Cone& cone, SolverSetting& setting) { storage_ = &storage; cone_ = &cone; setting_ = &setting; prog = capture(storage, cone); history.push_back(prog); inits++; }
ExitCode InteriorPointSolver::optimize() { return answer(opt_, *cone_, *setting_); }
void BnBSolver::initialize(InteriorPointSolver& s, const std::vector<std::shared_ptr<Var>>&) { interior_point_solver_ = &s; }
ExitCode BnBSolver::optimize() { bnb_calls++; return answer(opt_, *interior_point_solver_->cone_, *interior_point_solver_->setting_); }
void NcvxBnBSolver::initialize(ConicProblem& p) { conic_problem_ = &p; }
ExitCode NcvxBnBSolver::optimize() { bnb_calls++; return ExitCode::Optimal; }
}
static const LinExpr ZERO(0.0);
static const char* BOUND = "models of 2 continuous (and up to 2 binary) variables with up to 2 constraints of each kind and up to 2 terms per expression; coefficients, constants and points: all reals";
static void reset(Model& m, int refinements = 0, int warm = 0) {
  prog = Program(); history.clear(); answers.clear(); codes.clear(); max_iters.clear(); calls = inits = bnb_calls = 0; SolverSetting& s = m.getSetting();
  s.set(SolverBoolParam_Verbose, false); s.set(SolverIntParam_WarmStartIters, warm); s.set(SolverIntParam_SolverMaxIters, 50); s.set(SolverIntParam_NumberRefinementsTrustRegion, refinements);
  s.set(SolverDoubleParam_TrustRegionThreshold, input("thr", 0.1, 0.9)); s.set(SolverDoubleParam_SoftConstraintWeightReduced, input("softw", 1, 5));
}
static int col(const Var& v) { return v.get(SolverIntParam_ColNum); }
static double at(const LinExpr& e, const Vec& x) { double s = e.getConstant(); for (size_t i = 0; i < e.size(); i++) s = s + e.getCoeff(i) * x[col(e.getVar(i))]; return s; }
static LinExpr lin(const std::vector<Var>& v, int k, const std::string& n) {
  LinExpr e = input("k" + n); for (int i = 0; i < k; i++) { double a = input("a" + n + "_" + std::to_string(i)); kv::assume(kv::pnot(kv::eq(a, 0.0))); e += LinExpr(v[i % v.size()], a); } return e; }
struct Quad { std::vector<LinExpr> q; std::vector<double> c; LinExpr l; };
struct User { std::vector<Var> v; std::vector<LinExpr> eq, le; std::vector<Quad> qua, soc; Quad obj; bool has_obj = false; int nbin = 0; std::vector<Var> bin; };
static double qval(const Quad& q, const Vec& x) { double s = at(q.l, x); for (size_t i = 0; i < q.q.size(); i++) { double t = at(q.q[i], x); s = s + q.c[i] * t * t; } return s; }
static kv::Prop soc_holds(const Quad& q, const Vec& x) { double n(0), l = at(q.l, x); for (auto& e : q.q) { double t = at(e, x); n = n + t * t; } return kv::pand(kv::le(l, 0.0), kv::le(n, l * l)); }
static Vec slack(const Program& p, const Vec& x) { return p.h - p.G * x; }
static kv::Prop feasible(const Program& p, const Vec& x) {
  kv::Prop r = kv::truth(true); Vec s = slack(p, x), e = p.A * x - p.b;
  for (int i = 0; i < e.size(); i++) r = kv::pand(r, kv::eq(e[i], 0.0)); for (int i = 0; i < p.nlp; i++) r = kv::pand(r, kv::ge(s[i], 0.0));
  int k = p.nlp; for (int m : p.soc) { double n(0); for (int i = 1; i < m; i++) n = n + s[k + i] * s[k + i]; r = kv::pand(r, kv::pand(kv::ge(s[k], 0.0), kv::le(n, s[k] * s[k]))); k += m; }
  return r;
}
static bool nonzero(const double& d) { return !(kv::Real(d) == kv::Real(0.0)); }
// completion of a user point: an auxiliary variable that heads a cone block takes its smallest admissible value
static Vec complete(const Program& p, Vec x, const std::vector<bool>& isuser) {
  Vec s = slack(p, x); int k = p.nlp;
  for (int m : p.soc) {
    int a = -1; for (int j = 0; j < x.size(); j++) if (!isuser[j] && nonzero(p.G(k, j))) a = j;
    if (a >= 0) { double n(0); bool square = m == 3 && nonzero(p.G(k + 1, a)); if (square) n = s[k + 2] * s[k + 2] / 4.0; else { for (int i = 1; i < m; i++) n = n + s[k + i] * s[k + i]; n = std::sqrt(n); } x[a] = n; }
    k += m;
  }
  return x;
}
static std::vector<bool> users(const Program& p, const User& u) { std::vector<bool> r(p.G.cols(), false); for (auto& v : u.v) r[col(v)] = true; for (auto& v : u.bin) r[col(v)] = true; return r; }
static kv::Prop user_holds(const User& u, const Vec& x) {
  kv::Prop r = kv::truth(true); for (auto& e : u.eq) r = kv::pand(r, kv::eq(at(e, x), 0.0)); for (auto& e : u.le) r = kv::pand(r, kv::le(at(e, x), 0.0));
  for (auto& b : u.bin) r = kv::pand(r, kv::pand(kv::ge(x[col(b)], 0.0), kv::le(x[col(b)], 1.0)));
  for (auto& q : u.qua) r = kv::pand(r, kv::le(qval(q, x), 0.0)); for (auto& q : u.soc) r = kv::pand(r, soc_holds(q, x)); return r;
}
static double cost(const Program& p, const Vec& x) { double s(0); for (int i = 0; i < x.size(); i++) s = s + p.c[i] * x[i]; return s; }
static double objective(const User& u, const Vec& x) { return u.has_obj ? qval(u.obj, x) - u.obj.l.getConstant() : kv::Real(0.0); }
static void equivalent(const User& u, const Program& p) {
  std::vector<bool> isu = users(p, u); int n = p.G.cols(); Vec x(n); x.setZero(); for (int i = 0; i < n; i++) if (isu[i]) x[i] = input("x" + std::to_string(i));
  prove("no auxiliary variable is a user variable", (int)u.v.size() + (int)u.bin.size() <= n);
  if (kv::choice("direction", 2) == 0) {   // every admissible user point has a feasible completion of the same cost
    kv::assume(user_holds(u, x)); Vec y = complete(p, x, isu);
    for (size_t i = 0; i < u.soc.size(); i++) { double nn(0); for (auto& e : u.soc[i].q) { double t = at(e, x); nn = nn + t * t; } double l = at(u.soc[i].l, x); kv::lemma("norm below the bound (monotonicity of the square)", kv::le(std::sqrt(nn) + l, 0.0)); }
    prove("admissible points have a feasible completion", feasible(p, y));
    prove_eq("the completion costs the user objective", cost(p, y), objective(u, x));
  } else {   // every feasible point of the program is admissible and costs at least the objective
    for (int i = 0; i < n; i++) if (!isu[i]) x[i] = input("t" + std::to_string(i), 0, 3);
    kv::assume(feasible(p, x)); Vec s = slack(p, x); int k = p.nlp;
    for (int m : p.soc) { int a = -1; for (int j = 0; j < n; j++) if (!isu[j] && nonzero(p.G(k, j))) a = j;
      if (m == 3 && a >= 0 && nonzero(p.G(k + 1, a))) { double d = x[a] - s[k + 2] * s[k + 2] / 4.0; kv::lemma("auxiliary variable bounds the square", kv::ge(d, 0.0));
        for (auto* qs : {&u.qua}) for (auto& q : *qs) for (auto& c : q.c) kv::lemma("scaled bound", kv::ge(c * d, 0.0)); for (auto& c : u.obj.c) kv::lemma("scaled bound", kv::ge(c * d, 0.0)); }
      k += m; }
    prove("feasible points of the program are admissible", user_holds(u, x));
    prove("the program never undercuts the objective", kv::ge(cost(p, x), objective(u, x)));
  }
}
static void add_lin(Model& m, User& u, int n, int terms_l, int terms_r, const std::string& tag) {
  static const char* S[] = {"=", "<", ">"};
  for (int i = 0; i < n; i++) { std::string t = tag + std::to_string(i); int s = kv::choice("sense" + t, 3); LinExpr l = lin(u.v, terms_l, "l" + t), r = terms_r ? lin({u.v[1]}, terms_r, "r" + t) : LinExpr(input("kr" + t)); m.addLinConstr(l, S[s], r); if (s == 0) u.eq.push_back(l - r); else u.le.push_back(s == 1 ? l - r : r - l); }
}
static Quad mkquad(User& u, int terms, int lterms, const std::string& tag, DCPQuadExpr& d, bool soc) {
  Quad q; q.l = lin(u.v, lterms, "ql" + tag); d.addLinTerm(q.l);
  for (int i = 0; i < terms; i++) { std::string t = tag + "_" + std::to_string(i); LinExpr e = lin({u.v[i % 2], u.v[1 - i % 2]}, 1 + (i + terms) % 2, "q" + t); double c = soc ? kv::Real(1.0) : input("c" + t, 0.1, 3); if (!soc) kv::assume(kv::gt(c, 0.0)); d.addQuaTerm(c, e); q.q.push_back(e); q.c.push_back(c); }
  return q;
}
static void add_quad(Model& m, User& u, int terms, const std::string& tag) { DCPQuadExpr d; Quad q = mkquad(u, terms, 1, tag, d, false); LinExpr r = lin({u.v[0]}, 1, "r" + tag); m.addQuaConstr(d, "<", r); q.l = q.l - r; u.qua.push_back(q); }
static void add_soc(Model& m, User& u, int terms, const std::string& tag) { DCPQuadExpr d; Quad q = mkquad(u, terms, 1, tag, d, true); LinExpr r = LinExpr(input("kr" + tag)); m.addSocConstr(d, "<", r); q.l = q.l - r; u.soc.push_back(q); }
static void set_obj(Model& m, User& u, int terms, const std::string& tag) { DCPQuadExpr d; Quad q = mkquad(u, terms, 2, tag, d, false); LinExpr r = lin({u.v[1]}, 1, "r" + tag); m.setObjective(d, r); q.l = q.l + r; u.obj = q; u.has_obj = true; }
static void vars(Model& m, User& u, int n) { for (int i = 0; i < n; i++) u.v.push_back(m.addVar(VarType::Continuous, -100.0, 100.0)); }
static void head() { kv::under_contract("solver::ConicProblem::buildProblem"); kv::under_contract("solver::ConicProblem::addLinConstr/addQuaConstr/addSocConstr/setObjective/addVar"); kv::under_contract("solver::SolverStorage::initializeMatrices"); kv::bounded(BOUND); kv::set_max_paths(3000); kv::set_timeouts(2000, 20000);
  kv::assumption("InteriorPointSolver/BnBSolver initialize and optimize are replaced by their contracts (program received as built; arbitrary point and code returned)"); }
KV_CASE(linear) { head(); Model m; User u; reset(m); vars(m, u, 2); add_lin(m, u, 1 + kv::choice("n", 2), kv::choice("terms_l", 3), kv::choice("terms_r", 2), "A"); m.optimize(); equivalent(u, prog); }
KV_CASE(linear_no_variables) { head(); Model m; User u; reset(m); vars(m, u, 2); add_lin(m, u, 1, 1, 0, "A"); add_lin(m, u, 2, 0, 0, "B"); m.optimize(); equivalent(u, prog); }
KV_CASE(linear_repeated_variable) { head(); Model m; User u; reset(m); vars(m, u, 2); LinExpr l = lin({u.v[0], u.v[0], u.v[1]}, 3, "l"), r = lin({u.v[0]}, 1, "r"); int s = kv::choice("s", 3); m.addLinConstr(l, s == 0 ? "=" : s == 1 ? "<" : ">", r);
  LinExpr d = l - r; if (s == 0) u.eq.push_back(d); else u.le.push_back(s == 1 ? d : -d); m.optimize(); equivalent(u, prog); }
KV_CASE(quadratic) { head(); Model m; User u; reset(m); vars(m, u, 2); int n = 1 + kv::choice("n", 2); for (int i = 0; i < n; i++) add_quad(m, u, 1 + (i + kv::choice("terms", 2)) % 2, "Q" + std::to_string(i)); m.optimize(); equivalent(u, prog); }
KV_CASE(cone) { head(); Model m; User u; reset(m); vars(m, u, 2); int n = 1 + kv::choice("n", 2); for (int i = 0; i < n; i++) add_soc(m, u, 1 + (i + kv::choice("terms", 2)) % 2, "S" + std::to_string(i)); m.optimize(); equivalent(u, prog); }
KV_CASE(objective_only) { head(); Model m; User u; reset(m); vars(m, u, 2); set_obj(m, u, kv::choice("terms", 3), "O"); add_lin(m, u, 1, 1, 0, "A"); m.optimize(); equivalent(u, prog); }
KV_CASE(objective_replaced) { head(); Model m; User u; reset(m); vars(m, u, 2); set_obj(m, u, 2, "P"); if (kv::choice("optimize between", 2)) m.optimize(); set_obj(m, u, 1 + kv::choice("terms", 2), "O"); m.optimize(); equivalent(u, prog); }
KV_CASE(mixed) { head(); Model m; User u; reset(m); vars(m, u, 2);
  auto bin = [&]() { u.bin.push_back(m.addVar(VarType::Binary, 0.0, 1.0)); };
  switch (kv::choice("order", 4)) {
    case 0: add_lin(m, u, 2, 2, 0, "A"); bin(); add_quad(m, u, 2, "Q"); add_soc(m, u, 2, "S"); set_obj(m, u, 1, "O"); break;
    case 1: set_obj(m, u, 2, "O"); add_soc(m, u, 1, "S"); add_quad(m, u, 1, "Q"); bin(); add_lin(m, u, 1, 1, 1, "A"); bin(); break;
    case 2: add_quad(m, u, 1, "Q"); set_obj(m, u, 1, "O"); add_quad(m, u, 2, "R"); add_lin(m, u, 1, 1, 0, "A"); add_soc(m, u, 2, "S"); break;
    case 3: bin(); bin(); add_soc(m, u, 2, "S"); add_soc(m, u, 1, "T"); add_quad(m, u, 1, "Q"); add_lin(m, u, 1, 2, 0, "A"); set_obj(m, u, 2, "O"); break; }
  m.optimize(); equivalent(u, prog); }
KV_CASE(binary) { head(); Model m; User u; reset(m); vars(m, u, 2); int n = 1 + kv::choice("n", 2); for (int i = 0; i < n; i++) u.bin.push_back(m.addVar(VarType::Binary, 0.0, 1.0)); u.v.push_back(m.addVar(VarType::Continuous, 0.0, 1.0)); add_lin(m, u, 1, 2, 0, "A");
  LinExpr e = LinExpr(u.bin[0], input("ab")) + u.v[0]; m.addLinConstr(e, "<", LinExpr(1.0)); u.le.push_back(e - 1.0); m.optimize(); prove("binary programs go to branch and bound", bnb_calls == 1); equivalent(u, prog); }
static void same_program(const std::string& l, const Program& p, const Program& q) {
  prove(l + " (shape)", p.A.rows() == q.A.rows() && p.G.rows() == q.G.rows() && p.G.cols() == q.G.cols() && p.nlp == q.nlp && p.soc == q.soc); if (p.G.rows() != q.G.rows() || p.G.cols() != q.G.cols() || p.A.rows() != q.A.rows()) return;
  for (int i = 0; i < p.A.rows(); i++) { prove_eq(l, p.b[i], q.b[i]); for (int j = 0; j < p.A.cols(); j++) prove_eq(l, p.A(i, j), q.A(i, j)); }
  for (int i = 0; i < p.G.rows(); i++) { prove_eq(l, p.h[i], q.h[i]); for (int j = 0; j < p.G.cols(); j++) prove_eq(l, p.G(i, j), q.G(i, j)); } for (int j = 0; j < p.c.size(); j++) prove_eq(l, p.c[j], q.c[j]);
}
KV_CASE(rebuild) { head(); Model m; User u; reset(m); vars(m, u, 2); add_lin(m, u, 1, 2, 0, "A"); add_quad(m, u, 1, "Q"); add_soc(m, u, 1, "S"); set_obj(m, u, 1, "O"); m.optimize(); Program p = prog; m.optimize(); same_program("rebuilding gives the same program", p, prog); }
KV_CASE(cleaned_model) { head(); kv::under_contract("solver::ConicProblem::clean"); Model m; User u0, u; reset(m); vars(m, u0, 2); u0.bin.push_back(m.addVar(VarType::Binary, 0.0, 1.0)); add_lin(m, u0, 2, 2, 0, "Z"); add_quad(m, u0, 1, "Y"); add_soc(m, u0, 1, "X"); set_obj(m, u0, 2, "W"); m.optimize(); m.clean();
  vars(m, u, 2); add_lin(m, u, 1, 1, 0, "A"); add_quad(m, u, 1, "Q"); set_obj(m, u, 1, "O"); m.optimize(); equivalent(u, prog); }
KV_CASE(answer_is_stored) { head(); kv::under_contract("solver::ConicProblem::solveProblem"); kv::under_contract("solver::Model::optimize"); Model m; User u; reset(m); vars(m, u, 2); if (kv::choice("bin", 2)) u.bin.push_back(m.addVar(VarType::Binary, 0.0, 1.0)); add_quad(m, u, 1, "Q");
  static const ExitCode C[] = {ExitCode::Optimal, ExitCode::PrimalInf, ExitCode::ReachMaxIters}; ExitCode c = C[kv::choice("code", 3)]; codes = {c}; ExitCode r = m.optimize(); prove("exit code is the solver's", r == c); prove("solved once", calls == 1);
  for (auto& v : u.v) prove_eq("variables hold the solution", v.get(SolverDoubleParam_X), answers.back()[col(v)]); for (auto& v : u.bin) prove_eq("variables hold the solution", v.get(SolverDoubleParam_X), answers.back()[col(v)]); }
KV_CASE(invalid_sense) { head(); Model m; User u; reset(m); vars(m, u, 2); LinExpr e = lin(u.v, 1, "e"); DCPQuadExpr d; d.addQuaTerm(1.0, e); int t = 0;
  static const char* S[] = {"", "<=", "==", "x"}; const char* s = S[kv::choice("s", 4)]; try { m.addLinConstr(e, s, ZERO); } catch (std::runtime_error&) { t++; } try { m.addQuaConstr(d, s, ZERO); } catch (std::runtime_error&) { t++; } try { m.addSocConstr(d, s, ZERO); } catch (std::runtime_error&) { t++; }
  prove("unknown senses are rejected", t == 3); int q = 0; try { m.addQuaConstr(d, ">", ZERO); } catch (std::runtime_error&) { q++; } try { m.addSocConstr(d, "=", ZERO); } catch (std::runtime_error&) { q++; } prove("non-convex senses are rejected", q == 2);
  bool b = false; try { m.addVar(VarType::Continuous, 1.0, 0.0); } catch (std::runtime_error&) { b = true; } prove("crossed bounds are rejected", b); }
// approximations of a non-convex quadratic constraint q(x) + l(x) <= 0: the linearisation at the current solution
static void approx(bool soft) {
  head(); kv::under_contract("solver::ConicProblem::optimize (warm start and refinements)"); Model m; User u; int nref = kv::choice("refinements", 3); reset(m, nref, 5); vars(m, u, 2); int other = kv::choice("with an exact constraint before", 2); if (other) add_quad(m, u, 1, "E");
  DCPQuadExpr d; Quad q; q.l = lin(u.v, 1, "ql"); d.addLinTerm(q.l); for (int i = 0; i < 2; i++) { LinExpr e = lin({u.v[i], u.v[1 - i]}, 1 + i, "q" + std::to_string(i)); double c = input("c" + std::to_string(i), 0.1, 2); kv::assume(kv::gt(c, 0.0)); d.addQuaTerm(c, e); q.q.push_back(e); q.c.push_back(c); }
  m.addQuaConstr(d, "<", ZERO, soft ? QuadConstrApprox::SoftConstraint : QuadConstrApprox::TrustRegion); u.qua.push_back(q); add_lin(m, u, 1, 1, 0, "A");
  m.optimize(); prove("one build per solve: warm start, solve, refinements", (int)history.size() == 2 + nref && calls == 2 + nref);
  for (int k : max_iters) prove("iteration limits", k == 5 || k == 50); prove("warm start limit", max_iters[0] == 5);
  int k = kv::choice("build", 2 + nref); const Program& p = history[k];
  if (k == 0) { if (!soft) equivalent(u, p); return; }   // the warm start solves the convex part
  std::vector<bool> isu = users(p, u); int n = p.G.cols(); Vec x(n), x0 = answers[k - 1]; x.setZero(); for (int i = 0; i < n; i++) x[i] = input("x" + std::to_string(i));
  double g = at(q.l, x); for (size_t i = 0; i < q.q.size(); i++) { double v0 = at(q.q[i], x0), dv = at(q.q[i], x) - v0; g = g + q.c[i] * (v0 * v0 + 2.0 * v0 * dv); }
  Vec s = slack(p, x); kv::Prop some = kv::truth(false);
  if (!soft) { double thr(1); for (int i = 0; i < k; i++) thr = thr * m.getSetting().get(SolverDoubleParam_TrustRegionThreshold); bool found = false; for (int i = 0; i < p.nlp; i++) if (kv::valid(kv::eq(s[i], g + thr))) found = true; prove("the linearised constraint is kept above minus the trust region radius", found); }
  else { bool found = false; int r = p.nlp; for (int b : p.soc) { if (b == 3 && kv::valid(kv::eq(s[r + 2], 2.0 * g))) { int a = -1; for (int j = 0; j < n; j++) if (!isu[j] && nonzero(p.G(r, j))) a = j;
        if (a >= 0) { found = true; prove_eq("head of the soft block", s[r], 1.0 + x[a]); prove_eq("second entry of the soft block", s[r + 1], x[a] - 1.0); prove_eq("soft weight in the cost", p.c[a], m.getSetting().get(SolverDoubleParam_SoftConstraintWeightReduced)); } } r += b; }
    prove("the squared linearised constraint is penalised", found); }
}
KV_CASE(trust_region) { approx(false); }
KV_CASE(soft_constraint) { approx(true); }
