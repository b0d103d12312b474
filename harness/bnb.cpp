// Contracts of the branch-and-bound search, run through the real model -> conic program translation. The interior-point
// solver is replaced by its contract: a correct relaxation solver. Relaxations answer arbitrarily within that contract.
#include "kvh.hpp"
#include <map>
#include <solver/interface/Model.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
typedef std::vector<int> Assign;   // per binary: 0, 1, or -1 (free)
struct Result { bool feasible; Vec x; double cost; };
struct Oracle { int nb; std::vector<int> feas; std::vector<double> cost; std::vector<int> seen; std::vector<bool> evaluated; std::map<Assign, Result> memo; int bcol[4], tcol, ncalls; bool ok; Vec e; bool free_unbounded; };
static Oracle O; static bool ncvx;
static bool consistent(int a, const Assign& P) { for (int i = 0; i < O.nb; i++) if (P[i] >= 0 && P[i] != (a >> i & 1)) return false; return true; }
static bool leaf_feasible(int a) { if (O.feas[a] < 0) { O.feas[a] = kv::choice("feasible " + std::to_string(a), 2) == 0; } return O.feas[a]; }
static std::string str(const Assign& P) { std::string s; for (int v : P) s += v < 0 ? '*' : char('0' + v); return s; }
static Result relax(const Assign& P, int nvars) {
  auto it = O.memo.find(P); if (it != O.memo.end()) return it->second;
  Result r; r.feasible = false; r.x = Vec(nvars); r.x.setZero(); std::vector<int> leaves; int nfree = 0; for (int i = 0; i < O.nb; i++) nfree += P[i] < 0; for (int a = 0; a < (1 << O.nb); a++) if (consistent(a, P) && leaf_feasible(a)) leaves.push_back(a);
  if (nfree == 0) { if (leaves.size()) { r.feasible = true; r.cost = O.cost[leaves[0]]; O.evaluated[leaves[0]] = true; } else r.cost = input("junk" + str(P), -5, 5); for (int i = 0; i < O.nb; i++) r.x[O.bcol[i]] = P[i]; }
  else {
    int nfrac = (1 << nfree) - 1; int k = kv::choice("relaxation " + str(P), leaves.size() + nfrac + (leaves.empty() ? 1 : 0)); int nl = leaves.size();
    if (k < nl) { r.feasible = true; int a = leaves[k]; r.cost = O.cost[a]; O.evaluated[a] = true; for (int b : leaves) kv::assume(kv::le(O.cost[a], O.cost[b])); for (int i = 0; i < O.nb; i++) r.x[O.bcol[i]] = a >> i & 1; }
    else if (k == nl + nfrac) { r.cost = input("junk" + str(P), -5, 5); for (int i = 0; i < O.nb; i++) r.x[O.bcol[i]] = P[i] < 0 ? 0 : P[i]; }   // infeasible: the point is a certificate, not a solution
    else { static const double V[] = {0.6, 0.3, 0.45}; int c = k - nl + 1; for (int i = 0; i < O.nb; i++) { if (P[i] >= 0) { r.x[O.bcol[i]] = P[i]; continue; } int d = c % 2; c /= 2; r.x[O.bcol[i]] = d ? V[i] : 0.0; } r.feasible = true; r.cost = input("bound" + str(P), -5, 5); for (int b : leaves) kv::assume(kv::le(r.cost, O.cost[b])); }
  }
  r.x[O.tcol] = r.cost; O.memo[P] = r; return r;
}
static bool is(const double& a, double b) { return kv::valid(kv::eq(a, b)); }
// reads the bounds of every binary out of the conic program that is about to be solved
static Assign bounds(SolverStorage& s, Cone& c) {
  Mat G = Mat(s.Gmatrix()); Assign P; for (int i = 0; i < O.nb; i++) { int v = -2, nlo = 0, nup = 0; double lo, up; for (int r = 0; r < c.sizeLpc(); r++) { int nz = 0, col = -1; double g(0.0); for (int j = 0; j < G.cols(); j++) if (!is(G(r, j), 0.0)) { nz++; col = j; g = G(r, j); } if (nz != 1 || col != O.bcol[i]) continue; double h = s.h()[r] * O.e[r];   // h is stored equilibrated
      if (is(g, -1.0)) { nlo++; lo = h; } else if (is(g, 1.0)) { nup++; up = h; } }
    if (nlo == 1 && nup == 1) { if (is(lo, 0.0) && is(up, 1.0)) v = -1; else if (is(lo, 0.0) && is(up, 0.0)) v = 0; else if (is(lo, -1.0) && is(up, 1.0)) v = 1; } prove("every relaxation bounds each binary to {0}, {1} or [0,1]", v != -2); if (v == -2) throw kv::Infeasible(); P.push_back(v); } return P;
}
namespace solver {
void InteriorPointSolver::initialize(SolverStorage& storage, Cone& cone, SolverSetting& setting) { storage_ = &storage; cone_ = &cone; setting_ = &setting; opt_.initialize(cone); int m = cone.sizeCone(); equilibration_routine_.cone_ = std::make_shared<Cone>(cone); equilibration_routine_.equil_vec_.initialize(cone); auto& ev = equilibration_routine_.equil_vec_;
  for (int i = 0; i < ev.size(); i++) ev[i] = 1.0; O.e = Vec(m); for (int i = 0; i < m; i++) { O.e[i] = input("e" + std::to_string(i), 0.5, 2); kv::assume(kv::gt(O.e[i], 0.0)); ev.z()[i] = O.e[i]; }
  double ex = input("ex", 0.5, 2); kv::assume(kv::gt(ex, 0.0)); ev.x()[O.bcol[0]] = 3.0; ev.x()[O.tcol] = ex; storage.cbh().array() /= ev.array(); }   // right-hand side and cost are equilibrated in place
ExitCode InteriorPointSolver::optimize() { O.ncalls++; Assign P = bounds(*storage_, *cone_); Result r = relax(P, cone_->numVars()); opt_.x() = r.x; optimization_info_.get(SolverDoubleParam_PrimalCost) = r.cost; return r.feasible ? ExitCode::Optimal : kv::choice("inaccurate " + str(P), 2) ? ExitCode::PrimalInfInacc : ExitCode::PrimalInf; }
void InteriorPointSolver::computeResiduals() {}
}
static void heads(const std::string& b) { kv::require_defined(false); kv::assumption("the relative gap divides by the incumbent cost: division by zero is the IEEE infinity or not-a-number there, not an obligation"); for (auto f : {"initialize", "initializeRootNode", "optimize", "updateNodeBounds", "createBranches", "selectNodeToExplore", "getProblemLowerBound", "selectPartitionVariable", "updateProblemData", "optimilityCheck", "storeSolution", "loadSolution", "exitcode"}) { kv::under_contract(std::string("solver::BnBSolver::") + f); kv::under_contract(std::string("solver::NcvxBnBSolver::") + f); }
  kv::under_contract("solver::InteriorPointSolver::updateEquilH"); kv::under_contract("solver::ConicProblem::optimize, buildProblem (binary rows)"); kv::bounded(b); kv::set_max_paths(200000); kv::set_timeouts(400, 10000); kv::assumption("the interior-point solver is replaced by its contract: a correct relaxation solver (bound below every consistent feasible leaf, exact at fully fixed leaves, infeasibility reported as such)"); }
template <class S> static void check(S& bnb, ExitCode code, const Vec& x, const Vec& xo, int maxit, double absgap, double relgap) {
  bool succ = code == ExitCode::Optimal || code == ExitCode::OptimalInacc; int N = 1 << O.nb; bool complete = code == ExitCode::Optimal || code == ExitCode::PrimalInf; bool anyeval = false, anyfeas = false; for (int a = 0; a < N; a++) { anyeval = anyeval || O.evaluated[a]; if (complete) anyfeas = anyfeas || leaf_feasible(a); }
  prove("only documented answers", succ || code == ExitCode::PrimalInf || code == ExitCode::PrimalInfInacc);
  if (complete && !succ) prove("failure only if no assignment is feasible", !anyfeas); if (!succ) prove("no failure once a feasible assignment was found", !anyeval);
  // the nodes form a partition of all assignments
  int last = bnb.iteration_; for (int a = 0; a < N; a++) { int in = 0; for (int c = 0; c <= last; c++) { bool m = true; for (int i = 0; i < O.nb; i++) { int d = bnb.binvars_mat_id_(i, c); int v = d == int(Decision::One) ? 1 : d == int(Decision::Zero) ? 0 : -1; m = m && (v < 0 || v == (a >> i & 1)); } in += m; } prove("every assignment is in exactly one node", in == 1); }
  if (bnb.iteration_ > 0 && complete) for (int a = 0; a < N; a++) if (leaf_feasible(a)) prove("the lower bound is below every feasible assignment", kv::le(bnb.prob_lower_bound_, O.cost[a]));
  if (!succ) return; int leaf = 0; bool integral = true; for (int i = 0; i < O.nb; i++) { double v = x[O.bcol[i]]; integral = integral && (is(v, 0.0) || is(v, 1.0)); leaf |= is(v, 1.0) << i; } prove("the answer is a binary assignment", integral); prove("the answer is feasible", O.feas[leaf] == 1); prove("the answer was evaluated", O.evaluated[leaf]); prove_eq("the answer carries the cost of its assignment", x[O.tcol], O.cost[leaf]); for (int i = 0; i < x.size(); i++) prove_eq("variables and solver agree on the answer", x[i], xo[i]);
  for (int a = 0; a < N; a++) { if (O.evaluated[a] && a != leaf) prove("the answer is the best evaluated assignment", kv::le(O.cost[leaf], O.cost[a])); if (complete && leaf_feasible(a) && a != leaf) { double lb = bnb.prob_lower_bound_, gap = O.cost[leaf] - O.cost[a]; prove("the answer is the best feasible assignment (within the gap tolerances)", kv::por(kv::le(gap, absgap), kv::por(kv::pand(kv::gt(lb, 0.0), kv::le(gap, relgap * lb)), kv::pand(kv::lt(lb, 0.0), kv::le(gap, relgap * -lb))))); } }
  if (!complete) prove("an inexact answer is given only at the iteration limit", bnb.iteration_ >= maxit - 1);
}
static void search(int nb, int maxit, bool nc, bool gaps, bool all_feasible, bool twice = false, int pattern = -1) {
  ncvx = nc; O = Oracle(); O.nb = nb; O.feas.assign(1 << nb, all_feasible ? 1 : -1); O.evaluated.assign(1 << nb, false); if (pattern >= 0) { O.feas[0] = pattern & 1; O.feas[3] = pattern >> 1 & 1; } Model m; SolverSetting& s = m.getSetting(); s.set(SolverBoolParam_Verbose, false); s.set(SolverIntParam_WarmStartIters, 0); s.set(SolverIntParam_SolverMaxIters, 50); s.set(SolverIntParam_NumberRefinementsTrustRegion, 0); s.set(SolverDoubleParam_TrustRegionThreshold, 0.5); s.set(SolverDoubleParam_SoftConstraintWeightReduced, 1.0);
  double ag = gaps ? input("absolute gap", 0, 0.5) : kv::Real(0.0), rg = gaps ? input("relative gap", 0, 0.2) : kv::Real(-1.0);   /* -1: the relative test never ends the search */ kv::assume(kv::ge(ag, 0.0)); if (gaps) kv::assume(kv::ge(rg, 0.0)); s.set(SolverDoubleParam_BnBAbsSubOptGap, ag); s.set(SolverDoubleParam_BnBRelSubOptGap, rg); s.set(SolverDoubleParam_BnBIntegerTol, 0.01); s.set(SolverIntParam_BnBMaxIters, maxit); s.set(SolverBoolParam_BnBVerbose, false);
  for (int a = 0; a < (1 << nb); a++) O.cost.push_back(input("cost" + std::to_string(a), 0.5, 5)); std::vector<Var> b; b.push_back(m.addVar(VarType::Binary, 0.0, 1.0)); Var t = m.addVar(VarType::Continuous, -10.0, 10.0); for (int i = 1; i < nb; i++) b.push_back(m.addVar(VarType::Binary, 0.0, 1.0)); LinExpr e = LinExpr(b[0], 1.0) + LinExpr(t, -1.0); m.addLinConstr(e, "<", LinExpr(4.0));
  DCPQuadExpr q; if (nc) { DCPQuadExpr r; r.addQuaTerm(1.0, LinExpr(t, 1.0)); m.addQuaConstr(r, "<", LinExpr(100.0), QuadConstrApprox::TrustRegion); } m.setObjective(q, LinExpr(t, 1.0)); for (int i = 0; i < nb; i++) O.bcol[i] = b[i].get(SolverIntParam_ColNum); O.tcol = t.get(SolverIntParam_ColNum);
  ExitCode code = m.optimize(); auto& P = m.getProblem(); if (twice) { O.memo.clear(); std::fill(O.evaluated.begin(), O.evaluated.end(), false); std::swap(O.cost[0], O.cost[(1 << nb) - 1]); code = m.optimize(); }
  Vec x(O.tcol > O.bcol[nb - 1] ? O.tcol + 1 : O.bcol[nb - 1] + 1), xo = P.getSolver().optimalVector().x(); std::vector<Var> all = b; all.push_back(t); for (auto& v : all) x[v.get(SolverIntParam_ColNum)] = v.get(SolverDoubleParam_X); Vec xh = xo.head(x.size());
  if (nc) check(m.ncvx_bnb_solver_, code, x, xh, maxit, ag, rg); else check(P.bnb_solver_, code, x, xh, maxit, ag, rg);
}
KV_CASE(one_binary) { heads("1 binary; all costs, relaxation answers and feasibility patterns"); search(1, 6, false, kv::choice("gaps", 2), false); }
KV_CASE(two_binaries_0) { heads("2 binaries; all costs, relaxation answers and feasibility patterns with (first, last) assignment infeasible, infeasible; zero gaps"); search(2, 8, false, false, false, false, 0); }
KV_CASE(two_binaries_1) { heads("2 binaries; all costs, relaxation answers and feasibility patterns with (first, last) assignment feasible, infeasible; zero gaps"); search(2, 8, false, false, false, false, 1); }
KV_CASE(two_binaries_2) { heads("2 binaries; all costs, relaxation answers and feasibility patterns with (first, last) assignment infeasible, feasible; zero gaps"); search(2, 8, false, false, false, false, 2); }
KV_CASE(two_binaries_3) { heads("2 binaries; all costs, relaxation answers and feasibility patterns with (first, last) assignment feasible, feasible; zero gaps"); search(2, 8, false, false, false, false, 3); }
KV_CASE(two_binaries_gap) { heads("2 binaries, all assignments feasible; all costs, relaxation answers and gap tolerances"); search(2, 8, false, true, true); }
KV_CASE(iteration_limit) { heads("2 binaries, at most 1..3 nodes; all costs and relaxation answers"); search(2, 1 + kv::choice("nodes", 3), false, false, false); }
KV_CASE(again) { heads("1 binary, the same model solved again with other costs"); search(1, 6, false, false, false, true); }
KV_CASE(nonconvex) { heads("2 binaries and a trust-region constraint"); search(2, 8, true, false, true); }
KV_CASE(nonconvex_infeasible) { heads("1 binary and a trust-region constraint, all feasibility patterns"); search(1, 6, true, false, false); }
KV_CASE(nonconvex_limit) { heads("2 binaries and a trust-region constraint, at most 1..3 nodes"); search(2, 1 + kv::choice("nodes", 3), true, false, true); }
