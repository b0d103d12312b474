// Contracts of the hierarchical solver: the QP solver is replaced by its contract (a KKT point, see unit rtqp), the singular value
// decomposition by an exact closed form for the shapes used, the helper thread by a synchronous call of the function it runs.
#include "kvh.hpp"
#include <functional>
#include <yaml-cpp/yaml.h>
#include <boost/thread.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
static std::function<void()> on_wait;
static int kv_cond_wait() { on_wait(); return 0; }
#define pthread_cond_wait(c, m) kv_cond_wait()
#define pthread_cond_broadcast(c) 0
#define pthread_mutex_lock(m) 0
#define pthread_mutex_unlock(m) 0
#include <solver/rt_optimizer/RtMutex.hpp>
#include <solver/rt_optimizer/RtModel.h>
using namespace rt_solver; using kv::input; using kv::prove_eq; using kv::prove; using kv::Prop; using kv::pand; using kv::por;
typedef Eigen::MatrixXd Mat; typedef Eigen::VectorXd Vec;
static const int MI = 4, NV = 2, ME = 2;
typedef RtHQPSolver<MI, NV, ME> HQP; typedef RtQPSolver<NV + MI, 0, MI> QP; typedef RtMatrix<ME, NV>::d SvdMat;
// --- contract of the decomposition: for at most two columns, an orthonormal V whose last columns span the null space
namespace Eigen { template <> class JacobiSVD<SvdMat> { public: typedef Matrix<double, Dynamic, 1, 0, 2, 1> SV; SV s_; Mat v_; const SV& singularValues() const { return s_; } const Mat& matrixV() const { return v_; }
  JacobiSVD& compute(const SvdMat& B, unsigned) { int n = B.cols(), k = std::min<int>(B.rows(), n); s_.resize(2); s_.setZero(); s_.resize(k); v_ = Mat::Identity(n, n); if (k == 0) return *this; int big = -1; for (int i = 0; i < B.rows() && big < 0; i++) for (int j = 0; j < n; j++) if (!(B(i, j) == 0.0)) { big = i; break; } if (big < 0) return *this;
    if (n == 1) { s_[0] = 1.0; return *this; } double h2 = B(big, 0) * B(big, 0) + B(big, 1) * B(big, 1), h = std::sqrt(h2); kv::lemma_sqrt("row norm", h2, h); double c = B(big, 0) / h, s = B(big, 1) / h; v_(0, 0) = c; v_(1, 0) = s; v_(0, 1) = -s; v_(1, 1) = c; s_[0] = 1.0;
    for (int i = 0; i < B.rows(); i++) if (i != big) { double det = B(big, 0) * B(i, 1) - B(big, 1) * B(i, 0); if (!(det == 0.0)) s_[1] = 0.5; } return *this; } }; }
// --- contract of the QP solver: solution satisfying the Karush-Kuhn-Tucker conditions of the data it holds
struct Call { Mat H, C; Vec g, c, y, u; }; static std::vector<Call> calls; static bool fail_next; static int tag;
template <typename T> static Mat dense(const T& a) { Mat m(a.rows(), a.cols()); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) m(i, j) = a(i, j); return m; }
namespace rt_solver { template <> bool QP::optimize() { Call k; k.H = dense(this->H_); k.C = dense(this->Ineq_mat_); k.g = Vec(dense(this->g_)); k.c = Vec(dense(this->ineq_vec_)); int n = k.g.size(), m = k.c.size(); std::string t = std::to_string(calls.size()); prove("no equality constraints are passed", this->Eq_mat_.rows() == 0);
  prove("consistent problem data", int(k.H.rows()) == n && int(k.H.cols()) == n && int(k.C.rows()) == m && (m == 0 || int(k.C.cols()) == n) && int(this->sol_.size()) == n); k.y = Vec(n); k.u = Vec(m); solver_return_ = std::numeric_limits<double>::infinity(); if (fail_next) { calls.push_back(k); return false; }
  if (!kv::symbolic()) { solver_return_ = solveQP(this->H_, this->g_, this->Eq_mat_, this->eq_vec_, this->Ineq_mat_, this->ineq_vec_, this->sol_); kv::assume(kv::truth(isOptimized())); for (int i = 0; i < n; i++) k.y[i] = this->sol_[i]; calls.push_back(k); return true; }
  for (int i = 0; i < n; i++) k.y[i] = this->sol_[i] = input("y" + t + std::to_string(i)); for (int i = 0; i < m; i++) { k.u[i] = input("u" + t + std::to_string(i)); kv::assume(kv::ge(k.u[i], 0.0)); double v = k.c[i]; for (int j = 0; j < n; j++) v = v + k.C(i, j) * k.y[j]; kv::assume(kv::le(v, 0.0)); }
  calls.push_back(k); solver_return_ = 0.0; return true; } }
struct Task { Mat E, A; Vec e, a; };
static Task task(int ne, int ni, int n, const std::string& t) { Task k; k.E = Mat(ne, n); k.A = Mat(ni, n); k.e = Vec(ne); k.a = Vec(ni); for (int j = 0; j < n; j++) { for (int i = 0; i < ne; i++) k.E(i, j) = input("E" + t + std::to_string(i) + std::to_string(j), -3, 3); for (int i = 0; i < ni; i++) k.A(i, j) = input("A" + t + std::to_string(i) + std::to_string(j), -3, 3); } for (int i = 0; i < ne; i++) k.e[i] = input("e" + t + std::to_string(i), -3, 3); for (int i = 0; i < ni; i++) k.a[i] = input("a" + t + std::to_string(i), -3, 3); return k; }
static double row(const Mat& A, const Vec& a, int i, const Vec& x) { double v = a[i]; for (int j = 0; j < x.size(); j++) v = v + A(i, j) * x[j]; return v; }
static Vec point(const HQP& h) { Vec x(h.solution().size()); for (int i = 0; i < x.size(); i++) x[i] = h.solution()[i]; return x; }
static void heads(const std::string& f, const std::string& b) { kv::under_contract(f); kv::bounded(b); kv::set_max_paths(20000); kv::set_timeouts(2000, 30000); kv::assumption("RtQPSolver::optimize replaced by its contract (feasible point with non-negative multipliers, unit rtqp); singular value decomposition replaced by an exact closed form (two columns); helper thread run synchronously"); }
static const double RELAX = 1e-6, DIAG = 1e-8;
static YAML::Node none() { return YAML::Node(); }
static void attach(HQP& h) { calls.clear(); fail_next = false; h.apply_ineq_slacks_ = true; h.is_svd_computed_ = true; h.stop_svd2problem_converter_ = false; for (int i = 0; i < 7; i++) h.prev_K_[i].resize(NV, 0);
  on_wait = [&h]() { static bool inside = false; if (inside) { h.stop_svd2problem_converter_ = true; return; } inside = true; h.doSVDComputations(); inside = false; h.stop_svd2problem_converter_ = false; }; }
// value of the quadratic model of a recorded call at y (up to nothing)
static double model(const Call& k, const Vec& y) { double v = 0.0; for (int i = 0; i < y.size(); i++) { v = v + k.g[i] * y[i]; for (int j = 0; j < y.size(); j++) v = v + 0.5 * y[i] * k.H(i, j) * y[j]; } return v; }
struct State { Vec x; std::vector<Task> done; std::vector<Vec> w; std::vector<Vec> level; };
// one task of the hierarchy: the QP it poses, the point it moves to, what it leaves unchanged
static void step(HQP& h, State& S, const Task& T, int dim_null, bool check_model) {
  Vec x0 = point(h); size_t before = calls.size(); for (auto& l : S.level) for (int i = 0; i < l.size(); i++) if (l[i] >= -h.inequality_relaxation_) l[i] = -h.inequality_relaxation_; int ne = T.e.size(), ni = T.a.size(); bool ok = h.solveNextTask(T.E, T.e, T.A, T.a); Vec x1 = point(h);
  if (calls.size() == before) { prove("a task may be skipped only if it is empty or no freedom is left", (ne == 0 && ni == 0) || (ni == 0 && dim_null == 0)); for (int i = 0; i < x0.size(); i++) prove_eq("a skipped task changes nothing", x1[i], x0[i]); prove("and succeeds", ok); return; }
  prove("one QP per task", calls.size() == before + 1); Call& k = calls.back(); int n = k.g.size(), dz = n - ni; prove("one slack per new inequality", dz >= 0 && dz == dim_null); if (dz != dim_null) return; prove("success is reported", ok);
  // the map z -> x is read off the code: x(z) = x0 + N z
  RtMatrix<NV, NV>::d Nm = h.contrainedEqualityMat(); prove("the null-space map has the size of the decision", int(Nm.cols()) == dz && int(Nm.rows()) == int(x0.size())); Mat N(x0.size(), dz); for (int i = 0; i < x0.size(); i++) for (int j = 0; j < dz; j++) N(i, j) = Nm(i, j);
  for (int i = 0; i < dz; i++) for (int j = 0; j <= i; j++) { double v = 0.0; for (int r = 0; r < x0.size(); r++) v = v + N(r, i) * N(r, j); prove_eq("orthonormal null-space map", v, i == j ? 1.0 : 0.0); }
  for (auto& D : S.done) for (int i = 0; i < D.e.size(); i++) for (int j = 0; j < dz; j++) { double v = 0.0; for (int r = 0; r < x0.size(); r++) v = v + D.E(i, r) * N(r, j); prove_eq("higher-priority equalities do not see the remaining freedom", v, 0.0); }
  for (int i = 0; i < x0.size(); i++) { double v = x0[i]; for (int j = 0; j < dz; j++) v = v + N(i, j) * k.y[j]; prove_eq("the point moves by the null-space step found", x1[i], v); }
  // objective: 1/2 |E x + e|^2 + 1/2 |w|^2 + 1/2 DIAG |(z,w)|^2
  if (check_model) { Vec y(n); for (int i = 0; i < n; i++) y[i] = input("probe" + std::to_string(before) + std::to_string(i)); Vec x(x0.size()); for (int i = 0; i < x.size(); i++) { x[i] = x0[i]; for (int j = 0; j < dz; j++) x[i] = x[i] + N(i, j) * y[j]; } double want = 0.0; for (int i = 0; i < ne; i++) { double v = row(T.E, T.e, i, x), v0 = row(T.E, T.e, i, x0); want = want + 0.5 * v * v - 0.5 * v0 * v0; } for (int i = 0; i < n; i++) { if (i >= dz) want = want + 0.5 * y[i] * y[i]; want = want + 0.5 * h.diag_addition_for_psd_hessian_ * y[i] * y[i]; } prove_eq("the objective is half the squared equality residual plus half the squared slack (plus the regularisation)", model(k, y), want);
    // constraints: every higher-priority inequality may not exceed what was attained (plus the relaxation), the new ones may by their slack
    int r = 0; for (size_t d = 0; d < S.done.size(); d++) for (int i = 0; i < S.done[d].a.size(); i++, r++) { prove("rows for all inequalities so far", r < k.c.size()); double now = row(S.done[d].A, S.done[d].a, i, x), was = row(S.done[d].A, S.done[d].a, i, x0), got = k.c[r]; for (int j = 0; j < n; j++) got = got + k.C(r, j) * y[j];
        double level = S.level[d][i]; prove_eq("higher-priority inequality: its change may use up what is left of its attained slack", got, now - was + level); }
    for (int i = 0; i < ni; i++, r++) { prove("rows for all inequalities so far", r < k.c.size()); double got = k.c[r]; for (int j = 0; j < n; j++) got = got + k.C(r, j) * y[j]; prove_eq("new inequality: A x + a + w <= 0", got, row(T.A, T.a, i, x) + y[dz + i]); } prove("no other rows", r == k.c.size()); }
  for (size_t d = 0; d < S.done.size(); d++) { for (int i = 0; i < S.done[d].e.size(); i++) prove_eq("attained equality residuals of higher priorities do not change", row(S.done[d].E, S.done[d].e, i, x1), row(S.done[d].E, S.done[d].e, i, x0)); }
  int r = 0; for (size_t d = 0; d < S.done.size(); d++) for (int i = 0; i < S.done[d].a.size(); i++, r++) { double lhs = k.c[r]; for (int j = 0; j < n; j++) lhs = lhs + k.C(r, j) * k.y[j]; kv::assume(kv::le(lhs, kv::symbolic() ? kv::Real(0.0) : kv::Real(1e-7))); double was = row(S.done[d].A, S.done[d].a, i, x0) + S.w[d][i], now = row(S.done[d].A, S.done[d].a, i, x1) + S.w[d][i]; double lim = h.inequality_relaxation_ * int(S.done.size()); S.level[d][i] = S.level[d][i] + now - was; prove("violations of higher-priority inequalities do not grow (beyond the relaxation)", kv::le(now, lim + (kv::symbolic() ? kv::Real(0.0) : kv::Real(1e-6)))); }
  Vec w(ni), level(ni); for (int i = 0; i < ni; i++) { w[i] = k.y[dz + i]; level[i] = row(T.A, T.a, i, x1) + w[i]; prove("new inequality holds up to its slack", kv::le(row(T.A, T.a, i, x1) + w[i], 1e-6)); } S.done.push_back(T); S.w.push_back(w); S.level.push_back(level); }
static void chain(std::vector<std::pair<int, int>> shape, bool generic) {
  HQP h(none()); attach(h); h.reset(NV); State S; int null = NV; for (size_t t = 0; t < shape.size(); t++) { Task T = task(shape[t].first, shape[t].second, NV, std::to_string(t)); if (generic) for (int i = 0; i < shape[t].first; i++) kv::assume(kv::gt(T.E(i, 0) * T.E(i, 0) + T.E(i, 1) * T.E(i, 1), 1e-2)); step(h, S, T, null, true); null = h.nullspaceDimension(); } }
KV_CASE(one_task) { heads("RtHQPSolver::reset/solveNextTask", "2 variables; one task of 0..2 equalities and 0..2 inequalities"); chain({{kv::choice("equalities", 3), kv::choice("inequalities", 3)}}, true); }
KV_CASE(two_tasks) { heads("RtHQPSolver::solveNextTask", "2 variables; two tasks of 0..1 equalities and 0..1 inequalities each, all values"); int k = kv::choice("shape", 16); chain({{k & 1, k >> 1 & 1}, {k >> 2 & 1, k >> 3}}, true); }
KV_CASE(degenerate_equality) { heads("RtHQPSolver::solveNextTask", "2 variables; an equality without variables, two parallel equalities, two independent ones, then another task"); HQP h(none()); attach(h); h.reset(NV); State S; int k = kv::choice("kind", 3); Task T = task(k ? 2 : 1, 0, NV, "0"); if (k == 0) T.E.setZero(); else kv::assume(kv::gt(T.E(0, 0) * T.E(0, 0), 1e-2)); if (k == 1) { double f = input("factor"); for (int j = 0; j < NV; j++) T.E(1, j) = f * T.E(0, j); } if (k == 2) { T.E << 1.0, input("b"), 0.0, 2.0; } step(h, S, T, 2, false); prove("freedom left", int(h.nullspaceDimension()) == (k == 0 ? 2 : k == 1 ? 1 : 0)); Task U = task(1, kv::choice("inequality", 2), NV, "1"); step(h, S, U, h.nullspaceDimension(), false); }
KV_CASE(three_tasks) { heads("RtHQPSolver::solveNextTask", "2 variables; three tasks, shapes listed in the harness, all values"); static const std::vector<std::vector<std::pair<int, int>>> L = {{{1, 0}, {0, 1}, {1, 0}}, {{0, 1}, {0, 1}, {0, 1}}, {{0, 1}, {1, 0}, {0, 1}}, {{1, 0}, {1, 0}, {0, 1}}, {{0, 0}, {0, 1}, {1, 1}}, {{0, 1}, {1, 1}, {1, 0}}}; chain(L[kv::choice("shape", L.size())], true); }
KV_CASE(failure) { heads("RtHQPSolver::solveNextTask", "2 variables; a QP that fails, with and without inequalities"); HQP h(none()); attach(h); h.reset(NV); Task T = task(1, kv::choice("inequality", 2), NV, "0"); fail_next = true; Vec x0 = point(h); bool ok = h.solveNextTask(T.E, T.e, T.A, T.a); prove("failure is reported", !ok); Vec x1 = point(h); for (int i = 0; i < NV; i++) prove_eq("and nothing moves", x1[i], x0[i]); }
KV_CASE(reset) { heads("RtHQPSolver::reset", "2 variables; a second hierarchy after a first one"); HQP h(none()); attach(h); h.reset(NV); { State S; Task T = task(1, 1, NV, "0"); kv::assume(kv::gt(T.E(0, 0) * T.E(0, 0) + T.E(0, 1) * T.E(0, 1), 1e-2)); step(h, S, T, NV, false); } h.reset(NV); State S; Task T = task(1, 1, NV, "1"); for (int i = 0; i < NV; i++) prove_eq("starts at zero", point(h)[i], 0.0); step(h, S, T, NV, true); }
// --- the model in front of it
typedef RtModel<MI, ME, NV> Model; using solver::LinExpr;
struct Con { int rank, sense; double v[NV], c; };   // sense 0: =, 1: <, 2: >; the row is sign * (v x + c)
static Con add(Model& m, const std::string& t, int rank, int sense, int layout, bool positive = false) { Con k; k.rank = rank; k.sense = sense; double a = input("p" + t, -3, 3), b = input("q" + t, -3, 3), c = input("r" + t, -3, 3), d = input("s" + t, -3, 3); if (positive) { kv::assume(kv::gt(a, 0.2)); kv::assume(kv::gt(b, 0.2)); } const char* S[] = {"=", "<", ">"}; LinExpr x(m.getVar(0), a), y(m.getVar(1), b), l, r;
  k.v[0] = a; k.v[1] = b; k.c = c;
  if (layout == 0) { l = x + y + c; r = LinExpr(0.0); } else if (layout == 1) { l = x + c; r = LinExpr(d) - y; k.c = c - d; } else if (layout == 2) { l = y + x + y; k.v[1] = b * 2.0; r = LinExpr(d); k.c = -d; } else if (layout == 3) { l = LinExpr(c); r = x; k.v[0] = -a; k.v[1] = 0.0; } else { l = x; r = LinExpr(d); k.v[1] = 0.0; k.c = -d; }
  m.addLinConstr(l, S[sense], r, rank); if (sense == 2) { for (int j = 0; j < NV; j++) k.v[j] = -k.v[j]; k.c = -k.c; } kv::assume(kv::gt(k.v[0] * k.v[0] + k.v[1] * k.v[1], 1e-2)); return k; }
// the QP of one rank posed at x0 with the null-space map N: rows of that rank and of higher ranks
static void posed(const Call& k, const std::vector<Con>& cs, int rank, const Vec& x0, const Mat& N, const std::string& t) {
  int dz = N.cols(), ni = 0, prior = 0; for (auto& c : cs) if (c.sense) { if (c.rank == rank) ni++; if (c.rank < rank) prior++; } int n = dz + ni; prove("variables: remaining freedom and one slack per inequality of the rank", int(k.g.size()) == n); prove("rows: inequalities so far", int(k.c.size()) == prior + ni); if (int(k.g.size()) != n || int(k.c.size()) != prior + ni) return;
  Vec y(n); for (int i = 0; i < n; i++) y[i] = input("probe" + t + std::to_string(i)); Vec x(NV); for (int i = 0; i < NV; i++) { x[i] = x0[i]; for (int j = 0; j < dz; j++) x[i] = x[i] + N(i, j) * y[j]; } auto at = [&](const Con& c, const Vec& p) { return c.v[0] * p[0] + c.v[1] * p[1] + c.c; };
  double want = 0.0; for (int i = 0; i < n; i++) { if (i >= dz) want = want + 0.5 * y[i] * y[i]; want = want + 0.5e-8 * y[i] * y[i]; } for (auto& c : cs) if (c.sense == 0 && c.rank == rank) want = want + 0.5 * at(c, x) * at(c, x) - 0.5 * at(c, x0) * at(c, x0); prove_eq("the objective is that of the equalities of the rank and the slacks", model(k, y), want);
  int r = prior, s = dz; for (auto& c : cs) if (c.sense && c.rank == rank) { double got = k.c[r]; for (int j = 0; j < n; j++) got = got + k.C(r, j) * y[j]; prove_eq("inequalities keep their sense and order", got, at(c, x) + y[s]); r++; s++; } }
KV_CASE(model_one_rank) { heads("RtModel::addLinConstr, addCostsToHierarchy, solve", "2 variables; two constraints of every pair of senses, five ways of writing them, one rank"); Model m(none()); attach(m.hqp_solver_); m.clean(); std::vector<Con> cs; int k = kv::choice("layout", 5); for (int i = 0; i < 2; i++) cs.push_back(add(m, std::to_string(i), 0, kv::choice("sense" + std::to_string(i), 3), i ? (k + 1) % 5 : k)); bool ok = m.solve(); prove("solved", ok); prove("one rank, one problem", calls.size() == 1); if (calls.size() != 1) return; Vec x0(NV); x0.setZero(); posed(calls[0], cs, 0, x0, Mat::Identity(NV, NV), "0"); for (int i = 0; i < NV; i++) prove_eq("the solution is that of the QP", m.hqp_solver_.solution()[i], calls[0].y[i]); }
KV_CASE(model_ranks) { heads("RtModel::addLinConstr, checkIfHigherRanksLeft, addCostsToHierarchy, solve", "2 variables; three constraints over ranks 0..2 in any order of addition, senses listed, positive coefficients"); Model m(none()); attach(m.hqp_solver_); m.clean(); static const int R[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 0}, {0, 2, 2}, {1, 2, 1}}, Q[][3] = {{1, 2, 0}, {2, 2, 1}, {0, 1, 2}}; int r = kv::choice("ranks", 5), q = kv::choice("senses", 3); std::vector<Con> cs; for (int i = 0; i < 3; i++) cs.push_back(add(m, std::to_string(i), R[r][i], Q[q][i], i, true)); bool ok = m.solve(); prove("solved", ok);
  bool eq = false; std::vector<int> ranks; for (int k = 0; k < 3; k++) for (auto& c : cs) if (c.rank == k) { ranks.push_back(k); break; } prove("one problem per rank that has constraints", calls.size() == ranks.size()); if (calls.size() != ranks.size()) return; Vec x0(NV); x0.setZero(); Mat N = Mat::Identity(NV, NV);
  for (size_t k = 0; k < ranks.size(); k++) { for (auto& c : cs) if (k && c.rank < ranks[k] && c.sense == 0) eq = true; if (eq) break; posed(calls[k], cs, ranks[k], x0, N, std::to_string(k)); for (int i = 0; i < NV; i++) x0[i] = x0[i] + calls[k].y[i]; } if (!eq) for (int i = 0; i < NV; i++) prove_eq("the solution accumulates the steps", m.hqp_solver_.solution()[i], x0[i]); }
KV_CASE(model_again) { heads("RtModel::clean, solve", "2 variables; a second problem after a first one"); Model m(none()); attach(m.hqp_solver_); std::vector<Con> cs; add(m, "0", 0, kv::choice("sense0", 3), 0); m.solve(); m.clean(); calls.clear(); cs.push_back(add(m, "1", 0, kv::choice("sense1", 3), 1)); bool ok = m.solve(); prove("solved", ok); prove("one problem", calls.size() == 1); if (calls.size() != 1) return; Vec x0(NV); x0.setZero(); posed(calls[0], cs, 0, x0, Mat::Identity(NV, NV), "0"); }
KV_CASE(model_senses) { heads("RtModel::addLinConstr", "unknown sense"); Model m(none()); attach(m.hqp_solver_); bool thrown = false; try { m.addLinConstr(LinExpr(m.getVar(0)), "~", LinExpr(1.0), 0); } catch (...) { thrown = true; } prove("an unknown sense is rejected", thrown); }
KV_CASE(model_failure) { heads("RtModel::solve", "a QP that fails"); Model m(none()); attach(m.hqp_solver_); add(m, "0", 0, 1, 0); add(m, "1", 1, 0, 0); fail_next = true; bool ok = m.solve(); prove("failure is reported", !ok && !m.is_solution_valid_); prove("and lower priorities are not tried", calls.size() == 1); }
KV_CASE(reduce_columns) { heads("RtModel::reduceColumns", "4 variables, every pattern of removed variables"); const int n = 4; RtModel<MI, ME, n> m(none()); int keep = kv::choice("kept", 1 << n); std::vector<int> k; for (int i = 0; i < n; i++) { m.full_to_opt_variable_index_[i] = keep >> i & 1 ? int(k.size()) : -1; if (keep >> i & 1) k.push_back(i); } RtMatrix<MI, n>::d a; a.resize(2, n); for (int i = 0; i < 2; i++) for (int j = 0; j < n; j++) a(i, j) = input("A" + std::to_string(i) + std::to_string(j)); RtMatrix<MI, n>::d a0 = a; m.reduceColumns(a); prove("one column per kept variable", int(a.cols()) == int(k.size()) && int(a.rows()) == 2); for (size_t c = 0; c < k.size() && int(c) < a.cols(); c++) for (int i = 0; i < 2; i++) prove_eq("kept columns in order", a(i, c), a0(i, k[c])); }
KV_CASE(rows_of_rank) { heads("RtModel::appendRowsOfRank", "0..1 existing rows, up to 3 rows of two ranks, 1..2 columns at every start"); Model m(none()); bool eq = kv::choice("equalities", 2); int ncol = 1 + kv::choice("columns", NV), start = kv::choice("start", NV - ncol + 1), old = kv::choice("old", 2), mask = kv::choice("mask", 4); m.nextEqCostMat().resize(eq ? old : 0, NV); m.nextEqCostVec().resize(eq ? old : 0); m.nextIneqCostMat().resize(eq ? 0 : old, NV); m.nextIneqCostVec().resize(eq ? 0 : old); auto val = [&](int i, int j) { if (eq) return j < NV ? m.nextEqCostMat()(i, j) : m.nextEqCostVec()(i); return j < NV ? m.nextIneqCostMat()(i, j) : m.nextIneqCostVec()(i); };
  for (int i = 0; i < old; i++) for (int j = 0; j <= NV; j++) { double v = input("o" + std::to_string(j)); if (eq) { if (j < NV) m.nextEqCostMat()(i, j) = v; else m.nextEqCostVec()(i) = v; } else { if (j < NV) m.nextIneqCostMat()(i, j) = v; else m.nextIneqCostVec()(i) = v; } }
  int rows = 2; if (old == 0 && !eq) rows = 3; RtVector<MI>::i ranks; ranks.resize(rows); std::vector<int> sel; Mat S(rows, ncol); Vec sv(rows); for (int i = 0; i < rows; i++) { ranks[i] = mask >> (i % 2) & 1 ? 1 : 0; if (eq && old && i == 1) ranks[i] = 0; if (ranks[i] == 1) sel.push_back(i); sv[i] = input("v" + std::to_string(i)); for (int j = 0; j < ncol; j++) S(i, j) = input("S" + std::to_string(i) + std::to_string(j)); }
  m.appendRowsOfRank<MI>(1, ranks, S, sv, eq, start); int total = eq ? m.nextEqCostMat().rows() : m.nextIneqCostMat().rows(); prove("the rows of the rank are added", total == old + int(sel.size()) && (eq ? m.nextIneqCostMat().rows() : m.nextEqCostMat().rows()) == 0); if (total != old + int(sel.size())) return; for (int i = 0; i < old; i++) for (int j = 0; j <= NV; j++) prove_eq("existing rows are kept", val(i, j), input("o" + std::to_string(j))); for (size_t k = 0; k < sel.size(); k++) { for (int j = 0; j < NV; j++) { double w = 0.0; if (j >= start && j < start + ncol) w = S(sel[k], j - start); prove_eq("in order, at the starting column", val(old + k, j), w); } prove_eq("with their offsets", val(old + k, NV), sv[sel[k]]); } }
