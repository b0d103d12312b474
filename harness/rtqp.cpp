// Contracts of the real-time active-set QP solver: minimise 1/2 x'Hx + g'x subject to CE x + ce = 0, CI x + ci <= 0.
#include "kvh.hpp"
#include <solver/rt_optimizer/RtQPSolver.hpp>
#include <unistd.h>
using namespace rt_solver; using kv::input; using kv::prove_eq; using kv::prove; using kv::Prop; using kv::pand; using kv::por;
typedef Eigen::MatrixXd Mat; typedef Eigen::VectorXd Vec;
static void heads(const std::string& f, const std::string& b) { kv::under_contract(f); kv::bounded(b); kv::set_max_paths(20000); kv::set_timeouts(2000, 30000); }
static const int N = 3, P = 2, MI = 3; typedef RtQPSolver<N, P, MI> S;
template <typename T> static void fill(T& m, int r, int c, const std::string& t) { m.resize(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = input(t + std::to_string(i) + "," + std::to_string(j), -3, 3); }
template <typename T> static void fillv(T& m, int r, const std::string& t) { m.resize(r); for (int i = 0; i < r; i++) m(i) = input(t + std::to_string(i), -3, 3); }
// --- the factor updates
KV_CASE(distance) { heads("RtQPSolver::distance", "all arguments"); S s; double a = input("a"), b = input("b"), h = s.distance(a, b); prove("non-negative", kv::ge(h, 0.0)); prove_eq("h^2 = a^2 + b^2", h * h, a * a + b * b); }
static Mat gram(const RtMatrix<N, N>::d& J, int n) { Mat G(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double v = 0.0; for (int k = 0; k < n; k++) v = v + J(i, k) * J(j, k); G(i, j) = v; } return G; }
static Vec times(const RtMatrix<N, N>::d& J, const Vec& d, int n) { Vec g(n); for (int i = 0; i < n; i++) { double v = 0.0; for (int k = 0; k < n; k++) v = v + J(i, k) * d(k); g(i) = v; } return g; }
// a pair of entries of integer length with every sign and zero pattern
static void pythagorean(double& a, double& b) { int k = kv::choice("first pair", 7); const int A[] = {3, 3, -3, -3, 0, 4, 0}, B[] = {4, -4, 4, -4, -3, 0, 0}; a = A[k]; b = B[k]; }
// whatever J, d and the number of active constraints: J J' and J d are kept, d is reduced to its first iq+1 entries, which become a column of R
static void add(int n) {
  S s; int iq = kv::choice("iq", n); RtMatrix<N, N>::d R, J; RtVector<N>::d d; R.resize(n, n); R.setZero(); for (int j = 0; j < iq; j++) for (int i = 0; i <= j; i++) R(i, j) = input("R" + std::to_string(i) + std::to_string(j)); fill(J, n, n, "J"); fillv(d, n, "d"); if (n - iq > 2) { pythagorean(d(n - 2), d(n - 1)); } RtMatrix<N, N>::d R0 = R, J0 = J; Vec d0 = d; double norm = input("norm", 0.1, 2), norm0 = norm; kv::assume(kv::gt(norm, 0.0));
  int iq0 = iq; bool ok = s.addConstraint(R, J, d, iq, norm); prove("one more constraint", iq == iq0 + 1); Mat G = gram(J, n), G0 = gram(J0, n); Vec p = times(J, d, n), p0 = times(J0, d0, n);
  for (int i = 0; i < n; i++) { prove_eq("J d is kept", p(i), p0(i)); for (int j = 0; j <= i; j++) prove_eq("J J' is kept", G(i, j), G0(i, j)); }
  for (int i = iq; i < n; i++) prove_eq("d is reduced", d(i), 0.0); for (int i = 0; i < iq0; i++) { prove_eq("leading entries of d are kept", d(i), d0(i)); for (int j = 0; j < n; j++) prove_eq("leading columns of J are kept", J(j, i), J0(j, i)); }
  for (int j = 0; j < iq0; j++) for (int i = 0; i < iq0; i++) prove_eq("earlier columns of R are kept", R(i, j), R0(i, j)); for (int i = 0; i < iq; i++) prove_eq("the new column of R is d", R(i, iq - 1), d(i));
  if (!ok) prove("degenerate only if the pivot is negligible", pand(kv::le(d(iq - 1), 1e-12 * norm0), kv::ge(d(iq - 1), -1e-12 * norm0))); else { prove("pivot is not zero", kv::gt(d(iq - 1) * d(iq - 1), 0.0)); prove("the norm estimate covers the pivot", pand(kv::ge(norm, norm0), pand(kv::ge(norm, d(iq - 1)), kv::ge(norm, -d(iq - 1))))); } }
KV_CASE(add_2) { heads("RtQPSolver::addConstraint", "1..2 variables, every number of active constraints, all values"); add(1 + kv::choice("n", 2)); }
KV_CASE(add_3) { heads("RtQPSolver::addConstraint", "3 variables, every number of active constraints, all values (where two rotations follow each other, the first is by one of the listed Pythagorean angles)"); add(3); }
static void del(int n, int p, int iq, int q) {
  S s; RtMatrix<N, N>::d R, J; R.resize(n, n); R.setZero(); for (int j = 0; j < iq; j++) for (int i = 0; i <= j; i++) { R(i, j) = input("R" + std::to_string(i) + std::to_string(j)); if (i == j) kv::assume(kv::gt(R(i, j) * R(i, j), 0.0)); } if (iq - q > 2) { int k = kv::choice("first pair", 4); R(q, q + 1) = k & 1 ? 3.0 : -3.0; R(q + 1, q + 1) = k & 2 ? 4.0 : -4.0; } fill(J, n, n, "J"); RtVector<P + MI>::i A; RtVector<P + MI>::d u; A.resize(P + MI); u.resize(P + MI); for (int i = 0; i < P + MI; i++) { A(i) = i < p ? -i - 1 : 10 + i; u(i) = input("u" + std::to_string(i)); }
  RtMatrix<N, N>::d R0 = R, J0 = J; RtVector<P + MI>::i A0 = A; RtVector<P + MI>::d u0 = u; int iq1 = iq; s.deleteConstraint(R, J, A, u, p, iq1, A0(q)); prove("one constraint less", iq1 == iq - 1); Mat G = gram(J, n), G0 = gram(J0, n);
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) prove_eq("J J' is kept", G(i, j), G0(i, j));
  for (int j = 0; j < iq1; j++) { int o = j < q ? j : j + 1; prove("the other constraints stay, in order", A(j) == A0(o)); prove_eq("with their multipliers", u(j), u0(o)); for (int i = j + 1; i < n; i++) prove_eq("R is upper triangular", R(i, j), 0.0);
    for (int i = 0; i < n; i++) { double a = 0.0, b = 0.0; for (int k = 0; k <= j; k++) a = a + J(i, k) * R(k, j); for (int k = 0; k <= o; k++) b = b + J0(i, k) * R0(k, o); prove_eq("the columns J R are those of the remaining constraints", a, b); } }
  prove("the constraint being added moves up", A(iq1) == A0(iq)); prove_eq("with its multiplier", u(iq1), u0(iq)); }
KV_CASE(delete_constraint) { heads("RtQPSolver::deleteConstraint", "1..3 variables, every number of active constraints with and without an equality, every constraint removed, all values (where two rotations follow each other, the first is by one of the listed Pythagorean angles)"); int n = 1 + kv::choice("n", 3), iq = 1 + kv::choice("iq", n), p = kv::choice("equality", 2); if (p >= iq) p = 0; del(n, p, iq, p + kv::choice("which", iq - p)); }
KV_CASE(directions) { heads("RtQPSolver::computeD/updateZ/updateR", "1..3 variables, every number of active constraints"); S s; int n = 1 + kv::choice("n", 3), iq = kv::choice("iq", n); RtMatrix<N, N>::d R, J; R.resize(n, n); R.setZero(); for (int j = 0; j < iq; j++) for (int i = 0; i <= j; i++) { R(i, j) = input("R" + std::to_string(i) + std::to_string(j)); if (i == j) kv::assume(kv::gt(R(i, j) * R(i, j), 0.0)); } fill(J, n, n, "J"); RtVector<N>::d np, d, z; fillv(np, n, "n"); d.resize(n); z.resize(n); RtVector<P + MI>::d r; r.resize(P + MI);
  s.computeD(d, J, np); s.updateZ(z, J, d, iq); s.updateR(R, r, d, iq); for (int i = 0; i < n; i++) { double v = 0.0; for (int k = 0; k < n; k++) v = v + J(k, i) * np(k); prove_eq("d = J' n", d(i), v); } for (int i = 0; i < n; i++) { double v = 0.0; for (int k = iq; k < n; k++) v = v + J(i, k) * d(k); prove_eq("z = J2 d2", z(i), v); } for (int i = 0; i < iq; i++) { double v = 0.0; for (int k = i; k < iq; k++) v = v + R(i, k) * r(k); prove_eq("R r = d1", v, d(i)); } }
// --- whole solves: on every path the answer is the KKT point of some active set with non-negative multipliers
struct Prob { int n, p, m; Mat H, CE, CI; Vec g, ce, ci, x; bool ok; };
static void run(Prob& q, S& s) { static_cast<RtQPSolverInterface<N, P, MI>&>(s).reset(q.n, q.p, q.m); s.objectiveQuadPart() = q.H; s.objectiveLinPart() = q.g; if (q.p) s.appendEqualities(q.CE, q.ce); if (q.m) s.appendInequalities(q.CI, q.ci); bool r = s.optimize(); q.ok = s.isOptimized(); prove("both answers agree", r == q.ok); q.x = s.solution(); }
static double rowv(const Mat& A, int i, const Vec& x) { double v = 0.0; for (int j = 0; j < x.size(); j++) v = v + A(i, j) * x(j); return v; }
static double trace_product(const Prob& q) { if (q.n == 1) return q.H(0, 0) / std::sqrt(q.H(0, 0)); return 20.0; }
// solve M y = b by Cramer's rule (sizes up to 3)
static double det(const Mat& M) { int n = M.rows(); if (n == 0) return 1.0; if (n == 1) return M(0, 0); double v = 0.0; for (int j = 0; j < n; j++) { Mat S(n - 1, n - 1); for (int i = 1; i < n; i++) for (int k = 0, c = 0; k < n; k++) if (k != j) S(i - 1, c++) = M(i, k); if (j % 2) v = v - M(0, j) * det(S); else v = v + M(0, j) * det(S); } return v; }
static void kkt(const Prob& q, double tol) {
  for (int i = 0; i < q.p; i++) prove_eq("equality holds", rowv(q.CE, i, q.x) + q.ce(i), 0.0);
  for (int i = 0; i < q.m; i++) prove("inequality holds (to the documented tolerance)", kv::le(rowv(q.CI, i, q.x) + q.ci(i), tol));
  Prop any = kv::truth(false);
  for (int S = 0; S < 1 << q.m; S++) { std::vector<int> a; for (int i = 0; i < q.m; i++) if (S >> i & 1) a.push_back(i); int k = q.p + a.size(); if (k > q.n) continue;
    // KKT system [H C'; C 0] (x, u) = (-g, -c)
    int t = q.n + k; Mat K(t, t); K.setZero(); Vec b(t); for (int i = 0; i < q.n; i++) { b(i) = -q.g(i); for (int j = 0; j < q.n; j++) K(i, j) = q.H(i, j); } for (int r = 0; r < k; r++) { for (int j = 0; j < q.n; j++) { double c = r < q.p ? q.CE(r, j) : q.CI(a[r - q.p], j); K(q.n + r, j) = c; K(j, q.n + r) = c; } b(q.n + r) = r < q.p ? -q.ce(r) : -q.ci(a[r - q.p]); }
    double D = det(K); Prop all = kv::gt(D * D, 0.0); for (int i = 0; i < t; i++) { Mat C = K; for (int j = 0; j < t; j++) C(j, i) = b(j); if (i < q.n) all = pand(all, kv::eq(D * q.x(i), det(C))); else if (i >= q.n + q.p) all = pand(all, kv::ge(D * det(C), 0.0)); }
    any = por(any, all); }
  prove("the answer is the KKT point of a set of constraints with non-negative multipliers", any); }
static Prob problem(int n, int p, int m) { Prob q; q.n = n; q.p = p; q.m = m; fillv(q.g, n, "g"); fill(q.CE, p, n, "E"); fillv(q.ce, p, "e"); fill(q.CI, m, n, "C"); fillv(q.ci, m, "c"); q.H = Mat(n, n); return q; }
static void normal(Prob& q) { for (int i = 0; i < q.m; i++) { double v = 0.0; for (int j = 0; j < q.n; j++) v = v + q.CI(i, j) * q.CI(i, j); kv::assume(kv::gt(v, 1e-3)); } for (int i = 0; i < q.p; i++) { double v = 0.0; for (int j = 0; j < q.n; j++) v = v + q.CE(i, j) * q.CE(i, j); kv::assume(kv::gt(v, 1e-3)); } }
KV_CASE(scalar) { heads("RtQPSolver::optimize/solveQP", "1 variable, 0..3 inequalities, constraint coefficients of magnitude one with either sign, all other values"); Prob q = problem(1, 0, kv::choice("m", 4)); double l = input("l", 0.5, 2); kv::assume(pand(kv::gt(l, 1e-2), kv::lt(l, 1e2))); q.H(0, 0) = l * l; for (int i = 0; i < q.m; i++) { q.CI(i, 0) = 1.0; if (kv::choice("sign" + std::to_string(i), 2)) q.CI(i, 0) = -1.0; } S s; run(q, s);
  double lo = -1e6, hi = 1e6; if (q.ok) kkt(q, 1e-8); else { Prop clash = kv::truth(false); for (int i = 0; i < q.m; i++) for (int j = 0; j < i; j++) clash = por(clash, kv::gt(q.ci(i) + q.ci(j), 0.0)); prove("failure is reported only if no point satisfies the constraints", clash); } }
// two variables, a numeric Hessian with rational factor; coefficients of the constraints from a list of directions (including parallel and opposite ones), everything else symbolic
static void direction(Mat& A, int i, const std::string& t, bool identity) { const int X[] = {1, 0, -1, 3, -3, 4}, Y[] = {0, 1, 0, 4, -4, -3}; int k = kv::choice(t, 6); A(i, 0) = double(identity ? X[k] : 2 * X[k]); A(i, 1) = double(identity ? Y[k] : X[k] + 2 * Y[k]); }
static void planar(int p, int m, bool identity) { Prob q = problem(2, p, m); q.H << 4.0, 2.0, 2.0, 5.0; if (identity) q.H << 1.0, 0.0, 0.0, 1.0; for (int i = 0; i < p; i++) direction(q.CE, i, "equality " + std::to_string(i), identity); for (int i = 0; i < m; i++) direction(q.CI, i, "inequality " + std::to_string(i), identity);
  if (p == 2) { double d = q.CE(0, 0) * q.CE(1, 1) - q.CE(0, 1) * q.CE(1, 0); kv::assume(kv::gt(d * d, 0.5)); } S s; run(q, s); if (q.ok) { kkt(q, 1e-8); return; }
  // infeasible only if some non-negative combination of the constraints is a contradiction: all constraints have a common direction here
  Prop clash = kv::truth(false); for (int i = 0; i < m; i++) { for (int j = 0; j < i; j++) { double l = q.CI(i, 0) * q.CI(j, 1) - q.CI(i, 1) * q.CI(j, 0); double a = std::abs(q.CI(i, 0)) + std::abs(q.CI(i, 1)), b = std::abs(q.CI(j, 0)) + std::abs(q.CI(j, 1)); clash = por(clash, pand(pand(kv::eq(l, 0.0), kv::lt(q.CI(i, 0) * q.CI(j, 0) + q.CI(i, 1) * q.CI(j, 1), 0.0)), kv::gt(b * q.ci(i) + a * q.ci(j), 0.0))); }
    for (int e = 0; e < p; e++) { double l = q.CI(i, 0) * q.CE(e, 1) - q.CI(i, 1) * q.CE(e, 0); double c = q.CI(i, 0) * q.CE(e, 0) + q.CI(i, 1) * q.CE(e, 1), ee = q.CE(e, 0) * q.CE(e, 0) + q.CE(e, 1) * q.CE(e, 1); clash = por(clash, pand(kv::eq(l, 0.0), kv::gt(ee * q.ci(i) - c * q.ce(e), 0.0))); } }
  if (p + m <= 2) prove("failure is reported only if no point satisfies the constraints", clash); }
KV_CASE(planar_1) { heads("RtQPSolver::optimize/solveQP", "2 variables, two numeric Hessians, up to one inequality from the listed directions; linear cost and offsets symbolic"); planar(0, kv::choice("m", 2), kv::choice("identity", 2)); }
KV_CASE(planar_2) { heads("RtQPSolver::optimize/solveQP", "2 variables, numeric Hessian, two inequalities from the listed directions; linear cost and offsets symbolic"); planar(0, 2, false); }
KV_CASE(planar_2_identity) { heads("RtQPSolver::optimize/solveQP", "2 variables, numeric Hessian, two inequalities from the listed directions; linear cost and offsets symbolic"); planar(0, 2, true); }
KV_CASE(planar_equality) { heads("RtQPSolver::optimize/solveQP", "2 variables, numeric Hessian, 1..2 equalities and up to one inequality from the listed directions; linear cost and offsets symbolic"); int p = 1 + kv::choice("p", 2); planar(p, p == 2 ? 0 : kv::choice("m", 2), kv::choice("identity", 2)); }
// a constraint that is negligible beside an active one cannot be added: the active set is put back as it was, the other constraints are still treated
KV_CASE(degenerate) { heads("RtQPSolver::solveQP (a constraint that cannot be added)", "2 variables, an equality or an active inequality of length 1e10 and a violated inequality of length 1e-6, with and without a further inequality; offsets symbolic"); bool eq = kv::choice("first is an equality", 2), more = kv::choice("further inequality", 2); int p = eq, m = (eq ? 0 : 1) + 1 + more; Prob q; q.n = 2; q.p = p; q.m = m; q.H = Mat(2, 2); q.H << 1.0, 0.0, 0.0, 1.0; q.g = Vec(2); q.g << 0.0, 0.0; q.CE = Mat(p, 2); q.ce = Vec(p); q.CI = Mat(m, 2); q.ci = Vec(m);
  double a = input("a", 0.5, 2), b = input("b", 0.5, 2), c = input("c", 0.5, 2); kv::assume(pand(kv::ge(a, 0.5), kv::le(a, 2.0))); kv::assume(pand(kv::ge(b, 0.5), kv::le(b, 2.0))); kv::assume(pand(kv::ge(c, 0.5), kv::le(c, 2.0)));
  int r = 0; if (eq) { q.CE << 1e10, 0.0; q.ce << 1e10 * a; } else { q.CI.row(r) << 1e10, 0.0; q.ci(r++) = 1e10 * a; } q.CI.row(r) << 0.0, 1e-6; q.ci(r++) = 1e-6 * b; if (more) { q.CI.row(r) << 0.0, 1e-5; q.ci(r++) = 1e-5 * c; }
  alarm(60); S s; run(q, s); alarm(0); prove_eq("the first constraint holds", q.x(0), -a); if (more) prove_eq("a constraint that can be added is added", q.x(1), -c); else prove_eq("the constraint is left out", q.x(1), 0.0); }
// three constraints of which one is dropped by a partial step and needed again for most offsets
KV_CASE(planar_3) { heads("RtQPSolver::optimize/solveQP (a dropped constraint is taken up again)", "2 variables, unit Hessian, three triples of inequalities with the linear cost for which one has to be dropped and added again; offsets symbolic"); const int T[3][6] = {{-4, -3, 1, 0, 3, 4}, {-4, 3, 0, 1, 3, -4}, {-3, -4, 4, 3, 0, 1}}, G[3][2] = {{-3, -3}, {1, -1}, {1, -2}}; int k = kv::choice("triple", 3); Prob q = problem(2, 0, 3); q.H << 1.0, 0.0, 0.0, 1.0; for (int i = 0; i < 2; i++) q.g(i) = G[k][i]; for (int i = 0; i < 6; i++) q.CI(i / 2, i % 2) = T[k][i]; alarm(300); S s; run(q, s); alarm(0); if (q.ok) kkt(q, 1e-8); }
