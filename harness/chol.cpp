// Contracts of the sparse LDL' factorisation (public API only).
#include "kvh.hpp"
#include <solver/optimizer/SparseCholesky.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static int popcount(unsigned m) { int c = 0; for (; m; m >>= 1) c += m & 1; return c; }
struct Sys { int n; unsigned pattern; Mat A; Vec sign; };
static Mat symmetric(int n, unsigned pattern, const std::string& tag, unsigned missing_diag = 0) {
  Mat A(n, n); A.setZero(); int bit = 0;
  for (int j = 0; j < n; j++) { for (int i = 0; i < j; i++, bit++) if (pattern >> bit & 1) { A(i, j) = input(tag + std::to_string(i) + std::to_string(j), -0.5, 0.5); A(j, i) = A(i, j); } if (!(missing_diag >> j & 1)) A(j, j) = input(tag + std::to_string(j) + std::to_string(j), 1, 3); }
  return A;
}
static Eigen::SparseMatrix<double> upper(int n, unsigned pattern, const Mat& A, unsigned missing_diag = 0) {
  std::vector<Eigen::Triplet<double>> t; int bit = 0;
  for (int j = 0; j < n; j++) { for (int i = 0; i < j; i++, bit++) if (pattern >> bit & 1) t.push_back(Eigen::Triplet<double>(i, j, A(i, j))); if (!(missing_diag >> j & 1)) t.push_back(Eigen::Triplet<double>(j, j, A(j, j))); }
  Eigen::SparseMatrix<double> S(n, n); S.setFromTriplets(t.begin(), t.end()); S.makeCompressed(); return S;
}
// dense LDL' (the definition); replace: apply the documented pivot replacement
static void ldl(const Mat& A, const Vec& sign, double eps, double delta, bool replace, Mat& L, Vec& D) {
  int n = A.rows(); L = Mat(n, n); L.setZero(); D = Vec(n);
  for (int k = 0; k < n; k++) { L(k, k) = 1.0; D[k] = A(k, k); for (int j = 0; j < k; j++) D[k] = D[k] - L(k, j) * L(k, j) * D[j];
    if (replace) { if (sign[k] * D[k] <= eps) D[k] = sign[k] * delta; } else kv::assume(kv::gt(sign[k] * D[k], eps));
    for (int i = k + 1; i < n; i++) { double v = A(i, k); for (int j = 0; j < k; j++) v = v - L(i, j) * L(k, j) * D[j]; L(i, k) = v / D[k]; } }
}
static SolverSetting settings(double& eps, double& delta) { SolverSetting s; eps = input("eps", 1e-9, 1e-8); delta = input("delta", 1e-7, 1e-6); kv::assume(kv::gt(eps, 0.0)); kv::assume(kv::gt(delta, 0.0)); s.set(SolverDoubleParam_DynamicRegularization, delta); s.set(SolverDoubleParam_DynamicRegularizationThresh, eps); return s; }
static void heads(const std::string& b) { kv::under_contract("linalg::SparseCholesky::analyzePattern"); kv::under_contract("linalg::SparseCholesky::factorize"); kv::under_contract("linalg::SparseCholesky::solve (both overloads)"); kv::bounded(b); kv::set_max_paths(20000); kv::set_timeouts(1000, 20000); }
static Vec rhs(int n, const std::string& t) { Vec b(n); for (int i = 0; i < n; i++) b[i] = input(t + std::to_string(i)); return b; }
static void solves(linalg::SparseCholesky& c, const Mat& A, const std::string& t, const std::string& label) {
  int n = A.rows(); Vec b = rhs(n, t), b0 = b, x(n); x.setZero(); c.solve(b, x.data()); Vec r = A * x;
  for (int i = 0; i < n; i++) { prove_eq(label, r[i], b0[i]); prove_eq("the right-hand side is not changed", b[i], b0[i]); }
  Vec y = c.solve(b); for (int i = 0; i < n; i++) prove_eq("both solve functions agree", y[i], x[i]);
}
static void exact(int n, unsigned pattern, int signs) {
  double eps, delta; SolverSetting s = settings(eps, delta); Vec sign(n); for (int i = 0; i < n; i++) sign[i] = (signs >> i & 1) ? -1.0 : 1.0;
  Mat A = symmetric(n, pattern, "a"); for (int i = 0; i < n; i++) A(i, i) = sign[i] * A(i, i);
  Mat L; Vec D; ldl(A, sign, eps, delta, false, L, D); linalg::SparseCholesky c; auto S = upper(n, pattern, A); c.analyzePattern(S, s); int st = c.factorize(S, sign);
  prove("factorisation reports success", st == n); solves(c, A, "b", "A x = b");
}
KV_CASE(exact_3) { heads("all sparsity patterns and sign vectors of systems of size up to 3; all values"); int n = 1 + kv::choice("n", 3); int p = kv::choice("pattern", 1 << (n * (n - 1) / 2)), s = kv::choice("signs", 1 << n); exact(n, p, s); }
KV_CASE(exact_4) { heads("all 64 sparsity patterns of systems of size 4; all values"); int p = kv::choice("pattern", 64); exact(4, p, p % 16); }
// size 5: tree-like and banded patterns with fill-in
KV_CASE(exact_5) { heads("sparsity patterns of size 5 listed in the harness; all values"); auto bit = [](int i, int j) { return 1u << (j * (j - 1) / 2 + i); };
  const unsigned P[] = {bit(0,1)|bit(0,2)|bit(0,3)|bit(0,4), bit(0,4)|bit(1,4)|bit(2,4)|bit(3,4), bit(0,1)|bit(1,2)|bit(2,3)|bit(3,4), bit(0,2)|bit(1,3)|bit(2,4)|bit(0,3), bit(0,3)|bit(1,3)|bit(2,4)|bit(1,4), bit(0,4)|bit(1,2)|bit(2,3), bit(0,2)|bit(0,4)|bit(1,2)|bit(1,3)};
  int p = kv::choice("pattern", 7); exact(5, P[p], p * 5 % 32); }
// new values in the same pattern
KV_CASE(refactorise) { heads("refactorisation: all patterns of size 3"); int n = 3; double eps, delta; SolverSetting s = settings(eps, delta); unsigned p = kv::choice("pattern", 8); Vec sign(n); for (int i = 0; i < n; i++) sign[i] = i == 1 ? -1.0 : 1.0;
  Mat A = symmetric(n, p, "a"), B = symmetric(n, p, "c"); A(1, 1) = -A(1, 1); B(1, 1) = -B(1, 1); Mat L; Vec D; ldl(A, sign, eps, delta, false, L, D); ldl(B, sign, eps, delta, false, L, D);
  linalg::SparseCholesky c; auto S = upper(n, p, A), T = upper(n, p, B); c.analyzePattern(S, s); c.factorize(S, sign); if (kv::choice("solve between", 2)) solves(c, A, "b", "first system"); c.factorize(T, sign); solves(c, B, "d", "the new values are used"); 
  c.factorize(S, sign); solves(c, A, "e", "and the old ones again"); }
// a new pattern analysed with the same object
KV_CASE(reanalyse) { heads("two systems of size 2..3, all pattern pairs"); double eps, delta; SolverSetting s = settings(eps, delta); int n1 = 2 + kv::choice("n1", 2), n2 = 5 - n1; unsigned p1 = kv::choice("p1", n1 == 2 ? 2 : 8), p2 = kv::choice("p2", n2 == 2 ? 2 : 8); Vec s1(n1), s2(n2); s1.setConstant(1.0); s2.setConstant(-1.0);
  Mat A = symmetric(n1, p1, "a"), B = -symmetric(n2, p2, "c"), L; Vec D; ldl(A, s1, eps, delta, false, L, D); ldl(B, s2, eps, delta, false, L, D);
  linalg::SparseCholesky c; auto S = upper(n1, p1, A), T = upper(n2, p2, B); c.analyzePattern(S, s); c.factorize(S, s1); c.analyzePattern(T, s); c.factorize(T, s2); solves(c, B, "d", "the second system"); }
// pivot replacement: sign * pivot <= eps is replaced by sign * delta and nothing else is
static void regularised(int n, unsigned p, int signs, unsigned missing) {
  double eps, delta; SolverSetting s = settings(eps, delta); Vec sign(n); for (int i = 0; i < n; i++) sign[i] = (signs >> i & 1) ? -1.0 : 1.0;
  Mat A = symmetric(n, p, "a", missing), L; Vec D; ldl(A, sign, eps, delta, true, L, D); Mat M(n, n); M.setZero();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) M(i, j) = M(i, j) + L(i, k) * D[k] * L(j, k);
  for (int k = 0; k < n; k++) prove("pivots have the required sign", kv::gt(sign[k] * D[k], 0.0));
  linalg::SparseCholesky c; auto S = upper(n, p, A, missing); c.analyzePattern(S, s); c.factorize(S, sign); solves(c, M, "b", "solves the system with the replaced pivots");
}
KV_CASE(regularised_2) { heads("pivot replacement: size up to 2, every pattern, sign and missing diagonal"); int n = 1 + kv::choice("n", 2); unsigned p = kv::choice("pattern", n == 2 ? 2 : 1); int s = kv::choice("signs", 1 << n); regularised(n, p, s, kv::choice("missing", 1 << n)); }
KV_CASE(regularised_3) { heads("pivot replacement: size 3, every pattern"); unsigned p = kv::choice("pattern", 8); regularised(3, p, p, 0); }
KV_CASE(frame) { heads("factorisation and solution leave the matrix and sign vector unchanged (size 3)"); double eps, delta; SolverSetting s = settings(eps, delta); Vec sign(3); sign.setConstant(1.0); Mat A = symmetric(3, 7, "a"), L; Vec D; ldl(A, sign, eps, delta, false, L, D); auto S = upper(3, 7, A); linalg::SparseCholesky c; c.analyzePattern(S, s); c.factorize(S, sign); Mat B(S);
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) prove_eq("matrix unchanged", B(i, j), A(i, j)); }
