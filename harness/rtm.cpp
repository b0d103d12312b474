// Contracts of the real-time affine and quadratic builders (public static functions only).
#include "kvh.hpp"
#include <solver/rt_optimizer/RtMatrix.hpp>
using namespace rt_solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef RtMatrix<6, 5>::d M; typedef RtVector<6>::d V; typedef RtMatrix<5, 5>::d Q; typedef RtVector<5>::d QV; typedef Eigen::MatrixXd Mat; typedef Eigen::VectorXd Vec;
template <typename T> static void fill(T& m, int r, int c, const std::string& t) { m.resize(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = input(t + std::to_string(i) + "," + std::to_string(j)); }
template <typename T> static void fillv(T& m, int r, const std::string& t) { m.resize(r); for (int i = 0; i < r; i++) m(i) = input(t + std::to_string(i)); }
template <typename A, typename B> static double row(const A& m, int i, const B& x) { double v = 0.0; for (int j = 0; j < m.cols(); j++) v = v + m(i, j) * x(j); return v; }
template <typename A, typename B> static double quad(const A& q, const B& x) { double v = 0.0; for (int i = 0; i < q.rows(); i++) for (int j = 0; j < q.cols(); j++) v = v + q(i, j) * x(i) * x(j); return v * 0.5; }
template <typename A, typename B> static double dot(const A& q, const B& x) { double v = 0.0; for (int i = 0; i < x.rows(); i++) v = v + q(i) * x(i); return v; }
template <typename A> static void symmetric(const A& q, int n) { prove("square of the expected size", int(q.rows()) == n && int(q.cols()) == n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) prove_eq("the matrix is symmetric", q(i, j), q(j, i)); }
static void heads(const std::string& f, const std::string& b) { kv::under_contract(f); kv::bounded(b); kv::set_max_paths(20000); kv::set_timeouts(1000, 20000); }
KV_CASE(append) { heads("RtMatrixUtils::append, RtVectorUtils::append, RtAffineUtils::append (with and without vector)", "0..2 rows appended to 0..2 rows of 2 columns, twice");
  int n = 2, r0 = kv::choice("rows", 3), r1 = kv::choice("appended", 3); bool vec = kv::choice("with vector", 2); M a; V v; fill(a, r0, n, "A"); fillv(v, r0, "a"); M b; V w; fill(b, r1, n, "B"); fillv(w, r1, "b"); M a0 = a; V v0 = v; M b0 = b; V w0 = w; QV x; fillv(x, n, "x");
  if (vec) RtAffineUtils::append(a, v, b, w); else RtAffineUtils::append(a, v, b);
  if (vec) RtAffineUtils::append(a, v, b, w); else RtAffineUtils::append(a, v, b);
  prove("all rows are there", int(a.rows()) == r0 + 2 * r1 && int(v.rows()) == r0 + 2 * r1 && int(a.cols()) == n);
  for (int i = 0; i < r0; i++) prove_eq("existing rows are kept", row(a, i, x) + v(i), row(a0, i, x) + v0(i));
  for (int k = 0; k < 2; k++) for (int i = 0; i < r1; i++) { double c = 0.0; if (vec) c = w0(i); prove_eq("appended rows evaluate to the appended map", row(a, r0 + k * r1 + i, x) + v(r0 + k * r1 + i), row(b0, i, x) + c); }
  M m = a0; RtMatrixUtils::append(m, b); prove("matrix append", int(m.rows()) == r0 + r1); for (int i = 0; i < r0 + r1; i++) prove_eq("matrix append", row(m, i, x), i < r0 ? row(a0, i, x) : row(b0, i - r0, x));
  V u = v0; RtVectorUtils::append(u, w); prove("vector append", int(u.rows()) == r0 + r1); for (int i = 0; i < r0 + r1; i++) prove_eq("vector append", u(i), i < r0 ? v0(i) : w0(i - r0)); }
KV_CASE(append_at_column) { heads("RtMatrixUtils::appendAtColumn, RtAffineUtils::appendAtColumn (with and without vector)", "0..2 rows of 1..3 columns appended to 0..2 rows of 3 columns, every starting column, twice");
  int n = 3, r0 = kv::choice("rows", 3), r1 = kv::choice("appended", 3), c1 = 1 + kv::choice("columns", 3), s = kv::choice("start", n - c1 + 1); bool vec = kv::choice("with vector", 2); M a; V v; fill(a, r0, n, "A"); fillv(v, r0, "a"); M b; V w; fill(b, r1, c1, "B"); fillv(w, r1, "b"); M a0 = a; V v0 = v; QV x; fillv(x, n, "x");
  for (int k = 0; k < 2; k++) { if (vec) RtAffineUtils::appendAtColumn(a, v, b, w, s); else RtAffineUtils::appendAtColumn(a, v, b, s); }
  prove("all rows are there", int(a.rows()) == r0 + 2 * r1 && int(v.rows()) == r0 + 2 * r1 && int(a.cols()) == n);
  for (int i = 0; i < r0; i++) prove_eq("existing rows are kept", row(a, i, x) + v(i), row(a0, i, x) + v0(i));
  Vec y(c1); for (int j = 0; j < c1; j++) y(j) = x(s + j);
  for (int k = 0; k < 2; k++) for (int i = 0; i < r1; i++) { double c = 0.0; if (vec) c = w(i); prove_eq("appended rows act on the given columns", row(a, r0 + k * r1 + i, x) + v(r0 + k * r1 + i), row(b, i, y) + c); } }
static void kept(const M& a, const V& v, const M& a0, const V& v0, const std::vector<int>& rows, const std::string& t) {
  prove(t + ": number of rows", int(a.rows()) == int(rows.size()) && int(v.rows()) == int(rows.size()) && a.cols() == a0.cols());
  for (size_t k = 0; k < rows.size() && int(k) < a.rows() && int(k) < v.rows(); k++) { for (int j = 0; j < a0.cols(); j++) prove_eq(t + ": the kept rows in order", a(k, j), a0(rows[k], j)); prove_eq(t + ": the kept offsets in order", v(k), v0(rows[k])); } }
// which rows are zero is chosen; the other rows have norm above any of the thresholds
static void zero_rows(int r, int n, bool threshold) {
  M a; V v; fill(a, r, n, "A"); fillv(v, r, "a"); std::vector<int> rows; int z = kv::choice("zero rows", 1 << r); double tiny = 1e-4;
  for (int i = 0; i < r; i++) { if (z >> i & 1) for (int j = 0; j < n; j++) a(i, j) = 0.0; else { rows.push_back(i); int j = kv::choice("large entry of row " + std::to_string(i), n); kv::assume(kv::por(kv::gt(a(i, j), tiny), kv::lt(a(i, j), -tiny))); } }
  M a0 = a; V v0 = v; if (threshold) RtAffineUtils::removeZeroRows<6, 5>(a, v, 1e-6); else RtAffineUtils::removeZeroRows(a, v); kept(a, v, a0, v0, rows, "exactly the zero rows go"); }
KV_CASE(remove_zero_rows) { heads("RtAffineUtils::removeZeroRows (block shifting)", "matrices of 0..4 rows and 2 columns, every pattern of zero rows; other rows have an entry above 1e-4 in magnitude"); zero_rows(kv::choice("rows", 5), 2, false); }
KV_CASE(remove_zero_rows_long) { heads("RtAffineUtils::removeZeroRows (block shifting)", "matrices of 6 rows and 1 column, every pattern of zero rows"); zero_rows(6, 1, false); }
KV_CASE(remove_zero_rows_threshold) { heads("RtAffineUtils::removeZeroRows (threshold), RtMatrixUtils::createSelectorMat", "matrices of 0..4 rows and 2 columns, every pattern of zero rows; other rows have an entry above 1e-4 in magnitude"); zero_rows(kv::choice("rows", 5), 2, true); }
// rows that are small but not zero count as zero, every other row stays
KV_CASE(remove_zero_rows_small) { heads("RtAffineUtils::removeZeroRows (block shifting)", "matrices of 1..3 rows and 1..2 columns; each row has absolute sum below 1e-13 or above 1e-6"); int r = 1 + kv::choice("rows", 3), n = 1 + kv::choice("columns", 2); M a; V v; fill(a, r, n, "A"); fillv(v, r, "a"); int z = kv::choice("small rows", 1 << r); std::vector<int> rows; for (int i = 0; i < r; i++) { double t = 0.0; for (int j = 0; j < n; j++) t = t + std::abs(a(i, j)); if (z >> i & 1) kv::assume(kv::lt(t, 1e-13)); else { kv::assume(kv::gt(t, 1e-6)); rows.push_back(i); } }
  M a0 = a; V v0 = v; RtAffineUtils::removeZeroRows(a, v); kept(a, v, a0, v0, rows, "exactly the small rows go"); }
KV_CASE(affine_substitute) { heads("RtAffineUtils::substitute (both)", "maps of 1..3 rows, 1..3 to 1..3 variables"); int r = 1 + kv::choice("rows", 3), n = 1 + kv::choice("n", 3), k = 1 + kv::choice("k", 3); bool vec = kv::choice("with vector", 2); M a; V v; fill(a, r, n, "A"); fillv(v, r, "a"); Mat s; Vec t; fill(s, n, k, "S"); fillv(t, n, "s"); QV y; fillv(y, k, "y"); M a0 = a; V v0 = v; Mat s0 = s; Vec t0 = t;
  if (vec) RtAffineUtils::substitute(a, v, s, t); else RtAffineUtils::substitute(a, s); Vec x(n); for (int i = 0; i < n; i++) { x(i) = row(s0, i, y); if (vec) x(i) = x(i) + t0(i); }
  prove("columns are those of the new variable", int(a.cols()) == k && int(a.rows()) == r); for (int i = 0; i < r; i++) prove_eq("A(Sy+s)+a", row(a, i, y) + v(i), row(a0, i, x) + v0(i)); }
KV_CASE(quadratic_substitute) { heads("RtQuadraticUtils::substitute (both)", "1..3 to 1..3 variables"); int n = 1 + kv::choice("n", 3), k = 1 + kv::choice("k", 3); bool vec = kv::choice("with vector", 2); Q q; QV v; fill(q, n, n, "Q"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) q(i, j) = q(j, i); fillv(v, n, "q"); Mat s; Vec t; fill(s, n, k, "S"); fillv(t, n, "s"); QV y; fillv(y, k, "y"); Q q0 = q; QV v0 = v;
  if (vec) RtQuadraticUtils::substitute(q, v, s, t); else RtQuadraticUtils::substitute(q, s); symmetric(q, k); Vec x(n), z(n); for (int i = 0; i < n; i++) { x(i) = row(s, i, y); z(i) = 0.0; if (vec) { z(i) = t(i); x(i) = x(i) + t(i); } }
  if (vec) prove_eq("the value changes by a constant only", quad(q, y) + dot(v, y), quad(q0, x) + dot(v0, x) - quad(q0, z) - dot(v0, z)); else prove_eq("quadratic part", quad(q, y), quad(q0, x)); }
KV_CASE(from_norm) { heads("RtQuadraticUtils::addFromNorm (both), addFromWeightedNorm (both)", "1..3 rows, 1..3 variables, symmetric weights, added to an existing function"); int n = 1 + kv::choice("n", 3), r = 1 + kv::choice("rows", 3); bool weighted = kv::choice("weighted", 2), vec = kv::choice("with vector", 2); Q q; QV v; fill(q, n, n, "Q"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) q(i, j) = q(j, i); fillv(v, n, "q"); Mat a; Vec b; fill(a, r, n, "A"); fillv(b, r, "a"); Mat w = Mat::Identity(r, r); if (weighted) { fill(w, r, r, "W"); for (int i = 0; i < r; i++) for (int j = 0; j < i; j++) w(i, j) = w(j, i); } Q q0 = q; QV v0 = v; QV x; fillv(x, n, "x");
  if (weighted) { if (vec) RtQuadraticUtils::addFromWeightedNorm(q, v, a, b, w); else RtQuadraticUtils::addFromWeightedNorm(q, a, w); } else { if (vec) RtQuadraticUtils::addFromNorm(q, v, a, b); else RtQuadraticUtils::addFromNorm(q, a); }
  symmetric(q, n); Vec e(r); for (int i = 0; i < r; i++) { e(i) = row(a, i, x); if (vec) e(i) = e(i) + b(i); else b(i) = 0.0; } prove_eq("exactly half the squared norm is added (up to the constant)", quad(q, x) + dot(v, x) - quad(q0, x) - dot(v0, x), quad(w, e) - quad(w, b)); }
KV_CASE(sizes) { heads("RtMatrixUtils::setZero/setOnes/setConstant/setIdentity/resize/conservativeResize, RtVectorUtils likewise", "sizes 0..3"); int r = kv::choice("rows", 4), c = kv::choice("cols", 4); double k = input("k"); M m; fill(m, 2, 2, "A"); M m0 = m; RtMatrixUtils::setConstant(m, r, c, k); prove("size", int(m.rows()) == r && int(m.cols()) == c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) prove_eq("constant", m(i, j), k);
  RtMatrixUtils::setZero(m, c, r); prove("size", int(m.rows()) == c && int(m.cols()) == r); for (int i = 0; i < c; i++) for (int j = 0; j < r; j++) prove_eq("zero", m(i, j), 0.0); RtMatrixUtils::setOnes(m, r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) prove_eq("one", m(i, j), 1.0);
  Q q; RtMatrixUtils::setIdentity(q, r); for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) prove_eq("identity", q(i, j), i == j ? 1.0 : 0.0);
  M g = m0; RtMatrixUtils::conservativeResize(g, r, c); for (int i = 0; i < std::min(r, 2); i++) for (int j = 0; j < std::min(c, 2); j++) prove_eq("kept entries", g(i, j), m0(i, j));
  V v; RtVectorUtils::setZero(v, r); prove("size", int(v.rows()) == r); for (int i = 0; i < r; i++) prove_eq("zero", v(i), 0.0); RtVectorUtils::setConstant(v, c, k); prove("size", int(v.rows()) == c); for (int i = 0; i < c; i++) prove_eq("constant", v(i), k); RtVectorUtils::conservativeResize(v, r); for (int i = 0; i < std::min(r, c); i++) prove_eq("kept", v(i), k); }
