// Contracts of LinSolver. The sparse factorisation is replaced by its contract (proved for property C05 on the
// real code): factorize receives a symmetric matrix M given by its upper triangle, solve(b) returns x with M x = b.
#include "kvh.hpp"
#include <functional>
#include <solver/optimizer/LinSolver.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static Mat M; static std::vector<Vec> candidates; static int solves, fresh; static std::vector<Vec> errors; static int factorised, status_offset; static Vec got_sign;
static Mat densify(const Eigen::SparseMatrix<double>& S) { Mat A(S.rows(), S.cols()); A.setZero(); for (int k = 0; k < S.outerSize(); k++) for (Eigen::SparseMatrix<double>::InnerIterator it(S, k); it; ++it) if (it.row() <= it.col()) { A(it.row(), it.col()) = it.value(); A(it.col(), it.row()) = it.value(); } return A; }
namespace linalg {
void SparseCholesky::analyzePattern(const Eigen::SparseMatrix<double>& mat, const SolverSetting&) { n_ = mat.cols(); }
int SparseCholesky::factorize(const Eigen::SparseMatrix<double>& mat, const Eigen::Ref<const Vec>& sign) { M = densify(mat); got_sign = sign; factorised++; return mat.cols() + status_offset; }
void SparseCholesky::solve(const Eigen::Ref<const Vec>& b, double* x) {
  int n = b.size(); Vec r; bool found = false;
  for (auto& c : candidates) if (!found) { Vec y = M * c; bool ok = true; for (int i = 0; i < n && ok; i++) ok = kv::valid(kv::eq(y[i], b[i])); if (ok) { r = c; found = true; } }
  if (!found && !kv::symbolic()) r = M.fullPivLu().solve(Vec(b));
  else if (!found) { r = Vec(n); for (int i = 0; i < n; i++) r[i] = input("chol" + std::to_string(fresh) + "_" + std::to_string(i)); fresh++; Vec y = M * r; for (int i = 0; i < n; i++) kv::assume(kv::eq(y[i], b[i])); }
  if (solves < (int)errors.size()) r = r + errors[solves]; solves++; for (int i = 0; i < n; i++) x[i] = r[i];
}
}
struct Prob { Cone cone; SolverStorage st; SolverSetting s; LinSolver ls; Mat A, G; int n, p, l; std::vector<int> q; };
static double zero_or(bool z, const std::string& n, double lo = -2, double hi = 2) { return z ? kv::Real(0.0) : input(n, -2, 2); }
static void setup(Prob& P, int n, int p, int l, std::vector<int> q, unsigned holes, double delta, int refs) {
  P.n = n; P.p = p; P.l = l; P.q = q; Eigen::VectorXi qi(q.size()); for (size_t i = 0; i < q.size(); i++) qi[i] = q[i];
  P.cone.initialize(n, p, l, qi); P.st.initialize(P.cone, P.s); P.st.cleanCoeffs(); int m = P.cone.sizeCone(); P.A = Mat(p, n); P.A.setZero(); P.G = Mat(m, n); P.G.setZero(); int k = 0;
  auto entry = [&](Mat& X, int i, int j, const std::string& t, bool eq) { bool hole = holes >> (k++ % 12) & 1; if (hole) return; X(i, j) = input(t + std::to_string(i) + std::to_string(j)); P.st.addCoeff(Eigen::Triplet<double>(i, j, X(i, j)), eq); };
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) entry(P.A, i, j, "A", true); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) entry(P.G, i, j, "G", false);
  P.st.initializeMatrices(); P.st.Atmatrix() = P.st.Amatrix().transpose(); P.st.Gtmatrix() = P.st.Gmatrix().transpose();
  P.s.set(SolverDoubleParam_StaticRegularization, delta); P.s.set(SolverDoubleParam_LinearSystemAccuracy, 1e-14); P.s.set(SolverDoubleParam_ErrorReductionFactor, 6.0); P.s.set(SolverIntParam_NumIterRefinementsLinSolve, refs);
  M = Mat(); candidates.clear(); errors.clear(); solves = fresh = factorised = status_offset = 0; P.ls.initialize(P.cone, P.s, P.st);
}
static void scalings(Prob& P) {   // any scaling: the fields are what Cone::updateNTScalings leaves (its own contract is property C03)
  for (int i = 0; i < P.l; i++) P.cone.sqScalingLpc(i) = input("w" + std::to_string(i), 0.5, 2);
  for (size_t i = 0; i < P.q.size(); i++) { auto& c = P.cone.soc(i); std::string t = "soc" + std::to_string(i); c.etaSquare() = input(t + "e", 0.5, 2); kv::assume(kv::gt(c.etaSquare(), 0.0)); c.d1() = input(t + "d1", 0.1, 1); c.u0() = input(t + "u0", 0.5, 1.5); c.u1() = input(t + "u1", 0.5, 1.5); c.v1() = input(t + "v1", 0.5, 1.5); for (int j = 0; j < P.q[i]; j++) c.scalingSoc(j) = input(t + "w" + std::to_string(j), -1, 1); }
}
// the expanded scaling block W2 (definition: see conicNTScaling2, contract in C03), as dense symmetric matrix over the extended cone
static Mat w2(Prob& P, bool init) {
  int e = P.cone.extSizeCone(); Mat W(e, e); W.setZero(); if (init) { for (int i = 0; i < e; i++) W(i, i) = 1.0; int k = P.l; for (int q : P.q) { W(k + q + 1, k + q + 1) = -1.0; k += q + 2; } return W; }
  for (int j = 0; j < e; j++) { Vec x(e), y(e); x.setZero(); y.setZero(); x[j] = 1.0; P.cone.conicNTScaling2(x, y); W.col(j) = y; } return W;
}
static Mat kkt(Prob& P, const Mat& W, double delta) {
  int N = P.cone.extSizeProb(), n = P.n, p = P.p; Mat K(N, N); K.setZero(); for (int i = 0; i < n; i++) K(i, i) = delta; for (int i = 0; i < p; i++) K(n + i, n + i) = -delta;
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) { K(n + i, j) = P.A(i, j); K(j, n + i) = P.A(i, j); }
  int r = 0, k = n + p; auto row = [&]() { for (int j = 0; j < n; j++) { K(k, j) = P.G(r, j); K(j, k) = P.G(r, j); } r++; k++; };
  for (int i = 0; i < P.l; i++) row(); for (int q : P.q) { for (int i = 0; i < q; i++) row(); k += 2; }
  for (int i = 0; i < W.rows(); i++) for (int j = 0; j < W.cols(); j++) K(n + p + i, n + p + j) = K(n + p + i, n + p + j) - W(i, j); for (int i = 0; i < P.l; i++) K(n + p + i, n + p + i) = K(n + p + i, n + p + i) - (delta); return K;
}
static bool is_ext(Prob& P, int i) { int k = P.n + P.p + P.l; for (int q : P.q) { if (i == k + q || i == k + q + 1) return true; k += q + 2; } return false; }
static void solve_contract(Prob& P, bool init, double delta) {
  if (init) P.ls.initializeMatrix(); else { scalings(P); P.ls.updateMatrix(); }
  prove("factorisation reports success", P.ls.numericFactorization() == FactStatus::Optimal); int N = P.cone.extSizeProb(); Mat W = w2(P, init), K = kkt(P, W, delta);
  Vec x(N), b, pb(N), px(N); for (int i = 0; i < N; i++) x[i] = is_ext(P, i) ? kv::Real(0.0) : input("x" + std::to_string(i));
  for (int i = 0; i < N; i++) if (is_ext(P, i)) { double t = (K.row(i) * x)(0); x[i] = -t / K(i, i); }   // the rows of the expansion have no right-hand side
  b = K * x; for (int i = 0; i < N; i++) { int pi = P.ls.invPerm(i); pb[pi] = b[i]; px[pi] = x[i]; prove("perm and invPerm are inverse", P.ls.perm(pi) == i); }
  candidates = {px, Vec(Vec::Zero(N))}; OptimizationVector d; d.initialize(P.cone); for (int i = 0; i < d.size(); i++) d[i] = input("old" + std::to_string(i)); Vec d0 = d; Vec pb0 = pb; int refs = P.ls.solve(pb, d, init);
  for (int i = 0; i < N; i++) { prove("dynamic regularisation is told the sign of every pivot", kv::gt(got_sign[P.ls.invPerm(i)] * (i < P.n || (is_ext(P, i) && is_ext(P, i - 1)) ? 1.0 : -1.0), 0.0)); prove_eq("the right-hand side is unchanged", pb[i], pb0[i]); }
  Vec dx = d.x(), dy = d.y(), dz = d.z(), rx = P.A.transpose() * dy + P.G.transpose() * dz + delta * dx, ry = P.A * dx - delta * dy, gd = P.G * dx;
  for (int i = 0; i < P.n; i++) prove_eq("A'dy + G'dz = bx", rx[i], b[i]); for (int i = 0; i < P.p; i++) prove_eq("A dx = by", ry[i], b[P.n + i]);
  Vec ez(P.cone.extSizeCone()), wz(P.cone.extSizeCone()); int k = P.l, j = P.l; for (int i = 0; i < P.l; i++) ez[i] = dz[i]; int e = P.n + P.p + P.l; for (int q : P.q) { for (int i = 0; i < q; i++) ez[k++] = dz[j++]; e += q; ez[k++] = x[e++]; ez[k++] = x[e++]; }
  wz = W * ez; k = 0; int r = 0; for (int i = 0; i < P.l; i++, k++, r++) prove_eq("G dx - W2 dz = bz (linear part)", gd[r] - wz[k] - delta * dz[i], b[P.n + P.p + k]);
  for (int q : P.q) { for (int i = 0; i < q; i++, k++, r++) prove_eq("G dx - W2 dz = bz (cone part)", gd[r] - wz[k], b[P.n + P.p + k]); k += 2; }
  prove_eq("tau is left alone", d.tau(), d0[P.cone.sizeProb()]); prove_eq("kappa is left alone", d.kappa(), d0[P.cone.sizeProb() + 1]); for (int i = 0; i < P.cone.sizeCone(); i++) prove_eq("s is left alone", d.s()[i], d0[P.cone.sizeProb() + 2 + i]);
}
static void heads(const std::string& b) { for (auto f : {"initialize", "buildProblem", "findPermutation", "initializeMatrix", "updateMatrix", "numericFactorization", "solve", "matrixTransposeTimesVector"}) kv::under_contract(std::string("solver::LinSolver::") + f); kv::under_contract("solver::Cone::unpermuteSolution"); kv::bounded(b); kv::set_max_paths(6000); kv::set_timeouts(1000, 20000); kv::lazy_max(true);
  kv::assumption("SparseCholesky is replaced by its contract (M x = b), which is property C05"); }
struct Shape { int n, p, l; std::vector<int> q; };
static const std::vector<Shape> SHAPES = {{1, 0, 1, {}}, {2, 1, 2, {}}, {1, 0, 1, {1, 2}}, {1, 1, 0, {2}}, {2, 1, 1, {3}}, {2, 0, 1, {2, 3}}, {1, 0, 2, {3, 2}}, {3, 2, 2, {}}, {2, 2, 0, {4}}};
static const unsigned HOLES[] = {0, 0x249, 0x5a5, 0x924, 0xfff};
static const char* B = "8 layouts with up to 3 variables, 2 equalities, 2 LP rows, 2 cones of size 2..4; 5 sparsity patterns; all values";
KV_CASE(solve_initial) { heads(B); Prob P; auto& S = SHAPES[kv::choice("shape", SHAPES.size())]; setup(P, S.n, S.p, S.l, S.q, HOLES[kv::choice("holes", 5)], kv::Real(0.0), kv::choice("refs", 2)); solve_contract(P, true, kv::Real(0.0)); }
KV_CASE(solve_scaled) { heads(B); Prob P; auto& S = SHAPES[kv::choice("shape", SHAPES.size())]; setup(P, S.n, S.p, S.l, S.q, HOLES[kv::choice("holes", 5)], kv::Real(0.0), 1); if (kv::choice("after initial factorisation", 2)) { P.ls.initializeMatrix(); P.ls.numericFactorization(); } solve_contract(P, false, kv::Real(0.0)); }
KV_CASE(solve_static_regularisation) { heads("static regularisation: 3 layouts without second-order cones"); Prob P; static const int I[] = {0, 1, 7}; auto& S = SHAPES[I[kv::choice("shape", 3)]]; double dl = input("delta", 0.01, 0.1); kv::assume(kv::gt(dl, 0.0)); setup(P, S.n, S.p, S.l, S.q, HOLES[kv::choice("holes", 5)], dl, 0); solve_contract(P, false, dl); }
KV_CASE(reinitialised) { heads(B); Prob P; auto& S = SHAPES[4]; auto& T = SHAPES[kv::choice("second", SHAPES.size())]; setup(P, S.n, S.p, S.l, S.q, 0, kv::Real(0.0), 1); P.ls.initializeMatrix(); P.ls.numericFactorization(); setup(P, T.n, T.p, T.l, T.q, 0x249, kv::Real(0.0), 1); solve_contract(P, kv::choice("init", 2), kv::Real(0.0)); }
KV_CASE(status) { heads("factorisation status"); Prob P; setup(P, 2, 1, 2, {}, 0, kv::Real(0.0), 0); P.ls.initializeMatrix(); status_offset = -1 - kv::choice("o", 3); prove("an incomplete factorisation is reported", P.ls.numericFactorization() == FactStatus::Failure); }
// iterative refinement: whatever the first solution, what is returned is not worse
static double resid(Prob& P, const Mat& K, const OptimizationVector& dc, const Vec& b) { OptimizationVector d = dc; Vec v(P.n + P.p + P.l); v << d.x(), d.y(), d.z(); Vec r = b - K * v; double m(0.0); for (int i = 0; i < r.size(); i++) m = std::max(m, kv::Real(std::abs(r[i]))); return m; }
KV_CASE(refinement) {
  heads("iterative refinement: 1 variable, 1 LP row, one inexact solution, exact correction"); Prob P; setup(P, 1, 0, 1, {}, 0, kv::Real(0.0), 2); scalings(P); P.ls.updateMatrix(); P.ls.numericFactorization(); Mat K = kkt(P, w2(P, false), kv::Real(0.0)); int N = 2;
  Vec x(N), e(N), b, pb(N), px(N), pe(N); for (int i = 0; i < N; i++) { x[i] = input("x" + std::to_string(i)); e[i] = input("e" + std::to_string(i)); } b = K * x; for (int i = 0; i < N; i++) { pb[P.ls.invPerm(i)] = b[i]; px[P.ls.invPerm(i)] = x[i]; pe[P.ls.invPerm(i)] = e[i]; }
  candidates = {px, Vec(-pe)}; errors = {pe}; OptimizationVector d; d.initialize(P.cone); P.ls.solve(pb, d); double r1 = resid(P, K, d, b); Vec Ke = K * e; double r0(0.0), nb(0.0); for (int i = 0; i < N; i++) { r0 = std::max(r0, kv::Real(std::abs(Ke[i]))); nb = std::max(nb, kv::Real(std::abs(b[i]))); }
  prove("refinement never makes the solution worse", kv::le(r1, r0)); prove("refinement reaches the requested accuracy", kv::le(r1, (1.0 + nb) * 1e-14));
}
KV_CASE(products) { heads("sparse products: 3x2, 5 patterns"); Prob P; setup(P, 2, 1, 3, {}, HOLES[kv::choice("holes", 5)], kv::Real(0.0), 0); Vec x(3), y(2); for (int i = 0; i < 3; i++) x[i] = input("x" + std::to_string(i)); for (int i = 0; i < 2; i++) y[i] = input("y" + std::to_string(i)); Vec y0 = y, x0 = x; bool add = kv::choice("add", 2), nw = kv::choice("new", 2);
  P.ls.matrixTransposeTimesVector(P.st.Gmatrix(), x, y, add, nw); Vec g = P.G.transpose() * x0; for (int j = 0; j < 2; j++) { double base = nw ? kv::Real(0.0) : y0[j], sg = add ? 1.0 : -1.0; prove_eq("y (+)= +-A'x", y[j], base + sg * g[j]); } }
// reading a permuted, expanded solution: every entry goes to its own place, whatever the cone sizes and the permutation
KV_CASE(unpermute) { heads("layouts with cones of size 1..4, three permutations, all values"); struct L { int n, p, l; std::vector<int> q; }; static const std::vector<L> LS = {{2, 1, 1, {1, 3}}, {1, 0, 0, {1, 1, 2}}, {2, 2, 2, {}}, {3, 0, 1, {4, 2}}, {1, 1, 0, {3}}, {2, 1, 2, {2, 1, 3}}}; auto& S = LS[kv::choice("layout", LS.size())];
  Cone c; Eigen::VectorXi q(S.q.size()); int m = S.l, e = S.l; for (size_t i = 0; i < S.q.size(); i++) { q[i] = S.q[i]; m += S.q[i]; e += S.q[i] + 2; } c.initialize(S.n, S.p, S.l, q); int N = S.n + S.p + e; prove("expanded size", c.extSizeProb() == N && c.extSizeCone() == e);
  Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> P(N); P.setIdentity(); int kind = kv::choice("permutation", 3); for (int i = 0; i < N; i++) P.indices()[i] = kind == 0 ? i : kind == 1 ? N - 1 - i : (i + 3) % N; Vec v(N), ext(e), pv(N); for (int i = 0; i < N; i++) { v[i] = input("v" + std::to_string(i)); pv[P.indices()[i]] = v[i]; }
  for (int both = 0; both < 2; both++) { OptimizationVector o; o.initialize(c); o.setZero(); if (both) c.unpermuteSolution(P, pv, o, ext); else c.unpermuteSolution(P, pv, o); int k = 0, j = 0; for (; k < S.n; k++) prove_eq("primal entries", o.x()[k], v[k]); for (; k < S.n + S.p; k++) prove_eq("equality multipliers", o.y()[k - S.n], v[k]); for (int i = 0; i < S.l; i++) prove_eq("linear cone entries", o.z()[j++], v[k++]); for (int w : S.q) { for (int i = 0; i < w; i++) prove_eq("second-order cone entries", o.z()[j++], v[k++]); k += 2; }
    if (both) for (int i = 0; i < e; i++) prove_eq("expanded cone entries", ext[i], v[S.n + S.p + i]); for (int i = 0; i < m; i++) prove_eq("slacks are not touched", o.s()[i], 0.0); } }
