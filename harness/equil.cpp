// Contracts of the equilibration routine and of the unscaling of the solution.
#include "kvh.hpp"
#include <solver/optimizer/EqRoutine.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
struct Prob { Cone cone; SolverStorage st; SolverSetting s; EqRoutine eq; Mat A, G; Vec b, c, h; int n, p, m, l; std::vector<int> q; };
static void setup(Prob& P, int n, int p, int l, std::vector<int> q, unsigned holes, int iters, int mode) {
  Eigen::VectorXi qi(q.size()); for (size_t i = 0; i < q.size(); i++) qi[i] = q[i]; P.n = n; P.p = p; P.l = l; P.q = q; P.cone.initialize(n, p, l, qi); P.st.initialize(P.cone, P.s); P.st.cleanCoeffs(); int m = P.m = P.cone.sizeCone(); int k = 0;
  P.A = Mat(p, n); P.A.setZero(); P.G = Mat(m, n); P.G.setZero(); P.s.set(SolverIntParam_EquilibrationIters, iters);
  auto entry = [&](Mat& X, int i, int j, const std::string& t, bool e) { if (holes >> (k++ % 12) & 1) return; double v = input(t + std::to_string(i) + std::to_string(j), 0.2, 3); if (mode == 1) kv::assume(kv::ge(v, 0.01)); if (mode == 2) { v = -v; kv::assume(kv::le(v, -0.01)); } X(i, j) = v; P.st.addCoeff(Eigen::Triplet<double>(i, j, v), e); };
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) entry(P.A, i, j, "A", true); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) entry(P.G, i, j, "G", false); P.st.initializeMatrices();
  P.b = Vec(p); P.c = Vec(n); P.h = Vec(m); for (int i = 0; i < p; i++) P.b[i] = input("b" + std::to_string(i)); for (int i = 0; i < n; i++) P.c[i] = input("c" + std::to_string(i)); for (int i = 0; i < m; i++) P.h[i] = input("h" + std::to_string(i)); P.st.b() = P.b; P.st.c() = P.c; P.st.h() = P.h;
}
static void check(Prob& P) {
  P.eq.setEquilibration(P.cone, P.s, P.st); Mat A(P.st.Amatrix()), G(P.st.Gmatrix()); Vec b = P.st.b(), c = P.st.c(), h = P.st.h(); Vec E = P.eq.equilVec();
  prove("factors for every variable and row", (int)E.size() == P.n + P.p + P.m); if ((int)E.size() != P.n + P.p + P.m) return;
  for (int i = 0; i < E.size(); i++) kv::lemma("equilibration factors are positive", kv::gt(E[i], 0.0));
  int k = P.n + P.p + P.l; for (int q : P.q) { for (int i = 1; i < q; i++) prove_eq("factors are equal across a cone", E[k + i], E[k]); k += q; }
  Vec ex = E.head(P.n), ey = E.segment(P.n, P.p), ez = E.tail(P.m);
  for (int i = 0; i < P.p; i++) { prove_eq("b is scaled", b[i] * ey[i], P.b[i]); for (int j = 0; j < P.n; j++) prove_eq("A is scaled by its row and column factors", A(i, j) * ey[i] * ex[j], P.A(i, j)); }
  for (int i = 0; i < P.m; i++) { prove_eq("h is scaled", h[i] * ez[i], P.h[i]); for (int j = 0; j < P.n; j++) prove_eq("G is scaled by its row and column factors", G(i, j) * ez[i] * ex[j], P.G(i, j)); }
  for (int j = 0; j < P.n; j++) prove_eq("c is scaled", c[j] * ex[j], P.c[j]);
  // a solution of the scaled homogeneous problem, once unscaled
  OptimizationVector o; o.initialize(P.cone); for (int i = 0; i < o.size(); i++) o[i] = input("o" + std::to_string(i), 0.5, 2); kv::assume(kv::gt(o.tau(), 0.0)); Vec x = o.x(), y = o.y(), z = o.z(), s = o.s(); double tau = o.tau(), kap = o.kappa();
  P.eq.scaleVariables(o); Vec X = o.x(), Y = o.y(), Z = o.z(), S = o.s(); prove_eq("tau is kept", o.tau(), tau); prove_eq("kappa is kept", o.kappa(), kap);
  Vec r1 = A.transpose() * y + G.transpose() * z + tau * c, R1 = P.A.transpose() * Y + P.G.transpose() * Z + P.c, r2 = A * x - tau * b, R2 = P.A * X - P.b, r3 = G * x + s - tau * h, R3 = P.G * X + S - P.h;
  for (int j = 0; j < P.n; j++) prove_eq("dual residual of the original problem", R1[j] * tau, ex[j] * r1[j]); for (int i = 0; i < P.p; i++) prove_eq("equality residual of the original problem", R2[i] * tau, ey[i] * r2[i]); for (int i = 0; i < P.m; i++) prove_eq("slack equation of the original problem", R3[i] * tau, ez[i] * r3[i]);
  double g1(0), g2(0), c1(0), c2(0); for (int i = 0; i < P.m; i++) { g1 = g1 + s[i] * z[i]; g2 = g2 + S[i] * Z[i]; } for (int j = 0; j < P.n; j++) { c1 = c1 + c[j] * x[j]; c2 = c2 + P.c[j] * X[j]; } prove_eq("complementarity is scaled by tau^2", g2 * tau * tau, g1); prove_eq("cost is that of the original problem", c2 * tau, c1);
  // undoing the equilibration of the data
  P.eq.unsetEquilibration(P.st); Mat A2(P.st.Amatrix()), G2(P.st.Gmatrix()); Vec b2 = P.st.b(), c2v = P.st.c(), h2 = P.st.h();
  for (int i = 0; i < P.p; i++) { prove_eq("b is restored", b2[i], P.b[i]); for (int j = 0; j < P.n; j++) prove_eq("A is restored", A2(i, j), P.A(i, j)); } for (int i = 0; i < P.m; i++) { prove_eq("h is restored", h2[i], P.h[i]); for (int j = 0; j < P.n; j++) prove_eq("G is restored", G2(i, j), P.G(i, j)); } for (int j = 0; j < P.n; j++) prove_eq("c is restored", c2v[j], P.c[j]);
}
static void heads(const std::string& b) { for (auto f : {"setEquilibration", "unsetEquilibration", "scaleVariables", "ruizEquilibration", "maxRowsCols", "equilibrateRowsCols"}) kv::under_contract(std::string("solver::EqRoutine::") + f); kv::bounded(b); kv::set_max_paths(8000); kv::set_timeouts(500, 20000); }
struct Shape { int n, p, l; std::vector<int> q; };
KV_CASE(signs) { heads("1 variable, 1 equality, 1 LP row; coefficients of either sign, any magnitude; 0..2 iterations"); Prob P; int it = kv::choice("iters", 3); setup(P, 1, 1, 1, {}, kv::choice("holes", 4), it, 0); check(P); }
KV_CASE(linear) { heads("2 variables, 1 equality, 1 LP row; coefficients above 0.01 in magnitude; 1 iteration; 4 patterns"); Prob P; static const unsigned H[] = {0, 2, 5, 9}; setup(P, 2, 1, 1, {}, H[kv::choice("holes", 4)], 1, 1 + kv::choice("sign", 2)); check(P); }
KV_CASE(cone) { heads("1 variable, 0 or 1 equality, 0 or 1 LP row, cone of size 2 or 3; coefficients above 0.01; 1 iteration"); Prob P; int q = 2 + kv::choice("q", 2), p = kv::choice("p", 2); setup(P, 1, p, kv::choice("lp", 2), {q}, kv::choice("hole", 2) * 2, 1, 1); check(P); }
KV_CASE(two_iterations) { heads("1 variable, cone of size 2; coefficients above 0.01; 2 iterations"); Prob P; setup(P, 1, 0, 0, {2}, 0, 2, 1); check(P); }
KV_CASE(cones) { heads("1 variable, cones of size 2 and 3; coefficients above 0.01; 1 iteration"); Prob P; setup(P, 1, 0, 0, {2, 3}, kv::choice("hole", 2) * 8, 1, 1); check(P); }
KV_CASE(cone_2) { heads("2 variables, cone of size 2; coefficients above 0.01; 1 iteration"); Prob P; setup(P, 2, 0, 0, {2}, kv::choice("hole", 2), 1, 1); check(P); }
