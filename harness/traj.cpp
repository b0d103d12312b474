// C18: contracts of the trajectory interpolation.
#include "kvh.hpp"
#include <momentumopt/utilities/TrajectoryGenerator.hpp>
using namespace momentumopt; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::truth; using kv::Prop; using kv::Real;
typedef Interpolator::InterpMat IM; typedef Eigen::Vector3d V3; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
static std::string S(int i) { return std::to_string(i); }
static Real R(long a, long b = 1) { return Real(a) / Real(b); }
static VX g_candidate; static int g_mode;   // 0: exact elimination, 1: any solution, 2: the candidate, whose residual is proved zero
#ifdef KV_SYM
VX kv_linear_solve(const MX& A, const VX& b) {
  int n = A.rows(); kv::prove("the regression system is square", A.rows() == A.cols() && b.size() == n);
  if (g_mode == 1) { static int id; VX x(n); for (int i = 0; i < n; i++) x[i] = input("coeff" + S(id) + "." + S(i)); id++; for (int i = 0; i < n; i++) { Real s = 0; for (int j = 0; j < n; j++) s = s + A(i, j) * x[j]; kv::assume(eq(s, b[i])); } return x; }
  if (g_mode == 2) { Prop p = truth(g_candidate.size() == n); if (g_candidate.size() == n) for (int i = 0; i < n; i++) { Real s = 0; for (int j = 0; j < n; j++) s = s + A(i, j) * g_candidate[j]; p = pand(p, eq(s, b[i])); } prove("the constant polynomial satisfies the conditions between equal rest states", p); return g_candidate; }
  MX M = A; VX y = b; bool ok = true;
  for (int k = 0; k < n && ok; k++) { int p = -1; for (int i = k; i < n && p < 0; i++) if (!kv::valid(eq(M(i, k), R(0)))) p = i; if (p < 0) { ok = false; break; } if (p != k) { M.row(p).swap(M.row(k)); std::swap(y[p], y[k]); } for (int i = k + 1; i < n; i++) { Real f = M(i, k) / M(k, k); for (int j = k; j < n; j++) M(i, j) = M(i, j) - f * M(k, j); y[i] = y[i] - f * y[k]; } }
  prove("the conditions determine the polynomial", ok); if (!ok) return VX(VX::Zero(n));
  VX x(n); for (int i = n - 1; i >= 0; i--) { Real s = y[i]; for (int j = i + 1; j < n; j++) s = s - M(i, j) * x[j]; x[i] = s / M(i, i); } return x;
}
#endif
static void heads(const std::string& b) { kv::under_contract("momentumopt::Interpolator::initialize"); kv::under_contract("momentumopt::Interpolator::interpolate"); kv::bounded(b); kv::require_defined(true); kv::set_tol(1e-5); g_mode = 0; }
struct PVA { double p, v, a; };
static PVA at(Interpolator& I, const Real& t) { PVA r; r.p = r.v = r.a = 77.5; I.interpolate(t, r.p, r.v, r.a); return r; }
static IM conds(const std::string& n, const std::vector<Real>& t) { IM m(t.size(), 2); for (size_t i = 0; i < t.size(); i++) { m(i, 0) = t[i]; m(i, 1) = input(n + S(i)); } return m; }
// weights of the derivative stencils that are exact on polynomials of degree < n, nodes k h for k in [-o, n-1-o]
static std::vector<Real> stencil(int n, int o, int d) { std::vector<std::vector<Real>> M(n, std::vector<Real>(n + 1, R(0))); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { Real v = 1; for (int e = 0; e < i; e++) v = v * R(j - o); M[i][j] = v; } M[i][n] = i == d ? R(d == 2 ? 2 : 1) : R(0); }
  for (int k = 0; k < n; k++) { int p = k; while (M[p][k] == R(0)) p++; std::swap(M[p], M[k]); for (int i = 0; i < n; i++) if (i != k) { Real f = M[i][k] / M[k][k]; for (int j = k; j <= n; j++) M[i][j] = M[i][j] - f * M[k][j]; } }
  std::vector<Real> w(n); for (int i = 0; i < n; i++) w[i] = M[i][n] / M[i][i]; return w; }
static void derivatives(Interpolator& I, int n, const Real& t0, const Real& t1) {   // velocity and acceleration at t0 + o h for steps h of the interval
  Real h = (t1 - t0) / Real(n - 1); for (int o = 0; o < n; o++) { Real t = t0 + R(o) * h; PVA c = at(I, t); std::vector<Real> w1 = stencil(n, o, 1), w2 = stencil(n, o, 2); Real v = 0, a = 0; for (int k = 0; k < n; k++) { Real q = at(I, t0 + R(k) * h).p; v = v + w1[k] * q; a = a + w2[k] * q; } prove("the velocity is the time derivative of the position", eq(c.v * h, v)); prove("the acceleration is the second time derivative of the position", eq(c.a * h * h, a)); } }
static void boundary(Interpolator& I, const IM& p, const IM& v, const IM& a) { for (int i = 0; i < p.rows(); i++) prove("every position condition is met", eq(at(I, p(i, 0)).p, p(i, 1))); for (int i = 0; i < v.rows(); i++) prove("every velocity condition is met", eq(at(I, v(i, 0)).v, v(i, 1))); for (int i = 0; i < a.rows(); i++) prove("every acceleration condition is met", eq(at(I, a(i, 0)).a, a(i, 1))); }
static void outside(Interpolator& I, const Real& t0, const Real& t1) { PVA e = at(I, t1), l = at(I, t1 + R(3, 7)), s = at(I, t0), b = at(I, t0 - R(3, 7)); prove("a time after the interval is its end", pand(eq(e.p, l.p), pand(eq(e.v, l.v), eq(e.a, l.a)))); prove("a time before the interval is its start", pand(eq(s.p, b.p), pand(eq(s.v, b.v), eq(s.a, b.a)))); }
// numeric times, all values symbolic, the linear system solved exactly
static void shape(int k, std::vector<Real>& p, std::vector<Real>& v, std::vector<Real>& a) { p.clear(); v.clear(); a.clear(); Real z = R(0), o = R(1), m = R(1, 2), T = R(3, 2);
  switch (k) { case 0: p = {z, m, o}; v = {z, o}; a = {z, o}; break; case 1: p = {m, o, T}; v = {m, T}; a = {m, T}; break; case 2: p = {R(-1), z}; v = {R(-1), z}; a = {R(-1), z}; break; case 3: p = {z, T}; v = {T, z}; a = {m}; break; case 4: p = {m}; v = {z}; a = {T}; break; case 5: p = {T, z, o, m}; v = {z}; a = {T}; break; case 6: p = {z, o}; v = {z, R(1, 3), o}; a = {z, o}; break; case 7: p = {z}; v = {z, o, R(2)}; a = {z, R(2)}; break; } }
KV_CASE(interpolator_values) { heads("eight layouts of 3 to 7 conditions with rational times (including time zero), every condition value"); int k = kv::choice("layout", 8); std::vector<Real> p, v, a; shape(k, p, v, a); IM P = conds("p", p), V = conds("v", v), A = conds("a", a); Interpolator I; I.initialize(P, V, A); boundary(I, P, V, A); Real lo = p[0], hi = p[0]; for (auto* c : {&p, &v, &a}) for (const Real& t : *c) { if (t < lo) lo = t; if (t > hi) hi = t; } derivatives(I, p.size() + v.size() + a.size(), lo, hi); outside(I, lo, hi); }
KV_CASE(interpolator_again) { heads("seven layouts, the interpolator used before for another interval"); int k = kv::choice("layout", 8), l = kv::choice("before", 8); std::vector<Real> p, v, a; shape(l, p, v, a); Interpolator I; I.initialize(conds("bp", p), conds("bv", v), conds("ba", a)); shape(k, p, v, a); IM P = conds("p", p), V = conds("v", v), A = conds("a", a); I.initialize(P, V, A); boundary(I, P, V, A); }
// symbolic times: the decomposition by its contract
KV_CASE(interpolator_times) { heads("position at start, middle and end, velocity and acceleration at both ends: every interval and every value"); g_mode = 1; Real t0 = input("t0", -1, 1), T = input("T", 0.5, 2); kv::assume(kv::gt(T, R(0))); Real t1 = t0 + T, m = t0 + T / 2; IM P = conds("p", {t0, m, t1}), V = conds("v", {t0, t1}), A = conds("a", {t0, t1}); Interpolator I; I.initialize(P, V, A); boundary(I, P, V, A); derivatives(I, 7, t0, t1); outside(I, t0, t1); }
KV_CASE(interpolator_zero) { heads("intervals that start or end at time zero, every length and every value"); g_mode = kv::symbolic() ? 1 : 0; Real T = input("T", 0.5, 2); kv::assume(kv::gt(T, R(0))); int e = kv::choice("end", 2); Real t0 = e ? -T : R(0), t1 = e ? R(0) : T, m = e ? -T / 2 : T / 2; IM P = conds("p", {t0, m, t1}), V = conds("v", {t0, t1}), A = conds("a", {t0, t1}); Interpolator I; I.initialize(P, V, A); boundary(I, P, V, A); PVA z = at(I, R(0)); prove("the values at time zero are finite", std::isfinite(z.p) && std::isfinite(z.v) && std::isfinite(z.a)); derivatives(I, 7, t0, t1); }
// ------------------------------------------------------------------ three-dimensional generator
static V3 vec(const std::string& n) { return V3(input(n + "x"), input(n + "y"), input(n + "z")); }
static Prop same(const V3& a, const V3& b) { return pand(eq(a[0], b[0]), pand(eq(a[1], b[1]), eq(a[2], b[2]))); }
static void gen(const Real& t0, const Real& T) { kv::under_contract("momentumopt::TrajectoryGenerator::initialize"); kv::under_contract("momentumopt::TrajectoryGenerator::update"); V3 i = vec("ini"), e = vec("end"), w = vec("via"), z(R(0), R(0), R(0)); Real t1 = t0 + T; TrajectoryGenerator G; if (kv::choice("again", 2)) { TrajectoryGenerator& H = G; H.initialize(t0 - R(1), vec("bini"), t0, vec("bend"), vec("bvia")); H.update(t0); } G.initialize(t0, i, t1, e, w); const TrajectoryGenerator& C = G;
  G.update(t0); prove("the trajectory starts at rest at the initial position", pand(same(C.desPos(), i), pand(same(C.desVel(), z), same(C.desAcc(), z)))); G.update(t0 + T / 2); prove("the trajectory passes the via position in the middle", same(C.desPos(), w)); G.update(t1); prove("the trajectory ends at rest at the end position", pand(same(C.desPos(), e), pand(same(C.desVel(), z), same(C.desAcc(), z))));
  G.update(t0 + T / 2); V3 v = C.desVel(), a = C.desAcc(); Real h = T / 6; std::vector<Real> w1 = stencil(7, 3, 1), w2 = stencil(7, 3, 2); V3 n1 = z, n2 = z; for (int k = 0; k < 7; k++) { G.update(t0 + R(k) * h); V3 q = C.desPos(); n1 += w1[k] * q; n2 += w2[k] * q; } prove("velocity and acceleration of the trajectory are its derivatives", pand(same(V3(v * h), n1), same(V3(a * h * h), n2))); }
KV_CASE(generator_exact) { heads("four rational intervals, every position"); int k = kv::choice("interval", 4); gen(k == 0 ? R(0) : k == 1 ? R(1, 3) : k == 2 ? R(-2) : R(5), k == 1 ? R(1, 4) : k == 3 ? R(3) : R(2)); }
KV_CASE(generator_times) { heads("every interval, every position"); g_mode = 1; Real t0 = input("t0", -1, 1), T = input("T", 0.5, 2); kv::assume(kv::gt(T, R(0))); gen(t0, T); }
KV_CASE(generator_rest) { heads("every interval: between equal rest states"); Real c = input("c"), t0 = input("t0", -1, 1), T = input("T", 0.5, 2); kv::assume(kv::gt(T, R(0))); kv::assumption("Hermite interpolation conditions at distinct times determine the polynomial (decided by elimination on rational times)"); if (kv::symbolic()) { g_mode = 2; g_candidate = VX::Zero(7); g_candidate[0] = c; } V3 p(c, c, c), z(R(0), R(0), R(0)); TrajectoryGenerator G; G.initialize(t0, p, t0 + T, p, p); Real s = input("s", 0, 1); kv::assume(kv::ge(s, R(0))); kv::assume(kv::le(s, R(1))); G.update(t0 + s * T); prove("a trajectory between equal rest states stays there", pand(same(G.desPos(), p), pand(same(G.desVel(), z), same(G.desAcc(), z)))); }
KV_CASE(generator_rest_exact) { heads("four rational intervals: between equal rest states, every time"); int k = kv::choice("interval", 4); Real t0 = k == 0 ? R(0) : k == 1 ? R(1, 3) : k == 2 ? R(-2) : R(5), T = k == 1 ? R(1, 4) : k == 3 ? R(3) : R(2); V3 p = vec("p"), z(R(0), R(0), R(0)); TrajectoryGenerator G; G.initialize(t0, p, t0 + T, p, p); Real s = input("s", 0, 1); kv::assume(kv::ge(s, R(0))); kv::assume(kv::le(s, R(1))); G.update(t0 + s * T); prove("a trajectory between equal rest states stays there", pand(same(G.desPos(), p), pand(same(G.desVel(), z), same(G.desAcc(), z)))); }
