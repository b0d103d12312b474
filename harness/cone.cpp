#include "kvh.hpp"
#include <solver/interface/Cone.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove;
typedef Eigen::VectorXd Vec;
static Vec vec(const std::string& n, int k, double lo = -2, double hi = 2) { Vec v(k); for (int i = 0; i < k; i++) v[i] = input(n + std::to_string(i), (kv::Real)lo == lo ? -2.0 : -2.0, 2.0); return v; }
static void layout(Cone& c, int nv, int ne, int nl, std::vector<int> q) {
  Eigen::VectorXi qi(q.size()); for (size_t i = 0; i < q.size(); i++) qi[i] = q[i]; c.initialize(nv, ne, nl, qi);
}
static const std::vector<std::vector<int>> LAYOUTS = {{}, {2}, {3}, {4}, {2, 3}, {3, 2, 1}};
static void any_layout(Cone& c) {
  kv::set_max_paths(5000);
  int l = kv::choice("layout", (int)LAYOUTS.size()); int nl = kv::choice("nlp", 3); int nv = kv::choice("nv", 2) + 1, ne = kv::choice("ne", 2);
  if (LAYOUTS[l].empty() && nl == 0) nl = 3;
  layout(c, nv, ne, nl, LAYOUTS[l]);
}
static Vec jordan(const Cone& c, const Vec& u, const Vec& v) {
  Vec w(c.sizeCone()); int k = 0;
  for (; k < c.sizeLpc(); k++) w[k] = u[k] * v[k];
  for (int l = 0; l < c.numSoc(); l++) { int n = c.sizeSoc(l); double d(0); for (int i = 0; i < n; i++) d = d + u[k + i] * v[k + i]; w[k] = d; for (int i = 1; i < n; i++) w[k + i] = u[k] * v[k + i] + v[k] * u[k + i]; k += n; }
  return w;
}
// strictly inside, with a margin so that the divisions are not the guarded ones
static void interior(const Cone& c, const Vec& v) {
  int k = 0; double eps(1e-13);
  for (; k < c.sizeLpc(); k++) kv::assume(kv::ge(v[k], eps));
  for (int l = 0; l < c.numSoc(); l++) { int n = c.sizeSoc(l); double r = v[k] * v[k]; for (int i = 1; i < n; i++) r = r - v[k + i] * v[k + i]; kv::assume(kv::ge(v[k], eps)); kv::assume(kv::ge(r, eps)); k += n; }
}
static Vec ivec(const std::string& n, const Cone& c) {   // interior-biased input vector
  Vec v(c.sizeCone()); int k = 0;
  for (; k < c.sizeLpc(); k++) v[k] = input(n + std::to_string(k), 0.1, 3);
  for (int l = 0; l < c.numSoc(); l++) { int m = c.sizeSoc(l); v[k] = input(n + std::to_string(k), 1, 4); for (int i = 1; i < m; i++) v[k + i] = input(n + std::to_string(k + i), -0.6, 0.6); k += m; }
  interior(c, v); return v;
}
KV_CASE(layout_indices) {
  kv::under_contract("solver::Cone::initialize"); kv::under_contract("solver::Cone::setupSocone"); kv::bounded("cone layouts: up to 3 second-order cones of size 1..4, up to 2 LP rows");
  Cone c; any_layout(c); int nv = c.numVars(), ne = c.numLeq(), nl = c.sizeLpc();
  int tot = 0; for (int i = 0; i < c.numSoc(); i++) { prove("soc blocks follow the LP block and each other", c.startSoc(i) == nl + tot); prove("opt start", c.optStartSoc(i) == nv + ne + nl + tot); prove("ext start", c.extStartSoc(i) == nv + ne + nl + tot + 2 * i); tot += c.sizeSoc(i); }
  prove("sizes", c.sizeSoc() == tot && c.sizeCone() == nl + tot && c.extSizeCone() == nl + tot + 2 * c.numSoc() && c.sizeConstraints() == ne + nl + tot && c.sizeProb() == nv + ne + nl + tot && c.extSizeProb() == nv + ne + nl + tot + 2 * c.numSoc() && c.lpConeStart() == nv + ne && c.soConeStart() == nv + ne + nl && c.extSizeSoc() == tot + 2 * c.numSoc());
  OptimizationVector o; o.initialize(c); prove("optimization vector holds x,y,z,tau,kappa,s", o.size() == c.sizeProb() + 2 + c.sizeCone());
  // the named views are disjoint and cover the vector
  for (int i = 0; i < o.size(); i++) o[i] = 0.0;
  o.x().array() += 1.0; o.y().array() += 1.0; o.z().array() += 1.0; o.s().array() += 1.0; o.tau() += 1.0; o.kappa() += 1.0;
  for (int i = 0; i < o.size(); i++) prove_eq("views of an optimization vector partition it", o[i], 1.0);
  Vec r = vec("r", c.sizeCone()); o.z() = r; int k = 0;
  for (int i = 0; i < nl; i++, k++) prove_eq("zLpc", o.zLpc()[i], r[k]);
  for (int l = 0; l < c.numSoc(); l++) for (int i = 0; i < c.sizeSoc(l); i++, k++) { prove_eq("zSoc(l)", o.zSoc(l)[i], r[k]); prove_eq("zSoc", o.zSoc()[k - nl], r[k]); }
  ExtendedVector e; e.initialize(c); for (int i = 0; i < e.size(); i++) e[i] = input("e" + std::to_string(i)); Vec e0 = e; e.zRtoE(r); k = 0; int p = nv + ne;
  for (int i = 0; i < p; i++) prove_eq("zRtoE leaves x,y", e[i], e0[i]);
  for (int i = 0; i < nl; i++) prove_eq("zRtoE LP part", e[p++], r[k++]);
  for (int l = 0; l < c.numSoc(); l++) { for (int i = 0; i < c.sizeSoc(l); i++) prove_eq("zRtoE cone part", e[p++], r[k++]); prove_eq("zRtoE zero slack", e[p++], 0.0); prove_eq("zRtoE zero slack", e[p++], 0.0); }
  prove("zRtoE fills the vector", p == (int)e.size());
}
template<class A, class B> static void same_view(const std::string& n, const A& a, const B& b) { prove("reading and writing views have the same size: " + n, a.size() == b.size()); for (int i = 0; i < (int)a.size() && i < (int)b.size(); i++) prove_eq("reading and writing views agree: " + n, a[i], b[i]); }
template<class V> static void fill(V& v) { for (int i = 0; i < v.size(); i++) v[i] = input("v" + std::to_string(i)); }
KV_CASE(views) {
  kv::under_contract("solver::Vector (views)"); kv::under_contract("solver::ConicVector (views)"); kv::under_contract("solver::ExtendedVector (views)"); kv::under_contract("solver::OptimizationVector (views)"); kv::bounded("cone layouts: up to 3 second-order cones of size 1..4, up to 2 LP rows");
  Cone c; any_layout(c); OptimizationVector o; o.initialize(c); fill(o); const OptimizationVector& p = o;
#define SAME(A, B, F) same_view(#F, A.F, B.F)
  SAME(o, p, x()); SAME(o, p, y()); SAME(o, p, z()); SAME(o, p, s()); SAME(o, p, yz()); SAME(o, p, yztau()); SAME(o, p, xyz()); SAME(o, p, xyztau()); SAME(o, p, zLpc()); SAME(o, p, zSoc()); prove_eq("tau", o.tau(), p.tau()); prove_eq("kappa", o.kappa(), p.kappa());
  Vector v; v.initialize(c); fill(v); const Vector& w = v; SAME(v, w, x()); SAME(v, w, y()); SAME(v, w, z()); SAME(v, w, yz()); SAME(v, w, zLpc()); SAME(v, w, zSoc());
  ConicVector k; k.initialize(c); fill(k); const ConicVector& l = k; SAME(k, l, z()); SAME(k, l, zLpc()); SAME(k, l, zSoc());
  ExtendedVector e; e.initialize(c); fill(e); const ExtendedVector& f = e; SAME(e, f, x()); SAME(e, f, y()); SAME(e, f, z()); SAME(e, f, zLpc()); SAME(e, f, zSoc());
  for (int i = 0; i < c.numSoc(); i++) { SAME(o, p, zSoc(i)); SAME(v, w, zSoc(i)); SAME(k, l, zSoc(i)); SAME(e, f, zSoc(i)); }
}
KV_CASE(product) {
  kv::under_contract("solver::Cone::conicProduct"); kv::under_contract("solver::ConicVector::operator*"); kv::bounded("cone layouts: up to 3 second-order cones of size 1..4, up to 2 LP rows");
  Cone c; any_layout(c); int n = c.sizeCone(); Vec u = vec("u", n), v = vec("v", n);
  ConicVector a, b; a.initialize(c); b.initialize(c); a.z() = u; b.z() = v;
  Vec w = a * b, j = jordan(c, u, v), w2(n); 
  for (int i = 0; i < n; i++) { prove_eq("u o v is the Jordan product", w[i], j[i]); prove_eq("product leaves u", a[i], u[i]); prove_eq("product leaves v", b[i], v[i]); }
}
KV_CASE(product_mu) {
  kv::under_contract("solver::Cone::conicProduct (returned sum)"); kv::bounded("one SOC of size 3 and one LP row");
  Cone c; layout(c, 1, 0, 1, {3}); int n = c.sizeCone(); Vec u = vec("u", n), v = vec("v", n); Vec w(n); double mu = c.conicProduct(u, v, w); Vec j = jordan(c, u, v);
  prove_eq("returned value is the sum of the magnitudes of the leading entries", mu, std::abs(j[0]) + std::abs(j[1]));
}
KV_CASE(division) {
  kv::under_contract("solver::Cone::conicDivision"); kv::under_contract("solver::ConicVector::operator/"); kv::bounded("cone layouts: up to 3 second-order cones of size 1..4, up to 2 LP rows");
  Cone c; any_layout(c); int n = c.sizeCone(); Vec u = ivec("u", c), w = vec("w", n);
  ConicVector a, b; a.initialize(c); b.initialize(c); a.z() = u; b.z() = w; Vec v = a / b; Vec back = jordan(c, u, v);
  for (int i = 0; i < n; i++) prove_eq("u o (u \\ w) = w", back[i], w[i]);
}
KV_CASE(algebra) {
  kv::under_contract("solver::ConicVector::operator+,-,+="); kv::under_contract("solver::Cone::conicResidual"); kv::under_contract("solver::Cone::normSoc"); kv::bounded("cone layouts: up to 3 second-order cones of size 1..4, up to 2 LP rows");
  Cone c; any_layout(c); int n = c.sizeCone(); Vec u = vec("u", n), v = vec("v", n); double t = input("t");
  ConicVector a, b; a.initialize(c); b.initialize(c); a.z() = u; b.z() = v; Vec id(n); id.setZero(); int k = 0;
  for (; k < c.sizeLpc(); k++) id[k] = 1.0; for (int l = 0; l < c.numSoc(); l++) { id[k] = 1.0; k += c.sizeSoc(l); }
  ConicVector s1 = a + b, s2 = a + t, s3 = a - t, s4 = -a, s5 = a; s5 += t;
  for (int i = 0; i < n; i++) { prove_eq("sum", s1[i], u[i] + v[i]); prove_eq("+ t e", s2[i], u[i] + t * id[i]); prove_eq("- t e", s3[i], u[i] - t * id[i]); prove_eq("negation", s4[i], -u[i]); prove_eq("+= t e", s5[i], u[i] + t * id[i]); }
  for (int l = 0; l < c.numSoc(); l++) { int st = c.startSoc(l), m = c.sizeSoc(l); double r = u[st] * u[st], q = u[st] * v[st], nn(0); for (int i = 1; i < m; i++) { r = r - u[st + i] * u[st + i]; q = q - u[st + i] * v[st + i]; nn = nn + u[st + i] * u[st + i]; }
    prove_eq("residual is the hyperbolic form", c.conicResidual(u.segment(st, m)), r); prove_eq("bilinear residual", c.conicResidual(u.segment(st, m), v.segment(st, m)), q); prove_eq("margin", Cone::normSoc(u.segment(st, m)), u[st] - std::sqrt(nn)); }
}
static void projection(std::vector<int> q, int nl) {
  kv::under_contract("solver::Cone::conicProjection");
  Cone c; layout(c, 1, 0, nl, q); int n = c.sizeCone(); Vec s = vec("s", n), p = s; c.conicProjection(p);
  int k = 0; for (; k < nl; k++) prove("LP part strictly positive", kv::gt(p[k], 0.0));
  double shift = p[0] - s[0]; prove("one non-negative multiple of the identity is added", kv::ge(shift, 0.0));
  for (k = 0; k < nl; k++) prove_eq("LP entries shifted equally", p[k] - s[k], shift);
  for (size_t l = 0; l < q.size(); l++) { double r(0); for (int i = 1; i < q[l]; i++) { r = r + p[k + i] * p[k + i]; prove_eq("cone tails untouched", p[k + i], s[k + i]); } prove("leading entry positive", kv::gt(p[k], 0.0)); prove("strictly inside the cone", kv::gt(p[k] * p[k], r)); prove_eq("cone heads shifted equally", p[k] - s[k], shift); k += q[l]; }
}
KV_CASE(projection_lp) { projection({}, 3); }
KV_CASE(projection_soc) { projection({3}, 0); }
KV_CASE(projection_mixed) { projection({2, 2}, 1); }
KV_CASE(ntscaling_lp) {
  kv::under_contract("solver::Cone::updateNTScalings (LP)"); kv::under_contract("solver::Cone::conicNTScaling");
  Cone c; layout(c, 1, 0, 2, {}); Vec s = ivec("s", c), z = ivec("z", c), lam(2); ConeStatus st = c.updateNTScalings(s, z, lam); prove("interior pair accepted", st == ConeStatus::Inside);
  ConicVector wz = c.W() * z; Vec wwz = c.W() * Vec(wz);
  for (int i = 0; i < 2; i++) { prove_eq("W z = lambda", wz[i], lam[i]); prove_eq("W lambda = s", wwz[i], s[i]); prove_eq("squared scaling", c.sqScalingLpc(i) * z[i], s[i]); }
}
// every point with unit hyperbolic norm: head h >= 1, tail (sign*sqrt(h^2-1-|rest|^2), rest)
static Vec unit_point(const std::string& n, int m, double& head) {
  Vec v(m); head = v[0] = input(n + "0", 1, 3); kv::assume(kv::ge(head, 1.0)); double r = head * head - 1.0;
  for (int i = 2; i < m; i++) { v[i] = input(n + std::to_string(i), -0.6, 0.6); r = r - v[i] * v[i]; }
  if (m > 2) kv::assume(kv::ge(r, 0.0));
  v[1] = std::sqrt(r); if (kv::choice(n + " sign", 2)) v[1] = -v[1];
  return v;
}
// s = eta^4-scaled quadratic representation of w applied to z: by the Nesterov-Todd theorem (lemma nt_surjective) every interior pair has this form
static void nt_point(int m, int nl, bool axis) {
  kv::under_contract("solver::Cone::updateNTScalings"); kv::under_contract("solver::Cone::conicNTScaling2"); kv::under_contract("solver::Cone::conicNTScaling"); kv::set_timeouts(4000, 20000); kv::rationalize(true);
  Cone c; layout(c, 1, 0, nl, {m}); int n = nl + m; double a = input("a", 0.3, 2), b = input("b", 0.3, 2), w0, z0; kv::assume(kv::ge(a, 1e-3)); kv::assume(kv::ge(b, 1e-3));
  kv::assume(kv::le(a, 1e3)); kv::assume(kv::le(b, 1e3));
  Vec w = unit_point("w", m, w0), zb(m); if (axis) { zb.setZero(); zb[0] = 1.0; } else zb = unit_point("z", m, z0);
  Vec s(n), z(n), lam(n); double wz(0); for (int i = 0; i < m; i++) wz = wz + w[i] * zb[i];
  for (int i = 0; i < nl; i++) { s[i] = input("ls" + std::to_string(i), 0.1, 2); z[i] = input("lz" + std::to_string(i), 0.1, 2); kv::assume(kv::ge(s[i], 1e-3)); kv::assume(kv::ge(z[i], 1e-3)); }
  double dot(0); for (int i = 0; i < m; i++) { double sb = 2.0 * w[i] * wz + (i ? 1.0 : -1.0) * zb[i]; dot = dot + sb * zb[i]; s[nl + i] = a * a * b * sb; z[nl + i] = b * zb[i]; }
  if (!axis) { kv::lemma("two points of the hyperboloid have inner product at least one", kv::ge(wz, 1.0)); kv::lemma_sqrt("geometric mean", 0.5 + 0.5 * dot, wz); }
  ConeStatus st = c.updateNTScalings(s, z, lam); prove("interior pair accepted", st == ConeStatus::Inside);
  for (int i = 0; i < m; i++) prove_eq("scaling point", c.soc(0).scalingSoc(i), w[i]); prove_eq("eta", c.soc(0).eta(), a); prove_eq("eta squared", c.soc(0).etaSquare(), a * a);
  for (int i = 0; i < nl; i++) prove_eq("LP scaling", c.sqScalingLpc(i) * z[i], s[i]);
  for (int i = 0; i < nl; i++) prove_eq("LP lambda", c.scalingLpc(i) * z[i], lam[i]);
  prove_eq("lambda = W z", lam[nl], a * wz * b);
  for (int i = 1; i < m; i++) prove_eq("lambda = W z", (1.0 + w[0]) * lam[nl + i], a * b * ((1.0 + w[0]) * (zb[i] + zb[0] * w[i]) + w[i] * (wz - w[0] * zb[0])));
  if (!axis) return;
  // the expanded sparse block written into the KKT matrix eliminates to W^2
  Vec x(n + 2), y(n + 2), y0(n + 2); double d(0), d1(0); for (int i = 0; i < n; i++) x[i] = input("x" + std::to_string(i)); for (int i = 0; i < n + 2; i++) y0[i] = y[i] = input("y" + std::to_string(i));
  for (int i = 0; i < m; i++) { d = d + w[i] * x[nl + i]; if (i) d1 = d1 + w[i] * x[nl + i]; }
  x[n] = -c.soc(0).v1() * d1; x[n + 1] = c.soc(0).u0() * x[nl] + c.soc(0).u1() * d1;
  c.conicNTScaling2(x, y);
  prove_eq("auxiliary row 1 eliminates", y[n] - y0[n], 0.0); prove_eq("auxiliary row 2 eliminates", y[n + 1] - y0[n + 1], 0.0);
  for (int i = 0; i < nl; i++) prove_eq("LP row", y[i] - y0[i], c.sqScalingLpc(i) * x[i]);
  for (int i = 0; i < m; i++) prove_eq("expanded block reduces to W^2", y[nl + i] - y0[nl + i], a * a * (2.0 * w[i] * d + (i ? 1.0 : -1.0) * x[nl + i]));
}
KV_CASE(nt_point_axis_2) { nt_point(2, 0, true); }
KV_CASE(nt_point_axis_3) { nt_point(3, 1, true); }
KV_CASE(nt_point_axis_4) { nt_point(4, 0, true); }
KV_CASE(nt_point_2) { nt_point(2, 1, false); }
KV_CASE(nt_point_3) { nt_point(3, 0, false); }
// every pair of unit points (sb,zb) is sb = 2 w (w'zb) - J zb with w = (sb + J zb)/sqrt(2 + 2 sb'zb) of unit hyperbolic norm
KV_CASE(nt_surjective) {
  kv::under_contract("lemma: surjectivity of the Nesterov-Todd parametrisation (size 3)"); double s0, z0; Vec s = unit_point("s", 3, s0), z = unit_point("z", 3, z0); double dot = s.dot(z); kv::lemma("inner product at least one", kv::ge(dot, 1.0));
  double g = std::sqrt(2.0 + 2.0 * dot), wz(0), nn(0); Vec w(3); for (int i = 0; i < 3; i++) { w[i] = (s[i] + (i ? -1.0 : 1.0) * z[i]) / g; wz = wz + w[i] * z[i]; nn = nn + (i ? -1.0 : 1.0) * w[i] * w[i]; }
  prove_eq("unit norm", nn, 1.0); for (int i = 0; i < 3; i++) prove_eq("quadratic representation", 2.0 * w[i] * wz + (i ? 1.0 : -1.0) * z[i], s[i]);
}
// contract of conicNTScaling for an arbitrary stored scaling point
static void nt_apply(std::vector<int> q, int nl) {
  kv::under_contract("solver::Cone::conicNTScaling"); kv::under_contract("solver::ScalingOperator::operator*");
  Cone c; layout(c, 1, 0, nl, q); int n = c.sizeCone(); Vec x = vec("x", n);
  for (int i = 0; i < nl; i++) { c.scalingLpc(i) = input("w" + std::to_string(i), 0.1, 2); c.sqScalingLpc(i) = c.scalingLpc(i) * c.scalingLpc(i); }
  for (size_t l = 0; l < q.size(); l++) { double r(1); std::string t = std::to_string(l); for (int i = 1; i < q[l]; i++) { double w = input("w" + t + "_" + std::to_string(i)); c.soc(l).scalingSoc(i) = w; r = r + w * w; } c.soc(l).scalingSoc(0) = std::sqrt(r); kv::lemma("w0 >= 1", kv::ge(c.soc(l).scalingSoc(0), 1.0)); c.soc(l).eta() = input("eta" + t, 0.2, 2); c.soc(l).etaSquare() = c.soc(l).eta() * c.soc(l).eta(); }
  Vec y = c.W() * x; Vec yy = c.W() * y; Vec y2(n); c.conicNTScaling(x, y2);
  for (int i = 0; i < n; i++) prove_eq("operator and function agree", y2[i], y[i]);
  for (int i = 0; i < nl; i++) { prove_eq("LP scaling", y[i], c.scalingLpc(i) * x[i]); }
  int k = nl; for (size_t l = 0; l < q.size(); l++) { Vec w = c.soc(l).scalingSoc(); double e = c.soc(l).eta(), d(0), s(0); for (int i = 0; i < q[l]; i++) { d = d + w[i] * x[k + i]; }
    prove_eq("first row of W", y[k], e * d); for (int i = 0; i < q[l]; i++) prove_eq("W W = eta^2 (2 w w' - J)", yy[k + i], e * e * (2.0 * w[i] * d + (i ? 1.0 : -1.0) * x[k + i])); k += q[l]; }
}
KV_CASE(nt_apply_2) { nt_apply({2}, 1); }
KV_CASE(nt_apply_3) { nt_apply({3}, 0); }
KV_CASE(nt_apply_23) { nt_apply({2, 3}, 1); }
KV_CASE(nt_apply_4) { nt_apply({4}, 0); }
static Vec hyp(const Vec& p, double scale) { Vec v(p.size() + 1); double q(1); for (int i = 0; i < p.size(); i++) { q = q + p[i] * p[i]; v[i + 1] = scale * p[i]; } v[0] = scale * std::sqrt(q); return v; }
KV_CASE(ntscaling_outside) {
  kv::under_contract("solver::Cone::updateNTScalings (rejects)");
  Cone c; layout(c, 1, 0, 0, {2, 3}); Vec s(5), z(5), lam(5); bool inS = kv::choice("which", 2), first = kv::choice("block", 2), inside = kv::choice("mirror", 2);
  Vec one(1), two(2); one[0] = 0.75; two[0] = 0.75; two[1] = 0.0; s.head(2) = hyp(one, 1.0); z.head(2) = s.head(2); s.tail(3) = hyp(two, 1.0); z.tail(3) = s.tail(3);
  Vec bad = vec("v", first ? 2 : 3); double r = bad[0] * bad[0]; for (int i = 1; i < bad.size(); i++) r = r - bad[i] * bad[i]; kv::assume(kv::le(r, 0.0));
  Vec& t = inS ? s : z; if (first) t.head(2) = bad; else t.tail(3) = bad;
  prove("a pair on or outside the boundary is refused", c.updateNTScalings(s, z, lam) == ConeStatus::Outside);
}
