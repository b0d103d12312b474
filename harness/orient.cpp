// C17: contracts of the rotation utilities.
#include "kvh.hpp"
#include <momentumopt/utilities/OrientationUtils.hpp>
using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::por; using kv::truth; using kv::Prop; using kv::Real;
typedef Eigen::Quaternion<double> Q; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix<double, 4, 3> M43;
namespace momentumopt {   // helpers without a declaration in the header; a case is skipped when its helper is gone
V3 logarithmicMap(const Q&) __attribute__((weak)); Q exponentialMap(const V3&) __attribute__((weak)); M3 skewMatrix(const V3&) __attribute__((weak)); M4 toQuaternionMatrix(const Q&, bool) __attribute__((weak)); M43 jacobianQuaternionWrtRotationVector(const V3&) __attribute__((weak));
M3 jacobianAngularVelocityWrtRotationVector(const V3&) __attribute__((weak)); V3 toAngularVelocity(const V3&, const V3&, bool) __attribute__((weak)); V3 fromAngularVelocity(const V3&, const V3&, bool) __attribute__((weak));
}
using namespace momentumopt;
#define NEED(f) do { if (!(&f)) { kv::bounded("helper " #f " is not present"); return; } kv::under_contract("momentumopt::" #f); } while (0)
static V3 vec(const std::string& n) { return V3(input(n + "x", -1, 1), input(n + "y", -1, 1), input(n + "z", -1, 1)); }
template <class A, class B> static Prop same(const A& a, const B& b) { Prop p = truth(true); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) p = pand(p, eq(a(i, j), b(i, j))); return p; }
static Prop same(const Q& a, const Q& b) { return pand(eq(a.w(), b.w()), pand(eq(a.x(), b.x()), pand(eq(a.y(), b.y()), eq(a.z(), b.z())))); }
static Q neg(const Q& a) { return Q(-a.w(), -a.x(), -a.y(), -a.z()); }
static Prop rot_eq(const Q& a, const Q& b) { return por(same(a, b), same(a, neg(b))); }
static double n2(const Q& a) { return a.w() * a.w() + a.x() * a.x() + a.y() * a.y() + a.z() * a.z(); }
static Q mulq(const Q& a, const Q& b) { return Q(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w()); }   // Hamilton
static Q conjq(const Q& a) { return Q(a.w(), -a.x(), -a.y(), -a.z()); }
static V3 rotate(const Q& q, const V3& v) { Q r = mulq(mulq(q, Q(Real(0), v.x(), v.y(), v.z())), conjq(q)); return V3(r.x(), r.y(), r.z()); }
static Real R(long a, long b = 1) { return Real(a) / Real(b); }
// unit axes: every axis but one (stereographic), or rational ones
static V3 axis_any() { Real s = input("s", -1, 1), t = input("t", -1, 1), d = 1 + s * s + t * t; return V3(2 * s / d, 2 * t / d, (1 - s * s - t * t) / d); }
static V3 axis_num(int k) { switch (k) { case 0: return V3(R(2, 3), R(1, 3), R(-2, 3)); case 1: return V3(R(0), R(0), R(1)); case 2: return V3(R(-3, 13), R(4, 13), R(12, 13)); default: return V3(R(1), R(0), R(0)); } }
static Q unit_num(int k) { switch (k) { case 0: return Q(R(1, 5), R(2, 5), R(2, 5), R(-4, 5)); case 1: return Q(R(1), R(0), R(0), R(0)); case 2: return Q(R(-1, 2), R(1, 2), R(-1, 2), R(1, 2)); default: return Q(R(0), R(3, 5), R(0), R(4, 5)); } }
static Real half(const std::string& n, const Real& lo, const Real& hi) { Real h = input(n, 0.1, 1.4); kv::assume(kv::le(lo, h)); kv::assume(kv::le(h, hi)); kv::angle(h); kv::assume(kv::gt(sin(h), R(0))); kv::assume(kv::ge(cos(h), R(0))); return h; }
static const Real PI2 = Real(157079632L) / Real(100000000L);
static Q turn(const Real& h, const V3& n) { return Q(cos(h), sin(h) * n.x(), sin(h) * n.y(), sin(h) * n.z()); }
static void heads(const std::string& b) { kv::bounded(b); kv::set_tol(1e-6); kv::assumption("sin and cos are the functions with sin^2 + cos^2 = 1, positive on (0, pi/2); other facts about them are stated where used"); }
static double rnorm(const V3& r, const Real& v) { double q = r.x() * r.x() + r.y() * r.y() + r.z() * r.z(); kv::lemma_sqrt("length of the rotation vector", q, v); return v; }

static void log_of_exp(const V3& n) { Real h = half("h", R(50001, 10000000), PI2); V3 r = 2 * h * n; rnorm(r, 2 * h); Q q = exponentialMap(r); prove_eq("the exponential has unit norm", n2(q), R(1)); prove("the exponential is the rotation by that vector", same(q, turn(h, n))); kv::assume(kv::gt(sin(h), R(1, 1000))); V3 s2(q.x(), q.y(), q.z()); rnorm(s2, sin(h)); V3 l = logarithmicMap(q); prove("the logarithm inverts the exponential", same(l, r)); }
KV_CASE(log_of_exp_axes) { heads("angles 0.01 .. pi, four axes"); NEED(exponentialMap); NEED(logarithmicMap); log_of_exp(axis_num(kv::choice("axis", 4))); }
KV_CASE(log_of_exp_any) { heads("angles 0.01 .. pi, every axis"); NEED(exponentialMap); NEED(logarithmicMap); log_of_exp(axis_any()); }
KV_CASE(exp_large) { heads("angles pi .. 2 pi: the representative with non-negative scalar part"); NEED(exponentialMap); V3 n = axis_num(kv::choice("axis", 4)); Real h = input("h", 1.6, 3.1); kv::angle(h); kv::assume(kv::ge(h, PI2)); kv::assume(kv::gt(sin(h), R(0))); kv::assume(kv::lt(cos(h), R(0))); V3 r = 2 * h * n; rnorm(r, 2 * h); Q q = exponentialMap(r); prove("the exponential has unit norm", eq(n2(q), R(1))); prove("the exponential is the rotation by that vector", same(q, neg(turn(h, n)))); prove("the scalar part is not negative", kv::ge(q.w(), R(0))); }
KV_CASE(exp_small) { heads("rotation vectors shorter than 0.01: error below 1e-6"); NEED(exponentialMap); kv::assumption("x - x^3/6 <= sin x <= x and 1 - x^2/2 <= cos x <= 1 for x >= 0"); int k = kv::choice("axis", 4); V3 n = axis_num(k); Real h = input("h", 0, 0.005); kv::assume(kv::ge(h, R(0))); kv::assume(kv::lt(h, R(1, 200))); V3 r = 2 * h * n; rnorm(r, 2 * h); Q q = exponentialMap(r); prove_eq("the exponential has unit norm", n2(q), R(1)); prove("the scalar part is not negative", kv::ge(q.w(), R(0)));
  kv::assume(kv::le(sin(h), h)); kv::assume(kv::ge(sin(h), h - h * h * h / 6)); kv::assume(kv::le(cos(h), R(1))); kv::assume(kv::ge(cos(h), 1 - h * h / 2)); Q t = turn(h, n); Real e = R(1, 1000000); for (int i = 0; i < 4; i++) { Real d = q.coeffs()[i] - t.coeffs()[i]; prove("the exponential is that of the rotation vector up to 1e-6", pand(kv::le(d, e), kv::le(-e, d))); } }
KV_CASE(exp_log_zero) { heads("the zero rotation"); NEED(exponentialMap); NEED(logarithmicMap); V3 z(R(0), R(0), R(0)); prove("the exponential of zero is the identity", same(exponentialMap(z), Q(R(1), R(0), R(0), R(0)))); prove("the logarithm of the identity is zero", same(logarithmicMap(Q(R(1), R(0), R(0), R(0))), z)); prove("the logarithm of minus the identity is zero", same(logarithmicMap(Q(R(-1), R(0), R(0), R(0))), z)); }
static void exp_of_log(const V3& n) { NEED(exponentialMap); NEED(logarithmicMap); Real h = half("h", R(50001, 10000000), PI2); kv::assume(kv::gt(sin(h), R(1, 1000))); Q q = turn(h, n); V3 v(q.x(), q.y(), q.z()); rnorm(v, sin(h)); V3 l = logarithmicMap(q); prove("the logarithm is the rotation vector", same(l, 2 * h * n)); rnorm(l, 2 * h); prove("the exponential inverts the logarithm", same(exponentialMap(l), q)); kv::assume(kv::gt(cos(h), R(0))); V3 m = logarithmicMap(neg(q)); prove("a quaternion and its negative have the same logarithm", same(m, l)); }
KV_CASE(exp_of_log_axes) { heads("unit quaternions with angles 0.01 .. pi about four axes, both signs"); exp_of_log(axis_num(kv::choice("axis", 4))); }
KV_CASE(exp_of_log_any) { heads("unit quaternions with angles 0.01 .. pi about every axis, both signs"); exp_of_log(axis_any()); }
KV_CASE(log_unnormalised) { heads("quaternions of any positive length about four axes"); NEED(logarithmicMap); V3 n = axis_num(kv::choice("axis", 4)); Real h = half("h", R(50001, 10000000), PI2), c = input("length", 0.5, 2); kv::assume(kv::gt(c, R(0))); kv::assume(kv::gt(sin(h), R(1, 1000))); Q q = turn(h, n), p(c * q.w(), c * q.x(), c * q.y(), c * q.z()); V3 v(q.x(), q.y(), q.z()); rnorm(v, sin(h)); double pp = c * c; kv::lemma_sqrt("length of the quaternion", pp, c); prove("the logarithm does not depend on the length", same(logarithmicMap(p), 2 * h * n)); }
KV_CASE(hamilton_products) { heads("every pair of quaternions"); NEED(toQuaternionMatrix); NEED(skewMatrix); Q a(input("aw"), input("ax"), input("ay"), input("az")), b(input("bw"), input("bx"), input("by"), input("bz")); Eigen::Vector4d vb(b.w(), b.x(), b.y(), b.z()); Eigen::Vector4d ab = toQuaternionMatrix(a, false) * vb, ba = toQuaternionMatrix(a, true) * vb; Q h = mulq(a, b), g = mulq(b, a); prove("the quaternion matrix multiplies from the left", same(Q(ab[0], ab[1], ab[2], ab[3]), h)); prove("the conjugate quaternion matrix multiplies from the right", same(Q(ba[0], ba[1], ba[2], ba[3]), g)); V3 u = vec("u"), w = vec("w"); V3 c(u.y() * w.z() - u.z() * w.y(), u.z() * w.x() - u.x() * w.z(), u.x() * w.y() - u.y() * w.x()); prove("the skew matrix is the cross product", same(V3(skewMatrix(u) * w), c)); }
// ------------------------------------------------------------------ errors, required and integrated velocities
static void relative(const Q& c, const V3& n, int signs) {
  kv::under_contract("momentumopt::orientationError"); kv::under_contract("momentumopt::requiredAngularVelocity"); kv::under_contract("momentumopt::integrateAngularVelocity"); Real h = half("h", R(50001, 10000000), R(157, 100)); kv::assume(kv::gt(sin(h), R(1, 1000))); kv::assume(kv::gt(cos(h), R(0))); Real dt = input("dt", 0.1, 1); kv::assume(kv::gt(dt, R(0))); Q dq = turn(h, n), d = mulq(dq, c), D = signs & 1 ? neg(d) : d, C = signs & 2 ? neg(c) : c; V3 v(dq.x(), dq.y(), dq.z()), r = 2 * h * n; rnorm(v, sin(h)); rnorm(r, 2 * h);
  V3 e = orientationError(D, C); prove("the orientation error rotates the current into the desired orientation, for either sign", same(e, r));
  V3 w = requiredAngularVelocity(D, C, dt); prove("the required angular velocity is the rotation per time", same(w, r / dt)); V3 wb = requiredAngularVelocity(D, C, dt, true), back = rotate(c, wb); prove("in body coordinates it is the same velocity seen from the body", same(back, r / dt));
  Q p = integrateAngularVelocity(C, w, dt); prove("integrating the required velocity reaches the desired orientation", rot_eq(p, d)); prove_eq("an integrated orientation has unit norm", n2(p), R(1)); Q pb = integrateAngularVelocity(C, wb, dt, true); prove("integrating the required body velocity reaches the desired orientation", rot_eq(pb, d)); prove_eq("an orientation integrated in the body has unit norm", n2(pb), R(1));
}
KV_CASE(relative_num) { heads("four current orientations, four axes, every angle in 0.01 .. pi, both signs of either quaternion"); int k = kv::choice("current", 4), a = kv::choice("axis", 4), s = kv::choice("signs", 4); relative(unit_num(k), axis_num(a), s); }
KV_CASE(relative_axis) { heads("one current orientation, every axis and angle in 0.01 .. pi"); relative(unit_num(0), axis_any(), 0); }
KV_CASE(relative_same) { heads("desired and current orientation equal, four orientations and both signs"); kv::under_contract("momentumopt::orientationError"); int k = kv::choice("current", 4); Q c = unit_num(k), d = kv::choice("sign", 2) ? neg(c) : c; V3 z(R(0), R(0), R(0)); prove("no error between equal orientations", same(orientationError(d, c), z)); prove("no velocity between equal orientations", same(requiredAngularVelocity(d, c, R(1, 2)), z)); prove("no motion without velocity", rot_eq(integrateAngularVelocity(c, z, R(1, 2), kv::choice("body", 2)), c)); }
KV_CASE(integrate) { heads("four orientations, four axes, every rate and time step with angle 0.01 .. pi"); kv::under_contract("momentumopt::integrateAngularVelocity"); Q c = unit_num(kv::choice("current", 4)); V3 n = axis_num(kv::choice("axis", 4)); Real h = half("h", R(50001, 10000000), PI2), dt = input("dt", 0.1, 1); kv::assume(kv::gt(dt, R(0))); V3 r = 2 * h * n, w = r / dt; rnorm(r, 2 * h); Q t = turn(h, n); prove("a world velocity turns the orientation from the left", rot_eq(integrateAngularVelocity(c, w, dt), mulq(t, c))); V3 rb = rotate(c, r); prove("a body velocity turns the orientation from the right", rot_eq(integrateAngularVelocity(c, w, dt, true), mulq(c, t))); }
// ------------------------------------------------------------------ derivatives
static M43 dexp(const Real& h, const V3& n) { M43 J; Real th = 2 * h; for (int j = 0; j < 3; j++) { J(0, j) = -sin(h) * n[j] / 2; for (int i = 0; i < 3; i++) J(1 + i, j) = cos(h) * n[j] * n[i] / 2 + sin(h) / th * ((i == j ? R(1) : R(0)) - n[i] * n[j]); } return J; }
KV_CASE(jacobian_quaternion) { heads("every axis, angles from 0.01"); NEED(jacobianQuaternionWrtRotationVector); kv::assumption("d(exp r) = (-sin(|r|/2) n'/2, cos(|r|/2) n n'/2 + sin(|r|/2)/|r| (I - n n')) dr, n = r/|r|"); V3 n = axis_any(); Real h = input("h", 0.1, 3); kv::assume(kv::ge(h, R(50001, 10000000))); V3 r = 2 * h * n; rnorm(r, 2 * h); prove("the Jacobian is the derivative of the exponential map", same(jacobianQuaternionWrtRotationVector(r), dexp(h, n))); }
KV_CASE(jacobian_small) { heads("four axes, angles below 0.01: error below 1e-5"); NEED(jacobianQuaternionWrtRotationVector); kv::assumption("x - x^3/6 <= sin x <= x and 1 - x^2/2 <= cos x <= 1 for x >= 0"); V3 n = axis_num(kv::choice("axis", 4)); Real h = input("h", 0.0001, 0.004); kv::assume(kv::gt(h, R(0))); kv::assume(kv::lt(h, R(1, 200))); kv::assume(kv::le(sin(h), h)); kv::assume(kv::ge(sin(h), h - h * h * h / 6)); kv::assume(kv::le(cos(h), R(1))); kv::assume(kv::ge(cos(h), 1 - h * h / 2)); V3 r = 2 * h * n; rnorm(r, 2 * h); M43 J = jacobianQuaternionWrtRotationVector(r), D = dexp(h, n); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) { Real d = J(i, j) - D(i, j), e = R(1, 100000); prove("the Jacobian is the derivative of the exponential map up to 1e-5", pand(kv::le(d, e), kv::le(-e, d))); } }
static void velocity(const V3& n) { NEED(toAngularVelocity); NEED(jacobianAngularVelocityWrtRotationVector); NEED(jacobianQuaternionWrtRotationVector); Real h = half("h", R(50001, 10000000), PI2); V3 r = 2 * h * n, rd = vec("rate"); rnorm(r, 2 * h); Q q = turn(h, n); M43 J = dexp(h, n); Eigen::Vector4d qd = J * rd; Q qdot(qd[0], qd[1], qd[2], qd[3]), ww = mulq(qdot, conjq(q)), wb = mulq(conjq(q), qdot); prove("world angular velocity of a rotation vector rate", same(toAngularVelocity(r, rd, false), V3(2 * ww.x(), 2 * ww.y(), 2 * ww.z()))); prove("body angular velocity of a rotation vector rate", same(toAngularVelocity(r, rd, true), V3(2 * wb.x(), 2 * wb.y(), 2 * wb.z()))); V3 half_w = jacobianAngularVelocityWrtRotationVector(r) * rd; prove("the velocity Jacobian is half the world angular velocity", same(half_w, V3(ww.x(), ww.y(), ww.z()))); }
KV_CASE(velocity_axes) { heads("four axes, angles 0.01 .. pi, every rate"); velocity(axis_num(kv::choice("axis", 4))); }
KV_CASE(velocity_any) { heads("every axis, angles 0.01 .. pi, every rate"); velocity(axis_any()); }
KV_CASE(velocity_inverse) { heads("four axes, angles 0.01 .. pi, every velocity"); NEED(fromAngularVelocity); NEED(toAngularVelocity); V3 n = axis_num(kv::choice("axis", 4)), w = vec("w"); int body = kv::choice("body", 2); Real h = half("h", R(50001, 10000000), PI2); V3 r = 2 * h * n; rnorm(r, 2 * h); V3 rd = fromAngularVelocity(r, w, body); prove("velocity to rate and back", same(toAngularVelocity(r, rd, body), w)); V3 x = vec("rate"), y = toAngularVelocity(r, x, body); prove("rate to velocity and back", same(fromAngularVelocity(r, y, body), x)); }
