// C16: contracts of StateBase / ControlBase / StateSequence / ControlSequence.
#include "kvh.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/OcpDescription.hpp>
using namespace solverlqr; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::truth; using kv::Prop;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static std::string S(int i) { return std::to_string(i); }
static Mat sym(const std::string& n, int r, int c) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = input(n + S(i) + S(j)); return m; }
template <class A, class B> static Prop same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return truth(false);
  Prop p = truth(true); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) p = pand(p, eq(a(i, j), b(i, j))); return p;
}
static StateBase st(const std::string& n, int x) { StateBase s(x); s.stateVector() = sym(n, x, 1); return s; }
static ControlBase ct(const std::string& n, int x, int u) { ControlBase c(x, u); c.feedforward() = sym(n + "k", u, 1); c.feedback() = sym(n + "K", u, x); return c; }
static Prop is(const StateBase& s, const Mat& v) { return same(s.stateVector(), v); }
static Prop is(const ControlBase& c, const Mat& k, const Mat& K) { return pand(same(c.feedforward(), k), same(c.feedback(), K)); }
static int pick(const char* n, int lo, int hi) { return lo + kv::choice(n, hi - lo + 1); }
KV_CASE(state_arithmetic) {
  for (auto f : {"operator=", "operator*", "operator*=", "operator+", "operator+=", "operator/", "operator/=", "operator- (free)", "operator* (free)", "resize"}) kv::under_contract(std::string("solverlqr::StateBase::") + f);
  kv::bounded("state dimension 0..3, all values");
  int n = pick("n", 0, 3); StateBase a = st("a", n), b = st("b", n); const StateBase ca = a, cb = b; Mat A = a.stateVector(), B = b.stateVector(); double s = input("s"); double d = input("d", 0.5, 2); kv::assume(kv::pnot(eq(d, 0.0)));
  prove("a copy equals the original", is(ca, A));
  prove("a+b adds entry by entry", is(a + b, A + B)); prove("a-b subtracts entry by entry", is(a - b, A - B)); prove("a*s scales", is(a * s, A * s)); prove("s*a scales", is(s * a, A * s)); prove("a/d divides", is(a / d, A / d));
  prove("the operators leave their operands alone", pand(is(a, A), is(b, B)));
  StateBase c(a); c += b; prove("a+=b adds", is(c, A + B)); prove("a+=b leaves b alone", is(b, B)); c = a; prove("a=b copies", is(c, A)); c *= s; prove("a*=s scales", is(c, A * s)); c = a; c /= d; prove("a/=d divides", is(c, A / d)); prove("a copy is independent", is(a, A));
  c = a; c += c; prove("a+=a doubles", is(c, A + A)); c = a; StateBase& r = c; c = r; prove("self assignment keeps the value", is(c, A));
  StateBase e = (a + b) / d - s * a; prove("compound expressions", is(e, (A + B) / d - s * A)); StateBase z(n); prove("a new state is zero", is(z, Mat::Zero(n, 1))); c.resize(n + 2); prove("a resized state is zero", is(c, Mat::Zero(n + 2, 1))); c = a; prove("assignment adapts the dimension", is(c, A));
}
KV_CASE(control_arithmetic) {
  for (auto f : {"ControlBase", "operator=", "operator*", "operator*=", "operator+", "operator+=", "operator* (free)", "setZero"}) kv::under_contract(std::string("solverlqr::ControlBase::") + f);
  kv::bounded("state dimension 0..2, control dimension 0..3, all values");
  int x = pick("x", 0, 2), u = pick("u", 0, 3); ControlBase a = ct("a", x, u), b = ct("b", x, u); const ControlBase ca = a, cb = b; Mat k = a.feedforward(), K = a.feedback(), q = b.feedforward(), Q = b.feedback(); double s = input("s");
  prove("a copy equals the original", is(ca, k, K));
  prove("a+b adds the feedforward terms and carries the feedback of b", is(a + b, k + q, Q)); prove("a*s scales the feedforward term only", is(a * s, k * s, K)); prove("s*a scales the feedforward term only", is(s * a, k * s, K)); prove("the operators leave their operands alone", pand(is(a, k, K), is(b, q, Q)));
  ControlBase c(a); c += b; prove("a+=b adds the feedforward terms and takes the feedback of b", is(c, k + q, Q)); prove("a+=b leaves b alone", is(b, q, Q)); c = a; prove("a=b copies", is(c, k, K)); c *= s; prove("a*=s scales the feedforward term only", is(c, k * s, K)); prove("a copy is independent", is(a, k, K));
  c = a; ControlBase& r = c; c = r; prove("self assignment keeps the value", is(c, k, K)); c += c; prove("a+=a doubles the feedforward term", is(c, k + k, K)); c = a + s * b; prove("compound expressions", is(c, k + s * q, Q));
  ControlBase z(x, u); prove("a new control is zero", is(z, Mat::Zero(u, 1), Mat::Zero(u, x))); c = a; c.setZero(); prove("setZero clears the feedforward term", same(c.feedforward(), Mat::Zero(u, 1)));
}
static ControlSequence cseq(const std::string& n, int t, int x, int u) { ControlSequence c(t, x, u); for (int i = 0; i < t; i++) c.control(i) = ct(n + S(i), x, u); return c; }
static Prop is(const ControlSequence& c, const std::vector<Mat>& k, const std::vector<Mat>& K) { if (c.size() != (int)k.size()) return truth(false); Prop p = truth(true); for (int i = 0; i < c.size(); i++) p = pand(p, is(c.control(i), k[i], K[i])); return p; }
KV_CASE(control_sequence_arithmetic) {
  for (auto f : {"operator=", "operator*", "operator*=", "operator+", "operator+=", "operator* (free)", "resize", "size", "control"}) kv::under_contract(std::string("solverlqr::ControlSequence::") + f);
  kv::bounded("0..3 time steps, state dimension 1..2, control dimension 1..2, all values");
  int t = pick("t", 0, 3), x = pick("x", 1, 2), u = pick("u", 1, 2); ControlSequence a = cseq("a", t, x, u), b = cseq("b", t, x, u); std::vector<Mat> k, K, q, Q, sum, sc, cmp; double s = input("s");
  for (int i = 0; i < t; i++) { k.push_back(a.control(i).feedforward()); K.push_back(a.control(i).feedback()); q.push_back(b.control(i).feedforward()); Q.push_back(b.control(i).feedback()); sum.push_back(k[i] + q[i]); sc.push_back(k[i] * s); cmp.push_back(k[i] + s * q[i]); }
  prove("a+b adds step by step and carries the feedback of b", is(a + b, sum, Q)); prove("a*s scales every feedforward term", is(a * s, sc, K)); prove("s*a scales every feedforward term", is(s * a, sc, K)); prove("a + s*b", is(a + s * b, cmp, Q)); prove("the operators leave their operands alone", pand(is(a, k, K), is(b, q, Q)));
  ControlSequence c(a); prove("a copy equals the original", is(c, k, K)); c += b; prove("a+=b adds step by step", is(c, sum, Q)); c = a; prove("a=b copies", is(c, k, K)); c *= s; prove("a*=s scales", is(c, sc, K)); prove("a copy is independent", pand(is(a, k, K), is(b, q, Q)));
  c = a; ControlSequence& r = c; c = r; prove("self assignment keeps the sequence", is(c, k, K)); ControlSequence d; d = a; prove("assignment to an empty sequence copies", is(d, k, K)); ControlSequence e(t + 2, x + 1, u + 1); e = a; prove("assignment adapts length and dimensions", is(e, k, K)); e = ControlSequence(); prove("assigning an empty sequence empties it", e.size() == 0);
  e = ControlSequence(0, x, u); prove("assigning a sequence without steps empties it", e.size() == 0);
  ControlSequence m(2, x, u); m.control(0) = ct("m0", x, u); m.control(1) = ct("m1", x + 1, u + 1); e = m; prove("assignment keeps the dimensions of every step", pand(is(e.control(0), m.control(0).feedforward(), m.control(0).feedback()), is(e.control(1), m.control(1).feedforward(), m.control(1).feedback())));
}
static Prop zero(const StateSequence& s, int t, int x) { if (s.size() != t) return truth(false); Prop p = truth(true); for (int i = 0; i < t; i++) p = pand(p, is(s.state(i), Mat::Zero(x, 1))); return p; }
static Prop zero(const ControlSequence& s, int t, int x, int u) { if (s.size() != t) return truth(false); Prop p = truth(true); for (int i = 0; i < t; i++) p = pand(p, is(s.control(i), Mat::Zero(u, 1), Mat::Zero(u, x))); return p; }
KV_CASE(resize_histories) {
  kv::under_contract("solverlqr::StateSequence::resize, StateSequence::StateSequence, size, state"); kv::under_contract("solverlqr::ControlSequence::resize, ControlSequence::ControlSequence, size, control"); kv::bounded("two resizes to 0..3 entries of dimension 1..2 after arbitrary contents; the state after a resize does not depend on what came before, so longer histories repeat this step");
  int t0 = pick("t0", 0, 3), x0 = pick("x0", 1, 2), u0 = pick("u0", 1, 2), t1 = pick("t1", 0, 3), x1 = pick("x1", 1, 2), u1 = pick("u1", 1, 2);
  StateSequence s(t0, x0); prove("a new state sequence has the requested zero entries", zero(s, t0, x0)); for (int i = 0; i < t0; i++) s.state(i) = st("a" + S(i), x0); const StateSequence cs = s; for (int i = 0; i < t0; i++) prove("entries keep what was stored", same(cs.state(i).stateVector(), sym("a" + S(i), x0, 1))); s.resize(t1, x1); prove("a resized state sequence has exactly the requested zero entries", zero(s, t1, x1)); s.resize(t0, x0); prove("a state sequence resized twice has exactly the requested zero entries", zero(s, t0, x0)); StateSequence d; prove("an empty state sequence", d.size() == 0); d.resize(t1, x1); prove("a state sequence resized from empty", zero(d, t1, x1));
  StateSequence e = cs; prove("a copied state sequence has the same length", e.size() == t0); for (int i = 0; i < t0; i++) prove("a copied state sequence", same(e.state(i).stateVector(), cs.state(i).stateVector())); d = cs; prove("an assigned state sequence has the same length", d.size() == t0); for (int i = 0; i < t0; i++) prove("an assigned state sequence", same(d.state(i).stateVector(), cs.state(i).stateVector())); d.resize(t1, x1); prove("a resized copy leaves the original alone", cs.size() == t0);
  ControlSequence c = cseq("c", t0, x0, u0); prove("the control sequence has the requested length", c.size() == t0); c.resize(t1, x1, u1); prove("a resized control sequence has exactly the requested zero entries", zero(c, t1, x1, u1)); c.resize(t0, x0, u0); prove("a control sequence resized twice has exactly the requested zero entries", zero(c, t0, x0, u0)); ControlSequence f(t1, x1, u1); prove("a new control sequence has the requested zero entries", zero(f, t1, x1, u1));
}
KV_CASE(gradient_norm) {
  kv::under_contract("solverlqr::ControlSequence::controlSequenceGradientNorm"); kv::bounded("1..2 time steps, control dimension 1..2, all values"); kv::lazy_max(true);
  int t = pick("t", 1, 2), u = pick("u", 1, 2); ControlSequence a = cseq("a", t, 1, u), b = cseq("b", t, 1, u); double w(0.0);
  for (int i = 0; i < t; i++) { Vec v(u); for (int j = 0; j < u; j++) v[j] = std::abs(a.control(i).feedforward()[j]) / (std::abs(b.control(i).feedforward()[j]) + 1); double m = v[0]; if (u > 1) m = (v[0] + v[1] + std::abs(v[0] - v[1])) / 2; w += m; }
  double got = ControlSequence::controlSequenceGradientNorm(a, b); prove_eq("mean over time of the largest relative step", got, w / t); prove("the norm is not negative", kv::ge(got, 0.0));
}
// the problem description allocates exactly the sequences its dimensions ask for, also when it is initialised again
struct Ocp : OcpBase { int configured = 0; void configure(const YAML::Node&) override { configured++; } StateBase dynamics(const StateBase& s, const ControlBase&, int) override { return s; } double objective(const StateBase&, const ControlBase&, int, bool) override { return 0.0; } };
KV_CASE(problem_initialize) {
  kv::under_contract("solverlqr::OcpBase::initialize, dt, tdim, xdim, udim, processNoiseFilter, measurementNoiseFilter"); kv::bounded("horizon 0..2, dimensions 1..2; initialised twice");
  SolverLqrSetting s; Ocp o; for (int k = 0; k < 2; k++) { int t = pick(k ? "t1" : "t0", 0, 2), x = pick(k ? "x1" : "x0", 1, 2), u = pick(k ? "u1" : "u0", 1, 2); double dt = input(k ? "dt1" : "dt0", 0.1, 1); s.get(SolverLqrIntParam_TimeDimension) = t; s.get(SolverLqrIntParam_StateDimension) = x; s.get(SolverLqrIntParam_ControlDimension) = u; s.get(SolverLqrDoubleParam_TimeStep) = dt; o.initialize(s);
    prove("one state per step and the final one, all zero", zero(o.stateSeq(), t + 1, x)); prove("one control per step, all zero", zero(o.controlSeq(), t, x, u)); prove("the problem reads its dimensions from the settings", o.tdim() == t && o.xdim() == x && o.udim() == u); prove_eq("the problem reads its time step from the settings", o.dt(), dt); prove("user parameters are handed over once per initialisation", o.configured == k + 1); prove("default noise filters are the identity", pand(same(o.processNoiseFilter(0), Mat::Identity(x, x)), same(o.measurementNoiseFilter(0), Mat::Identity(x, x))));
    for (int i = 0; i <= t; i++) o.stateSeq().state(i) = st("s" + S(k) + S(i), x); }
}
