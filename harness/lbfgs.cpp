// Contracts of lbfgs(): whatever the callback returns, for every line search.
#include "kvh.hpp"
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove; using kv::prove_le; using std::to_string;
typedef std::vector<double> V;
// ghost record of one run
struct Ghost {
  int n = 0; std::vector<V> x, g; V f, step;                       // evaluations
  std::vector<int> accepted, iter, trials; int cancel_at = -1, cancel_code = 0; bool concrete_f = false;   // progress events
  std::vector<V> fixed_g; V fixed_f; double fstart = 0.0;
};
static V vec(const double* p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = p[i]; return v; }
static double dot(const V& a, const V& b) { double s = 0.0; for (size_t i = 0; i < a.size(); i++) s = s + a[i] * b[i]; return s; }
static double evaluate(void* inst, const double* x, double* g, const int n, const double step) {
  Ghost& r = *reinterpret_cast<Ghost*>(inst); int k = r.x.size(); r.x.push_back(vec(x, n)); r.step.push_back(step);
  prove("the callback gets the number of variables", n == r.n);
  for (int i = 0; i < n; i++) g[i] = k < int(r.fixed_g.size()) ? r.fixed_g[k][i] : input("g" + to_string(k) + "," + to_string(i));
  double f = k < int(r.fixed_f.size()) ? r.fixed_f[k] : input("f" + to_string(k), -4.0, 4.0);
  r.g.push_back(vec(g, n)); r.f.push_back(f); return f;
}
static int progress(void* inst, const double* x, const double* g, const double fx, const double xnorm, const double gnorm, const double step, int n, int k, int ls) {
  Ghost& r = *reinterpret_cast<Ghost*>(inst); int e = r.x.size() - 1; r.accepted.push_back(e); r.iter.push_back(k); r.trials.push_back(ls);
  prove("progress reports the number of variables", n == r.n); prove("progress reports the iteration number", k == int(r.accepted.size()));
  for (int i = 0; i < n; i++) { prove_eq("progress reports the point just evaluated", x[i], r.x[e][i]); prove_eq("progress reports the gradient just evaluated", g[i], r.g[e][i]); }
  prove_eq("progress reports the cost just evaluated", fx, r.f[e]); prove_eq("progress reports the step of that evaluation", step, r.step[e]);
  double xx = dot(r.x[e], r.x[e]), gg = dot(r.g[e], r.g[e]); prove_eq("reported norm of the point", xnorm * xnorm, xx); prove_eq("reported norm of the gradient", gnorm * gnorm, gg);
  prove("norms are not negative", kv::pand(kv::ge(xnorm, 0.0), kv::ge(gnorm, 0.0)));
  if (r.cancel_at == k) return r.cancel_code; return 0;
}
// the reported point is an accepted one (or the start), with its own cost
static bool failed_search(int ret) { return ret < 0 && ret != LBFGSERR_MAXIMUMITERATION; }
static void reported(Ghost& r, int ret, const double* x, double fx, bool strict = false) {
  int e = 0; if (!r.accepted.empty()) e = r.accepted.back();
  for (int i = 0; i < r.n; i++) prove_eq("the returned point is the last accepted one", x[i], r.x[e][i]);
  bool cancelled = r.cancel_at >= 0 && int(r.accepted.size()) == r.cancel_at;
  if (cancelled || !failed_search(ret)) prove_eq("the returned cost is the cost of the returned point", fx, r.f[e]);
  else if (strict) prove_eq("the cost returned after a failed line search is the cost of the returned point", fx, r.f[e]);
  else prove("the cost returned after a failed line search is that of the returned point or of the last trial", kv::por(kv::eq(fx, r.f[e]), kv::eq(fx, r.f.back())));
  for (size_t k = 0; k < r.accepted.size(); k++) prove_le("the cost never increases over accepted iterations", r.f[r.accepted[k]], k == 0 ? r.f[0] : r.f[r.accepted[k - 1]]);
}
struct Setup { lbfgs_parameter_t p; Setup() { lbfgs_parameter_init(&p); p.max_iterations = 1; p.epsilon = 0.0; } };
static void acceptance(Ghost& r, const lbfgs_parameter_t& p, int prev, int e, const V& d) {
  double dg0 = dot(r.g[prev], d), dg = dot(r.g[e], d); double t = r.step[e];
  prove_le("the step direction is not ascending", dg0, 0.0);
  prove_le("an accepted step decreases the cost sufficiently", r.f[e], r.f[prev] + p.ftol * t * dg0);
  prove("an accepted step is within the step bounds", kv::pand(kv::le(p.min_step, t), kv::le(t, p.max_step)));
  prove("an accepted step is positive or at its lower bound", kv::ge(t, 0.0));
  if (p.linesearch == LBFGS_LINESEARCH_BACKTRACKING_WOLFE) prove_le("Wolfe condition", p.wolfe * dg0, dg);
  if (p.linesearch == LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE) { prove_le("strong Wolfe condition, lower", p.wolfe * dg0, dg); prove_le("strong Wolfe condition, upper", dg, -(p.wolfe * dg0)); }
  if (p.linesearch == LBFGS_LINESEARCH_MORETHUENTE) { prove_le("curvature condition, lower", p.gtol * dg0, dg); prove_le("curvature condition, upper", dg, -(p.gtol * dg0)); }
}
// one iteration, first direction is the negative gradient
static void one_search(int kind, int n, int trials, bool unit, bool numeric = false, bool strict = false, int menu = 0) {
  Setup s; lbfgs_parameter_t& p = s.p; p.linesearch = kind; p.max_linesearch = trials;
  p.ftol = input("ftol", 0.0, 0.4); p.wolfe = input("wolfe", 0.5, 0.95); p.gtol = input("gtol", 0.0, 0.95); p.min_step = input("min_step", 0.0, 0.3); p.max_step = input("max_step", 0.3, 3.0);
  if (numeric) { p.ftol = 0.125; p.gtol = 0.5; p.min_step = 0.015625; p.max_step = 8.0; }
  kv::assume(kv::pand(kv::pand(kv::le(0.0, p.ftol), kv::lt(p.ftol, p.wolfe)), kv::pand(kv::lt(p.wolfe, 1.0), kv::le(0.0, p.gtol)))); kv::assume(kv::pand(kv::le(0.0, p.min_step), kv::le(p.min_step, p.max_step))); kv::assume(kv::lt(0.0, p.max_step));
  Ghost r; r.n = n; if (numeric) r.fixed_f.push_back(0.0); if (unit) { V g(n); for (int i = 0; i < n; i++) g[i] = 0.0; g[0] = 0.6; if (n == 2) g[1] = 0.8; r.fixed_g.push_back(g); }
  // menu: the slope (and for menu 2 the cost) of the first trial along the direction is one of a few numbers
  if (menu) { double gm[] = {0.75, 0.25, -0.75, -0.125, -1.25}; V g = r.fixed_g[0]; double t = -gm[kv::choice("slope of the first trial", 5)]; for (int i = 0; i < n; i++) g[i] = g[i] * t; r.fixed_g.push_back(g); }
  if (menu == 2) { double fm[] = {0.5, -0.0625, -0.5, -1.25}; r.fixed_f.push_back(fm[kv::choice("cost of the first trial", 4)]); }
  V x(n); for (int i = 0; i < n; i++) { if (menu) x[i] = 0.5; else x[i] = input("x" + to_string(i)); } V x0 = x; double fx = input("unused");
  int ret = lbfgs(n, x.data(), &fx, evaluate, progress, &r, &p);
  prove("the start is evaluated first", !r.x.empty()); for (int i = 0; i < n; i++) prove_eq("the start is evaluated first", r.x[0][i], x0[i]);
  prove("at most the allowed number of trials", int(r.x.size()) <= 1 + trials); V d(n); for (int i = 0; i < n; i++) d[i] = -r.g[0][i];
  for (size_t e = 1; e < r.x.size(); e++) for (int i = 0; i < n; i++) prove_eq("every trial lies along the negative gradient", r.x[e][i], x0[i] + r.step[e] * d[i]);
  prove("one accepted step at most", r.accepted.size() <= 1);
  if (!r.accepted.empty()) { acceptance(r, p, 0, r.accepted[0], d); prove("number of trials is reported", r.trials[0] == int(r.x.size()) - 1); prove("a successful search ends by convergence or by the iteration limit", ret == LBFGS_SUCCESS || ret == LBFGSERR_MAXIMUMITERATION || ret == LBFGS_STOP); }
  else prove("no accepted step: an error or already minimal", ret < 0 || ret == LBFGS_ALREADY_MINIMIZED);
  reported(r, ret, x.data(), fx, strict);
}
static void heads(const std::string& f, const std::string& b) { kv::under_contract(f); kv::bounded(b); kv::set_max_paths(20000); kv::set_timeouts(1000, 20000); kv::require_defined(false); kv::assumption("the L-BFGS quotients by values of the user's callback (ys/yy, alpha/ys, the cubic minimisers) are not required to be defined: a zero divisor ends in an IEEE special value, which the reported status covers"); }
KV_CASE(armijo) { heads("lbfgs, line_search_backtracking (Armijo)", "1 variable, up to 3 trials, every gradient, cost, tolerance and step bound"); one_search(LBFGS_LINESEARCH_BACKTRACKING_ARMIJO, 1, 1 + kv::choice("trials", 3), false); }
KV_CASE(wolfe) { heads("lbfgs, line_search_backtracking (Wolfe)", "1 variable, up to 3 trials"); one_search(LBFGS_LINESEARCH_BACKTRACKING_WOLFE, 1, 1 + kv::choice("trials", 3), false); }
KV_CASE(strong_wolfe) { heads("lbfgs, line_search_backtracking (strong Wolfe)", "1 variable, up to 3 trials"); one_search(LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE, 1, 1 + kv::choice("trials", 3), false); }
KV_CASE(backtracking_plane) { heads("lbfgs, line_search_backtracking (all conditions)", "2 variables, first gradient (0.6, 0.8), up to 2 trials"); one_search(1 + kv::choice("kind", 3), 2, 1 + kv::choice("trials", 2), true); }
KV_CASE(more_thuente_1) { heads("lbfgs, line_search_morethuente", "1 variable, 1 trial"); one_search(LBFGS_LINESEARCH_MORETHUENTE, 1, 1, false); }
KV_CASE(more_thuente_2) { heads("lbfgs, line_search_morethuente, update_trial_interval", "1 variable, first gradient of unit length, initial cost 0, ftol 1/8, gtol 1/2, step bounds 1/64 and 8, 2 trials, first trial: every cost, 5 slopes; second trial arbitrary"); kv::set_timeouts(150, 20000); one_search(LBFGS_LINESEARCH_MORETHUENTE, 1, 2, true, true, false, 1); }
KV_CASE(more_thuente_3_deep) { heads("lbfgs, line_search_morethuente, update_trial_interval", "as before, 3 trials, first trial: 4 costs, 5 slopes; later trials arbitrary"); kv::set_timeouts(150, 20000); one_search(LBFGS_LINESEARCH_MORETHUENTE, 1, 3, true, true, false, 2); }
KV_CASE(more_thuente_plane) { heads("lbfgs, line_search_morethuente, update_trial_interval", "2 variables, first gradient (0.6, 0.8), as before with 2 trials, first trial: 4 costs, 5 slopes; second trial arbitrary"); kv::set_timeouts(150, 20000); one_search(LBFGS_LINESEARCH_MORETHUENTE, 2, 2, true, true, false, 2); }
KV_CASE(failed_search_cost) { heads("lbfgs (failed line search)", "1 variable, 1 trial, every line search"); one_search(kv::choice("kind", 4), 1, 1, true, true, true); }
// acceptance of several iterations: steps and costs arbitrary, gradients given by a strictly convex pattern so that every direction descends
static double norm2(const V& a) { return dot(a, a); }
KV_CASE(iterations) { heads("lbfgs (iteration protocol, stopping tests)", "1 variable, up to 3 iterations, Armijo search with 1 trial, every cost, tolerance and stopping parameter");
  Setup s; lbfgs_parameter_t& p = s.p; p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; p.max_linesearch = 1; p.max_iterations = 1 + kv::choice("iterations", 3); p.m = 1 + kv::choice("m", 2); p.past = kv::choice("past", 3); p.epsilon = input("epsilon", 0.0, 0.2); p.delta = input("delta", 0.0, 0.2); p.ftol = 0.125; kv::assume(kv::pand(kv::ge(p.epsilon, 0.0), kv::ge(p.delta, 0.0)));
  Ghost r; r.n = 1; double gs[] = {1.0, 0.5, 0.25, 0.125}; double fs[] = {1.0}; for (int i = 0; i < 4; i++) { V g(1); g[0] = gs[i]; r.fixed_g.push_back(g); }
  double x[1], fx; x[0] = 1.0; int ret = lbfgs(1, x, &fx, evaluate, progress, &r, &p); int k = r.accepted.size();
  reported(r, ret, x, fx); prove("no more iterations than allowed", k <= p.max_iterations);
  auto small = [&](int e) { double n = norm2(r.x[e]); return kv::le(norm2(r.g[e]), p.epsilon * p.epsilon * std::max(double(1.0), n)); };
  prove("already minimal exactly for a small initial gradient", kv::iff(kv::truth(ret == LBFGS_ALREADY_MINIMIZED), small(0)));
  int e = 0; if (k) e = r.accepted.back();
  if (ret == LBFGS_SUCCESS) prove("converged only at a small gradient", small(e)); else for (int i = 0; i < k; i++) prove("no step is taken from a converged point", kv::pnot(small(r.accepted[i])));
  auto f_at = [&](int i) { return i == 0 ? r.f[0] : r.f[r.accepted[i - 1]]; };
  for (int i = 1; i <= k; i++) if (p.past > 0 && i >= p.past) { double fi = f_at(i); kv::assume(kv::pnot(kv::eq(fi, 0.0))); kv::Prop slow = kv::lt((f_at(i - p.past) - fi) / fi, p.delta); if (i == k && ret == LBFGS_STOP) prove("stopped only for lack of progress over the given period", slow); else if (!(i == k && ret == LBFGS_SUCCESS)) prove("stops when progress over the given period is too small", kv::pnot(slow)); }
  prove("stops by lack of progress only if asked to", ret != LBFGS_STOP || (p.past > 0 && k >= p.past));
  prove("the iteration limit is reported exactly when it is reached", (ret == LBFGSERR_MAXIMUMITERATION) ? k == p.max_iterations : (k < p.max_iterations || ret == LBFGS_SUCCESS || ret == LBFGS_STOP)); }
KV_CASE(cancel) { heads("lbfgs (cancellation by the progress callback)", "1 variable, up to 2 iterations"); Setup s; lbfgs_parameter_t& p = s.p; p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; p.max_linesearch = 1; p.max_iterations = 0; Ghost r; r.n = 1; r.cancel_at = 1 + kv::choice("at", 2); r.cancel_code = kv::choice("sign", 2) ? 7 : -7; double gs[] = {1.0, 0.5, 0.25, 0.125}; for (int i = 0; i < 4; i++) { V g(1); g[0] = gs[i]; r.fixed_g.push_back(g); }
  double x[1], fx; x[0] = input("x"); int ret = lbfgs(1, x, &fx, evaluate, progress, &r, &p); reported(r, ret, x, fx); if (int(r.accepted.size()) == r.cancel_at) { prove("the code of the callback is returned", ret == r.cancel_code); prove("nothing is evaluated after a cancellation", int(r.x.size()) == r.cancel_at + 1); } else prove("only a failed search ends an unlimited run that never converges", failed_search(ret)); }
// directions: the dense BFGS inverse of the stored pairs (newest pair scales the initial matrix)
typedef std::vector<V> M;
static V times(const M& a, const V& b) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = dot(a[i], b); return r; }
static V minus(const V& a, const V& b) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[i] - b[i]; return r; }
static M bfgs(const std::vector<V>& s, const std::vector<V>& y, int m) {
  int n = s[0].size(), k = s.size(); M h(n, V(n)); double sy = dot(s[k - 1], y[k - 1]), yy = dot(y[k - 1], y[k - 1]); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { h[i][j] = 0.0; if (i == j) h[i][j] = sy / yy; }
  for (int q = std::max(0, k - m); q < k; q++) { double rho = dot(s[q], y[q]); V hy = times(h, y[q]); double yhy = dot(y[q], hy); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h[i][j] = h[i][j] - (hy[i] * s[q][j] + s[q][i] * hy[j]) / rho + (yhy / rho + 1.0) * s[q][i] * s[q][j] / rho; }
  return h;
}
static void directions(int n, int m, int iterations, const std::vector<V>& g, double x0) {
  Setup s; lbfgs_parameter_t& p = s.p; p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; p.max_linesearch = 1; p.max_iterations = iterations; p.m = m; p.ftol = 0.0; p.min_step = 0.0; p.max_step = 1e6;
  Ghost r; r.n = n; r.fixed_g = g; for (int i = 0; i <= iterations; i++) r.fixed_f.push_back(10.0 - i); V x(n); for (int i = 0; i < n; i++) x[i] = x0; double fx; lbfgs(n, x.data(), &fx, evaluate, progress, &r, &p);
  std::vector<V> ss, ys;
  for (size_t e = 1; e < r.x.size(); e++) { V d(n); if (e == 1) { for (int i = 0; i < n; i++) d[i] = -r.g[0][i]; } else { ss.push_back(minus(r.x[e - 1], r.x[e - 2])); ys.push_back(minus(r.g[e - 1], r.g[e - 2])); M h = bfgs(ss, ys, m); V hg = times(h, r.g[e - 1]); for (int i = 0; i < n; i++) d[i] = -hg[i]; }
    for (int i = 0; i < n; i++) prove_eq("the step follows the limited-memory BFGS direction", r.x[e][i] - r.x[e - 1][i], r.step[e] * d[i]); } }
static V v2(double a, double b) { V v(2); v[0] = a; v[1] = b; return v; }
KV_CASE(direction_line) { heads("lbfgs (two-loop recursion)", "1 variable, memory 1..3, 3 iterations, gradients of the second and third point arbitrary"); std::vector<V> g; V a(1); a[0] = 1.0; g.push_back(a); directions(1, 1 + kv::choice("m", 3), 3, g, 0.5); }
KV_CASE(direction_plane_2) { heads("lbfgs (two-loop recursion)", "2 variables, memory 1..3, 2 iterations, first gradient (0.6, 0.8), second arbitrary"); kv::set_timeouts(150, 20000); std::vector<V> g; g.push_back(v2(0.6, 0.8)); directions(2, 1 + kv::choice("m", 3), 2, g, 0.5); }
KV_CASE(direction_plane_3) { heads("lbfgs (two-loop recursion)", "2 variables, memory 1..3, 3 iterations, one symbolic component in each later gradient"); kv::set_timeouts(150, 20000); std::vector<V> g; g.push_back(v2(0.6, 0.8)); g.push_back(v2(0.25, input("a", 0.0, 0.3))); g.push_back(v2(input("b", 0.0, 0.3), 0.125)); directions(2, 1 + kv::choice("m", 3), 3, g, 0.5); }
KV_CASE(direction_plane_5) { heads("lbfgs (two-loop recursion, memory wrap-around)", "2 variables, memory 1..4, 5 iterations, one symbolic component"); kv::set_timeouts(150, 20000); std::vector<V> g; g.push_back(v2(0.6, 0.8)); g.push_back(v2(0.5, 0.25)); g.push_back(v2(0.125, 0.375)); g.push_back(v2(0.25, -0.125)); g.push_back(v2(input("a", 0.0, 0.3), 0.0625)); directions(2, 1 + kv::choice("m", 4), 5, g, 0.5); }
// parameters: rejected with the documented code, without any evaluation
KV_CASE(parameters) { heads("lbfgs (parameter validation)", "each parameter alone out of its documented range, every value"); Setup s; lbfgs_parameter_t& p = s.p; p.epsilon = 0.1; int n = 1, code = 0; double bad = input("bad", 0.1, 3.0); kv::assume(kv::gt(bad, 0.0)); int kind = kv::choice("line search", 4); p.linesearch = kind;
  switch (kv::choice("parameter", 13)) {
    case 0: n = -kv::choice("n", 3); code = LBFGSERR_INVALID_N; break;
    case 1: p.epsilon = -bad; code = LBFGSERR_INVALID_EPSILON; break;
    case 2: p.past = -1 - kv::choice("past", 2); code = LBFGSERR_INVALID_TESTPERIOD; break;
    case 3: p.delta = -bad; code = LBFGSERR_INVALID_DELTA; break;
    case 4: p.min_step = -bad; code = LBFGSERR_INVALID_MINSTEP; break;
    case 5: p.min_step = 0.5; p.max_step = 0.5 - bad; code = LBFGSERR_INVALID_MAXSTEP; break;
    case 6: p.ftol = -bad; code = LBFGSERR_INVALID_FTOL; break;
    case 7: p.wolfe = p.ftol - (bad - 0.0); if (kind == 2 || kind == 3) code = LBFGSERR_INVALID_WOLFE; break;
    case 8: p.wolfe = 1.0 + bad; if (kind == 2 || kind == 3) code = LBFGSERR_INVALID_WOLFE; break;
    case 9: p.gtol = -bad; code = LBFGSERR_INVALID_GTOL; break;
    case 10: p.xtol = -bad; code = LBFGSERR_INVALID_XTOL; break;
    case 11: p.max_linesearch = -kv::choice("count", 3); code = LBFGSERR_INVALID_MAXLINESEARCH; break;
    default: p.linesearch = kv::choice("low or high", 2) ? 4 : -1; code = LBFGSERR_INVALID_LINESEARCH; break; }
  Ghost r; r.n = 1; V z(1); z[0] = 0.0; r.fixed_g.push_back(z); double x[1], fx; x[0] = input("x"); double x0 = x[0]; int ret = lbfgs(n, x, &fx, evaluate, progress, &r, &p);
  if (code) { prove("the documented code", ret == code); prove("nothing is evaluated", r.x.empty()); } else { prove("parameters of another line search are not judged", ret == LBFGS_ALREADY_MINIMIZED); } prove_eq("the point is left alone", x[0], x0); }
KV_CASE(valid_parameters) { heads("lbfgs (parameter validation)", "every value in the documented ranges"); Setup s; lbfgs_parameter_t& p = s.p; p.linesearch = kv::choice("line search", 4); p.epsilon = input("epsilon", 0, 1); p.delta = input("delta", 0, 1); p.min_step = input("min_step", 0, 1); p.max_step = input("max_step", 1, 2); p.ftol = input("ftol", 0, 0.4); p.wolfe = input("wolfe", 0.5, 0.9); p.gtol = input("gtol", 0, 1); p.xtol = input("xtol", 0, 1); p.past = kv::choice("past", 2); p.max_linesearch = 1 + kv::choice("trials", 2); p.max_iterations = kv::choice("iterations", 2);
  for (double v : {p.epsilon, p.delta, p.min_step, p.ftol, p.gtol, p.xtol}) kv::assume(kv::ge(v, 0.0)); kv::assume(kv::ge(p.max_step, p.min_step)); kv::assume(kv::pand(kv::lt(p.ftol, p.wolfe), kv::lt(p.wolfe, 1.0)));
  Ghost r; r.n = 1; V z(1); z[0] = 0.0; r.fixed_g.push_back(z); double x[1], fx; x[0] = input("x"); double x0 = x[0]; int ret = lbfgs(1, x, &fx, evaluate, progress, &r, &p); prove("accepted: a stationary start is already minimal", ret == LBFGS_ALREADY_MINIMIZED); prove("one evaluation", r.x.size() == 1); prove_eq("its point", x[0], x0); prove_eq("its cost", fx, r.f[0]);
  lbfgs_parameter_t d; lbfgs_parameter_init(&d); Ghost q; q.n = 1; q.fixed_g.push_back(z); q.fixed_f.push_back(0.0); prove("default parameters are valid", lbfgs(1, x, &fx, evaluate, progress, &q, &d) == LBFGS_ALREADY_MINIMIZED); Ghost t; t.n = 1; t.fixed_g.push_back(z); t.fixed_f.push_back(0.0); prove("no parameters means the default ones, no cost wanted, no progress wanted", lbfgs(1, x, nullptr, evaluate, nullptr, &t, nullptr) == LBFGS_ALREADY_MINIMIZED); }
KV_CASE(more_thuente_symbolic_deep) { heads("lbfgs, line_search_morethuente, update_trial_interval", "1 variable, first gradient of unit length, 2 trials, everything else arbitrary"); kv::set_timeouts(150, 20000); one_search(LBFGS_LINESEARCH_MORETHUENTE, 1, 2, true); }
