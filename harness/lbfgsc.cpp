// Contracts of the LbfgsSolver class; lbfgs() itself is replaced by its contract (it may call the
// callbacks at any point and returns a point with its cost; decided in lbfgs.cpp).
#include "kvh.hpp"
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver; using kv::input; using kv::prove_eq; using kv::prove; using kv::prove_le; using std::to_string;
typedef std::vector<double> V;
struct Quad { std::vector<V> q; V b; double c; double value(const double* x) const { double r = c; for (size_t i = 0; i < b.size(); i++) { r = r + b[i] * x[i]; for (size_t j = 0; j < b.size(); j++) r = r + 0.5 * q[i][j] * x[i] * x[j]; } return r; } double slope(const double* x, int k) const { double r = b[k]; for (size_t j = 0; j < b.size(); j++) r = r + 0.5 * (q[k][j] + q[j][k]) * x[j]; return r; } };
struct Nlp : NlpDescription { int n, m; Quad f; std::vector<V> a; V c, xl, xu, gl, gu, start; int processed = 0;
  void getNlpParameters(int& nv, int& nc) override { nv = n; nc = m; }
  void getNlpBounds(int nv, int nc, double* l, double* u, double* gll, double* guu) override { prove("sizes are passed on", nv == n && nc == m); for (int i = 0; i < n; i++) { l[i] = xl[i]; u[i] = xu[i]; } for (int i = 0; i < m; i++) { gll[i] = gl[i]; guu[i] = gu[i]; } }
  void getStartingPoint(int nv, double* x) override { prove("sizes are passed on", nv == n); for (int i = 0; i < n; i++) x[i] = start[i]; }
  double evaluateObjective(int nv, const double* x) override { prove("sizes are passed on", nv == n); return f.value(x); }
  double con(int k, const double* x) const { double r = c[k]; for (int i = 0; i < n; i++) r = r + a[k][i] * x[i]; return r; }
  void evaluateConstraintsVector(int nv, int nc, const double* x, double* g) override { prove("sizes are passed on", nv == n && nc == m); for (int k = 0; k < m; k++) g[k] = con(k, x); } };
static std::function<int(int, double*, double*, lbfgs_evaluate_t, lbfgs_progress_t, void*, lbfgs_parameter_t*)> the_lbfgs;
namespace solver { int lbfgs(int n, double* x, double* fx, lbfgs_evaluate_t e, lbfgs_progress_t p, void* inst, lbfgs_parameter_t* par) { return the_lbfgs(n, x, fx, e, p, inst, par); } }
// signed distance outside [l,u] with a margin from the kinks, so that the penalty is a single quadratic around the point
static double outside(int where, double v, double l, double u) { double far = 0.01; if (where == 0) { kv::assume(kv::pand(kv::gt(v, l + far), kv::lt(v, u - far))); return 0.0; } if (where == 1) { kv::assume(kv::lt(v, l - far)); return v - l; } kv::assume(kv::gt(v, u + far)); return v - u; }
static void gradient(int n, int m) {
  Nlp p; p.n = n; p.m = m; p.f.c = input("c"); for (int i = 0; i < n; i++) { V row(n); for (int j = 0; j < n; j++) row[j] = input("q" + to_string(i) + to_string(j)); p.f.q.push_back(row); p.f.b.push_back(input("b" + to_string(i))); p.start.push_back(input("start" + to_string(i))); p.xl.push_back(input("xl" + to_string(i), -1.5, -0.5)); p.xu.push_back(input("xu" + to_string(i), 0.5, 1.5)); kv::assume(kv::lt(p.xl[i], p.xu[i])); }
  double as[] = {1.0, 2.0, -1.0, 0.5}; for (int k = 0; k < m; k++) { V row(n); for (int i = 0; i < n; i++) row[i] = as[(k * 2 + i) % 4]; p.a.push_back(row); p.c.push_back(input("d" + to_string(k))); p.gl.push_back(input("gl" + to_string(k), -1.5, -0.5)); p.gu.push_back(input("gu" + to_string(k), 0.5, 1.5)); kv::assume(kv::lt(p.gl[k], p.gu[k])); }
  double w = input("weight", 0.1, 3.0); LbfgsSolver s; prove("initialised", s.initialize(&p, w)); s.opt_params().max_iterations = 7; V x(n), keep(n); std::vector<int> wx(n), wg(m); for (int i = 0; i < n; i++) { x[i] = input("x" + to_string(i), -3.0, 3.0); keep[i] = x[i]; wx[i] = kv::choice("variable " + to_string(i), 3); } for (int k = 0; k < m; k++) wg[k] = kv::choice("constraint " + to_string(k), 3); V end(n); for (int i = 0; i < n; i++) end[i] = input("end" + to_string(i)); double cost = input("final cost"); int calls = 0;
  the_lbfgs = [&](int nn, double* xx, double* fx, lbfgs_evaluate_t e, lbfgs_progress_t pr, void* inst, lbfgs_parameter_t* par) { calls++; prove("number of variables", nn == n); prove("the parameters of the user are used", par && par->max_iterations == 7 && par->m == 6); for (int i = 0; i < n; i++) prove_eq("starts at the starting point of the problem", xx[i], p.start[i]);
    V ex, eg; for (int i = 0; i < n; i++) ex.push_back(outside(wx[i], x[i], p.xl[i], p.xu[i])); for (int k = 0; k < m; k++) eg.push_back(outside(wg[k], p.con(k, x.data()), p.gl[k], p.gu[k]));
    V g(n); double f = e(inst, x.data(), g.data(), n, 1.0); double v = 0.0; for (double t : ex) v = v + t * t; for (double t : eg) v = v + t * t; prove_eq("cost of the requested point", f, p.f.value(x.data()) + w * v);
    for (int i = 0; i < n; i++) { double d = p.f.slope(x.data(), i) + w * 2.0 * ex[i]; for (int k = 0; k < m; k++) d = d + w * 2.0 * eg[k] * p.a[k][i]; prove_eq("central differences are exact for quadratics", g[i], d); prove_eq("the point is left unchanged", x[i], keep[i]); }
    prove("progress never cancels", pr(inst, x.data(), g.data(), f, 1.0, 1.0, 1.0, n, 1, 1) == 0); for (int i = 0; i < n; i++) xx[i] = end[i]; *fx = cost; return 0; };
  s.optimize(); prove("lbfgs is called once", calls == 1); prove("size of the result", p.optimalVector().size() == n); for (int i = 0; i < n && i < p.optimalVector().size(); i++) prove_eq("result of lbfgs", p.optimalVector()(i), end[i]); prove_eq("cost of lbfgs", p.optimalValue(), cost); }
static void heads(const std::string& f, const std::string& b) { kv::under_contract(f); kv::bounded(b); kv::assumption("lbfgs replaced by its contract"); kv::assumption("points at least 0.01 away from the bounds (the penalty is not differentiable twice there)"); kv::set_max_paths(20000); kv::set_timeouts(300, 20000); }
KV_CASE(line) { heads("LbfgsSolver::initialize/optimize/evaluate/evaluate_objective_function and delegates", "1 variable, 0..1 linear constraints, every quadratic cost, bound and weight"); gradient(1, kv::choice("constraints", 2)); }
KV_CASE(plane) { heads("LbfgsSolver::initialize/optimize/evaluate/evaluate_objective_function and delegates", "2 variables, 0..1 linear constraints, every quadratic cost, bound and weight"); gradient(2, kv::choice("constraints", 2)); }
KV_CASE(uninitialised) { heads("LbfgsSolver::optimize", "not initialised"); LbfgsSolver s; int calls = 0; the_lbfgs = [&](int, double*, double*, lbfgs_evaluate_t, lbfgs_progress_t, void*, lbfgs_parameter_t*) { calls++; return 0; }; s.optimize(); prove("nothing is run before initialisation", calls == 0); }
// two solvers at once: each evaluates its own problem
KV_CASE(two_solvers) { heads("LbfgsSolver delegates", "two solvers with different problems, interleaved"); Nlp p[2]; LbfgsSolver s[2]; double c[2]; for (int k = 0; k < 2; k++) { p[k].n = 1; p[k].m = 0; c[k] = input("c" + to_string(k)); p[k].f.c = c[k]; p[k].f.q.push_back(V(1, double(0.0))); p[k].f.b.push_back(double(0.0)); p[k].start.push_back(double(0.0)); p[k].xl.push_back(double(-1.0)); p[k].xu.push_back(double(1.0)); s[k].initialize(&p[k], 1.0); }
  int depth = 0; the_lbfgs = [&](int, double* x, double* fx, lbfgs_evaluate_t e, lbfgs_progress_t, void* inst, lbfgs_parameter_t*) { int me = depth++; double g[1]; if (me == 0) s[1].optimize(); double f = e(inst, x, g, 1, 0.0); prove_eq("each solver evaluates its own problem", f, c[me]); *fx = f; return 0; }; s[0].optimize(); prove_eq("own result", p[0].optimalValue(), c[0]); prove_eq("own result", p[1].optimalValue(), c[1]); }
