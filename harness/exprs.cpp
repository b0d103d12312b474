#include "kvh.hpp"
#include <solver/interface/Model.hpp>
using namespace solver; using kv::input; using kv::prove_eq;

static Var mkvar(int col, const std::string& n) { return Var(col, VarType::Continuous, -1e9, 1e9, input("x" + n)); }
// an arbitrary linear expression built over the given variables (k terms, repeats allowed)
struct LE { LinExpr e; double value; };
static LE mkexpr(const std::vector<Var>& xs, int k, const std::string& n) {
  LE r; double c = input("c" + n); r.e = LinExpr(c); r.value = c;
  for (int i = 0; i < k; i++) {
    const Var& v = xs[i % xs.size()]; double a = input("a" + n + std::to_string(i));
    r.e.vars_.push_back(v); r.e.coeffs_.push_back(a); r.value = r.value + a * v.get(SolverDoubleParam_X);
  }
  return r;
}
static double val(const LinExpr& e) {   // independent valuation
  double s = e.getConstant(); for (size_t i = 0; i < e.size(); i++) s = s + e.getCoeff(i) * e.getVar(i).get(SolverDoubleParam_X); return s;
}
KV_CASE(linexpr_binary_ops) {
  kv::under_contract("solver::LinExpr::operator+(LinExpr)"); kv::under_contract("solver::LinExpr::operator-(LinExpr)"); kv::bounded("expressions of up to 4 terms over 2 variables (coefficients, constants and values: all reals)");
  std::vector<Var> xs{mkvar(0, "0"), mkvar(1, "1")};
  int ka = kv::choice("ka", 3), kb = kv::choice("kb", 3);
  LE a = mkexpr(xs, ka, "A"), b = mkexpr(xs, kb, "B");
  prove_eq("value(a+b)=value(a)+value(b)", val(a.e + b.e), a.value + b.value);
  prove_eq("value(a-b)=value(a)-value(b)", val(a.e - b.e), a.value - b.value);
  prove_eq("getValue is the affine value", (a.e + b.e).getValue(), a.value + b.value);
  LinExpr s = a.e; s += b.e; prove_eq("+= adds", val(s), a.value + b.value);
  LinExpr d = a.e; d -= b.e; prove_eq("-= subtracts", val(d), a.value - b.value);
}

static const char* BOUND = "expressions of up to 4 terms over 2 variables (coefficients, constants and values: all reals)";
static bool same(const LinExpr& a, const LinExpr& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a.getVar(i).var_storage_ != b.getVar(i).var_storage_) return false; return true; }
static void unchanged(const std::string& l, const LinExpr& now, const LinExpr& before) {
  kv::prove(l, same(now, before)); if (!same(now, before)) return; prove_eq(l, now.getConstant(), before.getConstant()); for (size_t i = 0; i < now.size(); i++) prove_eq(l, now.getCoeff(i), before.getCoeff(i)); }
KV_CASE(linexpr_self) {
  kv::under_contract("solver::LinExpr::operator+= (operand is the expression itself)"); kv::under_contract("solver::LinExpr::operator-="); kv::bounded(BOUND);
  std::vector<Var> xs{mkvar(0, "0"), mkvar(1, "1")};
  LE a = mkexpr(xs, kv::choice("ka", 4), "A");
  LinExpr s = a.e; s -= s; prove_eq("e -= e is zero", val(s), 0.0);
  LinExpr t = a.e; t += t; prove_eq("e += e doubles", val(t), 2.0 * a.value);
  LinExpr u = a.e; prove_eq("e + e", val(u + u), 2.0 * a.value); prove_eq("e - e", val(u - u), 0.0); unchanged("operands used twice are unchanged", u, a.e);
  DCPQuadExpr q; q.addLinTerm(a.e); q.addLinTerm(q.lexpr()); prove_eq("linear term added to itself", val(q.lexpr()), 2.0 * a.value);
}
KV_CASE(linexpr_clean) {
  kv::under_contract("solver::LinExpr::clean"); kv::under_contract("solver::LinExpr::isClean"); kv::bounded(BOUND);
  std::vector<Var> xs{mkvar(0, "0"), mkvar(1, "1"), mkvar(2, "2")};
  LE a = mkexpr(xs, kv::choice("ka", 6), "A"); LinExpr before = a.e;
  LinExpr c = LinExpr::clean(a.e); unchanged("clean leaves its argument", a.e, before);
  prove_eq("clean keeps the value", val(c), a.value);
  for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < i; j++) kv::prove("clean merges repeated variables", c.getVar(i).get(SolverIntParam_ColNum) != c.getVar(j).get(SolverIntParam_ColNum));
  if (LinExpr::isClean(a.e)) for (size_t i = 0; i < a.e.size(); i++) for (size_t j = 0; j < i; j++) kv::prove("a clean expression repeats no variable", a.e.getVar(i).get(SolverIntParam_ColNum) != a.e.getVar(j).get(SolverIntParam_ColNum));
}
KV_CASE(linexpr_scalar_ops) {
  kv::under_contract("solver::LinExpr operators with constants (+,-,*,/ and their assignment forms, unary)"); kv::bounded(BOUND);
  std::vector<Var> xs{mkvar(0, "0"), mkvar(1, "1")};
  LE a = mkexpr(xs, kv::choice("ka", 3), "A"); double k = input("k"); LinExpr e = a.e; const LinExpr& ce = a.e;
  prove_eq("k e", val(k * e), k * a.value); prove_eq("e k", val(e * k), k * a.value); prove_eq("e + k", val(e + k), a.value + k); prove_eq("k + e", val(k + e), a.value + k);
  prove_eq("const e + k", val(ce + k), a.value + k); prove_eq("const e - k", val(ce - k), a.value - k);
  prove_eq("e - k", val(e - k), a.value - k); prove_eq("k - e", val(k - e), k - a.value); prove_eq("-e", val(-e), -a.value); prove_eq("+e", val(+e), a.value);
  unchanged("binary operators leave their operands", e, a.e);
  { LinExpr t = e; LinExpr& r = (t += k); prove_eq("e += k", val(t), a.value + k); kv::prove("+= returns its target", &r == &t); } { LinExpr t = e; t -= k; prove_eq("e -= k", val(t), a.value - k); } { LinExpr t = e; t *= k; prove_eq("e *= k", val(t), k * a.value); }
  { LinExpr t; t = e; prove_eq("assignment", val(t), a.value); t = t; prove_eq("self assignment", val(t), a.value); } { LinExpr t = k; prove_eq("constant expression", val(t), k); t.clear(); prove_eq("clear", val(t), 0.0); }
  kv::assume(kv::pnot(kv::eq(k, 0.0))); prove_eq("e / k", val(e / k), a.value / k); { LinExpr t = e; t /= k; prove_eq("e /= k", val(t), a.value / k); }
}
KV_CASE(linexpr_zero_factor) {
  kv::under_contract("solver::LinExpr::operator* (zero factor)"); std::vector<Var> xs{mkvar(0, "0"), mkvar(1, "1")}; LE a = mkexpr(xs, 2, "A");
  prove_eq("0 e = 0", val(0.0 * a.e), 0.0); LinExpr t = a.e; t *= 0.0; prove_eq("e *= 0", val(t), 0.0);
}
KV_CASE(variable_ops) {
  kv::under_contract("solver Var/LinExpr operator overloads"); kv::bounded("right operand expressions of up to 2 terms");
  Var x = mkvar(0, "0"), y = mkvar(1, "1"); Var z = kv::choice("same", 2) ? x : y; double k = input("k"), vx = x.get(SolverDoubleParam_X), vz = z.get(SolverDoubleParam_X);
  LE b = mkexpr({x, y}, kv::choice("kb", 3), "B"); LinExpr e = b.e;
  prove_eq("x", val(LinExpr(x)), vx); prove_eq("a x", val(LinExpr(x, k)), k * vx); prove_eq("+x", val(+x), vx); prove_eq("-x", val(-x), -vx); prove_eq("x k", val(x * k), vx * k); prove_eq("k x", val(k * x), vx * k);
  prove_eq("x + z", val(x + z), vx + vz); prove_eq("x - z", val(x - z), vx - vz); prove_eq("k + x", val(k + x), k + vx); prove_eq("x + k", val(x + k), vx + k); prove_eq("k - x", val(k - x), k - vx); prove_eq("x - k", val(x - k), vx - k);
  prove_eq("e + x", val(e + x), b.value + vx); prove_eq("e - x", val(e - x), b.value - vx); prove_eq("x - e", val(x - e), vx - b.value); prove_eq("x + e", val(LinExpr(x) + e), vx + b.value);
  prove_eq("nested", val(2.0 * x - (e - 3.0 * (z + k)) * 0.5), 2.0 * vx - (b.value - 3.0 * (vz + k)) * 0.5);
  unchanged("expression operands unchanged", e, b.e); prove_eq("variables unchanged", x.get(SolverDoubleParam_X), vx); prove_eq("variables unchanged", z.get(SolverDoubleParam_X), vz);
  kv::assume(kv::pnot(kv::eq(k, 0.0))); prove_eq("x / k", val(x / k), vx / k);
}
KV_CASE(value_is_current) {
  kv::under_contract("solver::Var::get/set"); kv::under_contract("solver::LinExpr::getValue"); kv::under_contract("solver::DCPQuadExpr::getValue"); kv::bounded("two quadratic terms of up to 2 variables");
  Var x = mkvar(0, "0"), y = mkvar(1, "1"); LE a = mkexpr({x, y}, 2, "A"), b = mkexpr({y}, 1, "B"); LinExpr l = mkexpr({x}, 1, "L").e; double c1 = input("c1"), c2 = input("c2");
  DCPQuadExpr q; q.addLinTerm(l); q.addQuaTerm(c1, a.e); q.addQuaTerm(c2, b.e);
  for (int t = 0; t < 2; t++) {
    double vx = t ? input("newx") : x.get(SolverDoubleParam_X), vy = t ? input("newy") : y.get(SolverDoubleParam_X); if (t) { Var x2 = x; x2.set(SolverDoubleParam_X, vx); y.set(SolverDoubleParam_X, vy); }
    prove_eq("variable value is the current one", x.get(SolverDoubleParam_X), vx);
    double va = a.e.getConstant() + a.e.getCoeff(0) * vx + a.e.getCoeff(1) * vy, vb = b.e.getConstant() + b.e.getCoeff(0) * vy;
    prove_eq("expression value is the current one", a.e.getValue(), va); prove_eq("quadratic value is the weighted sum of squares", q.getValue(), c1 * va * va + c2 * vb * vb);
    prove_eq("linear part kept", q.lexpr().getValue(), l.getConstant() + l.getCoeff(0) * vx);
  }
  double g = input("g"), lb = input("lb"), ub = input("ub"), v0 = x.get(SolverDoubleParam_X); x.set(SolverDoubleParam_Guess, g); x.set(SolverDoubleParam_LB, lb); x.set(SolverDoubleParam_UB, ub); x.set(SolverIntParam_ColNum, 7);
  prove_eq("guess", x.get(SolverDoubleParam_Guess), g); prove_eq("lower bound", x.get(SolverDoubleParam_LB), lb); prove_eq("upper bound", x.get(SolverDoubleParam_UB), ub); prove_eq("value untouched", x.get(SolverDoubleParam_X), v0); kv::prove("column", x.get(SolverIntParam_ColNum) == 7);
  Var w(3, VarType::Binary, lb, ub, g); prove_eq("constructor guess", w.get(SolverDoubleParam_Guess), g); prove_eq("constructor bounds", w.get(SolverDoubleParam_LB), lb); prove_eq("constructor bounds", w.get(SolverDoubleParam_UB), ub); kv::prove("constructor column", w.get(SolverIntParam_ColNum) == 3);
  q.clear(); prove_eq("clear", q.getValue() + q.lexpr().getValue(), 0.0); kv::prove("clear drops the terms", q.qexpr().empty() && q.coeffs().empty());
  bool threw = false; try { Var n; n.get(SolverDoubleParam_X); } catch (std::runtime_error&) { threw = true; } kv::prove("reading an uninitialised variable is an error", threw);
  threw = false; try { x.get(SolverDoubleParam_BnBIntegerTol); } catch (std::runtime_error&) { threw = true; } kv::prove("reading a foreign parameter is an error", threw);
}
