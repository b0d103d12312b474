// C11: settings objects.  Contracts on get/set of every settings class (frame: a write
// changes exactly one parameter) and on initialize (key -> parameter).
#include "kvh.hpp"
#include <solver/interface/SolverSetting.hpp>
#include <solver/interface/Var.hpp>
#include <solver/optimizer/CvxInfoPrinter.hpp>
#include <solver_lqr/SolverLqrSetting.hpp>
#include <solver_lqr/LqrInfoPrinter.hpp>
#include <momentumopt/setting/PlannerParams.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
using namespace kv;
typedef std::vector<Real> RV;
struct Val { RV n; std::string s; };
static Prop same(const Val& a, const Val& b) {
  if (a.n.size() != b.n.size() || a.s != b.s) return truth(false);
  Prop p = truth(true);
  for (size_t i = 0; i < a.n.size(); i++) p = pand(p, eq(a.n[i], b.n[i]));
  return p;
}
static Val v(const Real& x) { return {{x}, ""}; }
static Val vi(int x) { return {{Real(x)}, ""}; }
static Val vs(const std::string& x) { return {{}, x}; }
template <class V> static Val vv(const V& x) { Val r; for (int i = 0; i < x.size(); i++) r.n.push_back(Real(x[i])); r.s = "v" + std::to_string(x.size()); return r; }
template <class V> static Val vvv(const V& x) { Val r; r.s = "c" + std::to_string(x.size()); for (auto& y : x) { Val q = vv(y); r.s += q.s; for (auto& z : q.n) r.n.push_back(z); } return r; }
template <class O> struct Slot {
  std::string name;
  std::function<Val(const O&)> rdc;
  std::function<Val(O&)> rd;
  std::function<Val(O&)> wr;   // writes a fresh value and returns it
};
static int fresh_int = 5000;
static Real fr(const std::string& n) { return input("new_" + n); }
template <class O> static void frame(const std::string& what, O& o, std::vector<Slot<O>>& S) {
  std::vector<Val> cur;
  for (auto& s : S) cur.push_back(s.rdc(o));
  for (auto& s : S) {
    Val before = s.rdc(o), w;
    try { w = s.wr(o); } catch (const std::exception&) { prove(what + ": " + s.name + " is owned and can be written", false); continue; }
    for (size_t k = 0; k < S.size(); k++) if (S[k].name == s.name || S[k].name == s.name + "'") cur[k] = w;
    Prop all = truth(true), all2 = truth(true);
    try {
    for (size_t k = 0; k < S.size(); k++) {
      Prop p = same(S[k].rdc(o), cur[k]), q = same(S[k].rd(o), cur[k]);
      if (&S[k] == &s) { prove(what + ": " + s.name + " reads back what was written", p); prove(what + ": " + s.name + " reads back what was written (other accessor)", q); }
      else { all = pand(all, p); all2 = pand(all2, q); }
    }
    } catch (const std::exception&) { prove(what + ": every owned parameter can be read and written", false); return; }
    prove(what + ": writing " + s.name + " leaves the other parameters alone", all);
    prove(what + ": writing " + s.name + " leaves the other parameters alone (other accessor)", all2);
  }
}
#define THROWS(label, expr) do { bool t_ = false; try { expr; } catch (const std::exception&) { t_ = true; } prove(label, t_); } while (0)
template <class E, class O> static void foreign(const std::string& what, O& o, std::vector<int> f) {
  const O& c = o; f.push_back(-1); f.push_back(1000);
  for (int i : f) {
    THROWS(what + ": reading foreign parameter " + std::to_string(i) + " is rejected", (void)o.get((E)i));
    THROWS(what + ": reading foreign parameter " + std::to_string(i) + " is rejected (const)", (void)c.get((E)i));
  }
}
#define OPAQUE(T, x) T x

// ------------------------------------------------------------------ yaml text
struct Yaml {
  std::string text, path; bool nokeys = false;
  std::string leaf(const std::string& k) {
    Real r = input(k);
#ifdef KV_SYM
    return "kv:" + k;
#else
    char b[64]; snprintf(b, sizeof b, "%.17g", r); return b;
#endif
  }
  void put(const std::string& ind, const std::string& k, const std::string& x) { text += ind + k + ": " + x + "\n"; }
  void d(const std::string& k, const std::string& ind = "  ") { put(ind, k, leaf(k)); }
  void vec(const std::string& k, int n, const std::string& ind = "  ", std::string pre = "") {
    std::string s = "["; for (int i = 0; i < n; i++) s += (i ? ", " : "") + leaf(pre + k + "." + std::to_string(i)); put(ind, k, s + "]");
  }
  static Val want(const std::string& k, int n) { Val r; for (int i = 0; i < n; i++) r.n.push_back(input(k + "." + std::to_string(i))); r.s = "v" + std::to_string(n); return r; }
  void write() {
    char b[] = "/tmp/kvyamlXXXXXX.yaml"; int fd = mkstemps(b, 5); path = b;
    if (::write(fd, text.data(), text.size()) != (ssize_t)text.size()) abort();
    close(fd);
  }
  ~Yaml() { if (!path.empty()) unlink(path.c_str()); }
};

// ------------------------------------------------------------------ SolverSetting
namespace S1 {
using namespace solver;
struct K { const char* key; int e; };
static const K dk[] = {
  {"BnB_integer_tolerance", SolverDoubleParam_BnBIntegerTol}, {"BnB_absolute_suboptimality_gap", SolverDoubleParam_BnBAbsSubOptGap}, {"BnB_relative_suboptimality_gap", SolverDoubleParam_BnBRelSubOptGap},
  {"feasibility_tolerance", SolverDoubleParam_FeasibilityTol}, {"absolute_suboptimality_gap", SolverDoubleParam_DualityGapAbsTol}, {"relative_suboptimality_gap", SolverDoubleParam_DualityGapRelTol},
  {"feasibility_tolerance_inaccurate", SolverDoubleParam_FeasibilityTolInacc}, {"absolute_suboptimality_gap_inaccurate", SolverDoubleParam_DualityGapAbsTolInacc}, {"relative_suboptimality_gap_inaccurate", SolverDoubleParam_DualityGapRelTolInacc},
  {"dyn_reg_thresh", SolverDoubleParam_DynamicRegularizationThresh}, {"lin_sys_accuracy", SolverDoubleParam_LinearSystemAccuracy}, {"err_reduction_factor", SolverDoubleParam_ErrorReductionFactor},
  {"static_regularization", SolverDoubleParam_StaticRegularization}, {"dynamic_regularization", SolverDoubleParam_DynamicRegularization},
  {"safeguard", SolverDoubleParam_SafeGuard}, {"min_step_length", SolverDoubleParam_MinimumStepLength}, {"max_step_length", SolverDoubleParam_MaximumStepLength},
  {"min_centering_step", SolverDoubleParam_MinimumCenteringStep}, {"max_centering_step", SolverDoubleParam_MaximumCenteringStep}, {"step_length_scaling", SolverDoubleParam_StepLengthScaling},
  {"trust_region_threshold", SolverDoubleParam_TrustRegionThreshold}, {"soft_constraint_weight_full", SolverDoubleParam_SoftConstraintWeightFull}, {"soft_constraint_weight_reduced", SolverDoubleParam_SoftConstraintWeightReduced}};
static const K ik[] = {
  {"BnB_max_iterations", SolverIntParam_BnBMaxIters}, {"equil_iterations", SolverIntParam_EquilibrationIters}, {"num_iter_ref_lin_solve", SolverIntParam_NumIterRefinementsLinSolve}, {"max_iters", SolverIntParam_MaxIters},
  {"ipsolver_max_iters", SolverIntParam_SolverMaxIters}, {"ipsolver_warm_iters", SolverIntParam_WarmStartIters}, {"num_itrefs_trustregion", SolverIntParam_NumberRefinementsTrustRegion}};
static const K bk[] = {{"BnB_verbose", SolverBoolParam_BnBVerbose}, {"verbose", SolverBoolParam_Verbose}};
static std::vector<Slot<SolverSetting>> slots() {
  std::vector<Slot<SolverSetting>> S;
  for (auto k : dk) { auto e = (SolverDoubleParam)k.e; std::string n = k.key; auto r = [e](const SolverSetting& o) { return v(o.get(e)); };
    S.push_back({n, r, r, [e, n](SolverSetting& o) { Real x = fr(n); o.set(e, x); return v(x); }}); }
  for (auto k : ik) { auto e = (SolverIntParam)k.e; auto r = [e](const SolverSetting& o) { return vi(o.get(e)); };
    S.push_back({k.key, r, r, [e](SolverSetting& o) { int x = ++fresh_int; o.set(e, x); return vi(x); }}); }
  for (auto k : bk) { auto e = (SolverBoolParam)k.e; auto r = [e](const SolverSetting& o) { return vi(o.get(e)); };
    S.push_back({k.key, r, r, [e](SolverSetting& o) { bool x = !o.get(e); o.set(e, x); return vi(x); }}); }
  return S;
}
static void init(SolverSetting& s) { for (auto k : dk) s.set((SolverDoubleParam)k.e, input(k.key)); int i = 0; for (auto k : ik) s.set((SolverIntParam)k.e, 100 + i++); for (auto k : bk) s.set((SolverBoolParam)k.e, false); }
static const std::vector<int> fi = {SolverIntParam_ColNum, SolverIntParam_NumIter, SolverIntParam_NumRefsLinSolve, SolverIntParam_NumRefsLinSolveAffine, SolverIntParam_NumRefsLinSolveCorrector};
static const std::vector<int> fd = {SolverDoubleParam_X, SolverDoubleParam_LB, SolverDoubleParam_UB, SolverDoubleParam_Guess, SolverDoubleParam_Tau, SolverDoubleParam_Kappa, SolverDoubleParam_DualCost, SolverDoubleParam_PrimalCost, SolverDoubleParam_DualityGap,
  SolverDoubleParam_KappaOverTau, SolverDoubleParam_DualResidual, SolverDoubleParam_MeritFunction, SolverDoubleParam_PrimalResidual, SolverDoubleParam_DualInfeasibility, SolverDoubleParam_RelativeDualityGap, SolverDoubleParam_PrimalInfeasibility,
  SolverDoubleParam_StepLength, SolverDoubleParam_AffineStepLength, SolverDoubleParam_CorrectionStepLength};
template <class O> static void reject_set(const std::string& w, O& o, std::vector<int> f, std::vector<int> d) {
  f.push_back(-1); f.push_back(1000); d.push_back(-1); d.push_back(1000);
  for (int i : f) THROWS(w + ": writing foreign integer parameter " + std::to_string(i) + " is rejected", o.set((SolverIntParam)i, 1));
  for (int i : d) THROWS(w + ": writing foreign double parameter " + std::to_string(i) + " is rejected", o.set((SolverDoubleParam)i, Real(1)));
}
}
KV_CASE(solver_setting_frame) {
  under_contract("SolverSetting::get, SolverSetting::set");
  solver::SolverSetting s; S1::init(s); auto S = S1::slots(); frame("SolverSetting", s, S);
}
KV_CASE(solver_setting_foreign) {
  under_contract("SolverSetting::get, SolverSetting::set (foreign parameters)");
  solver::SolverSetting s; S1::init(s); auto S = S1::slots();
  foreign<solver::SolverIntParam>("SolverSetting int", s, S1::fi); foreign<solver::SolverDoubleParam>("SolverSetting double", s, S1::fd); foreign<solver::SolverBoolParam>("SolverSetting bool", s, {});
  S1::reject_set("SolverSetting", s, S1::fi, S1::fd);
  THROWS("SolverSetting: writing a foreign bool parameter is rejected", s.set((solver::SolverBoolParam)77, true));
  Prop p = truth(true); int i = 0;
  for (auto k : S1::dk) p = pand(p, eq(s.get((solver::SolverDoubleParam)k.e), input(k.key)));
  for (auto k : S1::ik) p = pand(p, truth(s.get((solver::SolverIntParam)k.e) == 100 + i++));
  prove("SolverSetting: a rejected access changes nothing", p);
}
KV_CASE(solver_setting_load) {
  under_contract("SolverSetting::initialize");
  int b = choice("true_bool", 3); Yaml y; y.text = "other:\n  max_iters: 1\nsolver_variables:\n"; int i = 0;
  for (auto k : S1::ik) y.put("  ", k.key, std::to_string(100 + i++));
  for (auto k : S1::dk) y.d(k.key);
  for (int j = 0; j < 2; j++) y.put("  ", S1::bk[j].key, j == b ? "true" : "false");
  y.write();
  solver::SolverSetting s; s.initialize(y.path);
  for (auto k : S1::dk) prove_eq(std::string("SolverSetting: ") + k.key + " is loaded into its parameter", s.get((solver::SolverDoubleParam)k.e), input(k.key));
  i = 0; for (auto k : S1::ik) prove(std::string("SolverSetting: ") + k.key + " is loaded into its parameter", s.get((solver::SolverIntParam)k.e) == 100 + i++);
  for (int j = 0; j < 2; j++) prove(std::string("SolverSetting: ") + S1::bk[j].key + " is loaded into its parameter", s.get((solver::SolverBoolParam)S1::bk[j].e) == (j == b));
}
// ------------------------------------------------------------------ Var, OptimizationInfo
KV_CASE(var_frame) {
  using namespace solver; under_contract("Var::get, Var::set, Var::Var");
  Var o(7, VarType::Continuous, input("lb"), input("ub"), input("guess"));
  prove("Var: the constructor stores the bounds and the guess", pand(pand(eq(o.get(SolverDoubleParam_LB), input("lb")), eq(o.get(SolverDoubleParam_UB), input("ub"))), pand(eq(o.get(SolverDoubleParam_Guess), input("guess")), truth(o.get(SolverIntParam_ColNum) == 7))));
  std::vector<Slot<Var>> S;
  for (auto k : {S1::K{"X", SolverDoubleParam_X}, S1::K{"LB", SolverDoubleParam_LB}, S1::K{"UB", SolverDoubleParam_UB}, S1::K{"Guess", SolverDoubleParam_Guess}}) {
    auto e = (SolverDoubleParam)k.e; std::string n = k.key; auto r = [e](const Var& v_) { return v(v_.get(e)); }; S.push_back({n, r, r, [e, n](Var& v_) { Real x = fr(n); v_.set(e, x); return v(x); }}); }
  auto r = [](const Var& v_) { return vi(v_.get(SolverIntParam_ColNum)); }; S.push_back({"ColNum", r, r, [](Var& v_) { v_.set(SolverIntParam_ColNum, 99); return vi(99); }});
  frame("Var", o, S);
  std::vector<int> fi, fd;
  for (int i : S1::fi) if (i != SolverIntParam_ColNum) fi.push_back(i);
  for (auto k : S1::ik) fi.push_back(k.e);
  for (int i : S1::fd) if (i != SolverDoubleParam_X && i != SolverDoubleParam_LB && i != SolverDoubleParam_UB && i != SolverDoubleParam_Guess) fd.push_back(i);
  for (auto k : S1::dk) fd.push_back(k.e);
  foreign<SolverIntParam>("Var int", o, fi); foreign<SolverDoubleParam>("Var double", o, fd); S1::reject_set("Var", o, fi, fd);
}
template <class O, class E> static Slot<O> refslot(const std::string& n, E e) {
  return {n, [e](const O& o) { return v(Real(o.get(e))); }, [e](O& o) { return v(Real(o.get(e))); }, [e, n](O& o) {
    auto& r = o.get(e);
    typedef typename std::decay<decltype(r)>::type T;
    if constexpr (std::is_same<T, bool>::value) { r = !r; return v(Real(r)); }
    else if constexpr (std::is_same<T, int>::value) { r = ++fresh_int; return v(Real(r)); }
    else { r = fr(n); return v(fr(n)); } }};
}
template <class O, class E> static Slot<O> strslot(const std::string& n, E e) { return {n, [e](const O& o) { return vs(o.get(e)); }, [e](O& o) { return vs(o.get(e)); }, [e, n](O& o) { o.get(e) = "new " + n; return vs("new " + n); }}; }
template <class O, class E> static Slot<O> vecslot(const std::string& n, E e, bool ints = false) {
  return {n, [e](const O& o) { return vv(o.get(e)); }, [e](O& o) { return vv(o.get(e)); }, [e, n](O& o) { auto&& r = o.get(e); for (int i = 0; i < r.size(); i++) {
    typedef typename std::decay<decltype(r[0])>::type T; if constexpr (std::is_same<T, int>::value) r[i] = ++fresh_int; else r[i] = fr(n + std::to_string(i)); } return vv(r); }};
}
template <class O, class E> static Slot<O> cvecslot(const std::string& n, E e) {
  return {n, [e](const O& o) { return vvv(o.get(e)); }, [e](O& o) { return vvv(o.get(e)); }, [e, n](O& o) { auto& r = o.get(e); for (size_t j = 0; j < r.size(); j++) { r[j].resize(2); for (int i = 0; i < 2; i++) r[j][i] = fr(n + std::to_string(j) + std::to_string(i)); } return vvv(r); }};
}
KV_CASE(optimization_info_frame) {
  using namespace solver; under_contract("OptimizationInfo::get, OptimizationInfo::operator=");
  OptimizationInfo o; std::vector<Slot<OptimizationInfo>> S;
#define D(x) S.push_back(refslot<OptimizationInfo>(#x, SolverDoubleParam_##x)); o.get(SolverDoubleParam_##x) = input(#x);
#define I(x) S.push_back(refslot<OptimizationInfo>(#x, SolverIntParam_##x)); o.get(SolverIntParam_##x) = ++fresh_int;
  D(Tau) D(Kappa) D(DualCost) D(DualityGap) D(StepLength) D(PrimalCost) D(DualResidual) D(KappaOverTau) D(MeritFunction) D(PrimalResidual) D(AffineStepLength) D(DualInfeasibility) D(RelativeDualityGap) D(PrimalInfeasibility) D(CorrectionStepLength)
  I(NumIter) I(NumRefsLinSolve) I(NumRefsLinSolveAffine) I(NumRefsLinSolveCorrector)
#undef D
#undef I
  OptimizationInfo c; c = o;
  Prop p = truth(true);
  for (auto& s : S) if (s.name.find("Step") == std::string::npos && s.name.find("Num") == std::string::npos) p = pand(p, same(s.rdc(c), s.rdc(o)));
  prove("OptimizationInfo: assignment copies every statistic of the point", p);
  frame("OptimizationInfo", o, S);
  std::vector<int> fi = {SolverIntParam_ColNum}, fd = {SolverDoubleParam_X, SolverDoubleParam_LB, SolverDoubleParam_UB, SolverDoubleParam_Guess};
  for (auto k : S1::ik) fi.push_back(k.e);
  for (auto k : S1::dk) fd.push_back(k.e);
  foreign<SolverIntParam>("OptimizationInfo int", o, fi); foreign<SolverDoubleParam>("OptimizationInfo double", o, fd);
}
// ------------------------------------------------------------------ solver_lqr
namespace L1 {
using namespace solverlqr;
static const S1::K dk[] = {{"cost_change_tolerance", SolverLqrDoubleParam_CostChangeTolerance}, {"divergence_limit_check", SolverLqrDoubleParam_DivergenceLimitCheck}, {"bpass_min_regularization", SolverLqrDoubleParam_BackPassMinRegularization},
  {"bpass_max_regularization", SolverLqrDoubleParam_BackPassMaxRegularization}, {"control_gradient_tolerance", SolverLqrDoubleParam_ControlGradientTolerance}, {"bpass_initial_regularization", SolverLqrDoubleParam_BackPassInitialRegularization},
  {"min_expected_cost_improvement", SolverLqrDoubleParam_MinExpectedCostImprovement}, {"bpass_mult_regularization_incr", SolverLqrDoubleParam_BackPassMultRegularizationIncr}, {"bpass_initial_mult_regularization_incr", SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr}};
static const S1::K ik[] = {{"verbosity", SolverLqrIntParam_Verbosity}, {"lqr_max_iters", SolverLqrIntParam_LqrMaxIterations}, {"decimal_digits", SolverLqrIntParam_PrecisionDigits}, {"bpass_regularization_type", SolverLqrIntParam_BackPassRegulatizationType},
  {"state_dimension", SolverLqrIntParam_StateDimension}, {"control_dimension", SolverLqrIntParam_ControlDimension}};
static const double hor[] = {1.0, 1.0, 0.75, 2.5}; static const double stp[] = {0.125, 0.375, 1.0, 0.5}; static const int cnt[] = {8, 2, 0, 5};
static std::string num(double x) { std::ostringstream s; s << x; return s.str(); }
static int load(SolverLqrSetting& s, Yaml& y, int b, bool lim, int h, int nc) {
  y.text = "solverlqr_variables:\n"; int i = 0;
  for (auto k : ik) y.put("  ", k.key, std::to_string(100 + i++));
  for (auto k : dk) y.d(k.key);
  y.d("linesearch_coeff"); y.put("  ", "linesearch_num_coeffs", std::to_string(nc));
  y.put("  ", "store_data", b == 0 ? "true" : "false"); y.put("  ", "has_control_limits", lim ? "true" : "false");
  y.put("  ", "time_step", num(stp[h])); y.put("  ", "time_horizon", num(hor[h]));
  y.vec("initial_state", 3); y.vec("min_control_limits", 2); y.vec("max_control_limits", 2);
  y.text += "  user_parameters:\n    answer: 42\n"; y.write(); s.initialize(y.path); return 0;
}
static std::vector<Slot<SolverLqrSetting>> slots() {
  std::vector<Slot<SolverLqrSetting>> S;
  for (auto k : dk) S.push_back(refslot<SolverLqrSetting>(k.key, (SolverLqrDoubleParam)k.e));
  S.push_back(refslot<SolverLqrSetting>("time_step", SolverLqrDoubleParam_TimeStep)); S.push_back(refslot<SolverLqrSetting>("time_horizon", SolverLqrDoubleParam_TimeHorizon));
  for (auto k : ik) S.push_back(refslot<SolverLqrSetting>(k.key, (SolverLqrIntParam)k.e));
  S.push_back(refslot<SolverLqrSetting>("time_dimension", SolverLqrIntParam_TimeDimension));
  S.push_back(refslot<SolverLqrSetting>("store_data", SolverLqrBoolParam_StoreData)); S.push_back(refslot<SolverLqrSetting>("has_control_limits", SolverLqrBoolParam_HasControlLimits)); S.push_back(refslot<SolverLqrSetting>("runge_kutta", SolverLqrBoolParam_UseRungeKuttaIntegration));
  S.push_back(strslot<SolverLqrSetting>("config_file", SolverLqrStringParam_ConfigFile)); S.push_back(strslot<SolverLqrSetting>("save_file", SolverLqrStringParam_SaveLqrFile));
  S.push_back(vecslot<SolverLqrSetting>("linesearch", SolverLqrVectorParam_LineSearchCoeffs)); S.push_back(vecslot<SolverLqrSetting>("initial_state", SolverLqrVectorParam_InitialState));
  S.push_back(vecslot<SolverLqrSetting>("min_control_limits", SolverLqrVectorParam_MinControlLimits)); S.push_back(vecslot<SolverLqrSetting>("max_control_limits", SolverLqrVectorParam_MaxControlLimits));
  return S;
}
}
KV_CASE(lqr_setting_load) {
  using namespace solverlqr; under_contract("SolverLqrSetting::initialize");
  int b = choice("true_bool", 2), h = choice("horizon", 4), nc = 1 + choice("num_coeffs", 4); bool lim = choice("limits", 2);
  assume(pnot(eq(input("linesearch_coeff", 1, 2), Real(0))));
  SolverLqrSetting s; Yaml y; L1::load(s, y, b, lim, h, nc); int i = 0;
  for (auto k : L1::dk) prove_eq(std::string("SolverLqrSetting: ") + k.key + " is loaded into its parameter", s.get((SolverLqrDoubleParam)k.e), input(k.key));
  for (auto k : L1::ik) prove(std::string("SolverLqrSetting: ") + k.key + " is loaded into its parameter", s.get((SolverLqrIntParam)k.e) == 100 + i++);
  prove("SolverLqrSetting: store_data is loaded into its parameter", s.get(SolverLqrBoolParam_StoreData) == (b == 0));
  prove("SolverLqrSetting: has_control_limits is loaded into its parameter", s.get(SolverLqrBoolParam_HasControlLimits) == lim);
  prove_eq("SolverLqrSetting: time_step is loaded into its parameter", s.get(SolverLqrDoubleParam_TimeStep), L1::stp[h]);
  prove_eq("SolverLqrSetting: time_horizon is loaded into its parameter", s.get(SolverLqrDoubleParam_TimeHorizon), L1::hor[h]);
  prove("SolverLqrSetting: the number of time steps is the horizon over the step, rounded down", s.get(SolverLqrIntParam_TimeDimension) == L1::cnt[h]);
  prove("SolverLqrSetting: initial_state is loaded into its parameter", same(vv(s.get(SolverLqrVectorParam_InitialState)), Yaml::want("initial_state", 3)));
  if (lim) prove("SolverLqrSetting: min_control_limits is loaded into its parameter", same(vv(s.get(SolverLqrVectorParam_MinControlLimits)), Yaml::want("min_control_limits", 2)));
  if (lim) prove("SolverLqrSetting: max_control_limits is loaded into its parameter", same(vv(s.get(SolverLqrVectorParam_MaxControlLimits)), Yaml::want("max_control_limits", 2)));
  auto& al = s.get(SolverLqrVectorParam_LineSearchCoeffs); bool ok = al.size() == nc; prove("SolverLqrSetting: one line search coefficient per requested one", ok);
  for (int k = 0; ok && k < nc; k++) { Real p = 1; for (int j = 0; j < k * k; j++) p = p * input("linesearch_coeff", 1, 2); prove_eq("SolverLqrSetting: line search coefficient k is coeff^(-k^2)", al[k] * p, Real(1)); }
  prove("SolverLqrSetting: the user parameters are kept", s.get(SolverLqrYamlParam_UserParameters)["answer"].as<int>() == 42);
  prove("SolverLqrSetting: the configuration file is remembered", s.get(SolverLqrStringParam_ConfigFile) == y.path && s.get(SolverLqrStringParam_SaveLqrFile) == y.path.substr(0, y.path.size() - 5) + "_lqr_results.yaml");
}
KV_CASE(lqr_setting_frame) {
  using namespace solverlqr; under_contract("SolverLqrSetting::get");
  assume(pnot(eq(input("linesearch_coeff", 1, 2), Real(0))));
  SolverLqrSetting s; Yaml y; L1::load(s, y, 0, true, 0, 3); auto S = L1::slots(); frame("SolverLqrSetting", s, S);
  foreign<SolverLqrIntParam>("SolverLqrSetting int", s, {SolverLqrIntParam_CurrentIteration, SolverLqrIntParam_BackpassDivergeIteration});
  foreign<SolverLqrDoubleParam>("SolverLqrSetting double", s, {SolverLqrDoubleParam_Cost, SolverLqrDoubleParam_CostChange, SolverLqrDoubleParam_ExpectedCost, SolverLqrDoubleParam_ControlGradient, SolverLqrDoubleParam_CurrentRegularization});
  foreign<SolverLqrBoolParam>("SolverLqrSetting bool", s, {}); foreign<SolverLqrStringParam>("SolverLqrSetting string", s, {}); foreign<SolverLqrVectorParam>("SolverLqrSetting vector", s, {}); foreign<SolverLqrYamlParam>("SolverLqrSetting yaml", s, {});
}
KV_CASE(lqr_info_frame) {
  using namespace solverlqr; under_contract("LqrOptimizationInfo::get");
  LqrOptimizationInfo o; std::vector<Slot<LqrOptimizationInfo>> S;
#define D(x) S.push_back(refslot<LqrOptimizationInfo>(#x, SolverLqrDoubleParam_##x)); o.get(SolverLqrDoubleParam_##x) = input(#x);
#define I(x) S.push_back(refslot<LqrOptimizationInfo>(#x, SolverLqrIntParam_##x)); o.get(SolverLqrIntParam_##x) = ++fresh_int;
  D(Cost) D(CostChange) D(ExpectedCost) D(ControlGradient) D(CurrentRegularization) I(CurrentIteration) I(BackpassDivergeIteration)
#undef D
#undef I
  frame("LqrOptimizationInfo", o, S);
  std::vector<int> fi = {SolverLqrIntParam_TimeDimension}, fd = {SolverLqrDoubleParam_TimeStep, SolverLqrDoubleParam_TimeHorizon};
  for (auto k : L1::ik) fi.push_back(k.e);
  for (auto k : L1::dk) fd.push_back(k.e);
  foreign<SolverLqrIntParam>("LqrOptimizationInfo int", o, fi); foreign<SolverLqrDoubleParam>("LqrOptimizationInfo double", o, fd);
}
// ------------------------------------------------------------------ PlannerSetting
namespace P1 {
using namespace momentumopt;
typedef PlannerSetting PS;
enum When { ALWAYS, KIN, TIME, FIRST, SECOND };   // when the key is read
struct D { const char* key; PlannerDoubleParam e; When w; };
struct I { const char* key; PlannerIntParam e; When w; int val; };
struct B { const char* key; PlannerBoolParam e; When w; };
struct V { const char* key; PlannerVectorParam e; When w; int n; };
static const D dk[] = {
  {"slacks_penalty", PlannerDoubleParam_KinSlacksPenalty, KIN}, {"integration_step", PlannerDoubleParam_KinIntegrationStep, KIN}, {"lambda_regularization", PlannerDoubleParam_LambdaRegularization, KIN}, {"convergence_tolerance", PlannerDoubleParam_KinConvergenceTolerance, KIN},
  {"min_rel_height", PlannerDoubleParam_MinRelHeight, ALWAYS}, {"max_time_residual_tolerance", PlannerDoubleParam_MaxTimeResidualTolerance, TIME}, {"min_time_residual_improvement", PlannerDoubleParam_MinTimeResidualImprovement, TIME},
  {"gravity", PlannerDoubleParam_Gravity, ALWAYS}, {"robot_mass", PlannerDoubleParam_RobotMass, ALWAYS}, {"floor_height", PlannerDoubleParam_FloorHeight, ALWAYS}, {"friction_coeff", PlannerDoubleParam_FrictionCoefficient, ALWAYS},
  {"w_trq_arm", PlannerDoubleParam_WeightArmTorque, ALWAYS}, {"w_trq_leg", PlannerDoubleParam_WeightLegTorque, ALWAYS}, {"w_time", PlannerDoubleParam_WeightTimeRegularization, TIME}, {"w_time_penalty", PlannerDoubleParam_WeightTimePenalty, TIME},
  {"swing_traj_via_z", PlannerDoubleParam_SwingTrajViaZ, FIRST}, {"w_lin_mom_tracking", PlannerDoubleParam_WeightLinMomentumTracking, FIRST}, {"w_ang_mom_tracking", PlannerDoubleParam_WeightAngMomentumTracking, FIRST}, {"w_endeff_contact", PlannerDoubleParam_WeightEndEffContact, FIRST},
  {"w_endeff_tracking", PlannerDoubleParam_WeightEndEffTracking, FIRST}, {"p_endeff_tracking", PlannerDoubleParam_PGainEndEffTracking, FIRST}, {"p_com_tracking", PlannerDoubleParam_PGainComTracking, FIRST}, {"w_joint_regularization", PlannerDoubleParam_WeightJointReg, FIRST},
  {"reg_orientation", PlannerDoubleParam_PGainOrientationTracking, FIRST}, {"reg_joint_position", PlannerDoubleParam_PGainPositionTracking, FIRST},
  {"swing_traj_via_z_second", PlannerDoubleParam_SwingTrajViaZ_Second, SECOND}, {"w_lin_mom_tracking_second", PlannerDoubleParam_WeightLinMomentumTracking_Second, SECOND}, {"w_ang_mom_tracking_second", PlannerDoubleParam_WeightAngMomentumTracking_Second, SECOND},
  {"w_endeff_contact_second", PlannerDoubleParam_WeightEndEffContact_Second, SECOND}, {"w_endeff_tracking_second", PlannerDoubleParam_WeightEndEffTracking_Second, SECOND}, {"p_endeff_tracking_second", PlannerDoubleParam_PGainEndEffTracking_Second, SECOND},
  {"p_com_tracking_second", PlannerDoubleParam_PGainComTracking_Second, SECOND}, {"w_joint_regularization_second", PlannerDoubleParam_WeightJointReg_Second, SECOND}, {"d_endeff_tracking_second", PlannerDoubleParam_DGainEndEffTracking_Second, SECOND},
  {"p_orient_tracking_second", PlannerDoubleParam_PGainBaseOrientationTracking_Second, SECOND}, {"d_orient_tracking_second", PlannerDoubleParam_DGainBaseOrientationTracking_Second, SECOND},
  {"p_joint_regularization_second", PlannerDoubleParam_PGainJointRegularization_Second, SECOND}, {"d_joint_regularization_second", PlannerDoubleParam_DGainJointRegularization_Second, SECOND}};
static const I ik[] = {
  {"num_dofs", PlannerIntParam_NumDofs, KIN, 5}, {"kd_iterations", PlannerIntParam_KinDynIterations, KIN, 101}, {"num_subsamples", PlannerIntParam_NumSubsamples, KIN, 102}, {"max_trajectory_iters", PlannerIntParam_MaxKinTrajectoryIterations, KIN, 103},
  {"max_convergence_iters", PlannerIntParam_MaxKinConvergenceIterations, KIN, 104}, {"num_com_viapoints", PlannerIntParam_NumViapoints, ALWAYS, 2}, {"n_act_eefs", PlannerIntParam_NumActiveEndeffectors, ALWAYS, 105}, {"max_time_iterations", PlannerIntParam_MaxNumTimeIterations, TIME, 106},
  {"num_joint_viapoints", PlannerIntParam_NumJointViapoints, FIRST, 3}, {"num_base_viapoints", PlannerIntParam_NumBaseViapoints, FIRST, 1}, {"num_joint_viapoints_second", PlannerIntParam_NumJointViapoints_Second, SECOND, 1}, {"num_base_viapoints_second", PlannerIntParam_NumBaseViapoints_Second, SECOND, 2}};
static const B bk[] = {{"display_motion", PlannerBoolParam_DisplayMotion, KIN}, {"store_data", PlannerBoolParam_StoreData, ALWAYS}, {"use_default_solver_setting", PlannerBoolParam_UseDefaultSolverSetting, ALWAYS}, {"is_time_horizon_fixed", PlannerBoolParam_IsTimeHorizonFixed, TIME}};
static const V vk[] = {
  {"external_force", PlannerVectorParam_ExternalForce, ALWAYS, 3}, {"com_displacement", PlannerVectorParam_CenterOfMassMotion, ALWAYS, 3}, {"min_joint_limits", PlannerVectorParam_MinJointAngles, KIN, 3}, {"max_joint_limits", PlannerVectorParam_MaxJointAngles, KIN, 3},
  {"default_joint_positions", PlannerVectorParam_KinematicDefaultJointPositions, KIN, 3}, {"time_range", PlannerVectorParam_TimeRange, TIME, 2}, {"torque_range", PlannerVectorParam_TorqueRange, ALWAYS, 2}, {"max_eef_lengths", PlannerVectorParam_MaxEndeffectorLengths, ALWAYS, 4},
  {"w_frc_arm", PlannerVectorParam_WeightArmForce, ALWAYS, 3}, {"w_frc_leg", PlannerVectorParam_WeightLegForce, ALWAYS, 3}, {"w_com", PlannerVectorParam_WeightCenterOfMass, ALWAYS, 3}, {"w_lmom", PlannerVectorParam_WeightLinearMomentum, ALWAYS, 3},
  {"w_amom", PlannerVectorParam_WeightAngularMomentum, ALWAYS, 3}, {"w_dfrc_arm", PlannerVectorParam_WeightArmForceRate, ALWAYS, 3}, {"w_dfrc_leg", PlannerVectorParam_WeightLegForceRate, ALWAYS, 3}, {"w_lmomd", PlannerVectorParam_WeightLinearMomentumRate, ALWAYS, 3},
  {"w_amomd", PlannerVectorParam_WeightAngularMomentumRate, ALWAYS, 3}, {"w_com_via", PlannerVectorParam_WeightCenterOfMassViapoint, ALWAYS, 3}, {"w_lmom_final", PlannerVectorParam_WeightFinalLinearMomentum, ALWAYS, 3}, {"w_amom_final", PlannerVectorParam_WeightFinalAngularMomentum, ALWAYS, 3},
  {"w_com_track", PlannerVectorParam_WeightDynamicTrackingCenterOfMass, ALWAYS, 3}, {"w_lmom_track", PlannerVectorParam_WeightDynamicTrackingLinearMomentum, ALWAYS, 3}, {"w_amom_track", PlannerVectorParam_WeightDynamicTrackingAngularMomentum, ALWAYS, 3},
  {"w_kin_joint_vel", PlannerVectorParam_WeightJointVelocity, KIN, 3}, {"w_kin_joint_acc", PlannerVectorParam_WeightJointAcceleration, KIN, 3}, {"w_kin_com", PlannerVectorParam_WeightKinematicTrackingCenterOfMass, KIN, 3}, {"w_kin_lmom", PlannerVectorParam_WeightKinematicTrackingLinearMomentum, KIN, 3},
  {"w_kin_amom", PlannerVectorParam_WeightKinematicTrackingAngularMomentum, KIN, 3}, {"w_kin_base_ori", PlannerVectorParam_WeightKinematicTrackingBaseOrientation, KIN, 3}, {"w_kin_lmomd", PlannerVectorParam_WeightKinematicTrackingLinearMomentumRate, KIN, 3},
  {"w_kin_amomd", PlannerVectorParam_WeightKinematicTrackingAngularMomentumRate, KIN, 3}, {"w_kin_eff_pos", PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition, KIN, 3}, {"w_kin_default_joints", PlannerVectorParam_WeightKinematicDefaultJointPositions, KIN, 3},
  {"w_kin_eff_pos_nonact", PlannerVectorParam_WeightKinematicTrackingNonActiveEndeffectorPosition, KIN, 3}, {"p_mom_tracking_second", PlannerVectorParam_PGainMomentumTracking_Second, SECOND, 6}};
static const char* EF[] = {"rf", "lf", "rh", "lh"};
struct Cfg { bool kin, second; int heur, h, tb; bool lin; };
static bool active(When w, const Cfg& c) { return w == ALWAYS || (w == KIN && c.kin) || (w == TIME && c.heur == 2) || (w == FIRST && c.kin && !c.second) || (w == SECOND && c.kin && c.second); }
static void load(PS& s, Yaml& y, const Cfg& c) {
  y.text = "planner_variables:\n";
  for (auto& k : dk) y.d(k.key);
  for (auto& k : ik) y.put("  ", k.key, std::to_string(k.val));
  for (int j = 0; j < 4; j++) y.put("  ", bk[j].key, c.tb == j ? "true" : "false");
  for (auto& k : vk) y.vec(k.key, k.n);
  y.put("  ", "load_kinematics", c.kin ? "true" : "false"); y.put("  ", "use_second_order_inv_kin", c.second ? "true" : "false");
  y.put("  ", "heuristic", c.heur == 0 ? "TrustRegion" : c.heur == 1 ? "SoftConstraint" : c.heur == 2 ? "TimeOptimization" : "Unknown");
  y.put("  ", "friction_cone", c.lin ? "LinearCone" : "SocCone");
  y.put("  ", "time_step", L1::num(L1::stp[c.h])); y.put("  ", "time_horizon", L1::num(L1::hor[c.h]));
  y.put("  ", "active_dofs", "[3, 1, 4]");
  for (auto e : EF) { y.vec(std::string("cop_range_") + e, 4); y.vec(std::string("eff_offset_") + e, 3); }
  struct { const char* k; int n, len; } via[] = {{"com_viapoints", 2, 4}, {"joint_viapoints", 3, 6}, {"base_viapoints", 1, 4}, {"joint_viapoints_second", 1, 6}, {"base_viapoints_second", 2, 4}};
  for (auto& q : via) { y.text += std::string("  ") + q.k + ":\n"; for (int i = q.n - 1; i >= 0; i--) y.vec("via" + std::to_string(i), q.len, "    ", q.k); }
  y.write(); s.initialize(y.path);
}
static Val wantvia(const char* k, int n, int len) { Val r; r.s = "c" + std::to_string(n); for (int i = 0; i < n; i++) { Val q = Yaml::want(k + ("via" + std::to_string(i)), len); r.s += q.s; for (auto& z : q.n) r.n.push_back(z); } return r; }
}
KV_CASE(planner_setting_load) {
  using namespace momentumopt; using namespace P1; under_contract("PlannerSetting::initialize, Problem::idToEndeffectorString");
  Cfg c; c.kin = choice("kin", 2); c.second = c.kin ? choice("second", 2) : 0; c.heur = choice("heuristic", 4); c.h = choice("horizon", 2); c.tb = choice("true_bool", 4); c.lin = (c.tb + c.h) % 2;
  PS s; Yaml y; load(s, y, c); const PS& cs = s;
  for (auto& k : dk) if (active(k.w, c)) prove_eq(std::string("PlannerSetting: ") + k.key + " is loaded into its parameter", cs.get(k.e), input(k.key));
  for (auto& k : ik) if (active(k.w, c)) prove(std::string("PlannerSetting: ") + k.key + " is loaded into its parameter", cs.get(k.e) == k.val);
  for (int j = 0; j < 4; j++) if (active(bk[j].w, c)) prove(std::string("PlannerSetting: ") + bk[j].key + " is loaded into its parameter", cs.get(bk[j].e) == (c.tb == j));
  for (auto& k : vk) if (active(k.w, c)) prove(std::string("PlannerSetting: ") + k.key + " is loaded into its parameter", same(vv(cs.get(k.e)), Yaml::want(k.key, k.n)));
  prove("PlannerSetting: load_kinematics is loaded into its parameter", cs.get(PlannerBoolParam_LoadKinematics) == c.kin);
  if (c.kin) prove("PlannerSetting: use_second_order_inv_kin is loaded into its parameter", cs.get(PlannerBoolParam_UseSecondOrderInverseKinematics) == c.second);
  prove("PlannerSetting: friction_cone selects the linear cone", cs.get(PlannerBoolParam_IsFrictionConeLinear) == c.lin);
  prove("PlannerSetting: heuristic is loaded into its parameter", cs.heuristic() == (c.heur == 0 ? Heuristic::TrustRegion : c.heur == 2 ? Heuristic::TimeOptimization : Heuristic::SoftConstraint));
  prove_eq("PlannerSetting: time_step is loaded into its parameter", cs.get(PlannerDoubleParam_TimeStep), L1::stp[c.h]);
  prove_eq("PlannerSetting: time_horizon is loaded into its parameter", cs.get(PlannerDoubleParam_TimeHorizon), L1::hor[c.h]);
  prove("PlannerSetting: the number of time steps is the horizon over the step, rounded down", cs.get(PlannerIntParam_NumTimesteps) == L1::cnt[c.h]);
  for (int e = 0; e < 4; e++) {
    prove(std::string("PlannerSetting: cop_range of ") + EF[e] + " is loaded into its entry", same(vv(cs.get(PlannerArrayParam_CenterOfPressureRange)[e]), Yaml::want(std::string("cop_range_") + EF[e], 4)));
    prove(std::string("PlannerSetting: eff_offset of ") + EF[e] + " is loaded into its entry", same(vv(cs.get(PlannerArrayParam_EndeffectorOffset)[e]), Yaml::want(std::string("eff_offset_") + EF[e], 3)));
  }
  prove("PlannerSetting: com via points are loaded in order", same(vvv(cs.get(PlannerCVectorParam_Viapoints)), wantvia("com_viapoints", 2, 4)));
  if (c.kin && !c.second) { prove("PlannerSetting: joint via points are loaded in order", same(vvv(cs.get(PlannerCVectorParam_JointViapoints)), wantvia("joint_viapoints", 3, 6))); prove("PlannerSetting: base via points are loaded in order", same(vvv(cs.get(PlannerCVectorParam_BaseViapoints)), wantvia("base_viapoints", 1, 4))); }
  if (c.kin && c.second) { prove("PlannerSetting: second-order joint via points are loaded in order", same(vvv(cs.get(PlannerCVectorParam_JointViapoints_Second)), wantvia("joint_viapoints_second", 1, 6))); prove("PlannerSetting: second-order base via points are loaded in order", same(vvv(cs.get(PlannerCVectorParam_BaseViapoints_Second)), wantvia("base_viapoints_second", 2, 4))); }
  prove_eq("PlannerSetting: weight is mass times gravity", cs.get(PlannerDoubleParam_MassTimesGravity), input("robot_mass") * input("gravity"));
  prove_eq("PlannerSetting: robot weight is mass times gravity", cs.get(PlannerDoubleParam_RobotWeight), input("robot_mass") * input("gravity"));
  prove("PlannerSetting: the gravity vector points down", same(vv(cs.get(PlannerVectorParam_GravityVector)), Val{{Real(0), Real(0), -input("gravity")}, "v3"}));
  if (c.kin) {
    prove("PlannerSetting: active_dofs is loaded into its parameter", same(vv(cs.get(PlannerIntVectorParam_ActiveDofs)), Val{{Real(3), Real(1), Real(4)}, "v3"}));
    prove("PlannerSetting: extended dofs are the six base dofs followed by the active ones", same(vv(cs.get(PlannerIntVectorParam_ExtendedActiveDofs)), Val{{Real(0), Real(1), Real(2), Real(3), Real(4), Real(5), Real(9), Real(7), Real(10)}, "v9"}));
    prove("PlannerSetting: the numbers of active dofs fit their lists", cs.get(PlannerIntParam_NumActiveDofs) == 3 && cs.get(PlannerIntParam_NumExtendedActiveDofs) == 9);
  }
  prove("PlannerSetting: the configuration file is remembered", cs.get(PlannerStringParam_ConfigFile) == y.path && cs.get(PlannerStringParam_SaveKinematicsFile) == y.path.substr(0, y.path.size() - 5) + "_kin_results.yaml");
}
KV_CASE(planner_setting_reload) {
  using namespace momentumopt; using namespace P1; under_contract("PlannerSetting::initialize (twice)");
  Cfg c{true, (bool)choice("second", 2), choice("heuristic", 3), 0, 1, true}, c2 = c; c2.heur = 1 - c.heur % 2; c2.h = 3;
  PS s; { Yaml y; load(s, y, c); } Yaml y2; load(s, y2, c2); const PS& cs = s;
  prove("PlannerSetting: loading again leaves only the new via points", cs.get(PlannerCVectorParam_Viapoints).size() == 2 && cs.get(c.second ? PlannerCVectorParam_JointViapoints_Second : PlannerCVectorParam_JointViapoints).size() == (c.second ? 1u : 3u) && cs.get(c.second ? PlannerCVectorParam_BaseViapoints_Second : PlannerCVectorParam_BaseViapoints).size() == (c.second ? 2u : 1u));
  prove("PlannerSetting: loading again takes the new values", cs.get(PlannerIntParam_NumTimesteps) == L1::cnt[3] && cs.heuristic() == (c2.heur ? Heuristic::SoftConstraint : Heuristic::TrustRegion) && cs.get(PlannerStringParam_ConfigFile) == y2.path && cs.get(PlannerIntVectorParam_ExtendedActiveDofs).size() == 9);
}
KV_CASE(planner_setting_frame) {
  using namespace momentumopt; using namespace P1; under_contract("PlannerSetting::get");
  PS s; Yaml y; load(s, y, Cfg{true, false, 2, 0, 1, true}); { Yaml z; load(s, z, Cfg{true, true, 2, 0, 1, true}); }
  std::vector<Slot<PS>> S;
  for (auto& k : dk) S.push_back(refslot<PS>(k.key, k.e));
  S.push_back(refslot<PS>("time_step", PlannerDoubleParam_TimeStep)); S.push_back(refslot<PS>("time_horizon", PlannerDoubleParam_TimeHorizon));
  S.push_back(refslot<PS>("weight", PlannerDoubleParam_MassTimesGravity)); S.push_back(refslot<PS>("weight'", PlannerDoubleParam_RobotWeight));
  assumption("RobotWeight and MassTimesGravity are two names of one parameter (robot mass times gravity)");
  S.back().wr = [](PS& o) { o.get(PlannerDoubleParam_RobotWeight) = fr("weight"); return v(fr("weight")); };
  for (auto& k : ik) S.push_back(refslot<PS>(k.key, k.e));
  S.push_back(refslot<PS>("num_timesteps", PlannerIntParam_NumTimesteps)); S.push_back(refslot<PS>("num_active_dofs", PlannerIntParam_NumActiveDofs)); S.push_back(refslot<PS>("num_extended_active_dofs", PlannerIntParam_NumExtendedActiveDofs));
  for (auto& k : bk) S.push_back(refslot<PS>(k.key, k.e));
  S.push_back(refslot<PS>("load_kinematics", PlannerBoolParam_LoadKinematics)); S.push_back(refslot<PS>("use_second_order", PlannerBoolParam_UseSecondOrderInverseKinematics)); S.push_back(refslot<PS>("friction_cone_linear", PlannerBoolParam_IsFrictionConeLinear));
  for (auto& k : vk) S.push_back(vecslot<PS>(k.key, k.e));
  S.push_back(vecslot<PS>("gravity_vector", PlannerVectorParam_GravityVector));
  S.push_back(vecslot<PS>("active_dofs", PlannerIntVectorParam_ActiveDofs)); S.push_back(vecslot<PS>("extended_active_dofs", PlannerIntVectorParam_ExtendedActiveDofs));
  S.push_back(cvecslot<PS>("cop_range", PlannerArrayParam_CenterOfPressureRange)); S.push_back(cvecslot<PS>("eff_offset", PlannerArrayParam_EndeffectorOffset));
  S.push_back(cvecslot<PS>("viapoints", PlannerCVectorParam_Viapoints)); S.push_back(cvecslot<PS>("joint_viapoints", PlannerCVectorParam_JointViapoints)); S.push_back(cvecslot<PS>("base_viapoints", PlannerCVectorParam_BaseViapoints));
  S.push_back(cvecslot<PS>("joint_viapoints_second", PlannerCVectorParam_JointViapoints_Second)); S.push_back(cvecslot<PS>("base_viapoints_second", PlannerCVectorParam_BaseViapoints_Second));
  S.push_back(strslot<PS>("config_file", PlannerStringParam_ConfigFile)); S.push_back(strslot<PS>("save_dynamics", PlannerStringParam_SaveDynamicsFile)); S.push_back(strslot<PS>("save_kinematics", PlannerStringParam_SaveKinematicsFile)); S.push_back(strslot<PS>("default_solver", PlannerStringParam_DefaultSolverSettingFile));
  frame("PlannerSetting", s, S);
  foreign<PlannerIntParam>("PlannerSetting int", s, {}); foreign<PlannerDoubleParam>("PlannerSetting double", s, {}); foreign<PlannerBoolParam>("PlannerSetting bool", s, {}); foreign<PlannerStringParam>("PlannerSetting string", s, {});
  foreign<PlannerVectorParam>("PlannerSetting vector", s, {}); foreign<PlannerIntVectorParam>("PlannerSetting int vector", s, {}); foreign<PlannerArrayParam>("PlannerSetting array", s, {}); foreign<PlannerCVectorParam>("PlannerSetting list", s, {});
}
