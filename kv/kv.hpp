// kv: symbolic-execution VC generator for real C++ code (deductive mode) and the
// same contracts run on concrete doubles (replay mode).  Force-included through
// kv_prelude.hpp, which decides the mode.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <ostream>
#include <limits>
#include <cmath>
#include <type_traits>

namespace kv {

#ifdef KV_SYM
// ---------------------------------------------------------------- symbolic mode
uint32_t mk_undef();
// id == 0: the constant c; otherwise a node of the term graph
struct Real {
  double c;
  uint32_t id;
  Real() : c(0), id(mk_undef()) {}
  constexpr Real(double d) : c(d), id(0) {}
  constexpr Real(float d) : c(d), id(0) {}
  constexpr Real(int d) : c(d), id(0) {}
  constexpr Real(long d) : c((double)d), id(0) {}
  constexpr Real(long long d) : c((double)d), id(0) {}
  constexpr Real(unsigned d) : c(d), id(0) {}
  constexpr Real(unsigned long d) : c((double)d), id(0) {}
  constexpr Real(unsigned long long d) : c((double)d), id(0) {}
  constexpr Real(bool d) : c(d ? 1 : 0), id(0) {}
  static Real raw(uint32_t i) { Real r(0); r.id = i; return r; }
  long to_long() const;
  bool to_bool() const;
  template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type>
  operator T() const { if constexpr (std::is_same<T, bool>::value) return to_bool(); else return (T)to_long(); }
  explicit operator double() const;   // only for constants (throws otherwise)
  explicit operator float() const { return (float)(double)*this; }
  Real& operator+=(const Real& o);
  Real& operator-=(const Real& o);
  Real& operator*=(const Real& o);
  Real& operator/=(const Real& o);
  Real& operator++() { return *this += Real(1); }
  Real operator-() const;
  Real operator+() const { return *this; }
};
Real add(const Real& a, const Real& b);
Real sub(const Real& a, const Real& b);
Real mul(const Real& a, const Real& b);
Real div(const Real& a, const Real& b);
bool cmp_lt(const Real& a, const Real& b);
bool cmp_le(const Real& a, const Real& b);
bool cmp_eq(const Real& a, const Real& b);
#define KV_BIN(OP, F)                                                            \
  inline Real operator OP(const Real& a, const Real& b) { return F(a, b); }      \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline Real operator OP(const Real& a, T b) { return F(a, Real(b)); }          \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline Real operator OP(T a, const Real& b) { return F(Real(a), b); }
KV_BIN(+, add) KV_BIN(-, sub) KV_BIN(*, mul) KV_BIN(/, div)
#undef KV_BIN
#define KV_CMP(OP, EXPR)                                                         \
  inline bool operator OP(const Real& a, const Real& b) { return EXPR; }         \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline bool operator OP(const Real& a, T bb) { Real b(bb); return EXPR; }      \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline bool operator OP(T aa, const Real& b) { Real a(aa); return EXPR; }
KV_CMP(<, cmp_lt(a, b)) KV_CMP(>, cmp_lt(b, a)) KV_CMP(<=, cmp_le(a, b))
KV_CMP(>=, cmp_le(b, a)) KV_CMP(==, cmp_eq(a, b)) KV_CMP(!=, !cmp_eq(a, b))
#undef KV_CMP
inline Real& Real::operator+=(const Real& o) { return *this = add(*this, o); }
inline Real& Real::operator-=(const Real& o) { return *this = sub(*this, o); }
inline Real& Real::operator*=(const Real& o) { return *this = mul(*this, o); }
inline Real& Real::operator/=(const Real& o) { return *this = div(*this, o); }
inline Real Real::operator-() const { return mul(Real(-1), *this); }
Real sqrt(const Real&);
Real sin(const Real&);
Real cos(const Real&);
Real tan(const Real&);
Real acos(const Real&);
Real asin(const Real&);
Real atan(const Real&);
Real atan2(const Real&, const Real&);
Real exp(const Real&);
Real log(const Real&);
inline Real log10(const Real& a) { return div(log(a), log(Real(10))); }
Real pow(const Real&, const Real&);
Real abs(const Real&);
Real floor(const Real&);
Real ceil(const Real&);
Real round(const Real&);
bool isnan(const Real&);
bool isinf(const Real&);
bool isfinite(const Real&);
inline Real fabs(const Real& a) { return abs(a); }
// max/min as called through argument-dependent lookup (Eigen reductions); by default a
// comparison, under lazy_max(true) the term (a+b+|a-b|)/2 (no path split)
Real max(const Real& a, const Real& b);
Real min(const Real& a, const Real& b);
Real std_max(const Real& a, const Real& b);   // std::max: a term only under lazy_std_max(true)
inline Real abs2(const Real& a) { return a * a; }
inline Real conj(const Real& a) { return a; }
inline Real real(const Real& a) { return a; }
inline Real imag(const Real&) { return Real(0); }
inline Real hypot(const Real& a, const Real& b) { return sqrt(a * a + b * b); }
std::ostream& operator<<(std::ostream& os, const Real&);
std::istream& operator>>(std::istream& is, Real&);
std::string to_string(const Real&);

#define KV_INTASSIGN(T) inline T& operator+=(T& a, const Real& b) { a = (T)(Real((double)a) + b).to_long(); return a; } inline T& operator-=(T& a, const Real& b) { a = (T)(Real((double)a) - b).to_long(); return a; } \
  inline T& operator*=(T& a, const Real& b) { a = (T)(Real((double)a) * b).to_long(); return a; } inline T& operator/=(T& a, const Real& b) { a = (T)(Real((double)a) / b).to_long(); return a; }
KV_INTASSIGN(int) KV_INTASSIGN(long) KV_INTASSIGN(unsigned) KV_INTASSIGN(unsigned long)
struct Prop { uint32_t id; };
#else
// ---------------------------------------------------------------- concrete mode
typedef double Real;
// v: true up to tolerance; s: true with margin; x: exactly true (used by assume)
struct Prop { bool v, s, x; };
#endif

// ---------------------------------------------------------------- shared contract API
Prop eq(const Real& a, const Real& b);
Prop le(const Real& a, const Real& b);
Prop lt(const Real& a, const Real& b);
inline Prop ge(const Real& a, const Real& b) { return le(b, a); }
inline Prop gt(const Real& a, const Real& b) { return lt(b, a); }
Prop pnot(const Prop&);
Prop pand(const Prop&, const Prop&);
Prop por(const Prop&, const Prop&);
inline Prop implies(const Prop& a, const Prop& b) { return por(pnot(a), b); }
inline Prop iff(const Prop& a, const Prop& b) { return pand(implies(a, b), implies(b, a)); }
Prop truth(bool b);

// symbolic input (a fresh unconstrained real in deductive mode; taken from the replay
// file or sampled from [lo,hi] in concrete mode)
Real input(const std::string& name, double lo = -2.0, double hi = 2.0);
// a finite choice, all branches explored in deductive mode
int choice(const std::string& name, int n);
#ifdef KV_SYM
inline bool valid(const Prop& p) { return p.id == 1; }   // holds identically (normal form)
#else
inline bool valid(const Prop& p) { return p.v; }
#endif
void assume(const Prop& p);
void prove(const std::string& label, const Prop& p);
inline void prove(const std::string& label, bool b) { prove(label, truth(b)); }
inline void prove_eq(const std::string& label, const Real& a, const Real& b) { prove(label, eq(a, b)); }
inline void prove_le(const std::string& label, const Real& a, const Real& b) { prove(label, le(a, b)); }
// prove, then use as a fact on the rest of the path
void lazy_max(bool on);
void lazy_std_max(bool on);
void rationalize(bool on);   // normal form without square roots below the fraction bar
void lemma_sqrt(const std::string& label, const Real& radicand, const Real& root);
// trusted: 0 <= h <= pi is assumed, so that acos(cos h) = h and atan2(sin h, cos h) = h
void angle(const Real& h);
void lemma(const std::string& label, const Prop& p);
void cover(const std::string& label);
// definedness: in deductive mode every division adds the obligation "denominator != 0"
// and every sqrt "radicand >= 0" while this is on; otherwise they are assumed (and counted)
void require_defined(bool on);
// branch exploration policy
void set_max_paths(int n);
void set_timeouts(int branch_ms, int prove_ms);
// note an assumption in the evidence
void assumption(const std::string& text);
void under_contract(const std::string& fn);
void bounded(const std::string& text);
bool symbolic();
// comparison tolerance of the concrete replay (relative to magnitude 1+|a|+|b|)
void set_tol(double t);
// true in concrete mode iff the numbers are within tolerance; forks in deductive mode
struct Reject {};
struct Infeasible {};
struct PathBudget {};
struct AssertFail { std::string what; };
void fail_assert(const char* what);

typedef void (*CaseFn)();
struct Reg { Reg(const char* name, CaseFn fn); };
}  // namespace kv

#define KV_CASE(NAME)                       \
  static void kv_case_##NAME();             \
  static kv::Reg kv_reg_##NAME(#NAME, kv_case_##NAME); \
  static void kv_case_##NAME()

#ifdef KV_SYM
namespace std {
using kv::sqrt; using kv::sin; using kv::cos; using kv::tan; using kv::acos; using kv::asin; using kv::atan;
using kv::exp; using kv::log; using kv::log10; using kv::abs; using kv::fabs; using kv::floor; using kv::ceil; using kv::round;
using kv::isnan; using kv::isinf; using kv::isfinite; using kv::atan2; using kv::hypot;
#define KV_PW(T) inline kv::Real pow(const kv::Real& a, T b) { return kv::pow(a, kv::Real(b)); }
KV_PW(int) KV_PW(double) KV_PW(float) KV_PW(long)
#undef KV_PW
inline kv::Real pow(const kv::Real& a, const kv::Real& b) { return kv::pow(a, b); }
inline kv::Real pow(double a, const kv::Real& b) { return kv::pow(kv::Real(a), b); }
inline kv::Real pow(int a, const kv::Real& b) { return kv::pow(kv::Real(a), b); }
template <> inline const kv::Real& max<kv::Real>(const kv::Real& a, const kv::Real& b) { static kv::Real* keep = new kv::Real[1 << 16]; static unsigned n; kv::Real& r = keep[n++ & 0xffff]; r = kv::std_max(a, b); return r; }
inline kv::Real max(const kv::Real& a, double b) { return a < b ? kv::Real(b) : a; }
inline kv::Real max(double a, const kv::Real& b) { return kv::Real(a) < b ? b : kv::Real(a); }
inline kv::Real min(const kv::Real& a, double b) { return kv::Real(b) < a ? kv::Real(b) : a; }
inline kv::Real min(double a, const kv::Real& b) { return b < a ? b : kv::Real(a); }
using kv::to_string;
template <> class numeric_limits<kv::Real> : public numeric_limits<double> {
 public:
  static constexpr kv::Real min() { return numeric_limits<double>::min(); }
  static constexpr kv::Real max() { return numeric_limits<double>::max(); }
  static constexpr kv::Real lowest() { return numeric_limits<double>::lowest(); }
  static constexpr kv::Real epsilon() { return numeric_limits<double>::epsilon(); }
  static constexpr kv::Real infinity() { return numeric_limits<double>::infinity(); }
  static constexpr kv::Real quiet_NaN() { return numeric_limits<double>::quiet_NaN(); }
};
}  // namespace std
using kv::fabs;
using kv::sqrt;
#endif
