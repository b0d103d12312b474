// Deductive engine: hash-consed terms, rational-function normal form, path
// exploration by re-execution, SMT back ends over pipes.
#include "kv.hpp"
#include <gmpxx.h>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

namespace kv {
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// ------------------------------------------------------------------ terms
enum Op : uint8_t { CONST, VAR, ADD, MUL, DIV, SQRT, SIN, COS, ABS, FN1, FN2 };
struct Poly;
struct RF;
struct Node { Op op; uint32_t a, b; std::string s; mpq_class q; std::shared_ptr<RF> nf; bool nf_tried = false; };
static std::vector<Node>& N() { static std::vector<Node>* v = new std::vector<Node>(1); return *v; }
static std::map<std::tuple<int, uint32_t, uint32_t, std::string>, uint32_t>& H() {
  static auto* m = new std::map<std::tuple<int, uint32_t, uint32_t, std::string>, uint32_t>(); return *m; }
static std::map<mpq_class, uint32_t>& HC() { static auto* m = new std::map<mpq_class, uint32_t>(); return *m; }
static uint32_t node(Op op, uint32_t a, uint32_t b, const std::string& s = "") {
  auto key = std::make_tuple((int)op, a, b, s);
  auto it = H().find(key); if (it != H().end()) return it->second;
  Node n; n.op = op; n.a = a; n.b = b; n.s = s; N().push_back(n);
  return H()[key] = (uint32_t)N().size() - 1;
}
static uint32_t node_q(const mpq_class& q) {
  auto it = HC().find(q); if (it != HC().end()) return it->second;
  Node n; n.op = CONST; n.a = n.b = 0; n.q = q; N().push_back(n);
  return HC()[q] = (uint32_t)N().size() - 1;
}
static uint32_t undef_counter = 0;
uint32_t mk_undef() { return 0x80000000u | (undef_counter++ & 0x7fffffffu); }
struct NonFinite {};
static uint32_t nid(const Real& r) {
  if (r.id == 0) { if (!std::isfinite(r.c)) throw NonFinite(); return node_q(mpq_class(r.c)); }
  if (r.id & 0x80000000u) return node(VAR, 0, 0, "undef!" + std::to_string(r.id & 0x7fffffffu));
  return r.id;
}
static bool isc(const Real& r) { return r.id == 0 || (!(r.id & 0x80000000u) && N()[r.id].op == CONST); }
static mpq_class cq(const Real& r) { return r.id == 0 ? mpq_class(r.c) : N()[r.id].q; }
static bool nonfin(const Real& r) { return r.id == 0 && !std::isfinite(r.c); }
static Real from_q(const mpq_class& q) {
  double d = q.get_d();
  if (std::isfinite(d) && mpq_class(d) == q) return Real(d);
  return Real::raw(node_q(q));
}
static Real mk(uint32_t id) { if (N()[id].op == CONST) return from_q(N()[id].q); return Real::raw(id); }
static bool small_int(double d) { return d == (double)(int)d && std::fabs(d) < (1 << 24); }
// ------------------------------------------------------------------ polynomials
typedef std::vector<std::pair<uint32_t, int>> Mono;
struct Poly { std::map<Mono, mpq_class> t; };
struct RF { Poly num; std::map<int, int> den; };   // den: interned factor -> exponent
struct TooBig {};
static size_t NF_LIMIT = 4000;
static double nf_seconds = 0, nf_deadline = 0; static long nf_ops = 0;
static void nf_tick(size_t n) { if ((nf_ops += n) > 20000) { nf_ops = 0; if (nf_deadline > 0 && now() > nf_deadline) throw TooBig(); } }
static std::vector<Poly>& F() { static auto* v = new std::vector<Poly>(); return *v; }
static std::map<std::map<Mono, mpq_class>, int>& FH() { static auto* m = new std::map<std::map<Mono, mpq_class>, int>(); return *m; }
static Mono mmul(const Mono& x, const Mono& y) {
  Mono r; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
  }
  return r;
}
static void padd_to(Poly& r, const Poly& p, const mpq_class& k) {
  for (auto& m : p.t) { auto& c = r.t[m.first]; c += k * m.second; if (c == 0) r.t.erase(m.first); }
  if (r.t.size() > NF_LIMIT) throw TooBig();
}
static Poly pmul(const Poly& a, const Poly& b) {
  Poly r;
  if (a.t.size() * b.t.size() > NF_LIMIT * 40) throw TooBig();
  nf_tick(a.t.size() * b.t.size() + 1);
  for (auto& x : a.t) for (auto& y : b.t) {
    Mono m = mmul(x.first, y.first); auto& c = r.t[m]; c += x.second * y.second; if (c == 0) r.t.erase(m);
  }
  if (r.t.size() > NF_LIMIT) throw TooBig();
  return r;
}
static Poly pconst(const mpq_class& q) { Poly p; if (q != 0) p.t[Mono()] = q; return p; }
static bool pisconst(const Poly& p, mpq_class& q) {
  if (p.t.empty()) { q = 0; return true; }
  if (p.t.size() == 1 && p.t.begin()->first.empty()) { q = p.t.begin()->second; return true; }
  return false;
}
static bool mdiv(const Mono& a, const Mono& b, Mono& r) {   // a / b
  r.clear(); size_t i = 0;
  for (auto& e : b) {
    while (i < a.size() && a[i].first < e.first) r.push_back(a[i++]);
    if (i == a.size() || a[i].first != e.first || a[i].second < e.second) return false;
    if (a[i].second > e.second) r.push_back({e.first, a[i].second - e.second});
    i++;
  }
  while (i < a.size()) r.push_back(a[i++]);
  return true;
}
// graded order used for division only
static bool mless(const Mono& a, const Mono& b) {   // lex with smaller atom index more significant
  size_t i = 0;
  while (i < a.size() && i < b.size()) {
    if (a[i].first != b[i].first) return a[i].first > b[i].first;
    if (a[i].second != b[i].second) return a[i].second < b[i].second;
    i++;
  }
  return a.size() < b.size();
}
static bool pdivexact(const Poly& a, const Poly& b, Poly& q) {
  if (b.t.empty()) return false;
  auto lead = [](const Poly& p) { auto best = p.t.begin(); for (auto it = p.t.begin(); it != p.t.end(); ++it) if (mless(best->first, it->first)) best = it; return best; };
  auto lb = lead(b);
  Poly r = a; q.t.clear(); int steps = 0;
  while (!r.t.empty()) {
    if (++steps > 400) return false; nf_tick(b.t.size());
    auto lr = lead(r); Mono m;
    if (!mdiv(lr->first, lb->first, m)) return false;
    mpq_class c = lr->second / lb->second;
    q.t[m] = c;
    for (auto& x : b.t) { Mono mm = mmul(m, x.first); auto& cc = r.t[mm]; cc -= c * x.second; if (cc == 0) r.t.erase(mm); }
  }
  return true;
}
static int intern(const Poly& p) {
  auto it = FH().find(p.t); if (it != FH().end()) return it->second;
  F().push_back(p); FH()[p.t] = (int)F().size() - 1; return (int)F().size() - 1;
}
static Poly ppow(Poly b, int e) { Poly r = pconst(1); while (e-- > 0) r = pmul(r, b); return r; }
static std::shared_ptr<RF> nf(uint32_t id);
static RF rf_mul(const RF& x, const RF& y);
static RF rf_add(const RF& x, const RF& y) {
  RF r; Poly mx = pconst(1), my = pconst(1);
  r.den = x.den;
  for (auto& d : y.den) { auto& e = r.den[d.first]; if (d.second > e) e = d.second; }
  for (auto& d : r.den) {
    auto ix = x.den.find(d.first); int ex = ix == x.den.end() ? 0 : ix->second;
    auto iy = y.den.find(d.first); int ey = iy == y.den.end() ? 0 : iy->second;
    if (d.second > ex) mx = pmul(mx, ppow(F()[d.first], d.second - ex));
    if (d.second > ey) my = pmul(my, ppow(F()[d.first], d.second - ey));
  }
  r.num = pmul(x.num, mx); padd_to(r.num, pmul(y.num, my), 1);
  if (r.num.t.empty()) r.den.clear();
  return r;
}
static void cancel(RF& r) {
  for (auto it = r.den.begin(); it != r.den.end();) {
    while (it->second > 0) {
      const Poly& f = F()[it->first]; Poly q;
      if (r.num.t.size() > 300 && f.t.size() > 1) break;
      if (!pdivexact(r.num, f, q)) break;
      r.num = q; it->second--;
    }
    if (it->second == 0) it = r.den.erase(it); else ++it;
  }
}
// replace s^2 by its defining value for sqrt / sin atoms
static RF rf_reduce(const RF& x) {
  for (auto& m : x.num.t) for (auto& e : m.first) if (e.second >= 2) {
    uint32_t at = e.first; Op op = N()[at].op;
    if (op != SQRT && op != SIN && op != ABS) continue;
    std::map<int, Poly> parts;
    for (auto& mm : x.num.t) {
      int k = 0; Mono rest;
      for (auto& ee : mm.first) if (ee.first == at) k = ee.second; else rest.push_back(ee);
      parts[k].t[rest] += mm.second;
    }
    RF sq;
    if (op == SQRT) { auto p = nf(N()[at].a); if (!p) throw TooBig(); sq = *p; }
    else if (op == ABS) { auto p = nf(N()[at].a); if (!p) throw TooBig(); sq = rf_mul(*p, *p); }
    else { uint32_t c = node(COS, N()[at].a, 0); sq.num = pconst(1); sq.num.t[Mono{{c, 2}}] = -1; }
    RF res;
    for (auto& pk : parts) {
      RF t; t.num = pk.second;
      if (pk.first & 1) { Poly s; s.t[Mono{{at, 1}}] = 1; t.num = pmul(t.num, s); }
      for (int i = 0; i < pk.first / 2; i++) t = rf_mul(t, sq);
      res = rf_add(res, t);
    }
    RF d; d.num = pconst(1); d.den = x.den;
    RF out = res; for (auto& dd : x.den) out.den[dd.first] += dd.second;
    cancel(out);
    return rf_reduce(out);
  }
  return x;
}
static RF rf_mul(const RF& x, const RF& y) {
  RF r; r.num = pmul(x.num, y.num);
  if (r.num.t.empty()) return r;
  r.den = x.den; for (auto& d : y.den) r.den[d.first] += d.second;
  if (!r.den.empty()) cancel(r);
  return rf_reduce(r);
}
static bool cfg_rationalize = false;
void rationalize(bool on) { cfg_rationalize = on; }
static RF rf_inv(const RF& y) {
  RF r; r.num = pconst(1);
  for (auto& d : y.den) r.num = pmul(r.num, ppow(F()[d.first], d.second));
  mpq_class c;
  if (pisconst(y.num, c)) { if (c == 0) throw TooBig(); Poly p = r.num; r.num = Poly(); padd_to(r.num, p, 1 / c); return r; }
  // common monomial
  Mono common; bool first = true;
  for (auto& m : y.num.t) {
    if (first) { common = m.first; first = false; continue; }
    Mono nm; for (auto& e : common) for (auto& g : m.first) if (g.first == e.first) nm.push_back({e.first, std::min(e.second, g.second)});
    common = nm;
  }
  Poly rest; mpq_class lead = y.num.t.begin()->second;
  for (auto& m : y.num.t) { Mono q; mdiv(m.first, common, q); rest.t[q] = m.second / lead; }
  Poly p = r.num; r.num = Poly(); padd_to(r.num, p, 1 / lead);
  mpq_class one;
  if (cfg_rationalize && rest.t.size() > 1 && rest.t.size() <= 24) {   // no square roots below the fraction bar
    uint32_t at = 0; for (auto& m : rest.t) for (auto& e : m.first) if (N()[e.first].op == SQRT && e.first > at) at = e.first;
    auto rad = at ? nf(N()[at].a) : nullptr;
    if (rad) {
      RF A, B, R = *rad, sr; sr.num.t[Mono{{at, 1}}] = 1; bool lin = true;
      for (auto& m : rest.t) { int k = 0; Mono q; for (auto& e : m.first) if (e.first == at) k = e.second; else q.push_back(e); if (k > 1) lin = false; (k ? B : A).num.t[q] += m.second; }
      if (lin && !A.num.t.empty()) {
        RF mb = B; for (auto& t : mb.num.t) t.second = -t.second;
        RF den = rf_add(rf_mul(A, A), rf_mul(rf_mul(B, mb), R)), conj = rf_add(A, rf_mul(mb, sr)), head; head.num = p;
        RF tail; padd_to(head.num, p, 1 / lead - 1); tail = rf_mul(rf_mul(head, conj), rf_inv(den));
        Poly mono; mono.t[common] = 1; if (common.empty()) return rf_reduce(tail);
        RF cm; cm.num = mono; return rf_reduce(rf_mul(tail, rf_inv(cm)));
      }
    }
  }
  if (!pisconst(rest, one)) r.den[intern(rest)] += 1;
  RF extra; extra.num = pconst(1); bool have = false;
  for (auto& e : common) {
    Poly a; a.t[Mono{{e.first, 1}}] = 1;
    if (N()[e.first].op == SQRT) {   // 1/s = s/rad
      auto rad = nf(N()[e.first].a); if (!rad) throw TooBig();
      RF s; s.num = a; RF inv = rf_inv(*rad);
      for (int i = 0; i < e.second; i++) { extra = rf_mul(extra, rf_mul(s, inv)); have = true; }
    } else r.den[intern(a)] += e.second;
  }
  if (!r.den.empty()) cancel(r);
  if (have) r = rf_mul(r, extra);
  return rf_reduce(r);
}
static std::shared_ptr<RF> nf_compute(uint32_t id) {
  Node n = N()[id]; RF r;
  switch (n.op) {
    case CONST: r.num = pconst(n.q); break;
    case ADD: { auto x = nf(n.a), y = nf(n.b); if (!x || !y) return nullptr; r = rf_add(*x, *y); if (!r.den.empty()) cancel(r); break; }
    case MUL: { auto x = nf(n.a), y = nf(n.b); if (!x || !y) return nullptr; r = rf_mul(*x, *y); break; }
    case DIV: { auto x = nf(n.a), y = nf(n.b); if (!x || !y) return nullptr; r = rf_mul(*x, rf_inv(*y)); break; }
    default: r.num.t[Mono{{id, 1}}] = 1;
  }
  return std::make_shared<RF>(r);
}
static std::shared_ptr<RF> nf(uint32_t id) {
  // iterative post-order to keep the stack shallow
  if (N()[id].nf_tried) return N()[id].nf;
  double t0 = now(); double old = nf_deadline; if (nf_deadline == 0) nf_deadline = t0 + 8;
  std::vector<uint32_t> st{id};
  while (!st.empty()) {
    uint32_t x = st.back();
    if (N()[x].nf_tried) { st.pop_back(); continue; }
    Op op = N()[x].op; bool ready = true;
    if (op == ADD || op == MUL || op == DIV) {
      for (uint32_t c : {N()[x].a, N()[x].b}) if (!N()[c].nf_tried) { st.push_back(c); ready = false; }
    }
    if (!ready) continue;
    std::shared_ptr<RF> r;
    try { r = nf_compute(x); } catch (TooBig&) { r = nullptr; }
    N()[x].nf = r; N()[x].nf_tried = true; st.pop_back();
  }
  nf_deadline = old; if (old == 0) nf_seconds += now() - t0;
  return N()[id].nf;
}
static std::string pkey(const Poly& p) {
  std::string s; for (auto& m : p.t) { s += m.second.get_str() + "*"; for (auto& e : m.first) s += std::to_string(e.first) + "^" + std::to_string(e.second) + "."; s += "+"; } return s;
}
static std::string rfkey(const RF& r) { std::string s = pkey(r.num) + "/"; for (auto& d : r.den) s += std::to_string(d.first) + "^" + std::to_string(d.second); return s; }
// constant value of a node through its normal form, if any
static bool nf_const(uint32_t id, mpq_class& q) {
  auto r = nf(id); if (!r) return false; return r->den.empty() && pisconst(r->num, q);
}
// ------------------------------------------------------------------ arithmetic
static const bool need_default = getenv("KV_NEEDDEF") ? atoi(getenv("KV_NEEDDEF")) : 1;
struct Cfg { bool need_def = need_default; int max_paths = 400; int branch_ms = 2000, prove_ms = 15000; };
static Cfg cfg;
void note_defined(const Prop& p, const char* what);
Real add(const Real& a, const Real& b) {
  if (a.id == 0 && b.id == 0) { if (small_int(a.c) && small_int(b.c)) return Real(a.c + b.c); if (nonfin(a) || nonfin(b)) return Real(a.c + b.c); }
  if (nonfin(a)) return a; if (nonfin(b)) return b;
  if (isc(a) && isc(b)) return from_q(cq(a) + cq(b));
  if (a.id == 0 && a.c == 0) return b; if (b.id == 0 && b.c == 0) return a;
  uint32_t x = nid(a), y = nid(b); if (x > y) std::swap(x, y);
  return mk(node(ADD, x, y));
}
Real sub(const Real& a, const Real& b) {
  if (a.id && a.id == b.id && !(a.id & 0x80000000u)) return Real(0);
  return add(a, mul(Real(-1), b));
}
Real mul(const Real& a, const Real& b) {
  if (a.id == 0 && b.id == 0) { if (small_int(a.c) && small_int(b.c) && std::fabs(a.c) < 4096 && std::fabs(b.c) < 4096) return Real(a.c * b.c); if (nonfin(a) || nonfin(b)) return Real(a.c * b.c); }
  if (nonfin(a) || nonfin(b)) {
    const Real& f = nonfin(a) ? b : a; double inf = nonfin(a) ? a.c : b.c;
    if (std::isnan(inf)) return Real(inf);
    if (f < Real(0)) return Real(-inf); if (Real(0) < f) return Real(inf); return Real(std::nan(""));
  }
  if (isc(a) && isc(b)) return from_q(cq(a) * cq(b));
  if (isc(a)) { if (cq(a) == 0) return Real(0); if (cq(a) == 1) return b; }
  if (isc(b)) { if (cq(b) == 0) return Real(0); if (cq(b) == 1) return a; }
  uint32_t x = nid(a), y = nid(b); if (x > y) std::swap(x, y);
  // flatten constant * (constant * t)
  if (N()[x].op == CONST && N()[y].op == MUL && N()[N()[y].a].op == CONST) { mpq_class k = N()[x].q * N()[N()[y].a].q; return mul(from_q(k), mk(N()[y].b)); }
  if (N()[y].op == CONST) std::swap(x, y);
  if (N()[x].op == CONST && N()[y].op == MUL) {
    if (N()[N()[y].a].op == CONST) { mpq_class k = N()[x].q * N()[N()[y].a].q; return mul(from_q(k), mk(N()[y].b)); }
    if (N()[N()[y].b].op == CONST) { mpq_class k = N()[x].q * N()[N()[y].b].q; return mul(from_q(k), mk(N()[y].a)); }
  }
  return mk(node(MUL, x, y));
}
Real div(const Real& a, const Real& b) {
  if (nonfin(b)) { if (std::isnan(b.c)) return b; return Real(0); }
  if (nonfin(a)) return Real(b < Real(0) ? -a.c : a.c);
  if (isc(b)) {
    mpq_class q = cq(b);
    if (q == 0) {   // IEEE: x/0
      note_defined(Prop{0}, "division by zero");
      if (isc(a)) { int s = sgn(cq(a)); return Real(s == 0 ? std::nan("") : s > 0 ? INFINITY : -INFINITY); }
      return Real(std::nan(""));
    }
    return mul(a, from_q(1 / q));
  }
  note_defined(pnot(eq(b, Real(0))), "division by zero");
  if (isc(a) && cq(a) == 0) return Real(0);
  return mk(node(DIV, nid(a), nid(b)));
}
static bool perfect(const mpq_class& q, mpq_class& r) {
  if (q < 0) return false;
  if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
  mpz_class n, d; mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t());
  r = mpq_class(n, d); r.canonicalize(); return true;
}
static std::map<std::string, uint32_t>& canon() { static auto* m = new std::map<std::string, uint32_t>(); return *m; }
static Real fn_canon(Op op, const Real& a, const std::string& s = "") {
  uint32_t x = nid(a); auto r = nf(x);
  if (r) {
    auto it = canon().emplace(rfkey(*r), x).first; return Real::raw(node(op, it->second, 0, s));
  }
  return Real::raw(node(op, x, 0, s));
}
static std::map<std::string, Real>& sqrt_hints() { static auto* m = new std::map<std::string, Real>(); return *m; }
Real sqrt(const Real& a) {
  if (nonfin(a)) return Real(std::sqrt(a.c));
  if (!sqrt_hints().empty() && !isc(a)) { auto f = nf(nid(a)); if (f) { auto it = sqrt_hints().find(rfkey(*f)); if (it != sqrt_hints().end()) return it->second; } }
  mpq_class q, r; uint32_t x = nid(a);
  if (nf_const(x, q)) {
    if (q < 0) { note_defined(Prop{0}, "sqrt of negative"); return Real(std::nan("")); }
    if (perfect(q, r)) return from_q(r);
  } else note_defined(le(Real(0), a), "sqrt of negative");
  auto f = nf(x);
  if (f && !f->num.t.empty()) {   // pull out a rational square factor
    mpq_class lead = f->num.t.begin()->second;
    if (lead < 0) lead = -lead;
    if (lead != 1 && perfect(lead, r) && f->den.empty()) return mul(from_q(r), sqrt(mul(from_q(1 / lead), a)));
    // perfect square monomial: sqrt(x^2) = |x|
    if (f->num.t.size() == 1 && f->num.t.begin()->second == 1) {
      bool even = true; Real val(1);
      for (auto& e : f->num.t.begin()->first) { if (e.second % 2) even = false; else for (int i = 0; i < e.second / 2; i++) val = mul(val, mk(e.first)); }
      Real dv(1);
      for (auto& d : f->den) { const Poly& g = F()[d.first]; if (g.t.size() != 1 || g.t.begin()->second != 1) { even = false; break; } for (auto& e : g.t.begin()->first) { int k = e.second * d.second; if (k % 2) even = false; else for (int i = 0; i < k / 2; i++) dv = mul(dv, mk(e.first)); } }
      if (even) { Real v = isc(dv) ? val : div(val, dv); return v < Real(0) ? -v : v; }
    }
  }
  return fn_canon(SQRT, a);
}
static bool leading_negative(const Real& a) { auto r = nf(nid(a)); if (!r || r->num.t.empty()) return false; return r->num.t.begin()->second < 0; }
static bool is_fn(const Real& a, const char* name, uint32_t& x, uint32_t& y) {
  uint32_t i = nid(a); if ((N()[i].op == FN1 || N()[i].op == FN2) && N()[i].s == name) { x = N()[i].a; y = N()[i].b; return true; } return false;
}
// a machine constant that rounds a multiple of pi/2 denotes that multiple
static bool quarter(const Real& a, int& k) { mpq_class q; if (!nf_const(nid(a), q)) return false; double d = q.get_d() / 1.5707963267948966; long r = std::lround(d); if (r == 0 || std::fabs(d - r) > 4e-16 * std::fabs(r)) return false; assumption("M_PI denotes pi in trigonometric functions"); k = (int)(((r % 4) + 4) % 4); return true; }
Real sin(const Real& a) {
  int qk; if (quarter(a, qk)) return Real(qk == 1 ? 1 : qk == 3 ? -1 : 0);
  mpq_class q; uint32_t x, y; if (nf_const(nid(a), q) && q == 0) return Real(0);
  if (is_fn(a, "asin", x, y)) return mk(x);
  if (is_fn(a, "acos", x, y)) return sqrt(Real(1) - mk(x) * mk(x));
  if (is_fn(a, "atan2", x, y)) return mk(x) / sqrt(mk(x) * mk(x) + mk(y) * mk(y));
  if (leading_negative(a)) return -sin(-a);
  return fn_canon(SIN, a);
}
Real cos(const Real& a) {
  int qk; if (quarter(a, qk)) return Real(qk == 0 ? 1 : qk == 2 ? -1 : 0);
  mpq_class q; uint32_t x, y; if (nf_const(nid(a), q) && q == 0) return Real(1);
  if (is_fn(a, "acos", x, y)) return mk(x);
  if (is_fn(a, "asin", x, y)) return sqrt(Real(1) - mk(x) * mk(x));
  if (is_fn(a, "atan2", x, y)) return mk(y) / sqrt(mk(x) * mk(x) + mk(y) * mk(y));
  if (leading_negative(a)) return cos(-a);
  Real c = fn_canon(COS, a);
  // make sure the companion sine is the canonical one for the same argument node
  node(SIN, N()[c.id].a, 0);
  return c;
}
Real tan(const Real& a) { return sin(a) / cos(a); }
static std::vector<Real> cfg_angles;
void angle(const Real& h) { assume(le(Real(0), h)); assume(le(h, Real(314159265L) / Real(100000000L))); cfg_angles.push_back(h); assumption("inverse trigonometric functions invert sin and cos on [0, pi]"); }
Real acos(const Real& a) { for (auto& h : cfg_angles) if (valid(eq(a, cos(h)))) return h; if (isc(a) && cq(a) == 1) return Real(0); return fn_canon(FN1, a, "acos"); }
Real asin(const Real& a) { if (isc(a) && cq(a) == 0) return Real(0); return fn_canon(FN1, a, "asin"); }
Real atan(const Real& a) { return atan2(a, Real(1)); }
Real atan2(const Real& a, const Real& b) {
  if (isc(a) && cq(a) == 0 && isc(b) && cq(b) > 0) return Real(0);
  for (auto& h : cfg_angles) if (valid(eq(b, cos(h))) && valid(eq(a, sin(h)))) return h;
  return Real::raw(node(FN2, nid(a), nid(b), "atan2"));
}
Real exp(const Real& a) { if (isc(a) && cq(a) == 0) return Real(1); return fn_canon(FN1, a, "exp"); }
Real log(const Real& a) { if (isc(a) && cq(a) == 1) return Real(0); return fn_canon(FN1, a, "log"); }
Real pow(const Real& a, const Real& b) {
  mpq_class q;
  if (isc(b) && cq(b).get_den() == 1 && abs(cq(b)) <= 12) {
    long k = cq(b).get_num().get_si(); Real r(1); for (long i = 0; i < std::labs(k); i++) r = r * a;
    return k < 0 ? Real(1) / r : r;
  }
  if (isc(b) && cq(b) == mpq_class(1, 2)) return sqrt(a);
  if (isc(a) && isc(b)) return Real(std::pow(cq(a).get_d(), cq(b).get_d()));
  return Real::raw(node(FN2, nid(a), nid(b), "pow"));
}
Real abs(const Real& a) {
  if (nonfin(a)) return Real(std::fabs(a.c));
  if (isc(a)) return from_q(cq(a) < 0 ? mpq_class(-cq(a)) : cq(a));
  mpq_class q; if (nf_const(nid(a), q)) return from_q(q < 0 ? mpq_class(-q) : q);
  if (leading_negative(a)) { Real m = -a; if (!leading_negative(m)) return fn_canon(ABS, m); }
  return fn_canon(ABS, a);
}
static bool g_lazy = false;
void lazy_max(bool on) { g_lazy = on; }
Real max(const Real& a, const Real& b) { if (!g_lazy || nonfin(a) || nonfin(b)) return a < b ? b : a; return (a + b + abs(a - b)) / 2.0; }
Real min(const Real& a, const Real& b) { if (!g_lazy || nonfin(a) || nonfin(b)) return b < a ? b : a; return (a + b - abs(a - b)) / 2.0; }
static bool g_lazy_std = false;
void lazy_std_max(bool on) { g_lazy_std = on; }
Real std_max(const Real& a, const Real& b) { if (!g_lazy_std || nonfin(a) || nonfin(b)) return a < b ? b : a; return (a + b + abs(a - b)) / 2.0; }
bool isnan(const Real& a) { return a.id == 0 && std::isnan(a.c); }
bool isinf(const Real& a) { return a.id == 0 && std::isinf(a.c); }
bool isfinite(const Real& a) { return !nonfin(a); }
std::ostream& operator<<(std::ostream& os, const Real& r) {
  if (isc(r)) return os << (r.id == 0 ? r.c : cq(r).get_d());
  return os << "@n" << nid(r);
}
std::string to_string(const Real& r) { if (isc(r)) { char b[64]; snprintf(b, 64, "%.17g", r.id == 0 ? r.c : cq(r).get_d()); return b; } return "@n" + std::to_string(nid(r)); }
std::istream& operator>>(std::istream& is, Real& r) {
  std::string s; is >> s; if (s.size() > 2 && s[0] == '@' && s[1] == 'n') { r = Real::raw((uint32_t)std::stoul(s.substr(2))); return is; }
  try { size_t p; double d = std::stod(s, &p); if (p != s.size()) is.setstate(std::ios::failbit); r = Real(d); } catch (std::exception&) { is.setstate(std::ios::failbit); }
  return is;
}
Real::operator double() const { mpq_class q; if (id == 0) return c; if (nf_const(nid(*this), q)) return q.get_d(); throw AssertFail{"symbolic value used as a machine double"}; }
// ------------------------------------------------------------------ props
enum PK : uint8_t { PF, PT, PLE, PLT, PEQ, PNOT, PAND, POR };
struct PNode { PK k; uint32_t a, b; };
static std::vector<PNode>& P() { static auto* v = new std::vector<PNode>{{PF, 0, 0}, {PT, 0, 0}}; return *v; }
static std::map<std::tuple<int, uint32_t, uint32_t>, uint32_t>& PH() { static auto* m = new std::map<std::tuple<int, uint32_t, uint32_t>, uint32_t>(); return *m; }
static Prop pn(PK k, uint32_t a, uint32_t b) {
  auto key = std::make_tuple((int)k, a, b); auto it = PH().find(key); if (it != PH().end()) return Prop{it->second};
  P().push_back({k, a, b}); PH()[key] = (uint32_t)P().size() - 1; return Prop{(uint32_t)P().size() - 1};
}
Prop truth(bool b) { return Prop{b ? 1u : 0u}; }
static Prop rel(PK k, const Real& a, const Real& b) {
  if (nonfin(a) || nonfin(b)) {
    if (std::isnan(a.id ? 0 : a.c) || std::isnan(b.id ? 0 : b.c)) return truth(false);
    double x = nonfin(a) ? a.c : 0, y = nonfin(b) ? b.c : 0;
    return truth(k == PLE ? x <= y : k == PLT ? x < y : x == y);
  }
  Real d = sub(a, b); mpq_class q; uint32_t n = nid(d);
  if (nf_const(n, q)) return truth(k == PLE ? q <= 0 : k == PLT ? q < 0 : q == 0);
  if (auto r = nf(n)) {   // one representative per normal form (up to a positive factor; any factor for equality)
    if (r->den.empty()) {   // sums of squares, absolute values and roots have an evident sign
      bool pos = true, neg = true, cst = false; for (auto& m : r->num.t) { if (m.first.empty()) cst = true; (m.second > 0 ? neg : pos) = false; for (auto& e : m.first) if (e.second % 2 && N()[e.first].op != ABS && N()[e.first].op != SQRT) pos = neg = false; }
      if (neg && k == PLE) return truth(true); if (pos && k == PLT) return truth(false); if (neg && cst && k == PLT) return truth(true); if (pos && cst && k == PLE) return truth(false); if ((pos || neg) && cst && k == PEQ) return truth(false);
    }
    RF s = *r; mpq_class l = s.num.t.begin()->second; if (k != PEQ && l < 0) l = -l; if (l != 1) for (auto& m : s.num.t) m.second /= l;
    static std::unordered_map<std::string, uint32_t> reps; n = reps.emplace((k == PEQ ? "=" : "<") + rfkey(s), n).first->second;
  }
  return pn(k, n, 0);
}
Prop eq(const Real& a, const Real& b) { return rel(PEQ, a, b); }
Prop le(const Real& a, const Real& b) { return rel(PLE, a, b); }
Prop lt(const Real& a, const Real& b) { return rel(PLT, a, b); }
Prop pnot(const Prop& p) { if (p.id < 2) return Prop{1 - p.id}; if (P()[p.id].k == PNOT) return Prop{P()[p.id].a}; return pn(PNOT, p.id, 0); }
Prop pand(const Prop& a, const Prop& b) { if (a.id == 0 || b.id == 0) return Prop{0}; if (a.id == 1) return b; if (b.id == 1) return a; return pn(PAND, a.id, b.id); }
Prop por(const Prop& a, const Prop& b) { if (a.id == 1 || b.id == 1) return Prop{1}; if (a.id == 0) return b; if (b.id == 0) return a; return pn(POR, a.id, b.id); }
// ------------------------------------------------------------------ SMT
struct Solver {
  std::vector<std::string> cmd; pid_t pid = -1; int in = -1, out = -1; double secs = 0; long queries = 0; std::string buf;
  void start() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
    pid = fork();
    if (pid == 0) { dup2(a[0], 0); dup2(b[1], 1); int n = open_null(); dup2(n, 2); close(a[1]); close(b[0]);
      std::vector<char*> av; for (auto& s : cmd) av.push_back((char*)s.c_str()); av.push_back(nullptr); execvp(av[0], av.data()); _exit(127); }
    close(a[0]); close(b[1]); in = a[1]; out = b[0]; buf.clear();
  }
  static int open_null() { FILE* f = fopen("/dev/null", "w"); return fileno(f); }
  void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); close(in); close(out); } pid = -1; }
  void send(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(in, s.data() + o, s.size() - o); if (n <= 0) return; o += n; } }
  bool line(std::string& l, double deadline) {
    for (;;) {
      size_t p = buf.find('\n'); if (p != std::string::npos) { l = buf.substr(0, p); buf.erase(0, p + 1); return true; }
      double left = deadline - now(); if (left <= 0) return false;
      pollfd pf{out, POLLIN, 0}; if (poll(&pf, 1, (int)(left * 1000) + 1) <= 0) return false;
      char tmp[65536]; ssize_t n = read(out, tmp, sizeof tmp); if (n <= 0) return false; buf.append(tmp, n);
    }
  }
  // returns 1 sat, 0 unsat, -1 unknown ; fills answer to the get-value when sat
  int query(const std::string& body, const std::string& getval, int ms, std::string& vals) {
    queries++; double t0 = now();
    if (pid < 0) start();
    bool z3 = cmd[0].find("z3") != std::string::npos;
    std::string q = z3 ? "(reset)\n(set-option :timeout " + std::to_string(ms) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n"
                       : "(reset)\n(set-option :produce-models true)\n(set-option :tlimit-per " + std::to_string(ms) + ")\n";
    if (!z3) { stop(); start(); q = q.substr(8); }
    q += std::string(body.compare(0, 5, ";lin\n") ? "(set-logic QF_NRA)\n" : "(set-logic QF_LRA)\n") + body + "(check-sat)\n(echo \"--\")\n";
    send(q); std::string l; int res = -1; double dl = now() + ms / 1000.0 + 3;
    for (;;) { if (!line(l, dl)) { stop(); secs += now() - t0; if (getenv("KV_TRACE")) std::cerr << cmd[0] << " HUNG ms=" << ms << " t=" << now() - t0 << "\n" << (getenv("KV_TRACE")[0] == '2' ? body : "") << std::endl; return -1; } if (l == "sat") res = 1; else if (l == "unsat") res = 0; if (l.find("--") != std::string::npos) break; }
    if (res == 1 && !getval.empty()) {
      send(getval + "(echo \"--\")\n"); vals.clear();
      for (;;) { if (!line(l, now() + 5)) { stop(); break; } if (l == "--" || l == "\"--\"") break; vals += l + "\n"; }
    }
    secs += now() - t0; if (getenv("KV_TRACE")) { std::cerr << cmd[0] << " res=" << res << " ms=" << ms << " t=" << now() - t0 << " size=" << body.size() << std::endl; if (now() - t0 > 1 && getenv("KV_TRACE")[0] == '2') std::cerr << body << std::endl; } return res;
  }
};
static Solver Z{{"z3-new", "-in"}}, Z4{{"z3", "-in"}}, C5{{"cvc5", "--lang=smt2", "--incremental", "--nl-cov"}};
struct Emit {
  bool nonlin = false;   // anything but linear real arithmetic was emitted
  std::ostringstream decl; std::set<uint32_t> done; std::vector<uint32_t> vars;
  static std::string qs(const mpq_class& q) {
    mpz_class n = q.get_num(), d = q.get_den(); bool neg = n < 0; if (neg) n = -n;
    std::string s = n.get_str() + ".0"; if (d != 1) s = "(/ " + s + " " + d.get_str() + ".0)"; return neg ? "(- " + s + ")" : s;
  }
  std::string nm(uint32_t i) { return N()[i].op == CONST ? qs(N()[i].q) : "t" + std::to_string(i); }
  void need(uint32_t root) {
    std::vector<uint32_t> st{root};
    while (!st.empty()) {
      uint32_t i = st.back(); if (done.count(i) || N()[i].op == CONST) { st.pop_back(); continue; }
      Node& n = N()[i]; bool ready = true;
      std::vector<uint32_t> ch;
      if (n.op == ADD || n.op == MUL || n.op == DIV || n.op == FN2) ch = {n.a, n.b}; else if (n.op == SQRT || n.op == FN1 || n.op == ABS) ch = {n.a};
      for (auto c : ch) if (!done.count(c) && N()[c].op != CONST) { st.push_back(c); ready = false; }
      if (!ready) continue;
      st.pop_back(); done.insert(i);
      std::string t = nm(i);
      switch (n.op) {
        case VAR: decl << "(declare-const " << t << " Real)\n"; vars.push_back(i); break;
        case ADD: decl << "(define-fun " << t << " () Real (+ " << nm(n.a) << " " << nm(n.b) << "))\n"; break;
        case MUL: if (N()[n.a].op != CONST && N()[n.b].op != CONST) nonlin = true; decl << "(define-fun " << t << " () Real (* " << nm(n.a) << " " << nm(n.b) << "))\n"; break;
        case DIV: if (N()[n.b].op != CONST) nonlin = true; decl << "(declare-const " << t << " Real)\n(assert (= (* " << t << " " << nm(n.b) << ") " << nm(n.a) << "))\n(assert (not (= " << nm(n.b) << " 0.0)))\n"; break;
        case SQRT: nonlin = true; decl << "(declare-const " << t << " Real)\n(assert (>= " << t << " 0.0))\n(assert (= (* " << t << " " << t << ") " << nm(n.a) << "))\n"; break;
        case ABS: decl << "(define-fun " << t << " () Real (ite (< " << nm(n.a) << " 0.0) (- " << nm(n.a) << ") " << nm(n.a) << "))\n"; break;
        case SIN: case COS: {
          nonlin = true; decl << "(declare-const " << t << " Real)\n"; vars.push_back(i);
          uint32_t o = node(n.op == SIN ? COS : SIN, N()[i].a, 0);
          if (done.count(o)) decl << "(assert (= (+ (* " << t << " " << t << ") (* " << nm(o) << " " << nm(o) << ")) 1.0))\n";
          else decl << "(assert (<= (* " << t << " " << t << ") 1.0))\n";
          break; }
        default: decl << "(declare-const " << t << " Real)\n"; vars.push_back(i);
          if (n.s == "exp") decl << "(assert (> " << t << " 0.0))\n";
      }
    }
  }
  // normal-form emission: polynomial numerator, interned denominator factors (each asserted non-zero)
  bool usenf = false; size_t lim = 80;
  void atom(uint32_t i) {
    if (done.count(i) || N()[i].op == CONST) return;
    if (N()[i].op == SQRT) {
      auto r = nf(N()[i].a);
      if (r && r->num.t.size() <= lim) {
        nonlin = true; std::string nu = poly(r->num), de; for (auto& d : r->den) { std::string f = poly(F()[d.first]); nz(d.first, f); for (int k = 0; k < d.second; k++) de += " " + f; }
        done.insert(i); std::string t = nm(i);
        decl << "(declare-const " << t << " Real)\n(assert (>= " << t << " 0.0))\n(assert (= (* " << t << " " << t << de << ") " << nu << "))\n"; return;
      }
    }
    if (N()[i].op == ABS) {
      auto r = nf(N()[i].a);
      if (r && r->num.t.size() <= lim && r->den.empty()) { std::string nu = poly(r->num); done.insert(i); std::string t = nm(i);
        decl << "(define-fun " << t << " () Real (ite (< " << nu << " 0.0) (- " << nu << ") " << nu << "))\n"; return; }
    }
    need(i);
  }
  std::string poly(const Poly& p) {
    if (p.t.empty()) return "0.0";
    std::string s; int n = 0;
    for (auto& m : p.t) { std::string t; int k = 0; if (m.second != 1 || m.first.empty()) { t += " " + qs(m.second); k++; }
      for (auto& e : m.first) { atom(e.first); for (int j = 0; j < e.second; j++) { t += " " + nm(e.first); k++; } }
      int deg = 0; for (auto& e : m.first) deg += e.second; if (deg > 1) nonlin = true;
      s += k > 1 ? " (*" + t + ")" : t; n++; }
    return n > 1 ? "(+" + s + ")" : s.substr(1);
  }
  std::set<int> nzdone;
  void nz(int f, const std::string& t) { if (nzdone.insert(f).second) decl << "(assert (not (= " << t << " 0.0)))\n"; }
  bool nfrel(uint32_t id, const char* op, std::string& out) {
    auto r = nf(id); if (!r || r->num.t.size() > lim) return false; for (auto& d : r->den) if (F()[d.first].t.size() > lim) return false;
    bool eq0 = op[0] == '='; std::string nu = poly(r->num), ds; bool odd = false;
    for (auto& d : r->den) { std::string f = poly(F()[d.first]); nz(d.first, f); if (d.second % 2 && !eq0) { nonlin = true; ds += " " + f; odd = true; } }
    out = std::string("(") + op + " " + (odd ? "(* " + nu + ds + ")" : nu) + " 0.0)"; return true;
  }
  std::string prop(uint32_t p) {
    PNode n = P()[p]; std::string o;
    if (usenf && (n.k == PLE || n.k == PLT || n.k == PEQ) && nfrel(n.a, n.k == PLE ? "<=" : n.k == PLT ? "<" : "=", o)) return o;
    switch (n.k) {
      case PF: return "false"; case PT: return "true";
      case PLE: need(n.a); return "(<= " + nm(n.a) + " 0.0)";
      case PLT: need(n.a); return "(< " + nm(n.a) + " 0.0)";
      case PEQ: need(n.a); return "(= " + nm(n.a) + " 0.0)";
      case PNOT: return "(not " + prop(n.a) + ")";
      case PAND: { auto x = prop(n.a); return "(and " + x + " " + prop(n.b) + ")"; }
      case POR: { auto x = prop(n.a); return "(or " + x + " " + prop(n.b) + ")"; }
    } return "true";
  }
};
// ------------------------------------------------------------------ path exploration
struct Decision { int val; int n; std::vector<bool> left; };   // left[i]: alternative i still to explore
struct Violation { std::string label, status, smt; std::map<std::string, std::string> inputs; };
struct ObStat { long paths = 0, by_nf = 0, by_smt = 0, by_conc = 0, failed = 0, unknown = 0; double secs = 0; std::set<std::string> backends; };
static std::vector<Decision> dec; static size_t depth;
static std::vector<uint32_t> pc;                    // path condition (props)
static std::map<std::string, int> choices;
static std::map<std::string, ObStat> obs; static std::vector<std::string> obs_order;
static std::vector<Violation> viols; static std::set<std::string> covers, assumptions_, contracts_, bounded_;
static std::map<uint32_t, bool> pc_known;
static long n_paths = 0, n_infeasible = 0, n_assumed_def = 0, branch_unknown = 0; static bool complete = true;
static std::string case_name, cur_note; static double case_deadline = 0;
static std::vector<std::string> crash_note;
bool symbolic() { return true; }
void set_max_paths(int n) { cfg.max_paths = n; }
void set_timeouts(int b, int p) { cfg.branch_ms = b; cfg.prove_ms = p; }
void require_defined(bool on) { cfg.need_def = on; }
void assumption(const std::string& t) { assumptions_.insert(t); }
void under_contract(const std::string& t) { contracts_.insert(t); }
void bounded(const std::string& t) { bounded_.insert(t); }
void set_tol(double) {}
void cover(const std::string& l) { covers.insert(l); }
static void still_alive();
void fail_assert(const char* w) { still_alive(); throw AssertFail{w}; }

static int smt1(const std::vector<uint32_t>& ps, int ms, std::map<std::string, std::string>* model, Solver* S, std::string* text, bool usenf);
static void tvars(uint32_t id, std::set<uint32_t>& out, std::set<uint32_t>& seen) {
  if (!seen.insert(id).second || N()[id].op == CONST) return;
  auto r = nf(id); Op op = N()[id].op;
  if (r && (op == ADD || op == MUL || op == DIV)) {
    std::set<uint32_t> at; for (auto& m : r->num.t) for (auto& e : m.first) at.insert(e.first);
    for (auto& d : r->den) for (auto& m : F()[d.first].t) for (auto& e : m.first) at.insert(e.first);
    for (auto a : at) tvars(a, out, seen); return;
  }
  if (op == VAR) { out.insert(id); return; }
  if (op == ADD || op == MUL || op == DIV || op == FN2) { tvars(N()[id].a, out, seen); tvars(N()[id].b, out, seen); } else tvars(N()[id].a, out, seen);
  if (op == SIN || op == COS || op == FN1 || op == FN2) out.insert(id);
}
static const std::set<uint32_t>& pvars(uint32_t p) {
  static std::unordered_map<uint32_t, std::set<uint32_t>> cache; auto it = cache.find(p); if (it != cache.end()) return it->second;
  std::set<uint32_t> r, seen; PNode n = P()[p];
  if (n.k == PLE || n.k == PLT || n.k == PEQ) tvars(n.a, r, seen);
  else if (n.k == PNOT) r = pvars(n.a);
  else if (n.k == PAND || n.k == POR) { r = pvars(n.a); auto q = pvars(n.b); r.insert(q.begin(), q.end()); }
  return cache[p] = r;
}
static int smt(const std::vector<uint32_t>& ps, int ms, std::map<std::string, std::string>* model, Solver* S = nullptr, std::string* text = nullptr) {
  if (ps.size() > 1) {   // cheap first attempt: only the facts over the variables of the goal (sound for unsat)
    const auto& gvars = pvars(ps.back()); std::vector<uint32_t> sub;
    for (size_t i = 0; i + 1 < ps.size(); i++) { const auto& v = pvars(ps[i]); if (std::includes(gvars.begin(), gvars.end(), v.begin(), v.end())) sub.push_back(ps[i]); }
    if (sub.size() + 1 < ps.size()) { sub.push_back(ps.back()); if (smt1(sub, ms / 4 + 200, nullptr, S, nullptr, true) == 0) return 0; }
  }
  if (ps.size() > 2) {   // only the facts connected to the goal by shared variables: exact when the rest of the path condition is satisfiable
    std::vector<bool> in(ps.size(), false); in.back() = true; std::set<uint32_t> vs = pvars(ps.back()); bool more = true; size_t cnt = 1;
    while (more) { more = false; for (size_t i = 0; i + 1 < ps.size(); i++) if (!in[i]) { const auto& v = pvars(ps[i]); bool hit = false; for (auto x : v) if (vs.count(x)) { hit = true; break; } if (hit) { in[i] = true; cnt++; more = true; vs.insert(v.begin(), v.end()); } } }
    if (cnt < ps.size()) { std::vector<uint32_t> sub; for (size_t i = 0; i < ps.size(); i++) if (in[i]) sub.push_back(ps[i]);
      int r = smt1(sub, ms / 2, nullptr, S, nullptr, true); if (r == 0 || (r == 1 && !model && !text)) return r; }
  }
  int r = smt1(ps, ms / 2, model, S, text, true); if (r >= 0) return r;
  return smt1(ps, ms / 2, model, S, text, false);
}
static int smt1(const std::vector<uint32_t>& ps, int ms, std::map<std::string, std::string>* model, Solver* S, std::string* text, bool usenf) {
  Emit e; e.usenf = usenf; std::string as; for (auto p : ps) as += "(assert " + e.prop(p) + ")\n";
  std::string body = (e.nonlin ? "" : ";lin\n") + e.decl.str() + as; if (text) *text = "(set-logic QF_NRA)\n" + body + "(check-sat)\n";
  std::string gv; if (model && !e.vars.empty()) { gv = "(get-value ("; for (auto v : e.vars) gv += " t" + std::to_string(v); gv += "))\n"; }
  std::string vals; int r = (S ? *S : Z).query(body, gv, ms, vals);
  if (r == 1 && model) {
    for (auto v : e.vars) {
      std::string key = "t" + std::to_string(v) + " "; size_t p = vals.find("(" + key); if (p == std::string::npos) continue;
      p += key.size() + 1; int dep = 0; std::string x;
      for (; p < vals.size(); p++) { char c = vals[p]; if (c == '(') dep++; if (c == ')') { if (dep == 0) break; dep--; } x += c == '\n' ? ' ' : c; }
      // evaluate (- x), (/ a b), decimals with '?'
      std::function<double(const std::string&, size_t&)> ev = [&](const std::string& s, size_t& i) -> double {
        while (i < s.size() && s[i] == ' ') i++;
        if (s[i] == '(') { i++; while (s[i] == ' ') i++; std::string op; while (i < s.size() && s[i] != ' ') op += s[i++];
          std::vector<double> a; while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; if (s[i] == ')') { i++; break; } a.push_back(ev(s, i)); }
          if (op == "-" ) return a.size() == 1 ? -a[0] : a[0] - a[1]; if (op == "/" && a.size() == 2) return a[0] / a[1]; return a.empty() ? 0 : a[0]; }
        std::string t; while (i < s.size() && s[i] != ' ' && s[i] != ')') t += s[i++]; if (!t.empty() && t.back() == '?') t.pop_back();
        return atof(t.c_str()); };
      size_t i = 0; double d = ev(x, i); char b[64]; snprintf(b, 64, "%.17g", d);
      std::string name = N()[v].op == VAR ? N()[v].s : ((N()[v].op == SIN ? "sin(t" : N()[v].op == COS ? "cos(t" : "fn(t") + std::to_string(N()[v].a) + ")");
      (*model)[name] = b;
    }
  }
  return r;
}
// code under test may swallow the engine's own exceptions (catch (...)): they are raised again at the next engine call
static int pending;
[[noreturn]] static void give_up(int k) { pending = k; if (k == 1) throw Infeasible(); throw PathBudget(); }
static void still_alive() { if (pending) give_up(pending); }
static void time_check() { if (case_deadline > 0 && now() > case_deadline) give_up(2); }
static bool decide(const Prop& p) {
  still_alive(); if (p.id < 2) return p.id == 1;
  auto k = pc_known.find(p.id); if (k != pc_known.end()) return k->second;
  Prop np = pnot(p); k = pc_known.find(np.id); if (k != pc_known.end()) return !k->second;
  bool v;
  if (depth < dec.size()) { v = dec[depth].val == 1; depth++; }
  else {
    time_check();
    auto with = pc; with.push_back(p.id); int rt = smt(with, cfg.branch_ms, nullptr);
    with.back() = np.id; int rf = rt == 0 ? 1 : smt(with, cfg.branch_ms, nullptr);
    if (rt < 0) branch_unknown++; if (rf < 0) branch_unknown++;
    if (rt == 0 && rf == 0) give_up(1);
    v = rt != 0;
    Decision d; d.val = v; d.n = 2; d.left = {rf != 0 && v, false}; dec.push_back(d); depth++;
  }
  pc.push_back(v ? p.id : np.id); pc_known[p.id] = v; return v;
}
int choice(const std::string& name, int n) {
  int v;
  if (depth < dec.size()) v = dec[depth++].val;
  else { Decision d; d.val = 0; d.n = n; d.left.assign(n, true); d.left[0] = false; dec.push_back(d); depth++; v = 0; }
  choices[name] = v; return v;
}
static bool cmp(PK k, const Real& a, const Real& b) {
  if (a.id == 0 && b.id == 0) return k == PLE ? a.c <= b.c : k == PLT ? a.c < b.c : a.c == b.c;
  return decide(rel(k, a, b));
}
bool cmp_lt(const Real& a, const Real& b) { return cmp(PLT, a, b); }
bool cmp_le(const Real& a, const Real& b) { return cmp(PLE, a, b); }
bool cmp_eq(const Real& a, const Real& b) { return cmp(PEQ, a, b); }
bool Real::to_bool() const { return !cmp_eq(*this, Real(0)); }
static long conc_floor(const Real& a) {   // fork over the integer part
  mpq_class q; if (nf_const(nid(a), q)) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return f.get_si(); }
  for (long k = 0; k < 64; k++) for (int s = 0; s < 2; s++) {
    long v = s ? -k - 1 : k; if (cmp_le(Real((double)v), a) && cmp_lt(a, Real((double)v + 1))) return v; }
  give_up(2);
}
Real floor(const Real& a) { if (nonfin(a)) return a; return Real((double)conc_floor(a)); }
Real ceil(const Real& a) { if (nonfin(a)) return a; return Real((double)-conc_floor(-a)); }
Real round(const Real& a) { if (nonfin(a)) return a; if (a < Real(0)) return Real((double)-conc_floor(Real(0.5) - a)); return Real((double)conc_floor(a + Real(0.5))); }
long Real::to_long() const { if (id == 0) return (long)c; if (*this < Real(0)) return -conc_floor(-*this); return conc_floor(*this); }

Real input(const std::string& name, double, double) { return Real::raw(node(VAR, 0, 0, name)); }
void assume(const Prop& p) {
  still_alive(); if (p.id == 1) return; if (p.id == 0) give_up(1);
  if (P()[p.id].k == PAND) { assume(Prop{P()[p.id].a}); assume(Prop{P()[p.id].b}); return; }
  pc.push_back(p.id); pc_known[p.id] = true;
  if (depth >= dec.size()) { time_check(); if (smt(pc, cfg.branch_ms, nullptr) == 0) give_up(1); }
}
static bool replaying() { return depth < dec.size(); }
static void record_failure(const std::string& label, const std::string& status, const std::map<std::string, std::string>& m, const std::string& text) {
  int same = 0; for (auto& v : viols) if (v.label == label) same++;
  if (same >= 8) return;
  Violation v; v.label = label; v.status = status; v.inputs = m; v.smt = text;
  for (auto& c : choices) v.inputs["choice:" + c.first] = std::to_string(c.second);
  viols.push_back(v);
}
static void flatten(uint32_t p, std::vector<uint32_t>& out) { if (P()[p].k == PAND) { flatten(P()[p].a, out); flatten(P()[p].b, out); } else out.push_back(p); }
// an equality that follows because the numerator vanishes
static bool nf_true(uint32_t p) { PNode n = P()[p]; if (p == 1) return true; if (n.k == POR) return nf_true(n.a) || nf_true(n.b); return false; }
void prove(const std::string& label, const Prop& pr) {
  still_alive();
  if (!obs.count(label)) obs_order.push_back(label);
  ObStat& o = obs[label];
  if (replaying()) return;    // already decided on the path this prefix came from
  o.paths++; double t0 = now();
  std::vector<uint32_t> parts; flatten(pr.id, parts);
  bool ok = true, unk = false, used_smt = false, conc = true; std::string text;
  for (auto p : parts) {
    if (p == 1 || pc_known.count(p) && pc_known[p]) continue;
    if (P()[p].k == PEQ || P()[p].k == PLE || P()[p].k == PLT || p == 0) conc = false;
    if (nf_true(p)) continue;
    used_smt = true; std::map<std::string, std::string> m;
    auto with = pc; with.push_back(pnot(Prop{p}).id);
    int r; bool late = case_deadline > 0 && now() > case_deadline; if (late && now() > case_deadline + 45) { o.unknown++; o.secs += now() - t0; give_up(2); }
    r = smt(with, late ? 200 : cfg.prove_ms, &m, &Z, &text);
    if (r != -1) o.backends.insert("z3-new");
    if (r == -1 && late) { unk = true; continue; }
    if (r == -1) { r = smt(with, cfg.prove_ms, &m, &C5); if (r != -1) o.backends.insert("cvc5"); }
    if (r == -1) { r = smt(with, cfg.prove_ms, &m, &Z4); if (r != -1) o.backends.insert("z3-4.8"); }
    if (r == 1) { ok = false; record_failure(label, "refuted", m, text); break; }
    if (r == -1) { unk = true; std::map<std::string, std::string> pm; smt(pc, cfg.branch_ms, &pm); record_failure(label, "unknown", pm, text); }
  }
  o.secs += now() - t0;
  if (!ok) o.failed++; else if (unk) o.unknown++; else if (used_smt) o.by_smt++; else if (conc && parts.size() == 1 && parts[0] == 1) o.by_nf++; else o.by_nf++;
}
void lemma(const std::string& label, const Prop& pr) {
  prove(label, pr);
  std::vector<uint32_t> parts; flatten(pr.id, parts);
  for (auto p : parts) if (p > 1) { pc.push_back(p); pc_known[p] = true; }
}
// proves root >= 0 and root^2 = radicand, then lets the engine use the root
void lemma_sqrt(const std::string& label, const Real& radicand, const Real& root) {
  lemma(label + " (root is non-negative)", le(Real(0), root)); prove(label + " (square of the root)", eq(root * root, radicand));
  auto f = nf(nid(radicand)); if (f && (eq(root * root, radicand).id == 1)) sqrt_hints()[rfkey(*f)] = root;
}
void note_defined(const Prop& p, const char* what) {
  if (cfg.need_def) { if (p.id != 1) prove(std::string("defined: no ") + what, p); if (p.id > 1) { pc.push_back(p.id); pc_known[p.id] = true; } }
  else { if (p.id > 1 && !pc_known.count(p.id)) { pc.push_back(p.id); pc_known[p.id] = true; } n_assumed_def++; }
}
static std::map<std::string, CaseFn>& regs() { static auto* m = new std::map<std::string, CaseFn>(); return *m; }
static std::vector<std::string>& reg_order() { static auto* v = new std::vector<std::string>(); return *v; }
Reg::Reg(const char* n, CaseFn f) { regs()[n] = f; reg_order().push_back(n); }
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
template <class T> static std::string jl(const T& v) { std::string s = "["; bool f = true; for (auto& x : v) { if (!f) s += ","; f = false; s += js(x); } return s + "]"; }
static std::string out_file; static double t_start;
static void write_report() {
  std::ofstream f(out_file);
  f << "{\"case\":" << js(case_name) << ",\"paths\":" << n_paths << ",\"infeasible\":" << n_infeasible << ",\"complete\":" << (complete ? "true" : "false")
    << ",\"branch_unknown\":" << branch_unknown << ",\"assumed_definedness\":" << n_assumed_def << ",\"wall_s\":" << now() - t_start << ",\"nf_s\":" << nf_seconds
    << ",\"solver_s\":" << Z.secs + C5.secs + Z4.secs << ",\"queries\":" << Z.queries + C5.queries + Z4.queries << ",\"crash\":" << jl(crash_note)
    << ",\"covers\":" << jl(covers) << ",\"assumptions\":" << jl(assumptions_) << ",\"contracts\":" << jl(contracts_) << ",\"bounded\":" << jl(bounded_) << ",\n\"obligations\":[";
  bool first = true;
  for (auto& l : obs_order) { auto& o = obs[l]; if (!first) f << ",\n"; first = false;
    f << "{\"label\":" << js(l) << ",\"paths\":" << o.paths << ",\"by_nf\":" << o.by_nf << ",\"by_smt\":" << o.by_smt << ",\"failed\":" << o.failed << ",\"unknown\":" << o.unknown << ",\"secs\":" << o.secs << ",\"backends\":" << jl(o.backends) << "}"; }
  f << "],\n\"violations\":["; first = true;
  for (auto& v : viols) { if (!first) f << ",\n"; first = false; f << "{\"label\":" << js(v.label) << ",\"status\":" << js(v.status) << ",\"smt\":" << js(v.smt.substr(0, 20000)) << ",\"inputs\":{"; bool g = true; for (auto& i : v.inputs) { if (!g) f << ","; g = false; f << js(i.first) << ":" << js(i.second); } f << "}}"; }
  f << "]}\n";
}
static void path_failure(const std::string& label) {
  std::map<std::string, std::string> m; std::string text; smt(pc, 5000, &m, &Z, &text);
  if (!obs.count(label)) obs_order.push_back(label);
  obs[label].paths++; obs[label].failed++; record_failure(label, "refuted", m, text);
}
static void on_abort(int sig) {
  signal(sig, SIG_DFL); crash_note.push_back("signal " + std::to_string(sig)); complete = false;
  try { path_failure(sig == SIGABRT ? "no abort (library assertion or terminate)" : "no crash (invalid memory access)"); } catch (...) {}
  write_report(); _exit(0);
}
static void run_case(CaseFn fn) {
  for (;;) {
    depth = 0; pending = 0; sqrt_hints().clear(); cfg_angles.clear(); pc.clear(); pc_known.clear(); choices.clear(); Cfg base; cfg = base;
    bool ok = true;
    try { fn(); }
    catch (Infeasible&) { ok = false; n_infeasible++; }
    catch (PathBudget&) { ok = false; complete = false; }
    catch (AssertFail& a) { if (pending) { ok = false; pending == 1 ? (void)n_infeasible++ : (void)(complete = false); } else path_failure("no failed assertion: " + a.what); }
    catch (NonFinite&) { path_failure("no inf/nan value enters arithmetic"); }
    catch (std::exception& e) { if (pending) { ok = false; pending == 1 ? (void)n_infeasible++ : (void)(complete = false); } else path_failure(std::string("no exception: ") + e.what()); }
    if (ok && pending) { ok = false; pending == 1 ? (void)n_infeasible++ : (void)(complete = false); }
    if (ok) n_paths++;
    if (case_deadline > 0 && now() > case_deadline) { complete = complete && false; }
    // backtrack
    bool next = false;
    while (!dec.empty()) {
      Decision& d = dec.back(); int alt = -1; for (int i = 0; i < d.n; i++) if (d.left[i]) { alt = i; break; }
      if (alt >= 0) { d.left[alt] = false; d.val = alt; next = true; break; }
      dec.pop_back();
    }
    if (!next) break;
    if (n_paths >= cfg.max_paths || (case_deadline > 0 && now() > case_deadline)) { complete = false; break; }
  }
}
}  // namespace kv
int main(int argc, char** argv) {
  using namespace kv; signal(SIGPIPE, SIG_IGN); double budget = 0; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--list") { for (auto& n : reg_order()) std::cout << n << "\n"; return 0; }
    if (a == "--case") case_name = argv[++i]; if (a == "--out") out_file = argv[++i]; if (a == "--budget") budget = atof(argv[++i]); }
  if (!regs().count(case_name)) { std::cerr << "no such case\n"; return 2; }
  t_start = now(); if (budget > 0) case_deadline = t_start + budget;
  signal(SIGABRT, on_abort); signal(SIGSEGV, on_abort); signal(SIGBUS, on_abort); signal(SIGFPE, on_abort);
  run_case(regs()[case_name]);
  write_report(); Z.stop(); Z4.stop(); C5.stop();
  return 0;
}
