// Concrete replay of the same contracts on the real double code.
#include "kv.hpp"
#include <chrono>
#include <csignal>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <unistd.h>
namespace kv {
static double tol = 1e-6;
static std::map<std::string, std::string> given;
static std::vector<std::pair<std::string, std::string>> used;
static std::mt19937_64 rng; static bool randomize = false, jitter = false; static std::string failed_label, case_name, save_file;
static std::map<std::string, long> proved;
static double scale(double a, double b) { return 1 + std::fabs(a) + std::fabs(b); }
Prop truth(bool b) { return {b, b, b}; }
Prop eq(const Real& a, const Real& b) { if (a == b) return {true, true, true}; double d = std::fabs(a - b), s = scale(a, b); return {d <= tol * s, false, d <= 1e-9 * s}; }
Prop le(const Real& a, const Real& b) { double s = scale(std::isfinite(a) ? a : 0, std::isfinite(b) ? b : 0); return {a <= b + tol * s, a <= b - tol * s, a <= b}; }
Prop lt(const Real& a, const Real& b) { double s = scale(std::isfinite(a) ? a : 0, std::isfinite(b) ? b : 0); return {a < b + tol * s, a < b - tol * s, a < b}; }
Prop pnot(const Prop& p) { return {!p.s, !p.v, !p.x}; }
Prop pand(const Prop& a, const Prop& b) { return {a.v && b.v, a.s && b.s, a.x && b.x}; }
Prop por(const Prop& a, const Prop& b) { return {a.v || b.v, a.s || b.s, a.x || b.x}; }
static std::string num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
Real input(const std::string& name, double lo, double hi) {
  double v; for (auto& u : used) if (u.first == name) return atof(u.second.c_str());
  auto it = given.find(name);
  if (it != given.end()) { v = atof(it->second.c_str()); if (jitter) v += 1e-3 * (hi - lo) * (std::uniform_real_distribution<double>(-1, 1)(rng)); }
  else if (!randomize) v = 0.5 * (lo + hi);
  else {
    int k = (int)(rng() % 12);
    static const double sp[] = {0, 1, -1, 0.5, 2};
    if (k == 0) v = sp[rng() % 5]; else if (k == 1) v = (rng() & 1) ? lo : hi; else v = std::uniform_real_distribution<double>(lo, hi)(rng);
    if (v < lo) v = lo; if (v > hi) v = hi;
  }
  used.push_back({name, num(v)}); return v;
}
int choice(const std::string& name, int n) {
  auto it = given.find("choice:" + name); int v = it != given.end() ? atoi(it->second.c_str()) : randomize ? (int)(rng() % n) : 0;
  used.push_back({"choice:" + name, std::to_string(v)}); return v;
}
void assume(const Prop& p) { if (!p.x) throw Reject(); }
struct Fail { std::string label; };
void prove(const std::string& l, const Prop& p) { proved[l]++; if (!p.v) throw Fail{l}; }
void lemma(const std::string& l, const Prop& p) { prove(l, p); }
void angle(const Real& h) { assume(le(0, h)); assume(le(h, 3.14159265)); }
void lemma_sqrt(const std::string& l, const Real& x, const Real& r) { prove(l + " (root is non-negative)", le(0, r)); prove(l + " (square of the root)", eq(r * r, x)); }
void lazy_max(bool) {}
void lazy_std_max(bool) {}
void rationalize(bool) {}
void cover(const std::string&) {}
void require_defined(bool) {}
void set_max_paths(int) {}
void set_timeouts(int, int) {}
void assumption(const std::string&) {}
void under_contract(const std::string&) {}
void bounded(const std::string&) {}
bool symbolic() { return false; }
void set_tol(double t) { tol = t; }
void fail_assert(const char* w) { throw AssertFail{w}; }
static std::map<std::string, CaseFn>& regs() { static auto* m = new std::map<std::string, CaseFn>(); return *m; }
static std::vector<std::string>& order() { static auto* v = new std::vector<std::string>(); return *v; }
Reg::Reg(const char* n, CaseFn f) { regs()[n] = f; order().push_back(n); }
static void save(const std::string& label) {
  if (!save_file.empty()) { std::ofstream f(save_file); f << "case " << case_name << "\nlabel " << label << "\n"; for (auto& u : used) f << "input " << u.first << "\t" << u.second << "\n"; }
  std::cout << "FAILED " << label << std::endl;
}
static void on_sig(int s) { signal(s, SIG_DFL); save(std::string("crash: signal ") + strsignal(s)); _exit(1); }
// 0 ok, 1 violation, 2 rejected
static int once(CaseFn f) {
  used.clear(); tol = 1e-6;
  try { f(); return 0; }
  catch (Reject&) { return 2; } catch (Infeasible&) { return 2; }
  catch (Fail& e) { save(e.label); return 1; }
  catch (AssertFail& a) { save("no failed assertion: " + a.what); return 1; }
  catch (std::exception& e) { save(std::string("no exception: ") + e.what()); return 1; }
}
}  // namespace kv
int main(int argc, char** argv) {
  using namespace kv; std::string replay; long n = 0; unsigned long seed = 1; double secs = 20;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--list") { for (auto& c : order()) std::cout << c << "\n"; return 0; }
    if (a == "--case") case_name = argv[++i]; if (a == "--replay") replay = argv[++i]; if (a == "--random") n = atol(argv[++i]);
    if (a == "--seed") seed = strtoul(argv[++i], 0, 10); if (a == "--seconds") secs = atof(argv[++i]); if (a == "--save") save_file = argv[++i]; if (a == "--jitter") jitter = true; }
  if (!replay.empty()) { std::ifstream f(replay); std::string l; while (std::getline(f, l)) {
      if (l.rfind("case ", 0) == 0 && case_name.empty()) case_name = l.substr(5);
      if (l.rfind("input ", 0) == 0) { size_t t = l.find('\t'); if (t != std::string::npos) given[l.substr(6, t - 6)] = l.substr(t + 1); } } }
  if (!regs().count(case_name)) { std::cerr << "no such case " << case_name << "\n"; return 3; }
  signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig);
  rng.seed(seed); randomize = n > 0; long ok = 0, rej = 0;
  auto t0 = std::chrono::steady_clock::now();
  for (long i = 0; i < std::max(1L, n); i++) {
    int r = once(regs()[case_name]); if (r == 1) return 1; if (r == 0) ok++; else rej++;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
  }
  std::cout << "ok " << ok << " rejected " << rej << std::endl; return 0;
}
