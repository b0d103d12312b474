// C19: contracts of the contact plan.
#include "kvh.hpp"
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
using namespace momentumopt; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::por; using kv::truth; using kv::Prop; using kv::Real;
typedef Eigen::Vector3d V3; typedef Eigen::Quaternion<double> Q; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
static std::string S(int i) { return std::to_string(i); }
static Real R(long a, long b = 1) { return Real(a) / Real(b); }
static const int NE = Problem::n_endeffs_; static const char* EN[4] = {"rf", "lf", "rh", "lh"};
#ifdef KV_SYM
VX kv_linear_solve(const MX& A, const VX& b) { static int id; int n = A.rows(); VX x(n); for (int i = 0; i < n; i++) x[i] = input("coeff" + S(id) + "." + S(i)); id++; for (int i = 0; i < n; i++) { Real s = 0; for (int j = 0; j < n; j++) s = s + A(i, j) * x[j]; kv::assume(eq(s, b[i])); } return x; }
#endif
struct Yaml { std::string path; Yaml() { char b[] = "/tmp/kvcntXXXXXX"; int f = mkstemp(b); if (f >= 0) close(f); path = b; } void put(const std::string& t) { std::ofstream f(path); f << t; } ~Yaml() { unlink(path.c_str()); } };
static V3 vec(const std::string& n) { return V3(input(n + "x"), input(n + "y"), input(n + "z")); }
static Q quat(const std::string& n) { return Q(input(n + "w"), input(n + "x"), input(n + "y"), input(n + "z")); }
static Prop same(const V3& a, const V3& b) { return pand(eq(a[0], b[0]), pand(eq(a[1], b[1]), eq(a[2], b[2]))); }
static Prop same(const Q& a, const Q& b) { return pand(eq(a.w(), b.w()), pand(eq(a.x(), b.x()), pand(eq(a.y(), b.y()), eq(a.z(), b.z())))); }
static Q neg(const Q& a) { return Q(-a.w(), -a.x(), -a.y(), -a.z()); }
static Q unit_num(int k) { switch (k) { case 0: return Q(R(1, 5), R(2, 5), R(2, 5), R(-4, 5)); case 1: return Q(R(1), R(0), R(0), R(0)); case 2: return Q(R(-1, 2), R(1, 2), R(-1, 2), R(1, 2)); default: return Q(R(0), R(3, 5), R(0), R(4, 5)); } }
static MX rotm(const Q& q) { Real w = q.w(), x = q.x(), y = q.y(), z = q.z(); MX m(3, 3); m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y); return m; }
static void heads(const std::string& b) { kv::bounded(b); kv::set_tol(1e-6); }
// ------------------------------------------------------------------ one contact and the plan file
static std::string contact_text(const std::string& n, int type, int terrain) { std::string s = "["; for (const char* f : {"ti", "te", "px", "py", "pz", "qw", "qx", "qy", "qz"}) s += "kv:" + n + f + std::string(", "); return s + S(type) + ".0, " + S(terrain) + ".0]"; }
static void contact_is(const ContactState& c, const std::string& n, int type, int terrain, const std::string& w) {
  prove("a contact keeps its start and end times" + w, pand(eq(c.contactActivationTime(), input(n + "ti")), eq(c.contactDeactivationTime(), input(n + "te")))); prove("a contact keeps its position" + w, same(c.contactPosition(), vec(n + "p"))); prove("a contact keeps its orientation" + w, same(c.contactOrientation(), quat(n + "q"))); prove("a contact keeps its type and terrain" + w, static_cast<int>(c.contactType()) == type && c.terrainId() == terrain);
  ContactState& d = const_cast<ContactState&>(c); prove("both accessors read the same contact" + w, &d.contactActivationTime() == &c.contactActivationTime() && &d.contactDeactivationTime() == &c.contactDeactivationTime() && &d.contactPosition() == &c.contactPosition() && &d.contactOrientation() == &c.contactOrientation() && &d.contactType() == &c.contactType() && &d.terrainId() == &c.terrainId() && &d.selectedAsActive() == &c.selectedAsActive() && &d.optimizationId() == &c.optimizationId()); }
static std::string plan_text(const std::string& key, const std::string& n, const std::vector<int>& cnt) { std::string s = key + ":\n"; for (int e = 0; e < NE; e++) { s += "  effcnt_" + std::string(EN[e]) + ": ["; for (int c = 0; c < cnt[e]; c++) s += (c ? ", " : "") + contact_text(n + S(e) + S(c), (e + c) % 3, e * 10 + c); s += "]\n"; } for (int e = 0; e < NE; e++) { s += "  effvia_" + std::string(EN[e]) + ": ["; for (int c = 0; c < cnt[e]; c++) { s += std::string(c ? ", " : "") + "[" + S(c) + ".0"; for (const char* f : {"px", "py", "pz", "qw", "qx", "qy", "qz"}) s += ", kv:" + n + "v" + S(e) + S(c) + f; s += "]"; } s += "]\n"; } return s; }
static void plan_is(const ContactSequence& C, const std::string& n, const std::vector<int>& cnt, const std::string& w) { std::set<int> ids; int total = 0; for (int e = 0; e < NE; e++) { prove("an end effector has the contacts of the plan" + w, C.numEndeffectorContacts(e) == cnt[e] && (int)C.endeffectorContacts(e).size() == cnt[e]); if (C.numEndeffectorContacts(e) != cnt[e]) return; for (int c = 0; c < cnt[e]; c++) { const ContactState& k = C.endeffectorContacts(e)[c]; contact_is(k, n + S(e) + S(c), (e + c) % 3, e * 10 + c, w); ids.insert(k.optimizationId()); total++; prove("contacts are numbered from zero" + w, k.optimizationId() >= 0 && k.optimizationId() < std::accumulate(cnt.begin(), cnt.end(), 0)); } } prove("contacts are numbered without repetition" + w, (int)ids.size() == total && const_cast<ContactSequence&>(C).numOptimizationContacts() == total); }
static std::vector<int> counts(int k) { switch (k) { case 0: return {2, 1, 0, 1}; case 1: return {0, 0, 0, 0}; case 2: return {1, 3, 2, 1}; default: return {1, 0, 1, 2}; } }
KV_CASE(contact_file) { heads("four plans, loaded once or over another one; every number in them"); kv::under_contract("momentumopt::ContactSequence::loadFromFile"); kv::under_contract("momentumopt::ContactState::ContactState"); int k = kv::choice("plan", 4), b = kv::choice("before", 3); Yaml y; ContactSequence C; if (b) { y.put(plan_text("contact_plan", "old", counts(b == 1 ? 2 : 0))); C.loadFromFile(y.path); } y.put(plan_text("other", "bad", {1, 1, 1, 1}) + plan_text("contact_plan", "c", counts(k))); C.loadFromFile(y.path); plan_is(C, "c", counts(k), b ? " after another plan" : ""); }
KV_CASE(viapoint_file) { heads("four plans, loaded once or over another one; every number in them"); kv::under_contract("momentumopt::ViapointSequence::loadFromFile"); kv::under_contract("momentumopt::ViapointState::ViapointState"); int k = kv::choice("plan", 4), b = kv::choice("before", 2); Yaml y; ViapointSequence C; if (b) { y.put(plan_text("contact_plan", "old", counts(2))); C.loadFromFile(y.path); } y.put(plan_text("contact_plan", "c", counts(k))); C.loadFromFile(y.path); const ViapointSequence& D = C; std::vector<int> n = counts(k); for (int e = 0; e < NE; e++) { prove("an end effector has the viapoints of the plan", D.numEndeffectorViapoints(e) == n[e] && (int)D.endeffectorViapoints(e).size() == n[e]); if (D.numEndeffectorViapoints(e) != n[e]) return; for (int c = 0; c < n[e]; c++) { const ViapointState& v = D.endeffectorViapoints(e)[c]; std::string nm = "cv" + S(e) + S(c); prove("a viapoint keeps its position and orientation", pand(same(v.viapointPosition(), vec(nm + "p")), same(v.viapointOrientation(), quat(nm + "q")))); prove("a viapoint keeps its contact", v.viapointId() == c); } } }
KV_CASE(contact_setters) { heads("every value; orientations of four unit quaternions for placements"); kv::under_contract("momentumopt::ContactState"); ContactState c; prove("a new contact is inactive and free", !c.selectedAsActive() && c.contactType() == ContactType::FreeContact); c.contactActivationTime(input("ti")); c.contactDeactivationTime(input("te")); c.contactPosition(vec("p")); c.contactOrientation(quat("q")); int ty = 1 + kv::choice("type", 2); c.contactType(static_cast<ContactType>(ty)); c.terrainId() = 7; contact_is(c, "", ty, 7, ""); c.selectedAsActive(true); prove("a contact can be selected", c.selectedAsActive()); c.selectedAsActive(false); prove("a contact can be unselected", !c.selectedAsActive());
  Q q = unit_num(kv::choice("orientation", 4)); V3 p = vec("P"); c.contactOrientation(q); c.contactPosition(p); Eigen::Matrix4d m = c.contactPlacement(); MX r = rotm(q); Prop ok = truth(true); for (int i = 0; i < 3; i++) { ok = pand(ok, pand(eq(m(i, 3), p[i]), eq(m(3, i), R(0)))); for (int j = 0; j < 3; j++) ok = pand(ok, eq(m(i, j), r(i, j))); } prove("the placement is the rotation and translation of the contact", pand(ok, eq(m(3, 3), R(1)))); ContactState d; d.contactPlacement(m); prove("a contact set from a placement has its position", same(d.contactPosition(), p)); prove("a contact set from a placement has its orientation", por(same(d.contactOrientation(), q), same(d.contactOrientation(), neg(q)))); }
KV_CASE(contact_types) { kv::bounded("every type number of the file format"); for (int t = 0; t < 3; t++) prove("contact types are those of the file format", static_cast<int>(idToContactType(t)) == t); prove("free, flat and full contacts are 0, 1 and 2", static_cast<int>(ContactType::FreeContact) == 0 && static_cast<int>(ContactType::FlatContact) == 1 && static_cast<int>(ContactType::FullContact) == 2); }
// ------------------------------------------------------------------ activation of end effectors
struct Plan : ContactPlanInterface { void optimize(const DynamicsState&, const TerrainDescription&) override {} };
static PlannerSetting setting(int N, const Real& dt) { PlannerSetting s; s.get(PlannerIntParam_NumTimesteps) = N; s.get(PlannerDoubleParam_TimeStep) = dt; s.get(PlannerBoolParam_LoadKinematics) = true; return s; }
struct CI { Real a, b; bool sel; V3 p; Q q; };
static ContactState make(const CI& i, int id) { ContactState c; c.contactActivationTime(i.a); c.contactDeactivationTime(i.b); c.contactPosition(i.p); c.contactOrientation(i.q); c.selectedAsActive(i.sel); c.optimizationId() = id; return c; }
static void put(ContactPlanInterface& P, const std::vector<std::vector<CI>>& cs) { int id = 0; for (int e = 0; e < NE; e++) { P.contactSequence().endeffectorContacts(e).clear(); for (auto& c : cs[e]) P.contactSequence().endeffectorContacts(e).push_back(make(c, id++)); } }
static CI ci(const std::string& n, const Real& a, const Real& b, bool sel = true) { return {a, b, sel, vec(n + "p"), quat(n + "q")}; }
static void activation(const DynamicsSequence& D, const std::vector<std::vector<CI>>& cs, int N, const Real& dt, const std::string& w) {
  prove("the sequence keeps its length" + w, D.size() == N);
  for (int e = 0; e < NE; e++) { std::set<int> ids; int act = 0; bool inrange = true; int total = 0; for (int k = 0; k < N; k++) total += D.dynamicsState(k).endeffectorActivation(e);
    for (int k = 0; k < N; k++) { const DynamicsState& s = D.dynamicsState(k); Real t = R(k + 1) * dt; Prop inside = truth(false), match = truth(false); for (size_t c = 0; c < cs[e].size(); c++) { if (!cs[e][c].sel) continue; Prop in = pand(kv::le(cs[e][c].a, t), kv::lt(t, cs[e][c].b)); inside = por(inside, in); if (s.endeffectorContactId(e) == (int)c) match = pand(in, pand(same(s.endeffectorPosition(e), cs[e][c].p), same(s.endeffectorOrientation(e), cs[e][c].q))); }
      if (s.endeffectorActivation(e)) { act++; ids.insert(s.endeffectorActivationId(e)); inrange = inrange && s.endeffectorActivationId(e) >= 0 && s.endeffectorActivationId(e) < total; prove("an end effector is active only inside one of its contacts" + w, inside); prove("an active end effector refers to the contact whose time it is, at its position and orientation" + w, match); }
      else { prove("an end effector is active at every time inside one of its contacts" + w, kv::pnot(inside)); prove("an inactive end effector refers to no contact" + w, s.endeffectorContactId(e) < 0); } }
    prove("the active steps of an end effector are counted" + w, D.activeEndeffectorSteps()[e] == act); prove("the active steps of an end effector are numbered from zero without repetition" + w, inrange && (int)ids.size() == act); } }
static std::vector<CI> symbolic_contacts(const std::string& n, int k, const Real& dt, int N) { std::vector<CI> r; Real last = R(0); for (int c = 0; c < k; c++) { Real a = input(n + S(c) + "a", 0, 0.3), b = input(n + S(c) + "b", 0.1, 0.5); if (c) kv::assume(kv::le(last, a)); kv::assume(kv::le(a, b)); last = b; r.push_back(ci(n + S(c), a, b, true)); } return r; }
static void fillheads(const std::string& b) { heads(b); kv::under_contract("momentumopt::ContactPlanInterface::fillDynamicsSequence"); kv::under_contract("momentumopt::DynamicsSequence::resize"); kv::assumption("the contacts of one end effector do not overlap in time"); }
KV_CASE(fill_times) { fillheads("3 steps, up to 2 contacts of one end effector with any times, any time step"); int n = 1 + kv::choice("contacts", 2), e = kv::choice("effector", 2) * 3; Real dt = input("dt", 0.05, 0.2); kv::assume(kv::gt(dt, R(0))); std::vector<std::vector<CI>> cs(NE); cs[e] = symbolic_contacts("c", n, dt, 3); PlannerSetting s = setting(3, dt); Plan P; P.initialize(s); put(P, cs); DynamicsSequence D; D.resize(3); DynamicsState ini; P.fillDynamicsSequence(ini, D); activation(D, cs, 3, dt, ""); }
static std::vector<std::vector<CI>> numeric(int k, const std::string& n) { std::vector<std::vector<CI>> c(NE); auto t = [](int a) { return R(a, 10); }; switch (k) {
  case 0: c[0] = {ci(n + "00", t(0), t(3)), ci(n + "01", t(5), t(8))}; c[1] = {ci(n + "10", t(0), t(9))}; c[3] = {ci(n + "30", t(4), t(5))}; break;
  case 1: c[0] = {ci(n + "00", t(6), t(9))}; c[2] = {ci(n + "20", t(0), t(2)), ci(n + "21", t(2), t(4)), ci(n + "22", t(6), t(20))}; break;
  case 2: break;
  case 3: c[1] = {ci(n + "10", t(5), t(7)), ci(n + "11", t(1), t(3))}; c[2] = {ci(n + "20", t(1), t(4), false), ci(n + "21", t(5), t(6))}; c[0] = {ci(n + "00", R(1, 20), R(9, 20))}; break;
  case 4: for (int e = 0; e < NE; e++) c[e] = {ci(n + S(e) + "0", t(e), t(e + 3)), ci(n + S(e) + "1", t(e + 5), t(e + 6))}; break; } return c; }
KV_CASE(fill_plans) { fillheads("five plans for 6 steps of 0.1 (touching, unselected, unordered contacts, contacts beyond the horizon), filled into a fresh sequence and over each of the five plans"); int k = kv::choice("plan", 5), b = kv::choice("before", 6); Real dt = R(1, 10); PlannerSetting s = setting(6, dt); Plan P; P.initialize(s); DynamicsSequence D; D.resize(6); DynamicsState ini; if (b) { put(P, numeric(b - 1, "old")); P.fillDynamicsSequence(ini, D); } auto cs = numeric(k, "c"); put(P, cs); P.fillDynamicsSequence(ini, D); activation(D, cs, 6, dt, b ? " after another plan" : ""); }
KV_CASE(plan_from_file) { heads("two plans from file, planned one after the other, with and without kinematics"); kv::under_contract("momentumopt::ContactPlanFromFile::optimize"); int k = kv::choice("plan", 4), b = kv::choice("before", 3), kin = kv::choice("kinematics", 2); Yaml y; PlannerSetting s = setting(3, R(1, 10)); s.get(PlannerBoolParam_LoadKinematics) = kin; s.get(PlannerStringParam_ConfigFile) = y.path; ContactPlanFromFile P; P.initialize(s); DynamicsState ini; TerrainDescription T; if (b) { y.put(plan_text("contact_plan", "old", counts(b == 1 ? 2 : 0))); P.optimize(ini, T); } y.put(plan_text("contact_plan", "c", counts(k))); P.optimize(ini, T); plan_is(P.contactSequence(), "c", counts(k), b ? " after another plan" : ""); const ContactSequence& C = P.contactSequence(); bool all = true; for (int e = 0; e < NE; e++) for (auto& c : C.endeffectorContacts(e)) all = all && c.selectedAsActive(); prove("every contact of the file is selected", all); if (kin) for (int e = 0; e < NE; e++) prove("the viapoints are those of the plan", P.viapointSequence().numEndeffectorViapoints(e) == counts(k)[e]); }
// ------------------------------------------------------------------ contact transitions
template <class P> static auto make_id(P& p, const DynamicsSequence& D, int from, int e, int) -> decltype(p.findMakeContactId(D, from, e)) { return p.findMakeContactId(D, from, e); }
template <class P> static int make_id(P&, const DynamicsSequence&, int, int, long) { return -1000; }
template <class P> static auto break_id(P& p, const DynamicsSequence& D, int from, int e, int) -> decltype(p.findBreakContactId(D, from, e)) { return p.findBreakContactId(D, from, e); }
template <class P> static int break_id(P&, const DynamicsSequence&, int, int, long) { return -1000; }
KV_CASE(transitions) { heads("every activation pattern of up to 6 steps, every search start, all end effectors"); int N = 1 + kv::choice("steps", 6); PlannerSetting s = setting(N, R(1, 10)); Plan P; P.initialize(s); bool okm = true, okb = true; DynamicsSequence D; D.resize(N); Plan probe; if (make_id(P, D, 0, 0, 0) == -1000 || break_id(P, D, 0, 0, 0) == -1000) { kv::bounded("the transition queries are not present"); return; } kv::under_contract("momentumopt::ContactPlanInterface::findMakeContactId"); kv::under_contract("momentumopt::ContactPlanInterface::findBreakContactId");
  for (int pat = 0; pat < (1 << N); pat++) for (int e = 0; e < NE; e++) { D.resize(N); for (int k = 0; k < N; k++) { D.dynamicsState(k).endeffectorActivation(e) = pat >> k & 1; for (int o = 0; o < NE; o++) if (o != e) D.dynamicsState(k).endeffectorActivation(o) = !(pat >> k & 1); } for (int from = 0; from < N; from++) { int m = -1, b = -1; for (int k = from; k + 1 < N; k++) { bool a = pat >> k & 1, c = pat >> (k + 1) & 1; if (m < 0 && !a && c) m = k; if (b < 0 && a && !c) b = k + 1; } okm = okm && make_id(P, D, from, e, 0) == m; okb = okb && break_id(P, D, from, e, 0) == b; } }
  prove("the next contact is made after the last step without it", okm); prove("a contact is broken at the first step without it", okb); }
KV_CASE(flight) { heads("plans of 10 steps with flight phases of at least 2 steps; every position, orientations of four unit quaternions"); kv::under_contract("momentumopt::ContactPlanInterface::updateEndeffectorTrajectories"); kv::under_contract("momentumopt::ContactPlanInterface::generateFlightPhase"); int N = 10, k = kv::choice("plan", 5); Real dt = R(1, 10); PlannerSetting s = setting(N, dt); V3 motion = vec("motion"); s.get(PlannerVectorParam_CenterOfMassMotion) = motion; Plan P; P.initialize(s); DynamicsState ini; for (int e = 0; e < NE; e++) { ini.endeffectorPosition(e) = vec("ini" + S(e)); ini.endeffectorOrientation(e) = unit_num(e % 4); ini.endeffectorActivation(e) = false; }
  auto t = [](int a) { return R(a, 10); }; std::vector<std::vector<CI>> cs(NE); switch (k) { case 0: cs[0] = {ci("00", t(0), t(4)), ci("01", t(7), t(20))}; ini.endeffectorActivation(0) = true; cs[2] = {ci("20", t(5), t(20))}; break; case 1: cs[1] = {ci("10", t(0), t(3)), ci("11", t(3), t(6))}; ini.endeffectorActivation(1) = true; cs[3] = {ci("30", t(4), t(5)), ci("31", t(7), t(9))}; break; case 2: cs[0] = {ci("00", t(0), t(3)), ci("01", t(3), t(5)), ci("02", t(8), t(20))}; cs[1] = {ci("10", t(30), t(40))}; break; case 3: cs[3] = {ci("30", t(0), t(20))}; ini.endeffectorActivation(3) = true; cs[0] = {ci("00", t(1), t(5)), ci("01", t(8), t(20))}; break; case 4: cs[2] = {ci("20", t(4), t(6)), ci("21", t(9), t(15))}; cs[0] = {ci("00", t(0), t(2)), ci("01", t(5), t(7)), ci("02", t(30), t(40))}; ini.endeffectorActivation(0) = true; break; }
  for (int e = 0; e < NE; e++) for (size_t c = 0; c < cs[e].size(); c++) cs[e][c].q = unit_num((e + c) % 4); put(P, cs); for (int e = 0; e < NE; e++) for (int c = -1; c < (int)cs[e].size(); c++) { ViapointState v; v.viapointId() = c; v.viapointPosition() = vec("via" + S(e) + S(c)); P.viapointSequence().endeffectorViapoints(e).push_back(v); } DynamicsSequence D; D.resize(N); for (int i = 0; i < N; i++) D.dynamicsState(i).time() = dt; P.fillDynamicsSequence(ini, D); P.updateEndeffectorTrajectories(ini, D); activation(D, cs, N, dt, " after filling in the flight phases"); V3 z(R(0), R(0), R(0));
  for (int e = 0; e < NE; e++) { if (cs[e].empty()) continue; bool any = false; for (int i = 0; i < N; i++) any = any || D.dynamicsState(i).endeffectorActivation(e); for (int i = 0; i < N; i++) { if (D.dynamicsState(i).endeffectorActivation(e)) continue; int j = i; while (j + 1 < N && !D.dynamicsState(j + 1).endeffectorActivation(e)) j++; if (!any || j == i) { i = j; continue; } const DynamicsState &a = D.dynamicsState(i), &b = D.dynamicsState(j);
      V3 p0 = i ? cs[e][D.dynamicsState(i - 1).endeffectorContactId(e)].p : ini.endeffectorPosition(e), p1 = j + 1 < N ? cs[e][D.dynamicsState(j + 1).endeffectorContactId(e)].p : V3(ini.endeffectorPosition(e) + motion); Q q0 = i ? cs[e][D.dynamicsState(i - 1).endeffectorContactId(e)].q : ini.endeffectorOrientation(e);
      prove("a flight phase starts at rest at the contact before it", pand(same(a.endeffectorPosition(e), p0), pand(same(a.endeffectorVelocity(e), z), same(a.endeffectorAcceleration(e), z)))); prove("a flight phase ends at rest at the contact after it", pand(same(b.endeffectorPosition(e), p1), pand(same(b.endeffectorVelocity(e), z), same(b.endeffectorAcceleration(e), z)))); prove("a flight phase starts with the orientation of the contact before it", por(same(a.endeffectorOrientation(e), q0), same(a.endeffectorOrientation(e), neg(q0)))); i = j; } } }
