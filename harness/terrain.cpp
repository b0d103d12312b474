// C23: contracts of the terrain regions.
#include "kvh.hpp"
#include <momentumopt/cntopt/TerrainDescription.hpp>
using namespace momentumopt; using kv::input; using kv::prove; using kv::prove_eq; using kv::eq; using kv::pand; using kv::por; using kv::truth; using kv::Prop; using kv::Real;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix<double, Eigen::Dynamic, 3> VM;
static std::string S(int i) { return std::to_string(i); }
static Real R(long a, long b = 1) { return Real(a) / Real(b); }
struct Plane { V3 o, e1, e2, n; V3 at(const Real& x, const Real& y) const { return o + x * e1 + y * e2; } };
// every plane but the downward horizontal one: the basis is the rotation of the quaternion (1, q, -p, 0), the normal its third axis
static Plane plane_any() { Plane P; Real p = input("p", -0.6, 0.6), q = input("q", -0.6, 0.6), a = 1 + p * p + q * q; P.e1 = V3((1 + q * q - p * p) / a, -2 * p * q / a, -2 * p / a); P.e2 = V3(-2 * p * q / a, (1 - q * q + p * p) / a, -2 * q / a); P.n = V3(2 * p / a, 2 * q / a, (1 - p * p - q * q) / a); P.o = V3(input("ox"), input("oy"), input("oz")); return P; }
static Plane plane_num(int k) { Plane P; P.o = V3(input("ox"), input("oy"), input("oz")); switch (k) { case 0: P.e1 = V3(R(1), R(0), R(0)); P.e2 = V3(R(0), R(1), R(0)); P.n = V3(R(0), R(0), R(1)); break; case 1: P.e1 = V3(R(0), R(1), R(0)); P.e2 = V3(R(0), R(0), R(1)); P.n = V3(R(1), R(0), R(0)); break; case 2: P.e1 = V3(R(2, 3), R(-1, 3), R(2, 3)); P.e2 = V3(R(2, 3), R(2, 3), R(-1, 3)); P.n = V3(R(-1, 3), R(2, 3), R(2, 3)); break; default: P.e1 = V3(R(1), R(0), R(0)); P.e2 = V3(R(0), R(-1), R(0)); P.n = V3(R(0), R(0), R(-1)); } return P; }
struct Poly { std::vector<Real> x, y; int n() const { return x.size(); } Real cr(int i, const Real& px, const Real& py) const { int j = (i + 1) % n(); return (x[j] - x[i]) * (py - y[i]) - (y[j] - y[i]) * (px - x[i]); } };
static Poly poly_any(int n) { Poly P; for (int i = 0; i < n; i++) { Real c = R(std::lround(1000 * std::cos(6.28318 * i / n)), 1000), s = R(std::lround(1000 * std::sin(6.28318 * i / n)), 1000); P.x.push_back(c + input("x" + S(i), -0.2, 0.2)); P.y.push_back(s + input("y" + S(i), -0.2, 0.2)); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j != i && j != (i + 1) % n) kv::assume(kv::gt(P.cr(i, P.x[j], P.y[j]), R(0))); return P; }
static Poly poly_num(int k) { Poly P; switch (k) { case 0: P.x = {R(1), R(-1), R(-1), R(1)}; P.y = {R(1), R(1), R(-1), R(-1)}; break; case 1: P.x = {R(0), R(4), R(4)}; P.y = {R(0), R(0), R(3)}; break; case 2: P.x = {R(0), R(4), R(7), R(3)}; P.y = {R(0), R(3), R(7), R(4)}; break; default: P.x = {R(0), R(3), R(7), R(4), R(1)}; P.y = {R(0), R(-4), R(-1), R(3), R(3)}; } return P; }
static VM verts(const Plane& P, const Poly& G) { VM m(G.n(), 3); for (int i = 0; i < G.n(); i++) { V3 v = P.at(G.x[i], G.y[i]); for (int d = 0; d < 3; d++) m(i, d) = v[d]; } return m; }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 crs(const V3& a, const V3& b) { return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
static Prop same(const V3& a, const V3& b) { return pand(eq(a[0], b[0]), pand(eq(a[1], b[1]), eq(a[2], b[2]))); }
static void heads(const std::string& b) { kv::under_contract("momentumopt::TerrainRegion::initialize"); kv::under_contract("momentumopt::TerrainDescription::addTerrainRegion"); kv::bounded(b); kv::assumption("a convex polygon is the intersection of the half-planes to the left of its counter-clockwise sides"); kv::set_tol(1e-7); }
static void lemmas(const Plane& P, const Poly& G) { V3 a = P.at(G.x[2], G.y[2]) - P.at(G.x[1], G.y[1]), b = P.at(G.x[1], G.y[1]) - P.at(G.x[0], G.y[0]), c = crs(b, a); Real D = G.cr(0, G.x[2], G.y[2]); kv::lemma_sqrt("area of the parallelogram of the first two sides", Real(dot(c, c)), D); }
static void region(const TerrainRegion& T, const Plane& P, const Poly& G, const std::string& w) {
  int n = G.n(); const auto& A = T.terrainDescriptionMatrix(); const auto& b = T.terrainDescriptionVector(); prove("one half-space for each side" + w, A.rows() == n && b.size() == n); if (A.rows() != n || b.size() != n) return;
  prove("the normal is the unit normal of the surface" + w, same(T.normalToTerrain(), P.n));
  const M3& Q = T.terrainRotation(); V3 r0 = Q.row(0).transpose(), r1 = Q.row(1).transpose(), r2 = Q.row(2).transpose(); prove("the third axis of the rotation is the normal" + w, same(r2, P.n)); prove("the axes of the rotation have unit length" + w, pand(eq(dot(r0, r0), R(1)), eq(dot(r1, r1), R(1)))); prove("the axes of the rotation are perpendicular" + w, pand(eq(dot(r0, r1), R(0)), pand(eq(dot(r0, r2), R(0)), eq(dot(r1, r2), R(0))))); prove("the axes of the rotation are right-handed" + w, same(crs(r0, r1), r2));
  Real x = input("X"), y = input("Y"); V3 q = P.at(x, y); for (int i = 0; i < n; i++) { V3 a = A.row(i).transpose(); Prop h = kv::le(dot(a, q), b[i]), g = kv::ge(G.cr(i, x, y), R(0)); prove("a point of the plane satisfies a half-space exactly if it is on the inner side of the polygon's side" + w, kv::iff(h, g)); for (int j : {i, (i + 1) % n}) prove("both vertices of a side are on the boundary of its half-space" + w, eq(dot(a, P.at(G.x[j], G.y[j])), b[i])); }
  const V3& c = T.pointOnTerrain(); prove("the point of the region is in its plane" + w, eq(dot(P.n, c - P.o), R(0))); Real cx = dot(P.e1, c - P.o), cy = dot(P.e2, c - P.o), mx = 0, my = 0; for (int i = 0; i < n; i++) { mx = mx + G.x[i] / Real(n); my = my + G.y[i] / Real(n); } prove("the point of the region is the mean of its vertices" + w, pand(eq(cx, mx), eq(cy, my)));
  prove("every access reads the same region" + w, &const_cast<TerrainRegion&>(T).terrainDescriptionMatrix() == &A && &const_cast<TerrainRegion&>(T).terrainDescriptionVector() == &b && &const_cast<TerrainRegion&>(T).terrainRotation() == &Q && &const_cast<TerrainRegion&>(T).pointOnTerrain() == &c && &const_cast<TerrainRegion&>(T).normalToTerrain() == &T.normalToTerrain());
}
static void one(const Plane& P, const Poly& G) { lemmas(P, G); TerrainDescription D; D.addTerrainRegion(verts(P, G)); prove("one region", D.numRegions() == 1); region(const_cast<const TerrainDescription&>(D).terrainRegion(0), P, G, ""); }
KV_CASE(triangle) { heads("every plane, every triangle"); one(plane_any(), poly_any(3)); }
KV_CASE(quadrilateral) { heads("every plane, every convex quadrilateral"); one(plane_any(), poly_any(4)); }
KV_CASE(polygon_numeric_planes) { heads("every convex polygon of 3 to 5 sides in four planes (horizontal, vertical, inclined, downward)"); int n = 3 + kv::choice("sides", 3); Plane P = plane_num(kv::choice("plane", 4)); one(P, poly_any(n)); }
KV_CASE(polygon_numeric_shapes) { heads("four polygons in every plane"); Plane P = plane_any(); one(P, poly_num(kv::choice("shape", 4))); }
KV_CASE(hexagon_deep) { heads("every convex hexagon in the horizontal plane"); one(plane_num(0), poly_any(6)); }
static void several(TerrainDescription& D, int k, int before) { const TerrainDescription& C = D; prove("every region is kept", C.numRegions() == before + k); for (int i = 0; i < C.numRegions(); i++) prove("regions are numbered in their order", C.terrainRegion(i).terrainId() == i && D.terrainRegion(i).terrainId() == i); }
KV_CASE(order) { heads("up to three regions, added one after the other"); int k = 1 + kv::choice("regions", 3); TerrainDescription D; std::vector<Plane> P; std::vector<Poly> G; for (int i = 0; i < k; i++) { P.push_back(plane_num((i + 2) % 4)); G.push_back(poly_num((i + kv::choice("shape" + S(i), 2)) % 4)); D.addTerrainRegion(verts(P[i], G[i])); several(D, 1, i); } for (int i = 0; i < k; i++) region(D.terrainRegion(i), P[i], G[i], " of region " + S(i)); }
struct Yaml { std::string path; Yaml() { char b[] = "/tmp/kvterrXXXXXX"; int f = mkstemp(b); if (f >= 0) close(f); path = b; } void put(const std::string& t) { std::ofstream f(path); f << t; } ~Yaml() { unlink(path.c_str()); } };
static std::string text(const std::string& key, int k, const std::string& in) { std::ostringstream o; o << key << ":\n  regions: ["; for (int i = 0; i < k; i++) { Poly G = poly_num(i % 4); o << (i ? ", " : "") << "["; for (int j = 0; j < G.n(); j++) { std::ostringstream X, Y; X << G.x[j]; Y << G.y[j]; o << (j ? ", " : "") << "[" << X.str() << ", " << Y.str() << ", kv:" << in << i << "]"; } o << "]"; } o << "]\n"; return o.str(); }
static void loaded(TerrainDescription& D, int from, int k, const std::string& in) { for (int i = 0; i < k; i++) { Poly G = poly_num(i % 4); Plane P = plane_num(0); P.o = V3(R(0), R(0), input(in + S(i))); region(D.terrainRegion(from + i), P, G, " of a loaded region"); } }
KV_CASE(load) { heads("files with up to three regions (any height), loaded once, twice, or after regions were added"); kv::under_contract("momentumopt::TerrainDescription::loadFromFile"); int k = kv::choice("regions", 4), mode = kv::choice("mode", 3); Yaml y; std::string a = text("terrain_description", k, "h"), b = text("other", 1, "g"); y.put(a + b); TerrainDescription D; int n = 0; if (mode == 1) { D.addTerrainRegion(verts(plane_num(1), poly_num(1))); n = 1; } D.loadFromFile(y.path); several(D, k, n); loaded(D, n, k, "h"); if (mode == 2) { n = k; D.loadFromFile(y.path, "other"); several(D, 1, n); loaded(D, n, 1, "g"); loaded(D, 0, k, "h"); } }
