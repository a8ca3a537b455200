// Octree construction, radius search and k-nearest search.  The result sets expose their size and worst distance.
#include "common.h"
#include "Octree.h"
#include "OctreeCollector.h"
#include "XYZ.h"
#include <cmath>
using namespace LNLib;
static VP3 cloud0(int k) {
  switch (k) {
  case 0: return {P3(0, 0, 0), P3(4, 1, 2), P3(1, 3, 4), P3(3.5, 3, 0.5), P3(2, 2, 2), P3(0.5, 3.5, 1)};
  case 1: return {P3(-3, 0, 1), P3(5, 0, 1), P3(5, 0.5, 1), P3(1, 7, 0), P3(-2, 1, 6), P3(2, 2, 3), P3(0, 5, 5), P3(4.5, 6.5, 6.5), P3(1.25, 1, 0.5)};
  case 2: return {P3(1, 1, 1), P3(1, 1, 1), P3(1, 1, 1), P3(9, 1, 1)};
  case 3: { VP3 r; for (int i = 0; i < 12; i++) r.push_back(P3(i * 0.75, (i * 5) % 7, (i * 3) % 4 + 0.25)); return r; }
  case 5: { VP3 r; static const double T[8] = {0, 1.25, 6, 2.5, 7.5, 4.75, 3.25, 6.25}; for (double t : T) r.push_back(P3(2 * t, t, 2 * t)); return r; }
  default: return {P3(2, 3, 4)};
  }
}
static VP3 cloud(int k) { VP3 r = cloud0(k); for (int a = sym_param("ax", 0); a > 0; a--) for (auto& p : r) p = P3(p.GetY(), p.GetZ(), p.GetX()); return r; }   // ax: the axes change places
static double dot(const P3& a) { return a.GetX() * a.GetX() + a.GetY() * a.GetY() + a.GetZ() * a.GetZ(); }
static P3 query(int ln) {   // a line through space, or a patch of a plane
  int a = sym_param("a", -999); double t = a == -999 ? rv("t", -3, 9) : rv("t", a / 4.0, a / 4.0 + sym_param("wd", 2) / 4.0);
  switch (ln) { case 0: return P3(t, 1.3, 1.7); case 1: return P3(2.1, t, 0.9); case 2: return P3(0.6, 3.3, t); case 3: return P3(t, 0.4 * t + 1.1, 3.2 - 0.3 * t); case 4: return P3(9.5, t, -1.25); case 6: return P3(2 * t, t, 2 * t); default: { double s = rv("s", -2, 8); return P3(t, s, 1.9); } }
}
HARNESS(tree_radius) {
  VP3 db = cloud(sym_param("k", 0)); double r = sym_param("r", 200) / 100.0; P3 q = query(sym_param("ln", 0)); int n = 0;
  for (auto& p : db) { double d = dot(p - q); if (d < r * r) { sym_assume_lt(d, r * r - 0.001); n++; } else sym_assume_lt(r * r + 0.001, d); }
  Octant* o = OctreeConstruction(db, sym_param("leaf", 1), sym_param("me", 10) / 100.0); RadiusNnResultSet a(r), b(r); OctreeRadiusSearch(o, db, a, q); OctreeRadiusSearchFast(o, db, b, q);
  sym_check("radius search finds every point of the ball once", a.Size() == n); sym_check("fast radius search finds every point of the ball once", b.Size() == n); sym_check_eq("radius kept", a.WorstDist(), r, 1e-12); delete o; sym_reached("radius");
}
HARNESS(tree_knn) {
  VP3 db = cloud(sym_param("k", 0)); int kk = sym_param("n", 1); P3 q = query(sym_param("ln", 0)); VD d; for (auto& p : db) d.push_back(dot(p - q)); Octant* o = OctreeConstruction(db, sym_param("leaf", 1), sym_param("me", 10) / 100.0); KnnResultSet s(kk); OctreeKnnSearch(o, db, s, q); delete o;
  int n = (int)db.size(); sym_check("as many neighbours as asked for", s.Size() == (kk < n ? kk : n)); sym_check("full", s.Full() == (kk <= n)); if (kk > n) { sym_reached("knn"); return; } double w = s.WorstDist(), w2 = w * w;
  // the k-th smallest squared distance: at least k points are not farther, at least n-k+1 are not nearer
  int le = 0, ge = 0; for (int i = 0; i < n; i++) { if (d[i] <= w2 + 2e-5 * (1 + w2)) le++; if (d[i] >= w2 - 2e-5 * (1 + w2)) ge++; } sym_check("enough points are at least as near as the worst neighbour", le >= kk); sym_check("no more than k-1 points are nearer than the worst neighbour", ge >= n - kk + 1); sym_reached("knn");
}
static void walk(Octant* o, const VP3& db, int leaf, double me, std::vector<int>& seen, int depth) {
  double c[3] = {o->Center.X(), o->Center.Y(), o->Center.Z()};
  for (int i : o->PointIndices) { double x[3] = {db[i].GetX(), db[i].GetY(), db[i].GetZ()}; for (int k = 0; k < 3; k++) { sym_check_le("point within its octant", x[k], c[k] + o->Extent, 1e-4); sym_check_le("point within its octant", c[k] - o->Extent, x[k], 1e-4); } }
  if (o->IsLeaf) { sym_check("leaves hold points", !o->PointIndices.empty()); sym_check("leaves are small", (int)o->PointIndices.size() <= leaf || o->Extent <= me); for (int i : o->PointIndices) seen[i]++; for (auto* ch : o->Children) sym_check("leaves have no children", ch == nullptr); return; }
  sym_check("eight children", o->Children.size() == 8); size_t total = 0;
  for (int i = 0; i < 8; i++) { Octant* ch = o->Children[i]; if (!ch) continue; total += ch->PointIndices.size(); sym_check_eq("child extent", ch->Extent, o->Extent / 2, 1e-9); double g[3] = {ch->Center.X(), ch->Center.Y(), ch->Center.Z()}; for (int k = 0; k < 3; k++) sym_check_eq("child centre", g[k], c[k] + ((i >> k) & 1 ? 0.5 : -0.5) * o->Extent, 1e-9); walk(ch, db, leaf, me, seen, depth + 1); }
  sym_check("children share out the points", total == o->PointIndices.size());
}
HARNESS(tree_build) {
  int kind = sym_param("k", 0); VP3 db; int leaf = sym_param("leaf", 1); double me = sym_param("me", 10) / 100.0;
  if (kind < 0) { int n = sym_param("n", 3); for (int i = 0; i < n; i++) db.push_back(P3(rv(idx("x", i), 2, 6), i * 1.5 + 2, 2 + 0.3 * i)); } else { db = cloud(kind); P3 t(rv("tx", 10, 14), rv("ty", 10, 14), rv("tz", 10, 14)); if (sym_param("sc", 0) == 2) { double sx = rv("sx", 0.5, 4), sy = rv("sy", 0.5, 4), sz = rv("sz", 0.5, 4); for (auto& p : db) p = P3(p.GetX() * sx, p.GetY() * sy, p.GetZ() * sz); } else if (sym_param("sc", 0)) { double s = rv("s", 0.5, 4); for (auto& p : db) p = p * s; } for (auto& p : db) p = p + t; }
  Octant* o = OctreeConstruction(db, leaf, me); sym_check("a tree for every non-empty cloud", o != nullptr); if (!o) return; std::vector<int> seen(db.size(), 0); walk(o, db, leaf, me, seen, 0); for (int c : seen) sym_check("every point in exactly one leaf", c == 1); delete o; sym_reached("build");
}
HARNESS(tree_empty) { VP3 db; Octant* o = OctreeConstruction(db, 1, 0.1); sym_check("no tree for no points", o == nullptr); RadiusNnResultSet a(1), b(1); KnnResultSet c(2); P3 q(rv("x", -1, 1), 0, 0); OctreeRadiusSearch(o, db, a, q); OctreeRadiusSearchFast(o, db, b, q); OctreeKnnSearch(o, db, c, q); sym_check("nothing found", a.Size() == 0 && b.Size() == 0 && c.Size() == 0); sym_reached("empty"); }
// the three octant predicates against their definition, everything symbolic
HARNESS(tree_pred) {
  P3 q(rv("x", -3, 3), rv("y", -3, 3), rv("z", -3, 3)); double r = rv("r", 0.05, 4), e = rv("e", 0.05, 2); Octant o(XYZ(0, 0, 0), e, {0}, true); double x[3] = {q.GetX(), q.GetY(), q.GetZ()}; int w = sym_param("w", 0);
  for (int k = 0; k < 3; k++) if (x[k] < 0) x[k] = 0 - x[k]; double M = 1e-4;
  if (w == 0) { bool in = Inside(q, r, &o); bool ref = true; for (int k = 0; k < 3; k++) { double s = x[k] + r; if (s < e) sym_assume_lt(s, e - M); else { sym_assume_lt(e + M, s); ref = false; } } sym_check("Inside: the ball lies in the octant", in == ref); }
  else if (w == 1) { bool ov = Overlaps(q, r, &o); double d2 = 0; for (int k = 0; k < 3; k++) { double g = x[k] - e; if (g > 0) d2 = d2 + g * g; } if (d2 < r * r) { sym_assume_lt(d2, r * r - M); sym_check("Overlaps: a ball that meets the octant", ov); } else { sym_assume_lt(r * r + M, d2); sym_check("Overlaps: a ball away from the octant", !ov); } }
  else { bool c = Contains(q, r, &o); double d2 = 0; for (int k = 0; k < 3; k++) d2 = d2 + (x[k] + e) * (x[k] + e); if (d2 < r * r) { sym_assume_lt(d2, r * r - M); sym_check("Contains: the octant lies in the ball", c); } else { sym_assume_lt(r * r + M, d2); sym_check("Contains: the octant leaves the ball", !c); } }
  sym_reached("pred");
}
