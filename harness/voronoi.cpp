// The Voronoi / Delaunay generator.  The generator's source is compiled a second time with `float` read as real numbers,
// under another namespace, so that sites become symbolic (the library's own float build is replayed natively).
#include "common.h"
#include <bits/stdc++.h>
#include "LNLibDefinitions.h"
#define LNLib LNVoronoiReal
#define float double
#include "../Algorithm/Voronoi.cpp"
#undef float
#undef LNLib
#undef le
#undef re
#undef DELETED
using LNVoronoiReal::VoronoiDiagramGenerator;
struct Pt { double x, y; };
static double cross2(Pt a, Pt b, Pt c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static double d2(Pt a, Pt b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
// > 0 when d is strictly inside the circle through the counter-clockwise triangle a b c
static double inCircle(Pt a, Pt b, Pt c, Pt d) { double ax = a.x - d.x, ay = a.y - d.y, bx = b.x - d.x, by = b.y - d.y, cx = c.x - d.x, cy = c.y - d.y; return (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay); }
// Families of sites (the harness computes the hull on the concrete part):
//  mv=0  a concrete pattern moved by every translation;  mv=1, 3  sites moving along segments, everything else fixed;  mv=2  one site anywhere in a square
static const double T0[] = {0.3125, 0.4375, 0.5625, 0.6875};
static std::vector<Pt> pattern(int k, double t) {
  switch (k) {
  case 0: return {{0, 0}, {8, 1}, {3, 7}, {2 + 3 * t, 1.5 + 2 * t}};
  case 1: return {{0, 0}, {9, 0.5}, {10, 6.5}, {1, 8}, {2 + 5 * t, 2.5 + 3 * t}};
  case 2: return {{0, 0}, {9, 0.5}, {10, 6.5}, {1, 8}, {3, 5.5}, {3 + 5 * t, 2.5 + 3 * t}};
  case 3: return {{0, 1}, {4, -1}, {9, 0.5}, {10, 6.5}, {1, 8}, {2.5, 3.25}, {6, 5}, {3 + 4 * t, 3 - 2 * t}};
  case 4: return {{5, 9}, {-4, 1}, {12, -2}, {5, 1 + 5 * t}, {2, 2.5}};
  case 5: return {{0, 0}, {6, 0}, {6, 5}, {0, 5}, {1 + 4 * t, 2}, {4, 3.5}}; // rectangle: the bottom sites share their height
  case 6: return {{0, 0}, {7, -1}, {9, 6}, {-1, 5}, {3 + 2 * t, 1 + t}, {2, 3.5}, {6 - 2 * t, 4}};
  case 7: return {{0, 0}, {1, 3}, {5, 4}}; // one triangle
  case 8: return {{0, 0}, {4, 0}, {2, 3}}; // two lowest sites level
  case 9: return {{0, 2}, {4, 2}, {2, -1}}; // two highest sites level
  }
  std::vector<Pt> P; unsigned z = 77u * k + 5; auto r = [&]() { z = z * 1664525u + 1013904223u; return (double)((z >> 12) % 1024) / 64; }; int n = 4 + k % 13; // pseudo-random patterns, 4-16 sites
  while ((int)P.size() < n) { Pt q{r(), r() * 0.75}; bool far = true; for (auto& p : P) if (d2(p, q) < 1) far = false; if (far) P.push_back(q); } return P;
}
// counter-clockwise hull of concrete points (gift wrapping)
static std::vector<int> hullOf(const std::vector<Pt>& P) { int n = (int)P.size(), s = 0; for (int i = 1; i < n; i++) if (P[i].x < P[s].x || (P[i].x == P[s].x && P[i].y < P[s].y)) s = i; std::vector<int> H; int c = s; do { H.push_back(c); int b = (c + 1) % n; for (int i = 0; i < n; i++) if (i != c && cross2(P[c], P[b], P[i]) < 0) b = i; c = b; } while (c != s && (int)H.size() <= n); return H; }
struct Fam { std::vector<Pt> P; int h; double hull, ox, oy; };
static Fam sites() {
  int k = sym_param("k", 0), mv = sym_param("mv", 0), ti = sym_param("t", 0), rot = sym_param("rot", 0), fl = sym_param("fl", 0); Fam f; sym_approx_sqrt(1); std::vector<Pt> C = pattern(k, T0[ti]); std::vector<int> H = hullOf(C); f.h = (int)H.size(); f.hull = 0;
  f.ox = f.oy = 0; if (mv == 1) C = pattern(k, rv("t", T0[ti] - 1.0 / 64, T0[ti] + 1.0 / 64)); else if (mv == 3) C = pattern(k, rv("t", 0.25, 0.75)); else if (mv == 2) { int j = sym_param("j", 3) % (int)C.size(); double w = 1.0 / 64; C[j].x = C[j].x + rv("dx", -w, w); C[j].y = C[j].y + rv("dy", -w, w); } else { f.ox = rv("ox", -50, 50); f.oy = rv("oy", -50, 50); }
  for (int i = 0; i < f.h; i++) { Pt a = C[H[i]], b = C[H[(i + 1) % f.h]]; f.hull = f.hull + (a.x * b.y - b.x * a.y); }
  int n = (int)C.size(); for (int i = 0; i < n; i++) { Pt q = C[(i + rot) % n]; double x = fl & 1 ? -q.x : q.x, y = fl & 2 ? -q.y : q.y; f.P.push_back(fl & 4 ? Pt{y + f.ox, x + f.oy} : Pt{x + f.ox, y + f.oy}); } return f;
}
HARNESS(delaunay) {
  Fam fam = sites(); std::vector<Pt>& P = fam.P; int n = (int)P.size(), h = fam.h; std::vector<double> X, Y; for (auto& q : P) { X.push_back(q.x); Y.push_back(q.y); }
  VoronoiDiagramGenerator g; g.setGenerateDelaunay(true); if (sym_param("again", 0)) { std::vector<Pt> Q = pattern(sym_param("again", 0), 0.5); std::vector<double> A, C; for (auto& q : Q) { A.push_back(q.x); C.push_back(q.y); } g.generateVoronoi(A.data(), C.data(), (int)Q.size(), -40, 40, -40, 40, 1e-4); if (sym_param("rs", 0)) g.reset(); } // the generator has been used before
  bool ok = g.generateVoronoi(X.data(), Y.data(), n, fam.ox - 20, fam.ox + 30, fam.oy - 25, fam.oy + 35, 1e-4); sym_check("diagram is generated", ok); auto T = g.getTriangles();
  int tri = 2 * n - 2 - h; sym_check("number of triangles", (int)T.size() == tri); if ((int)T.size() != tri) return;
  double area = 0;
  for (auto& f : T) { sym_check("three corners", (int)f.size() == 3); for (int v : f) { sym_check("corner is a site", v >= 0 && v < n); if (v < 0 || v >= n) return; }
    Pt a{X[f[0]], Y[f[0]]}, b{X[f[1]], Y[f[1]]}, c{X[f[2]], Y[f[2]]}; double o = cross2(a, b, c); if (o < 0) { Pt s = b; b = c; c = s; o = -o; area = area + o; } else area = area + o;
    for (int i = 0; i < n; i++) if (i != f[0] && i != f[1] && i != f[2]) sym_check_le("circumcircle is empty", inCircle(a, b, c, Pt{X[i], Y[i]}), 0, 1e-6); }
  sym_check_eq("triangles fill the hull", area, fam.hull, 1e-9);
  g.resetDelaunayEdgesIterator(); double x1, y1, x2, y2; std::set<std::pair<int, int>> E; int cnt = 0; auto site = [&](double x, double y) { for (int i = 0; i < n; i++) if (X[i] == x && Y[i] == y) return i; return -1; };
  while (g.getNextDelaunay(x1, y1, x2, y2)) { int a = site(x1, y1), b = site(x2, y2); sym_check("Delaunay edge joins two sites", a >= 0 && b >= 0 && a != b); if (a > b) std::swap(a, b); E.insert({a, b}); if (++cnt > 40) break; }
  std::set<std::pair<int, int>> F; for (auto& f : T) for (int i = 0; i < 3; i++) { int a = f[i], b = f[(i + 1) % 3]; if (a > b) std::swap(a, b); F.insert({a, b}); } sym_check("Delaunay edges are the edges of the triangles", E == F); sym_reached("delaunay");
}
HARNESS(voronoi) {
  Fam fam = sites(); std::vector<Pt>& P = fam.P; int n = (int)P.size(), h = fam.h, mv = sym_param("mv", 0), cl = sym_param("clip", 0); std::vector<double> X, Y; for (auto& q : P) { X.push_back(q.x); Y.push_back(q.y); }
  static const double W[5][4] = {{-90000, 90000, -91000, 92000}, {0.5, 7.5, 0.25, 6.25}, {-8, 3.5, -5.5, 12}, {4.125, 30, -30, 5.375}, {-6.5, -1.25, -9, 2.375}}; double L = fam.ox + W[cl][0], R = fam.ox + W[cl][1], B = fam.oy + W[cl][2], U = fam.oy + W[cl][3]; int sw = sym_param("sw", 0);
  VoronoiDiagramGenerator g; if (sym_param("again", 0)) { std::vector<Pt> Q = pattern(sym_param("again", 0), 0.5); std::vector<double> A, C; for (auto& q : Q) { A.push_back(q.x); C.push_back(q.y); } g.generateVoronoi(A.data(), C.data(), (int)Q.size(), -40, 40, -40, 40, 1e-4); if (sym_param("rs", 0)) g.reset(); }
  g.generateVoronoi(X.data(), Y.data(), n, sw & 1 ? R : L, sw & 1 ? L : R, sw & 2 ? U : B, sw & 2 ? B : U, 1e-4); g.resetIterator(); double x1, y1, x2, y2; int cnt = 0; std::vector<std::pair<Pt, Pt>> E;
  while (g.getNext(x1, y1, x2, y2)) { if (++cnt > 100) break; Pt a{x1, y1}, b{x2, y2}, m{(x1 + x2) / 2, (y1 + y2) / 2}; E.push_back({a, b});
    for (Pt q : {a, b}) { sym_check_le("edge inside the borders", L, q.x, 1e-7); sym_check_le("edge inside the borders", q.x, R, 1e-7); sym_check_le("edge inside the borders", B, q.y, 1e-7); sym_check_le("edge inside the borders", q.y, U, 1e-7); }
    if (mv == 0) continue;
    int s0 = 0; for (int i = 1; i < n; i++) if (d2(m, Pt{X[i], Y[i]}) < d2(m, Pt{X[s0], Y[s0]}) - 1e-6) s0 = i; int s1 = -1; for (int i = 0; i < n; i++) if (i != s0 && (s1 < 0 || d2(m, Pt{X[i], Y[i]}) < d2(m, Pt{X[s1], Y[s1]}))) s1 = i;
    for (Pt q : {a, b}) { sym_check_eq("edge is equidistant from its two nearest sites", d2(q, Pt{X[s0], Y[s0]}), d2(q, Pt{X[s1], Y[s1]}), 1e-7); for (int i = 0; i < n; i++) if (i != s0 && i != s1) sym_check_le("no site is nearer to the edge", d2(q, Pt{X[s0], Y[s0]}), d2(q, Pt{X[i], Y[i]}), 1e-5); } }
  if (!cl) sym_check("number of edges", cnt == 3 * n - 3 - h);
  if (mv == 0) { // the exact diagram by clipping every bisector against every other half plane and the borders
    int exp = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { Pt m{(X[i] + X[j]) / 2, (Y[i] + Y[j]) / 2}, d{Y[i] - Y[j], X[j] - X[i]}; double lo = -1e6, hi = 1e6; bool none = false;
      auto cut = [&](double c, double k) { if (k == 0) { if (c > 0) none = true; } else { double t = -c / k; if (k > 0) { if (t < hi) hi = t; } else if (t > lo) lo = t; } }; // c + k t <= 0
      for (int k = 0; k < n; k++) if (k != i && k != j) cut(d2(m, P[i]) - d2(m, P[k]), 2 * (d.x * (X[k] - X[i]) + d.y * (Y[k] - Y[i])));
      cut(L - m.x, -d.x); cut(m.x - R, d.x); cut(B - m.y, -d.y); cut(m.y - U, d.y); if (none || hi - lo < 1e-7) continue; exp++;
      Pt a{m.x + lo * d.x, m.y + lo * d.y}, b{m.x + hi * d.x, m.y + hi * d.y}; bool found = false; for (auto& e : E) if ((d2(e.first, a) < 1e-8 && d2(e.second, b) < 1e-8) || (d2(e.first, b) < 1e-8 && d2(e.second, a) < 1e-8)) found = true; sym_check("every edge of the diagram is returned", found); }
    sym_check("nothing else is returned", cnt == exp); }
  sym_reached("voronoi");
}
