// C34: tessellation, triangulation and bounding boxes
#include "common.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include <map>
#include <cmath>
using namespace LNLib;
static double greville(const VD& U, int p, int i) { double s = 0; for (int k = 1; k <= p; k++) s = s + U[i + k]; return s / p; }
// graph curves C(t) = (t, f(t), -f(t)/2): control abscissae are the Greville points, so a vertex tells its parameter
static LN_NurbsCurve graph(int k) {
  LN_NurbsCurve c; VD y; 
  switch (k) {
  case 0: c.Degree = 2; c.KnotVector = {0, 0, 0, 1, 1, 1}; y = {0, 0.01, 0}; break;
  case 1: c.Degree = 3; c.KnotVector = {0, 0, 0, 0, 1, 1, 1, 1}; y = {0, 0.01, -0.01, 0}; break;                          // point-symmetric
  case 2: c.Degree = 3; c.KnotVector = {1, 1, 1, 1, 1.5, 2.25, 3, 3, 3, 3}; y = {0, 0.02, -0.01, 0.01, 0, 0.01}; break;
  case 3: c.Degree = 2; c.KnotVector = {0, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 1.75}; y = {0, 0.02, 0, 0.01, 0.03}; break;      // unclamped
  case 4: c.Degree = 1; c.KnotVector = {0, 0, 1, 3, 3}; y = {0, 2, 1}; break;
  case 5: c.Degree = 4; c.KnotVector = {-1, -1, -1, -1, -1, 0, 0, 1, 1, 1, 1, 1}; y = {0, 0.01, 0, -0.02, 0.02, 0, 0.01}; break;
  case 6: c.Degree = 2; c.KnotVector = {0, 0, 0, 0.5, 1, 1, 1}; y = {0, 0, 0, 0}; break;                                    // straight
  case 7: c.Degree = 3; c.KnotVector = {0, 0, 0, 0, 0.5, 1, 1, 1, 1}; y = {0, 0.02, 0, -0.02, 0}; break;
  case 8: c.Degree = 3; c.KnotVector = {0, 0, 0, 0, 1, 1, 1, 1}; y = {0, 0.02, -0.02, 0}; break;
  }
  for (size_t i = 0; i < y.size(); i++) c.ControlPoints.push_back(PW(P3(greville(c.KnotVector, c.Degree, (int)i), y[i], y[i] * -0.5), 1)); return c;
}
HARNESS(tessellate) {
  int w = sym_param("w", 0); sym_approx_sqrt(1); P3 o = sym_param("tr", 0) ? symP3("o", 4) : P3(0, 0, 0); LN_NurbsCurve g = graph(sym_param("k", 0)), c = g; for (auto& q : c.ControlPoints) { H4 h = h4(q); q = PW(P3(h.x, h.y, h.z) + o, w ? 2 : 1); }
  std::vector<P3> pts = NurbsCurve::Tessellate(c); int p = g.Degree; const VD& U = g.KnotVector; double lo = U[p], hi = U[g.ControlPoints.size()]; sym_check("at least two vertices", pts.size() >= 2); if (pts.size() < 2) return;
  double prev = lo; P3 last; for (size_t i = 0; i < pts.size(); i++) {
    P3 q = pts[i] - o; double t = q.X(); if (i == 0) sym_check_eq("the polyline begins where the curve does", t, lo, 1e-9); if (i + 1 == pts.size()) sym_check_eq("the polyline ends where the curve does", t, hi, 1e-9);
    if (i) sym_check("vertices follow the curve", t > prev); int s = spanOf(U, p, t < lo ? lo : t > hi ? hi : t); H4 h = curveH(U, p, g.ControlPoints, s, t); check3("vertex on the curve", q, P3(h.x, h.y, h.z), 1e-9);
    if (i) { double x = rv(idx("x", (int)i), prev, t), mid = (prev + t) / 2; H4 e = curveH(U, p, g.ControlPoints, spanOf(U, p, mid), x); double a = last.Y() + (q.Y() - last.Y()) * (x - prev) / (t - prev); sym_check_le("the curve stays by its polyline", e.y, a, 1e-5); sym_check_le("the curve stays by its polyline", a, e.y, 1e-5); }
    prev = t; last = q; }
  for (int k = p; k <= (int)g.ControlPoints.size(); k++) { bool f = false; for (auto& q : pts) { P3 d = q - o; if (fabs(d.X() - U[k]) < 1e-9) f = true; } sym_check("every knot is a vertex", f); } sym_reached("tess");
}
HARNESS(equally) { // symbolic control points
  int p = sym_param("p", 2), kv = sym_param("kv", 1); LN_NurbsCurve c = mkCurve("P", p, knotPattern(p, kv), sym_param("wm", 2)); std::vector<P3> pts; VD us; NurbsCurve::EquallyTessellate(c, pts, us); const VD& U = c.KnotVector; double lo = U[p], hi = U[c.ControlPoints.size()];
  sym_check("one parameter per point", pts.size() == us.size() && us.size() >= 2); if (pts.size() != us.size() || us.size() < 2) return; sym_check_eq("starts at the start of the domain", us[0], lo, 1e-12); sym_check_eq("ends at the end of the domain", us.back(), hi, 1e-12);
  double gap = 0; for (size_t i = 0; i < us.size(); i++) { if (i) { sym_check("parameters ascend", us[i] >= us[i - 1]); if (us[i] - us[i - 1] > gap) gap = us[i] - us[i - 1]; } if (i % 7 == 0 || i + 1 == us.size()) checkProj("point of its parameter", pts[i], curveH(U, p, c.ControlPoints, spanOf(U, p, us[i]), us[i]), 1e-7); }
  sym_check("dense", gap <= (hi - lo) / 50); for (int k = p; k <= (int)c.ControlPoints.size(); k++) { bool f = false; for (double u : us) if (fabs(u - U[k]) < 1e-9) f = true; sym_check("every knot is hit", f); } sym_reached("eq");
}
static LN_NurbsSurface patch(const char* b) { int p = sym_param("p", 1), q = sym_param("q", 1); return mkSurf(b, p, q, knotPattern(p, sym_param("ku", 0)), knotPattern(q, sym_param("kw", 0)), sym_param("wm", 0)); }
HARNESS(equally_surf) {
  LN_NurbsSurface s = patch("P"); std::vector<P3> pts; std::vector<UV> us; NurbsSurface::EquallyTessellate(s, pts, us); sym_check("one parameter pair per point", pts.size() == us.size() && pts.size() > 1); if (pts.size() != us.size()) return;
  double ul = s.KnotVectorU[s.DegreeU], uh = s.KnotVectorU[s.ControlPoints.size()], vl = s.KnotVectorV[s.DegreeV], vh = s.KnotVectorV[s.ControlPoints[0].size()]; bool a = false, z = false;
  for (size_t i = 0; i < us.size(); i++) { double u = us[i].GetU(), v = us[i].GetV(); sym_check("parameters inside the domain", u >= ul && u <= uh && v >= vl && v <= vh); if (u == ul && v == vl) a = true; if (u == uh && v == vh) z = true; if (i % 997 == 0 || i + 1 == us.size()) checkProj("point of its parameters", pts[i], surfH(s, spanOf(s.KnotVectorU, s.DegreeU, u), spanOf(s.KnotVectorV, s.DegreeV, v), u, v), 1e-7); }
  sym_check("first and last corner", a && z); sym_reached("eqs");
}
// triangulations: conforming, consistently oriented, covering the whole parameter rectangle
static void meshTopology(const LN_Mesh& m, const std::vector<UV>& uv, double ul, double uh, double vl, double vh) {
  double area = 0; std::map<std::pair<int, int>, int> edges; int pos = 0, neg = 0; bool idxOk = true; for (auto& f : m.Faces) { if (f.size() != 3) { idxOk = false; continue; } bool ok = true; for (int k : f) if (k < 0 || k >= (int)uv.size()) ok = false; if (!ok) { idxOk = false; continue; }
    UV a = uv[f[0]], b = uv[f[1]], c = uv[f[2]]; double s = ((b.GetU() - a.GetU()) * (c.GetV() - a.GetV()) - (c.GetU() - a.GetU()) * (b.GetV() - a.GetV())) / 2; if (s > 0) pos++; else if (s < 0) neg++; else idxOk = false; area = area + fabs(s); for (int k = 0; k < 3; k++) edges[{f[k], f[(k + 1) % 3]}]++; }
  sym_check("faces are proper triangles of existing vertices", idxOk); sym_check("faces are consistently oriented", pos == 0 || neg == 0); sym_check_eq("triangles cover the parameter rectangle exactly once", area, (uh - ul) * (vh - vl), 1e-9);
  bool twice = true, open = true; for (auto& e : edges) { if (e.second != 1) twice = false; if (!edges.count({e.first.second, e.first.first})) { UV a = uv[e.first.first], b = uv[e.first.second]; bool bd = (a.GetU() == ul && b.GetU() == ul) || (a.GetU() == uh && b.GetU() == uh) || (a.GetV() == vl && b.GetV() == vl) || (a.GetV() == vh && b.GetV() == vh); if (!bd) open = false; } }
  sym_check("no directed edge is used twice", twice); sym_check("edges without a neighbour lie on the boundary", open);
}
HARNESS(grid_mesh) {
  LN_NurbsSurface s = patch("P"); int a = sym_param("a", 3), b = sym_param("b", 2); LN_Mesh m = NurbsSurface::Triangulate(s, a, b, false); double ul = s.KnotVectorU[s.DegreeU], uh = s.KnotVectorU[s.ControlPoints.size()], vl = s.KnotVectorV[s.DegreeV], vh = s.KnotVectorV[s.ControlPoints[0].size()];
  sym_check("a vertex per lattice point", (int)m.Vertices.size() == a * b && (int)m.UVs.size() == a * b); if ((int)m.Vertices.size() != a * b || (int)m.UVs.size() != a * b) return; sym_check("texture index per face corner", m.UVIndices.size() == 3 * m.Faces.size());
  if (m.UVIndices.size() == 3 * m.Faces.size()) for (size_t i = 0; i < m.Faces.size(); i++) for (int k = 0; k < 3; k++) sym_check("texture index matches the vertex", m.UVIndices[3 * i + k] == m.Faces[i][k]);
  for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { double u = ul + (uh - ul) * i / (a - 1), v = vl + (vh - vl) * j / (b - 1); checkProj("vertex on the surface at its lattice point", m.Vertices[i * b + j], surfH(s, spanOf(s.KnotVectorU, s.DegreeU, u), spanOf(s.KnotVectorV, s.DegreeV, v), u, v), 1e-7); }
  std::vector<UV> uv = m.UVs; double x0 = uv[0].GetU(), y0 = uv[0].GetV(), x1 = uv.back().GetU(), y1 = uv.back().GetV(); sym_check_eq("texture coordinates follow the lattice", uv[1].GetU(), x0, 1e-12); meshTopology(m, uv, x0, x1, y0, y1); sym_reached("grid");
}
HARNESS(delaunay_mesh) { // graph surface (u, v, f(u,v)): a vertex tells its parameters
  int k = sym_param("k", 0), a = sym_param("a", 3), b = sym_param("b", 4); sym_approx_sqrt(1); LN_NurbsSurface s; s.DegreeU = 2; s.DegreeV = k == 2 ? 1 : 2; s.KnotVectorU = k == 1 ? VD{1, 1, 1, 1.5, 3, 3, 3} : VD{0, 0, 0, 1, 1, 1}; s.KnotVectorV = k == 2 ? VD{-1, -1, 1, 1} : VD{0, 0, 0, 1, 1, 1};
  int n = (int)s.KnotVectorU.size() - 3, m = (int)s.KnotVectorV.size() - s.DegreeV - 1; for (int i = 0; i < n; i++) { VPW r; for (int j = 0; j < m; j++) r.push_back(PW(P3(greville(s.KnotVectorU, 2, i), greville(s.KnotVectorV, s.DegreeV, j), (i * 3 + j * 5) % 4 * (k ? 0.25 : 0)), 1)); s.ControlPoints.push_back(r); }
  LN_Mesh M = NurbsSurface::Triangulate(s, a, b, true); double ul = s.KnotVectorU[2], uh = s.KnotVectorU[n], vl = s.KnotVectorV[s.DegreeV], vh = s.KnotVectorV[m]; std::vector<UV> uv; bool in = true, on = true;
  for (auto& v : M.Vertices) { P3 q = v; double u = q.X(), t = q.Y(); if (u < ul - 1e-9 || u > uh + 1e-9 || t < vl - 1e-9 || t > vh + 1e-9) { in = false; uv.push_back(UV(ul, vl)); continue; } if (u < ul + 1e-9) u = ul; if (u > uh - 1e-9) u = uh; if (t < vl + 1e-9) t = vl; if (t > vh - 1e-9) t = vh; H4 h = surfH(s, spanOf(s.KnotVectorU, 2, u), spanOf(s.KnotVectorV, s.DegreeV, t), u, t); if (fabs(h.z - q.Z()) > 1e-7) on = false; uv.push_back(UV(u, t)); }
  sym_check("vertices inside the surface", in); sym_check("vertices on the surface", on); meshTopology(M, uv, ul, uh, vl, vh); sym_reached("del");
}
// bounding boxes ---------------------------------------------------------------------------------------
HARNESS(aabb) { // bilinear or multi-bilinear: the box of the lattice is the box of the surface
  int nu = sym_param("nu", 2), nv = sym_param("nv", 2), deg = sym_param("deg", 1); LN_NurbsSurface s; s.DegreeU = deg; s.DegreeV = 1; s.KnotVectorU = deg == 2 ? VD{0, 0, 0, 1, 1, 1} : nu == 2 ? VD{0, 0, 1, 1} : VD{0, 0, 1, 2, 2}; s.KnotVectorV = nv == 2 ? VD{0, 0, 1, 1} : nv == 3 ? VD{0, 0, 0.25, 1, 1} : VD{0, 0, 0.25, 0.5, 1, 1}; double off = sym_param("off", 0);
  static const double Z[] = {3, 1, 4, 1.5, 9, 2.5, 6, 5, 3.5, 8, 9.5, 7}; int sc = sym_param("sc", 0); double g = sc ? rv("g", 0.5, 2) : 1.0; for (int i = 0; i < nu; i++) { VPW r; for (int j = 0; j < nv; j++) r.push_back(PW(P3((i * 2 + 0.25 * j) * g + off, (j * 3 - 0.5 * i) * g + off, Z[(i * nv + j + sym_param("z", 0)) % 12] * g - off), (i + j) % 2 ? 2 : 1)); s.ControlPoints.push_back(r); }
  LN_NurbsSurface sw = s; if (sym_param("sw", 0)) { std::swap(sw.DegreeU, sw.DegreeV); std::swap(sw.KnotVectorU, sw.KnotVectorV); std::vector<VPW> T(nv, VPW(nu)); for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) T[j][i] = s.ControlPoints[i][j]; sw.ControlPoints = T; }
  LN_BoundingBox3d b = NurbsSurface::GetBoundingBox(sw); P3 mn = b.MinPoint, mx = b.MaxPoint;
  for (int i = s.DegreeU; i < nu; i++) for (int j = 1; j < nv; j++) if (s.KnotVectorU[i] < s.KnotVectorU[i + 1] && s.KnotVectorV[j] < s.KnotVectorV[j + 1]) { double u = rv(idx("u", i, j), s.KnotVectorU[i], s.KnotVectorU[i + 1]), v = rv(idx("v", i, j), s.KnotVectorV[j], s.KnotVectorV[j + 1]); H4 h = surfH(s, i, j, u, v);
    sym_check_le("box reaches the surface, min x", mn.X() * h.w, h.x, 1e-7); sym_check_le("box reaches the surface, min y", mn.Y() * h.w, h.y, 1e-7); sym_check_le("box reaches the surface, min z", mn.Z() * h.w, h.z, 1e-7); sym_check_le("box reaches the surface, max x", h.x, mx.X() * h.w, 1e-7); sym_check_le("box reaches the surface, max y", h.y, mx.Y() * h.w, 1e-7); sym_check_le("box reaches the surface, max z", h.z, mx.Z() * h.w, 1e-7); }
  double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}; for (auto& r : s.ControlPoints) for (auto& q : r) { P3 p = q.ToXYZ(true); for (int d = 0; d < 3; d++) { if (p[d] < lo[d]) lo[d] = p[d]; if (p[d] > hi[d]) hi[d] = p[d]; } } for (int d = 0; d < 3; d++) { sym_check_le("box not below the control points", lo[d], mn[d], 1e-9); sym_check_le("box not above the control points", mx[d], hi[d], 1e-9); } sym_reached("aabb");
}
HARNESS(obb) {
  int k = sym_param("k", 0); sym_approx_sqrt(1); P3 o = sym_param("tr", 0) ? symP3("o", 4) : P3(0, 0, 0); LN_NurbsSurface s; s.DegreeU = 2; s.DegreeV = 1; s.KnotVectorU = k == 1 ? VD{0, 0, 0, 0.5, 1, 1, 1} : VD{0, 0, 0, 1, 1, 1}; s.KnotVectorV = {0, 0, 1, 1}; int n = (int)s.KnotVectorU.size() - 3; static const double Z[] = {0, 1, 2, 0.5, -1, 1.5, 0.25, 3};
  for (int i = 0; i < n; i++) { VPW r; for (int j = 0; j < 2; j++) { double x = 2 * i, y = j * (k == 2 ? 2 : 3), z = k == 2 ? 0 : Z[i * 2 + j]; r.push_back(PW((k == 3 ? P3(x + y, y - x, z) : P3(x, y, z)) + o, i == 1 ? 2 : 1)); } s.ControlPoints.push_back(r); }
  LN_OrientedBoundingBox3d b = NurbsSurface::GetOrientedBoundingBox(s); for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) sym_check_eq("axes are orthonormal", b.Axes[i].DotProduct(b.Axes[j]), i == j ? 1 : 0, 1e-6);
  for (int i = 2; i < n; i++) if (s.KnotVectorU[i] < s.KnotVectorU[i + 1]) { double u = rv(idx("u", i), s.KnotVectorU[i], s.KnotVectorU[i + 1]), v = rv(idx("v", i), 0, 1); H4 h = surfH(s, i, 1, u, v); P3 q = P3(h.x, h.y, h.z) - b.Center * h.w; for (int a = 0; a < 3; a++) { double d = q.DotProduct(b.Axes[a]); sym_check_le("surface inside the oriented box", d, b.HalfExtents[a] * h.w, 1e-6); sym_check_le("surface inside the oriented box, other side", b.HalfExtents[a] * h.w * -1.0, d, 1e-6); } }
  double hullLo[3] = {1e9, 1e9, 1e9}, hullHi[3] = {-1e9, -1e9, -1e9}; for (auto& r : s.ControlPoints) for (auto& w : r) { P3 p = w.ToXYZ(true) - b.Center; for (int a = 0; a < 3; a++) { double d = p.DotProduct(b.Axes[a]); if (d < hullLo[a]) hullLo[a] = d; if (d > hullHi[a]) hullHi[a] = d; } } for (int a = 0; a < 3; a++) sym_check_le("box no larger than the control points need", b.HalfExtents[a] * 2.0, hullHi[a] - hullLo[a], 1e-6); sym_reached("obb");
}
// the oriented box of a rectangular net is that rectangle (a box of zero thickness along the plane's normal)
HARNESS(obb_rect) {
  int k = sym_param("k", 0); sym_approx_sqrt(1); static const double R[3][3] = {{2 / 3.0, -1 / 3.0, 2 / 3.0}, {2 / 3.0, 2 / 3.0, -1 / 3.0}, {-1 / 3.0, 2 / 3.0, 2 / 3.0}}; P3 o = sym_param("tr", 0) ? symP3("o", 4) : P3(5, -3, 2); double A = 6, B = k == 1 ? 1 : 2; int nu = k == 1 ? 4 : 3, nv = k == 2 ? 3 : 2; int e0 = k % 3, e1 = (k + 1) % 3;
  LN_NurbsSurface s; s.DegreeU = nu - 1; s.DegreeV = nv - 1; s.KnotVectorU = VD(2 * nu, 0.0); s.KnotVectorV = VD(2 * nv, 0.0); for (int i = 0; i < nu; i++) s.KnotVectorU[nu + i] = 1; for (int i = 0; i < nv; i++) s.KnotVectorV[nv + i] = 1;
  for (int i = 0; i < nu; i++) { VPW r; for (int j = 0; j < nv; j++) { double a = A * i / (nu - 1), b = B * j / (nv - 1); r.push_back(PW(P3(R[0][e0] * a + R[0][e1] * b, R[1][e0] * a + R[1][e1] * b, R[2][e0] * a + R[2][e1] * b) + o, (i + 2 * j) % 3 + 1)); } s.ControlPoints.push_back(r); }
  LN_OrientedBoundingBox3d b = NurbsSurface::GetOrientedBoundingBox(s); P3 mid = P3(R[0][e0] * A + R[0][e1] * B, R[1][e0] * A + R[1][e1] * B, R[2][e0] * A + R[2][e1] * B) * 0.5 + o; check3("box centre is the middle of the rectangle", b.Center, mid, 1e-5); int hit = 0;
  for (int a = 0; a < 3; a++) { double d0 = b.Axes[a].DotProduct(P3(R[0][e0], R[1][e0], R[2][e0])), d1 = b.Axes[a].DotProduct(P3(R[0][e1], R[1][e1], R[2][e1])); double h = b.HalfExtents[a]; if (d0 * d0 > 0.5) { hit |= 1; sym_check_eq("long half side", h, A / 2, 1e-5); } else if (d1 * d1 > 0.5) { hit |= 2; sym_check_eq("short half side", h, B / 2, 1e-5); } else { hit |= 4; sym_check_eq("no thickness", h, 0, 1e-5); } }
  sym_check("one axis per side", hit == 7); sym_reached("obb rect");
}
HARNESS(box_hit) { LN_BoundingBox3d a, b; a.MinPoint = symP3("a"); b.MinPoint = symP3("b"); a.MaxPoint = a.MinPoint + P3(rv("p", 0, 5), rv("q", 0, 5), rv("r", 0, 5)); b.MaxPoint = b.MinPoint + P3(rv("s", 0, 5), rv("t", 0, 5), rv("v", 0, 5)); bool h = a.Intersects(b); bool e = true; for (int d = 0; d < 3; d++) { double l = a.MinPoint[d] > b.MinPoint[d] ? a.MinPoint[d] : b.MinPoint[d], u = a.MaxPoint[d] < b.MaxPoint[d] ? a.MaxPoint[d] : b.MaxPoint[d]; if (l > u) e = false; } sym_check("boxes intersect when they share a point", h == e); sym_reached("hit"); }
HARNESS(aabb_dome) { // a curved surface must be inside its box as well
  LN_NurbsSurface s; s.DegreeU = s.DegreeV = 2; s.KnotVectorU = s.KnotVectorV = {0, 0, 0, 1, 1, 1}; for (int i = 0; i < 3; i++) { VPW r; for (int j = 0; j < 3; j++) r.push_back(PW(P3(2 * i, 2 * j, i == 1 && j == 1 ? 4 : 0), 1)); s.ControlPoints.push_back(r); }
  LN_BoundingBox3d b = NurbsSurface::GetBoundingBox(s); double u = rv("u", 0, 1), v = rv("v", 0, 1); H4 h = surfH(s, 2, 2, u, v); sym_check_le("box reaches the surface, max x", h.x, b.MaxPoint.X(), 1e-7); sym_check_le("box reaches the top of the dome", h.z, b.MaxPoint.Z(), 1e-7); sym_check_le("box reaches the surface, min z", b.MinPoint.Z(), h.z, 1e-7); sym_reached("dome"); }
