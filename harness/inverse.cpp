// C33: point inversion - parameters of points on and near curves, surfaces and volumes
#include "common.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "UVW.h"
using namespace LNLib;
static P3 origin() { return sym_param("tr", 0) ? symP3("o", 4) : P3(0, 0, 0); }
static LN_NurbsCurve shape(int k, const P3& o) {
  LN_NurbsCurve c; VVD P; VD W;
  switch (k) {
  case 0: c.Degree = 1; c.KnotVector = {-2, -2, 5, 5}; P = {{0, 0, 0}, {6, 8, 0}}; break;
  case 1: c.Degree = 1; c.KnotVector = {0, 0, 1, 1}; P = {{0, 0, 0}, {4, 0, 3}}; W = {1, 3}; break;
  case 2: c.Degree = 1; c.KnotVector = {0, 0, 0.25, 0.5, 1, 1}; P = {{0, 0, 0}, {2, 0, 0}, {2, 3, 0}, {0, 3, 1}}; break;
  case 3: c.Degree = 2; c.KnotVector = {0, 0, 0, 1, 1, 1}; P = {{-2, 4, 0}, {0, -4, 0}, {2, 4, 0}}; break;
  case 4: c.Degree = 3; c.KnotVector = {1, 1, 1, 1, 1.5, 2.25, 3, 3, 3, 3}; P = {{0, 0, 0}, {1, 2, 0}, {3, 2, 1}, {4, -1, 1}, {6, 0, 2}, {7, 2, 0}}; break;
  case 5: c.Degree = 2; c.KnotVector = {0, 0, 0, 1, 1, 1}; P = {{1, 0, 0}, {1, 1, 0}, {0, 1, 0}}; W = {1, 1, 2}; break;               // quarter circle, radius 1
  case 6: c.Degree = 2; c.KnotVector = {0, 0, 0, 0.5, 0.5, 1, 1, 1}; P = {{1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {-1, 1, 0}, {-1, 0, 0}}; W = {1, 1, 2, 1, 1}; break; // half circle
  case 7: c.Degree = 2; c.KnotVector = {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4}; P = {{2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {-2, 2, 0}, {-2, 0, 0}, {-2, -2, 0}, {0, -2, 0}, {2, -2, 0}, {2, 0, 0}}; W = {1, 1, 2, 1, 1, 1, 2, 1, 1}; W = {1, 0.70710678118654752440, 1, 0.70710678118654752440, 1, 0.70710678118654752440, 1, 0.70710678118654752440, 1}; break;
  case 8: c.Degree = 2; c.KnotVector = {0, 1, 2, 3, 4, 5, 6, 7}; P = {{0, 0, 0}, {2, 2, 0}, {4, 0, 1}, {6, 2, 1}, {8, 0, 0}}; break;          // unclamped
  case 9: c.Degree = 3; c.KnotVector = {0, 0, 0, 0, 1, 1, 1, 1}; P = {{0, 0, 0}, {6, 4, 0}, {-2, 4, 0}, {4, 0, 0}}; break;                    // loop: crosses itself
  case 10: c.Degree = 3; c.KnotVector = {0, 0, 0, 0, 1, 1, 1, 1}; P = {{0, 0, 0}, {1, 2, 0}, {2, -2, 0}, {3, 0, 0}}; W = {1, 2, 0.5, 1}; break;
  case 11: c.Degree = 2; c.KnotVector = {0, 0, 0, 0.5, 1, 1, 1}; P = {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 0, 0}}; break;                       // closed drop
  }
  for (size_t i = 0; i < P.size(); i++) c.ControlPoints.push_back(PW(P3(P[i][0], P[i][1], P[i][2]) + o, W.empty() ? 1 : W[i]));
  return c;
}
static double lo(const LN_NurbsCurve& c) { return c.KnotVector[c.Degree]; }
static double hi(const LN_NurbsCurve& c) { return c.KnotVector[c.ControlPoints.size()]; }
static P3 at(const LN_NurbsCurve& c, double u) { H4 h = curveH(c.KnotVector, c.Degree, c.ControlPoints, spanOf(c.KnotVector, c.Degree, u), u); return P3(h.x / h.w, h.y / h.w, h.z / h.w); }
static double d2(const P3& a, const P3& b) { P3 d = a; d = d - b; return d.X() * d.X() + d.Y() * d.Y() + d.Z() * d.Z(); }
static void inDomain(const LN_NurbsCurve& c, double u) { sym_check_le("parameter not before the domain", lo(c), u, 0); sym_check_le("parameter not after the domain", u, hi(c), 0); }
static bool isIn(const LN_NurbsCurve& c, double u) { return u >= lo(c) && u <= hi(c); }
// every point of a window of the curve is found again
HARNESS(on_curve) {
  int k = sym_param("k", 0), f = sym_param("f", 30), win = sym_param("win", 0); sym_approx_sqrt(1); P3 o = origin(); LN_NurbsCurve c = shape(k, o);
  double L = hi(c) - lo(c), t = lo(c) + L * f / 100; if (win) t = rv("t", t, t + L * win / 10000.0); P3 p = at(c, t); double u = NurbsCurve::GetParamOnCurve(c, p); inDomain(c, u);
  if (isIn(c, u)) sym_check_le("the curve at the parameter found is the point asked for", d2(at(c, u), p), 1.1e-8, 0); sym_reached("on");
}
static P3 probe(int q) { static const double Q[][3] = {{1, 5, 2}, {4, 1, -1}, {-3, -2, 1}, {9, 9, 0}, {3, 3, 6}, {0.25, 0.5, 0}, {-6, 3, 0.5}, {2, -7, 1}, {7, 2, -4}, {0.1, -0.2, 0.05}}; return P3(Q[q][0], Q[q][1], Q[q][2]); }
// no point of the curve is nearer than the one found, whatever its parameter
HARNESS(near_curve) {
  int k = sym_param("k", 0); sym_approx_sqrt(1); P3 o = origin(); LN_NurbsCurve c = shape(k, o); P3 p = probe(sym_param("q", 0)) + o; double u = NurbsCurve::GetParamOnCurve(c, p); inDomain(c, u); if (!isIn(c, u)) return;
  double D = d2(at(c, u), p); for (int k = c.Degree; k < (int)c.ControlPoints.size(); k++) if (c.KnotVector[k] < c.KnotVector[k + 1]) { double t = rv(idx("s", k), c.KnotVector[k], c.KnotVector[k + 1]); H4 h = curveH(c.KnotVector, c.Degree, c.ControlPoints, k, t); P3 r = P3(h.x, h.y, h.z) - p * h.w; sym_check_le("the point found is the nearest of the curve", D * h.w * h.w, r.X() * r.X() + r.Y() * r.Y() + r.Z() * r.Z(), 1e-3); }
  sym_reached("near");
}
// beside an end, a hair past it: the answer is the end
HARNESS(past_end) {
  int k = sym_param("k", 0), e = sym_param("e", 0); sym_approx_sqrt(1); P3 o = origin(); LN_NurbsCurve c = shape(k, o); double t = e ? hi(c) : lo(c); int s = spanOf(c.KnotVector, c.Degree, t); H4 a = curveH(c.KnotVector, c.Degree, c.ControlPoints, s, t), b = curveH(c.KnotVector, c.Degree, c.ControlPoints, s, t, 1);
  P3 C(a.x / a.w, a.y / a.w, a.z / a.w), T = (P3(b.x, b.y, b.z) - C * b.w) * (e ? 1.0 : -1.0); double len = sqrt(T.X() * T.X() + T.Y() * T.Y() + T.Z() * T.Z()); T = T * (1.0 / len); P3 N = P3(0, 0, 1) - T * T.Z(); if (fabs(T.Z()) > 0.9) N = P3(1, 0, 0) - T * T.X();
  double eps = sym_param("eps", 5) * 1e-5; P3 p = C + T * eps + N * 3.0; double u = NurbsCurve::GetParamOnCurve(c, p); inDomain(c, u); sym_check_eq("beyond an end the parameter is the end's", u, t, 1e-3);
  if (k != 7 && k != 11) { std::vector<double> us = NurbsCurve::GetAllParamsOnCurve(c, p); for (double x : us) inDomain(c, x); } sym_reached("end");
}
HARNESS(line_sym) { // symbolic target beside a line
  sym_approx_sqrt(1); LN_NurbsCurve c; c.Degree = 1; c.KnotVector = {0, 0, 1, 1}; c.ControlPoints = {PW(P3(0, 0, 0), 1), PW(P3(10, 0, 0), 1)}; int f = sym_param("f", 3); P3 p(rv("x", f, f + 0.04), rv("y", 1, 3), rv("z", 2, 3)); double u = NurbsCurve::GetParamOnCurve(c, p); double e = p.X() / 10.0; if (f < 0) e = 0; if (f >= 10) e = 1;
  sym_check_eq("foot of the perpendicular", u, e, 1.1e-5); inDomain(c, u); sym_reached("line");
}
// all parameters of a point
HARNESS(all_curve) {
  int k = sym_param("k", 9), f = sym_param("f", 30); sym_approx_sqrt(1); P3 o = origin(); LN_NurbsCurve c = shape(k, o); double t = lo(c) + (hi(c) - lo(c)) * f / 100; P3 p = at(c, t); std::vector<double> us = NurbsCurve::GetAllParamsOnCurve(c, p);
  bool found = false; for (double u : us) { inDomain(c, u); if (isIn(c, u) && d2(at(c, u), p) < 1e-8 && fabs(u - t) < 1e-3) found = true; } bool closedEnd = (k == 7 || k == 11) && (f == 0 || f == 100); if (closedEnd) for (double u : us) if (isIn(c, u) && d2(at(c, u), p) < 1e-8) found = true;
  sym_check("the parameter is among those found", found); for (size_t i = 0; i < us.size(); i++) for (size_t j = 0; j < i; j++) sym_check("no parameter is listed twice", fabs(us[i] - us[j]) > 1e-7); sym_reached("all");
}
HARNESS(all_cross) { // P(t) = P(1-t) on the axis of symmetry: the crossing has two parameters, 1/2 -+ s
  sym_approx_sqrt(1); P3 o = origin(); LN_NurbsCurve c = shape(9, o); // x(t)-2 = odd cubic around 1/2: zero where (t-1/2)^2 = s2
  double A = -2, B = 6 - 2, C = -2 - 2; (void)A; (void)B; (void)C; double l = 0, h = 0.4; for (int i = 0; i < 60; i++) { double m = (l + h) / 2, x = 0; double q[4] = {-2, 4, -4, 2}; for (int j = 0; j < 4; j++) x += q[j] * bern(3, j, m); if (x < 0) l = m; else h = m; }
  P3 p = at(c, l); std::vector<double> us = NurbsCurve::GetAllParamsOnCurve(c, p); int n = 0; for (double u : us) if (isIn(c, u) && d2(at(c, u), p) < 1e-8) n++; sym_check("a crossing point has both its parameters", n == 2); sym_reached("cross");
}
// surfaces ---------------------------------------------------------------------------------------------
static LN_NurbsSurface sshape(int k, const P3& o) {
  LN_NurbsSurface s; std::vector<VVD> P; VVD W;
  switch (k) {
  case 0: s.DegreeU = s.DegreeV = 1; s.KnotVectorU = {0, 0, 2, 2}; s.KnotVectorV = {-1, -1, 1, 1}; P = {{{0, 0, 0}, {0, 5, 0}}, {{4, 0, 3}, {4, 5, 3}}}; break;                       // plane
  case 1: s.DegreeU = s.DegreeV = 1; s.KnotVectorU = {0, 0, 1, 1}; s.KnotVectorV = {0, 0, 1, 1}; P = {{{0, 0, 0}, {0, 2, 1}}, {{2, 0, 1}, {2, 2, 0}}}; break;                         // saddle
  case 2: s.DegreeU = 2; s.DegreeV = 1; s.KnotVectorU = {0, 0, 0, 0.5, 0.5, 1, 1, 1}; s.KnotVectorV = {0, 0, 3, 3}; P = {{{1, 0, 0}, {1, 0, 2}}, {{1, 1, 0}, {1, 1, 2}}, {{0, 1, 0}, {0, 1, 2}}, {{-1, 1, 0}, {-1, 1, 2}}, {{-1, 0, 0}, {-1, 0, 2}}}; W = {{1, 1}, {1, 1}, {2, 2}, {1, 1}, {1, 1}}; break; // half cylinder
  case 3: s.DegreeU = s.DegreeV = 2; s.KnotVectorU = {0, 0, 0, 1, 1, 1}; s.KnotVectorV = {1, 1, 1, 2, 2, 2}; P = {{{0, 0, 0}, {0, 2, 1}, {0, 4, 0}}, {{2, 0, 1}, {2, 2, 5}, {2, 4, 1}}, {{4, 0, 0}, {4, 2, 1}, {4, 4, 0}}}; W = {{1, 1, 1}, {1, 2, 1}, {1, 1, 1}}; break; // dome
  case 4: s.DegreeU = 1; s.DegreeV = 2; s.KnotVectorV = {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4}; s.KnotVectorU = {0, 0, 1, 1}; { double q = 0.70710678118654752440; VVD r = {{2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {-2, 2, 0}, {-2, 0, 0}, {-2, -2, 0}, {0, -2, 0}, {2, -2, 0}, {2, 0, 0}}, t = r; for (auto& x : t) x[2] = 3; P = {r, t}; VD w = {1, q, 1, q, 1, q, 1, q, 1}; W = {w, w}; } break; // closed cylinder
  case 5: s.DegreeU = 2; s.DegreeV = 1; s.KnotVectorU = {0, 1, 2, 3, 4, 5, 6}; s.KnotVectorV = {0, 0, 1, 1}; P = {{{0, 0, 0}, {0, 3, 0}}, {{2, 0, 2}, {2, 3, 2}}, {{4, 0, 0}, {4, 3, 1}}, {{6, 0, 2}, {6, 3, 2}}}; break; // unclamped in u
  }
  for (size_t i = 0; i < P.size(); i++) { VPW r; for (size_t j = 0; j < P[i].size(); j++) r.push_back(PW(P3(P[i][j][0], P[i][j][1], P[i][j][2]) + o, W.empty() ? 1 : W[i][j])); s.ControlPoints.push_back(r); }
  return s;
}
static LN_NurbsSurface swapped(const LN_NurbsSurface& s) { LN_NurbsSurface r; r.DegreeU = s.DegreeV; r.DegreeV = s.DegreeU; r.KnotVectorU = s.KnotVectorV; r.KnotVectorV = s.KnotVectorU; r.ControlPoints.assign(s.ControlPoints[0].size(), VPW(s.ControlPoints.size())); for (size_t i = 0; i < s.ControlPoints.size(); i++) for (size_t j = 0; j < s.ControlPoints[0].size(); j++) r.ControlPoints[j][i] = s.ControlPoints[i][j]; return r; }
static double slo(const LN_NurbsSurface& s, int d) { return d ? s.KnotVectorV[s.DegreeV] : s.KnotVectorU[s.DegreeU]; }
static double shi(const LN_NurbsSurface& s, int d) { return d ? s.KnotVectorV[s.ControlPoints[0].size()] : s.KnotVectorU[s.ControlPoints.size()]; }
static P3 at(const LN_NurbsSurface& s, double u, double v) { H4 h = surfH(s, spanOf(s.KnotVectorU, s.DegreeU, u), spanOf(s.KnotVectorV, s.DegreeV, v), u, v); return P3(h.x / h.w, h.y / h.w, h.z / h.w); }
static bool sIn(const LN_NurbsSurface& s, UV q, const char* w) { double u = q.GetU(), v = q.GetV(); bool ok = u >= slo(s, 0) && u <= shi(s, 0) && v >= slo(s, 1) && v <= shi(s, 1); sym_check(w, ok); return ok; }
HARNESS(on_surf) {
  int k = sym_param("k", 0); sym_approx_sqrt(1); P3 o = origin(); LN_NurbsSurface s = sshape(k, o); if (sym_param("sw", 0)) s = swapped(s); double u = slo(s, 0) + (shi(s, 0) - slo(s, 0)) * sym_param("f", 30) / 100, v = slo(s, 1) + (shi(s, 1) - slo(s, 1)) * sym_param("g", 60) / 100;
  P3 p = at(s, u, v); UV q = NurbsSurface::GetParamOnSurface(s, p); if (sIn(s, q, "parameters inside the domain")) sym_check_le("the surface at the parameters found is the point asked for", d2(at(s, q.GetU(), q.GetV()), p), 1e-10, 0);
  if (sym_param("gsa", 0)) { UV g = NurbsSurface::GetParamOnSurfaceByGSA(s, p); sym_check_le("the geometric method finds the point", d2(at(s, g.GetU(), g.GetV()), p), 1e-6, 0); }
  if (sym_param("all", 0)) { bool found = false; for (UV a : NurbsSurface::GetAllParamsOnSurface(s, p)) if (sIn(s, a, "every parameter pair inside the domain") && d2(at(s, a.GetU(), a.GetV()), p) < 1e-10) found = true; sym_check("the point is among those found", found); }
  sym_reached("on");
}
HARNESS(near_surf) {
  int k = sym_param("k", 0); sym_approx_sqrt(1); P3 o = origin(); LN_NurbsSurface s = sshape(k, o); if (sym_param("sw", 0)) s = swapped(s); P3 p = probe(sym_param("q", 0)) + o; UV q = NurbsSurface::GetParamOnSurface(s, p); if (!sIn(s, q, "parameters inside the domain")) return;
  double D = d2(at(s, q.GetU(), q.GetV()), p);
  for (int i = s.DegreeU; i < (int)s.ControlPoints.size(); i++) for (int j = s.DegreeV; j < (int)s.ControlPoints[0].size(); j++) if (s.KnotVectorU[i] < s.KnotVectorU[i + 1] && s.KnotVectorV[j] < s.KnotVectorV[j + 1]) {
    double a = rv(idx("a", i, j), s.KnotVectorU[i], s.KnotVectorU[i + 1]), b = rv(idx("b", i, j), s.KnotVectorV[j], s.KnotVectorV[j + 1]); H4 h = surfH(s, i, j, a, b); P3 r = P3(h.x, h.y, h.z) - p * h.w; sym_check_le("the point found is the nearest of the surface", D * h.w * h.w, r.X() * r.X() + r.Y() * r.Y() + r.Z() * r.Z(), 1e-3); }
  double sd = NurbsSurface::ComputeSignedDistanceFunction(s, p); sym_check_eq("signed distance", sd * sd, D, 1e-6);
  sym_reached("near");
}
HARNESS(sdf_sym) { // planar patch: target anywhere in a window over the plane; the sign tells the side
  sym_approx_sqrt(1); LN_NurbsSurface s; s.DegreeU = s.DegreeV = 1; s.KnotVectorU = {0, 0, 1, 1}; s.KnotVectorV = {0, 0, 1, 1}; s.ControlPoints = {{PW(P3(0, 0, 0), 1), PW(P3(0, 4, 0), 1)}, {PW(P3(4, 0, 0), 1), PW(P3(4, 4, 0), 1)}};
  int side = sym_param("side", 1); P3 p(1.1, 2.3, side * rv("h", 1, 2)); double d = NurbsSurface::ComputeSignedDistanceFunction(s, p); sym_check_eq("signed distance to a plane", d, p.Z(), 1e-6); sym_reached("sdf");
}
// volumes ----------------------------------------------------------------------------------------------
HARNESS(on_vol) {
  int k = sym_param("k", 0); sym_approx_sqrt(1); P3 o = origin(); LN_NurbsVolume v; v.DegreeU = k ? 2 : 1; v.DegreeV = v.DegreeW = 1; v.KnotVectorU = k ? VD{0, 0, 0, 2, 2, 2} : VD{0, 0, 2, 2}; v.KnotVectorV = {1, 1, 2, 2}; v.KnotVectorW = {0, 0, 1, 1};
  for (int i = 0; i <= v.DegreeU; i++) { std::vector<VPW> m; for (int j = 0; j < 2; j++) { VPW r; for (int l = 0; l < 2; l++) r.push_back(PW(P3(3.0 * i, 4.0 * j + 0.5 * i, 2.0 * l + (k ? 0.5 * i * (2 - i) : 0.25 * i * j)) + o, k == 2 && i == 1 ? 2 : 1)); m.push_back(r); } v.ControlPoints.push_back(m); }
  double a = 2.0 * sym_param("f", 30) / 100, b = 1 + sym_param("g", 60) / 100.0, c = sym_param("z", 45) / 100.0; P3 p = NurbsVolume::GetPointOnVolume(v, UVW(a, b, c)); UVW q = NurbsVolume::GetParamOnVolume(v, p);
  bool in = q.GetU() >= 0 && q.GetU() <= 2 && q.GetV() >= 1 && q.GetV() <= 2 && q.GetW() >= 0 && q.GetW() <= 1; sym_check("parameters inside the domain", in); if (in) sym_check_le("the volume at the parameters found is the point asked for", d2(NurbsVolume::GetPointOnVolume(v, q), p), 1.1e-8, 0); sym_reached("vol");
}
// a ring: closed in the first, second or third direction; the others are radius and height
HARNESS(on_ring) {
  int cl = sym_param("cl", 0); sym_approx_sqrt(1); P3 o = origin(); double q = 0.70710678118654752440; static const double X[9] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, Y[9] = {0, 1, 1, 1, 0, -1, -1, -1, 0}; VD K[3]; int n[3] = {2, 2, 2}, dg[3] = {1, 1, 1}; for (auto& k : K) k = {0, 0, 1, 1}; K[cl] = {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4}; n[cl] = 9; dg[cl] = 2;
  LN_NurbsVolume v; v.DegreeU = dg[0]; v.DegreeV = dg[1]; v.DegreeW = dg[2]; v.KnotVectorU = K[0]; v.KnotVectorV = K[1]; v.KnotVectorW = K[2]; int ra = (cl + 1) % 3, he = (cl + 2) % 3;
  for (int i = 0; i < n[0]; i++) { std::vector<VPW> m; for (int j = 0; j < n[1]; j++) { VPW r; for (int l = 0; l < n[2]; l++) { int x[3] = {i, j, l}; double R = 2.0 + 2.0 * x[ra]; P3 g(R * X[x[cl]], R * Y[x[cl]], 3.0 * x[he]); r.push_back(PW(g + o, x[cl] % 2 ? q : 1.0)); } m.push_back(r); } v.ControlPoints.push_back(m); }
  double t[3]; t[cl] = 4.0 * sym_param("f", 30) / 1000; t[ra] = sym_param("g", 60) / 100.0; t[he] = sym_param("z", 45) / 100.0; P3 p = NurbsVolume::GetPointOnVolume(v, UVW(t[0], t[1], t[2])); UVW g = NurbsVolume::GetParamOnVolume(v, p); double w[3] = {g.GetU(), g.GetV(), g.GetW()};
  bool in = true; for (int d = 0; d < 3; d++) in = in && w[d] >= 0 && w[d] <= (d == cl ? 4 : 1); sym_check("parameters inside the domain", in); if (in) sym_check_le("the volume at the parameters found is the point asked for", d2(NurbsVolume::GetPointOnVolume(v, g), p), 1.1e-8, 0); sym_reached("ring");
}
