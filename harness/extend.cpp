// Extension of curves at either end and offset curves.
#include "common.h"
#include "NurbsCurve.h"
#include "LNEnums.h"
#include "XYZ.h"
#include <cmath>
using namespace LNLib;
static double dot(const P3& a, const P3& b) { return a.GetX() * b.GetX() + a.GetY() * b.GetY() + a.GetZ() * b.GetZ(); }
static P3 crs(const P3& a, const P3& b) { return P3(a.GetY() * b.GetZ() - a.GetZ() * b.GetY(), a.GetZ() * b.GetX() - a.GetX() * b.GetZ(), a.GetX() * b.GetY() - a.GetY() * b.GetX()); }
static P3 cart(const PW& q) { H4 h = h4(q); return P3(h.x / h.w, h.y / h.w, h.z / h.w); }
static LN_NurbsCurve affine(const LN_NurbsCurve& c, double lo, double hi) { LN_NurbsCurve r = c; double a = c.KnotVector[c.Degree], b = c.KnotVector[c.ControlPoints.size()]; for (auto& u : r.KnotVector) u = lo + (u - a) / (b - a) * (hi - lo); return r; }
static double wpat(int mode, int i) { static const double W[7] = {1, 0.5, 2, 1.5, 0.75, 1.25, 3}; return mode == 0 ? 1.0 : mode == 1 ? W[i % 7] : 2.0; }
// wm 0 unit weights, 1 uneven, 2 all two, 3 uneven but unit at the ends
static LN_NurbsCurve shape(int p, const VD& U, int wm, bool sy, bool start) {
  static const double X[8][3] = {{0, 0, 0}, {3, 4, 0}, {5, 1, 2}, {8, 3, -1}, {10, -2, 1}, {12, 2, 3}, {13, 6, 2}, {17, 5, 0}}; LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1;
  for (int i = 0; i < n; i++) { int e = start ? i : n - 1 - i; double w = wm == 3 ? (i == 0 || i == n - 1 ? 1.0 : wpat(1, i)) : wpat(wm, i); int j = start ? i : (i == n - 1 ? 7 : i); P3 q(X[j][0], X[j][1], X[j][2]); if (!start && i == n - 2) q = P3(15, 1, 4);   // end leg (2,4,-4), start leg (3,4,0)
    if (sy && e >= 2) q = q + symP3(idx("d", i), 2); c.ControlPoints.push_back(PW(q, w)); }
  return c;
}
static void ray(const char* w, const LN_NurbsCurve& r, double lo, double hi, const P3& o, const P3& unit, double dl) {
  for (int k = r.Degree; k < (int)r.ControlPoints.size(); k++) { double a = r.KnotVector[k], b = r.KnotVector[k + 1]; if (!(a < b) || a < lo || b > hi) continue; double t = rv(std::string("t_") + w + std::to_string(k), 0, 1); H4 h = curveAt(r, k, a + t * (b - a));
    P3 v(h.x - o.GetX() * h.w, h.y - o.GetY() * h.w, h.z - o.GetZ() * h.w); check3((std::string(w) + ": on the tangent line").c_str(), crs(v, unit), P3(0, 0, 0), 1e-6); sym_check_le((std::string(w) + ": ahead").c_str(), 0.0, dot(v, unit), 1e-6); sym_check_le((std::string(w) + ": within the length").c_str(), dot(v, unit), dl * h.w, 1e-6); }
}
HARNESS(ext_tangent) {
  int p = sym_param("p", 2); bool st = sym_param("st", 0); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = shape(p, U, sym_param("w", 0), true, st), r; double dl = rv("delta", 0.01, 20); int n = (int)c.ControlPoints.size(); P3 o = cart(c.ControlPoints[st ? 0 : n - 1]); P3 u = st ? P3(-0.6, -0.8, 0) : P3(1.0 / 3, 2.0 / 3, -2.0 / 3);
  if (n == 2 && !st) u = P3(1.0 / 3, 2.0 / 3, -2.0 / 3);
  NurbsCurve::Extend(c, dl, st, ExtensionType::Tangent, r); sym_check("degree kept", r.Degree == p); if (!domainIs("extended curve", r, 0.0, 1.0)) return; P3 e = cart(r.ControlPoints[st ? 0 : r.ControlPoints.size() - 1]); check3("new end", e, o + u * dl, 1e-6);
  if (st) { sameCurveOn("original part", affine(c, 0.5, 1), r, 0.5, 1); ray("extension", r, 0, 0.5, o, u, dl); } else { sameCurveOn("original part", affine(c, 0, 0.5), r, 0, 0.5); ray("extension", r, 0.5, 1, o, u, dl); }
  sym_reached("tangent extension");
}
HARNESS(ext_none) {
  int p = 2; VD U = knotPattern(p, 1); LN_NurbsCurve c = shape(p, U, 1, true, true), r; double dl = rv("delta", -20, 0); int ty = sym_param("ty", 0); NurbsCurve::Extend(c, dl, sym_param("st", 0), ty == 0 ? ExtensionType::Tangent : ty == 1 ? ExtensionType::Arc : ExtensionType::Natural, r);
  sym_check("no length, no extension", r.Degree == p && r.KnotVector.size() == U.size() && r.ControlPoints.size() == c.ControlPoints.size()); if (r.ControlPoints.size() != c.ControlPoints.size() || r.KnotVector.size() != U.size()) return; for (size_t i = 0; i < U.size(); i++) sym_check_eq("knots kept", r.KnotVector[i], U[i], 1e-12); for (size_t i = 0; i < c.ControlPoints.size(); i++) checkH("control points kept", h4(r.ControlPoints[i]), h4(c.ControlPoints[i]), 1e-12); sym_reached("no extension");
}
// equal weights: the extension continues the last polynomial piece and keeps the parameters of the original
HARNESS(ext_natural) {
  sym_approx_sqrt(1); int p = sym_param("p", 2); bool st = sym_param("st", 0); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = shape(p, U, sym_param("w", 0), false, st), r; double dl = sym_param("dl", 100) / 100.0; int n = (int)c.ControlPoints.size(); double lo = U[0], hi = U.back();
  P3 t = P3(rv("tx", 0, 3), rv("ty", 0, 3), rv("tz", 0, 3)); for (auto& q : c.ControlPoints) { H4 h = h4(q); q = PW(P3(h.x / h.w, h.y / h.w, h.z / h.w) + t, h.w); }
  NurbsCurve::Extend(c, dl, st, ExtensionType::Natural, r); sym_check("well formed", r.Degree == p && wellFormed(r)); if (!wellFormed(r) || r.Degree != p) return; double a = r.KnotVector[p], b = r.KnotVector[r.ControlPoints.size()];
  sym_check("domain grows at the chosen end only", st ? (a < lo - 1e-6 && b == hi) : (a == lo && b > hi + 1e-6)); sameCurveOn("original part", c, r, lo, hi, 1e-6); int sp = st ? p : n - 1; while (st && !(U[sp] < U[sp + 1])) sp++; while (!st && !(U[sp] < U[sp + 1])) sp--;
  double A = st ? a : hi, B = st ? lo : b; double len = 0; static const double GX[8] = {-0.9602898564975363, -0.7966664774136267, -0.525532409916329, -0.1834346424956498, 0.1834346424956498, 0.525532409916329, 0.7966664774136267, 0.9602898564975363}, GW[8] = {0.10122853629037626, 0.22238103445337447, 0.31370664587788729, 0.36268378337836198, 0.36268378337836198, 0.31370664587788729, 0.22238103445337447, 0.10122853629037626};
  for (int k = p; k < (int)r.ControlPoints.size(); k++) { double x = r.KnotVector[k], y = r.KnotVector[k + 1]; if (!(x < y) || x < A || y > B) continue; double s = rv(idx("s", k), 0, 1); double u = x + s * (y - x); checkH("natural continuation", curveAt(r, k, u), curveAt(c, sp, u), 1e-6); }
  for (int i = 0; i < 8; i++) { double u = (A + B) / 2 + (B - A) / 2 * GX[i]; H4 d = curveAt(c, sp, u, 1); double w = h4(c.ControlPoints[0]).w; len = len + GW[i] * (B - A) / 2 * std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z) / w; }
  sym_check_le("length of the extension from below", dl * 0.99, len, 0); sym_check_le("length of the extension from above", len, dl * 1.01, 0); sym_reached("natural extension");
}
HARNESS(ext_arc) {
  sym_approx_sqrt(1); int p = sym_param("p", 2); bool st = sym_param("st", 0); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = shape(p, U, sym_param("w", 0), false, st), r; int n = (int)c.ControlPoints.size(); double ue = st ? U[0] : U.back(); int sp = st ? p : n - 1;
  P3 t = P3(rv("tx", 0, 3), rv("ty", 0, 3), rv("tz", 0, 3)); LN_NurbsCurve c0 = c; if (sym_param("tr", 1)) for (auto& q : c.ControlPoints) { H4 h = h4(q); q = PW(P3(h.x / h.w, h.y / h.w, h.z / h.w) + t, h.w); } else t = P3(0, 0, 0);
  H4 a = curveAt(c0, sp, ue), b = curveAt(c0, sp, ue, 1), d = curveAt(c0, sp, ue, 2); P3 o(a.x / a.w, a.y / a.w, a.z / a.w), d1 = P3(b.x - b.w * o.GetX(), b.y - b.w * o.GetY(), b.z - b.w * o.GetZ()) / a.w; P3 d2 = P3(d.x - d.w * o.GetX(), d.y - d.w * o.GetY(), d.z - d.w * o.GetZ()) / a.w - d1 * (2 * b.w / a.w);
  P3 bn = crs(d1, d2); double v2 = dot(d1, d1), v = std::sqrt(v2), bl = std::sqrt(dot(bn, bn)); double R = v2 * v / bl; P3 nn = crs(bn, d1) / (bl * v); P3 T = d1 / v; if (st) T = T * -1.0; P3 ce = o + nn * R; double th = sym_param("th", 100) / 100.0; double dl = R * th;
  NurbsCurve::Extend(c, dl, st, ExtensionType::Arc, r); if (!domainIs("extended curve", r, 0.0, 1.0)) return; sameCurveOn("original part", affine(c, st ? 0.5 : 0, st ? 1 : 0.5), r, st ? 0.5 : 0, st ? 1 : 0.5, 1e-6);
  P3 e = cart(r.ControlPoints[st ? 0 : r.ControlPoints.size() - 1]); check3("new end of the arc", e, ce + t + nn * (-R * std::cos(th)) + T * (R * std::sin(th)), 1e-5); P3 C = ce + t;
  for (int k = r.Degree; k < (int)r.ControlPoints.size(); k++) { double x = r.KnotVector[k], y = r.KnotVector[k + 1]; if (!(x < y) || (st ? y > 0.5 : x < 0.5)) continue; double s = rv(idx("s", k), 0, 1); H4 h = curveAt(r, k, x + s * (y - x)); P3 q(h.x - C.GetX() * h.w, h.y - C.GetY() * h.w, h.z - C.GetZ() * h.w);
    sym_check_eq("extension at the radius of curvature", dot(q, q) / (R * R), h.w * h.w, 1e-5); sym_check_eq("extension in the osculating plane", dot(q, bn) / bl, 0.0, 1e-5); }
  int K = r.Degree; while (!st && r.KnotVector[K] < 0.5 - 1e-9) K++; H4 m = curveAt(r, spanOf(r.KnotVector, r.Degree, st ? 0.25 : 0.75), st ? 0.25 : 0.75); P3 q = P3(m.x / m.w, m.y / m.w, m.z / m.w) - C; if (th < 3) sym_check_le("extension goes forward", 0.0, dot(q, T), 1e-6); sym_reached("arc extension");
}
// offset of a circular arc (Piegl and Tiller): every point at radius minus offset (the normal points to the centre)
HARNESS(off_arc) {
  sym_approx_sqrt(1); int q = sym_param("q", 1); double R = sym_param("R", 2), off = sym_param("off", 50) / 100.0; LN_NurbsCurve c, r; NurbsCurve::CreateArc(XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, q * 0.5, R, R, c); NurbsCurve::Offset(c, off, OffsetType::PieglAndTiller, r); sym_check("offset well formed", wellFormed(r)); if (!wellFormed(r)) return;
  P3 a = cart(r.ControlPoints[0]), b = cart(r.ControlPoints.back()); check3("offset start", a, P3(R - off, 0, 0), 1e-5); check3("offset end", b, P3((R - off) * std::cos(q * 0.5), (R - off) * std::sin(q * 0.5), 0), 1e-5);
  for (int k = r.Degree; k < (int)r.ControlPoints.size(); k++) { double x = r.KnotVector[k], y = r.KnotVector[k + 1]; if (!(x < y)) continue; double s = rv(idx("s", k), 0, 1); H4 h = curveAt(r, k, x + s * (y - x)); sym_check_eq("offset distance", (h.x * h.x + h.y * h.y) / ((R - off) * (R - off)), h.w * h.w, 1e-3); sym_check_eq("offset plane", h.z, 0.0, 1e-6); }
  sym_reached("offset");
}
HARNESS(off_zero) { int p = sym_param("p", 2); VD U = knotPattern(p, 1); LN_NurbsCurve c = mkCurve("P", p, U, 1), r; NurbsCurve::Offset(c, 0.0, sym_param("ty", 0) ? OffsetType::PieglAndTiller : OffsetType::TillerAndHanson, r); sym_check("zero offset keeps the curve", r.Degree == p && r.ControlPoints.size() == c.ControlPoints.size()); if (r.ControlPoints.size() == c.ControlPoints.size()) for (size_t i = 0; i < c.ControlPoints.size(); i++) checkH("zero offset keeps the control points", h4(r.ControlPoints[i]), h4(c.ControlPoints[i]), 1e-12); sym_reached("zero offset"); }
