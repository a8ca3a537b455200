// Curve points, derivatives, curvature, torsion, normals.
#include "common.h"
#include "NurbsCurve.h"
#include "BsplineCurve.h"
#include "XYZ.h"
using namespace LNLib;
HARNESS(curve_point) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1));
  NurbsCurve::Check(c);
  Param q = pickParam("u", U, p); H4 h = curveAt(c, q.span, q.u);
  checkProj("curve point", NurbsCurve::GetPointOnCurve(c, q.u), h);
  checkProj("curve point by corner cutting", NurbsCurve::GetPointOnCurveByCornerCut(c, q.u), h);
  checkH("homogeneous B-spline point", h4(BsplineCurve::GetPointOnCurve(c, q.u)), h);
  LN_BsplineCurve<XYZ> b; b.Degree = p; b.KnotVector = U; for (auto& x : c.ControlPoints) b.ControlPoints.push_back(x.ToXYZ(false));
  BsplineCurve::Check(b); P3 e(h.x, h.y, h.z); check3("non-rational B-spline point", BsplineCurve::GetPointOnCurve(b, q.u), e);
  // variation bounds: the point lies in the axis-aligned hull of its active control points (x coordinate, weights 1)
  sym_reached("curve point");
}
// points stay within the coordinate range of the active control points
HARNESS(curve_hull) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1;
  double lo = -3, hi = 5; for (int i = 0; i < n; i++) { double w = rv(idx("w", i), 0.25, 4), x = rv(idx("x", i), lo, hi); c.ControlPoints.push_back(PW(P3(x, 0, 0), w)); }
  Param q = pickInside("u", U, p); double x = NurbsCurve::GetPointOnCurve(c, q.u).GetX(); sym_check_le("hull lower", lo, x, 1e-9); sym_check_le("hull upper", x, hi, 1e-9); sym_reached("hull");
}
HARNESS(curve_derivs) {
  int p = sym_param("p", 2), d = sym_param("d", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1));
  Param q = sym_param("fix", 0) ? fixedParam("span", U, p) : pickParam("u", U, p);
  std::vector<H4> A; for (int k = 0; k <= d; k++) A.push_back(k <= p ? curveAt(c, q.span, q.u, k) : H4{0, 0, 0, 0});
  std::vector<XYZW> bd = BsplineCurve::ComputeDerivatives(c, d, q.u), ba = BsplineCurve::ComputeDerivativesByAllBasisFunctions(c, d, q.u);
  sym_check("derivative count", (int)bd.size() == d + 1 && (int)ba.size() == d + 1);
  for (int k = 0; k <= d; k++) { checkH("homogeneous derivative", h4(bd[k]), A[k]); checkH("homogeneous derivative by all basis functions", h4(ba[k]), A[k]); }
  std::vector<XYZ> D = NurbsCurve::ComputeRationalCurveDerivatives(c, d, q.u); sym_check("rational derivative count", (int)D.size() == d + 1);
  for (int k = 0; k <= d; k++) { // Leibniz: sum C(k,i) w^(i) C^(k-i) = A^(k)
    double x = 0, y = 0, z = 0; for (int i = 0; i <= k; i++) { double f = binom(k, i) * A[i].w; x = x + f * D[k - i].GetX(); y = y + f * D[k - i].GetY(); z = z + f * D[k - i].GetZ(); }
    sym_check_eq("rational derivative.x", x, A[k].x, 1e-6); sym_check_eq("rational derivative.y", y, A[k].y, 1e-6); sym_check_eq("rational derivative.z", z, A[k].z, 1e-6); }
  // control points of the k-th derivative curve reproduce the derivative
  if (d <= p) { auto PK = BsplineCurve::ComputeControlPointsOfDerivatives(c, d, q.span - p, q.span);
    for (int k = 1; k <= d; k++) { H4 r{0, 0, 0, 0}; VD V(U.begin() + k, U.end() - k); int s = q.span - k; // derivative curve: degree p-k over U without k knots at each end
      for (int j = 0; j <= p - k; j++) { double b = coxDeBoor(V, s - (p - k) + j, p - k, s, q.u); H4 h = h4(PK[k][j]); r.x = r.x + b * h.x; r.y = r.y + b * h.y; r.z = r.z + b * h.z; r.w = r.w + b * h.w; }
      checkH("derivative control points", r, A[k]); } }
  sym_reached("curve derivatives");
}
static double dot(const P3& a, const P3& b) { return a.GetX() * b.GetX() + a.GetY() * b.GetY() + a.GetZ() * b.GetZ(); }
static P3 crs(const P3& a, const P3& b) { return P3(a.GetY() * b.GetZ() - a.GetZ() * b.GetY(), a.GetZ() * b.GetX() - a.GetX() * b.GetZ(), a.GetX() * b.GetY() - a.GetY() * b.GetX()); }
static std::vector<P3> polyDers(const LN_NurbsCurve& c, const Param& q, int d) { std::vector<P3> r; std::vector<H4> h; static const int B[4][4] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}}; for (int k = 0; k <= d; k++) { h.push_back(k <= c.Degree ? curveAt(c, q.span, q.u, k) : H4{0, 0, 0, 0}); P3 v(h[k].x, h[k].y, h[k].z); for (int i = 1; i <= k; i++) v = v - (B[k][i] * h[i].w) * r[k - i]; r.push_back(v / h[0].w); } return r; }
// Non-rational curves with few symbolic coordinates: Frenet quantities against their definitions
static LN_NurbsCurve frenetCurve(int p, const VD& U) {
  LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1; int free_ = sym_param("free", 2); static const double X[] = {0, 1, 2, 4, 3, 5, 7}, Y[] = {0, 2, 1, 3, 5, 4, 6}, Z[] = {0, 0.125, 3, 2, 4, 6, 5};
  for (int i = 0; i < n; i++) { double x = X[i % 7], y = Y[i % 7], z = Z[i % 7]; if (i == (sym_param("cu", 0) == 2 ? n - 2 : 1)) { x += rv("x1", -3, 3); if (free_ > 1) y += rv("y1", -3, 3); } if (free_ > 2 && i == 2) z = rv("z2", -3, 3); double w = sym_param("w", 0) ? 1 + 0.5 * ((i * 2 + 1) % 3) : 1; c.ControlPoints.push_back(PW(w * x, w * y, w * z, w)); } return c;
}
static Param frenetParam(const VD& U, int p) { if (sym_param("cu", 0) == 2) { Param q; int n = (int)U.size() - p - 2, s = n; while (U[s] == U[n + 1]) s--; q.atKnot = false; q.u = U[s] + (U[s + 1] - U[s]) * 0.25; q.span = s; return q; } if (sym_param("cu", 0)) { Param q; int n = (int)U.size() - p - 2; (void)n; q.atKnot = false; q.u = U[p] + (U[p + 1] - U[p]) * 0.5; q.span = p; return q; } return pickInside("u", U, p); }
HARNESS(curve_curvature) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 0)); LN_NurbsCurve c = frenetCurve(p, U); Param q = frenetParam(U, p); auto D = polyDers(c, q, 2);
  double s2 = dot(D[1], D[1]); sym_assume_lt(0.01, s2); P3 x = crs(D[1], D[2]);
  double k = NurbsCurve::Curvature(c, q.u); sym_check_le("curvature nonnegative", 0.0, k, 1e-12); sym_check_eq("curvature squared times speed^6 is the squared norm of CxxC", k * k * (s2 * s2 * s2), dot(x, x), 1e-5); sym_reached("curvature");
}
HARNESS(curve_torsion) {
  int p = sym_param("p", 3); VD U = knotPattern(p, sym_param("kv", 0)); LN_NurbsCurve c = frenetCurve(p, U); Param q = frenetParam(U, p); auto D = polyDers(c, q, 3);
  double s2 = dot(D[1], D[1]); sym_assume_lt(0.01, s2); P3 x = crs(D[1], D[2]); double x2 = dot(x, x); sym_assume_lt(0.01, x2);
  double t = NurbsCurve::Torsion(c, q.u); sym_check_eq("torsion times squared norm of C1xC2 is det(C1,C2,C3)", t * x2, dot(x, D[3]), 1e-5); sym_reached("torsion");
}
HARNESS(curve_normal) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 0)); LN_NurbsCurve c = frenetCurve(p, U); Param q = frenetParam(U, p); auto D = polyDers(c, q, 2);
  double s2 = dot(D[1], D[1]); sym_assume_lt(0.01, s2); P3 x = crs(D[1], D[2]); double x2 = dot(x, x); sym_assume_lt(0.01, x2);
  P3 n = NurbsCurve::Normal(c, CurveNormal::Normal, q.u), b = NurbsCurve::Normal(c, CurveNormal::Binormal, q.u);
  // binormal = x/|x| ; normal = b x t : check direction, orthogonality and unit length without square roots
  sym_check_eq("binormal unit", dot(b, b), 1.0, 1e-6); P3 cb = crs(b, x); sym_check_eq("binormal parallel to C'xC''", dot(cb, cb), 0.0, 1e-6); sym_check_le("binormal oriented along C'xC''", 0.0, dot(b, x), 1e-9);
  sym_check_eq("normal unit", dot(n, n), 1.0, 1e-6); sym_check_eq("normal orthogonal to tangent", dot(n, D[1]), 0.0, 1e-6); sym_check_eq("normal orthogonal to binormal", dot(n, x), 0.0, 1e-6); sym_check_le("normal on the side of C''", 0.0, dot(n, D[2]), 1e-9);
  sym_reached("normal");
}
HARNESS(curve_can_derive) {
  // polyline: differentiable inside segments, not at a genuine kink
  VD U = knotPattern(1, 2); LN_NurbsCurve c; c.Degree = 1; c.KnotVector = U; c.ControlPoints = {PW(0, 0, 0, 1), PW(rv("x1", -2, 2), rv("y1", 1, 2), 0, 1), PW(1, 0, 0, 1), PW(3, 1, 0, 1)};
  if (sym_choice("where", 0, 1)) { sym_check("kink is not differentiable", !NurbsCurve::CanComputeDerivative(c, U[2])); }
  else { Param q = pickInside("u", U, 1); sym_check("inside a segment", NurbsCurve::CanComputeDerivative(c, q.u)); }
  sym_check("start", NurbsCurve::CanComputeDerivative(c, 0.0)); sym_check("end", NurbsCurve::CanComputeDerivative(c, 1.0)); sym_reached("can derive");
}
HARNESS(curve_can_derive2) { // a full knot inside: smooth when the neighbours continue the polygon, a kink when they turn
  int p = sym_param("p", 2), w = sym_param("w", 0); VD U; double lo = sym_param("lo", 0), mid = lo + 1; for (int i = 0; i <= p; i++) U.push_back(lo); for (int i = 0; i < p; i++) U.push_back(mid); for (int i = 0; i <= p; i++) U.push_back(lo + 2); LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; P3 o = symP3("o", 4), a(1, 0.5, 0); double k = sym_choice("kink", 0, 1) ? rv("k", 0.25, 2) : 0.0;
  for (int i = 0; i < 2 * p + 1; i++) { int j = i - p; P3 q = o + (double)j * a + (j == 1 ? P3(0, 0, k) : j > 1 ? P3(0, j, 1) : j < -1 ? P3(0, 0.5, j) : P3(0, 0, 0)); double W = w ? 2 : 1; c.ControlPoints.push_back(PW(q, W)); }
  sym_check("differentiable where the polygon goes straight on, not where it turns", NurbsCurve::CanComputeDerivative(c, mid) == (k == 0)); Param q = pickInside("u", U, p); if (!q.atKnot) { sym_assume_lt(0.0625, (q.u - mid) * (q.u - mid)); sym_check("differentiable inside a span", NurbsCurve::CanComputeDerivative(c, q.u)); } sym_check("at the ends", NurbsCurve::CanComputeDerivative(c, lo) && NurbsCurve::CanComputeDerivative(c, lo + 2)); sym_reached("can derive 2");
}
