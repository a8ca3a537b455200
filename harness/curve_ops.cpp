// Split, extract, merge, reparametrise, reverse, transform.
#include "common.h"
#include "NurbsCurve.h"
#include "Matrix4d.h"
#include "XYZ.h"
using namespace LNLib;
static int multOf(const VD& U, double u) { int m = 0; for (double x : U) if (x == u) m++; return m; }
static Param pickInterior(const char* name, const VD& U, int p) {
  int n = (int)U.size() - p - 2; std::vector<int> spans; for (int k = p; k <= n; k++) if (U[k] < U[k + 1]) spans.push_back(k);
  int m = (int)spans.size(); int c = m == 1 ? 0 : sym_choice((std::string(name) + "@").c_str(), 0, 2 * m - 2); Param r;
  if (c < m) { r.span = spans[c]; r.atKnot = false; r.u = sym_real(name, U[r.span] + DELTA, U[r.span + 1] - DELTA); }
  else { r.span = spans[c - m + 1]; r.atKnot = true; r.u = U[r.span]; }
  return r;
}
HARNESS(curve_split) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), l, r; Param q = pickInterior("u", U, p);
  bool ok = NurbsCurve::SplitAt(c, q.u, l, r); sym_check("split inside the domain succeeds", ok); if (!ok) return; double lo = U[p], hi = U[c.ControlPoints.size()];
  sym_check("degrees kept", l.Degree == p && r.Degree == p);
  if (domainIs("left part", l, lo, q.u)) { sameCurveOn("left part", c, l, lo, q.u); sym_check("left part clamped", !clampedAt(c.KnotVector, p) || clampedAt(l.KnotVector, p)); checkH("left end point", h4(l.ControlPoints.back()), curveAt(c, q.span, q.u)); }
  if (domainIs("right part", r, q.u, hi)) { sameCurveOn("right part", c, r, q.u, hi); sym_check("right part clamped", !clampedAt(c.KnotVector, p) || clampedAt(r.KnotVector, p)); checkH("right start point", h4(r.ControlPoints[0]), curveAt(c, q.span, q.u)); }
  sym_reached("split");
}
HARNESS(curve_split_refused) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, 0), l, r; int w = sym_choice("where", 0, 3); double lo = U[0], hi = U.back();
  double u = w == 0 ? lo : w == 1 ? hi : w == 2 ? rv("below", lo - 5, lo - 0.01) : rv("above", hi + 0.01, hi + 5); sym_check("no split at or outside the ends", !NurbsCurve::SplitAt(c, u, l, r)); sym_reached("split refused");
}
HARNESS(curve_extract) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r; int n = (int)c.ControlPoints.size() - 1;
  VD cand; for (int k = p; k <= n + 1; k++) if (k == p || U[k] != U[k - 1]) cand.push_back(U[k]); VD ends = cand; int i = sym_choice("i", 0, (int)ends.size() * 2 - 2), j = sym_choice("j", 0, (int)ends.size() * 2 - 2); if (i >= j && !(i == j && i % 2 == 1)) { sym_assume(0); return; }
  double a, b;
  if (i == j) { double d = ends[i / 2 + 1] - ends[i / 2]; a = rv("a", ends[i / 2] + d * 0.0625, ends[i / 2] + d * 0.4375); b = rv("b", ends[i / 2] + d * 0.5625, ends[i / 2 + 1] - d * 0.0625); }
  else { a = i % 2 == 0 ? ends[i / 2] : rv("a", ends[i / 2] + DELTA, ends[i / 2 + 1] - DELTA); b = j % 2 == 0 ? ends[j / 2] : rv("b", ends[j / 2] + DELTA, ends[j / 2 + 1] - DELTA); }
  NurbsCurve::Extract(c, a, b, r); sym_check("degree kept", r.Degree == p); if (domainIs("extracted part", r, a, b)) { sameCurveOn("extracted part", c, r, a, b); sym_check("extracted part clamped", !clampedAt(c.KnotVector, p) || clampedAt(r.KnotVector, p)); } sym_reached("extract");
}
static LN_NurbsCurve affine(const LN_NurbsCurve& c, double lo, double hi) { LN_NurbsCurve r = c; double a = c.KnotVector[c.Degree], b = c.KnotVector[c.ControlPoints.size()]; for (auto& u : r.KnotVector) u = lo + (u - a) / (b - a) * (hi - lo); return r; }
HARNESS(curve_merge) {
  int p = sym_param("p", 2), q = sym_param("q", 2); VD U = knotPattern(p, sym_param("kv", 1)), V = knotPattern(q, sym_param("kw", 0)); int w = sym_param("w", 1); LN_NurbsCurve a = mkCurve("P", p, U, w), b = mkCurve("Q", q, V, w), r;
  b.ControlPoints[0] = a.ControlPoints.back(); if (sym_param("jw", 0)) { double f = sym_param("jw", 0) / 4.0; H4 h = h4(b.ControlPoints[0]); b.ControlPoints[0] = PW(h.x * f, h.y * f, h.z * f, h.w * f); } bool ok = NurbsCurve::Merge(a, b, r); sym_check("touching curves merge", ok); if (!ok) return; int d = p > q ? p : q; sym_check("merged degree", r.Degree == d);
  if (!domainIs("merged curve", r, 0.0, 1.0)) return; sameCurveOn("merged first half", affine(a, 0, 0.5), r, 0, 0.5); sameCurveOn("merged second half", affine(b, 0.5, 1), r, 0.5, 1); sym_reached("merge");
}
HARNESS(curve_merge_refused) {
  int p = sym_param("p", 2); VD U = knotPattern(p, 1); LN_NurbsCurve a = mkCurve("P", p, U, 0), b = mkCurve("Q", p, U, 0), r; double gap = b.ControlPoints[0].GetWX() - a.ControlPoints.back().GetWX(); sym_assume_lt(0.01, gap);
  sym_check("curves that do not touch are not merged", !NurbsCurve::Merge(a, b, r)); sym_reached("merge refused");
}
// a curve whose meeting end is not clamped does not end at its control point: refused
HARNESS(curve_merge_unclamped) {
  int p = sym_param("p", 2), q = sym_param("q", 2), side = sym_param("side", 0); VD U = side == 0 ? knotPattern(p, 9) : knotPattern(p, 1), V = side == 0 ? knotPattern(q, 1) : knotPattern(q, 9); LN_NurbsCurve a = mkCurve("P", p, U, 1), b = mkCurve("Q", q, V, 1), r; b.ControlPoints[0] = a.ControlPoints.back(); bool clA = clampedAt(U, p), clB = clampedAt(V, q); sym_check("test data", (side == 0) == clB && (side == 0) == !clA); sym_check("an unclamped curve is not merged", !NurbsCurve::Merge(a, b, r)); sym_reached("merge unclamped");
}
HARNESS(curve_reparam) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r; double lo = rv("lo", -5, 5), len = rv("len", 0.5, 5); double hi = lo + len;
  NurbsCurve::Reparametrize(c, lo, hi, r); sym_check("shape kept", r.Degree == p && r.KnotVector.size() == U.size() && r.ControlPoints.size() == c.ControlPoints.size()); double A = U[0], B = U.back();
  for (size_t i = 0; i < U.size(); i++) sym_check_eq("knots are mapped affinely", r.KnotVector[i], lo + (U[i] - A) / (B - A) * len, 1e-5); for (size_t i = 0; i < c.ControlPoints.size(); i++) checkH("control points kept", h4(r.ControlPoints[i]), h4(c.ControlPoints[i]), 1e-12);
  sym_reached("reparam");
}
// u -> s = (al u + be)/(ga u + de): same points, C'(s(u)) = C(u)
HARNESS(curve_mobius) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r; static const double M[6][4] = {{2, 1, 3, 2}, {1, 0, -0.25, 1}, {3, -1, 0, 2}, {1, 1, 0.5, 4}, {2, 0, 0.125, 2}, {-2, 1, -1, 0.25}};
  int k = sym_param("m", 0); double al = M[k][0], be = M[k][1], ga = M[k][2], de = M[k][3]; if (k == 5) { al = 2; be = 1; ga = rv("ga", -0.0625, 0.125); de = 3; } if (sym_param("neg", 0)) { al = -al; be = -be; ga = -ga; de = -de; }
  NurbsCurve::Reparametrize(c, al, be, ga, de, r); sym_check("shape kept", r.Degree == p && r.KnotVector.size() == U.size() && r.ControlPoints.size() == c.ControlPoints.size());
  for (size_t i = 0; i < U.size(); i++) sym_check_eq("mapped knots", r.KnotVector[i] * (ga * U[i] + de), al * U[i] + be, 1e-9); for (auto& w : r.ControlPoints) sym_check_le("weights stay positive", 1e-9, w.GetW(), 0);
  Param q = pickInside("u", U, p); double s = (al * q.u + be) / (ga * q.u + de); H4 a = curveAt(c, q.span, q.u), b = curveAt(r, q.span, s); sym_check_eq("same point.x", a.x * b.w, b.x * a.w, 1e-6); sym_check_eq("same point.y", a.y * b.w, b.y * a.w, 1e-6); sym_check_eq("same point.z", a.z * b.w, b.z * a.w, 1e-6); sym_reached("mobius");
}
HARNESS(curve_mobius_refused) { LN_NurbsCurve c = mkCurve("P", 2, knotPattern(2, 1), 0), r; double al = rv("al", -2, 2), be = rv("be", -2, 2), ga = rv("ga", -2, 2), de = rv("de", -2, 2); sym_assume_lt(al * de - ga * be, -0.001); sym_check("orientation-reversing coefficients are refused", throwsAny([&] { NurbsCurve::Reparametrize(c, al, be, ga, de, r); })); sym_reached("mobius refused"); }
HARNESS(curve_reverse) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r, rr; NurbsCurve::Reverse(c, r); double lo = U[0], hi = U.back(); sym_check("reversed shape", r.Degree == p && wellFormed(r) && r.KnotVector.size() == U.size());
  if (!wellFormed(r)) return; for (size_t i = 0; i < U.size(); i++) sym_check_eq("knots are mirrored", r.KnotVector[i], lo + hi - U[U.size() - 1 - i], 1e-9);
  Param q = pickInside("u", U, p); double s = lo + hi - q.u; int sp = (int)U.size() - 2 - q.span; checkH("reversed point", curveAt(r, sp, s), curveAt(c, q.span, q.u)); NurbsCurve::Reverse(r, rr); for (size_t i = 0; i < U.size(); i++) sym_check_eq("double reversal knots", rr.KnotVector[i], U[i], 1e-9);
  for (size_t i = 0; i < c.ControlPoints.size(); i++) checkH("double reversal", h4(rr.ControlPoints[i]), h4(c.ControlPoints[i]), 1e-12); sym_reached("reverse");
}
HARNESS(curve_transform) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r; Matrix4d M; double m[4][4];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { m[i][j] = i == 3 ? (j == 3 ? 1.0 : 0.0) : rv(idx("m", i, j), -2, 2); M.SetElement(i, j, m[i][j]); }
  NurbsCurve::CreateTransformed(c, M, r); Param q = pickParam("u", U, p); H4 h = curveAt(c, q.span, q.u), g = curveAt(r, q.span, q.u);
  sym_check("knots kept", r.KnotVector.size() == U.size() && r.Degree == p); double e[3]; for (int i = 0; i < 3; i++) e[i] = m[i][0] * h.x + m[i][1] * h.y + m[i][2] * h.z + m[i][3] * h.w;
  sym_check_eq("transformed point.x", g.x * h.w, e[0] * g.w, 1e-7); sym_check_eq("transformed point.y", g.y * h.w, e[1] * g.w, 1e-7); sym_check_eq("transformed point.z", g.z * h.w, e[2] * g.w, 1e-7); sym_reached("transform");
}
