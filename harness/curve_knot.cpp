// Knot insertion / refinement / removal, degree elevation / reduction, Bezier decomposition.
#include "common.h"
#include "NurbsCurve.h"
#include "XYZ.h"
using namespace LNLib;
static void sortInto(VD& U, double x) { U.push_back(x); for (size_t j = U.size() - 1; j > 0 && U[j] < U[j - 1]; j--) { double t = U[j]; U[j] = U[j - 1]; U[j - 1] = t; } }
static void sameKnots(const char* w, const VD& a, const VD& b) { sym_check((std::string(w) + " count").c_str(), a.size() == b.size()); if (a.size() != b.size()) return; for (size_t i = 0; i < a.size(); i++) sym_check_eq(w, a[i], b[i], 1e-12); }
// parameter strictly inside the domain: either symbolic inside a span, or exactly an interior knot
static Param pickInterior(const char* name, const VD& U, int p) {
  int n = (int)U.size() - p - 2; std::vector<int> spans; for (int k = p; k <= n; k++) if (U[k] < U[k + 1]) spans.push_back(k);
  int m = (int)spans.size(); int c = m == 1 ? 0 : sym_choice((std::string(name) + "@").c_str(), 0, 2 * m - 2); Param r;
  if (c < m) { r.span = spans[c]; r.atKnot = false; r.u = sym_real(name, U[r.span] + DELTA, U[r.span + 1] - DELTA); }
  else { r.span = spans[c - m + 1]; r.atKnot = true; r.u = U[r.span]; }
  return r;
}
// curve whose first control point is the farthest one and whose weights are concrete: size comparisons inside the library are decided
static LN_NurbsCurve anchored(const char* b, int p, const VD& U, int mode) {
  LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1; static const double pat[] = {0.5, 2, 1, 1.5, 3, 0.75}; c.ControlPoints.push_back(PW(P3(40, 0, 0), mode ? 0.5 : 1.0));
  for (int i = 1; i < n; i++) { double x = rv(idx(b, i) + "x", -3, 3), y = rv(idx(b, i) + "y", -3, 3), z = rv(idx(b, i) + "z", -3, 3); c.ControlPoints.push_back(PW(x, y, z, mode ? pat[i % 6] : 1.0)); } return c;
}
static int multOf(const VD& U, double u) { int m = 0; for (double x : U) if (x == u) m++; return m; }
HARNESS(curve_insert) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r;
  Param q = pickInterior("u", U, p); int s = q.atKnot ? multOf(U, q.u) : 0; int times = sym_choice("times", 1, p); if (s + times > p) { sym_assume(0); return; }
  LN_NurbsCurve c0 = c; int t = NurbsCurve::InsertKnot(c, q.u, times, r); sym_check("all requested insertions are done", t == times);
  VD E = U; for (int i = 0; i < times; i++) sortInto(E, q.u); sameKnots("inserted knot vector", r.KnotVector, E); sym_check("degree kept", r.Degree == p);
  sameCurve("curve after insertion", c0, r); sym_reached("insert");
}
// over-insertion: whatever it reports, the curve it produces is the same curve
HARNESS(curve_insert_over) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r;
  Param q = pickInterior("u", U, p); int s = q.atKnot ? multOf(U, q.u) : 0; int times = sym_choice("times", 1, p + 2); if (s + times <= p) { sym_assume(0); return; }
  int t = NurbsCurve::InsertKnot(c, q.u, times, r); sym_check("reported insertions are plausible", t >= 0 && t <= times && s + t <= p + 1); sym_check("knot count grows by the reported number", r.KnotVector.size() == U.size() + t);
  sameCurve("curve after over-insertion", c, r); sym_reached("insert over");
}
// symbolic knots: insertion of a symbolic parameter into a symbolic span
HARNESS(curve_insert_symknots) {
  int p = sym_param("p", 2); VD U = symKnots("g", p, std::vector<int>(sym_param("m", 1), 1), 0.5, 2); int m = sym_param("m", 1);
  LN_NurbsCurve c = mkCurve("P", p, U, 0), r; int sp = p + sym_choice("span", 0, m); double lam = rv("lam", 0.125, 0.875); double u = U[sp] + lam * (U[sp + 1] - U[sp]);
  int times = sym_choice("times", 1, p); int t = NurbsCurve::InsertKnot(c, u, times, r); sym_check("all requested insertions are done", t == times); sym_check("well formed", r.KnotVector.size() == r.ControlPoints.size() + p + 1 && r.KnotVector.size() == U.size() + times); if (r.KnotVector.size() != U.size() + times) return;
  VD V(U.begin(), U.begin() + sp + 1); for (int i = 0; i < times; i++) V.push_back(u); V.insert(V.end(), U.begin() + sp + 1, U.end()); sameKnots("knots", r.KnotVector, V);
  double t1 = rv("t", 0, 1); for (int side = 0; side < 2; side++) { double a = side ? u : U[sp], b = side ? U[sp + 1] : u; double tt = a + t1 * (b - a); H4 e = curveH(U, p, c.ControlPoints, sp, tt), g = curveH(V, p, r.ControlPoints, side ? sp + times : sp, tt); checkH("curve after insertion", g, e); }
  sym_reached("insert symknots");
}
HARNESS(curve_refine) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r; int mode = sym_param("mode", 0);
  VD X; int n = (int)U.size() - p - 2;
  if (mode == 0) { Param q = pickInterior("u", U, p); if (q.atKnot && multOf(U, q.u) >= p) { sym_assume(0); return; } X.push_back(q.u); }
  else if (mode == 1) { // two parameters, equal or different, any spans
    double D = U[n + 1] - U[p]; static const double fr[] = {0.125, 0.3125, 0.5625, 0.8125, 0.9375}; int a = sym_choice("a", 0, 4), b = sym_choice("b", 0, 4); if (b < a || (a == b && p < 2)) { sym_assume(0); return; } X = {U[p] + fr[a] * D, U[p] + fr[b] * D};
    for (size_t i = 0; i < X.size(); i++) if (multOf(U, X[i]) + (a == b ? 2 : 1) > p) { sym_assume(0); return; } }
  else if (mode == 2) { // midpoint of every span
    for (int k = p; k <= n; k++) if (U[k] < U[k + 1]) X.push_back(0.5 * (U[k] + U[k + 1])); }
  else { // raise every interior knot by one and add p copies inside the first span
    for (int i = 0; i < p; i++) X.push_back(0.75 * U[p] + 0.25 * U[p + 1]); for (int k = p + 1; k <= n; k++) if (U[k] != U[k - 1] && multOf(U, U[k]) < p) X.push_back(U[k]); }
  NurbsCurve::RefineKnotVector(c, X, r); VD E = U; for (double x : X) sortInto(E, x); sameKnots("refined knot vector", r.KnotVector, E); sym_check("degree kept", r.Degree == p); sameCurve("curve after refinement", c, r); sym_reached("refine");
}
// removing what was inserted restores the curve; a knot that cannot be removed is reported
HARNESS(curve_remove) { // insert up to multiplicity s, remove rem copies
  int p = sym_param("p", 2), S = sym_param("s", 1), rem = sym_param("rem", 1); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = anchored("P", p, U, sym_param("w", 1)), r, z; double u = sym_param("at", 0) ? U[p + 1] : U[p] + 0.4375 * (U[p + 1] - U[p]);
  int s = multOf(U, u), times = S - s; if (times < rem) { sym_assume(0); return; } VD X(times, u); NurbsCurve::RefineKnotVector(c, X, r);
  bool ok = NurbsCurve::RemoveKnot(r, u, rem, z); sym_check("an inserted knot is removable", ok); if (!ok) return; sym_check("removal result well formed", wellFormed(z)); if (!wellFormed(z)) return;
  VD E = U; for (int i = 0; i < times - rem; i++) sortInto(E, u); sameKnots("knots after removal", z.KnotVector, E); sameCurve("curve after removal", c, z, 1e-6); sym_reached("remove");
}
// arbitrary curve: whatever RemoveKnot answers, a result it delivers is a well-formed curve with the same end points, and the input is left alone
HARNESS(curve_remove_any) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = anchored("P", p, U, sym_param("w", 1)), z; int n = (int)c.ControlPoints.size() - 1; VD cand; for (int k = p; k <= n + 1; k++) if (k == p || U[k] != U[k - 1]) cand.push_back(U[k]); cand.push_back(U[p] + 0.4375 * (U[p + 1] - U[p]));
  double u = cand[sym_choice("which", 0, (int)cand.size() - 1)]; int s = multOf(U, u); int times = sym_choice("times", 1, p + 1);
  LN_NurbsCurve c0 = c; bool ok = NurbsCurve::RemoveKnot(c, u, times, z);
  sym_check("end and absent knots are not removed", !ok || (s > 0 && u != U[p] && u != U[n + 1]));
  if (ok) { sym_check("removal result well formed", wellFormed(z)); if (!wellFormed(z)) return; sym_check("at least one and at most the requested knots are gone", z.KnotVector.size() < U.size() && z.KnotVector.size() + times >= U.size()); int g = (int)(U.size() - z.KnotVector.size());
    VD E; int skip = g; for (double x : U) { if (x == u && skip > 0) { skip--; continue; } E.push_back(x); } sameKnots("knots after removal", z.KnotVector, E); checkH("start kept", h4(z.ControlPoints[0]), h4(c.ControlPoints[0])); checkH("end kept", h4(z.ControlPoints.back()), h4(c.ControlPoints.back())); sym_reached("removed"); } else sym_reached("not removed");
}
// a kink or curvature jump that matters is not smoothed away: when RemoveKnot succeeds the curve stays where it was
HARNESS(curve_remove_keeps) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = anchored("P", p, U, 0), z; double u = U[p + 1];
  if (NurbsCurve::RemoveKnot(c, u, 1, z)) { if (wellFormed(z)) sameCurve("curve after a successful removal", c, z, 1e-4); sym_reached("kept"); } else sym_reached("refused");
}
HARNESS(curve_remove_excess) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = anchored("P", p, U, 0), r, z; double u = U[p + 1]; int times = p - multOf(U, u); if (times < 1) { sym_assume(0); return; } VD X(times, u); NurbsCurve::RefineKnotVector(c, X, r);
  NurbsCurve::RemoveExcessiveKnots(r, z); sym_check("no interior knot stays multiple that was inserted", multOf(z.KnotVector, u) <= 1); sameCurve("curve after removal of excess knots", c, z, 1e-5); sym_reached("remove excess");
}
HARNESS(curve_elevate) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r; int t = sym_param("t", 1);
  NurbsCurve::ElevateDegree(c, t, r); sym_check("degree raised", r.Degree == p + t); U = clampKnots(U, p); VD E; for (size_t i = 0; i < U.size(); i++) { E.push_back(U[i]); if (i + 1 == U.size() || U[i + 1] != U[i]) for (int k = 0; k < t; k++) E.push_back(U[i]); }
  sameKnots("elevated knot vector", r.KnotVector, E); sameCurve("curve after elevation", c, r); sym_reached("elevate");
}
HARNESS(curve_reduce) { // elevating a Bezier curve then reducing gives it back
  int p = sym_param("p", 2); VD U = knotPattern(p, 0); double lo = sym_param("shift", 0) ? -2 : 0, hi = sym_param("shift", 0) ? 3 : 1; for (auto& x : U) x = x == 0 ? lo : hi;
  LN_NurbsCurve c = anchored("P", p, U, sym_param("w", 1)), e, r; NurbsCurve::ElevateDegree(c, 1, e); bool ok = NurbsCurve::ReduceDegree(e, r); sym_check("an elevated curve is reducible", ok); if (!ok) return; sym_check("degree lowered", r.Degree == p); sameCurve("curve after elevation and reduction", c, r, 1e-7); sym_reached("reduce");
}
HARNESS(curve_reduce_any) { // any Bezier: if reduction is reported the end points stay
  int p = sym_param("p", 2); VD U = knotPattern(p, 0); LN_NurbsCurve c = anchored("P", p, U, 0), r; bool ok = NurbsCurve::ReduceDegree(c, r);
  if (ok) { sym_check("reduced result well formed", wellFormed(r) && r.Degree == p - 1); checkH("start kept", h4(r.ControlPoints[0]), h4(c.ControlPoints[0])); checkH("end kept", h4(r.ControlPoints.back()), h4(c.ControlPoints.back())); sym_reached("reduced"); } else sym_reached("not reducible");
}
// a Bezier curve off a reducible one by a symbolic displacement of one control point: what is reported as reduced stays within the distance tolerance, what is close enough is reduced
HARNESS(curve_reduce_tol) {
  int p = sym_param("p", 4), k = sym_param("k", 1), wm = sym_param("w", 0); sym_approx_sqrt(1); std::vector<H4> b, e(p + 1); for (int i = 0; i < p; i++) { double w = wm ? 1 + 0.5 * (i % 3) : 1.0; double f = sym_param("s", 0) ? 0.005 : 1.0; b.push_back(H4{(i == 0 ? -6.0 : 2.0 * i) * w * f, (i * i % 5 - 1.0) * w * f, (i % 2) * 1.5 * w * f, w}); }
  for (int i = 0; i <= p; i++) { double t = i / (double)p; const H4 &l = b[i > 0 ? i - 1 : 0], &r = b[i < p ? i : p - 1]; e[i] = H4{t * l.x + (1 - t) * r.x, t * l.y + (1 - t) * r.y, t * l.z + (1 - t) * r.z, t * l.w + (1 - t) * r.w}; }
  double d = rv("d", -0.004, 0.004); LN_NurbsCurve c, q; c.Degree = p; c.KnotVector = VD(p + 1, 0.0); for (int i = 0; i <= p; i++) c.KnotVector.push_back(1.0); for (int i = 0; i <= p; i++) c.ControlPoints.push_back(PW(e[i].x + (i == k ? d : 0.0), e[i].y, e[i].z, e[i].w));
  bool ok = NurbsCurve::ReduceDegree(c, q); if (!ok) { sym_check_le("a curve this close to a reducible one is reduced", 1e-6, d * d * 1e4, 0); sym_reached("refused"); return; } bool wf = wellFormed(q) && q.Degree == p - 1; sym_check("reduced result well formed", wf); if (!wf) return;
  for (int i = 1; i < 16; i++) { double u = i / 16.0; H4 o = curveAt(c, p, u), r = curveAt(q, p - 1, u); double lim = 1.0001e-4; sym_check_le("a reduction moves no point beyond the distance tolerance", (r.x * o.w - o.x * r.w) * 1e4, lim * 1e4 * o.w * r.w, 1e-6); sym_check_le("a reduction moves no point beyond the distance tolerance", (o.x * r.w - r.x * o.w) * 1e4, lim * 1e4 * o.w * r.w, 1e-6); sym_check_eq("other coordinates kept", r.y * o.w, o.y * r.w, 1e-9); sym_check_eq("other coordinates kept", r.z * o.w, o.z * r.w, 1e-9); } sym_reached("reduced");
}
HARNESS(curve_reduce_multi) { int p = sym_param("p", 2); LN_NurbsCurve c = mkCurve("P", p, knotPattern(p, 1), 0), r; sym_check("curves with interior knots are refused", !NurbsCurve::ReduceDegree(c, r)); sym_reached("reduce refused"); }
HARNESS(curve_decompose) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)); auto B = NurbsCurve::DecomposeToBeziers(c);
  std::vector<int> spans; for (int k = p; k + p + 1 < (int)U.size(); k++) if (U[k] < U[k + 1]) spans.push_back(k); sym_check("one Bezier per non-empty span", B.size() == spans.size()); if (B.size() != spans.size()) return;
  double t = rv("t", 0, 1); for (size_t i = 0; i < B.size(); i++) { sym_check("Bezier shape", B[i].Degree == p && (int)B[i].ControlPoints.size() == p + 1 && (int)B[i].KnotVector.size() == 2 * p + 2); if ((int)B[i].ControlPoints.size() != p + 1) return;
    H4 r{0, 0, 0, 0}; for (int j = 0; j <= p; j++) { double b = bern(p, j, t); H4 q = h4(B[i].ControlPoints[j]); r.x = r.x + b * q.x; r.y = r.y + b * q.y; r.z = r.z + b * q.z; r.w = r.w + b * q.w; }
    checkH("Bezier piece", r, curveAt(c, spans[i], U[spans[i]] + t * (U[spans[i] + 1] - U[spans[i]]))); for (int j = 0; j < 2 * p + 2; j++) sym_check_eq("Bezier knots", B[i].KnotVector[j], j <= p ? 0.0 : 1.0, 1e-12); }
  sym_reached("decompose");
}
// insertion at the ends of an unclamped curve's domain
HARNESS(curve_insert_ends) {
  int p = sym_param("p", 2), e = sym_param("e", 0), rp = sym_param("rp", 0); VD U = knotPattern(p, 9); int n = (int)U.size() - p - 2; if (rp && e) U[n + 2] = U[n + 1]; if (rp && !e) U[p - 1] = U[p]; LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)), r; double u = e ? U[n + 1] : U[p];
  int times = sym_choice("times", 1, p - multOf(U, u)); int t = NurbsCurve::InsertKnot(c, u, times, r); sym_check("all requested insertions are done", t == times); VD E = U; for (int i = 0; i < times; i++) sortInto(E, u); sameKnots("inserted knot vector", r.KnotVector, E);
  sameCurve("curve after insertion at a domain end", c, r); sym_reached("insert end");
}
// The removal error bound of a knot of multiplicity s measures the jump of the (p-s+1)-th derivative there: it is a fixed multiple of that
// jump for every curve over the knot vector, so it vanishes exactly for removable knots; the multiple is the distance of the two points that
// the removal would have to make equal (middle control point against the line, or the two candidates for one new point).
HARNESS(curve_remove_bound) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); int n = (int)U.size() - p - 2; int r = p + sym_param("at", 1); while (r <= n && U[r] == U[r + 1]) r++; if (r > n) { sym_assume(0); return; }
  double u = U[r]; int s = multOf(U, u); if (s > p) { sym_assume(0); return; } LN_NurbsCurve c = mkCurve("P", p, U, sym_param("w", 1)); int lo = r - s, hi = r; VD co(n + 1); double big = 0;
  for (int i = 0; i <= n; i++) { co[i] = coxDeBoorD(U, i, p, hi, u, p - s + 1) - coxDeBoorD(U, i, p, lo, u, p - s + 1); if (co[i] > big) big = co[i]; if (-co[i] > big) big = -co[i]; }
  int first = r - p, q = first + (p - s) / 2; double unit = 1; if ((p - s) % 2) { q = first + (p - s - 1) / 2; unit = (U[q + p + 1] - U[q]) / (u - U[q]); }
  H4 L{0, 0, 0, 0}; for (int i = 0; i <= n; i++) { double k = co[i] / co[q] * unit; H4 h = h4(c.ControlPoints[i]); L.x = L.x + k * h.x; L.y = L.y + k * h.y; L.z = L.z + k * h.z; L.w = L.w + k * h.w; }
  double B = NurbsCurve::ComputerRemoveKnotErrorBound(c, r); sym_check("error bound is not negative", B >= 0); sym_check_eq("error bound measures the jump at the knot", B * B, L.x * L.x + L.y * L.y + L.z * L.z + L.w * L.w, 1e-7); sym_reached("remove bound");
}
// bounded removal: the returned curve is within the error reported for each parameter, and that is within the bound
HARNESS(curve_remove_within) {
  int p = sym_param("p", 3); VD U = knotPattern(p, sym_param("kv", 1)); int n = (int)U.size() - p - 2; LN_NurbsCurve c, h, z; c.Degree = p; c.KnotVector = U; for (int i = 0; i <= n; i++) c.ControlPoints.push_back(XYZW(XYZ(i, (i * 5) % 3 - 1, (i * i) % 4 * 0.5), 1)); c.ControlPoints[1] = XYZW(XYZ(1, rv("y", 1, 2), 0), 1);
  NurbsCurve::InsertKnot(c, 0.6875, 1, h); VD t, e; for (int i = 0; i <= 4; i++) { t.push_back(i / 4.0); e.push_back(0); } NurbsCurve::RemoveKnotsByGivenBound(h, t, e, 0.001, z); sym_check("bounded removal result well formed", wellFormed(z)); if (!wellFormed(z)) return;
  for (int i = 0; i <= 4; i++) { sym_check("reported error is within the bound", e[i] <= 0.001 + 1e-9); XYZ a = NurbsCurve::GetPointOnCurve(c, t[i]), b = NurbsCurve::GetPointOnCurve(z, t[i]); sym_check("curve after bounded removal is within the bound", (a - b).SqrLength() <= 0.0011 * 0.0011); }
  sym_reached("remove within");
}
