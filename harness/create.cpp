// Creation of lines, arcs, conics, Hermite splines; interpolation and approximation.
#include "common.h"
#include "NurbsCurve.h"
#include "Interpolation.h"
#include "MathUtils.h"
#include "KnotVectorUtils.h"
#include "LNLibExceptions.h"
#include <cmath>
using namespace LNLib;
static double dot3(const P3& a, const P3& b) { return a.X() * b.X() + a.Y() * b.Y() + a.Z() * b.Z(); }
static P3 cross3(const P3& a, const P3& b) { return P3(a.Y() * b.Z() - a.Z() * b.Y(), a.Z() * b.X() - a.X() * b.Z(), a.X() * b.Y() - a.Y() * b.X()); }
static P3 comb(const P3& a, double s, const P3& b, double t) { return P3(a.X() * s + b.X() * t, a.Y() * s + b.Y() * t, a.Z() * s + b.Z() * t); }
static P3 rel(const H4& h, const P3& o) { return P3(h.x - o.X() * h.w, h.y - o.Y() * h.w, h.z - o.Z() * h.w); }   // w * (point - o)
template <class F> static void eachSpan(const LN_NurbsCurve& c, const char* tn, F f) {
  int p = c.Degree, n = (int)c.ControlPoints.size() - 1, k = 0; for (int s = p; s <= n; s++) if (c.KnotVector[s] < c.KnotVector[s + 1]) { double t = rv(idx(tn, k), 0, 1); f(k++, s, c.KnotVector[s] + t * (c.KnotVector[s + 1] - c.KnotVector[s])); }
}
HARNESS(make_line) {
  int c = sym_choice("apart", 0, 2); P3 a = symP3("a"), b = symP3("b"); double d = rv("d", 0.01, 8); if (c == 0) b = P3(a.X() + d, b.Y(), b.Z()); if (c == 1) b = P3(a.X(), a.Y() - d, b.Z()); if (c == 2) b = P3(a.X(), a.Y(), a.Z() + d); LN_NurbsCurve l; NurbsCurve::CreateLine(a, b, l); sym_check("line degree", l.Degree == 1); if (!domainIs("line", l, 0, 1)) return; double t = rv("t", 0, 1); checkProj("line point", comb(a, 1.0 - t, b, t), curveAt(l, spanEnclosing(l.KnotVector, l.Degree, 0, 1), t)); LN_NurbsCurve e; sym_check("degenerate line rejected", throwsAny([&] { NurbsCurve::CreateLine(a, a, e); })); sym_reached("line");
}
static void axes(int k, P3& x, P3& y) { switch (k) { case 0: x = P3(1, 0, 0); y = P3(0, 1, 0); break; case 1: x = P3(0, 2, 0); y = P3(0, 0, 3); break; case 2: x = P3(1, 2, 2); y = P3(2, 1, -2); break; default: x = P3(0, 0, -1); y = P3(-1, 0, 0); } }
static void checkArc(const LN_NurbsCurve& c, const P3& o, const P3& X, const P3& Y, double rx, double ry, double a, double h, int na) {
  // X, Y unit; sweep from a over 2*na*h
  P3 N = cross3(X, Y); sym_check("arc degree", c.Degree == 2); if (!domainIs("arc", c, 0, 1)) return;
  auto at = [&](double co, double si) { return comb(o, 1, comb(X, rx * co, Y, ry * si), 1); };
  checkProj("arc start", at(cos(a), sin(a)), h4(c.ControlPoints[0])); checkProj("arc end", at(cos(a + 2 * na * h), sin(a + 2 * na * h)), h4(c.ControlPoints.back())); int segs = 0;
  eachSpan(c, "t", [&](int k, int s, double u) { segs++; H4 q = curveAt(c, s, u); P3 d = rel(q, o); double ex = dot3(d, X) / rx, ey = dot3(d, Y) / ry; sym_check_eq("arc stays in its plane", dot3(d, N), 0.0, 1e-7); sym_check_eq("every point on the ellipse", ex * ex + ey * ey, q.w * q.w, 1e-7);
    double um = c.KnotVector[s] + (c.KnotVector[s + 1] - c.KnotVector[s]) * 0.5; double m = a + (2 * k + 1) * h; checkProj("middle of each piece at the middle angle", at(cos(m), sin(m)), curveAt(c, s, um)); double e = a + 2 * (k + 1) * h; checkProj("end of each piece", at(cos(e), sin(e)), curveAt(c, s, c.KnotVector[s + 1])); });
  sym_check("as many pieces as quarter turns", segs == na);
}
HARNESS(make_arc) {
  int na = sym_param("na", 1), cr = sym_param("cr", 0); P3 o = P3(cr ? 5.0 : rv("ox", 5, 9), 6, 7), x, y; axes(sym_param("ax", 0), x, y); double rx = cr ? 2.0 : rv("rx", 0.5, 4), ry = sym_param("ell", 0) ? (cr ? 3.0 : rv("ry", 0.5, 4)) : rx; int fa = sym_param("fa", 0); double a = fa == 1 ? sym_angle("a", -3, 3) : sym_pi(sym_param("a4", 0), 4), h = fa == 1 ? sym_pi(na == 1 ? 1 : 2 * na - 1, na == 1 ? 6 : 8 * na) : sym_angle("h", na == 1 ? 0.05 : 0.7854 * (na - 1) / na + 0.001, 0.7853); LN_NurbsCurve c; bool ok = NurbsCurve::CreateArc(o, x, y, a, a + 2 * na * h, rx, ry, c); sym_check("arc created", ok); if (!ok) return; double lx = sqrt(dot3(x, x)), ly = sqrt(dot3(y, y)); checkArc(c, o, P3(x.X() / lx, x.Y() / lx, x.Z() / lx), P3(y.X() / ly, y.Y() / ly, y.Z() / ly), rx, ry, a, h, na); sym_reached("arc");
}
HARNESS(make_full_arc) {
  int q = sym_param("q", 4); P3 o = symP3("o"), x, y; axes(sym_param("ax", 0), x, y); double rx = rv("rx", 0.5, 4), ry = sym_param("ell", 0) ? rv("ry", 0.5, 4) : rx; LN_NurbsCurve c; bool ok = NurbsCurve::CreateArc(o, x, y, 0.0, sym_pi(q, 2), rx, ry, c); sym_check("quarter multiples created", ok); if (!ok) return; double lx = sqrt(dot3(x, x)), ly = sqrt(dot3(y, y)); checkArc(c, o, P3(x.X() / lx, x.Y() / lx, x.Z() / lx), P3(y.X() / ly, y.Y() / ly, y.Z() / ly), rx, ry, 0.0, sym_pi(1, 4), q); sym_reached("full arc");
}
HARNESS(make_arc_bad) {
  P3 o = symP3("o"), x(1, 0, 0), y(0, 1, 0), z(0.0, 0.0, 0.0); LN_NurbsCurve c; double r = rv("r", 0.5, 4), d = rv("d", 0.01, 3), n = rv("n", -3, 0), big = rv("big", 6.3, 20); int k = sym_choice("k", 0, 5);
  sym_check("bad arc rejected", throwsAny([&] { switch (k) { case 0: NurbsCurve::CreateArc(o, z, y, 0, d, r, r, c); break; case 1: NurbsCurve::CreateArc(o, x, z, 0, d, r, r, c); break; case 2: NurbsCurve::CreateArc(o, x, y, d, d + n, r, r, c); break; case 3: NurbsCurve::CreateArc(o, x, y, 0, big, r, r, c); break; case 4: NurbsCurve::CreateArc(o, x, y, 0, d, n, r, c); break; default: NurbsCurve::CreateArc(o, x, y, 0, d, r, n, c); } })); sym_reached("bad arc");
}
// ------------------------------------------------------------------------------------------ conics
static P3 symT() { double x = rv("Tx", 1, 8), y = rv("Ty", -8, -1); return P3(x, y, 3); }
// triangle shapes: P0 = T, P1 = T+e1, P2 = T+e2
static void tri(int k, P3& e1, P3& e2) { switch (k) { case 0: e1 = P3(1, 2, 0); e2 = P3(3, 0, 0); break; case 1: e1 = P3(0, 1, 1); e2 = P3(2, 0, 1); break; case 2: e1 = P3(4, 1, 0); e2 = P3(5, -1, 2); break; case 4: e1 = P3(2, 1, 0); e2 = P3(4, 0.5, 0); break; default: e1 = P3(1, 4, 1); e2 = P3(2, 0, 0); } }
static void coords(const P3& d, const P3& e1, const P3& e2, double& a, double& b) { double g11 = dot3(e1, e1), g12 = dot3(e1, e2), g22 = dot3(e2, e2), r1 = dot3(d, e1), r2 = dot3(d, e2), det = g11 * g22 - g12 * g12; a = (r1 * g22 - r2 * g12) / det; b = (r2 * g11 - r1 * g12) / det; }
static P3 conicPoint(const P3& T, const P3& e1, const P3& e2, double w, double u) { double b0 = (1.0 - u) * (1.0 - u), b1 = 2.0 * u * (1.0 - u) * w, b2 = u * u, den = b0 + b1 + b2; P3 d = comb(e1, b1 / den, e2, b2 / den); return comb(T, 1, d, 1); }
// conic through the shoulder data for which the parameter of the given point is rational: u = a/(1+a)
HARNESS(one_conic) {
  P3 e1, e2; tri(sym_param("tri", 0), e1, e2); P3 T = symT(); double w = rv("w", 0.2, 3), u = sym_param("u", 50) / 100.0, s0 = rv("s0", 0.5, 2), s1 = rv("s1", 0.5, 2); P3 pt = conicPoint(T, e1, e2, w, u); XYZ P1; double w1 = -7; bool ok = NurbsCurve::CreateOneConicArc(T, comb(e1, s0, e1, 0), comb(T, 1, e2, 1), comb(e2, s1, e1, -s1), pt, P1, w1); sym_check("conic arc found", ok); if (!ok) return; check3("apex", P1, comb(T, 1, e1, 1), 1e-6); sym_check_eq("apex weight", w1, w, 1e-5); sym_reached("one conic");
}
HARNESS(one_conic_inf) {   // parallel end tangents: half ellipse, apex at infinity in direction V
  P3 V, e2; tri(sym_param("tri", 0), V, e2); P3 T = symT(); double k = rv("k", 0.3, 3), u = sym_param("u", 50) / 100.0; double den = (1.0 - u) * (1.0 - u) + u * u; P3 pt = comb(T, 1, comb(V, k * 2.0 * u * (1.0 - u) / den, e2, u * u / den), 1); XYZ P1; double w1 = -7; bool ok = NurbsCurve::CreateOneConicArc(T, V, comb(T, 1, e2, 1), comb(V, -1, V, 0), pt, P1, w1); sym_check("half ellipse found", ok); if (!ok) return; check3("direction apex", P1, comb(V, k, V, 0), 1e-6); sym_check_eq("infinite apex has weight zero", w1, 0.0, 1e-9); sym_reached("one conic inf");
}
static void checkConic(const LN_NurbsCurve& c, const P3& T, const P3& e1, const P3& e2, double w, bool inf) {
  sym_check("conic degree", c.Degree == 2); if (!domainIs("conic", c, 0, 1)) return; checkProj("conic start", T, h4(c.ControlPoints[0]), 1e-6); checkProj("conic end", comb(T, 1, e2, 1), h4(c.ControlPoints.back()), 1e-6); P3 N = cross3(e1, e2);
  eachSpan(c, "t", [&](int k, int s, double u) { H4 q = curveAt(c, s, u); P3 d = rel(q, T); double a, b; coords(d, e1, e2, a, b); sym_check_eq("conic stays in its plane", dot3(d, N), 0.0, 1e-6); double b0 = inf ? q.w - b : q.w - a - b; sym_check_eq("every point on the conic", a * a, 4.0 * w * w * b0 * b, 1e-5); (void)k; double um = (c.KnotVector[s] + c.KnotVector[s + 1]) * 0.5; H4 qm = curveAt(c, s, um); coords(rel(qm, T), e1, e2, a, b); sym_check_le("right side of the chord", 0.0, w < 0 ? -a : a, 1e-6); });
  for (auto& q : c.ControlPoints) sym_check("weights positive", h4(q).w > 0);
}
HARNESS(open_conic) {
  P3 e1, e2; tri(sym_param("tri", 0), e1, e2); P3 T = symT(); int band = sym_param("band", 0); double w = band == 0 ? rv("w", 1.01, 3) : band == 1 ? sym_const(sym_param("wn", 50), 100) : sym_const(-sym_param("wn", 50), 100); double u = sym_param("u", 50) / 100.0; P3 pt = conicPoint(T, e1, e2, w, u); LN_NurbsCurve c; bool ok = NurbsCurve::CreateOpenConic(T, e1, comb(T, 1, e2, 1), comb(e2, 1, e1, -1), pt, c); sym_check("open conic created", ok); if (!ok) return; checkConic(c, T, e1, e2, w, false); sym_reached("open conic");
}
HARNESS(open_conic_inf) {
  P3 V, e2; tri(sym_param("tri", 0), V, e2); P3 T = symT(); double k = rv("k", 0.3, 3), u = sym_param("u", 50) / 100.0; double den = (1.0 - u) * (1.0 - u) + u * u; P3 pt = comb(T, 1, comb(V, k * 2.0 * u * (1.0 - u) / den, e2, u * u / den), 1); LN_NurbsCurve c; bool ok = NurbsCurve::CreateOpenConic(T, V, comb(T, 1, e2, 1), comb(V, -1, V, 0), pt, c); sym_check("half ellipse created", ok); if (!ok) return; checkConic(c, T, V, e2, k, true); sym_reached("open conic inf");
}
HARNESS(split_arc) {   // both halves lie on the conic of (P0, P1 with weight w, P2) and meet at the shoulder point
  P3 P0 = symP3("a", 4), P1 = symP3("b", 4), P2 = symP3("c", 4); double w = sym_param("inf", 0) ? 0.0 : rv("w", 0.1, 3); XYZ Q, S, R; double wq = 0; NurbsCurve::SplitArc(P0, P1, w, P2, Q, S, R, wq);
  double m = sym_param("inf", 0) ? 1.0 : w; P3 sh = comb(comb(P0, 1, P2, 1), 0.5 / (1.0 + w), P1, m / (1.0 + w)); check3("shoulder point", S, sh, 1e-7); check3("start side point", Q, comb(P0, 1.0 / (1.0 + w), P1, m / (1.0 + w)), 1e-7); check3("end side point", R, comb(P2, 1.0 / (1.0 + w), P1, m / (1.0 + w)), 1e-7); sym_check_eq("inserted weight", 2.0 * wq * wq, 1.0 + w, 1e-7); sym_check("inserted weight positive", wq > 0); sym_reached("split arc");
}
// ------------------------------------------------------------------------------------------ point sets
// shapes with rational chord lengths (so that chord-length parameters are exact), up to a symbolic translation
static VP3 shape(int id, int n) {
  static const double S0[][3] = {{0, 0, 0}, {3, 4, 0}, {-1, 4, 0}, {-4, 0, 0}, {-4, -3, 0}, {0, -6, 0}, {2, -6, 0}, {2, 2, 0}}; static const double S1[][3] = {{0, 0, 0}, {1, 2, 2}, {4, 2, 6}, {6, 5, 12}, {6, 5, 14}, {9, 9, 14}, {9, 9, 13}, {11, 10, 15}}; VP3 r; for (int i = 0; i < n; i++) { const double* s = id == 0 ? S0[i] : id == 1 ? S1[i] : nullptr; r.push_back(s ? P3(s[0], s[1], s[2]) : P3(i * 2.0 + i * i * 0.5, 0, 0)); } return r;
}
// id 3: every planar polyline with the chord lengths 2,3,1,4,2,5,3 (one symbolic direction per chord)
static VP3 symShape(int id, int n) {
  P3 T(rv("Tx", 20, 30), -30, 40); if (id == 3) { static const double L[] = {2, 3, 1, 4, 2, 5, 3}; VP3 r(1, T); for (int i = 1; i < n; i++) { double a = sym_angle(idx("a", i).c_str(), -3.1, 3.1); r.push_back(comb(r.back(), 1, P3(cos(a), sin(a), 0), L[i - 1])); } return r; }
  VP3 r = shape(id, n); for (auto& p : r) p = comb(p, 1, T, 1); return r;
}
static VD chordParams(const VP3& Q) { VD u(1, 0.0), d; double s = 0; for (size_t i = 1; i < Q.size(); i++) { P3 e = comb(Q[i], 1, Q[i - 1], -1); s = s + sqrt(dot3(e, e)); d.push_back(s); } for (double x : d) u.push_back(x / s); return u; }
static H4 evalAt(const LN_NurbsCurve& c, double u, int k = 0) { return curveAt(c, spanOf(c.KnotVector, c.Degree, u), u, k); }
HARNESS(hermite) {
  int n = sym_param("n", 4), id = sym_param("id", 0), cyc = sym_param("cyc", 0); VP3 Q = symShape(id, n), D; if (cyc) Q[n - 1] = Q[0]; for (int i = 0; i < n; i++) D.push_back(symP3(idx("d", i), 4)); if (cyc == 1) D[n - 1] = D[0]; if (cyc == 2) { double dx = D[0].X() - D[n - 1].X(); sym_assume_le(0.1, dx); } VD u = chordParams(Q); LN_NurbsCurve c; NurbsCurve::CreateCubicHermite(Q, D, c); sym_check("cubic", c.Degree == 3); if (!domainIs("Hermite spline", c, 0, 1)) return;
  for (int i = 0; i < n; i++) { H4 h = evalAt(c, u[i]), d = evalAt(c, u[i], 1); sym_check_eq("polynomial", h.w, 1.0, 1e-9); check3("passes through the point", P3(h.x, h.y, h.z), Q[i], 1e-7); check3("has the tangent", P3(d.x, d.y, d.z), D[i], 1e-7); } sym_reached("hermite");
}
HARNESS(interp_params) {   // explicit parameters, everything else symbolic
  sym_approx_sqrt(1); int p = sym_param("p", 3), n = sym_param("n", 5); VP3 Q; VD u; for (int i = 0; i < n; i++) { Q.push_back(symP3(idx("q", i))); static const double g[] = {0, 0.2, 0.45, 0.5, 0.8, 0.9, 1}; u.push_back(i == 0 ? 0.0 : i == n - 1 ? 1.0 : sym_param("uni", 0) ? i / (double)(n - 1) : g[i]); } LN_NurbsCurve c; NurbsCurve::GlobalInterpolation(p, Q, c, u); sym_check("degree as requested", c.Degree == p); sym_check("as many control points as points", (int)c.ControlPoints.size() == n); if (!domainIs("interpolating curve", c, 0, 1)) return; sym_check("clamped", clampedAt(c.KnotVector, p)); for (int i = 0; i < n; i++) { H4 h = evalAt(c, u[i]); sym_check_eq("polynomial", h.w, 1.0, 1e-9); check3("passes through the point at its parameter", P3(h.x, h.y, h.z), Q[i], 1e-6); } sym_reached("interpolation");
}
HARNESS(interp_chord) {
  sym_approx_sqrt(1); int p = sym_param("p", 3), n = sym_param("n", 5); VP3 Q = symShape(sym_param("id", 0), n); VD u = chordParams(Q); LN_NurbsCurve c; NurbsCurve::GlobalInterpolation(p, Q, c); sym_check("degree as requested", c.Degree == p); sym_check("as many control points as points", (int)c.ControlPoints.size() == n); if (!domainIs("interpolating curve", c, 0, 1)) return; for (int i = 0; i < n; i++) { H4 h = evalAt(c, u[i]); sym_check_eq("polynomial", h.w, 1.0, 1e-9); check3("passes through the point at its chord parameter", P3(h.x, h.y, h.z), Q[i], 1e-6); } sym_reached("chord interpolation");
}
HARNESS(interp_tangent) {
  sym_approx_sqrt(1); int p = sym_param("p", 3), n = sym_param("n", 4); VP3 Q = symShape(sym_param("id", 0), n), D; VD u = chordParams(Q); double f = rv("f", 0.25, 3); for (int i = 0; i < n; i++) D.push_back(symP3(idx("d", i), 4));
  LN_NurbsCurve c; NurbsCurve::GlobalInterpolation(p, Q, D, f, c); sym_check("degree as requested", c.Degree == p); if (!domainIs("tangent interpolating curve", c, 0, 1)) return; for (int i = 0; i < n; i++) { H4 h = evalAt(c, u[i]), d = evalAt(c, u[i], 1); check3("passes through the point", P3(h.x, h.y, h.z), Q[i], 1e-5); check3("derivative is the given tangent times the factor", P3(d.x, d.y, d.z), comb(D[i], f, D[i], 0), 1e-5); if (i > 0 && i < n - 1) { int s = spanOf(c.KnotVector, p, u[i]); while (c.KnotVector[s] >= u[i]) s--; H4 l = curveAt(c, s, u[i], 1); check3("tangent from the left", P3(l.x, l.y, l.z), comb(D[i], f, D[i], 0), 1e-5); } } sym_reached("tangent interpolation");
}
HARNESS(local_cubic) {
  sym_approx_sqrt(1); int n = sym_param("n", 5); VP3 Q = symShape(sym_param("id", 0), n); VD u = chordParams(Q); LN_NurbsCurve c; bool ok = NurbsCurve::CubicLocalInterpolation(Q, c); sym_check("five or more points succeed", ok); if (!ok) return; sym_check("cubic", c.Degree == 3); if (!domainIs("local cubic", c, 0, 1)) return; for (int i = 0; i < n; i++) { H4 h = evalAt(c, u[i]); check3("passes through the point", P3(h.x, h.y, h.z), Q[i], 1e-6); if (i > 0 && i < n - 1) { int s = spanOf(c.KnotVector, 3, u[i]), l = s; while (c.KnotVector[l] >= u[i]) l--; H4 a = curveAt(c, l, u[i], 1), b = curveAt(c, s, u[i], 1); P3 x = cross3(P3(a.x, a.y, a.z), P3(b.x, b.y, b.z)); check3("tangent direction continuous", x, P3(0, 0, 0), 1e-6); sym_check_le("no cusp", 0.0, dot3(P3(a.x, a.y, a.z), P3(b.x, b.y, b.z)), 1e-9); } } sym_reached("local cubic");
}
// three-point estimates: derivative of the parabola through consecutive points at their chord parameters
HARNESS(tangent3) {
  sym_approx_sqrt(1); int n = sym_param("n", 5), rep = sym_param("rep", -1); VP3 Q = symShape(sym_param("id", 0), n); if (rep >= 0) Q[rep + 1] = Q[rep]; VD u = chordParams(Q); auto T = Interpolation::ComputeTangent(Q); sym_check("one tangent per point", (int)T.size() == n); if ((int)T.size() != n) return; auto ch = [&](int i) { double d = u[i + 1] - u[i]; return comb(Q[i + 1], 1.0 / d, Q[i], -1.0 / d); };
  for (int i = 0; i < n; i++) { int m = i == 0 ? 1 : i == n - 1 ? n - 2 : i; bool l = u[m] - u[m - 1] > 0, r = u[m + 1] - u[m] > 0; P3 d; if (l && r) { double a = u[m] - u[m - 1], b = u[m + 1] - u[m]; d = comb(ch(m - 1), b / (a + b), ch(m), a / (a + b)); if (i == 0) d = comb(ch(0), 2, d, -1); if (i == n - 1) d = comb(ch(n - 2), 2, d, -1); } else { d = l ? ch(m - 1) : ch(m); if (i == 0 && l) d = comb(ch(0), 2, d, -1); if (i == n - 1 && r) d = comb(ch(n - 2), 2, d, -1); } check3("tangent estimate", T[i], d, 1e-6); } sym_reached("tangent3");
}
HARNESS(tangent5) {   // five-point estimates: unit vectors in the direction of the weighted neighbouring chords
  sym_approx_sqrt(1); int n = sym_param("n", 5), id = sym_param("id", 0); VP3 Q = symShape(id, n); std::vector<XYZ> T; bool ok = Interpolation::ComputeTangent(Q, T); sym_check("enough points", ok == (n >= 5)); if (!ok) return; std::vector<P3> q(n + 3); for (int i = 1; i < n; i++) q[i + 1] = comb(Q[i], 1, Q[i - 1], -1); q[1] = comb(q[2], 2, q[3], -1); q[0] = comb(q[1], 2, q[2], -1); q[n + 1] = comb(q[n], 2, q[n - 1], -1); q[n + 2] = comb(q[n + 1], 2, q[n], -1); auto len = [](const P3& a) { return sqrt(dot3(a, a)); };
  for (int k = 0; k < n; k++) { double b = len(cross3(q[k], q[k + 1])), a = len(cross3(q[k + 2], q[k + 3])); double al = b + a > 0 ? b / (b + a) : 0.5; P3 v = comb(q[k + 1], 1.0 - al, q[k + 2], al); sym_check_eq("unit tangent", dot3(T[k], T[k]), 1.0, 1e-7); double l = len(v); check3("tangent direction", T[k], comb(v, 1.0 / l, v, 0), 1e-6); } sym_reached("tangent5");
}
// ------------------------------------------------------------------------------------------ least squares
// the fit is the minimiser: residuals are orthogonal to every basis function of a free control point
HARNESS(lsq) {
  sym_approx_sqrt(1); int p = sym_param("p", 3), n = sym_param("n", 7), cn = sym_param("cn", 5); VP3 Q = symShape(sym_param("id", 3), n); VD u = chordParams(Q); LN_NurbsCurve c; bool ok = NurbsCurve::LeastSquaresApproximation(p, Q, cn, c); sym_check("least squares fit found", ok); if (!ok) return; sym_check("degree as requested", c.Degree == p); sym_check("as many control points as requested", (int)c.ControlPoints.size() == cn); if (!domainIs("least squares curve", c, 0, 1)) return; sym_check("clamped", clampedAt(c.KnotVector, p)); checkProj("starts at the first point", Q[0], h4(c.ControlPoints[0]), 1e-7); checkProj("ends at the last point", Q[n - 1], h4(c.ControlPoints.back()), 1e-7);
  std::vector<P3> R(n); for (int k = 0; k < n; k++) { H4 h = evalAt(c, u[k]); sym_check_eq("polynomial", h.w, 1.0, 1e-9); R[k] = comb(Q[k], 1, P3(h.x, h.y, h.z), -1); }
  for (int j = 1; j < cn - 1; j++) { P3 s(0, 0, 0); for (int k = 1; k < n - 1; k++) s = comb(s, 1, R[k], coxDeBoor(c.KnotVector, j, p, spanOf(c.KnotVector, p, u[k]), u[k])); check3("residual orthogonal to each free basis function", s, P3(0, 0, 0), 1e-6); } sym_reached("lsq");
}
// weighted: weight patterns; negative weight = the point (tangent) is met exactly
HARNESS(wlsq) {
  sym_approx_sqrt(1); int p = sym_param("p", 3), n = sym_param("n", 8), cn = sym_param("cn", 5), pat = sym_param("pat", 0); VP3 Q = symShape(sym_param("id", 3), n), D; VD u = chordParams(Q), w(n, 1.0), wt; std::vector<int> ti; static const double W[] = {2, 0.5, 3, 1, 1.5, 0.25, 4, 1}; for (int i = 0; i < n; i++) w[i] = W[i]; if (pat == 1 || pat == 3) w[0] = w[n - 1] = -1; if (pat == 4) w[3] = -1; if (pat == 5) w[2] = 0; if (pat == 6) w[0] = w[2] = w[5] = w[n - 1] = -1;
  if (pat >= 2) { ti = {n - 1, 0}; wt = {2.0, pat == 3 ? -1.0 : 0.5}; if (pat == 4) { ti = {3, 0}; wt = {3.0, -1.0}; } if (pat == 6) { ti = {0, 4, n - 1}; wt = {-1.0, 1.25, -1.0}; } for (size_t k = 0; k < ti.size(); k++) D.push_back(symP3(idx("d", (int)k), 4)); }
  LN_NurbsCurve c; bool ok = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, Q, w, D, ti, wt, cn, c); sym_check("weighted fit found", ok); if (!ok) return; sym_check("as many control points as requested", (int)c.ControlPoints.size() == cn); if (!domainIs("weighted fit", c, 0, 1)) return;
  // gradient of the weighted error must be a combination of the constraint rows: eliminate the multipliers through a basis of the constraints' null space
  VVD G; std::vector<P3> g(cn, P3(0, 0, 0)); auto row = [&](int k, int d) { VD r(cn); int s = spanOf(c.KnotVector, p, u[k]); for (int j = 0; j < cn; j++) r[j] = coxDeBoorD(c.KnotVector, j, p, s, u[k], d); return r; };
  auto add = [&](int k, int d, double wk, const P3& target) { H4 h = evalAt(c, u[k], d); P3 r = comb(target, 1, P3(h.x, h.y, h.z), -1); VD b = row(k, d); if (wk > 0) for (int j = 0; j < cn; j++) g[j] = comb(g[j], 1, r, wk * b[j]); else if (wk < 0) { G.push_back(b); check3(d ? "constrained tangent met" : "constrained point met", P3(h.x, h.y, h.z), target, 1e-6); } };
  for (int k = 0; k < n; k++) add(k, 0, w[k], Q[k]); for (size_t k = 0; k < ti.size(); k++) add(ti[k], 1, wt[k], D[k]);
  std::vector<int> piv; for (size_t r = 0; r < G.size(); r++) { int best = -1; for (int j = 0; j < cn; j++) { double a = G[r][j] < 0 ? -G[r][j] : G[r][j]; if (a > 1e-9 && (best < 0 || a > (G[r][best] < 0 ? -G[r][best] : G[r][best]))) best = j; } if (best < 0) continue; piv.push_back(best); for (size_t q = 0; q < G.size(); q++) if (q != r) { double f = G[q][best] / G[r][best]; for (int j = 0; j < cn; j++) G[q][j] = G[q][j] - f * G[r][j]; } double f = G[r][best]; for (int j = 0; j < cn; j++) G[r][j] = G[r][j] / f; }
  for (int j = 0; j < cn; j++) { bool isP = false; for (int q : piv) if (q == j) isP = true; if (isP) continue; P3 s = g[j]; for (size_t r = 0; r < piv.size(); r++) s = comb(s, 1, g[piv[r]], -G[r][j]); check3("weighted residual orthogonal to every free direction", s, P3(0, 0, 0), 1e-5); } sym_reached("wlsq");
}
// ------------------------------------------------------------------------------------------ parametrisation utilities
HARNESS(chord_params) {
  sym_approx_sqrt(1); int n = sym_param("n", 5), rep = sym_param("rep", -1), cen = sym_param("cen", 0); VP3 Q = symShape(sym_param("id", 3), n); if (rep >= 0) Q[rep + 1] = Q[rep]; if (rep == 99) for (auto& q : Q) q = Q[0]; if (sym_param("small", 0)) for (auto& q : Q) q = q * (1.0 / (1 << sym_param("small", 0))); VD len; double tot = 0; for (int i = 1; i < n; i++) { P3 e = comb(Q[i], 1, Q[i - 1], -1); double l = sqrt(dot3(e, e)); if (cen) l = sqrt(l); tot = tot + l; len.push_back(l); }
  VD u = cen ? Interpolation::GetCentripetalParameterization(Q) : Interpolation::GetChordParameterization(Q); sym_check("one parameter per point", (int)u.size() == n); if ((int)u.size() != n) return; sym_check_eq("total length", cen ? Interpolation::GetCentripetalLength(Q) : Interpolation::GetTotalChordLength(Q), tot, 1e-9); sym_check_eq("first parameter zero", u[0], 0.0, 1e-12); sym_check_eq("last parameter one", u[n - 1], 1.0, 1e-12); for (int i = 1; i < n; i++) sym_check_eq("parameter steps proportional to the chords", (u[i] - u[i - 1]) * tot, len[i - 1], 1e-9); sym_reached("chord params");
}
HARNESS(same_points_params) { int n = sym_param("n", 5); P3 q = symP3("q"); VP3 Q(n, q); for (int c = 0; c < 2; c++) { VD u = c ? Interpolation::GetCentripetalParameterization(Q) : Interpolation::GetChordParameterization(Q); sym_check("one parameter per point", (int)u.size() == n); if ((int)u.size() != n) return; for (int i = 0; i < n; i++) sym_check_eq("coincident points are spread evenly", u[i] * (n - 1), (double)i, 1e-9); } sym_reached("same points"); }
HARNESS(average_knots) {
  int p = sym_param("p", 3), n = sym_param("n", 6); VD u(1, 0.0); for (int i = 1; i < n - 1; i++) u.push_back(u.back() + rv(idx("g", i), 0.01, 0.2)); u.push_back(1.0 + 1.0); for (int i = 1; i < n; i++) u[i] = u[i] / 2.0; VD U = Interpolation::AverageKnotVector(p, u); sym_check("knot count", (int)U.size() == n + p + 1); if ((int)U.size() != n + p + 1) return; for (int i = 0; i <= p; i++) { sym_check_eq("clamped start", U[i], 0.0, 1e-12); sym_check_eq("clamped end", U[U.size() - 1 - i], 1.0, 1e-12); } for (int j = 1; j < n - p; j++) { double s = 0; for (int i = j; i < j + p; i++) s = s + u[i]; sym_check_eq("interior knot is the mean of degree parameters", U[p + j] * p, s, 1e-9); } sym_reached("average knots");
}
HARNESS(approx_knots) {   // every knot span of the approximation knot vector contains a parameter
  int p = sym_param("p", 3), m = sym_param("m", 8), cn = sym_param("cn", 6); VD u(1, 0.0); for (int i = 1; i < m - 1; i++) u.push_back(u.back() + rv(idx("g", i), 0.01, 0.2)); u.push_back(2.0); for (int i = 1; i < m; i++) u[i] = u[i] / 2.0; VD U = Interpolation::ComputeKnotVector(p, cn, u); sym_check("knot count", (int)U.size() == cn + p + 1); if ((int)U.size() != cn + p + 1) return; for (int i = 0; i <= p; i++) { sym_check_eq("clamped start", U[i], 0.0, 1e-12); sym_check_eq("clamped end", U[U.size() - 1 - i], 1.0, 1e-12); }
  for (int j = 1; j <= cn - 1 - p; j++) { long num = (long)j * m, den = cn - p; int i = (int)(num / den); double al = sym_const(num % den, den); sym_check_eq("interior knot between its parameters", U[p + j], (1.0 - al) * u[i - 1] + al * u[i], 1e-9); sym_check_le("nondecreasing", U[p + j - 1], U[p + j], 1e-12); } sym_reached("approx knots");
}
HARNESS(mesh_params) {
  sym_approx_sqrt(1); int n = sym_param("n", 4), m = sym_param("m", 3), deg = sym_param("deg", 0); // columns with different chord lengths: scale per column/row, translated
  P3 T(rv("Tx", 20, 30), -30, 40); std::vector<VP3> Q(n, VP3(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double x = i * i + i * (j + 1), y = j * 3.0 + j * j * (i % 2); if (deg == 1 && i == 0) y = 0; if (deg == 2 && j == m - 1) x = 1; Q[i][j] = comb(P3(x, y, (i * j) % 3), 1, T, 1); if (deg == 1 && i == 0) Q[i][j] = T; if (deg == 2 && j == m - 1) Q[i][j] = comb(T, 1, P3(1, 7, 0), 1); }
  std::vector<double> u, v; bool ok = Interpolation::GetSurfaceMeshParameterization(Q, u, v); sym_check("mesh parameters found", ok); if (!ok) return; sym_check("sizes", (int)u.size() == n && (int)v.size() == m); auto dist = [](const P3& a, const P3& b) { P3 e = comb(a, 1, b, -1); return sqrt(dot3(e, e)); };
  for (int dir = 0; dir < 2; dir++) { int a = dir ? m : n, b = dir ? n : m; auto at = [&](int i, int j) { return dir ? Q[j][i] : Q[i][j]; }; VD s(a, 0.0); int cnt = 0; for (int j = 0; j < b; j++) { double tot = 0; for (int i = 1; i < a; i++) tot = tot + dist(at(i, j), at(i - 1, j)); if (tot > 0) { cnt++; double d = 0; for (int i = 1; i < a; i++) { d = d + dist(at(i, j), at(i - 1, j)); s[i] = s[i] + d / tot; } } } for (int i = 0; i < a; i++) sym_check_eq("mean of the chord parameters of the non-degenerate lines", (dir ? v[i] : u[i]) * cnt, s[i], 1e-9); } sym_reached("mesh params");
}
HARNESS(quad_weight) {   // isosceles control triangle: the circular arc's weight; collinear: one
  sym_approx_sqrt(1); int col = sym_param("col", 0); P3 T(rv("Tx", 20, 30), -30, 40); double a = col ? 0.0 : sym_angle("a", 0.2, 1.3); double l = 2; P3 S = T, E = comb(T, 1, P3(2 * l * cos(a), 0, 0), 1), M = comb(T, 1, P3(l * cos(a), 0, l * sin(a)), 1); if (col) M = comb(T, 1, P3(sym_param("mx", 1), 0, 0), 1); double w = -9; bool ok = Interpolation::ComputerWeightForRationalQuadraticInterpolation(S, M, E, w); sym_check("weight found", ok); sym_check_eq("weight of the circular arc", w, col ? 1.0 : cos(a), 1e-6); sym_reached("quad weight");
}
// the smallest inputs of the parametrisation and tangent helpers
HARNESS(tiny_params) {
  P3 q = symP3("q"), r = symP3("r"); VP3 none, one(1, q), two{q, r}; sym_check("no point, no parameter", Interpolation::GetChordParameterization(none).empty() && Interpolation::GetCentripetalParameterization(none).empty() && Interpolation::ComputeTangent(none).empty());
  for (int c = 0; c < 2; c++) { VD u = c ? Interpolation::GetCentripetalParameterization(one) : Interpolation::GetChordParameterization(one); sym_check("one point, one parameter", u.size() == 1); if (u.size() != 1) return; sym_check_eq("the start", u[0], 0.0, 1e-12); u = c ? Interpolation::GetCentripetalParameterization(two) : Interpolation::GetChordParameterization(two); sym_check("two points, two parameters", u.size() == 2); if (u.size() != 2) return; sym_check_eq("first parameter zero", u[0], 0.0, 1e-12); sym_check_eq("last parameter one", u[1], 1.0, 1e-12); sym_check_eq("one point has no length", c ? Interpolation::GetCentripetalLength(one) : Interpolation::GetTotalChordLength(one), 0.0, 1e-12); }
  auto T = Interpolation::ComputeTangent(one); sym_check("one tangent for one point", T.size() == 1); if (T.size() != 1) return; check3("no direction from one point", T[0], P3(0, 0, 0), 1e-12); T = Interpolation::ComputeTangent(two); sym_check("two tangents for two points", T.size() == 2); if (T.size() != 2) return; for (int i = 0; i < 2; i++) check3("the chord", T[i], comb(r, 1, q, -1), 1e-9);
  std::vector<XYZ> t5; sym_check("five-point estimate needs five points", !Interpolation::ComputeTangent(two, t5)); LN_NurbsCurve c; sym_check("one point is its own curve", NurbsCurve::CubicLocalInterpolation(one, c) && c.Degree == 0 && c.ControlPoints.size() == 1 && c.KnotVector.size() == 2); if (c.ControlPoints.size() != 1) return; checkProj("at that point", q, h4(c.ControlPoints[0]), 1e-9); sym_check("too few points for the local cubic", !NurbsCurve::CubicLocalInterpolation(two, c)); sym_reached("tiny");
}
HARNESS(tangent3_same) {   // a point repeated three times has no direction there; every estimate stays the parabola's elsewhere
  sym_approx_sqrt(1); int n = sym_param("n", 6), at = sym_param("at", 2); VP3 Q = symShape(sym_param("id", 0), n); Q[at - 1] = Q[at]; Q[at + 1] = Q[at]; auto T = Interpolation::ComputeTangent(Q); sym_check("one tangent per point", (int)T.size() == n); if ((int)T.size() != n) return; check3("no direction inside a triple point", T[at], P3(0, 0, 0), 1e-9); VD u = chordParams(Q); auto ch = [&](int i) { double d = u[i + 1] - u[i]; return comb(Q[i + 1], 1.0 / d, Q[i], -1.0 / d); }; if (at > 1) check3("the chord before", T[at - 1], ch(at - 2), 1e-6); if (at < n - 2) check3("the chord after", T[at + 1], ch(at + 1), 1e-6); if (at == 1) check3("resting start", T[0], P3(0, 0, 0), 1e-9); if (at == n - 2) check3("resting end", T[n - 1], P3(0, 0, 0), 1e-9); sym_reached("triple point");
}
HARNESS(mesh_params_same) { P3 q = symP3("q"); int n = sym_param("n", 3), m = sym_param("m", 4), row = sym_param("row", 0); std::vector<VP3> Q(n, VP3(m, q)); if (row == 1) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Q[i][j] = comb(q, 1, P3(i, 0, 0), 1); if (row == 2) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Q[i][j] = comb(q, 1, P3(0, j, 0), 1); sym_approx_sqrt(1); std::vector<double> u, v; sym_check("a mesh without extent in one direction is refused", !Interpolation::GetSurfaceMeshParameterization(Q, u, v)); sym_reached("flat mesh"); }
HARNESS(quad_weight_any) {   // uneven control triangle: bisectors of the end angles cut the median at s1 and s2; w = s/(1-s) at their mean
  sym_approx_sqrt(1); P3 T(rv("Tx", 20, 30), -30, 40), e1, e2; tri(sym_param("tri", 0), e1, e2); P3 S = T, R = comb(T, 1, e1, 1), E = comb(T, 1, e2, 1), er = comb(e1, 1, e2, -1); double se = sqrt(dot3(e2, e2)), sr = sqrt(dot3(e1, e1)), l = sqrt(dot3(er, er)), s1 = se / (2 * sr + se), s2 = se / (2 * l + se), s = (s1 + s2) / 2.0, w = -9; bool ok = Interpolation::ComputerWeightForRationalQuadraticInterpolation(S, R, E, w); sym_check("weight found", ok); sym_check_eq("weight of the arc through the bisector points", w * (1.0 - s), s, 1e-6); sym_reached("uneven weight");
}
