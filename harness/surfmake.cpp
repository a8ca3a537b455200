// Creation of surfaces: bilinear, cylinder, ruled, revolved, scaling, sweeps, Coons, fillet; interpolation, approximation, loft, Gordon.
#include "common.h"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include "Interpolation.h"
#include "KnotVectorUtils.h"
#include "MathUtils.h"
#include "Matrix4d.h"
#include "LNEnums.h"
#include <cmath>
using namespace LNLib;
static double dot3(const P3& a, const P3& b) { return a.X() * b.X() + a.Y() * b.Y() + a.Z() * b.Z(); }
static P3 cross3(const P3& a, const P3& b) { return P3(a.Y() * b.Z() - a.Z() * b.Y(), a.Z() * b.X() - a.X() * b.Z(), a.X() * b.Y() - a.Y() * b.X()); }
static P3 comb(const P3& a, double s, const P3& b, double t) { return P3(a.X() * s + b.X() * t, a.Y() * s + b.Y() * t, a.Z() * s + b.Z() * t); }
static P3 unitDir(int k) { static const double D[][3] = {{1, 0, 0}, {0, -1, 0}, {1. / 3, 2. / 3, -2. / 3}, {0, 0.6, 0.8}, {6. / 7, -2. / 7, 3. / 7}, {-2. / 3, 1. / 3, 2. / 3}, {0, 0, 1}}; return P3(D[k % 7][0], D[k % 7][1], D[k % 7][2]); }
static P3 xyz(const H4& h) { return P3(h.x, h.y, h.z); }
static H4 mul(const H4& a, double s) { return {a.x * s, a.y * s, a.z * s, a.w * s}; }
static H4 add(const H4& a, const H4& b) { return {a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w}; }
static VD distinct(const VD& U) { VD r; for (double x : U) if (r.empty() || r.back() + 1e-9 < x) r.push_back(x); return r; }
// call f(span,u) with u symbolic over each whole span of U
template <class F> static void overSpans(const VD& U, int p, const char* tn, F f) { int n = (int)U.size() - p - 2; double t = rv(tn, 0, 1); for (int s = p; s <= n; s++) if (U[s] < U[s + 1]) f(s, U[s] + t * (U[s + 1] - U[s])); }
// homogeneous points a and b denote the same Cartesian point
static void samePoint(const char* w, const H4& a, const H4& b, double tol = 1e-7) { std::string s(w); sym_check_eq((s + ".x").c_str(), a.x * b.w, b.x * a.w, tol); sym_check_eq((s + ".y").c_str(), a.y * b.w, b.y * a.w, tol); sym_check_eq((s + ".z").c_str(), a.z * b.w, b.z * a.w, tol); }
HARNESS(bilinear) {
  P3 a = symP3("a"), b = symP3("b"), c = symP3("c"), d = symP3("d"); LN_NurbsSurface s; NurbsSurface::CreateBilinearSurface(a, b, c, d, s); if (!surfDomainIs("bilinear", s, 0, 1, 0, 1)) return; double tu = 0; (void)tu;
  overSpans(s.KnotVectorU, s.DegreeU, "u", [&](int su, double u) { overSpans(s.KnotVectorV, s.DegreeV, "v", [&](int sv, double v) { H4 h = surfH(s, su, sv, u, v); P3 e = comb(comb(a, 1.0 - u, c, u), 1.0 - v, comb(b, 1.0 - u, d, u), v); checkProj("bilinear point", e, h); }); }); sym_reached("bilinear");
}
HARNESS(cylinder) {   // quarter-turn multiples q: everything else symbolic
  int q = sym_param("q", 4), ax = sym_param("ax", 0); P3 X = ax == 0 ? P3(1, 0, 0) : ax == 1 ? P3(0, 2, 0) : P3(1, 2, 2), Y = ax == 0 ? P3(0, 1, 0) : ax == 1 ? P3(0, 0, 3) : P3(2, 1, -2); double lx = ax == 0 ? 1 : ax == 1 ? 2 : 3, ly = ax == 0 ? 1 : 3; P3 O = symP3("o", 5); double r = rv("r", 0.5, 4), h = rv("h", 0.5, 6), a0 = sym_pi(sym_param("a0", 0), 2), a1 = sym_pi(sym_param("a0", 0) + q, 2); LN_NurbsSurface s; bool ok = NurbsSurface::CreateCylindricalSurface(O, X, Y, a0, a1, r, h, s); sym_check("cylinder created", ok); if (!ok) return; if (!surfDomainIs("cylinder", s, 0, 1, 0, 1)) return; P3 ux = comb(X, 1 / lx, X, 0), uy = comb(Y, 1 / ly, Y, 0), n = cross3(ux, uy);
  overSpans(s.KnotVectorU, s.DegreeU, "u", [&](int su, double u) { overSpans(s.KnotVectorV, s.DegreeV, "v", [&](int sv, double v) { H4 g = surfH(s, su, sv, u, v); P3 d = comb(xyz(g), 1, O, -g.w); double px = dot3(d, ux), py = dot3(d, uy), pz = dot3(d, n); sym_check_eq("on the cylinder", px * px + py * py, r * r * g.w * g.w, 1e-7); sym_check_eq("height falls linearly in u", pz, g.w * h * (1.0 - u), 1e-7); }); });
  int n0 = (int)s.ControlPoints[0].size(); H4 st = h4(s.ControlPoints[0][0]), en = h4(s.ControlPoints[0][n0 - 1]); checkProj("start", comb(comb(O, 1, n, h), 1, comb(ux, cos(a0), uy, sin(a0)), r), st); checkProj("end", comb(comb(O, 1, n, h), 1, comb(ux, cos(a1), uy, sin(a1)), r), en); sym_check("pieces", (int)distinct(s.KnotVectorV).size() == q + 1);
  if (q == 1) { LN_NurbsSurface e; sym_check("bad cylinders rejected", throwsAny([&] { NurbsSurface::CreateCylindricalSurface(O, P3(0.0, 0.0, 0.0), Y, a0, a1, r, h, e); }) && throwsAny([&] { NurbsSurface::CreateCylindricalSurface(O, X, Y, a1, a0, r, h, e); }) && throwsAny([&] { NurbsSurface::CreateCylindricalSurface(O, X, Y, a0, a1, -r, h, e); }) && throwsAny([&] { NurbsSurface::CreateCylindricalSurface(O, X, Y, a0, a1, r, -h, e); })); } sym_reached("cylinder");
}
static LN_NurbsCurve crv(const char* n, int p, int kv, int w) { return mkCurve(n, p, knotPattern(p, kv), w); }
HARNESS(ruled) {
  LN_NurbsCurve a = crv("A", sym_param("p", 2), sym_param("ka", 0), sym_param("w", 1)), b = crv("B", sym_param("q", 2), sym_param("kb", 0), sym_param("w", 1)); LN_NurbsSurface s; NurbsSurface::CreateRuledSurface(a, b, s); double lo = a.KnotVector[0], hi = a.KnotVector.back(); if (!surfDomainIs("ruled", s, lo, hi, 0, 1)) return; sym_check("ruled degrees", s.DegreeU == (a.Degree > b.Degree ? a.Degree : b.Degree) && s.DegreeV == 1);
  VD br = elementary(elementary(a.KnotVector, b.KnotVector, lo, hi), s.KnotVectorU, lo, hi); double t = rv("t", 0, 1), v = rv("v", 0, 1); for (size_t i = 0; i + 1 < br.size(); i++) { int sa = spanEnclosing(a.KnotVector, a.Degree, br[i], br[i + 1]), sb = spanEnclosing(b.KnotVector, b.Degree, br[i], br[i + 1]), ss = spanEnclosing(s.KnotVectorU, s.DegreeU, br[i], br[i + 1]); double u = br[i] + t * (br[i + 1] - br[i]); checkH("ruling joins the two curves at the same parameter", surfH(s, ss, 1, u, v), add(mul(curveAt(a, sa, u), 1.0 - v), mul(curveAt(b, sb, u), v)), 1e-6); }
  LN_NurbsCurve c = b; for (double& x : c.KnotVector) x = x + 0.5; LN_NurbsSurface e; sym_check("different ranges rejected", throwsAny([&] { NurbsSurface::CreateRuledSurface(a, c, e); })); sym_reached("ruled");
}
HARNESS(revolved) {   // q quarter turns (or a symbolic sweep of na pieces), symbolic profile, axis of any length
  int q = sym_param("q", 4), ax = sym_param("ax", 6), na = sym_param("na", 0); double al = sym_param("al", 1); P3 A = unitDir(ax); int p = sym_param("p", 1); P3 O = sym_param("o", 1) ? symP3("o", 4) : P3(0, 0, 0); double w = sym_param("w", 1); LN_NurbsCurve c; c.Degree = p; c.KnotVector = knotPattern(p, sym_param("k", 0)); int n = (int)c.KnotVector.size() - p - 1; P3 e1 = ax == 6 ? P3(1, 0, 0) : ax == 0 ? P3(0, 1, 0) : ax == 3 ? P3(1, 0, 0) : P3(2. / 3, 1. / 3, 2. / 3), e2 = cross3(A, e1); static const double W[] = {1, 2, 0.5, 1.5};
  VD rad, hgt; for (int i = 0; i < n; i++) { double r = sym_param("pole", 0) && i == 0 ? 0.0 : rv(idx("r", i), 0.5, 4), h = rv(idx("h", i), -4, 4), wi = w ? W[i % 4] : 1.0; int k = i % 3; P3 dir = k == 0 ? e1 : k == 1 ? e2 : comb(e1, 0.6, e2, -0.8); P3 g = comb(O, 1, comb(A, h, dir, r), 1); c.ControlPoints.push_back(PW(g.X() * wi, g.Y() * wi, g.Z() * wi, wi)); }
  double half, sweep; if (na) { half = sym_angle("half", na == 1 ? 0.05 : 0.7854 * (na - 1) / na + 0.01, 0.785); sweep = 2 * na * half; } else { int sg = sym_param("neg", 0) ? -1 : 1; sweep = sym_pi(sg * q, 2); half = sym_pi(sg, 4); na = q; } LN_NurbsSurface s; bool ok = NurbsSurface::CreateRevolvedSurface(O, comb(A, al, A, 0), sweep, c, s); sym_check("revolved", ok); if (!ok) return; double lo = c.KnotVector[0], hi = c.KnotVector.back(); if (!surfDomainIs("revolved", s, 0, 1, lo, hi)) return; sym_check("degrees", s.DegreeU == 2 && s.DegreeV == p && (int)s.ControlPoints.size() == 2 * na + 1);
  double tv = rv("v", 0, 1), tu = rv("u", 0, 1); for (int sv = p; sv < n; sv++) if (c.KnotVector[sv] < c.KnotVector[sv + 1]) { double v = c.KnotVector[sv] + tv * (c.KnotVector[sv + 1] - c.KnotVector[sv]); H4 g = curveAt(c, sv, v); P3 d0 = comb(xyz(g), 1, O, -g.w); double h0 = dot3(d0, A); P3 x0 = comb(d0, 1, A, -h0), y0 = cross3(A, x0); int k = 0;
    for (int su = 2; su < (int)s.ControlPoints.size(); su++) if (s.KnotVectorU[su] < s.KnotVectorU[su + 1]) { double ua = s.KnotVectorU[su], ub = s.KnotVectorU[su + 1]; for (int m = 0; m <= 2; m++) { double u = ua + (ub - ua) * 0.5 * m, th = (2 * k + m) * half; H4 f = surfH(s, su, sv, u, v); P3 e = comb(comb(O, g.w, A, h0), 1, comb(x0, cos(th), y0, sin(th)), 1); samePoint("profile point rotated by the angle", f, {e.X(), e.Y(), e.Z(), g.w}, 1e-6); }
      if (sym_param("circ", 1)) { double u = ua + tu * (ub - ua); H4 f = surfH(s, su, sv, u, v); P3 d = comb(xyz(f), 1, O, -f.w); sym_check_eq("height along the axis kept", dot3(d, A) * g.w, h0 * f.w, 1e-6); double dh = dot3(d, A); P3 x = comb(d, 1, A, -dh); sym_check_eq("distance from the axis kept", dot3(x, x) * g.w * g.w, dot3(x0, x0) * f.w * f.w, 1e-6); } k++; } }
  sym_reached("revolved");
}
HARNESS(scaling) {
  int zero = sym_param("zero", 0); int p = sym_param("p", 1), q = sym_param("q", 2); LN_NurbsSurface s = mkSurf("P", p, q, knotPattern(p, sym_param("ku", 0)), knotPattern(q, sym_param("kv", 0)), sym_param("w", 1)); double fx = rv("fx", -3, 3), fy = rv("fy", -3, 3), fz = rv("fz", -3, 3); P3 O = zero ? P3(0, 0, 0) : P3(rv("ox", 1, 5), rv("oy", 1, 5), rv("oz", -5, -1)); auto R = NurbsSurface::NonUniformScaling(s.ControlPoints, fx, fy, fz, O); bool ok = R.size() == s.ControlPoints.size() && R[0].size() == s.ControlPoints[0].size(); sym_check("net size kept", ok); if (!ok) return; for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < R[i].size(); j++) { H4 o = h4(s.ControlPoints[i][j]), r = h4(R[i][j]); sym_check_eq("weight kept", r.w, o.w, 1e-9); sym_check_eq("scaled about the reference point.x", r.x, fx * o.x + (1.0 - fx) * O.X() * o.w, 1e-6); sym_check_eq("scaled about the reference point.y", r.y, fy * o.y + (1.0 - fy) * O.Y() * o.w, 1e-6); sym_check_eq("scaled about the reference point.z", r.z, fz * o.z + (1.0 - fz) * O.Z() * o.w, 1e-6); } sym_reached("scaling");
}
HARNESS(trans_sweep) {
  LN_NurbsCurve a = crv("A", sym_param("p", 2), sym_param("ka", 0), sym_param("w", 1)), b = crv("B", sym_param("q", 1), sym_param("kb", 0), sym_param("w", 1)); LN_NurbsSurface s; NurbsSurface::CreateGeneralizedTranslationalSweepSurface(a, b, s); if (!surfDomainIs("sweep", s, a.KnotVector[0], a.KnotVector.back(), b.KnotVector[0], b.KnotVector.back())) return; sym_check("sweep shape", s.DegreeU == a.Degree && s.DegreeV == b.Degree && s.ControlPoints.size() == a.ControlPoints.size() && s.ControlPoints[0].size() == b.ControlPoints.size()); overSpans(a.KnotVector, a.Degree, "u", [&](int su, double u) { overSpans(b.KnotVector, b.Degree, "v", [&](int sv, double v) { H4 f = surfH(s, su, sv, u, v), g = curveAt(a, su, u), h = curveAt(b, sv, v); checkH("sum of profile and trajectory", f, {g.x * h.w + h.x * g.w, g.y * h.w + h.y * g.w, g.z * h.w + h.z * g.w, g.w * h.w}, 1e-6); }); }); sym_reached("trans sweep");
}
HARNESS(coons) {   // left: top-left -> bottom-left, bottom -> right, right: up, top: back (anti-clockwise)
  int pl = sym_param("pl", 3), pb = sym_param("pb", 2), pr = sym_param("pr", 1), pt = sym_param("pt", 2), k = sym_param("k", 0), w = sym_param("w", 0); P3 c[4] = {P3(rv("c0x", -9, -1), rv("c0y", 1, 9), 1), P3(rv("c1x", -9, -1), rv("c1y", -9, -1), 2), P3(rv("c2x", 1, 9), rv("c2y", -9, -1), 3), P3(rv("c3x", 1, 9), rv("c3y", 1, 9), 4)}; auto mk = [&](const char* n, int p, int kv, const P3& a, const P3& b) { LN_NurbsCurve q = mkCurve(n, p, knotPattern(p, kv), w); q.ControlPoints.front() = PW(a, 1.0); q.ControlPoints.back() = PW(b, 1.0); return q; };
  int ks = sym_param("ks", -1), kl = k, kb = k == 1 ? 2 : 0, kr = 0, kt = k == 2 ? 1 : 0; if (ks >= 0) { kl = ks / 1000 % 10; kb = ks / 100 % 10; kr = ks / 10 % 10; kt = ks % 10; }
  LN_NurbsCurve L = mk("L", pl, kl, c[0], c[1]), B = mk("B", pb, kb, c[1], c[2]), R = mk("R", pr, kr, c[2], c[3]), T = mk("T", pt, kt, c[3], c[0]); LN_NurbsSurface s; NurbsSurface::CreateCoonsSurface(L, B, R, T, s); if (!surfDomainIs("coons", s, 0, 1, 0, 1)) return;
  auto edge = [&](const char* n, const LN_NurbsCurve& g, bool rev, bool alongU, double fixed, const char* tn) { VD gk = g.KnotVector; VD kk; double lo = gk[0], hi = gk.back(); for (double x : gk) kk.push_back((x - lo) / (hi - lo)); if (rev) { VD z; for (size_t i = kk.size(); i-- > 0;) z.push_back(1.0 - kk[i]); kk = z; } LN_NurbsCurve c2 = g; c2.KnotVector = kk; if (rev) { VPW z; for (size_t i = g.ControlPoints.size(); i-- > 0;) z.push_back(g.ControlPoints[i]); c2.ControlPoints = z; } const VD& SU = alongU ? s.KnotVectorU : s.KnotVectorV; VD br = elementary(kk, SU, 0, 1); double t = rv(tn, 0, 1); for (size_t i = 0; i + 1 < br.size(); i++) { int sg = spanEnclosing(kk, g.Degree, br[i], br[i + 1]), ss = spanEnclosing(SU, alongU ? s.DegreeU : s.DegreeV, br[i], br[i + 1]); double u = br[i] + t * (br[i + 1] - br[i]); int fu = fixed > 0.5 ? (int)(alongU ? s.ControlPoints[0].size() : s.ControlPoints.size()) - 1 : (alongU ? s.DegreeV : s.DegreeU); H4 f = alongU ? surfH(s, ss, fu, u, fixed) : surfH(s, fu, ss, fixed, u); samePoint(n, f, curveAt(c2, sg, u), 1e-6); } };
  // left (run backwards) along u at v=0, right along u at v=1, bottom along v at u=0, top (run backwards) along v at u=1
  edge("left edge", L, true, true, 0, "tl"); edge("right edge", R, false, true, 1, "tr"); edge("bottom edge", B, false, false, 0, "tb"); edge("top edge", T, true, false, 1, "tt"); sym_reached("coons");
}
HARNESS(fillet) {   // great-circle arc of the sphere of radius R that touches the plane z=0 in the origin, turned about the z axis by a symbolic angle
  sym_approx_sqrt(1); double R = sym_param("sr", 0) ? rv("R", 0.5, 4) : sym_param("R", 2), c = 1, s = 0; if (sym_param("rot", 1)) { double f = sym_angle("f", -3, 3); c = cos(f); s = sin(f); } int k = sym_param("k", 0); double a = k == 1 ? 0.28 : k == 2 ? 0.8 : 0.6, b = k == 1 ? 0.96 : k == 2 ? 0.6 : 0.8; P3 X(c, s, 0.0), Y(-a * s, a * c, sym_param("up", 1) ? b : -b), O(0.0, 0.0, R); double a0 = sym_pi(sym_param("a0", 0), 12), a1 = sym_pi(sym_param("a1", 6), 12); LN_NurbsCurve arc; bool ok = NurbsCurve::CreateArc(O, X, Y, a0, a1, R, R, arc); if (!ok) return; LN_NurbsSurface f; NurbsSurface::MakeCornerFilletSurface(arc, f); if (!surfDomainIs("fillet", f, 0, 1, 0, 1)) return; sym_check("one rational patch", f.ControlPoints.size() == (size_t)f.DegreeU + 1 && f.ControlPoints[0].size() == (size_t)f.DegreeV + 1);
  double u = rv("u", 0, 1), v = rv("v", 0, 1); H4 h = surfH(f, f.DegreeU, f.DegreeV, u, v); P3 d = comb(xyz(h), 1, O, -h.w); sym_check_eq("every point on the sphere", dot3(d, d), R * R * h.w * h.w, 1e-6); P3 N = cross3(X, Y); H4 e = surfH(f, f.DegreeU, f.DegreeV, u, 1.0); sym_check_eq("boundary in the plane of the arc", dot3(comb(xyz(e), 1, O, -e.w), N), 0.0, 1e-6); H4 z = surfH(f, f.DegreeU, f.DegreeV, u, 0.0); samePoint("opposite corner at the origin", z, {0, 0, 0, 1}, 1e-6); samePoint("boundary starts at the arc start", surfH(f, f.DegreeU, f.DegreeV, 0.0, 1.0), h4(arc.ControlPoints.front()), 1e-6); samePoint("boundary ends at the arc end", surfH(f, f.DegreeU, f.DegreeV, 1.0, 1.0), h4(arc.ControlPoints.back()), 1e-6); H4 m = surfH(f, f.DegreeU, f.DegreeV, 0.5, 1.0); P3 md = comb(xyz(m), 1, O, -m.w), mm = comb(X, cos((a0 + a1) / 2), Y, sin((a0 + a1) / 2)); sym_check("boundary covers the arc, not its complement", dot3(md, mm) * m.w > 0.0); sym_reached("fillet");
}
HARNESS(coons_bad) { P3 a(0, 1, 0), b(0, 0, 0), c(1, 0, 0), d(1, 1, 0); P3 e(1 + rv("e", 0.1, 2), 0, 0); int k = sym_param("k", 0); auto ln = [](const P3& s, const P3& t) { LN_NurbsCurve q; NurbsCurve::CreateLine(s, t, q); return q; }; LN_NurbsSurface s; bool thr = throwsAny([&] { NurbsSurface::CreateCoonsSurface(k == 5 ? ln(a, e) : k == 6 ? ln(e, b) : ln(a, b), k == 0 ? ln(b, e) : k == 7 ? ln(e, c) : ln(b, c), k == 1 ? ln(e, d) : k == 8 ? ln(c, e) : ln(c, d), k == 2 ? ln(e, a) : k == 4 ? ln(d, e) : ln(d, a), s); }); sym_check("unconnected corners rejected", thr == (k != 3)); sym_reached("coons bad"); }
// ---- interpolation / approximation / loft / Gordon --------------------------------------------------------------------
static H4 surfEval(const LN_NurbsSurface& s, double u, double v, int k = 0, int l = 0) { return surfH(s, spanOf(s.KnotVectorU, s.DegreeU, u), spanOf(s.KnotVectorV, s.DegreeV, v), u, v, k, l); }
// polylines with concrete chord lengths and symbolic directions (planar); eq: all chords equal
static VP3 polyline(const char* n, int cnt, int plane, bool eq) { VP3 r; P3 q = symP3(std::string(n) + "0", 4); r.push_back(q); static const double L[] = {1, 2, 1.5, 3, 0.5, 2.5, 1}; for (int i = 1; i < cnt; i++) { double l = eq ? 2.0 : L[(i - 1) % 7]; if (i > sym_param("free", 9)) { static const double C[][2] = {{0.6, 0.8}, {0.8, -0.6}, {1, 0}, {0.28, 0.96}, {0.96, -0.28}}; const double* c = C[(i + plane) % 5]; q = comb(q, 1, plane == 0 ? P3(l * c[0], l * c[1], 0.0) : P3(0.0, l * c[1], l * c[0]), 1); r.push_back(q); continue; } double a = sym_angle((std::string(n) + "a" + std::to_string(i)).c_str(), -1.2, 1.2); P3 d = plane == 0 ? P3(l * cos(a), l * sin(a), 0.0) : P3(0.0, l * sin(a), l * cos(a)); q = comb(q, 1, d, 1); r.push_back(q); } return r; }
static VD chordsOf(int cnt, bool eq) { static const double L[] = {1, 2, 1.5, 3, 0.5, 2.5, 1}; VD r; r.push_back(0); double t = 0; for (int i = 1; i < cnt; i++) { t += eq ? 2.0 : L[(i - 1) % 7]; r.push_back(t); } for (double& x : r) x = x / t; return r; }
static std::vector<VP3> gridOf(int id, int n, int m, VD& u, VD& v) {   // id 0: translational grid of two symbolic polylines; 1,2: concrete shapes translated symbolically
  std::vector<VP3> Q(n, VP3(m)); u.assign(n, 0.0); v.assign(m, 0.0);
  if (id == 0) { VP3 a = polyline("A", n, 0, false), b = polyline("B", m, 1, false); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Q[i][j] = comb(a[i], 1, b[j], 1); u = chordsOf(n, false); v = chordsOf(m, false); return Q; }
  P3 T(rv("Tx", 20, 30), rv("Ty", -30, -20), rv("Tz", 1, 5)); std::vector<VP3> C(n, VP3(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { C[i][j] = id == 1 ? P3(i * 2.0 + (j % 2), j * 3.0 + i * i * 0.25, (i * j) % 3 * 1.0) : P3(i * i + i * (j + 1.0), j * 3.0 + j * j * (i % 2), (i * 3 + j) % 4 * 0.5); Q[i][j] = comb(C[i][j], 1, T, 1); }
  auto dist = [](const P3& a, const P3& b) { P3 e = comb(a, 1, b, -1); return sqrt(dot3(e, e)); };
  for (int j = 0; j < m; j++) { double t = 0, d = 0; for (int i = 1; i < n; i++) t = t + dist(C[i][j], C[i - 1][j]); for (int i = 1; i < n; i++) { d = d + dist(C[i][j], C[i - 1][j]); u[i] = u[i] + d / t / m; } }
  for (int i = 0; i < n; i++) { double t = 0, d = 0; for (int j = 1; j < m; j++) t = t + dist(C[i][j], C[i][j - 1]); for (int j = 1; j < m; j++) { d = d + dist(C[i][j], C[i][j - 1]); v[j] = v[j] + d / t / n; } }
  u[n - 1] = 1.0; v[m - 1] = 1.0; return Q;
}
HARNESS(surf_interp) {
  sym_approx_sqrt(1); int n = sym_param("n", 4), m = sym_param("m", 4), p = sym_param("p", 2), q = sym_param("q", 2); VD u, v; auto Q = gridOf(sym_param("id", 0), n, m, u, v); LN_NurbsSurface s; NurbsSurface::GlobalInterpolation(Q, p, q, s); sym_check("degrees as requested", s.DegreeU == p && s.DegreeV == q); if (!surfDomainIs("interpolating surface", s, 0, 1, 0, 1)) return; sym_check("as many control points as data", (int)s.ControlPoints.size() == n && (int)s.ControlPoints[0].size() == m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { H4 h = surfEval(s, u[i], v[j]); sym_check_eq("polynomial", h.w, 1.0, 1e-9); check3("passes through the point at its mesh parameters", xyz(h), Q[i][j], 1e-6); } LN_NurbsSurface e; sym_check("too few points rejected", throwsAny([&] { NurbsSurface::GlobalInterpolation(Q, n, q, e); }) && throwsAny([&] { NurbsSurface::GlobalInterpolation(Q, p, m, e); })); sym_reached("surface interpolation");
}
HARNESS(bicubic_local) {
  sym_approx_sqrt(1); int n = sym_param("n", 5), m = sym_param("m", 5); VD u, v; auto Q = gridOf(sym_param("id", 0), n, m, u, v); LN_NurbsSurface s; bool ok = NurbsSurface::BicubicLocalInterpolation(Q, s); sym_check("succeeds", ok); if (!ok) return; sym_check("bicubic", s.DegreeU == 3 && s.DegreeV == 3); if (!surfDomainIs("local bicubic", s, 0, 1, 0, 1)) return; VD bu = distinct(s.KnotVectorU), bv = distinct(s.KnotVectorV); sym_check("one patch per data cell", (int)bu.size() == n && (int)bv.size() == m); if ((int)bu.size() != n || (int)bv.size() != m) return; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { H4 h = surfEval(s, bu[i], bv[j]); check3("passes through the point", xyz(h), Q[i][j], 1e-6); }
  for (int j = 0; j < m; j++) { VP3 c; double len = 0; for (int i = 0; i < n; i++) c.push_back(Q[i][j]); for (int i = 1; i < n; i++) { P3 e = comb(c[i], 1, c[i - 1], -1); len = len + sqrt(dot3(e, e)); } VP3 T = Interpolation::ComputeTangent(c); for (int i = 0; i < n; i++) check3("tangent along u", xyz(surfEval(s, bu[i], bv[j], 1, 0)), comb(T[i], len, T[i], 0), 1e-5); }
  for (int i = 0; i < n; i++) { double len = 0; for (int j = 1; j < m; j++) { P3 e = comb(Q[i][j], 1, Q[i][j - 1], -1); len = len + sqrt(dot3(e, e)); } VP3 T = Interpolation::ComputeTangent(Q[i]); for (int j = 0; j < m; j++) check3("tangent along v", xyz(surfEval(s, bu[i], bv[j], 0, 1)), comb(T[j], len, T[j], 0), 1e-5); } sym_reached("local bicubic");
}
HARNESS(surf_approx) {   // on a translational grid the fit is the sum of the two curve fits
  sym_approx_sqrt(1); sym_generic(1); int n = sym_param("n", 6), m = sym_param("m", 7), p = sym_param("p", 2), q = sym_param("q", 3), cr = sym_param("cr", 4), cc = sym_param("cc", 5); VP3 a = polyline("A", n, 0, false), b = polyline("B", m, 1, false); std::vector<VP3> Q(n, VP3(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Q[i][j] = comb(a[i], 1, b[j], 1); LN_NurbsSurface s; bool ok = NurbsSurface::GlobalApproximation(Q, p, q, cr, cc, s); sym_check("fit found", ok); if (!ok) return; sym_check("degrees as requested", s.DegreeU == p && s.DegreeV == q); if (!surfDomainIs("surface fit", s, 0, 1, 0, 1)) return; sym_check("control points as requested", (int)s.ControlPoints.size() == cr && (int)s.ControlPoints[0].size() == cc);
  check3("first corner", xyz(h4(s.ControlPoints[0][0])), Q[0][0], 1e-6); check3("corner", xyz(h4(s.ControlPoints[cr - 1][0])), Q[n - 1][0], 1e-6); check3("corner", xyz(h4(s.ControlPoints[0][cc - 1])), Q[0][m - 1], 1e-6); check3("last corner", xyz(h4(s.ControlPoints[cr - 1][cc - 1])), Q[n - 1][m - 1], 1e-6); LN_NurbsCurve fa, fb; bool o2 = NurbsCurve::LeastSquaresApproximation(p, a, cr, fa) && NurbsCurve::LeastSquaresApproximation(q, b, cc, fb); if (!o2) return; bool sz = fa.KnotVector.size() == s.KnotVectorU.size() && fb.KnotVector.size() == s.KnotVectorV.size(); sym_check("knots of the two curve fits", sz); if (!sz) return; for (size_t i = 0; i < fa.KnotVector.size(); i++) sym_check_eq("U knots of the curve fit", s.KnotVectorU[i], fa.KnotVector[i], 1e-9); for (size_t i = 0; i < fb.KnotVector.size(); i++) sym_check_eq("V knots of the curve fit", s.KnotVectorV[i], fb.KnotVector[i], 1e-9); for (int i = 0; i < cr; i++) for (int j = 0; j < cc; j++) check3("sum of the two curve fits", xyz(h4(s.ControlPoints[i][j])), comb(xyz(h4(fa.ControlPoints[i])), 1, xyz(h4(fb.ControlPoints[j])), 1), 1e-6); sym_reached("surface fit");
}
HARNESS(loft) {   // id 0: translated copies of a symbolic section (chord parameters); 1: unrelated symbolic sections, given parameters; 2: concrete sections translated symbolically
  sym_approx_sqrt(1); int id = sym_param("id", 0), K = sym_param("K", 4), p = sym_param("p", 2), kv = sym_param("kv", 1), w = sym_param("w", 0), mix = sym_param("mix", 0), q = sym_param("q", 2); std::vector<LN_NurbsCurve> sec; VD v = id == 1 ? VD{0, 0.25, 0.625, 0.75, 0.875} : chordsOf(K, false); static const double W[] = {1, 2, 0.5, 1.5, 3, 0.75, 1.25}; if (id == 1) { v.resize(K); v.back() = 1.0; }
  VP3 T = id == 0 ? polyline("T", K, 1, false) : VP3(K, P3(0, 0, 0)); VP3 base; for (int k = 0; k < K; k++) { int pk = mix && k == 1 ? p - 1 : p; VD U = knotPattern(pk, mix == 2 && k == 2 ? 5 : kv); int n = (int)U.size() - pk - 1; LN_NurbsCurve c; c.Degree = pk; c.KnotVector = U; for (int i = 0; i < n; i++) { P3 g; if (id == 0) { if (k == 0) base.push_back(symP3(idx("b", i), 4)); g = comb(base[i], 1, T[k], 1); } else if (id == 1) g = symP3(idx("s", k, i), 4); else { int kk = sym_param("still", -1) == i ? 0 : k; g = P3(i * 2.0 + kk * 0.5 + rv("Tx", 1, 5), (i * 3 + kk) % 4 + 1.0, kk * 3.0 + i % 2); } double wi = w == 0 ? 1.0 : w == 1 ? W[i % 7] : W[(i + 2 * k) % 7]; c.ControlPoints.push_back(PW(g.X() * wi, g.Y() * wi, g.Z() * wi, wi)); } sec.push_back(c); }
  LN_NurbsSurface s; if (id == 1) NurbsSurface::CreateLoftSurface(sec, s, q, v); else NurbsSurface::CreateLoftSurface(sec, s); bool wf = wellFormed(s); sym_check("loft well formed", wf); if (!wf) return; sym_check("degrees", s.DegreeU == p && s.DegreeV == (id == 1 ? q : p)); sym_check_eq("v range starts at 0", s.KnotVectorV[0], 0.0, 1e-9); sym_check_eq("v range ends at 1", s.KnotVectorV.back(), 1.0, 1e-9);
  if (id == 2) { auto dist = [](const P3& a, const P3& b) { P3 e = comb(a, 1, b, -1); return sqrt(dot3(e, e)); }; int n = (int)sec[0].ControlPoints.size(), mv = n - (sym_param("still", -1) >= 0 ? 1 : 0); VD vv(K, 0.0); for (int i = 0; i < n; i++) { if (i == sym_param("still", -1)) continue; double t = 0, d = 0; auto at = [&](int k) { H4 h = h4(sec[k].ControlPoints[i]); return P3(h.x / h.w, h.y / h.w, h.z / h.w); }; for (int k = 1; k < K; k++) t = t + dist(at(k), at(k - 1)); for (int k = 1; k < K; k++) { d = d + dist(at(k), at(k - 1)); vv[k] = vv[k] + d / t / mv; } } vv[K - 1] = 1.0; v = vv; }
  double t = rv("t", 0, 1); for (int k = 0; k < K; k++) { VD br = elementary(sec[k].KnotVector, s.KnotVectorU, sec[k].KnotVector[0], sec[k].KnotVector.back()); int sv = spanOf(s.KnotVectorV, s.DegreeV, v[k]); for (size_t i = 0; i + 1 < br.size(); i++) { double u = br[i] + t * (br[i + 1] - br[i]); H4 f = surfH(s, spanEnclosing(s.KnotVectorU, s.DegreeU, br[i], br[i + 1]), sv, u, v[k]); samePoint("the section lies on the surface", f, curveAt(sec[k], spanEnclosing(sec[k].KnotVector, sec[k].Degree, br[i], br[i + 1]), u), 1e-6); } } sym_reached("loft");
}
HARNESS(gordon) {   // network with intersections at even parameters; between the intersections each curve passes through a point of its own (bump), so the curves differ in shape and knots
  sym_approx_sqrt(1); int N = sym_param("N", 4), M = sym_param("M", 4), p = sym_param("p", 3), q = sym_param("q", 3), bump = sym_param("bump", 1), free = sym_param("bf", 1); int lin = sym_param("lin", 0); VP3 a, b; if (lin & 1) { P3 o = symP3("A0", 4); double k = 2.0; for (int j = 0; j < M; j++) a.push_back(comb(o, 1, P3(0.6, 0.0, 0.8), k * j)); } else a = polyline("A", M, 0, true); if (lin & 2) { P3 o = symP3("B0", 4); for (int i = 0; i < N; i++) b.push_back(comb(o, 1, P3(0.0, 0.8, 0.6), 1.5 * i)); } else b = polyline("B", N, 1, true); VD pu, pv; for (int j = 0; j < M; j++) pu.push_back(j / (double)(M - 1)); for (int i = 0; i < N; i++) pv.push_back(i / (double)(N - 1)); std::vector<VP3> X(N, VP3(M)); for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) X[i][j] = comb(a[j], 1, b[i], 1);
  int mix = sym_param("mix", 0), rep = sym_param("rep", 0);
  auto curve = [&](const char* n, int k, int deg, const VP3& pts, const VD& par) { LN_NurbsCurve c; VP3 P; VD T; int at = k % ((int)par.size() - 1); for (size_t i = 0; i < par.size(); i++) { P.push_back(pts[i]); T.push_back(par[i]); if (bump && (int)i == at) { P3 m = k < free ? symP3(idx(n, k), 5) : comb(pts[i], 1, P3(k - 1.0, 0.5 * k, 1.0 + k), 1); P.push_back(m); T.push_back(par[i] + (par[i + 1] - par[i]) * 0.5); } } NurbsCurve::GlobalInterpolation(deg, P, c, T); return c; };
  std::vector<LN_NurbsCurve> uc, vc; auto line = [&](const VP3& pts, int deg) { LN_NurbsCurve c; c.Degree = deg; c.KnotVector = clampedKnots(deg, {0, 1}, {}); for (int i = 0; i <= deg; i++) c.ControlPoints.push_back(PW(comb(pts.front(), 1.0 - i / (double)deg, pts.back(), i / (double)deg), 1.0)); return c; }; auto shift = [&](LN_NurbsCurve& c) { if (rep) for (double& x : c.KnotVector) x = 2.0 + 3.0 * x; };
  for (int i = 0; i < N; i++) { int d = (mix & 1) && i == 1 ? p - 1 : p; uc.push_back(lin & 1 ? line(X[i], d) : curve("um", i, d, X[i], pu)); } for (int j = 0; j < M; j++) { VP3 col; for (int i = 0; i < N; i++) col.push_back(X[i][j]); int d = (mix & 2) && j == 1 ? q - 1 : q; vc.push_back(lin & 2 ? line(col, d) : curve("vm", j, d, col, pv)); }
  std::vector<LN_NurbsCurve> iu = uc, iv = vc; if (rep) { shift(iu[0]); shift(iv[M - 1]); }
  LN_NurbsSurface s; NurbsSurface::CreateGordonSurface(iu, iv, X, s); if (!surfDomainIs("Gordon", s, 0, 1, 0, 1)) return; double t = rv("t", 0, 1);
  for (int i = 0; i < N; i++) { VD bu = elementary(uc[i].KnotVector, s.KnotVectorU, 0, 1); for (size_t e = 0; e + 1 < bu.size(); e++) { double u = bu[e] + t * (bu[e + 1] - bu[e]); H4 f = surfH(s, spanEnclosing(s.KnotVectorU, s.DegreeU, bu[e], bu[e + 1]), spanOf(s.KnotVectorV, s.DegreeV, pv[i]), u, pv[i]); samePoint("u-curve lies on the surface", f, curveAt(uc[i], spanEnclosing(uc[i].KnotVector, uc[i].Degree, bu[e], bu[e + 1]), u), 1e-6); } }
  for (int j = 0; j < M; j++) { VD bv = elementary(vc[j].KnotVector, s.KnotVectorV, 0, 1); for (size_t e = 0; e + 1 < bv.size(); e++) { double v = bv[e] + t * (bv[e + 1] - bv[e]); H4 f = surfH(s, spanOf(s.KnotVectorU, s.DegreeU, pu[j]), spanEnclosing(s.KnotVectorV, s.DegreeV, bv[e], bv[e + 1]), pu[j], v); samePoint("v-curve lies on the surface", f, curveAt(vc[j], spanEnclosing(vc[j].KnotVector, vc[j].Degree, bv[e], bv[e + 1]), v), 1e-6); } } sym_reached("gordon");
}
HARNESS(uv_tangent) {
  int par = sym_param("par", 0); LN_NurbsSurface s = mkSurf("P", sym_param("p", 2), sym_param("q", 1), knotPattern(sym_param("p", 2), 0), knotPattern(sym_param("q", 1), 0), 3); int k = 0; for (auto& r : s.ControlPoints) { int j = 0; for (auto& c : r) { double w = sym_param("w", 1) ? 1.0 + 0.5 * ((k + j) % 3) : 1.0; c = par ? PW((k + 2.0 * j) * w, (2.0 * k + 4.0 * j) * w, 1.0 * w, w) : PW((k * 2.0 + j * 0.5) * w, (j * 3.0 - k) * w, (k * j) * 0.5 * w, w); j++; } k++; } double u = sym_param("uu", 30) / 100.0, v = sym_param("vv", 60) / 100.0; P3 T = symP3("T", 4); UV r(9, 9); bool ok = NurbsSurface::GetUVTangent(s, UV(u, v), T, r); sym_check("found exactly at regular points", ok == !par); if (!ok) return; auto D = NurbsSurface::ComputeRationalSurfaceDerivatives(s, 1, UV(u, v)); P3 Su = D[1][0], Sv = D[0][1], e = comb(comb(Su, r.GetU(), Sv, r.GetV()), 1, T, -1); sym_check_eq("residual perpendicular to Su", dot3(e, Su), 0.0, 1e-7); sym_check_eq("residual perpendicular to Sv", dot3(e, Sv), 0.0, 1e-7); sym_reached("uv tangent");
}
HARNESS(area_plane) {   // parallelograms with linear-precision nets: |a x b|
  sym_approx_sqrt(1); int ty = sym_param("ty", 0), p = sym_param("p", 1), q = sym_param("q", 1), k = sym_param("k", 0), id = sym_param("id", 0); VD U = knotPattern(p, k), V = knotPattern(q, sym_param("kv", 0)); LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = U; s.KnotVectorV = V; P3 T = symP3("T", 4); double f = sym_param("f", 1) ? rv("f", 0.5, 3) : 1.0; P3 A = id == 0 ? P3(f, 0, 0) : comb(P3(1, 2, 2), f, T, 0), B = id == 0 ? P3(0, 2, 0) : id == 1 ? P3(2, 1, -2) : P3(0, 3, 3); auto grev = [](const VD& K, int d, int i) { double t = 0; for (int j = 1; j <= d; j++) t += K[i + j]; return (t / d - K[0]) / (K.back() - K[0]); }; int n = (int)U.size() - p - 1, m = (int)V.size() - q - 1; for (int i = 0; i < n; i++) { VPW row; for (int j = 0; j < m; j++) row.push_back(PW(comb(T, 1, comb(A, grev(U, p, i), B, grev(V, q, j)), 1), 1.0)); s.ControlPoints.push_back(row); } double ar = NurbsSurface::ApproximateArea(s, ty == 0 ? IntegratorType::Simpson : ty == 1 ? IntegratorType::GaussLegendre : IntegratorType::Chebyshev); double e = id == 0 ? 2.0 * f : 9.0 * f; sym_check_eq("area of the parallelogram", ar, e, 1e-6); sym_reached("area");
}
HARNESS(sweep_line) {   // straight trajectory: rigid extrusion of the planar profile
  sym_approx_sqrt(1); int p = sym_param("p", 2), k = sym_param("k", 0), K = sym_param("K", 3), cust = sym_param("cust", 0), w = sym_param("w", 0); P3 D = unitDir(sym_param("dir", 6)), S(1, -2, 3); double L = sym_param("L", 4); LN_NurbsCurve tr; NurbsCurve::CreateLine(S, comb(S, 1, D, L), tr); LN_NurbsCurve pr = mkCurve("P", p, knotPattern(p, k), w); for (auto& c : pr.ControlPoints) { H4 h = h4(c); c = PW(h.x, h.y, 0.0, h.w); } LN_NurbsSurface s; if (cust) NurbsSurface::CreateSweepSurface(pr, tr, K, cust, s); else NurbsSurface::CreateSweepSurface(pr, tr, K, s); double lo = pr.KnotVector[0], hi = pr.KnotVector.back(); if (!surfDomainIs("sweep", s, lo, hi, 0, 1)) return;
  double t = rv("t", 0, 1), v = rv("v", 0, 1), u0 = lo; for (int sv = s.DegreeV; sv < (int)s.ControlPoints[0].size(); sv++) if (s.KnotVectorV[sv] + 1e-9 < s.KnotVectorV[sv + 1]) { double vv = s.KnotVectorV[sv] + v * (s.KnotVectorV[sv + 1] - s.KnotVectorV[sv]); P3 base = comb(S, 1, D, L * vv); H4 a0 = surfH(s, p, sv, u0, vv), b0 = curveAt(pr, p, u0); P3 x0 = comb(xyz(a0), 1, base, -a0.w); overSpans(pr.KnotVector, p, "uu", [&](int su, double u) { (void)t; H4 a = surfH(s, su, sv, u, vv), b = curveAt(pr, su, u); P3 x = comb(xyz(a), 1, base, -a.w); sym_check_eq("section perpendicular to the trajectory", dot3(x, D) * b.w, 0.0, 1e-5); sym_check_eq("distances in the section kept", dot3(x, x) * b.w * b.w, (b.x * b.x + b.y * b.y) * a.w * a.w, 1e-5); sym_check_eq("angles in the section kept", dot3(x, x0) * b.w * b0.w, (b.x * b0.x + b.y * b0.y) * a.w * a0.w, 1e-5); sym_check_eq("orientation kept", dot3(cross3(x0, x), D) * b.w * b0.w, (b0.x * b.y - b0.y * b.x) * a.w * a0.w, 1e-5); }); } sym_reached("sweep line");
}
static LN_NurbsCurve spaceCurve(int id) {   // concrete rational trajectories
  LN_NurbsCurve c; c.Degree = id == 0 ? 2 : id == 3 ? 2 : id == 4 ? 4 : id == 5 ? 5 : 3; if (id == 4 || id == 5) { int p = id; c.KnotVector = clampedKnots(p, {0, 0.5, 1}, {1}); static const double Z[][3] = {{0, 0, 0}, {2, 1, 0}, {4, 3, 1}, {5, 6, 3}, {4, 9, 4}, {2, 11, 6}, {1, 13, 9}}; for (int i = 0; i < p + 2; i++) c.ControlPoints.push_back(PW(P3(Z[i][0], Z[i][1], Z[i][2]), 1)); return c; } if (id == 3) { c.KnotVector = {0, 0, 0, 0.25, 0.5, 0.75, 1, 1, 1}; c.ControlPoints = {PW(P3(0, 0, 0), 1), PW(P3(2, 0, 0), 1), PW(P3(4, 3, 1), 1), PW(P3(1, 5, 1), 1), PW(P3(-2, 0, 0), 1), PW(P3(0, 0, 0), 1)}; return c; }
  c.KnotVector = id == 0 ? VD{0, 0, 0, 1, 1, 1} : id == 1 ? VD{0, 0, 0, 0, 0.5, 1, 1, 1, 1} : VD{0, 0, 0, 0, 1, 1, 1, 1}; int n = (int)c.KnotVector.size() - c.Degree - 1; static const double Q[][4] = {{0, 0, 0, 1}, {4, 1, 0, 1}, {5, 5, 2, 2}, {2, 8, 5, 1}, {-1, 9, 9, 0.5}}; for (int i = 0; i < n; i++) { double w = id == 1 ? Q[i][3] : 1.0; c.ControlPoints.push_back(PW(P3(Q[i][0], Q[i][1], Q[i][2]), w)); } return c;
}
static P3 tangentOf(const LN_NurbsCurve& c, double u) { int s = spanOf(c.KnotVector, c.Degree, u); H4 a = curveAt(c, s, u), d = curveAt(c, s, u, 1); P3 t = comb(xyz(d), a.w, xyz(a), -d.w); double l = sqrt(dot3(t, t)); return P3(t.X() / l, t.Y() / l, t.Z() / l); }
HARNESS(project_normal) {
  sym_approx_sqrt(1); LN_NurbsCurve c = spaceCurve(sym_param("id", 0)); P3 T = symP3("T", 4); for (auto& g : c.ControlPoints) { H4 h = h4(g); g = PW(h.x + T.X() * h.w, h.y + T.Y() * h.w, h.z + T.Z() * h.w, h.w); } if (sym_param("shift", 0)) for (double& k : c.KnotVector) k = k * 2.0 + 1.0; auto B = NurbsCurve::ProjectNormal(c); sym_check("one normal per knot", B.size() == c.KnotVector.size()); if (B.size() != c.KnotVector.size()) return; for (size_t i = 0; i < B.size(); i++) { sym_check_eq("unit length", dot3(B[i], B[i]), 1.0, 1e-6); sym_check_eq("perpendicular to the curve", dot3(B[i], tangentOf(c, c.KnotVector[i])), 0.0, 1e-6); if (i) { P3 t = tangentOf(c, c.KnotVector[i]); double d = dot3(B[i - 1], t); P3 e = comb(B[i - 1], 1, t, -d); sym_check("carried on without a flip", dot3(e, B[i]) > 0.0); } } if (sym_param("id", 0) == 3) check3("closed frame", B.front(), B.back(), 1e-6); sym_reached("project normal");
}
HARNESS(sweep_curve) {   // polygon profile (degree 1 loft: the sections sit at the V knots): every section is the profile in the plane perpendicular to the trajectory
  sym_approx_sqrt(1); int K = sym_param("K", 3), cust = sym_param("cust", 0); LN_NurbsCurve tr = spaceCurve(sym_param("id", 0)), pr; pr.Degree = 1; pr.KnotVector = {0, 0, 0.25, 0.75, 1, 1}; pr.ControlPoints = {PW(P3(1, 0, 0), 1), PW(P3(0.5, 1, 0), 1), PW(P3(-1, 0.25, 0), 1), PW(P3(0, -1.5, 0), 1)}; if (sym_param("w", 0)) for (int i = 0; i < 4; i++) { H4 h = h4(pr.ControlPoints[i]); double w = 1.0 + 0.5 * i; pr.ControlPoints[i] = PW(h.x * w, h.y * w, h.z * w, w); }
  int sh = sym_param("sh", 0); LN_NurbsCurve trs = tr; if (sh) for (double& k : trs.KnotVector) k = sh == 1 ? k * 2.0 + 1.0 : k * 0.5 - 3.0; LN_NurbsSurface s; if (cust) NurbsSurface::CreateSweepSurface(pr, trs, K, 1, s); else NurbsSurface::CreateSweepSurface(pr, trs, K, s); if (!surfDomainIs("sweep", s, 0, 1, 0, 1)) return; sym_check("profile kept along u", s.DegreeU == 1 && s.KnotVectorU == pr.KnotVector); int n = (int)s.ControlPoints[0].size(); sym_check("at least the requested sections", n >= K + 1); double u = rv("u", 0, 1); P3 prevO, prevN;
  for (int k = 0; k < n; k++) { // the trajectory point of section k is the image of the profile origin; it must lie on the trajectory, its tangent perpendicular to the section
    auto pt = [&](int i) { H4 h = h4(s.ControlPoints[i][k]); return P3(h.x / h.w, h.y / h.w, h.z / h.w); }; auto pp = [&](int i) { H4 h = h4(pr.ControlPoints[i]); return P3(h.x / h.w, h.y / h.w, 0.0); }; P3 e1 = comb(pt(1), 1, pt(0), -1), e2 = comb(pt(2), 1, pt(0), -1); P3 f1 = comb(pp(1), 1, pp(0), -1), f2 = comb(pp(2), 1, pp(0), -1); double det = f1.X() * f2.Y() - f1.Y() * f2.X(); P3 ex = comb(e1, f2.Y() / det, e2, -f1.Y() / det), ey = comb(e1, -f2.X() / det, e2, f1.X() / det); sym_check_eq("x axis unit", dot3(ex, ex), 1.0, 1e-6); sym_check_eq("y axis unit", dot3(ey, ey), 1.0, 1e-6); sym_check_eq("axes perpendicular", dot3(ex, ey), 0.0, 1e-6); P3 org = comb(pt(0), 1, comb(ex, pp(0).X(), ey, pp(0).Y()), -1), N = cross3(ex, ey);
    for (int su = 1; su < 4; su++) { double uu = pr.KnotVector[su] + u * (pr.KnotVector[su + 1] - pr.KnotVector[su]); double kv = s.KnotVectorV[k + 1]; int sv = k < n - 1 ? k + 1 : k; H4 f = surfH(s, su, sv, uu, kv), g = curveAt(pr, su, uu); P3 e = comb(org, g.w, comb(ex, g.x, ey, g.y), 1); samePoint("rigid image of the profile", f, {e.X(), e.Y(), e.Z(), g.w}, 1e-6); }
    if (k) { P3 e = comb(org, 1, prevO, -1); sym_check_le("sections advance along the trajectory", 1e-3, dot3(e, prevN), 0); sym_check_le("sections advance along the trajectory", 1e-3, dot3(e, N), 0); } prevO = org; prevN = N;
    if (k == 0 || k == n - 1) { double tv = k ? 1.0 : 0.0; H4 g = curveAt(tr, spanOf(tr.KnotVector, tr.Degree, tv), tv); samePoint("starts and ends at the ends of the trajectory", {org.X(), org.Y(), org.Z(), 1}, g, 1e-6); check3("perpendicular to the trajectory", N, tangentOf(tr, tv), 1e-6); } else if (cust) { double tv = s.KnotVectorV[k + 1]; samePoint("section sits on the trajectory at its parameter", {org.X(), org.Y(), org.Z(), 1}, curveAt(tr, spanOf(tr.KnotVector, tr.Degree, tv), tv), 1e-6); check3("perpendicular to the trajectory", N, tangentOf(tr, tv), 1e-6); } }
  sym_reached("sweep curve");
}
// planar faces with curved, uneven nets: the area inside the boundary (Green's theorem on the four edges, exact for polynomial edges)
HARNESS(area_face) {
  sym_approx_sqrt(1); int ty = sym_param("ty", 0), id = sym_param("id", 0); P3 T = symP3("T", 4); double f = sym_param("f", 1) ? rv("f", 0.5, 3) : 1.0; LN_NurbsSurface s; std::vector<std::vector<P3>> g;
  if (id == 0) { s.DegreeU = s.DegreeV = 1; g = {{P3(0, 0, 0), P3(1, 3, 0)}, {P3(4, 1, 0), P3(6, 2, 0)}}; }
  if (id == 1) { s.DegreeU = s.DegreeV = 1; g = {{P3(0, 0, 0), P3(0, 0, 0)}, {P3(4, 0, 0), P3(1, 3, 0)}}; }   // one edge collapsed: a triangle
  if (id == 2) { s.DegreeU = 2; s.DegreeV = 1; g = {{P3(0, 0, 0), P3(0, 2, 0)}, {P3(2, 1, 0), P3(2, 4, 0)}, {P3(5, 0, 0), P3(4, 3, 0)}}; }
  if (id == 3) { s.DegreeU = 2; s.DegreeV = 2; g = {{P3(0, 0, 0), P3(-1, 2, 0), P3(0, 4, 0)}, {P3(2, -1, 0), P3(2, 2, 0), P3(2, 5, 0)}, {P3(4, 0, 0), P3(6, 2, 0), P3(5, 5, 0)}}; }
  s.KnotVectorU = knotPattern(s.DegreeU, 0); s.KnotVectorV = knotPattern(s.DegreeV, 0); for (auto& r : g) { VPW row; for (auto& q : r) { double w = sym_param("w", 0) ? 2.0 : 1.0; row.push_back(PW(comb(P3(q.X() * f, q.Y(), 0), 1, T, 1), w)); } s.ControlPoints.push_back(row); }
  // exact boundary integral: for a Bezier edge of control points c_i, 1/2 * sum c_i x c_j * integral(B_i B_j')
  auto edge = [&](std::vector<P3> c) { double a = 0; int n = (int)c.size() - 1; auto X = [&](int i, int j) { return c[i].X() * c[j].Y() - c[i].Y() * c[j].X(); }; if (n == 1) a = X(0, 1); else a = X(0, 1) * 2.0 / 3.0 + X(0, 2) / 3.0 + X(1, 2) * 2.0 / 3.0; return a / 2.0; };
  int n = (int)g.size() - 1, m = (int)g[0].size() - 1; std::vector<P3> b, r, t, l; for (int i = 0; i <= n; i++) b.push_back(g[i][0]); for (int j = 0; j <= m; j++) r.push_back(g[n][j]); for (int i = n; i >= 0; i--) t.push_back(g[i][m]); for (int j = m; j >= 0; j--) l.push_back(g[0][j]); double want = (edge(b) + edge(r) + edge(t) + edge(l)) * f;
  double ar = NurbsSurface::ApproximateArea(s, ty == 0 ? IntegratorType::Simpson : ty == 1 ? IntegratorType::GaussLegendre : IntegratorType::Chebyshev); sym_check_eq("area of the face", ar, want, 1e-5); sym_reached("area face");
}
HARNESS(area_tube) {   // part of a circular cylinder: radius x angle x height
  sym_approx_sqrt(1); int ty = sym_param("ty", 0), qn = sym_param("q", 1); P3 T = sym_param("tr", 1) ? P3(rv("Tx", 0, 4), 0, 0) : P3(0, 0, 0); double r = 2, h = sym_param("tr", 1) ? 3.0 : rv("h", 1, 3); LN_NurbsCurve a; NurbsCurve::CreateArc(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), 0, qn * 1.5707963267948966, r, r, a); LN_NurbsSurface s; s.DegreeU = 2; s.DegreeV = 1; s.KnotVectorU = a.KnotVector; s.KnotVectorV = {0, 0, 1, 1}; for (auto& c : a.ControlPoints) { H4 x = h4(c); VPW row; for (int j = 0; j < 2; j++) row.push_back(PW(comb(P3(x.x / x.w, x.y / x.w, x.z / x.w), 1, comb(T, 1, P3(0, 0, h * j), 1), 1), x.w)); s.ControlPoints.push_back(row); }
  double ar = NurbsSurface::ApproximateArea(s, ty == 0 ? IntegratorType::Simpson : ty == 1 ? IntegratorType::GaussLegendre : IntegratorType::Chebyshev), want = r * h * qn * 1.5707963267948966; sym_check_eq("area of the tube", ar, want, 2e-3); sym_reached("area tube");
}
