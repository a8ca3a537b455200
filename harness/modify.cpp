// Shape modification, clamping, predicates, extension, length of curves.
#include "common.h"
#include "NurbsCurve.h"
#include "MathUtils.h"
#include "KnotVectorUtils.h"
#include "LNLibExceptions.h"
#include "LNObject.h"
#include "LNEnums.h"
#include <cmath>
using namespace LNLib;
static double dot3(const P3& a, const P3& b) { return a.X() * b.X() + a.Y() * b.Y() + a.Z() * b.Z(); }
static P3 cross3(const P3& a, const P3& b) { return P3(a.Y() * b.Z() - a.Z() * b.Y(), a.Z() * b.X() - a.X() * b.Z(), a.X() * b.Y() - a.Y() * b.X()); }
static P3 comb(const P3& a, double s, const P3& b, double t) { return P3(a.X() * s + b.X() * t, a.Y() * s + b.Y() * t, a.Z() * s + b.Z() * t); }
static double len3(const P3& a) { return sqrt(dot3(a, a)); }
static P3 cart(const H4& h) { return P3(h.x / h.w, h.y / h.w, h.z / h.w); }
static P3 unitDir(int k) { static const double D[][3] = {{1, 0, 0}, {0, -1, 0}, {1. / 3, 2. / 3, -2. / 3}, {0, 0.6, 0.8}, {6. / 7, -2. / 7, 3. / 7}, {-2. / 3, 1. / 3, 2. / 3}}; return P3(D[k % 6][0], D[k % 6][1], D[k % 6][2]); }
static bool sameFrame(const char* w, const LN_NurbsCurve& a, const LN_NurbsCurve& b) { bool ok = a.Degree == b.Degree && a.KnotVector.size() == b.KnotVector.size() && a.ControlPoints.size() == b.ControlPoints.size(); sym_check((std::string(w) + ": degree, knots and count kept").c_str(), ok); if (!ok) return false; for (size_t i = 0; i < a.KnotVector.size(); i++) sym_check_eq((std::string(w) + ": knots kept").c_str(), b.KnotVector[i], a.KnotVector[i], 1e-12); return true; }
static double symIn(const LN_NurbsCurve& c, int sp, const char* n) { return rv(n, c.KnotVector[sp] + 0.05 * (c.KnotVector[sp + 1] - c.KnotVector[sp]), c.KnotVector[sp] + 0.95 * (c.KnotVector[sp + 1] - c.KnotVector[sp])); }
static int nthSpan(const LN_NurbsCurve& c, int k) { int n = (int)c.ControlPoints.size() - 1; for (int s = c.Degree; s <= n; s++) if (c.KnotVector[s] < c.KnotVector[s + 1]) if (k-- == 0) return s; return c.Degree; }
// concrete rational curves with non-degenerate geometry, translated symbolically
static LN_NurbsCurve fixedCurve(int p, const VD& U, int id, int wm, double tx) { LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1; static const double W[] = {1, 2, 0.5, 1.5, 3, 0.75, 1}; for (int i = 0; i < n; i++) { double w = wm ? W[i % 7] : 1.0; P3 q = id == 0 ? P3(i * 2.0 + tx, (i * 3) % 5 - 1.0, (i * i) % 4 * 0.5) : P3(i * 1.5 + tx, (i * i) * 0.5 - i, i % 2 ? 2.0 : -1.0); c.ControlPoints.push_back(PW(q.X() * w, q.Y() * w, q.Z() * w, w)); } return c; }
HARNESS(reposition) {
  int p = sym_param("p", 2), sp = sym_param("sp", 0), k = sym_param("k", 0); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("wm", 2)); int s = nthSpan(c, sp); double u = sym_param("end", 0) ? U.back() : symIn(c, s, "u"); if (sym_param("end", 0)) s = (int)c.ControlPoints.size() - 1; double d = rv("d", 0.1, 5); if (sym_param("neg", 0)) d = -d; double sc = rv("sc", 0.5, 3); P3 dir = unitDir(sym_param("dir", 2)); LN_NurbsCurve r; bool ok = NurbsCurve::ControlPointReposition(c, u, k, comb(dir, sc, dir, 0), d, r); double Nk = coxDeBoor(U, k, p, s, u); bool infl = k >= s - p && k <= s && !(sym_param("end", 0) && k < s); sym_check("possible exactly when the control point has influence there", ok == infl); if (!ok) { sym_reached("reposition"); return; } (void)Nk; if (!sameFrame("reposition", c, r)) return; for (size_t i = 0; i < c.ControlPoints.size(); i++) { H4 a = h4(c.ControlPoints[i]), b = h4(r.ControlPoints[i]); if ((int)i != k) checkH("other control points kept", b, a, 1e-9); else sym_check_eq("weight kept", b.w, a.w, 1e-9); } H4 o = curveAt(c, s, u), n = curveAt(r, s, u); sym_check_eq("moved by the distance in the direction.x", n.x, o.x + d * dir.X() * o.w, 1e-6); sym_check_eq("moved by the distance in the direction.y", n.y, o.y + d * dir.Y() * o.w, 1e-6); sym_check_eq("moved by the distance in the direction.z", n.z, o.z + d * dir.Z() * o.w, 1e-6); sym_reached("reposition");
}
HARNESS(weight_mod) {   // collinear control points along a unit direction with symbolic abscissae, k the farthest
  int p = sym_param("p", 2), sp = sym_param("sp", 0); VD U = knotPattern(p, sym_param("kv", 1)); int n = (int)U.size() - p - 1, s = p; LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; s = p; { int q = sp; for (int i = p; i < n; i++) if (U[i] < U[i + 1]) if (q-- == 0) s = i; } int k = s - sym_param("back", 0); P3 dir = unitDir(sym_param("dir", 2)); static const double W[] = {1, 2, 0.5, 1.5, 3, 0.75}; VD X; for (int i = 0; i < n; i++) { double x = i == k ? rv(idx("x", i), 5, 9) : rv(idx("x", i), -3, 3), w = W[i % 6]; X.push_back(x); P3 q = comb(dir, x, dir, 0); c.ControlPoints.push_back(PW(q.X() * w, q.Y() * w, q.Z() * w, w)); }
  double u = U[s] + (U[s + 1] - U[s]) * 0.4375, d = rv("d", -1.5, 0.9); sym_assume_ne(d, 0.0); sym_assume_lt(0.01, d * d); double num = 0, den = 0; for (int i = s - p; i <= s; i++) { double b = coxDeBoor(U, i, p, s, u); num = num + b * W[i % 6] * X[i]; den = den + b * W[i % 6]; } double x0 = num / den; sym_assume_lt(x0, X[k] - 1.0); LN_NurbsCurve r; NurbsCurve::WeightModification(c, u, k, d, r); if (!sameFrame("weight", c, r)) return; for (int i = 0; i < n; i++) { H4 a = h4(c.ControlPoints[i]), b = h4(r.ControlPoints[i]); if (i != k) checkH("other control points kept", b, a, 1e-9); else checkProj("control point position kept", comb(dir, X[k], dir, 0), b, 1e-7); } H4 h = curveAt(r, s, u); sym_check_eq("curve point pulled by the distance towards the control point", dot3(P3(h.x, h.y, h.z), dir), (x0 + d) * h.w, 1e-6); sym_reached("weight");
}
HARNESS(weight_mod3) {   // concrete space curves, symbolic distance
  sym_approx_sqrt(1); int p = sym_param("p", 3); VD U = knotPattern(p, sym_param("kv", 2)); LN_NurbsCurve c = fixedCurve(p, U, sym_param("id", 0), sym_param("wm", 1), 0.0); int s = nthSpan(c, sym_param("sp", 1)), k = s - sym_param("back", 1); double u = U[s] + (U[s + 1] - U[s]) * 0.375; H4 o = curveAt(c, s, u); P3 P = cart(o), K = cart(h4(c.ControlPoints[k])), e = comb(K, 1, P, -1); double L = len3(e), d = rv("d", -2, 0.75); sym_assume_lt(0.001, d * d); sym_assume_lt(d, L * 0.9); LN_NurbsCurve r; NurbsCurve::WeightModification(c, u, k, d, r); if (!sameFrame("weight", c, r)) return; H4 h = curveAt(r, s, u); checkProj("curve point pulled by the distance towards the control point", comb(P, 1, e, d / L), h, 1e-6); for (size_t i = 0; i < c.ControlPoints.size(); i++) if ((int)i != k) checkH("other control points kept", h4(r.ControlPoints[i]), h4(c.ControlPoints[i]), 1e-9); else checkProj("control point position kept", K, h4(r.ControlPoints[i]), 1e-7); sym_reached("weight3");
}
HARNESS(neighbor_weights) {
  sym_approx_sqrt(1); int p = sym_param("p", 3); VD U = knotPattern(p, sym_param("kv", 2)); LN_NurbsCurve c = fixedCurve(p, U, sym_param("id", 0), sym_param("wm", 1), 0.0); int s = nthSpan(c, sym_param("sp", 1)), k = s - sym_param("back", 2); double u = U[s] + (U[s + 1] - U[s]) * 0.375, d = rv("d", 0.01, 0.1); if (sym_param("neg", 0)) d = -d; LN_NurbsCurve r; bool ok = NurbsCurve::NeighborWeightsModification(c, u, k, d, 1.0, r); sym_check("two neighbouring weights can be modified", ok); if (!ok) return; if (!sameFrame("weights", c, r)) return; LN_NurbsCurve z = c; for (int i = k; i <= k + 1; i++) z.ControlPoints[i] = PW(0.0, 0.0, 0.0, 0.0); H4 o = curveAt(c, s, u), R = curveAt(z, s, u); P3 P = cart(o), e = comb(P, 1, cart(R), -1); double L = len3(e); checkProj("curve point moved by the distance from the rest point towards the leg", comb(P, 1, e, d / L), curveAt(r, s, u), 1e-6); for (int i = 0; i < (int)c.ControlPoints.size(); i++) if (i != k && i != k + 1) checkH("other control points kept", h4(r.ControlPoints[i]), h4(c.ControlPoints[i]), 1e-9); else checkProj("control point position kept", cart(h4(c.ControlPoints[i])), h4(r.ControlPoints[i]), 1e-7); sym_reached("neighbor weights");
}
HARNESS(neighbor_bad) { int p = sym_param("p", 2); LN_NurbsCurve c = mkCurve("P", p, knotPattern(p, 1), 2), r; double u = symIn(c, nthSpan(c, 1), "u"), d = rv("d", 0.1, 2); int n = (int)c.ControlPoints.size(); sym_check("the last control point has no neighbour", throwsAny([&] { NurbsCurve::NeighborWeightsModification(c, u, n - 1, d, 1.0, r); })); sym_check("index out of range", throwsAny([&] { NurbsCurve::NeighborWeightsModification(c, u, -1, d, 1.0, r); }) && throwsAny([&] { NurbsCurve::WeightModification(c, u, n, d, r); }) && throwsAny([&] { NurbsCurve::ControlPointReposition(c, u, n, P3(1, 0, 0), d, r); }) && throwsAny([&] { NurbsCurve::ControlPointReposition(c, u, 0, P3(0.0, 0.0, 0.0), d, r); })); sym_reached("bad"); }
HARNESS(warp) {
  sym_approx_sqrt(1); int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1)); LN_NurbsCurve c = fixedCurve(p, U, sym_param("id", 0), sym_param("wm", 1), rv("tx", 1, 5)); int n = (int)c.ControlPoints.size(); std::vector<double> sh; for (int i = 0; i < n; i++) sh.push_back(rv(idx("s", i), -2, 2)); double d = rv("d", 0.1, 4); if (sym_param("neg", 0)) d = -d; double ns = rv("ns", 0.5, 3); P3 N = unitDir(sym_param("dir", 3)); int a = sym_param("a", 0); double lo = U[0], hi = U.back(), u0 = lo + (hi - lo) * (a ? 0.5 : 0.0), u1 = lo + (hi - lo) * (a ? 0.875 : 1.0), m = (u0 + u1) * 0.5; LN_NurbsCurve r; NurbsCurve::Warping(c, sh, d, comb(N, ns, N, 0), u0, u1, r); if (!sameFrame("warp", c, r)) return; int s = spanOf(U, p, m); H4 h = curveAt(c, s, m), dh = curveAt(c, s, m, 1); P3 t = comb(P3(dh.x, dh.y, dh.z), h.w, P3(h.x, h.y, h.z), -dh.w), w = cross3(t, N); double L = len3(w); for (int i = 0; i < n; i++) { H4 o = h4(c.ControlPoints[i]), q = h4(r.ControlPoints[i]); sym_check_eq("weight kept", q.w, o.w, 1e-9); check3("control point displaced by shape times distance along the in-plane normal", P3(q.x, q.y, q.z), comb(P3(o.x, o.y, o.z), 1, w, o.w * sh[i] * d / L), 1e-6); } sym_reached("warp");
}
// the control points P_i, i from the span of u0 to (span of u1) - p - 1 (The NURBS Book, 11.4)
static void affectedOnly(int p, const VD& U, double u0, double u1, std::vector<bool>& in) { int n = (int)U.size() - p - 1, a = spanOf(U, p, u0), b = spanOf(U, p, u1) - p - 1; in.assign(n, false); for (int i = a; i <= b; i++) in[i] = true; }
HARNESS(flatten) {   // control points whose basis function lives inside the range go to their foot on the line
  int p = sym_param("p", 2), mode = sym_param("mode", 0); VD U; for (int i = 0; i <= p; i++) U.push_back(0); for (int i = 1; i <= 2 * p + 3; i++) U.push_back(i); for (int i = 0; i <= p; i++) U.push_back(2 * p + 4); int n = (int)U.size() - p - 1; LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; static const double W[] = {1, 2, 0.5, 1.5, 3, 0.75}; P3 A(-20, 3, 1), D = unitDir(sym_param("dir", 0)); A = comb(D, -20, P3(1, 3, 1), 1); P3 B = comb(D, 40, A, 1); for (int i = 0; i < n; i++) { P3 q = symP3(idx("q", i), 4); if (mode == 1 && i == p + 3) { double f = rv("far", 30, 40); q = comb(D, f, q, 1); } double w = W[i % 6]; c.ControlPoints.push_back(PW(q.X() * w, q.Y() * w, q.Z() * w, w)); }
  double u0 = sym_param("a", 1), u1 = U.back() - sym_param("b", 1); if (sym_param("frac", 0)) { u0 = u0 + 0.25; u1 = u1 - 0.5; } LN_NurbsCurve r; bool ok = NurbsCurve::Flattening(c, A, B, u0, u1, r); if (!sameFrame("flatten", c, r)) return; std::vector<bool> in; affectedOnly(p, U, u0, u1, in); int cnt = 0; for (int i = 0; i < n; i++) { H4 o = h4(c.ControlPoints[i]), q = h4(r.ControlPoints[i]); bool far = mode == 1 && i == p + 3; sym_check_eq("weight kept", q.w, o.w, 1e-9); if (in[i] && !far) { cnt++; P3 v = comb(P3(o.x, o.y, o.z), 1, A, -o.w); double t = dot3(v, D); check3("control point projected onto the line", P3(q.x, q.y, q.z), comb(A, o.w, D, t), 1e-6); } else checkH("outside the range or beyond the segment: kept", q, o, 1e-7); } sym_check("flat segment reported when enough points were projected", ok == (cnt >= p + 1)); sym_reached("flatten");
}
HARNESS(bend) {
  int p = sym_param("p", 2); VD U; for (int i = 0; i <= p; i++) U.push_back(0); for (int i = 1; i <= 2 * p + 2; i++) U.push_back(i); for (int i = 0; i <= p; i++) U.push_back(2 * p + 3); int n = (int)U.size() - p - 1; LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; static const double W[] = {1, 2, 0.5, 1.5, 3, 0.75}; P3 C = symP3("c", 3); VD L; for (int i = 0; i < n; i++) { double l = rv(idx("l", i), 1, 6), w = W[i % 6]; L.push_back(l); P3 q = comb(C, 1, unitDir(i), l); c.ControlPoints.push_back(PW(q.X() * w, q.Y() * w, q.Z() * w, w)); }
  double R = rv("R", 0.5, 8), cr = rv("cr", 1, 4), u0 = sym_param("a", 1), u1 = U.back() - sym_param("b", 1); LN_NurbsCurve r; NurbsCurve::Bending(c, u0, u1, C, R, cr, r); if (!sameFrame("bend", c, r)) return; std::vector<bool> in; affectedOnly(p, U, u0, u1, in); for (int i = 0; i < n; i++) { H4 o = h4(c.ControlPoints[i]), q = h4(r.ControlPoints[i]); if (!in[i]) { checkH("outside the range: kept", q, o, 1e-7); continue; } double s = R / L[i], t = cr * s / (1.0 + (cr - 1.0) * s); sym_check_eq("weight kept", q.w, o.w, 1e-9); check3("control point mapped by the cross ratio", P3(q.x, q.y, q.z), comb(C, o.w, unitDir(i), o.w * t * L[i]), 1e-6); } sym_reached("bend");
}
HARNESS(constrain) {
  sym_approx_sqrt(1); int p = sym_param("p", 3), pat = sym_param("pat", 0); VD U = knotPattern(p, sym_param("kv", 7)); LN_NurbsCurve c = mkCurve("P", p, U, sym_param("wm", 0)); int n = (int)c.ControlPoints.size(); double lo = U[0], hi = U.back(); std::vector<double> par; std::vector<int> ai, ad, fix; auto at = [&](double f) { return lo + (hi - lo) * f; }; switch (pat) { case 0: par = {at(0.4375)}; ai = {0}; ad = {0}; break; case 1: par = {at(0.3125), at(0.6875)}; ai = {0, 1}; ad = {0, 0}; break; case 2: par = {at(0.4375)}; ai = {0, 0}; ad = {0, 1}; break; case 3: par = {at(0.4375), at(0.9375)}; ai = {1, 0}; ad = {0, 1}; fix = {n - 1}; break; default: par = {at(0.4375)}; ai = {0}; ad = {2}; fix = {1}; } VP3 D; for (size_t i = 0; i < ai.size(); i++) D.push_back(symP3(idx("D", (int)i), 4)); LN_NurbsCurve r; NurbsCurve::ConstraintBasedModification(c, par, D, ai, ad, fix, r); if (!sameFrame("constrain", c, r)) return; VD wn; for (int i = 0; i < n; i++) { H4 o = h4(c.ControlPoints[i]), q = h4(r.ControlPoints[i]); sym_check_eq("weights kept", q.w, o.w, 1e-9); bool keep = false; for (int f : fix) if (f == i) keep = true; bool infl = false; for (size_t k = 0; k < ai.size(); k++) { int s = spanOf(U, p, par[ai[k]]); if (i >= s - p && i <= s) infl = true; } if (keep || !infl) checkH("fixed and uninvolved control points kept", q, o, 1e-9); }
  // change of the (rational) curve: delta = sum R_i dP_i; its derivatives via the quotient rule
  for (size_t k = 0; k < ai.size(); k++) { double u = par[ai[k]]; int s = spanOf(U, p, u); H4 d[3]; P3 e[3]; for (int j = 0; j <= ad[k]; j++) { H4 a = curveAt(r, s, u, j), b = curveAt(c, s, u, j); d[j] = {a.x - b.x, a.y - b.y, a.z - b.z, b.w}; } for (int j = 0; j <= ad[k]; j++) { P3 v(d[j].x, d[j].y, d[j].z); for (int l = 1; l <= j; l++) v = comb(v, 1, e[j - l], -binom(j, l) * d[l].w); e[j] = comb(v, 1.0 / d[0].w, v, 0); } check3("the derivative changes by exactly the constraint", e[ad[k]], D[k], 1e-5); } sym_reached("constrain");
}
