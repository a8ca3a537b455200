// Surface evaluation, derivatives, differential geometry, isocurves, swap / reverse / reparametrise, knot and degree operations.
#include "common.h"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include "BsplineSurface.h"
#include "XYZ.h"
#include "UV.h"
using namespace LNLib;
static LN_NurbsSurface theSurf(const char* b, int dfltMode = 1) {
  int p = sym_param("p", 2), q = sym_param("q", 2); return mkSurf(b, p, q, knotPattern(p, sym_param("ku", 0)), knotPattern(q, sym_param("kv", 0)), sym_param("w", dfltMode));
}
static void sameKnots(const char* w, const VD& a, const VD& b) { sym_check((std::string(w) + " count").c_str(), a.size() == b.size()); if (a.size() != b.size()) return; for (size_t i = 0; i < a.size(); i++) sym_check_eq(w, a[i], b[i], 1e-12); }
static int multOf(const VD& U, double u) { int m = 0; for (double x : U) if (x == u) m++; return m; }
static void sortInto(VD& U, double x) { U.push_back(x); for (size_t j = U.size() - 1; j > 0 && U[j] < U[j - 1]; j--) { double t = U[j]; U[j] = U[j - 1]; U[j - 1] = t; } }
HARNESS(surf_point) {
  LN_NurbsSurface s = theSurf("P"); Param u = pickParam("u", s.KnotVectorU, s.DegreeU), v = pickParam("v", s.KnotVectorV, s.DegreeV); H4 e = surfH(s, u.span, v.span, u.u, v.u);
  checkH("homogeneous point", h4(BsplineSurface::GetPointOnSurface(s, UV(u.u, v.u))), e); checkProj("point", NurbsSurface::GetPointOnSurface(s, UV(u.u, v.u)), e); sym_reached("surf point");
}
HARNESS(surf_hull) {
  LN_NurbsSurface s = theSurf("P"); Param u = pickInside("u", s.KnotVectorU, s.DegreeU), v = pickInside("v", s.KnotVectorV, s.DegreeV);
  // all control points at x <= 1 (weights positive): the point is at x <= 1
  for (auto& r : s.ControlPoints) for (auto& c : r) { H4 h = h4(c); c = PW(h.w - (h.x + 8), h.y, h.z, h.w); }
  P3 r = NurbsSurface::GetPointOnSurface(s, UV(u.u, v.u)); sym_check_le("within the hull", r.X(), 1.0, 1e-9); sym_reached("surf hull");
}
HARNESS(surf_iso) {
  LN_NurbsSurface s = theSurf("P"); int dir = sym_choice("dir", 0, 1); Param u = pickParam("u", s.KnotVectorU, s.DegreeU), v = pickParam("v", s.KnotVectorV, s.DegreeV);
  LN_NurbsCurve c = NurbsSurface::GetIsoCurve(s, dir ? v.u : u.u, dir == 1); sym_check("iso curve well formed", wellFormed(c) && c.Degree == (dir ? s.DegreeU : s.DegreeV)); if (!wellFormed(c)) return;
  sameKnots("iso curve knots", c.KnotVector, dir ? s.KnotVectorU : s.KnotVectorV); checkH("iso curve point", curveAt(c, dir ? u.span : v.span, dir ? u.u : v.u), surfH(s, u.span, v.span, u.u, v.u)); sym_reached("surf iso");
}
HARNESS(surf_derivs) {
  LN_NurbsSurface s = theSurf("P"); int fix = sym_param("fix", 0), d = sym_param("d", 1); Param u = fix ? fixedParam("u", s.KnotVectorU, s.DegreeU) : pickParam("u", s.KnotVectorU, s.DegreeU), v = fix ? fixedParam("v", s.KnotVectorV, s.DegreeV) : pickParam("v", s.KnotVectorV, s.DegreeV); UV uv(u.u, v.u);
  auto D = BsplineSurface::ComputeDerivatives(s, d, uv); bool ok = (int)D.size() == d + 1 && (int)D[0].size() == d + 1; sym_check("derivative table size", ok); if (!ok) return;
  std::vector<std::vector<H4>> A(d + 1, std::vector<H4>(d + 1)); for (int k = 0; k <= d; k++) for (int l = 0; k + l <= d; l++) { A[k][l] = surfH(s, u.span, v.span, u.u, v.u, k, l); checkH("homogeneous derivative", h4(D[k][l]), A[k][l]); }
  auto R = NurbsSurface::ComputeRationalSurfaceDerivatives(s, d, uv);
  for (int k = 0; k <= d; k++) for (int l = 0; k + l <= d; l++) { double x = 0, y = 0, z = 0; for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) { double c = binom(k, i) * binom(l, j) * A[i][j].w; P3 r = R[k - i][l - j]; x = x + c * r.X(); y = y + c * r.Y(); z = z + c * r.Z(); }
    sym_check_eq("Leibniz.x", x, A[k][l].x, 1e-7); sym_check_eq("Leibniz.y", y, A[k][l].y, 1e-7); sym_check_eq("Leibniz.z", z, A[k][l].z, 1e-7); }
  if (d == 1) { PW F[2][2]; BsplineSurface::ComputeFirstOrderDerivative(s, uv, F); for (int k = 0; k < 2; k++) for (int l = 0; k + l < 2; l++) checkH("homogeneous first order", h4(F[k][l]), A[k][l]); P3 S, Su, Sv; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, uv, S, Su, Sv); check3("first order point", S, R[0][0]); check3("first order Su", Su, R[1][0]); check3("first order Sv", Sv, R[0][1]); }
  sym_reached("surf derivs");
}
HARNESS(surf_derivs_all) { // the second evaluation route
  LN_NurbsSurface s = theSurf("P", 0); int fix = sym_param("fix", 0), d = sym_param("d", 1); Param u = fix ? fixedParam("u", s.KnotVectorU, s.DegreeU) : pickInside("u", s.KnotVectorU, s.DegreeU), v = fix ? fixedParam("v", s.KnotVectorV, s.DegreeV) : pickInside("v", s.KnotVectorV, s.DegreeV); UV uv(u.u, v.u);
  auto D = BsplineSurface::ComputeDerivativesByAllBasisFunctions(s, d, uv); for (int k = 0; k <= d; k++) for (int l = 0; k + l <= d; l++) checkH("derivative by all basis functions", h4(D[k][l]), surfH(s, u.span, v.span, u.u, v.u, k, l)); sym_reached("surf derivs all");
}
// Frenet-like quantities: one symbolic control point, the rest concrete
static LN_NurbsSurface bumpy() {
  int p = sym_param("p", 2), q = sym_param("q", 2); VD U = knotPattern(p, sym_param("ku", 0)), V = knotPattern(q, sym_param("kv", 0)); LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = U; s.KnotVectorV = V; int n = (int)U.size() - p - 1, m = (int)V.size() - q - 1, w = sym_param("w", 0);
  for (int i = 0; i < n; i++) { VPW r; for (int j = 0; j < m; j++) { double W = w ? (1 + ((i + 2 * j) % 3) * 0.5) : 1.0; r.push_back(PW(P3(2.0 * i + 0.25 * j, 2.0 * j - 0.5 * i, ((i * 3 + j * 5) % 4) * 0.5), W)); } s.ControlPoints.push_back(r); }
  double z = rv("z", -3, 3), x = rv("x", -0.5, 0.5), W = w ? 2.0 : 1.0; s.ControlPoints[n / 2][m / 2] = PW(P3(2.0 * (n / 2) + x, 2.0 * (m / 2), z), W); return s;
}
HARNESS(surf_normal) {
  LN_NurbsSurface s = bumpy(); int mid = sym_param("mid", 1); Param u, v; if (mid) { int su = s.DegreeU, sv = s.DegreeV; u = {s.KnotVectorU[su] + 0.3125 * (s.KnotVectorU[su + 1] - s.KnotVectorU[su]), su, false}; v = {s.KnotVectorV[sv] + 0.6875 * (s.KnotVectorV[sv + 1] - s.KnotVectorV[sv]), sv, false}; } else { u = pickInside("u", s.KnotVectorU, s.DegreeU); v = {s.KnotVectorV[s.DegreeV], s.DegreeV, true}; }
  auto R = NurbsSurface::ComputeRationalSurfaceDerivatives(s, 2, UV(u.u, v.u)); P3 Su = R[1][0], Sv = R[0][1], n = NurbsSurface::Normal(s, UV(u.u, v.u));
  sym_check_eq("unit normal", n.X() * n.X() + n.Y() * n.Y() + n.Z() * n.Z(), 1.0, 1e-7); sym_check_eq("normal is perpendicular to Su", n.X() * Su.X() + n.Y() * Su.Y() + n.Z() * Su.Z(), 0.0, 1e-7); sym_check_eq("normal is perpendicular to Sv", n.X() * Sv.X() + n.Y() * Sv.Y() + n.Z() * Sv.Z(), 0.0, 1e-7);
  double cx = Su.Y() * Sv.Z() - Su.Z() * Sv.Y(), cy = Su.Z() * Sv.X() - Su.X() * Sv.Z(), cz = Su.X() * Sv.Y() - Su.Y() * Sv.X(); sym_check_le("normal points along Su x Sv", 0.0, n.X() * cx + n.Y() * cy + n.Z() * cz, 1e-7); sym_reached("surf normal");
}
HARNESS(surf_curvature) {
  LN_NurbsSurface s = bumpy(); int su = s.DegreeU, sv = s.DegreeV; if (sym_param("last", 0)) { su = (int)s.ControlPoints.size() - 1; sv = (int)s.ControlPoints[0].size() - 1; while (s.KnotVectorU[su] == s.KnotVectorU[su + 1]) su--; while (s.KnotVectorV[sv] == s.KnotVectorV[sv + 1]) sv--; } double u = s.KnotVectorU[su] + 0.3125 * (s.KnotVectorU[su + 1] - s.KnotVectorU[su]), v = s.KnotVectorV[sv] + 0.6875 * (s.KnotVectorV[sv + 1] - s.KnotVectorV[sv]); UV uv(u, v);
  auto R = NurbsSurface::ComputeRationalSurfaceDerivatives(s, 2, uv); P3 Su = R[1][0], Sv = R[0][1], a = R[2][0], b = R[1][1], c = R[0][2];
  double cx = Su.Y() * Sv.Z() - Su.Z() * Sv.Y(), cy = Su.Z() * Sv.X() - Su.X() * Sv.Z(), cz = Su.X() * Sv.Y() - Su.Y() * Sv.X(); double g = cx * cx + cy * cy + cz * cz; sym_assume_lt(0.25, g);
  double l = a.X() * cx + a.Y() * cy + a.Z() * cz, m = b.X() * cx + b.Y() * cy + b.Z() * cz, n = c.X() * cx + c.Y() * cy + c.Z() * cz; // L,M,N times sqrt(g)
  double E = Su.X() * Su.X() + Su.Y() * Su.Y() + Su.Z() * Su.Z(), F = Su.X() * Sv.X() + Su.Y() * Sv.Y() + Su.Z() * Sv.Z(), G = Sv.X() * Sv.X() + Sv.Y() * Sv.Y() + Sv.Z() * Sv.Z(); int which = sym_param("c", 0);
  double h = E * n + G * l - 2 * F * m; // 2 H g^{3/2}
  auto K = [&](SurfaceCurvature k) { return NurbsSurface::Curvature(s, k, uv); };
  if (which == 0) sym_check_eq("Gauss curvature", K(SurfaceCurvature::Gauss) * g * g, l * n - m * m, 1e-6);
  else if (which == 1) { double H = K(SurfaceCurvature::Mean); sym_check_eq("mean curvature squared", 4 * H * H * g * g * g, h * h, 1e-6); sym_check_le("mean curvature sign", -1e-9, H * h, 1e-6); }
  else { double k1 = K(SurfaceCurvature::Maximum), k2 = K(SurfaceCurvature::Minimum), H = K(SurfaceCurvature::Mean), KK = K(SurfaceCurvature::Gauss); sym_check_le("maximum is not below minimum", k2, k1, 1e-9); sym_check_eq("k1 + k2 = 2H", k1 + k2, 2 * H, 1e-7);
    if (which == 2) sym_check_eq("k1 k2 = K", k1 * k2, KK, 1e-6); else if (which == 3) { double A = K(SurfaceCurvature::Abs); double a1 = k1 < 0 ? -k1 : k1, a2 = k2 < 0 ? -k2 : k2; sym_check_eq("absolute curvature", A, a1 + a2, 1e-6); } else { double r = K(SurfaceCurvature::Rms); sym_check_eq("rms curvature", r * r, k1 * k1 + k2 * k2, 1e-6); } }
  sym_reached("surf curvature");
}
HARNESS(surf_swap) {
  LN_NurbsSurface s = theSurf("P", 2), r, z; NurbsSurface::Swap(s, r); sym_check("swap well formed", wellFormed(r)); if (!wellFormed(r)) return; Param u = pickInside("u", s.KnotVectorU, s.DegreeU), v = pickInside("v", s.KnotVectorV, s.DegreeV);
  checkH("swapped point", surfH(r, v.span, u.span, v.u, u.u), surfH(s, u.span, v.span, u.u, v.u)); sym_check("swapped degrees", r.DegreeU == s.DegreeV && r.DegreeV == s.DegreeU); NurbsSurface::Swap(r, z); sameSurf("swap twice", s, z); sym_reached("surf swap");
}
HARNESS(surf_reverse) {
  LN_NurbsSurface s = theSurf("P", 2), r, z; int dir = sym_param("dir", 0); SurfaceDirection d = dir == 0 ? SurfaceDirection::All : dir == 1 ? SurfaceDirection::UDirection : SurfaceDirection::VDirection; NurbsSurface::Reverse(s, d, r);
  if (!surfDomainIs("reversed", r, s.KnotVectorU[s.DegreeU], s.KnotVectorU[s.ControlPoints.size()], s.KnotVectorV[s.DegreeV], s.KnotVectorV[s.ControlPoints[0].size()])) return;
  Param u = pickInside("u", s.KnotVectorU, s.DegreeU), v = pickInside("v", s.KnotVectorV, s.DegreeV); int n = (int)s.KnotVectorU.size(), m = (int)s.KnotVectorV.size(); bool ru = dir != 2, rw = dir != 1;
  double u2 = ru ? s.KnotVectorU[0] + s.KnotVectorU[n - 1] - u.u : u.u, v2 = rw ? s.KnotVectorV[0] + s.KnotVectorV[m - 1] - v.u : v.u;
  checkH("reversed point", surfH(r, ru ? n - 2 - u.span : u.span, rw ? m - 2 - v.span : v.span, u2, v2), surfH(s, u.span, v.span, u.u, v.u)); NurbsSurface::Reverse(r, d, z); sameSurf("reverse twice", s, z); sym_reached("surf reverse");
}
HARNESS(surf_reparam) {
  LN_NurbsSurface s = theSurf("P", 2), r; double a = rv("a", -5, 5), b = a + rv("bl", 0.5, 5), c = rv("c", -5, 5), d = c + rv("dl", 0.5, 5); NurbsSurface::Reparametrize(s, a, b, c, d, r);
  bool ok = r.DegreeU == s.DegreeU && r.DegreeV == s.DegreeV && r.KnotVectorU.size() == s.KnotVectorU.size() && r.KnotVectorV.size() == s.KnotVectorV.size() && r.ControlPoints.size() == s.ControlPoints.size(); sym_check("reparametrised shape", ok); if (!ok) return;
  double u0 = s.KnotVectorU[0], u1 = s.KnotVectorU.back(), v0 = s.KnotVectorV[0], v1 = s.KnotVectorV.back();
  for (size_t i = 0; i < r.KnotVectorU.size(); i++) sym_check_eq("u knots map affinely", (r.KnotVectorU[i] - a) * (u1 - u0), (s.KnotVectorU[i] - u0) * (b - a), 2e-5); for (size_t i = 0; i < r.KnotVectorV.size(); i++) sym_check_eq("v knots map affinely", (r.KnotVectorV[i] - c) * (v1 - v0), (s.KnotVectorV[i] - v0) * (d - c), 2e-5);
  for (size_t i = 0; i < s.ControlPoints.size(); i++) for (size_t j = 0; j < s.ControlPoints[i].size(); j++) checkH("control points kept", h4(r.ControlPoints[i][j]), h4(s.ControlPoints[i][j]), 1e-12); sym_reached("surf reparam");
}
static LN_NurbsSurface anchoredSurf(const char* b, int p, int q, const VD& U, const VD& V) {
  LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = U; s.KnotVectorV = V; int n = (int)U.size() - p - 1, m = (int)V.size() - q - 1; static const double pat[] = {0.5, 2, 1, 1.5, 3, 0.75};
  for (int i = 0; i < n; i++) { VPW r; for (int j = 0; j < m; j++) { double w = (i == 0 || j == 0) ? 0.5 : pat[(i + 2 * j) % 6]; if (i == 0 || j == 0) r.push_back(PW(P3(40 + i, j, i - j), 0.5)); else { double x = rv(idx(b, i, j) + "x", -3, 3), y = rv(idx(b, i, j) + "y", -3, 3), z = rv(idx(b, i, j) + "z", -3, 3); r.push_back(PW(x, y, z, w)); } } s.ControlPoints.push_back(r); } return s;
}
// ---- knot and degree operations -------------------------------------------------------------------
HARNESS(surf_insert) {
  LN_NurbsSurface s = theSurf("P", 2), r; bool ud = sym_param("dir", 0) == 0; const VD& K = ud ? s.KnotVectorU : s.KnotVectorV; int p = ud ? s.DegreeU : s.DegreeV; int n = (int)K.size() - p - 2;
  std::vector<int> sp; for (int k = p; k <= n; k++) if (K[k] < K[k + 1]) sp.push_back(k); int m = (int)sp.size(); int c = m == 1 ? 0 : sym_choice("at", 0, 2 * m - 2); double t; int mult = 0; if (c < m) t = sym_real("t", K[sp[c]] + DELTA, K[sp[c] + 1] - DELTA); else { t = K[sp[c - m + 1]]; mult = multOf(K, t); }
  int times = sym_choice("times", 1, p); if (mult + times > p) { sym_assume(0); return; } NurbsSurface::InsertKnot(s, t, times, ud, r); VD E = K; for (int i = 0; i < times; i++) sortInto(E, t); sameKnots("inserted knots", ud ? r.KnotVectorU : r.KnotVectorV, E); sameKnots("other direction's knots", ud ? r.KnotVectorV : r.KnotVectorU, ud ? s.KnotVectorV : s.KnotVectorU); sameSurf("surface after insertion", s, r); sym_reached("surf insert");
}
HARNESS(surf_insert_over) {
  LN_NurbsSurface s = theSurf("P", 2), r; bool ud = sym_param("dir", 0) == 0; const VD& K = ud ? s.KnotVectorU : s.KnotVectorV; int p = ud ? s.DegreeU : s.DegreeV; int at = sym_choice("at", 0, 2); double t = at == 0 ? K[0] : at == 1 ? K.back() : (K[p + 1] < K.back() ? K[p + 1] : 0.5 * (K[0] + K.back()));
  int times = sym_choice("times", 1, p + 2); if (multOf(K, t) + times <= p) { sym_assume(0); return; } NurbsSurface::InsertKnot(s, t, times, ud, r); sameSurf("surface after over-insertion", s, r); sym_reached("surf insert over");
}
HARNESS(surf_refine) {
  LN_NurbsSurface s = theSurf("P", 2), r; bool ud = sym_param("dir", 0) == 0; const VD& K = ud ? s.KnotVectorU : s.KnotVectorV; int p = ud ? s.DegreeU : s.DegreeV; int n = (int)K.size() - p - 2; VD X;
  if (sym_param("mode", 0) == 0) { double t = sym_real("t", K[p] + DELTA, K[p + 1] - DELTA); X.push_back(t); } else { for (int k = p; k <= n; k++) if (K[k] < K[k + 1]) { X.push_back(K[k] + 0.25 * (K[k + 1] - K[k])); if (p > 1) X.push_back(K[k] + 0.25 * (K[k + 1] - K[k])); X.push_back(K[k] + 0.75 * (K[k + 1] - K[k])); } }
  NurbsSurface::RefineKnotVector(s, X, ud, r); VD E = K; for (double x : X) sortInto(E, x); sameKnots("refined knots", ud ? r.KnotVectorU : r.KnotVectorV, E); sameKnots("other direction's knots", ud ? r.KnotVectorV : r.KnotVectorU, ud ? s.KnotVectorV : s.KnotVectorU); sameSurf("surface after refinement", s, r); sym_reached("surf refine");
}
HARNESS(surf_elevate) {
  LN_NurbsSurface s = theSurf("P", 2), r; bool ud = sym_param("dir", 0) == 0; int t = sym_param("t", 1); VD K = ud ? clampKnots(s.KnotVectorU, s.DegreeU) : clampKnots(s.KnotVectorV, s.DegreeV); NurbsSurface::ElevateDegree(s, t, ud, r); sym_check("elevated degree", r.DegreeU == s.DegreeU + (ud ? t : 0) && r.DegreeV == s.DegreeV + (ud ? 0 : t));
  VD E; for (size_t i = 0; i < K.size(); i++) { E.push_back(K[i]); if (i + 1 == K.size() || K[i] != K[i + 1]) for (int k = 0; k < t; k++) E.push_back(K[i]); } sameKnots("elevated knots", ud ? r.KnotVectorU : r.KnotVectorV, E); sameKnots("other direction's knots", ud ? r.KnotVectorV : r.KnotVectorU, ud ? s.KnotVectorV : s.KnotVectorU); sameSurf("surface after elevation", s, r); sym_reached("surf elevate");
}
HARNESS(surf_reduce) { // reducing what was elevated restores it (Bezier in that direction)
  int p = sym_param("p", 2), q = sym_param("q", 1); LN_NurbsSurface s = anchoredSurf("P", p, q, knotPattern(p, sym_param("ku", 0)), knotPattern(q, sym_param("kv", 0))), e, r; bool ud = sym_param("dir", 0) == 0; NurbsSurface::ElevateDegree(s, 1, ud, e); bool ok = NurbsSurface::ReduceDegree(e, ud, r); sym_check("reduction of an elevated surface succeeds", ok); if (!ok) return; sym_check("reduced degree", r.DegreeU == s.DegreeU && r.DegreeV == s.DegreeV); sameSurf("surface after reduction", s, r, 2e-5); sym_reached("surf reduce");
}
HARNESS(surf_reduce_refused) {
  LN_NurbsSurface s = theSurf("P", 0), r; bool ud = sym_param("dir", 0) == 0; sym_check("interior knots are refused", !NurbsSurface::ReduceDegree(s, ud, r)); sym_reached("surf reduce refused");
}
HARNESS(surf_decompose) {
  LN_NurbsSurface s = theSurf("P", 2); auto pat = NurbsSurface::DecomposeToBeziers(s); std::vector<int> su, sv; const VD &U = s.KnotVectorU, &V = s.KnotVectorV; for (int k = s.DegreeU; k < (int)s.ControlPoints.size(); k++) if (U[k] < U[k + 1]) su.push_back(k); for (int k = s.DegreeV; k < (int)s.ControlPoints[0].size(); k++) if (V[k] < V[k + 1]) sv.push_back(k);
  sym_check("one patch per cell", pat.size() == su.size() * sv.size()); if (pat.size() != su.size() * sv.size()) return; double a = rv("a", 0, 1), b = rv("b", 0, 1);
  for (size_t i = 0; i < su.size(); i++) for (size_t j = 0; j < sv.size(); j++) { auto& q = pat[i * sv.size() + j]; bool ok = wellFormed(q) && (int)q.ControlPoints.size() == s.DegreeU + 1 && (int)q.ControlPoints[0].size() == s.DegreeV + 1 && q.DegreeU == s.DegreeU && q.DegreeV == s.DegreeV && clampedAt(q.KnotVectorU, q.DegreeU) && clampedAt(q.KnotVectorV, q.DegreeV) && q.KnotVectorU[0] == 0 && q.KnotVectorU.back() == 1 && q.KnotVectorV[0] == 0 && q.KnotVectorV.back() == 1; sym_check("patch is a Bezier patch over [0,1]", ok); if (!ok) continue;
    double u = U[su[i]] + a * (U[su[i] + 1] - U[su[i]]), v = V[sv[j]] + b * (V[sv[j] + 1] - V[sv[j]]); checkH("patch point", surfH(q, s.DegreeU, s.DegreeV, a, b), surfH(s, su[i], sv[j], u, v)); }
  sym_reached("surf decompose");
}
// raise a knot to full multiplicity, remove the copies again
HARNESS(surf_remove) {
  int p = sym_param("p", 2), q = sym_param("q", 1); bool ud = sym_param("dir", 0) == 0; VD K = knotPattern(p, sym_param("ku", 1)), O = knotPattern(q, sym_param("kv", 0)); LN_NurbsSurface s = ud ? anchoredSurf("P", p, q, K, O) : anchoredSurf("P", q, p, O, K), e, r; double t = K[p] + 0.4375 * (K[p + 1] - K[p]);
  NurbsSurface::InsertKnot(s, t, p, ud, e); NurbsSurface::RemoveKnot(e, t, 1, ud, r); sym_check("result well formed", wellFormed(r)); if (!wellFormed(r)) return; sym_check("one knot removed", (ud ? r.KnotVectorU : r.KnotVectorV).size() == K.size() + p - 1); sameSurf("surface after removal", s, r, 2e-5); sym_reached("surf remove");
}
// one row (column) alone allows fewer removals of a raised knot than the others: the knot goes everywhere or nowhere, and the result is well formed
HARNESS(surf_remove_mixed) {
  int p = sym_param("p", 2), q = sym_param("q", 1), odd = sym_param("odd", 1); bool ud = sym_param("dir", 0) == 0; VD K = knotPattern(p, sym_param("ku", 0)), O = knotPattern(q, sym_param("kv", 1)); LN_NurbsSurface s = ud ? anchoredSurf("P", p, q, K, O) : anchoredSurf("P", q, p, O, K), e, r; double t = K[p] + 0.4375 * (K[p + 1] - K[p]); int n = sym_param("raise", 2);
  int pre = sym_param("pre", n); NurbsSurface::InsertKnot(s, t, pre, ud, e); int i = sym_param("bend", p), last = (int)(ud ? e.ControlPoints[0].size() : e.ControlPoints.size()); int k = odd % last; PW& w = ud ? e.ControlPoints[i][k] : e.ControlPoints[k][i]; double g = rv("bendby", 3, 5); w = PW(w.GetWX(), w.GetWY() + g, w.GetWZ(), w.GetW()); if (n > pre) { LN_NurbsSurface f = e; NurbsSurface::InsertKnot(f, t, n - pre, ud, e); }
  int times = sym_param("times", 1); NurbsSurface::RemoveKnot(e, t, times, ud, r); sym_check("result well formed", wellFormed(r)); if (!wellFormed(r)) return; sameKnots("other direction's knots", ud ? r.KnotVectorV : r.KnotVectorU, O);  sym_reached("surf remove mixed");
}
HARNESS(surf_remove_any) { // arbitrary surface: whatever happens, the result is well formed, keeps the other direction and the corner points
  int p = sym_param("p", 2), q = sym_param("q", 1); bool ud = sym_param("dir", 0) == 0; VD K = knotPattern(p, sym_param("ku", 1)), O = knotPattern(q, sym_param("kv", 0)); LN_NurbsSurface s = ud ? anchoredSurf("P", p, q, K, O) : anchoredSurf("P", q, p, O, K), r; int at = sym_choice("at", 0, 2); double t = at == 0 ? K[0] : at == 1 ? K[p + 1] : 0.5 * (K[p] + K[p + 1]); int times = sym_choice("times", 1, p);
  NurbsSurface::RemoveKnot(s, t, times, ud, r); sym_check("result well formed", wellFormed(r)); if (!wellFormed(r)) return; sameKnots("other direction's knots", ud ? r.KnotVectorV : r.KnotVectorU, O); if (at != 1) sameSurf("an end or absent knot is not removed", s, r);
  size_t n = s.ControlPoints.size() - 1, m = s.ControlPoints[0].size() - 1, a = r.ControlPoints.size() - 1, b = r.ControlPoints[0].size() - 1; checkH("corner 00", h4(r.ControlPoints[0][0]), h4(s.ControlPoints[0][0])); checkH("corner 01", h4(r.ControlPoints[0][b]), h4(s.ControlPoints[0][m])); checkH("corner 10", h4(r.ControlPoints[a][0]), h4(s.ControlPoints[n][0])); checkH("corner 11", h4(r.ControlPoints[a][b]), h4(s.ControlPoints[n][m])); sym_reached("surf remove any");
}
// insertion at the ends of an unclamped direction's domain
HARNESS(surf_insert_ends) {
  LN_NurbsSurface s = theSurf("P", 2), r; bool ud = sym_param("dir", 0) == 0; const VD& K = ud ? s.KnotVectorU : s.KnotVectorV; int p = ud ? s.DegreeU : s.DegreeV; int n = (int)K.size() - p - 2; double t = sym_param("e", 0) ? K[n + 1] : K[p]; int mult = multOf(K, t);
  int times = sym_choice("times", 1, p); if (mult + times > p) { sym_assume(0); return; } NurbsSurface::InsertKnot(s, t, times, ud, r); VD E = K; for (int i = 0; i < times; i++) sortInto(E, t); sameKnots("inserted knots", ud ? r.KnotVectorU : r.KnotVectorV, E); sameSurf("surface after insertion at a domain end", s, r); sym_reached("surf insert end");
}
