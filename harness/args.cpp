// Argument validation: what the library documents as invalid is refused by an exception, what is valid is accepted.
#include "common.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "ValidationUtils.h"
#include "Intersection.h"
#include "UVW.h"
#include "LNLibExceptions.h"
#include "LNEnums.h"
#include <cmath>
using namespace LNLib;
template <class F> static bool refused(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static LN_NurbsCurve fc(double lo, double mid, double hi) { LN_NurbsCurve c; c.Degree = 3; c.KnotVector = {lo, lo, lo, lo, mid, hi, hi, hi, hi}; static const double P[5][4] = {{0, 0, 0, 1}, {1, 2, 1, 2}, {3, -1, 0.5, 0.5}, {4, 1, 2, 1.5}, {6, 0, -1, 1}}; for (auto& q : P) c.ControlPoints.push_back(PW(P3(q[0], q[1], q[2]), q[3])); return c; }
static LN_NurbsSurface fs() { LN_NurbsSurface s; s.DegreeU = 2; s.DegreeV = 3; s.KnotVectorU = {-1, -1, -1, 0.5, 2, 2, 2}; s.KnotVectorV = {3, 3, 3, 3, 5, 5, 5, 5}; for (int i = 0; i < 4; i++) { VPW r; for (int j = 0; j < 4; j++) r.push_back(PW(P3(2 * i + 0.25 * j, 3 * j - 0.5 * i, (i * i + 2 * j) % 5), (i + j) % 2 ? 2 : 1)); s.ControlPoints.push_back(r); } return s; }
static LN_NurbsVolume fv() { LN_NurbsVolume v; v.DegreeU = 2; v.DegreeV = 1; v.DegreeW = 1; v.KnotVectorU = {-1, -1, -1, 2, 2, 2}; v.KnotVectorV = {3, 3, 5, 5}; v.KnotVectorW = {0, 0, 7, 7}; v.ControlPoints.resize(3); for (int i = 0; i < 3; i++) { v.ControlPoints[i].resize(2); for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) v.ControlPoints[i][j].push_back(PW(P3(i * 2, j * 3 + 0.5 * i, k * 2 + 0.25 * j), (i + j + k) % 2 ? 2 : 1)); } return v; }
// a parameter inside (side 0), below (1) or above (2) the interval
static double par(const char* n, int side, double lo, double hi) { return side == 0 ? rv(n, lo, hi) : side == 1 ? rv(n, lo - 4, lo - 1.0 / 65536) : rv(n, hi + 1.0 / 65536, hi + 4); }
#define VERDICT(bad, expr) do { bool r_ = refused([&] { expr; }); sym_check((bad) ? "invalid argument is refused" : "valid argument is accepted", r_ == (bool)(bad)); sym_reached((bad) ? "refused" : "accepted"); } while (0)

HARNESS(arg_curve_param) {
  int f = sym_param("f", 0), side = sym_choice("side", 0, 2); double lo = sym_param("sh", 0) ? -1 : 0, hi = sym_param("sh", 0) ? 2 : 1; LN_NurbsCurve c = fc(lo, lo + 0.375, hi), r; double t = par("t", side, lo, hi); sym_approx_sqrt(1);
  LN_BsplineCurve<P3> b; b.Degree = 3; b.KnotVector = c.KnotVector; for (auto& q : c.ControlPoints) b.ControlPoints.push_back(q.ToXYZ(true)); LN_BezierCurve<P3> z; z.Degree = 4; z.ControlPoints = b.ControlPoints; bool bad = side != 0; double t01 = par("s", side, 0, 1);
  switch (f) {
  case 0: VERDICT(bad, NurbsCurve::GetPointOnCurve(c, t)); break;
  case 1: VERDICT(bad, NurbsCurve::ComputeRationalCurveDerivatives(c, 1, t)); break;
  case 2: VERDICT(bad, NurbsCurve::ComputeRationalCurveDerivatives(c, 2, t)); break;
  case 3: VERDICT(bad, NurbsCurve::Curvature(c, t)); break;
  case 4: VERDICT(bad, NurbsCurve::Torsion(c, t)); break;
  case 5: if (!bad) { int k = sym_choice("at", 0, 2); t = k == 0 ? lo : k == 1 ? lo + 0.5 : hi; } VERDICT(bad, NurbsCurve::Normal(c, CurveNormal::Normal, t)); break;
  case 6: VERDICT(bad, NurbsCurve::Normal(c, CurveNormal::Binormal, t)); break;
  case 7: VERDICT(bad, NurbsCurve::GetPointOnCurveByCornerCut(c, t)); break;
  case 8: VERDICT(bad, BsplineCurve::GetPointOnCurve(b, t)); break;
  case 9: VERDICT(bad, BsplineCurve::ComputeDerivatives(b, 2, t)); break;
  case 10: VERDICT(bad, BsplineCurve::ComputeDerivativesByAllBasisFunctions(b, 2, t)); break;
  case 11: VERDICT(bad, BezierCurve::GetPointOnCurveByBernstein(z, t01)); break;
  case 12: VERDICT(bad, BezierCurve::GetPointOnCurveByDeCasteljau(z, t01)); break;
  case 13: VERDICT(bad, BezierCurve::GetPointOnQuadraticArc(PW(P3(0, 0, 0), 1), PW(P3(1, 1, 0), 0.5), PW(P3(2, 0, 0), 1), t01)); break;
  case 14: VERDICT(bad, Polynomials::GetKnotSpanIndex(3, c.KnotVector, t)); break;
  case 15: VERDICT(bad, Polynomials::GetKnotMultiplicity(c.KnotVector, t)); break;
  case 16: { double N[8]; VERDICT(bad, Polynomials::BasisFunctions(3, 3, c.KnotVector, t, N)); break; }
  case 17: VERDICT(bad, Polynomials::BasisFunctionsDerivatives(3, 3, 2, c.KnotVector, t)); break;
  case 18: { double N[2][8]; VERDICT(bad, Polynomials::BasisFunctionsFirstOrderDerivative(3, 3, c.KnotVector, t, N)); break; }
  case 19: VERDICT(bad, Polynomials::OneBasisFunction(2, 3, c.KnotVector, t)); break;
  case 20: VERDICT(bad, Polynomials::OneBasisFunctionDerivative(2, 3, 2, c.KnotVector, t)); break;
  case 21: VERDICT(bad, Polynomials::AllBasisFunctions(3, 3, c.KnotVector, t)); break;
  case 22: VERDICT(bad, Polynomials::Bernstein(1, 3, t01)); break;
  case 23: VERDICT(bad, Polynomials::AllBernstein(3, t01)); break;
  case 24: if (!bad) { sym_assume(0); return; } VERDICT(bad, NurbsCurve::RemoveKnot(c, t, 1, r)); break;
  }
}
HARNESS(arg_surface_param) {
  int f = sym_param("f", 0), su = sym_choice("su", 0, 2), sv = sym_choice("sv", 0, 2); LN_NurbsSurface s = fs(), r; sym_approx_sqrt(1); double u = par("u", su, -1, 2), v = par("v", sv, 3, 5); UV uv(u, v); bool bad = su || sv;
  LN_BsplineSurface<P3> b; b.DegreeU = 2; b.DegreeV = 3; b.KnotVectorU = s.KnotVectorU; b.KnotVectorV = s.KnotVectorV; for (auto& row : s.ControlPoints) { VP3 q; for (auto& w : row) q.push_back(w.ToXYZ(true)); b.ControlPoints.push_back(q); } LN_BezierSurface<P3> z; z.DegreeU = z.DegreeV = 3; z.ControlPoints = b.ControlPoints;
  switch (f) {
  case 0: VERDICT(bad, NurbsSurface::GetPointOnSurface(s, uv)); break;
  case 1: VERDICT(bad, NurbsSurface::ComputeRationalSurfaceDerivatives(s, 1, uv)); break;
  case 2: { P3 a, d, e; VERDICT(bad, NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, uv, a, d, e)); break; }
  case 3: if (!bad) { u = su ? u : 0.25; uv = UV(0.25, 4); } VERDICT(bad, NurbsSurface::Curvature(s, SurfaceCurvature::Gauss, uv)); break;
  case 4: if (!bad) uv = UV(0.25, 4); VERDICT(bad, NurbsSurface::Normal(s, uv)); break;
  case 5: VERDICT(bad, BsplineSurface::GetPointOnSurface(b, uv)); break;
  case 6: VERDICT(bad, BsplineSurface::ComputeDerivatives(b, 2, uv)); break;
  case 7: VERDICT(bad, BsplineSurface::ComputeDerivativesByAllBasisFunctions(b, 2, uv)); break;
  case 8: VERDICT(bad, BezierSurface::GetPointOnSurfaceByDeCasteljau(z, UV(par("a", su, 0, 1), par("b", sv, 0, 1)))); break;
  case 9: { std::vector<VD> m{{1, 2}, {3, 4}, {5, 6}}; UV q(par("a", su, 0, 1), par("b", sv, 0, 1)); VERDICT(bad, Polynomials::Horner(2, 1, m, q)); break; }
  case 10: { if (!su) { sym_assume(0); return; } VERDICT(true, NurbsSurface::RemoveKnot(s, u, 1, true, r)); break; }
  case 11: { if (!sv) { sym_assume(0); return; } VERDICT(true, NurbsSurface::RemoveKnot(s, v, 1, false, r)); break; }
  case 12: { LN_NurbsVolume q = fv(); int sw = sym_choice("sw", 0, 2); VERDICT(bad || sw, NurbsVolume::GetPointOnVolume(q, UVW(u, v, par("w", sw, 0, 7)))); break; }
  case 13: { LN_NurbsVolume q = fv(); int sw = sym_choice("sw", 0, 2); VERDICT(bad || sw, NurbsVolume::ComputeVolumeRationalDerivatives(q, 1, UVW(u, v, par("w", sw, 0, 7)))); break; }
  }
}
// a knot vector is accepted exactly when it does not decrease
HARNESS(arg_knots) {
  int f = sym_param("f", 0), at = sym_param("at", 0); double a = rv("a", -2, 3); VD U{0, 0, 0, 0.5, 1, 1, 1}; if (at == 0) U[3] = a; else if (at == 1) { U.insert(U.begin() + 4, a); } else if (at == 2) U[0] = a; else U[6] = a;
  int n = (int)U.size() - 3; bool ok = true; for (size_t i = 0; i + 1 < U.size(); i++) if (U[i + 1] < U[i]) ok = false; double t = 0.75; LN_NurbsCurve c; c.Degree = 2; c.KnotVector = U; for (int i = 0; i < n; i++) c.ControlPoints.push_back(PW(i, i * i, 1, 1));
  LN_NurbsSurface s; s.DegreeU = 2; s.DegreeV = 1; s.KnotVectorU = U; s.KnotVectorV = {0, 0, 1, 1}; s.ControlPoints = VVPW(n, VPW(2, PW(1, 2, 3, 1))); LN_NurbsSurface w; w.DegreeU = 1; w.DegreeV = 2; w.KnotVectorU = {0, 0, 1, 1}; w.KnotVectorV = U; w.ControlPoints = VVPW(2, VPW(n, PW(1, 2, 3, 1)));
  LN_BsplineCurve<P3> b; b.Degree = 2; b.KnotVector = U; b.ControlPoints = VP3(n, P3(1, 2, 3)); LN_BsplineSurface<P3> bs, bw; bs.DegreeU = 2; bs.DegreeV = 1; bs.KnotVectorU = U; bs.KnotVectorV = {0, 0, 1, 1}; bs.ControlPoints = std::vector<VP3>(n, VP3(2, P3(1, 2, 3))); bw.DegreeU = 1; bw.DegreeV = 2; bw.KnotVectorU = {0, 0, 1, 1}; bw.KnotVectorV = U; bw.ControlPoints = std::vector<VP3>(2, VP3(n, P3(1, 2, 3)));
  if (f >= 7 && at == 3 && ok && !(t < a)) { sym_assume(0); return; } if (f >= 7 && ok && at == 2 && !(a <= t)) { sym_assume(0); return; }
  switch (f) {
  case 0: sym_check("knot vector validity", ValidationUtils::IsValidKnotVector(U) == ok); sym_reached("accepted"); break;
  case 1: VERDICT(!ok, NurbsCurve::Check(c)); break;
  case 2: VERDICT(!ok, NurbsSurface::Check(s)); break;
  case 3: VERDICT(!ok, NurbsSurface::Check(w)); break;
  case 4: VERDICT(!ok, BsplineCurve::Check(b)); break;
  case 5: VERDICT(!ok, BsplineSurface::Check(bs)); break;
  case 6: VERDICT(!ok, BsplineSurface::Check(bw)); break;
  case 7: if (ok) { sym_assume(0); return; } VERDICT(true, Polynomials::GetKnotSpanIndex(2, U, t)); break;
  case 8: if (ok) { sym_assume(0); return; } VERDICT(true, Polynomials::GetKnotMultiplicity(U, t)); break;
  case 9: { if (ok) { sym_assume(0); return; } double N[8]; VERDICT(true, Polynomials::BasisFunctions(2, 2, U, t, N)); break; }
  case 10: if (ok) { sym_assume(0); return; } VERDICT(true, Polynomials::BasisFunctionsDerivatives(2, 2, 1, U, t)); break;
  case 11: { if (ok) { sym_assume(0); return; } double N[2][8]; VERDICT(true, Polynomials::BasisFunctionsFirstOrderDerivative(2, 2, U, t, N)); break; }
  case 12: if (ok) { sym_assume(0); return; } VERDICT(true, Polynomials::OneBasisFunction(1, 2, U, t)); break;
  case 13: if (ok) { sym_assume(0); return; } VERDICT(true, Polynomials::OneBasisFunctionDerivative(1, 2, 1, U, t)); break;
  case 14: if (ok) { sym_assume(0); return; } VERDICT(true, Polynomials::AllBasisFunctions(2, 2, U, t)); break;
  case 15: if (ok) { sym_assume(0); return; } VERDICT(true, KnotVectorUtils::GetInsertedKnotElement(2, U, 0.25, 0.75)); break;
  }
}
// the object checks accept exactly positive degrees with matching numbers of knots and control points
HARNESS(arg_counts) {
  int f = sym_param("f", 0), p = sym_choice("degree", -1, 4), n = sym_choice("points", 0, 6), m = sym_choice("knots", 0, 10); VD U; for (int i = 0; i < m; i++) U.push_back(i * 0.5); bool ok = p > 0 && n > 0 && m > 0 && m == n + p + 1, okb = p > 0 && n == p + 1;
  if (f == 0) { LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; c.ControlPoints = VPW(n, PW(1, 2, 3, 1)); VERDICT(!ok, NurbsCurve::Check(c)); sym_check("count rule for NURBS", ValidationUtils::IsValidNurbs(p, m, n) == (m == n + p + 1)); sym_check("count rule for B-splines", ValidationUtils::IsValidBspline(p, m, n) == (m == n + p + 1)); sym_check("count rule for Bezier", ValidationUtils::IsValidBezier(p, n) == (n == p + 1)); sym_check("reducible degrees", ValidationUtils::IsValidDegreeReduction(p) == (p > 1)); }
  if (f == 1) { LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = 1; s.KnotVectorU = U; s.KnotVectorV = {0, 0, 1, 1}; s.ControlPoints = VVPW(n, VPW(2, PW(1, 2, 3, 1))); VERDICT(!ok, NurbsSurface::Check(s)); }
  if (f == 2) { LN_NurbsSurface s; s.DegreeU = 1; s.DegreeV = p; s.KnotVectorU = {0, 0, 1, 1}; s.KnotVectorV = U; s.ControlPoints = VVPW(2, VPW(n, PW(1, 2, 3, 1))); VERDICT(!(p > 0 && m > 0 && m == n + p + 1), NurbsSurface::Check(s)); }
  if (f == 3) { LN_BsplineCurve<P3> c; c.Degree = p; c.KnotVector = U; c.ControlPoints = VP3(n, P3(1, 2, 3)); VERDICT(!ok, BsplineCurve::Check(c)); }
  if (f == 4) { LN_BsplineSurface<P3> s; s.DegreeU = p; s.DegreeV = 1; s.KnotVectorU = U; s.KnotVectorV = {0, 0, 1, 1}; s.ControlPoints = std::vector<VP3>(n, VP3(2, P3(1, 2, 3))); VERDICT(!ok, BsplineSurface::Check(s)); }
  if (f == 5) { LN_BsplineSurface<P3> s; s.DegreeU = 1; s.DegreeV = p; s.KnotVectorU = {0, 0, 1, 1}; s.KnotVectorV = U; s.ControlPoints = std::vector<VP3>(2, VP3(n, P3(1, 2, 3))); VERDICT(!(p > 0 && m > 0 && m == n + p + 1), BsplineSurface::Check(s)); }
  if (f == 6) { LN_BezierCurve<P3> c; c.Degree = p; c.ControlPoints = VP3(n, P3(1, 2, 3)); VERDICT(!okb, BezierCurve::Check(c)); }
  if (f == 7) { LN_BezierSurface<P3> c; c.DegreeU = p; c.DegreeV = 2; c.ControlPoints = std::vector<VP3>(n, VP3(3, P3(1, 2, 3))); VERDICT(!okb, BezierSurface::Check(c)); }
  if (f == 8) { LN_BezierSurface<PW> c; c.DegreeU = 1; c.DegreeV = p; c.ControlPoints = VVPW(2, VPW(n, PW(1, 2, 3, 1))); VERDICT(!okb, BezierSurface::Check(c)); }
}
static P3 far3(const char* n) { double x = rv(std::string(n) + "x", 1, 4), y = rv(std::string(n) + "y", -4, 4), z = rv(std::string(n) + "z", -4, 4); return P3(x, y, z); }
static int badIndex(const char* n, int size) { int k = sym_choice(n, 0, 3); return k == 0 ? -1 : k == 1 ? -3 : k == 2 ? size : size + 2; }
// every case is one invalid argument among symbolic valid ones
HARNESS(arg_curve_op) {
  int f = sym_param("f", 0); VD U = knotPattern(2, 2); double lo = 0, hi = 1; LN_NurbsCurve c = mkCurve("P", 2, U, 1), r; int n = (int)c.ControlPoints.size(); P3 zero(0, 0, 0), a = far3("a"), b = P3(-3, 0, 0), d = far3("d"); P3 q, w; double pw; std::vector<PW> mid; int neg = sym_choice("neg", -2, 0), side = sym_choice("side", 1, 2); double out = par("o", side, lo, hi), in = rv("i", 0.25, 0.5), nonpos = rv("z", -4, 0);
  VP3 pts; for (int i = 0; i < 5; i++) pts.push_back(P3(i, rv(idx("y", i), -2, 2), 0)); VP3 tg(5, P3(1, 0, 0)); VD e5(5, 0.0), p5{0, 0.25, 0.5, 0.75, 1}, w5(5, 1.0);
  switch (f) {
  case 0: VERDICT(true, NurbsCurve::InsertKnot(c, in, neg, r)); break;
  case 1: VERDICT(true, NurbsCurve::RefineKnotVector(c, {}, r)); break;
  case 2: VERDICT(true, NurbsCurve::RemoveKnot(c, 0.25, neg, r)); break;
  case 3: VERDICT(true, NurbsCurve::ElevateDegree(c, neg, r)); break;
  case 4: { double al = rv("al", -3, 3), be = rv("be", -3, 3), ga = rv("ga", -3, 3), de = rv("de", -3, 3); sym_assume_le(al * de, ga * be); VERDICT(true, NurbsCurve::Reparametrize(c, al, be, ga, de, r)); break; }
  case 5: VERDICT(true, NurbsCurve::Extract(c, out, 0.75, r)); break;
  case 6: VERDICT(true, NurbsCurve::Extract(c, 0.125, out, r)); break;
  case 7: VERDICT(true, NurbsCurve::Extract(c, rv("s", 0.5, 1), in, r)); break;
  case 8: VERDICT(true, NurbsCurve::CreateLine(a, a, r)); break;
  case 9: { int k = sym_choice("k", 1, 3); pts.resize(k); tg.resize(k); VERDICT(true, NurbsCurve::CreateCubicHermite(pts, tg, r)); break; }
  case 10: { int k = sym_choice("k", 0, 7); if (k == 5) { sym_assume(0); return; } tg.resize(k, P3(0, 1, 0)); VERDICT(true, NurbsCurve::CreateCubicHermite(pts, tg, r)); break; }
  case 11: VERDICT(true, NurbsCurve::CreateArc(a, zero, P3(0, 1, 0), 0, in, 1, 2, r)); break;
  case 12: VERDICT(true, NurbsCurve::CreateArc(a, P3(1, 0, 0), zero, 0, in, 1, 2, r)); break;
  case 13: VERDICT(true, NurbsCurve::CreateArc(a, P3(1, 0, 0), P3(0, 1, 0), in, in + nonpos, 1, 2, r)); break;
  case 14: VERDICT(true, NurbsCurve::CreateArc(a, P3(1, 0, 0), P3(0, 1, 0), in, in + rv("sw", 6.2832, 9), 1, 2, r)); break;
  case 15: VERDICT(true, NurbsCurve::CreateArc(a, P3(1, 0, 0), P3(0, 1, 0), 0, in, nonpos, 2, r)); break;
  case 16: VERDICT(true, NurbsCurve::CreateArc(a, P3(1, 0, 0), P3(0, 1, 0), 0, in, 1, nonpos, r)); break;
  case 17: VERDICT(true, NurbsCurve::CreateOneConicArc(a, zero, b, d, P3(0, 1, 0), q, pw)); break;
  case 18: VERDICT(true, NurbsCurve::CreateOneConicArc(a, d, b, zero, P3(0, 1, 0), q, pw)); break;
  case 19: VERDICT(true, NurbsCurve::CreateOpenConic(a, zero, b, d, P3(0, 1, 0), r)); break;
  case 20: VERDICT(true, NurbsCurve::CreateOpenConic(a, d, b, zero, P3(0, 1, 0), r)); break;
  case 21: VERDICT(true, NurbsCurve::GlobalInterpolation(sym_choice("k", 0, 1) ? 8 : -1, VP3(12, a), r)); break;
  case 22: VERDICT(true, NurbsCurve::GlobalInterpolation(sym_choice("k", 5, 7), pts, r)); break;
  case 23: { p5.resize(sym_choice("k", 0, 1) ? 4 : 7, 1.0); VERDICT(true, NurbsCurve::GlobalInterpolation(2, pts, r, p5)); break; }
  case 24: VERDICT(true, NurbsCurve::GlobalInterpolation(neg, pts, tg, 1.0, r)); break;
  case 25: tg.resize(sym_choice("k", 0, 1) ? 4 : 6, P3(1, 0, 0)); VERDICT(true, NurbsCurve::GlobalInterpolation(2, pts, tg, 1.0, r)); break;
  case 26: VERDICT(true, NurbsCurve::GlobalInterpolation(sym_choice("k", 5, 7), pts, tg, 1.0, r)); break;
  case 27: VERDICT(true, NurbsCurve::GlobalInterpolation(2, pts, tg, nonpos, r)); break;
  case 28: VERDICT(true, NurbsCurve::CubicLocalInterpolation({}, r)); break;
  case 29: VERDICT(true, NurbsCurve::LeastSquaresApproximation(sym_choice("k", 0, 1) ? 8 : -1, VP3(12, a), 4, r)); break;
  case 30: VERDICT(true, NurbsCurve::LeastSquaresApproximation(2, pts, neg, r)); break;
  case 31: VERDICT(true, NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(neg, pts, w5, {}, {}, {}, 4, r)); break;
  case 32: VERDICT(true, NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(sym_choice("k", 5, 7), pts, w5, {}, {}, {}, 4, r)); break;
  case 33: w5.resize(sym_choice("k", 0, 1) ? 4 : 6, 1.0); VERDICT(true, NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, pts, w5, {}, {}, {}, 4, r)); break;
  case 34: VERDICT(true, NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, pts, w5, {d}, sym_choice("k", 0, 1) ? std::vector<int>{} : std::vector<int>{0, 1}, {1.0}, 4, r)); break;
  case 35: VERDICT(true, NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, pts, w5, {d}, {0}, sym_choice("k", 0, 1) ? VD{} : VD{1, 1}, 4, r)); break;
  case 36: VERDICT(true, NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, pts, w5, {d}, {badIndex("k", 5)}, {1.0}, 4, r)); break;
  case 37: VERDICT(true, NurbsCurve::ComputerRemoveKnotErrorBound(c, badIndex("k", (int)U.size()))); break;
  case 38: { VD no; VERDICT(true, NurbsCurve::RemoveKnotsByGivenBound(c, no, no, 0.1, r)); break; }
  case 39: { e5.resize(sym_choice("k", 0, 1) ? 4 : 6); VERDICT(true, NurbsCurve::RemoveKnotsByGivenBound(c, p5, e5, 0.1, r)); break; }
  case 40: VERDICT(true, NurbsCurve::RemoveKnotsByGivenBound(c, p5, e5, nonpos, r)); break;
  case 41: VERDICT(true, NurbsCurve::GlobalApproximationByErrorBound(neg, pts, 0.1, r)); break;
  case 42: VERDICT(true, NurbsCurve::GlobalApproximationByErrorBound(sym_choice("k", 5, 7), pts, 0.1, r)); break;
  case 43: VERDICT(true, NurbsCurve::GlobalApproximationByErrorBound(2, pts, nonpos, r)); break;
  case 44: VERDICT(true, NurbsCurve::FitWithConic({}, 0, 1, a, d, 0.1, mid)); break;
  case 45: VERDICT(true, NurbsCurve::FitWithConic(pts, badIndex("k", 5), 4, a, d, 0.1, mid)); break;
  case 46: VERDICT(true, NurbsCurve::FitWithConic(pts, 2, sym_choice("k", 0, 5) < 3 ? neg + 2 : 5, a, d, 0.1, mid)); break;
  case 47: VERDICT(true, NurbsCurve::FitWithConic(pts, 0, 4, zero, d, 0.1, mid)); break;
  case 48: VERDICT(true, NurbsCurve::FitWithConic(pts, 0, 4, d, zero, 0.1, mid)); break;
  case 49: pts.resize(sym_choice("k", 0, 2)); VERDICT(true, NurbsCurve::FitWithCubic(pts, 0, 1, a, d, 0.1, mid)); break;
  case 50: VERDICT(true, NurbsCurve::FitWithCubic(pts, badIndex("k", 5), 4, a, d, 0.1, mid)); break;
  case 51: VERDICT(true, NurbsCurve::FitWithCubic(pts, 2, sym_choice("k", 0, 5) < 3 ? neg + 2 : 5, a, d, 0.1, mid)); break;
  case 52: VERDICT(true, NurbsCurve::FitWithCubic(pts, 0, 4, zero, d, 0.1, mid)); break;
  case 53: VERDICT(true, NurbsCurve::FitWithCubic(pts, 0, 4, d, zero, 0.1, mid)); break;
  case 54: VERDICT(true, NurbsCurve::ControlPointReposition(c, out, 1, d, 0.5, r)); break;
  case 55: VERDICT(true, NurbsCurve::ControlPointReposition(c, in, badIndex("k", n), d, 0.5, r)); break;
  case 56: VERDICT(true, NurbsCurve::ControlPointReposition(c, in, 1, zero, 0.5, r)); break;
  case 57: VERDICT(true, NurbsCurve::ControlPointReposition(c, in, 1, d, 0.0, r)); break;
  case 58: VERDICT(true, NurbsCurve::WeightModification(c, out, 1, 0.5, r)); break;
  case 59: VERDICT(true, NurbsCurve::WeightModification(c, in, badIndex("k", n), 0.5, r)); break;
  case 60: VERDICT(true, NurbsCurve::WeightModification(c, in, 1, 0.0, r)); break;
  case 61: VERDICT(true, NurbsCurve::NeighborWeightsModification(c, out, 1, 0.5, 0.5, r)); break;
  case 62: VERDICT(true, NurbsCurve::NeighborWeightsModification(c, in, badIndex("k", n - 1), 0.5, 0.5, r)); break;
  case 63: VERDICT(true, NurbsCurve::NeighborWeightsModification(c, in, 1, 0.0, 0.5, r)); break;
  case 64: VERDICT(true, NurbsCurve::NeighborWeightsModification(c, in, 1, 0.5, 0.0, r)); break;
  case 65: VERDICT(true, NurbsCurve::Warping(c, VD(sym_choice("k", 0, 1) ? n - 1 : n + 1, 1.0), 0.5, d, 0.125, 0.75, r)); break;
  case 66: VERDICT(true, NurbsCurve::Warping(c, VD(n, 1.0), 0.0, d, 0.125, 0.75, r)); break;
  case 67: VERDICT(true, NurbsCurve::Warping(c, VD(n, 1.0), 0.5, zero, 0.125, 0.75, r)); break;
  case 68: VERDICT(true, NurbsCurve::Warping(c, VD(n, 1.0), 0.5, d, out, 0.75, r)); break;
  case 69: VERDICT(true, NurbsCurve::Warping(c, VD(n, 1.0), 0.5, d, 0.125, out, r)); break;
  case 70: VERDICT(true, NurbsCurve::Warping(c, VD(n, 1.0), 0.5, d, in, in + nonpos, r)); break;
  case 71: VERDICT(true, NurbsCurve::Flattening(c, a, a, 0.125, 0.75, r)); break;
  case 72: VERDICT(true, NurbsCurve::Flattening(c, a, b, out, 0.75, r)); break;
  case 73: VERDICT(true, NurbsCurve::Flattening(c, a, b, 0.125, out, r)); break;
  case 74: VERDICT(true, NurbsCurve::Flattening(c, a, b, in, in + nonpos, r)); break;
  case 75: VERDICT(true, NurbsCurve::Bending(c, out, 0.75, a, 1, 0.5, r)); break;
  case 76: VERDICT(true, NurbsCurve::Bending(c, 0.125, out, a, 1, 0.5, r)); break;
  case 77: VERDICT(true, NurbsCurve::Bending(c, rv("s", 0.5, 1), in, a, 1, 0.5, r)); break;
  case 78: VERDICT(true, NurbsCurve::ConstraintBasedModification(c, {}, {d}, {0}, {0}, {}, r)); break;
  case 79: VERDICT(true, NurbsCurve::ConstraintBasedModification(c, {in}, {}, {}, {}, {}, r)); break;
  case 80: VERDICT(true, NurbsCurve::ConstraintBasedModification(c, {in}, {d}, {0, 0}, {0, 0}, {}, r)); break;
  case 81: VERDICT(true, NurbsCurve::ConstraintBasedModification(c, {in}, {d}, {0}, {0, 1}, {}, r)); break;
  case 82: { double p0, p1; VERDICT(true, Intersection::ComputeRays(a, zero, b, d, p0, p1, q)); break; }
  case 83: { double p0, p1; VERDICT(true, Intersection::ComputeRays(a, d, b, zero, p0, p1, q)); break; }
  case 84: VERDICT(true, KnotVectorUtils::GetContinuity(neg, U, 0.25)); break;
  case 85: VERDICT(true, KnotVectorUtils::GetInsertedKnotElement(2, VD{}, 0.25, 0.5)); break;
  case 86: VERDICT(true, KnotVectorUtils::GetInsertedKnotElement(2, U, rv("s", 0.501, 1), in)); break;
  case 87: VERDICT(true, KnotVectorUtils::GetInsertedKnotElement(neg - 1, U, 0.25, 0.5)); break;
  case 88: VERDICT(true, Polynomials::Horner(neg, VD{1}, in)); break;
  case 89: VERDICT(true, Polynomials::Horner(2, VD(sym_choice("k", 0, 1) ? 2 : 4, 1.0), in)); break;
  case 90: VERDICT(true, Polynomials::Bernstein(sym_choice("k", 0, 1) ? 4 : -1, 3, in)); break;
  case 91: { int g = sym_choice("k", 0, 1) ? 8 : -1; double N[16]; VD V(20, 0.0); for (int i = 10; i < 20; i++) V[i] = 1; VERDICT(true, Polynomials::BasisFunctions(9, g, V, in, N)); break; }
  case 92: { double N[8]; VERDICT(true, Polynomials::BasisFunctions(neg - 1, 2, U, in, N)); break; }
  case 93: VERDICT(true, Polynomials::BasisFunctionsDerivatives(2, 2, sym_choice("k", 3, 4), U, in)); break;
  case 94: VERDICT(true, Polynomials::BasisFunctionsDerivatives(neg - 1, 2, 1, U, in)); break;
  case 95: { double N[2][8]; VERDICT(true, Polynomials::BasisFunctionsFirstOrderDerivative(2, 0, U, in, N)); break; }
  case 96: VERDICT(true, Polynomials::OneBasisFunction(neg - 1, 2, U, in)); break;
  case 97: VERDICT(true, Polynomials::OneBasisFunction(1, neg, U, in)); break;
  case 98: VERDICT(true, Polynomials::OneBasisFunctionDerivative(1, 2, sym_choice("k", 3, 4), U, in)); break;
  case 99: VERDICT(true, Polynomials::AllBasisFunctions(neg - 1, 2, U, in)); break;
  case 100: VERDICT(true, Polynomials::GetKnotSpanIndex(neg - 1, U, in)); break;
  case 101: VERDICT(true, Polynomials::GetKnotMultiplicity(VD{}, in)); break;
  case 102: { LN_BsplineCurve<P3> s; s.Degree = 2; s.KnotVector = U; s.ControlPoints = VP3(n, a); VERDICT(true, BsplineCurve::ComputeDerivatives(s, neg, in)); break; }
  case 103: { LN_BsplineCurve<P3> s; s.Degree = 2; s.KnotVector = U; s.ControlPoints = VP3(n, a); VERDICT(true, BsplineCurve::ComputeControlPointsOfDerivatives(s, neg, 0, n - 1)); break; }
  case 104: { LN_BsplineCurve<P3> s; s.Degree = 2; s.KnotVector = U; s.ControlPoints = VP3(n, a); VERDICT(true, BsplineCurve::ComputeDerivativesByAllBasisFunctions(s, neg, in)); break; }
  case 105: VERDICT(true, NurbsCurve::ComputeRationalCurveDerivatives(c, neg, in)); break;
  }
}
HARNESS(arg_surface_op) {
  int f = sym_param("f", 0); LN_NurbsSurface s = mkSurf("P", 2, 1, knotPattern(2, 1), knotPattern(1, 2), 1), r; int neg = sym_choice("neg", -2, 0), k = sym_choice("k", 0, 1); bool du = k; P3 zero(0, 0, 0), a = far3("a"), d = far3("d"); double in = rv("i", 0.25, 0.5), nonpos = rv("z", -4, 0); LN_NurbsCurve c = mkCurve("Q", 2, knotPattern(2, 1), 1);
  std::vector<VP3> g; for (int i = 0; i < 4; i++) { VP3 row; for (int j = 0; j < 5; j++) row.push_back(P3(i, j, rv(idx("h", i, j), -1, 1))); g.push_back(row); }
  switch (f) {
  case 0: VERDICT(true, NurbsSurface::RemoveKnot(s, 0.375, neg, du, r)); break;
  case 1: VERDICT(true, NurbsSurface::ElevateDegree(s, neg, du, r)); break;
  case 2: VERDICT(true, NurbsSurface::RefineKnotVector(s, {}, du, r)); break;
  case 3: VERDICT(true, NurbsSurface::ComputeRationalSurfaceDerivatives(s, neg, UV(in, in))); break;
  case 4: VERDICT(true, NurbsSurface::CreateCylindricalSurface(a, k ? zero : P3(1, 0, 0), k ? P3(0, 1, 0) : zero, 0, 1, 1, 2, r)); break;
  case 5: VERDICT(true, NurbsSurface::CreateCylindricalSurface(a, P3(1, 0, 0), P3(0, 1, 0), in, in + nonpos, 1, 2, r)); break;
  case 6: VERDICT(true, NurbsSurface::CreateCylindricalSurface(a, P3(1, 0, 0), P3(0, 1, 0), 0, 1, k ? nonpos : 1.0, k ? 2.0 : nonpos, r)); break;
  case 7: VERDICT(true, NurbsSurface::CreateRevolvedSurface(a, zero, 1.0, c, r)); break;
  case 8: VERDICT(true, NurbsSurface::GlobalInterpolation({}, 1, 1, r)); break;
  case 9: VERDICT(true, NurbsSurface::GlobalInterpolation(std::vector<VP3>(3), 1, 1, r)); break;
  case 10: { int b = sym_choice("b", 0, 1) ? 8 : -1; std::vector<VP3> G(12, VP3(12, a)); VERDICT(true, NurbsSurface::GlobalInterpolation(G, k ? b : 2, k ? 2 : b, r)); break; }
  case 11: VERDICT(true, NurbsSurface::GlobalInterpolation(g, k ? 4 : 2, k ? 2 : 5, r)); break;
  case 12: VERDICT(true, k ? NurbsSurface::BicubicLocalInterpolation({}, r) : NurbsSurface::BicubicLocalInterpolation(std::vector<VP3>(3), r)); break;
  case 13: g[2].resize(k ? 4 : 6); VERDICT(true, NurbsSurface::BicubicLocalInterpolation(g, r)); break;
  case 14: VERDICT(true, k ? NurbsSurface::GlobalApproximation({}, 1, 1, 2, 2, r) : NurbsSurface::GlobalApproximation(std::vector<VP3>(3), 1, 1, 2, 2, r)); break;
  case 15: { int b = sym_choice("b", 0, 2); b = b == 2 ? 8 : -b; std::vector<VP3> G(12, VP3(12, a)); VERDICT(true, NurbsSurface::GlobalApproximation(G, k ? b : 2, k ? 2 : b, 10, 10, r)); break; }
  case 16: VERDICT(true, NurbsSurface::GlobalApproximation(g, 2, 2, k ? 2 : 3, k ? 3 : 2, r)); break;
  case 17: { LN_NurbsCurve e = c; for (auto& x : e.KnotVector) x = k ? x + 1 : 2 * x; VERDICT(true, NurbsSurface::CreateRuledSurface(c, e, r)); break; }
  case 18: { std::vector<VD> m(sym_choice("b", 0, 1) ? 2 : 4, VD(2, 1.0)); UV q(in, in); VERDICT(true, Polynomials::Horner(2, 1, m, q)); break; }
  case 19: { std::vector<VD> m(3, VD(sym_choice("b", 0, 1) ? 1 : 3, 1.0)); UV q(in, in); VERDICT(true, Polynomials::Horner(2, 1, m, q)); break; }
  case 20: { std::vector<VD> m(1, VD(1, 1.0)); UV q(in, in); VERDICT(true, Polynomials::Horner(k ? neg : 1, k ? 1 : neg, m, q)); break; }
  case 21: { LN_BsplineSurface<P3> b; b.DegreeU = 2; b.DegreeV = 1; b.KnotVectorU = s.KnotVectorU; b.KnotVectorV = s.KnotVectorV; b.ControlPoints = std::vector<VP3>(s.ControlPoints.size(), VP3(s.ControlPoints[0].size(), a)); VERDICT(true, k ? (void)BsplineSurface::ComputeDerivatives(b, neg, UV(in, in)) : (void)BsplineSurface::ComputeDerivativesByAllBasisFunctions(b, neg, UV(in, in))); break; }
  case 22: { // four boundary curves of which one corner does not meet
    LN_NurbsCurve L, B, R, T; auto line = [](P3 p, P3 q) { LN_NurbsCurve x; x.Degree = 1; x.KnotVector = {0, 0, 1, 1}; x.ControlPoints = {PW(p, 1), PW(q, 1)}; return x; }; int which = sym_choice("which", 0, 3); P3 q[4] = {P3(0, 0, 0), P3(4, 0, 0), P3(4, 3, 0), P3(0, 3, 0)}; P3 g1 = P3(0, 0, rv("gap", 0.01, 2)); P3 z0(0, 0, 0);
    L = line(q[0] + (which == 0 ? g1 : z0), q[3]); B = line(q[0], q[1] + (which == 1 ? g1 : z0)); R = line(q[1], q[2] + (which == 2 ? g1 : z0)); T = line(q[3] + (which == 3 ? g1 : z0), q[2]); VERDICT(true, NurbsSurface::CreateCoonsSurface(L, B, R, T, r)); break; }
  }
}
// a volume is valid when its Jacobian is positive everywhere: affine boxes of either handedness
HARNESS(vol_check) {
  int neg = sym_param("neg", 1); LN_NurbsVolume v; v.DegreeU = v.DegreeV = v.DegreeW = 1; v.KnotVectorU = v.KnotVectorV = v.KnotVectorW = {0, 0, 1, 1}; double a = neg ? rv("a", 0.5, 2) : 2, b = neg ? rv("b", 0.5, 2) : 1, c = neg ? rv("c", -2, 0) : 1.5, s = neg ? rv("s", -1, 1) : 0.5;
  v.ControlPoints.resize(2); for (int i = 0; i < 2; i++) { v.ControlPoints[i].resize(2); for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) v.ControlPoints[i][j].push_back(PW(P3(i * a + j * s + k * s, j * b + k * s, k * c), 1)); }
  sym_check(neg ? "an inverted or flat volume is invalid" : "a proper volume is valid", NurbsVolume::Check(v) == !neg); sym_reached("vol check");
}
// inverted only towards one end of one direction
HARNESS(vol_check_part) {
  int d = sym_param("d", 0); double f = sym_param("f", 50) / 100.0; P3 T(rv("tx", -3, 3), rv("ty", -3, 3), 1); LN_NurbsVolume v; v.DegreeU = v.DegreeV = v.DegreeW = 1; v.KnotVectorU = {0, 0, 1, 1}; v.KnotVectorV = {1, 1, 3, 3}; v.KnotVectorW = {-2, -2, 5, 5}; v.ControlPoints.resize(2); for (int i = 0; i < 2; i++) { v.ControlPoints[i].resize(2); for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) { int t = d == 0 ? i : d == 1 ? j : k; double s = t ? -f : 1.0; P3 q = d == 0 ? P3(i * 2.0, j * s, k * 3.0) : P3(i * s, j * 2.0, k * 3.0); v.ControlPoints[i][j].push_back(PW(T + q, 1)); } }
  sym_check("a volume inverted at one end is invalid", !NurbsVolume::Check(v)); sym_reached("vol check part");
}
