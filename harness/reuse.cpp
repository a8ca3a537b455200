// C41: what an operation returns depends on its arguments alone: not on what the output object held before the call, nor on earlier calls
// C42: nor on whether the output object is the input object
#include "common.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "BezierCurve.h"
#include "Interpolation.h"
#include "KnotVectorUtils.h"
#include "MathUtils.h"
#include "Matrix4d.h"
#include "UV.h"
#include "Polynomials.h"
using namespace LNLib;
typedef LN_NurbsCurve NC; typedef LN_NurbsSurface NS; typedef LN_NurbsVolume NV;
static const double T = 1e-12;
static void eqD(const std::string& w, double a, double b) { sym_check_eq(w.c_str(), a, b, T); }
static void eqP(const std::string& w, const P3& a, const P3& b) { check3(w.c_str(), a, b, T); }
static void eqP(const std::string& w, const PW& a, const PW& b) { checkH(w.c_str(), h4(a), h4(b), T); }
static void eqP(const std::string& w, const UV& a, const UV& b) { eqD(w + ".u", a.GetU(), b.GetU()); eqD(w + ".v", a.GetV(), b.GetV()); }
static void eqP(const std::string& w, double a, double b) { eqD(w, a, b); }
static void eqP(const std::string& w, int a, int b) { sym_check(w.c_str(), a == b); }
template <class E> static void eqP(const std::string& w, const std::vector<E>& a, const std::vector<E>& b) { sym_check((w + ": size").c_str(), a.size() == b.size()); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) eqP(w, a[i], b[i]); }
static void eqP(const std::string& w, const NC& a, const NC& b) { sym_check((w + ": degree").c_str(), a.Degree == b.Degree); eqP(w + ": knot", a.KnotVector, b.KnotVector); eqP(w + ": control point", a.ControlPoints, b.ControlPoints); }
static void eqP(const std::string& w, const NS& a, const NS& b) { sym_check((w + ": degrees").c_str(), a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV); eqP(w + ": u knot", a.KnotVectorU, b.KnotVectorU); eqP(w + ": v knot", a.KnotVectorV, b.KnotVectorV); eqP(w + ": control point", a.ControlPoints, b.ControlPoints); }
static void eqP(const std::string& w, const NV& a, const NV& b) { sym_check((w + ": degrees").c_str(), a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && a.DegreeW == b.DegreeW); eqP(w + ": u knot", a.KnotVectorU, b.KnotVectorU); eqP(w + ": v knot", a.KnotVectorV, b.KnotVectorV); eqP(w + ": w knot", a.KnotVectorW, b.KnotVectorW); eqP(w + ": control point", a.ControlPoints, b.ControlPoints); }
// what the output held before: k = 1 more of everything, k = 2 less of everything
static double junkOf(double, int k, int i) { return 100.5 + i + k; }
static int junkOf(int, int k, int i) { return 77 + i + k; }
static P3 junkOf(const P3&, int k, int i) { return P3(100.5 + i, -50.25 - i * k, 7 + k); }
static PW junkOf(const PW&, int k, int i) { return PW(100.5 + i, -50.25 - i * k, 7 + k, 3 + i); }
static UV junkOf(const UV&, int k, int i) { return UV(100.5 + i, -50.25 * k); }
template <class E> static std::vector<E> junkOf(const std::vector<E>& like, int k, int i) { size_t n = k == 1 ? like.size() + 3 : like.size() ? like.size() - 1 : 0; std::vector<E> r; for (size_t j = 0; j < n; j++) r.push_back(junkOf(j < like.size() ? like[j] : like.size() ? like[0] : E(), k, i + (int)j)); return r; }
static NC junkOf(const NC& c, int k, int) { NC r; r.Degree = k == 1 ? c.Degree + 2 : 1; r.KnotVector = junkOf(c.KnotVector, k, 1); r.ControlPoints = junkOf(c.ControlPoints, k, 2); return r; }
static NS junkOf(const NS& c, int k, int) { NS r; r.DegreeU = k == 1 ? c.DegreeU + 2 : 1; r.DegreeV = k == 1 ? c.DegreeV + 1 : 1; r.KnotVectorU = junkOf(c.KnotVectorU, k, 1); r.KnotVectorV = junkOf(c.KnotVectorV, k, 3); r.ControlPoints = junkOf(c.ControlPoints, k, 2); return r; }
static NV junkOf(const NV& c, int k, int) { NV r; r.DegreeU = k == 1 ? c.DegreeU + 2 : 1; r.DegreeV = k == 1 ? c.DegreeV + 1 : 1; r.DegreeW = k == 1 ? c.DegreeW + 3 : 1; r.KnotVectorU = junkOf(c.KnotVectorU, k, 1); r.KnotVectorV = junkOf(c.KnotVectorV, k, 3); r.KnotVectorW = junkOf(c.KnotVectorW, k, 4); r.ControlPoints = junkOf(c.ControlPoints, k, 2); return r; }
static bool g_done;
template <class O, class F> static void reuse(const char* w, F f) { if (sym_param("inplace", 0)) return; O a; f(a); g_done = true; std::string s(w); for (int k = 1; k <= 2; k++) { O b = junkOf(a, k, 0); f(b); eqP(s + ": result with a used output", b, a); } O c = a; f(c); eqP(s + ": result over its own result", c, a); }
template <class O, class Q, class F> static void reuse2(const char* w, F f) { if (sym_param("inplace", 0)) { g_done = true; return; } O a; Q p; f(a, p); g_done = true; std::string s(w); for (int k = 1; k <= 2; k++) { O b = junkOf(a, k, 0); Q q = junkOf(p, k, 0); f(b, q); eqP(s + ": first result with used outputs", b, a); eqP(s + ": second result with used outputs", q, p); } }
static bool inplace() { return sym_param("inplace", 0) != 0; }
template <class O, class F> static void alias(const char* w, const O& in, F f) { if (inplace()) { g_done = true; O a, c = in; f(in, a); f(c, c); eqP(std::string(w) + ": result written over the input", c, a); return; } reuse<O>(w, [&](O& R) { f(in, R); }); O a, b = in; f(b, a); eqP(std::string(w) + ": the input afterwards", b, in); }
#define RC(...) reuse<NC>(#__VA_ARGS__, [&](NC& R) { __VA_ARGS__; })
#define RS(...) reuse<NS>(#__VA_ARGS__, [&](NS& R) { __VA_ARGS__; })
#define AC(in, ...) alias<NC>(#__VA_ARGS__, in, [&](const NC& I, NC& R) { __VA_ARGS__; })
#define AS(in, ...) alias<NS>(#__VA_ARGS__, in, [&](const NS& I, NS& R) { __VA_ARGS__; })
#define AV(in, ...) alias<NV>(#__VA_ARGS__, in, [&](const NV& I, NV& R) { __VA_ARGS__; })
static VP3 zig(int n, const P3& o) { VP3 r; for (int i = 0; i < n; i++) r.push_back(o + P3(i * 2, (i * i) % 3, i % 2)); return r; }
HARNESS(reuse_curve) {
  int f = sym_param("f", 0); sym_approx_sqrt(1); int p = sym_param("p", 2); VD U = p == 2 ? VD{0, 0, 0, 0.5, 0.75, 1, 1, 1} : VD{2, 2, 2, 2, 3, 3, 5, 5, 5, 5}; NC c = mkCurve("c", p, U, 2); double A = U[0], B = U.back(), t = A + 0.4375 * (B - A);
  P3 o = symP3("o", 4); NC g; g.Degree = 2; g.KnotVector = {0, 0, 0, 0.5, 0.75, 1, 1, 1}; { static const double Z[5][4] = {{0, 0, 0, 1}, {1, 2, 0, 1}, {3, 2.5, 1, 1.5}, {5, 1, 2, 1}, {6, -1, 0, 2}}; for (auto& z : Z) g.ControlPoints.push_back(PW(o + P3(z[0], z[1], z[2]), z[3])); }
  NC fx = g; for (auto& q : fx.ControlPoints) q = PW(q.ToXYZ(true) - o, q.GetW()); { NC n = fx; static const double Z[5][4] = {{0, 0, 0, 1}, {1, 2, 0, 1}, {3, 2.5, 1, 1.5}, {5, 1, 2, 1}, {6, -1, 0, 2}}; for (int i = 0; i < 5; i++) fx.ControlPoints[i] = PW(P3(Z[i][0], Z[i][1], Z[i][2]), Z[i][3]); }
  switch (f) {
  case 0: AC(c, NurbsCurve::InsertKnot(I, t, 1, R)); AC(c, NurbsCurve::InsertKnot(I, A + 0.5 * (B - A), 1, R)); break;
  case 1: AC(c, NurbsCurve::RefineKnotVector(I, VD{t, t, A + 0.8 * (B - A)}, R)); break;
  case 2: { NC e; NurbsCurve::InsertKnot(fx, 0.375, 2, e); AC(e, NurbsCurve::RemoveKnot(I, 0.375, 1, R)); RC(NurbsCurve::RemoveExcessiveKnots(e, R)); break; }
  case 3: AC(c, NurbsCurve::ElevateDegree(I, 1, R)); AC(c, NurbsCurve::ElevateDegree(I, 3, R)); break;
  case 4: { NC h, e; h.Degree = 2; h.KnotVector = {0, 0, 0, 1, 1, 1}; h.ControlPoints = {fx.ControlPoints[0], fx.ControlPoints[1], fx.ControlPoints[2]}; NurbsCurve::ElevateDegree(h, 1, e); AC(e, NurbsCurve::ReduceDegree(I, R)); break; }
  case 5: { Matrix4d M(P3(1, 0, 0.5), P3(0, 2, 0), P3(-1, 0, 1), o); AC(g, NurbsCurve::CreateTransformed(I, M, R)); break; }
  case 6: AC(c, NurbsCurve::Reparametrize(I, -1, 3, R)); AC(c, NurbsCurve::Reparametrize(I, 2, 1, 0.125, 2, R)); AC(c, NurbsCurve::Reverse(I, R)); break;
  case 7: reuse2<NC, NC>("SplitAt", [&](NC& L, NC& R) { NurbsCurve::SplitAt(c, t, L, R); }); AC(c, NurbsCurve::Extract(I, t, A + 0.875 * (B - A), R)); AC(c, NurbsCurve::Extract(I, A, t, R)); if (inplace()) { NC a, b, d = c, e; NurbsCurve::SplitAt(c, t, a, b); NurbsCurve::SplitAt(d, t, d, e); eqP("SplitAt over the input: left", d, a); eqP("SplitAt over the input: right", e, b); d = c; NurbsCurve::SplitAt(d, t, e, d); eqP("SplitAt over the input, right: left", e, a); eqP("SplitAt over the input, right: right", d, b); } break;
  case 8: { NC h = c; h.ControlPoints[0] = c.ControlPoints.back(); h.ControlPoints[0] = PW(h4(h.ControlPoints[0]).x, h4(h.ControlPoints[0]).y, h4(h.ControlPoints[0]).z, h4(h.ControlPoints[0]).w); AC(c, NurbsCurve::Merge(I, h, R)); AC(h, NurbsCurve::Merge(c, I, R)); NC e; NurbsCurve::ElevateDegree(h, 1, e); AC(c, NurbsCurve::Merge(I, e, R)); break; }
  case 9: { NC l; NurbsCurve::CreateArc(P3(1, 2, 0), P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(1, 2), 2, 2, l); AC(l, NurbsCurve::Offset(I, 0.5, OffsetType::TillerAndHanson, R)); AC(l, NurbsCurve::Offset(I, 0.5, OffsetType::PieglAndTiller, R)); break; }
  case 10: RC(NurbsCurve::CreateLine(o, o + P3(1, 2, 2), R)); { VP3 P = zig(4, o), D(4, P3(1, 0.5, 2)); RC(NurbsCurve::CreateCubicHermite(P, D, R)); } break;
  case 11: for (int q : {1, 3, 6, 8}) RC(NurbsCurve::CreateArc(o, P3(1, 0, 0), P3(0, 0.6, 0.8), 0, sym_pi(q, 4), 2, 3, R)); break;
  case 12: RC(NurbsCurve::CreateOpenConic(o, P3(0, 1, 0), o + P3(2, 0, 0), P3(1, -1, 0), o + P3(1, 0.5, 0), R)); break;
  case 13: { VP3 P = zig(5, o), D; for (int i = 0; i < 5; i++) { P[i] = P[i]; D.push_back(P3(1, 0.25 * i, 0.5)); } P[2] = P[2]; RC(NurbsCurve::GlobalInterpolation(2, P, R)); RC(NurbsCurve::GlobalInterpolation(3, P, R)); RC(NurbsCurve::GlobalInterpolation(3, P, D, 1.5, R)); RC(NurbsCurve::CubicLocalInterpolation(P, R)); break; }
  case 14: { VP3 P = zig(6, o); RC(NurbsCurve::LeastSquaresApproximation(2, P, 4, R)); VD pw{1, 2, 1, -1, 1, 1}, tw{1.0}; VP3 D{P3(1, 2, 0)}; std::vector<int> ti{2}; VD pw2(6, 1.0); RC(NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, P, pw2, D, ti, tw, 4, R)); break; }
  case 15: { VP3 P; for (int i = 0; i < 5; i++) P.push_back(P3(i, 2 * i, 3 - i)); RC(NurbsCurve::GlobalApproximationByErrorBound(2, P, 0.01, R)); P = zig(6, o); RC(NurbsCurve::GlobalApproximationByErrorBound(3, P, 0.01, R)); NC h; NurbsCurve::InsertKnot(fx, 0.375, 1, h); VD ps{0.1, 0.3, 0.6, 0.9}; RC(VD E(4); NurbsCurve::RemoveKnotsByGivenBound(h, ps, E, 0.01, R)); break; }
  case 16: AC(g, NurbsCurve::ControlPointReposition(I, 0.4, 2, P3(0, 1, 0), 0.75, R)); AC(g, NurbsCurve::WeightModification(I, 0.4, 2, 0.25, R)); AC(g, NurbsCurve::NeighborWeightsModification(I, 0.4, 1, 0.25, 0.75, R)); break;
  case 17: { VD w{0, 0.5, 1, 0.5, 0}; AC(g, NurbsCurve::Warping(I, w, 0.5, P3(0, 0, 1), 0.125, 0.875, R)); break; }
  case 18: AC(g, NurbsCurve::Flattening(I, o + P3(-1, 4, 0), o + P3(8, 4, 0), 0.125, 0.875, R)); AC(g, NurbsCurve::Bending(I, 0.125, 0.875, o + P3(3, 9, 0), 2, 0.5, R)); break;
  case 19: { VD ps{0.375}; VP3 D{symP3("d")}; std::vector<int> ai{0}, ad{0}, fi{0, 4}; NC k = p == 2 ? c : fx; AC(k, NurbsCurve::ConstraintBasedModification(I, ps, D, ai, ad, fi, R)); break; }
  case 20: { NC h; h.Degree = 2; h.KnotVector = {0, 0.25, 0.5, 0.75, 1, 1.25, 1.5}; h.ControlPoints = {c.ControlPoints[0], c.ControlPoints[1], c.ControlPoints[2], c.ControlPoints[3]}; AC(h, NurbsCurve::ToClampCurve(I, R)); AC(c, NurbsCurve::ToUnclampCurve(I, R)); break; }
  case 21: for (int e = 0; e < 3; e++) for (int st = 0; st < 2; st++) AC(fx, NurbsCurve::Extend(I, 0.25, st == 1, (ExtensionType)e, R)); break;
  case 22: reuse2<VP3, VD>("EquallyTessellate", [&](VP3& P, VD& K) { NurbsCurve::EquallyTessellate(g, P, K); }); break;
  case 23: { reuse<VP3>("ComputeTangent", [&](VP3& R) { VP3 P{P3(0, 0, 0), P3(1, 2, 0), P3(3, 3, 1), P3(5, 2, 1), P3(6, 0, 0), P3(8, -1, 2)}; Interpolation::ComputeTangent(P, R); }); break; }
  case 24: reuse2<VD, VD>("GetInsertedKnotElement", [&](VD& x, VD& y) { KnotVectorUtils::GetInsertedKnotElement(VD{0, 0, 0, 0.25, 0.5, 0.5, 1, 1, 1}, VD{0, 0, 0, 0.25, 0.25, 0.75, 1, 1, 1}, x, y); }); break;
  case 25: { NC h; NurbsCurve::CreateArc(o, P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(1, 2), 2, 2, h); LN_ArcInfo a, b; b.Radius = 99; b.Center = P3(9, 9, 9); NurbsCurve::IsArc(h, a); NurbsCurve::IsArc(h, b); eqD("arc radius", b.Radius, a.Radius); eqP("arc centre", b.Center, a.Center); g_done = true; break; }
  }
  sym_check("an operation was run", g_done); sym_reached("reuse curve");
}
static VVPW fixedNet(double x) { VVPW r; for (int i = 0; i < 3; i++) { r.push_back({}); for (int j = 0; j < 3; j++) r[i].push_back(PW(P3(i * 2 + 0.25 * j + x, j * 1.5, (i * i + 2 * j) % 3), 1 + 0.25 * ((i + j) % 2))); } return r; }
HARNESS(reuse_surf) {
  int f = sym_param("f", 0); sym_approx_sqrt(1); VD U{0, 0, 0.25, 1, 1}, V{2, 2, 2, 3, 5, 5, 5}; NS s = mkSurf("s", 1, 2, U, V, 2); P3 o = symP3("o", 4); NS fx; fx.DegreeU = 1; fx.DegreeV = 2; fx.KnotVectorU = {0, 0, 0.25, 1, 1}; fx.KnotVectorV = {0, 0, 0, 1, 1, 1}; fx.ControlPoints = fixedNet(0);
  NC l, a; if (f == 7) NurbsCurve::CreateLine(o, o + P3(3, 4, 0), l); if (f == 7) NurbsCurve::CreateArc(o, P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(1, 2), 2, 2, a);
  switch (f) {
  case 0: AS(s, NurbsSurface::Swap(I, R)); for (int d = 0; d < 3; d++) AS(s, NurbsSurface::Reverse(I, (SurfaceDirection)d, R)); AS(s, NurbsSurface::Reparametrize(I, -1, 2, 3, 7, R)); break;
  case 1: AS(s, NurbsSurface::InsertKnot(I, 0.5, 1, true, R)); AS(s, NurbsSurface::InsertKnot(I, 4, 2, false, R)); break;
  case 2: AS(s, NurbsSurface::RefineKnotVector(I, VD{0.5, 0.75}, true, R)); AS(s, NurbsSurface::RefineKnotVector(I, VD{2.5, 4, 4}, false, R)); break;
  case 3: AS(s, NurbsSurface::ElevateDegree(I, 2, true, R)); AS(s, NurbsSurface::ElevateDegree(I, 1, false, R)); break;
  case 4: { NS e; NurbsSurface::InsertKnot(fx, 0.5, 1, true, e); AS(e, NurbsSurface::RemoveKnot(I, 0.5, 1, true, R)); NurbsSurface::InsertKnot(fx, 0.5, 2, false, e); AS(e, NurbsSurface::RemoveKnot(I, 0.5, 1, false, R)); AS(e, NurbsSurface::RemoveKnot(I, 0.75, 1, false, R)); NS b = fx, h; b.KnotVectorU = {0, 0, 1, 1}; b.ControlPoints.pop_back(); NurbsSurface::ElevateDegree(b, 1, true, e); AS(e, NurbsSurface::ReduceDegree(I, true, R)); NurbsSurface::ElevateDegree(b, 1, false, e); AS(e, NurbsSurface::ReduceDegree(I, false, R)); break; }
  case 5: reuse2<VP3, std::vector<UV>>("surface EquallyTessellate", [&](VP3& P, std::vector<UV>& K) { NS b = fx; b.KnotVectorU = {0, 0, 1, 1}; b.ControlPoints.pop_back(); NurbsSurface::EquallyTessellate(b, P, K); }); break;
  case 6: RS(NurbsSurface::CreateBilinearSurface(o, o + P3(3, 0, 1), o + P3(0, 2, 0), symP3("q", 4), R)); RS(NurbsSurface::CreateCylindricalSurface(o, P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(3, 4), 2, 5, R)); break;
  case 7: { NC k = l; k.ControlPoints[0] = PW(o + P3(0, 0, 5), 1); NC k2; NurbsCurve::ElevateDegree(k, 1, k2); RS(NurbsSurface::CreateRuledSurface(l, k, R)); RS(NurbsSurface::CreateRuledSurface(a, k2, R)); break; }
  case 8: { NC pr; NurbsCurve::CreateLine(P3(2, 0, 0), P3(3, 0, 4), pr); for (int q : {1, 3, 5, 8}) RS(NurbsSurface::CreateRevolvedSurface(P3(0, 0, 0), P3(0, 0, 1), sym_pi(q, 4), pr, R)); break; }
  case 9: { NC k; NurbsCurve::CreateArc(P3(0, 0, 2), P3(1, 0, 0), P3(0, 0.6, 0.8), 0, sym_pi(1, 2), 2, 2, k); RS(NurbsSurface::MakeCornerFilletSurface(k, R)); break; }
  case 10: { std::vector<VP3> P(4, VP3(3)); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) P[i][j] = o + P3(2 * i, 3 * j, (i * j) % 3); RS(NurbsSurface::GlobalInterpolation(P, 2, 2, R)); RS(NurbsSurface::BicubicLocalInterpolation(P, R)); std::vector<VP3> Q(5, VP3(5)); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) Q[i][j] = P3(2 * i, 3 * j, (i * j) % 3); RS(NurbsSurface::GlobalApproximation(Q, 2, 2, 4, 3, R)); break; }
  case 11: { NC tr; NurbsCurve::CreateLine(P3(0, 0, 0), P3(0, 0, 6), tr); NC pr; NurbsCurve::CreateLine(P3(1, 0, 0), P3(2, 1, 0), pr); RS(NurbsSurface::CreateGeneralizedTranslationalSweepSurface(pr, tr, R)); RS(NurbsSurface::CreateSweepSurface(pr, tr, 3, R)); RS(NurbsSurface::CreateSweepSurface(pr, tr, 3, 1, R)); RS(NurbsSurface::CreateSwungSurface(pr, tr, 1.5, R)); break; }
  case 12: { NC k0, k1, k2; NurbsCurve::CreateLine(o, o + P3(3, 0, 0), k0); NurbsCurve::CreateLine(o + P3(0, 2, 1), o + P3(3, 2, 0), k1); NurbsCurve::CreateLine(o + P3(0, 5, 0), o + P3(4, 5, 0), k2); NC k3; NurbsCurve::ElevateDegree(k1, 1, k3); RS(NurbsSurface::CreateLoftSurface({k0, k1, k2}, R)); RS(NurbsSurface::CreateLoftSurface({k0, k3, k2}, R)); break; }
  case 13: { NC b, t, le, ri; P3 z(0, 0, 0); NurbsCurve::CreateLine(z, P3(4, 0, 0), b); NurbsCurve::CreateLine(P3(0, 3, 0), P3(4, 3, 1), t); NurbsCurve::CreateLine(z, P3(0, 3, 0), le); NurbsCurve::CreateLine(P3(4, 0, 0), P3(4, 3, 1), ri); NC lr, tr; NurbsCurve::Reverse(le, lr); NurbsCurve::Reverse(t, tr); RS(NurbsSurface::CreateCoonsSurface(lr, b, ri, tr, R)); RS(NurbsSurface::CreateGordonSurface({b, t}, {le, ri}, {{z, P3(4, 0, 0)}, {P3(0, 3, 0), P3(4, 3, 1)}}, R)); break; }
  case 14: { std::vector<VP3> P(4, VP3(3)); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) P[i][j] = o + P3(2 * i, 3 * j, (i * j) % 3); reuse2<VD, VD>("GetSurfaceMeshParameterization", [&](VD& x, VD& y) { Interpolation::GetSurfaceMeshParameterization(P, x, y); }); break; }
  case 15: { VVD M{{2, 1, 0}, {1, 3, 1}, {0, 1, 4}}; reuse<VVD>("MakeInverse", [&](VVD& R) { MathUtils::MakeInverse(M, R); }); VVD N{{1, 2, 3}, {4, 5, 6}}; for (auto& r : N) for (auto& x : r) x = x + o.GetX(); reuse<VVD>("Transpose", [&](VVD& R) { MathUtils::Transpose(N, R); }); reuse<VVPW>("Transpose of points", [&](VVPW& R) { MathUtils::Transpose(s.ControlPoints, R); }); break; }
  case 16: { P3 S(9, 9, 9), A(8, 8, 8), B(7, 7, 7), S0, A0, B0; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, UV(0.3, 2.5), S0, A0, B0); NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, UV(0.3, 2.5), S, A, B); eqP("surface point", S, S0); eqP("u derivative", A, A0); eqP("v derivative", B, B0); UV x(9, 9), y; NurbsSurface::GetUVTangent(fx, UV(0.3, 0.5), P3(1, 1, 1), y); NurbsSurface::GetUVTangent(fx, UV(0.3, 0.5), P3(1, 1, 1), x); eqP("parameter tangent", x, y); g_done = true; break; }
  }
  sym_check("an operation was run", g_done); sym_reached("reuse surface");
}
HARNESS(reuse_volume) {
  int f = sym_param("f", 0), d = sym_param("dir", 0); NV v; v.DegreeU = 1; v.DegreeV = 2; v.DegreeW = 1; v.KnotVectorU = {0, 0, 1, 1}; v.KnotVectorV = {0, 0, 0, 1, 1, 1}; v.KnotVectorW = {0, 0, 0.5, 1, 1}; for (int i = 0; i < 2; i++) { v.ControlPoints.push_back({}); for (int j = 0; j < 3; j++) { v.ControlPoints[i].push_back({}); for (int k = 0; k < 3; k++) v.ControlPoints[i][j].push_back(symPWm(idx("v", i * 3 + j, k), 2, i * 5 + j * 3 + k)); } }
  VolumeDirection D = d == 0 ? VolumeDirection::U : d == 1 ? VolumeDirection::V : VolumeDirection::W, E = d == 0 ? VolumeDirection::V : d == 1 ? VolumeDirection::W : VolumeDirection::U;
  switch (f) {
  case 0: AV(v, NurbsVolume::InsertKnot(I, 0.375, 1, D, R)); AV(v, NurbsVolume::RefineKnotVector(I, VD{0.25, 0.875}, D, R)); break;
  case 1: AV(v, NurbsVolume::ElevateDegree(I, 1, D, R)); break;
  case 2: AV(v, NurbsVolume::Reverse(I, D, R)); AV(v, NurbsVolume::Swap(I, D, E, R)); break;
  case 3: reuse2<NV, NV>("volume SplitAt", [&](NV& a, NV& b) { NurbsVolume::SplitAt(v, 0.375, D, a, b); }); reuse<NS>("volume Extract", [&](NS& R) { NurbsVolume::Extract(v, 0.375, D, R); }); reuse<NS>("volume Extract at the end", [&](NS& R) { NurbsVolume::Extract(v, 1, D, R); }); if (inplace()) { NV a, b, x = v, y; NurbsVolume::SplitAt(v, 0.375, D, a, b); NurbsVolume::SplitAt(x, 0.375, D, x, y); eqP("volume SplitAt over the input: first", x, a); eqP("volume SplitAt over the input: second", y, b); } break;
  }
  sym_check("an operation was run", g_done); sym_reached("reuse volume");
}
// the value of a query does not depend on the queries made before it, nor on what the object queried held before
template <class C, class F> static void history(const char* w, const C& a, const C& b, const C& x, F f) {
  std::string s(w); auto run = [&](const C& q, int k) { VD r; f(q, k, r); return r; };
  run(x, 1); VD a0 = run(a, 0); run(x, 1); VD b0 = run(b, 0); run(x, 1); VD b1 = run(b, 1); run(x, 0); VD a1 = run(a, 1); g_done = true;
  C q = a; eqP(s + ": first, again", run(q, 0), a0); eqP(s + ": first, elsewhere", run(q, 1), a1); q = b; eqP(s + ": second in the place of the first", run(q, 1), b1); eqP(s + ": second, elsewhere", run(q, 0), b0); q = a; eqP(s + ": first in the place of the second", run(q, 0), a0);
  eqP(s + ": second after the first", run(b, 0), b0); eqP(s + ": first after the second", run(a, 0), a0); run(x, 0); eqP(s + ": first after another", run(a, 0), a0); run(x, 0); eqP(s + ": second after another", run(b, 0), b0); }
template <class E> static void put(VD& r, const std::vector<E>& v);
static void put(VD& r, const NC& c); static void put(VD& r, const NS& c);
static void put(VD& r, const P3& p) { r.push_back(p.GetX()); r.push_back(p.GetY()); r.push_back(p.GetZ()); }
static void put(VD& r, const PW& p) { r.push_back(p.GetWX()); r.push_back(p.GetWY()); r.push_back(p.GetWZ()); r.push_back(p.GetW()); }
static void put(VD& r, double x) { r.push_back(x); }
template <class E> static void put(VD& r, const std::vector<E>& v) { r.push_back(v.size()); for (auto& x : v) put(r, x); }
static void put(VD& r, const NC& c) { r.push_back(c.Degree); put(r, c.KnotVector); put(r, c.ControlPoints); }
static void put(VD& r, const NS& c) { r.push_back(c.DegreeU * 10 + c.DegreeV); put(r, c.KnotVectorU); put(r, c.KnotVectorV); put(r, c.ControlPoints); }
static void put(VD& r, const NV& c) { r.push_back(c.DegreeU * 100 + c.DegreeV * 10 + c.DegreeW); put(r, c.KnotVectorU); put(r, c.KnotVectorV); put(r, c.KnotVectorW); put(r, c.ControlPoints); }
static NC fixedCurve(int p, const VD& U, int s) { NC c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1; for (int i = 0; i < n; i++) c.ControlPoints.push_back(PW(P3(i + 0.25 * s, (i * i + s) % 4, (i * 3 + s) % 5), 1 + 0.25 * ((i + s) % 3))); return c; }
HARNESS(history_curve) {
  int f = sym_param("f", 0), sy = sym_param("sym", 1), d = sym_param("d", 0); sym_approx_sqrt(1); VD U{0, 0, 0, 0.25, 0.5, 1, 1, 1}, V{0, 0, 0, 0.5, 0.75, 1, 1, 1}, W{0, 0, 0, 0, 0.375, 1, 1, 1, 1}; NC a = sy ? mkCurve("a", 2, U, 2) : fixedCurve(2, U, 0), b = sy ? mkCurve("b", d ? 3 : 2, d ? W : V, 2) : fixedCurve(d ? 3 : 2, d ? W : V, 1), x = fixedCurve(2, VD{0, 0, 0, 1, 1, 1}, 2); VD T2{0.4375, 0.8125}; if (sym_param("st", 0)) T2 = {rv("t", 0.25, 0.75), rv("s", 0.25, 0.75)};
#define HC(...) history(#__VA_ARGS__, a, b, x, [&](const NC& c, int k, VD& R) { double t = T2[k]; (void)t; __VA_ARGS__; })
  switch (f) {
  case 0: HC(put(R, NurbsCurve::GetPointOnCurve(c, t))); HC(put(R, NurbsCurve::GetPointOnCurveByCornerCut(c, t))); break;
  case 1: HC(put(R, NurbsCurve::ComputeRationalCurveDerivatives(c, 2, t))); HC(put(R, NurbsCurve::ComputeRationalCurveDerivatives(c, 1 + k, t))); break;
  case 2: HC(NC r; NurbsCurve::InsertKnot(c, t, 1, r); put(R, r)); HC(NC r; NurbsCurve::RefineKnotVector(c, VD{t, 0.9}, r); put(R, r)); HC(NC r; NurbsCurve::ElevateDegree(c, 1 + k, r); put(R, r)); HC(put(R, NurbsCurve::DecomposeToBeziers(c))); break;
  case 3: HC(NC l, r; NurbsCurve::SplitAt(c, t, l, r); put(R, l); put(R, r)); HC(NC r; NurbsCurve::Reparametrize(c, k, 3, r); put(R, r)); HC(NC r; NurbsCurve::Reverse(c, r); put(R, r)); HC(NC r; NurbsCurve::ToUnclampCurve(c, r); put(R, r)); break;
  case 4: HC(int s = Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t); R.push_back(s); R.push_back(Polynomials::GetKnotMultiplicity(c.KnotVector, 0.5)); VD N(c.Degree + 1); Polynomials::BasisFunctions(s, c.Degree, c.KnotVector, t, N.data()); put(R, N); put(R, Polynomials::BasisFunctionsDerivatives(s, c.Degree, 2, c.KnotVector, t))); HC(put(R, Polynomials::OneBasisFunction(1, c.Degree, c.KnotVector, t)); put(R, Polynomials::OneBasisFunctionDerivative(1, c.Degree, 2, c.KnotVector, t)); put(R, Polynomials::AllBernstein(c.Degree, t)); put(R, Polynomials::BezierToPowerMatrix(c.Degree))); HC(for (int n = 0; n < 5 + 3 * c.Degree; n++) R.push_back(MathUtils::Binomial(4 * c.Degree + 8 * k, n)); for (int n = 0; n < 5; n++) R.push_back(MathUtils::Factorial(n + c.Degree))); break;
  case 5: HC(put(R, NurbsCurve::Curvature(c, t)); put(R, NurbsCurve::Torsion(c, t)); put(R, NurbsCurve::Normal(c, CurveNormal::Normal, t)); put(R, NurbsCurve::Normal(c, CurveNormal::Binormal, t))); break;
  case 6: HC(put(R, NurbsCurve::GetParamOnCurve(c, P3(1 + t, 1, 2)))); HC(R.push_back(NurbsCurve::IsClosed(c)); R.push_back(NurbsCurve::IsPeriodic(c)); R.push_back(NurbsCurve::IsClamp(c)); R.push_back(NurbsCurve::IsLinear(c)); LN_ArcInfo i; R.push_back(NurbsCurve::IsArc(c, i))); break;
  case 7: for (int m = 0; m < 3; m++) HC(put(R, NurbsCurve::ApproximateLength(c, (IntegratorType)m)); put(R, NurbsCurve::ApproximateLength(c, 0.125, t, (IntegratorType)m))); HC(put(R, NurbsCurve::GetParamOnCurve(c, t, IntegratorType::GaussLegendre))); break;
  case 8: HC(put(R, NurbsCurve::Tessellate(c))); HC(VP3 P; VD K; NurbsCurve::EquallyTessellate(c, P, K); put(R, P); put(R, K)); break;
  case 9: HC(VP3 P; for (auto& q : c.ControlPoints) P.push_back(q.ToXYZ(true)); NC r; NurbsCurve::GlobalInterpolation(2, P, r); put(R, r); NurbsCurve::LeastSquaresApproximation(1 + k, P, (int)P.size() - 1, r); put(R, r); put(R, Interpolation::GetChordParameterization(P)); put(R, Interpolation::GetCentripetalParameterization(P))); break;
  }
  sym_check("a query was run", g_done); sym_reached("history of a curve");
}
static NS fixedSurf(int p, int q, const VD& U, const VD& V, int s) { NS c; c.DegreeU = p; c.DegreeV = q; c.KnotVectorU = U; c.KnotVectorV = V; int n = (int)U.size() - p - 1, m = (int)V.size() - q - 1; for (int i = 0; i < n; i++) { c.ControlPoints.push_back({}); for (int j = 0; j < m; j++) c.ControlPoints[i].push_back(PW(P3(2 * i + 0.25 * s, 2 * j + 0.125 * i, (i * i + 2 * j + s) % 4), 1 + 0.25 * ((i + j + s) % 3))); } return c; }
HARNESS(history_surf) {
  int f = sym_param("f", 0), sy = sym_param("sym", 1); sym_approx_sqrt(1); VD U{0, 0, 0.25, 1, 1}, V{0, 0, 0, 0.5, 1, 1, 1}, U2{0, 0, 0.5, 1, 1}, V2{0, 0, 0, 0.75, 1, 1, 1}; NS a = sy ? mkSurf("a", 1, 2, U, V, 2) : fixedSurf(1, 2, U, V, 0), b = sy ? mkSurf("b", 1, 2, U2, V2, 2) : fixedSurf(1, 2, U2, V2, 1), x = fixedSurf(2, 1, VD{0, 0, 0, 1, 1, 1}, VD{0, 0, 1, 1}, 3); VD T2{0.4375, 0.8125}; if (sym_param("st", 0)) T2 = {rv("t", 0.25, 0.75), rv("s", 0.25, 0.75)}; if (sym_param("bz", 0)) { a = fixedSurf(1, 2, VD{0, 0, 1, 1}, VD{0, 0, 0, 1, 1, 1}, 0); b = fixedSurf(1, 1, VD{0, 0, 1, 1}, VD{0, 0, 1, 1}, 1); }
#define HS(...) history(#__VA_ARGS__, a, b, x, [&](const NS& c, int k, VD& R) { double t = T2[k], s = 1 - T2[k]; (void)t; (void)s; __VA_ARGS__; })
  switch (f) {
  case 0: HS(put(R, NurbsSurface::GetPointOnSurface(c, UV(t, s)))); HS(put(R, NurbsSurface::ComputeRationalSurfaceDerivatives(c, 1 + k, UV(s, t)))); HS(put(R, NurbsSurface::GetIsoCurve(c, t, k == 1))); break;
  case 1: HS(NS r; NurbsSurface::InsertKnot(c, t, 1, k == 0, r); put(R, r)); HS(NS r; NurbsSurface::ElevateDegree(c, 1, k == 0, r); put(R, r)); HS(put(R, NurbsSurface::DecomposeToBeziers(c))); HS(NS r; NurbsSurface::Swap(c, r); put(R, r); NurbsSurface::Reverse(c, k ? SurfaceDirection::UDirection : SurfaceDirection::VDirection, r); put(R, r)); break;
  case 2: HS(put(R, NurbsSurface::Normal(c, UV(t, s))); for (int m = 0; m < 6; m++) put(R, NurbsSurface::Curvature(c, (SurfaceCurvature)m, UV(t, s)))); HS(auto bb = NurbsSurface::GetBoundingBox(c); put(R, bb.MinPoint); put(R, bb.MaxPoint)); break;
  case 3: for (int m = sym_param("m", 0), i = 0; i < 1; i++) HS(put(R, NurbsSurface::ApproximateArea(c, (IntegratorType)m))); break;
  case 4: for (int dl = 0; dl < 2; dl++) HS(auto q = NurbsSurface::Triangulate(c, 4 + k, 3, dl == 1); put(R, q.Vertices); for (auto& g : q.Faces) for (auto i : g) R.push_back(i)); break;
  }
  sym_check("a query was run", g_done); sym_reached("history of a surface");
}
