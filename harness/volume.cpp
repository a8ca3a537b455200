// Trivariate volumes: evaluation, derivatives, isocurves, slices, knot / degree operations, swap / reverse.
#include "common.h"
#include "NurbsVolume.h"
#include "NurbsCurve.h"
#include "UVW.h"
#include "XYZ.h"
using namespace LNLib;
typedef LN_NurbsVolume NV;
struct Dir { int deg; VD kv; };
static const VD& kvOf(const NV& v, int d) { return d == 0 ? v.KnotVectorU : d == 1 ? v.KnotVectorV : v.KnotVectorW; }
static int degOf(const NV& v, int d) { return d == 0 ? v.DegreeU : d == 1 ? v.DegreeV : v.DegreeW; }
static VolumeDirection vd(int d) { return d == 0 ? VolumeDirection::U : d == 1 ? VolumeDirection::V : VolumeDirection::W; }
static NV mkVol(const char* b, int mode) {
  NV v; int p[3] = {sym_param("p", 1), sym_param("q", 1), sym_param("r", 1)}; v.DegreeU = p[0]; v.DegreeV = p[1]; v.DegreeW = p[2]; v.KnotVectorU = knotPattern(p[0], sym_param("ku", 0)); v.KnotVectorV = knotPattern(p[1], sym_param("kv", 0)); v.KnotVectorW = knotPattern(p[2], sym_param("kw", 0));
  int n[3]; for (int d = 0; d < 3; d++) n[d] = (int)kvOf(v, d).size() - p[d] - 1;
  for (int i = 0; i < n[0]; i++) { std::vector<VPW> a; for (int j = 0; j < n[1]; j++) { VPW r; for (int k = 0; k < n[2]; k++) r.push_back(symPWm(idx(b, i, j, k), mode, i * 5 + j * 3 + k)); a.push_back(r); } v.ControlPoints.push_back(a); } return v;
}
static H4 volH(const NV& v, int su, int sv, int sw, double u, double t, double w, int a = 0, int b = 0, int c = 0) {
  H4 r{0, 0, 0, 0}; for (int i = su - v.DegreeU; i <= su; i++) { double x = coxDeBoorD(v.KnotVectorU, i, v.DegreeU, su, u, a); for (int j = sv - v.DegreeV; j <= sv; j++) { double y = x * coxDeBoorD(v.KnotVectorV, j, v.DegreeV, sv, t, b); for (int k = sw - v.DegreeW; k <= sw; k++) { double z = y * coxDeBoorD(v.KnotVectorW, k, v.DegreeW, sw, w, c); H4 h = h4(v.ControlPoints[i][j][k]); r.x = r.x + z * h.x; r.y = r.y + z * h.y; r.z = r.z + z * h.z; r.w = r.w + z * h.w; } } } return r;
}
static bool wf(const NV& v) {
  if (v.DegreeU < 1 || v.DegreeV < 1 || v.DegreeW < 1 || v.ControlPoints.empty() || v.KnotVectorU.size() != v.ControlPoints.size() + v.DegreeU + 1) return false;
  for (auto& a : v.ControlPoints) { if (a.empty() || v.KnotVectorV.size() != a.size() + v.DegreeV + 1) return false; for (auto& r : a) if (v.KnotVectorW.size() != r.size() + v.DegreeW + 1) return false; } return nondecreasing(v.KnotVectorU) && nondecreasing(v.KnotVectorV) && nondecreasing(v.KnotVectorW);
}
static void sameKnots(const char* w, const VD& a, const VD& b) { sym_check((std::string(w) + " count").c_str(), a.size() == b.size()); if (a.size() != b.size()) return; for (size_t i = 0; i < a.size(); i++) sym_check_eq(w, a[i], b[i], 1e-12); }
static int multOf(const VD& U, double u) { int m = 0; for (double x : U) if (x == u) m++; return m; }
static void sortInto(VD& U, double x) { U.push_back(x); for (size_t j = U.size() - 1; j > 0 && U[j] < U[j - 1]; j--) { double t = U[j]; U[j] = U[j - 1]; U[j - 1] = t; } }
// b agrees with a over the box lo..hi
static void sameVolOn(const char* w, const NV& a, const NV& b, const double* lo, const double* hi) {
  VD br[3]; for (int d = 0; d < 3; d++) br[d] = elementary(kvOf(a, d), kvOf(b, d), lo[d], hi[d]); double t[3]; for (int d = 0; d < 3; d++) t[d] = rv(std::string("t") + std::to_string(d) + "_" + w, 0, 1);
  for (size_t i = 0; i + 1 < br[0].size(); i++) for (size_t j = 0; j + 1 < br[1].size(); j++) for (size_t k = 0; k + 1 < br[2].size(); k++) { size_t ix[3] = {i, j, k}; int sa[3], sb[3]; double x[3]; bool ok = true;
    for (int d = 0; d < 3; d++) { double l = br[d][ix[d]], h = br[d][ix[d] + 1]; sa[d] = spanEnclosing(kvOf(a, d), degOf(a, d), l, h); sb[d] = spanEnclosing(kvOf(b, d), degOf(b, d), l, h); ok = ok && sa[d] >= 0 && sb[d] >= 0; x[d] = l + t[d] * (h - l); } sym_check((std::string(w) + ": spans").c_str(), ok); if (!ok) continue;
    checkH(w, volH(b, sb[0], sb[1], sb[2], x[0], x[1], x[2]), volH(a, sa[0], sa[1], sa[2], x[0], x[1], x[2])); }
}
static void domain(const NV& v, double* lo, double* hi) { for (int d = 0; d < 3; d++) { const VD& K = kvOf(v, d); lo[d] = K[degOf(v, d)]; hi[d] = K[K.size() - 1 - degOf(v, d)]; } }
static bool domIs(const char* w, const NV& b, const double* lo, const double* hi) { bool ok = wf(b); sym_check((std::string(w) + ": result well formed").c_str(), ok); if (!ok) return false; double l[3], h[3]; domain(b, l, h); for (int d = 0; d < 3; d++) { sym_check_eq((std::string(w) + ": domain").c_str(), l[d], lo[d], 1e-9); sym_check_eq((std::string(w) + ": domain").c_str(), h[d], hi[d], 1e-9); } return true; }
static void sameVol(const char* w, const NV& a, const NV& b) { double lo[3], hi[3]; domain(a, lo, hi); if (domIs(w, b, lo, hi)) sameVolOn(w, a, b, lo, hi); }
static void others(const NV& a, const NV& b, int dir) { for (int d = 0; d < 3; d++) if (d != dir) { sameKnots("other directions' knots", kvOf(b, d), kvOf(a, d)); sym_check("other directions' degrees", degOf(a, d) == degOf(b, d)); } }
HARNESS(vol_point) {
  NV v = mkVol("P", sym_param("w", 1)); Param a = pickParam("u", v.KnotVectorU, v.DegreeU), b = pickParam("v", v.KnotVectorV, v.DegreeV), c = pickParam("w", v.KnotVectorW, v.DegreeW); checkProj("point", NurbsVolume::GetPointOnVolume(v, UVW(a.u, b.u, c.u)), volH(v, a.span, b.span, c.span, a.u, b.u, c.u)); sym_reached("vol point");
}
HARNESS(vol_derivs) {
  NV v = mkVol("P", sym_param("w", 2)); int D = sym_param("d", 1); int fix = sym_param("fix", 0); auto pk = [&](const char* n, const VD& U, int p) { return fix ? fixedParam(n, U, p) : pickInside(n, U, p); }; Param a = pk("u", v.KnotVectorU, v.DegreeU), b = pk("v", v.KnotVectorV, v.DegreeV), c = pk("w", v.KnotVectorW, v.DegreeW); auto R = NurbsVolume::ComputeVolumeRationalDerivatives(v, D, UVW(a.u, b.u, c.u));
  std::vector<std::vector<std::vector<H4>>> A(D + 1, std::vector<std::vector<H4>>(D + 1, std::vector<H4>(D + 1))); for (int i = 0; i <= D; i++) for (int j = 0; i + j <= D; j++) for (int k = 0; i + j + k <= D; k++) A[i][j][k] = volH(v, a.span, b.span, c.span, a.u, b.u, c.u, i, j, k);
  for (int i = 0; i <= D; i++) for (int j = 0; i + j <= D; j++) for (int k = 0; i + j + k <= D; k++) { double x = 0, y = 0, z = 0; for (int e = 0; e <= i; e++) for (int f = 0; f <= j; f++) for (int g = 0; g <= k; g++) { double m = binom(i, e) * binom(j, f) * binom(k, g) * A[e][f][g].w; P3 q = R[i - e][j - f][k - g]; x = x + m * q.X(); y = y + m * q.Y(); z = z + m * q.Z(); }
    sym_check_eq("Leibniz.x", x, A[i][j][k].x, 1e-7); sym_check_eq("Leibniz.y", y, A[i][j][k].y, 1e-7); sym_check_eq("Leibniz.z", z, A[i][j][k].z, 1e-7); }
  sym_reached("vol derivs");
}
HARNESS(vol_iso) {
  NV v = mkVol("P", 2); int dir = sym_param("dir", 0); Param q[3] = {pickInside("u", v.KnotVectorU, v.DegreeU), pickParam("v", v.KnotVectorV, v.DegreeV), pickInside("w", v.KnotVectorW, v.DegreeW)}; double f[3]; for (int d = 0; d < 3; d++) f[d] = d == dir ? -1.0 : q[d].u;
  LN_NurbsCurve c = NurbsVolume::GetIsoCurve(v, UVW(f[0], f[1], f[2])); sym_check("iso curve well formed", wellFormed(c) && c.Degree == degOf(v, dir)); if (!wellFormed(c)) return; sameKnots("iso curve knots", c.KnotVector, kvOf(v, dir)); checkH("iso curve point", curveAt(c, q[dir].span, q[dir].u), volH(v, q[0].span, q[1].span, q[2].span, q[0].u, q[1].u, q[2].u)); sym_reached("vol iso");
}
static double pickCut(const NV& v, int dir, bool ends, int& mult) {
  const VD& K = kvOf(v, dir); int p = degOf(v, dir); std::vector<int> sp; for (int k = p; k + p + 1 < (int)K.size(); k++) if (K[k] < K[k + 1]) sp.push_back(k); int m = (int)sp.size(); int hi = 2 * m - 2 + (ends ? 2 : 0); int c = hi == 0 ? 0 : sym_choice("cut", 0, hi); mult = 0;
  if (c < m) return sym_real("t", K[sp[c]] + DELTA, K[sp[c] + 1] - DELTA); if (c < 2 * m - 1) { double t = K[sp[c - m + 1]]; mult = multOf(K, t); return t; } mult = p + 1; return c == 2 * m - 1 ? K[p] : K[K.size() - p - 1];
}
HARNESS(vol_insert) {
  NV v = mkVol("P", 2), r; int dir = sym_param("dir", 0), p = degOf(v, dir), mult; double t = pickCut(v, dir, false, mult); int times = sym_choice("times", 1, p); if (mult + times > p) { sym_assume(0); return; } NurbsVolume::InsertKnot(v, t, times, vd(dir), r); VD E = kvOf(v, dir); for (int i = 0; i < times; i++) sortInto(E, t); sameKnots("inserted knots", kvOf(r, dir), E); others(v, r, dir); sameVol("volume after insertion", v, r); sym_reached("vol insert");
}
HARNESS(vol_insert_over) {
  NV v = mkVol("P", 2), r; int dir = sym_param("dir", 0), p = degOf(v, dir), mult; double t = pickCut(v, dir, false, mult); int times = sym_choice("times", 1, p + 2); if (mult + times <= p) { sym_assume(0); return; } NurbsVolume::InsertKnot(v, t, times, vd(dir), r); others(v, r, dir); sameVol("volume after over-insertion", v, r); sym_reached("vol insert over");
}
HARNESS(vol_split) {
  NV v = mkVol("P", 2), a, b; int dir = sym_param("dir", 0), p = degOf(v, dir), mult; double t = pickCut(v, dir, false, mult); bool ok = NurbsVolume::SplitAt(v, t, vd(dir), a, b); sym_check("split inside the domain succeeds", ok); if (!ok) return;
  double lo[3], hi[3]; domain(v, lo, hi); double h = hi[dir], l = lo[dir]; others(v, a, dir); others(v, b, dir); hi[dir] = t; if (domIs("first part", a, lo, hi)) sameVolOn("first part", v, a, lo, hi); hi[dir] = h; lo[dir] = t; if (domIs("second part", b, lo, hi)) sameVolOn("second part", v, b, lo, hi); sym_check("parts are clamped", !clampedAt(kvOf(v, dir), p) || (clampedAt(kvOf(a, dir), p) && clampedAt(kvOf(b, dir), p))); sym_reached("vol split");
}
HARNESS(vol_slice) {
  NV v = mkVol("P", 2); LN_NurbsSurface s; int dir = sym_param("dir", 0), mult; double t = pickCut(v, dir, true, mult); sym_check("extraction succeeds", NurbsVolume::Extract(v, t, vd(dir), s)); sym_check("slice well formed", wellFormed(s)); if (!wellFormed(s)) return;
  int o0 = dir == 0 ? 1 : 0, o1 = dir == 2 ? 1 : 2; sym_check("slice degrees", s.DegreeU == degOf(v, o0) && s.DegreeV == degOf(v, o1)); sameKnots("slice u knots", s.KnotVectorU, kvOf(v, o0)); sameKnots("slice v knots", s.KnotVectorV, kvOf(v, o1)); if (s.KnotVectorU.size() != kvOf(v, o0).size() || s.KnotVectorV.size() != kvOf(v, o1).size()) return;
  Param a = pickInside("a", kvOf(v, o0), degOf(v, o0)), b = pickInside("b", kvOf(v, o1), degOf(v, o1)); double x[3]; int sp[3]; x[dir] = t; x[o0] = a.u; x[o1] = b.u; sp[dir] = spanOf(kvOf(v, dir), degOf(v, dir), t); sp[o0] = a.span; sp[o1] = b.span; checkH("slice point", surfH(s, a.span, b.span, a.u, b.u), volH(v, sp[0], sp[1], sp[2], x[0], x[1], x[2])); sym_reached("vol slice");
}
HARNESS(vol_refine) {
  NV v = mkVol("P", 2), r; int dir = sym_param("dir", 0), p = degOf(v, dir); const VD& K = kvOf(v, dir); VD X; for (int k = p; k + p + 1 < (int)K.size(); k++) if (K[k] < K[k + 1]) { if (X.empty()) X.push_back(sym_real("t", K[k] + DELTA, K[k] + 0.5 * (K[k + 1] - K[k]))); X.push_back(K[k] + 0.75 * (K[k + 1] - K[k])); }
  NurbsVolume::RefineKnotVector(v, X, vd(dir), r); VD E = K; for (double x : X) sortInto(E, x); sameKnots("refined knots", kvOf(r, dir), E); others(v, r, dir); sameVol("volume after refinement", v, r); sym_reached("vol refine");
}
HARNESS(vol_elevate) {
  NV v = mkVol("P", 2), r; int dir = sym_param("dir", 0), t = sym_param("t", 1); VD K = clampKnots(kvOf(v, dir), degOf(v, dir)); NurbsVolume::ElevateDegree(v, t, vd(dir), r); sym_check("elevated degree", degOf(r, dir) == degOf(v, dir) + t); VD E; for (size_t i = 0; i < K.size(); i++) { E.push_back(K[i]); if (i + 1 == K.size() || K[i] != K[i + 1]) for (int k = 0; k < t; k++) E.push_back(K[i]); }
  sameKnots("elevated knots", kvOf(r, dir), E); others(v, r, dir); sameVol("volume after elevation", v, r); sym_reached("vol elevate");
}
HARNESS(vol_reverse) {
  NV v = mkVol("P", 2), r, z; int dir = sym_param("dir", 0); NurbsVolume::Reverse(v, vd(dir), r); double lo[3], hi[3]; domain(v, lo, hi); others(v, r, dir); if (!domIs("reversed", r, lo, hi)) return; Param q[3] = {pickInside("u", v.KnotVectorU, v.DegreeU), pickInside("v", v.KnotVectorV, v.DegreeV), pickInside("w", v.KnotVectorW, v.DegreeW)}; double x[3]; int sp[3]; for (int d = 0; d < 3; d++) { const VD& K = kvOf(v, d); x[d] = d == dir ? K[0] + K.back() - q[d].u : q[d].u; sp[d] = d == dir ? (int)K.size() - 2 - q[d].span : q[d].span; }
  checkH("reversed point", volH(r, sp[0], sp[1], sp[2], x[0], x[1], x[2]), volH(v, q[0].span, q[1].span, q[2].span, q[0].u, q[1].u, q[2].u)); NurbsVolume::Reverse(r, vd(dir), z); sameVol("reverse twice", v, z); sym_reached("vol reverse");
}
HARNESS(vol_swap) {
  NV v = mkVol("P", 2), r, z; int a = sym_choice("a", 0, 2), b = sym_choice("b", 0, 2); if (a == b) { sym_assume(0); return; } NurbsVolume::Swap(v, vd(a), vd(b), r); sym_check("swapped volume well formed", wf(r)); if (!wf(r)) return; int m[3] = {0, 1, 2}; m[a] = b; m[b] = a; for (int d = 0; d < 3; d++) { sym_check("swapped degrees", degOf(r, d) == degOf(v, m[d])); sameKnots("swapped knots", kvOf(r, d), kvOf(v, m[d])); }
  Param q[3] = {pickInside("u", v.KnotVectorU, v.DegreeU), pickInside("v", v.KnotVectorV, v.DegreeV), pickInside("w", v.KnotVectorW, v.DegreeW)}; checkH("swapped point", volH(r, q[m[0]].span, q[m[1]].span, q[m[2]].span, q[m[0]].u, q[m[1]].u, q[m[2]].u), volH(v, q[0].span, q[1].span, q[2].span, q[0].u, q[1].u, q[2].u)); NurbsVolume::Swap(r, vd(a), vd(b), z); sameVol("swap twice", v, z); sym_reached("vol swap");
}
HARNESS(vol_closed) {
  int dir = sym_param("dir", 0), mode = sym_param("mode", 0); NV v = mkVol("P", mode ? 3 : 0); int n[3] = {(int)v.ControlPoints.size(), (int)v.ControlPoints[0].size(), (int)v.ControlPoints[0][0].size()};
  // close it by copying the first layer onto the last; mode 1: leave one corner open by at least 1
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int ix[3] = {i, j, k}; if (ix[dir] == n[dir] - 1) { ix[dir] = 0; v.ControlPoints[i][j][k] = v.ControlPoints[ix[0]][ix[1]][ix[2]]; } }
  if (mode) { int at = mode == 2 ? sym_choice("corner", 0, 3) : 3, ix[3], b = 0; for (int d = 0; d < 3; d++) ix[d] = d == dir ? n[d] - 1 : (at >> b++) & 1 ? n[d] - 1 : 0; H4 h = h4(v.ControlPoints[ix[0]][ix[1]][ix[2]]); double g = rv("gap", 1, 4); v.ControlPoints[ix[0]][ix[1]][ix[2]] = PW(h.x + g, h.y, h.z, h.w); }
  sym_check(mode ? "an open volume is not reported closed" : "a closed volume is reported closed", NurbsVolume::IsClosed(v, vd(dir)) == (mode == 0)); sym_reached("vol closed");
}
