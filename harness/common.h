// Shared harness helpers and independent oracles.  Everything here is written against the mathematical
// definitions, never against LNLib's algorithms.
#pragma once
#include "sym.h"
#include <string>
#include <vector>
#include <stdexcept>
#include "XYZ.h"
#include "XYZW.h"
#include "UV.h"
#include "LNObject.h"
typedef std::vector<double> VD;
typedef std::vector<VD> VVD;
static inline std::string idx(const char* b, int i) { return std::string(b) + std::to_string(i); }
static inline std::string idx(const char* b, int i, int j) { return std::string(b) + std::to_string(i) + "_" + std::to_string(j); }
static inline std::string idx(const char* b, int i, int j, int k) { return idx(b, i, j) + "_" + std::to_string(k); }
static inline double rv(const std::string& n, double lo, double hi) { return sym_real(n.c_str(), lo, hi); }

static const double DELTA = 1.0 / 16384;   // distance kept from knots for "inside a span" parameters

// ---- knot vectors ---------------------------------------------------------------------------------
// distinct breakpoints b0<b1<..<bs, interior multiplicities; clamped ends
static inline VD clampedKnots(int p, const VD& br, const std::vector<int>& mult) {
  VD U; for (int i = 0; i <= p; i++) U.push_back(br[0]);
  for (size_t i = 1; i + 1 < br.size(); i++) for (int k = 0; k < mult[i - 1]; k++) U.push_back(br[i]);
  for (int i = 0; i <= p; i++) U.push_back(br.back()); return U;
}
// A catalogue of concrete knot vectors for degree p; id selects the pattern.
//  0 Bezier [0,1]; 1 one interior; 2 two interior uneven; 3 interior double (p>=2); 4 shifted/negative range [-2,3] two interior,
//  5 mixed multiplicities (double then single); 6 interior of full multiplicity p; 7 three interior
//  8 wide range [0,10]; 9 unclamped uniform
static inline VD knotPattern(int p, int id) {
  switch (id) {
  case 0: return clampedKnots(p, {0, 1}, {});
  case 1: return clampedKnots(p, {0, 0.375, 1}, {1});
  case 2: return clampedKnots(p, {0, 0.25, 0.625, 1}, {1, 1});
  case 3: return clampedKnots(p, {0, 0.375, 1}, {p >= 2 ? 2 : 1});
  case 4: return clampedKnots(p, {-2, -0.5, 1.25, 3}, {1, 1});
  case 5: return clampedKnots(p, {0, 0.25, 0.75, 1}, {p >= 2 ? 2 : 1, 1});
  case 6: return clampedKnots(p, {0, 0.5, 1}, {p});
  case 7: return clampedKnots(p, {0, 0.25, 0.5, 0.875, 1}, {1, 1, 1});
  case 8: return clampedKnots(p, {0, 4, 10}, {1});
  case 9: { VD U; for (int i = 0; i <= 2 * p + 3; i++) U.push_back(i * 0.5 - 1); return U; }
  case 10: return clampedKnots(p, {0, 0.125, 0.25, 0.4375, 0.5, 0.8125, 1}, {1, 1, 1, 1, 1}); // many spans
  case 11: return clampedKnots(p, {-1, 0, 2, 2.5, 7}, {p >= 2 ? 2 : 1, p, 1}); // mixed multiplicities
  case 12: return clampedKnots(p, {10, 14, 22, 30}, {p >= 3 ? 3 : 1, p >= 2 ? p - 1 : 1}); // far from zero
  case 13: { VD U; for (int i = p; i >= 1; i--) U.push_back(-0.5 * i); for (double x : {0.0, 0.0, 0.5, 1.0, 1.0}) U.push_back(x); for (int i = 1; i <= p; i++) U.push_back(1 + 0.25 * i); return U; } // unclamped, both ends of the domain repeated inside it
  default: return clampedKnots(p, {0, 1}, {});
  }
}
// the knots of the same spans with clamped ends
static inline VD clampKnots(VD U, int p) { int n = (int)U.size() - p - 2; for (int i = 0; i < p; i++) U[i] = U[p]; for (int i = n + 2; i < (int)U.size(); i++) U[i] = U[n + 1]; return U; }
// symbolic clamped knot vector: s interior simple knots, gaps >= 1/4, ends 0 and (symbolic) end
static inline VD symKnots(const char* base, int p, const std::vector<int>& mult, double gapLo = 0.25, double gapHi = 2) {
  VD br; br.push_back(0.0); double cur = 0.0;
  for (size_t i = 0; i <= mult.size(); i++) { cur = cur + rv(idx(base, (int)i), gapLo, gapHi); br.push_back(cur); }
  return clampedKnots(p, br, mult);
}
struct Param { double u; int span; bool atKnot; };
// every parameter of the domain [U_p, U_{n+1}] that is a knot exactly or keeps DELTA from all knots (concrete knots)
static inline Param pickParam(const char* name, const VD& U, int p, bool allowEnd = true) {
  int n = (int)U.size() - p - 2; std::vector<int> spans; for (int k = p; k <= n; k++) if (U[k] < U[k + 1]) spans.push_back(k);
  int m = (int)spans.size(); int c = sym_choice((std::string(name) + "@").c_str(), 0, 2 * m - (allowEnd ? 0 : 1));
  Param r;
  if (c < m) { r.span = spans[c]; r.atKnot = false; r.u = sym_real(name, U[r.span] + DELTA, U[r.span + 1] - DELTA); }
  else if (c < 2 * m) { r.span = spans[c - m]; r.atKnot = true; r.u = U[r.span]; }
  else { r.span = spans[m - 1]; r.atKnot = true; r.u = U[n + 1]; }
  return r;
}
static // a concrete parameter in every span (path choice): everything that depends on knots and weights only is a number
inline Param fixedParam(const char* n, const VD& U, int p) { std::vector<int> sp; for (int k = p; k + p + 1 < (int)U.size(); k++) if (U[k] < U[k + 1]) sp.push_back(k); int c = sp.size() < 2 ? 0 : sym_choice(n, 0, (int)sp.size() - 1); Param q; q.span = sp[c]; q.atKnot = false; q.u = U[q.span] + 0.3125 * (U[q.span + 1] - U[q.span]); return q; }
inline Param pickInside(const char* name, const VD& U, int p) {
  int n = (int)U.size() - p - 2; std::vector<int> spans; for (int k = p; k <= n; k++) if (U[k] < U[k + 1]) spans.push_back(k);
  int m = (int)spans.size(); int c = m == 1 ? 0 : sym_choice((std::string(name) + "@").c_str(), 0, m - 1);
  Param r; r.span = spans[c]; r.atKnot = false; r.u = sym_real(name, U[r.span] + DELTA, U[r.span + 1] - DELTA); return r;
}
// ---- oracles --------------------------------------------------------------------------------------
// N_{i,p}(u) by the Cox-de Boor recursion, the span containing u given (half-open, last span closed)
static inline double coxDeBoor(const VD& U, int i, int p, int span, double u) {
  if (p == 0) return i == span ? 1.0 : 0.0;
  if (span < i || span > i + p) return 0.0;
  double a = 0, b = 0;
  if (span >= i && span <= i + p - 1) { double d = U[i + p] - U[i]; a = (u - U[i]) / d * coxDeBoor(U, i, p - 1, span, u); }
  if (span >= i + 1 && span <= i + p) { double d = U[i + p + 1] - U[i + 1]; b = (U[i + p + 1] - u) / d * coxDeBoor(U, i + 1, p - 1, span, u); }
  return a + b;
}
// k-th derivative of N_{i,p}
static inline double coxDeBoorD(const VD& U, int i, int p, int span, double u, int k) {
  if (k == 0) return coxDeBoor(U, i, p, span, u);
  if (p == 0) return 0.0;
  double a = 0, b = 0;
  if (span >= i && span <= i + p - 1) { double d = U[i + p] - U[i]; a = coxDeBoorD(U, i, p - 1, span, u, k - 1) * p / d; }
  if (span >= i + 1 && span <= i + p) { double d = U[i + p + 1] - U[i + 1]; b = coxDeBoorD(U, i + 1, p - 1, span, u, k - 1) * p / d; }
  return a - b;
}
static inline double binom(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
static inline double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r = r * x; return r; }
static inline double bern(int n, int i, double u) { if (i < 0 || i > n) return 0; return binom(n, i) * ipow(u, i) * ipow(1.0 - u, n - i); }

typedef LNLib::XYZW PW; typedef LNLib::XYZ P3;
typedef std::vector<PW> VPW; typedef std::vector<P3> VP3;
typedef std::vector<VPW> VVPW;
struct H4 { double x, y, z, w; };
static inline H4 h4(const PW& q) { LNLib::XYZW& p = const_cast<LNLib::XYZW&>(q); return {p.WX(), p.WY(), p.WZ(), p.W()}; }
static inline PW symPW(const std::string& n, double wlo = 0.25, double whi = 4) { return PW(rv(n + "x", -8, 8), rv(n + "y", -8, 8), rv(n + "z", -8, 8), wlo == whi ? wlo : rv(n + "w", wlo, whi)); }
static inline VPW symCtrl(const char* b, int count, double wlo = 0.25, double whi = 4) { VPW r; for (int i = 0; i < count; i++) r.push_back(symPW(idx(b, i), wlo, whi)); return r; }
static inline P3 symP3(const std::string& n, double r = 8) { double x = rv(n + "x", -r, r), y = rv(n + "y", -r, r), z = rv(n + "z", -r, r); return P3(x, y, z); }
// homogeneous curve point / derivative, straight from the definition
static inline H4 curveH(const VD& U, int p, const VPW& P, int span, double u, int k = 0) {
  H4 r{0, 0, 0, 0};
  for (int i = span - p; i <= span; i++) { double b = coxDeBoorD(U, i, p, span, u, k); H4 q = h4(P[i]); r.x = r.x + b * q.x; r.y = r.y + b * q.y; r.z = r.z + b * q.z; r.w = r.w + b * q.w; }
  return r;
}
static inline int spanOf(const VD& U, int p, double u) { int n = (int)U.size() - p - 2; int s = p; for (int k = p; k <= n; k++) if (U[k] < U[k + 1] && u >= U[k]) s = k; return s; }
static inline void checkH(const char* w, const H4& a, const H4& b, double tol = 1e-7) {
  std::string s(w); sym_check_eq((s + ".x").c_str(), a.x, b.x, tol); sym_check_eq((s + ".y").c_str(), a.y, b.y, tol); sym_check_eq((s + ".z").c_str(), a.z, b.z, tol); sym_check_eq((s + ".w").c_str(), a.w, b.w, tol);
}
static inline void check3(const char* w, const P3& a_, const P3& b_, double tol = 1e-7) {
  P3 a = a_, b = b_; std::string s(w); sym_check_eq((s + ".x").c_str(), a.X(), b.X(), tol); sym_check_eq((s + ".y").c_str(), a.Y(), b.Y(), tol); sym_check_eq((s + ".z").c_str(), a.Z(), b.Z(), tol);
}
// Cartesian point p against homogeneous h, without division: p*w == h
static inline void checkProj(const char* w, const P3& p_, const H4& h, double tol = 1e-7) {
  P3 p = p_; std::string s(w); sym_check_eq((s + ".x").c_str(), p.X() * h.w, h.x, tol); sym_check_eq((s + ".y").c_str(), p.Y() * h.w, h.y, tol); sym_check_eq((s + ".z").c_str(), p.Z() * h.w, h.z, tol);
}
static inline bool nondecreasing(const VD& U) { for (size_t i = 1; i < U.size(); i++) if (U[i] < U[i - 1]) return false; return true; }
template <class F> static inline bool throwsAny(F f) { try { f(); } catch (...) { return true; } return false; }
// ---- curves ---------------------------------------------------------------------------------------
// weight mode: 0 all ones, 1 symbolic in [1/4,4], 2 concrete uneven pattern, 3 everything concrete
static inline PW symPWm(const std::string& n, int mode, int i) {
  if (mode == 1) return symPW(n); static const double pat[] = {1, 2, 0.5, 1.5, 3, 0.75};
  if (mode == 3) return PW((i * 7) % 5 + 0.5, (i * 3) % 7 - 2.0, (i * 5) % 3 + i * 0.25, 1.0);
  double w = mode == 0 ? 1.0 : pat[i % 6]; double x = rv(n + "x", -8, 8), y = rv(n + "y", -8, 8), z = rv(n + "z", -8, 8); return PW(x, y, z, w);
}
static inline LNLib::LN_NurbsCurve mkCurve(const char* b, int p, const VD& U, int mode = 1) {
  LNLib::LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1; for (int i = 0; i < n; i++) c.ControlPoints.push_back(symPWm(idx(b, i), mode, i)); return c;
}
static inline H4 curveAt(const LNLib::LN_NurbsCurve& c, int span, double u, int k = 0) { return curveH(c.KnotVector, c.Degree, c.ControlPoints, span, u, k); }
// structural validity of a curve result
static inline bool wellFormed(const LNLib::LN_NurbsCurve& c) { return c.Degree >= 1 && c.KnotVector.size() == c.ControlPoints.size() + c.Degree + 1 && nondecreasing(c.KnotVector); }
// span of a concrete parameter / of an open knot interval (lo,hi) in U (the span whose knots enclose it)
static inline int spanEnclosing(const VD& U, int p, double lo, double hi) { int n = (int)U.size() - p - 2; int s = -1; for (int k = p; k <= n; k++) if (U[k] < U[k + 1] && U[k] <= lo && hi <= U[k + 1]) s = k; return s; }
// On every elementary interval of the common refinement of a's and b's knots inside [lo,hi] the two homogeneous curves agree
// (as functions of the same parameter).  Knots of both must be comparable without forking.
static inline void sortAsc(VD& br) { for (size_t i = 1; i < br.size(); i++) for (size_t j = i; j > 0 && br[j] < br[j - 1]; j--) { double t = br[j]; br[j] = br[j - 1]; br[j - 1] = t; } }
static inline void sameCurveOn(const char* w, const LNLib::LN_NurbsCurve& a, const LNLib::LN_NurbsCurve& b, double lo, double hi, double tol = 1e-7) {
  VD br; for (double x : a.KnotVector) br.push_back(x); for (double x : b.KnotVector) br.push_back(x); sortAsc(br);
  for (size_t i = 0; i + 1 < br.size(); i++) { if (!(br[i] + 1e-9 < br[i + 1]) || br[i] < lo || br[i + 1] > hi) continue;
    int sa = spanEnclosing(a.KnotVector, a.Degree, br[i], br[i + 1]), sb = spanEnclosing(b.KnotVector, b.Degree, br[i], br[i + 1]);
    sym_check((std::string(w) + ": spans").c_str(), sa >= 0 && sb >= 0); if (sa < 0 || sb < 0) continue;
    double u = rv(std::string("t_") + w + std::to_string(i), 0, 1); double t = br[i] + u * (br[i + 1] - br[i]);
    checkH(w, curveAt(b, sb, t), curveAt(a, sa, t), tol); }
}
static inline bool domainIs(const char* w, const LNLib::LN_NurbsCurve& b, double lo, double hi) {
  sym_check((std::string(w) + ": result well formed").c_str(), wellFormed(b)); if (!wellFormed(b)) return false;
  sym_check_eq((std::string(w) + ": domain start").c_str(), b.KnotVector[b.Degree], lo, 1e-9); sym_check_eq((std::string(w) + ": domain end").c_str(), b.KnotVector[b.ControlPoints.size()], hi, 1e-9); return true;
}
static inline bool clampedAt(const VD& U, int p) { for (int i = 1; i <= p; i++) if (U[i] != U[0] || U[U.size() - 1 - i] != U[U.size() - 1]) return false; return true; }
static inline void sameCurve(const char* w, const LNLib::LN_NurbsCurve& a, const LNLib::LN_NurbsCurve& b, double tol = 1e-7) {
  double lo = a.KnotVector[a.Degree], hi = a.KnotVector[a.ControlPoints.size()]; if (domainIs(w, b, lo, hi)) sameCurveOn(w, a, b, lo, hi, tol);
}
// ---- surfaces -------------------------------------------------------------------------------------
static inline LNLib::LN_NurbsSurface mkSurf(const char* b, int p, int q, const VD& U, const VD& V, int mode = 1) {
  LNLib::LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = U; s.KnotVectorV = V; int n = (int)U.size() - p - 1, m = (int)V.size() - q - 1;
  for (int i = 0; i < n; i++) { VPW row; for (int j = 0; j < m; j++) row.push_back(symPWm(idx(b, i, j), mode, i * 5 + j * 2)); s.ControlPoints.push_back(row); } return s;
}
static inline H4 surfH(const LNLib::LN_NurbsSurface& s, int su, int sv, double u, double v, int k = 0, int l = 0) {
  H4 r{0, 0, 0, 0}; int p = s.DegreeU, q = s.DegreeV;
  for (int i = su - p; i <= su; i++) { double bu = coxDeBoorD(s.KnotVectorU, i, p, su, u, k);
    for (int j = sv - q; j <= sv; j++) { double b = bu * coxDeBoorD(s.KnotVectorV, j, q, sv, v, l); H4 h = h4(s.ControlPoints[i][j]); r.x = r.x + b * h.x; r.y = r.y + b * h.y; r.z = r.z + b * h.z; r.w = r.w + b * h.w; } }
  return r;
}
static inline bool wellFormed(const LNLib::LN_NurbsSurface& s) {
  if (s.DegreeU < 1 || s.DegreeV < 1 || s.ControlPoints.empty()) return false; if (s.KnotVectorU.size() != s.ControlPoints.size() + s.DegreeU + 1) return false;
  for (auto& r : s.ControlPoints) if (s.KnotVectorV.size() != r.size() + s.DegreeV + 1) return false; return nondecreasing(s.KnotVectorU) && nondecreasing(s.KnotVectorV);
}
static inline VD elementary(const VD& a, const VD& b, double lo, double hi) { VD br = a, r; for (double x : b) br.push_back(x); sortAsc(br); for (double x : br) if (!(x < lo) && !(hi < x) && (r.empty() || r.back() + 1e-9 < x)) r.push_back(x); return r; }
// same surface as a function of (u,v): every cell of the common refinement
static inline void sameSurfOn(const char* w, const LNLib::LN_NurbsSurface& a, const LNLib::LN_NurbsSurface& b, double ulo, double uhi, double vlo, double vhi, double tol = 1e-7) {
  VD bu = elementary(a.KnotVectorU, b.KnotVectorU, ulo, uhi), bv = elementary(a.KnotVectorV, b.KnotVectorV, vlo, vhi);
  double tu = rv(std::string("tu_") + w, 0, 1), tv = rv(std::string("tv_") + w, 0, 1);
  for (size_t i = 0; i + 1 < bu.size(); i++) for (size_t j = 0; j + 1 < bv.size(); j++) {
    int au = spanEnclosing(a.KnotVectorU, a.DegreeU, bu[i], bu[i + 1]), av = spanEnclosing(a.KnotVectorV, a.DegreeV, bv[j], bv[j + 1]), cu = spanEnclosing(b.KnotVectorU, b.DegreeU, bu[i], bu[i + 1]), cv = spanEnclosing(b.KnotVectorV, b.DegreeV, bv[j], bv[j + 1]);
    bool ok = au >= 0 && av >= 0 && cu >= 0 && cv >= 0; sym_check((std::string(w) + ": spans").c_str(), ok); if (!ok) continue;
    double u = bu[i] + tu * (bu[i + 1] - bu[i]), v = bv[j] + tv * (bv[j + 1] - bv[j]); checkH(w, surfH(b, cu, cv, u, v), surfH(a, au, av, u, v), tol); }
}
static inline bool surfDomainIs(const char* w, const LNLib::LN_NurbsSurface& b, double ulo, double uhi, double vlo, double vhi) {
  bool ok = wellFormed(b); sym_check((std::string(w) + ": result well formed").c_str(), ok); if (!ok) return false; std::string s(w);
  sym_check_eq((s + ": u start").c_str(), b.KnotVectorU[b.DegreeU], ulo, 1e-9); sym_check_eq((s + ": u end").c_str(), b.KnotVectorU[b.ControlPoints.size()], uhi, 1e-9);
  sym_check_eq((s + ": v start").c_str(), b.KnotVectorV[b.DegreeV], vlo, 1e-9); sym_check_eq((s + ": v end").c_str(), b.KnotVectorV[b.ControlPoints[0].size()], vhi, 1e-9); return true;
}
static inline void sameSurf(const char* w, const LNLib::LN_NurbsSurface& a, const LNLib::LN_NurbsSurface& b, double tol = 1e-7) {
  double ul = a.KnotVectorU[a.DegreeU], uh = a.KnotVectorU[a.ControlPoints.size()], vl = a.KnotVectorV[a.DegreeV], vh = a.KnotVectorV[a.ControlPoints[0].size()];
  if (surfDomainIs(w, b, ul, uh, vl, vh)) sameSurfOn(w, a, b, ul, uh, vl, vh, tol);
}
