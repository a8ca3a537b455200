// C30: knot vector utilities
#include "common.h"
#include "KnotVectorUtils.h"
#include "Polynomials.h"
#include "ValidationUtils.h"
using namespace LNLib;
static int cnt(const VD& U, double x) { int n = 0; for (double y : U) if (y == x) n++; return n; }
// symbolic breakpoints with gaps >= 1/4; the multiplicity of each is a path choice in [lo,hi]
static VD brk(int m) { VD b; double c = rv("b0", -4, 4); b.push_back(c); for (int i = 1; i < m; i++) { c = c + rv(idx("b", i), 0.25, 2); b.push_back(c); } return b; }
static VD expand(const VD& b, const std::vector<int>& k) { VD U; for (size_t i = 0; i < b.size(); i++) for (int j = 0; j < k[i]; j++) U.push_back(b[i]); return U; }
static std::vector<int> mults(const char* n, int m, int lo, int hi, int ends) { std::vector<int> k; for (int i = 0; i < m; i++) k.push_back((i == 0 || i == m - 1) && ends ? ends : sym_choice(idx(n, i).c_str(), lo, hi)); return k; }
HARNESS(maps) {
  int m = sym_param("m", 4); VD b = brk(m); auto k = mults("k", m, 1, 3, 0); VD U = expand(b, k); auto mp = KnotVectorUtils::GetKnotMultiplicityMap(U); sym_check("one entry per distinct knot", (int)mp.size() == m); int i = 0;
  for (auto& e : mp) { if (i < m) { sym_check_eq("knot", e.first, b[i], 0); sym_check("multiplicity", e.second == k[i]); } i++; }
  auto in = KnotVectorUtils::GetInternalKnotMultiplicityMap(U); sym_check("internal entries", (int)in.size() == (m >= 2 ? m - 2 : 0)); i = 1; for (auto& e : in) { if (i < m - 1) { sym_check_eq("internal knot", e.first, b[i], 0); sym_check("internal multiplicity", e.second == k[i]); } i++; }
  for (int j = 0; j < m; j++) { sym_check("multiplicity of a knot", Polynomials::GetKnotMultiplicity(U, b[j]) == k[j]); for (int p = 1; p <= 7; p++) sym_check("continuity is degree minus multiplicity", KnotVectorUtils::GetContinuity(p, U, b[j]) == p - k[j]); }
  double t = sym_real("t", 0.05, 0.95); if (m >= 2) { double x = b[0] + t * (b[1] - b[0]); sym_check("no multiplicity between knots", Polynomials::GetKnotMultiplicity(U, x) == 0); } sym_reached("maps");
}
HARNESS(rescale) {
  int m = sym_param("m", 4); VD b = brk(m); VD U = expand(b, mults("k", m, 1, 2, 0)); double lo = rv("lo", -5, 5), hi = lo + rv("len", 0.25, 5); VD R = KnotVectorUtils::Rescale(U, lo, hi); sym_check("size", R.size() == U.size()); if (R.size() != U.size()) return;
  sym_check_eq("first", R[0], lo, 1e-9); sym_check_eq("last", R.back(), hi, 1e-9); for (size_t i = 0; i < U.size(); i++) sym_check_eq("affine image", (R[i] - lo) * (U.back() - U[0]), (U[i] - U[0]) * (hi - lo), 1e-9); sym_reached("rescale");
}
// two knot vectors over common and private breakpoints: multiplicity 0 means absent
HARNESS(merge2) {
  int m = sym_param("m", 3), pre = sym_param("pre", 0); VD b = brk(m); int hi = sym_param("hi", 2); auto k0 = mults("k", m, 0, hi, sym_param("ends", 0)), k1 = mults("l", m, 0, hi, sym_param("ends", 0)); VD U = expand(b, k0), V = expand(b, k1), a, c; (void)pre; KnotVectorUtils::GetInsertedKnotElement(U, V, a, c);
  for (int i = 0; i < m; i++) { int mx = k0[i] > k1[i] ? k0[i] : k1[i]; sym_check("first vector is raised to the larger multiplicity", cnt(a, b[i]) == mx - k0[i]); sym_check("second vector is raised to the larger multiplicity", cnt(c, b[i]) == mx - k1[i]); }
  size_t na = 0, nc = 0; for (int i = 0; i < m; i++) { int mx = k0[i] > k1[i] ? k0[i] : k1[i]; na += mx - k0[i]; nc += mx - k1[i]; } sym_check("nothing else is inserted", a.size() == na && c.size() == nc); sym_check("sorted", nondecreasing(a) && nondecreasing(c)); sym_reached("merge2");
}
HARNESS(mergeN) {
  int m = sym_param("m", 3), N = sym_param("N", 3); VD b = brk(m); std::vector<std::vector<int>> k; VVD U; for (int n = 0; n < N; n++) { std::vector<int> q; for (int i = 0; i < m; i++) q.push_back((i == 0 || i == m - 1) && m > 2 ? 2 : sym_choice(idx("k", n, i).c_str(), 0, sym_param("hi", 2))); k.push_back(q); U.push_back(expand(b, q)); }
  auto r = KnotVectorUtils::GetInsertedKnotElements(U); sym_check("one list per knot vector", (int)r.size() == N); if ((int)r.size() != N) return;
  for (int n = 0; n < N; n++) { size_t tot = 0; for (int i = 0; i < m; i++) { int mx = 0; for (int q = 0; q < N; q++) if (k[q][i] > mx) mx = k[q][i]; sym_check("raised to the largest multiplicity", cnt(r[n], b[i]) == mx - k[n][i]); tot += mx - k[n][i]; } sym_check("nothing else is inserted", r[n].size() == tot); sym_check("sorted", nondecreasing(r[n])); }
  sym_reached("mergeN");
}
// knots bisecting the longest span, again and again
HARNESS(bisect) {
  int m = sym_param("m", 3), n = sym_param("n", 2); VD b = brk(m); std::vector<int> k(m, 1); k[0] = k[m - 1] = 3; VD U = expand(b, k); VD r = KnotVectorUtils::GetInsertedKnotElements(n, U); sym_check("as many knots as asked for", (int)r.size() == n); sym_check("sorted", nondecreasing(r));
  VD all = b; for (double x : r) { all.push_back(x); sym_check("strictly inside", b[0] < x && x < b[m - 1]); } sortAsc(all);
  // every inserted knot is the midpoint of a span that was longest: final spans are halved originals and none exceeds twice another's parent
  for (size_t i = 0; i + 1 < all.size(); i++) sym_check("no knot is repeated", all[i] < all[i + 1]);
  VD gap; for (int i = 0; i + 1 < m; i++) gap.push_back(b[i + 1] - b[i]); VD pts = b; // replay the specification: split a longest gap
  for (int s = 0; s < n; s++) { int w = 0; double best = pts[1] - pts[0]; for (size_t i = 1; i + 1 < pts.size(); i++) { double g = pts[i + 1] - pts[i]; if (g > best + 1e-5) { best = g; w = (int)i; } else sym_assume_le(g, best + 1e-9 * 0); }
    double x = pts[w] + best / 2; pts.insert(pts.begin() + w + 1, x); }
  for (size_t i = 0; i < pts.size() && i < all.size(); i++) sym_check_eq("longest span is bisected", all[i], pts[i], 2e-5); sym_reached("bisect");
}
HARNESS(uniform) {
  int m = sym_param("m", 5), e = sym_param("e", 3), bad = sym_param("bad", 0), in = sym_param("in", 1); double h = rv("h", 0.125, 2), o = rv("o", -3, 3); VD U; for (int i = 0; i < m; i++) { int k = (i == 0 || i == m - 1) ? e : in; if (bad == 1 && i == 2) k = in + 1; if (bad == 3 && i == m - 1) k = e + 1; if (bad == 4 && i == 0) k = e + 1; double x = o + i * h; if (bad == 2 && i == 2) x = x + rv("d", 0.01, 0.1) ; for (int j = 0; j < k; j++) U.push_back(x); }
  bool r = KnotVectorUtils::IsUniform(U); sym_check(bad ? "uneven knot vector is not uniform" : "evenly spaced knot vector is uniform", bad ? !r : r); sym_reached("uniform");
}
// validity checks
HARNESS(valid) {
  int n = sym_param("n", 4); VD U; for (int i = 0; i < n; i++) U.push_back(rv(idx("u", i), -4, 4)); bool v = ValidationUtils::IsValidKnotVector(U); bool nd = nondecreasing(U); if (!nd) { bool strict = false; for (int i = 1; i < n; i++) if (U[i] < U[i - 1] - 1e-5) strict = true; if (strict) sym_check("a decreasing vector is not a knot vector", !v); } else sym_check("a nondecreasing vector is a knot vector", v); sym_reached("valid");
}
HARNESS(validity) {
  int p = sym_param("p", 2); for (int n = 1; n < 9; n++) for (int k = 1; k < 14; k++) { sym_check("Bezier count", ValidationUtils::IsValidBezier(p, n) == (n == p + 1)); sym_check("B-spline count", ValidationUtils::IsValidBspline(p, k, n) == (k == n + p + 1)); sym_check("NURBS count", ValidationUtils::IsValidNurbs(p, k, n) == (k == n + p + 1)); }
}
HARNESS(uniform1) { VD U(4, rv("x", -3, 3)); sym_check("a single distinct knot is not uniform", !KnotVectorUtils::IsUniform(U)); sym_check("a single distinct knot has no internal knots", KnotVectorUtils::GetInternalKnotMultiplicityMap(U).empty()); }
// knots that raise both ends of a parameter range to multiplicity degree+1; breakpoints 0..3, interior multiplicity k
HARNESS(clamp_range) {
  int p = sym_param("p", 2), a = sym_param("a", 0), b = sym_param("b", 3), k = sym_param("k", 1); VD br = brk(4); VD U = expand(br, {p + 1, k, k, p + 1}); VD r = KnotVectorUtils::GetInsertedKnotElement(p, U, br[a], br[b]);
  int ma = a == 0 ? p + 1 : k, mb = b == 3 ? p + 1 : k; sym_check("start raised to degree+1", cnt(r, br[a]) == p + 1 - ma); sym_check("end raised to degree+1", cnt(r, br[b]) == p + 1 - mb); sym_check("nothing else", (int)r.size() == 2 * (p + 1) - ma - mb); sym_reached("clamp range");
}
