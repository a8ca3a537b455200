// Basis functions, knot spans, derivatives of basis functions, Bernstein / power bases.
#include "common.h"
#include "Polynomials.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "MathUtils.h"
using namespace LNLib;

static void valuesAt(const VD& U, int p, const Param& q, bool table = false) {
  int n = (int)U.size() - p - 2;
  int s = Polynomials::GetKnotSpanIndex(p, U, q.u);
  sym_check("knot span contains the parameter", s == q.span);
  double N[Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctions(q.span, p, U, q.u, N);
  double sum = 0; VD ref(p + 1);
  for (int j = 0; j <= p; j++) {
    ref[j] = coxDeBoor(U, q.span - p + j, p, q.span, q.u);
    sym_check_eq("BasisFunctions equals Cox-de Boor", N[j], ref[j], 1e-9);
    sym_check_le("BasisFunctions nonnegative", 0.0, N[j], 1e-12);
    sum = sum + N[j];
  }
  sym_check_eq("partition of unity", sum, 1.0, 1e-9);
  if (!table) for (int i = 0; i <= n; i++) {
    double e = (i >= q.span - p && i <= q.span) ? ref[i - (q.span - p)] : 0.0;
    sym_check_eq("OneBasisFunction equals Cox-de Boor", Polynomials::OneBasisFunction(i, p, U, q.u), e, 2e-5);
  }
  VVD all = Polynomials::AllBasisFunctions(q.span, p, U, q.u);
  for (int j = 0; j <= p; j++) for (int r = 0; r <= j; r++)
    sym_check_eq("AllBasisFunctions column", all[r][j], coxDeBoor(U, q.span - j + r, j, q.span, q.u), 1e-9);
}
HARNESS(basis_values) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1));
  Param q = pickParam("u", U, p); valuesAt(U, p, q, sym_param("table", 0)); sym_reached("basis values");
}
static void derivsAt(const VD& U, int p, const Param& q, bool end, bool table = false) {
  int n = (int)U.size() - p - 2;
  for (int d = 0; d <= p; d++) {
    VVD D = Polynomials::BasisFunctionsDerivatives(q.span, p, d, U, q.u);
    sym_check("derivative table shape", (int)D.size() == d + 1 && (int)D[0].size() == p + 1);
    if (d < p && d > 1 && !table) continue;
    for (int k = 0; k <= d; k++) for (int j = 0; j <= p; j++)
      sym_check_eq("BasisFunctionsDerivatives", D[k][j], coxDeBoorD(U, q.span - p + j, p, q.span, q.u, k), 1e-8);
  }
  double F[2][Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctionsFirstOrderDerivative(q.span, p, U, q.u, F);
  for (int j = 0; j <= p; j++) { sym_check_eq("first-order table value", F[0][j], coxDeBoor(U, q.span - p + j, p, q.span, q.u), 1e-8); sym_check_eq("first-order table derivative", F[1][j], coxDeBoorD(U, q.span - p + j, p, q.span, q.u, 1), 1e-8); }
  if (!end && !table) for (int i = 0; i <= n; i++) {
    VD one = Polynomials::OneBasisFunctionDerivative(i, p, p, U, q.u);
    bool in = i >= q.span - p && i <= q.span;
    for (int k = 0; k <= p; k++) sym_check_eq("OneBasisFunctionDerivative", one[k], in ? coxDeBoorD(U, i, p, q.span, q.u, k) : 0.0, 1e-2);
  }
}
HARNESS(basis_derivs) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 1));
  Param q = pickParam("u", U, p); bool end = q.atKnot && q.u == U[U.size() - p - 1];
  derivsAt(U, p, q, end, sym_param("table", 0)); sym_reached("basis derivatives");
}
// one basis function's derivatives at higher degrees
HARNESS(one_deriv) {
  int p = sym_param("p", 5), i = sym_param("i", 0); VD U = knotPattern(p, sym_param("kv", 1)); int n = (int)U.size() - p - 2; if (i > n) i = n; Param q = pickInside("u", U, p); VD one = Polynomials::OneBasisFunctionDerivative(i, p, p, U, q.u); bool in = i >= q.span - p && i <= q.span; sym_check("one value per order", (int)one.size() == p + 1); if ((int)one.size() != p + 1) return;
  for (int k = 0; k <= p; k++) sym_check_eq("OneBasisFunctionDerivative", one[k], in ? coxDeBoorD(U, i, p, q.span, q.u, k) : 0.0, 1e-2); sym_reached("one derivative");
}
// knots and parameter both symbolic
HARNESS(basis_symknots) {
  int p = sym_param("p", 2), m = sym_param("m", 1), dv = sym_param("dv", 0);
  VD U = symKnots("g", p, std::vector<int>(m ? 1 : 0, m ? m : 1));
  int n = (int)U.size() - p - 2; std::vector<int> spans; for (int k = p; k <= n; k++) if (k == p || k == n) if (spans.empty() || spans.back() != k) spans.push_back(k);
  // spans with non-empty interior: p and n (they coincide when there is no interior knot)
  int c = sym_choice("span", 0, (int)spans.size() - 1); Param q; q.span = spans[c]; q.atKnot = false;
  double lam = sym_real("lam", DELTA * 64, 1 - DELTA * 64); q.u = U[q.span] + lam * (U[q.span + 1] - U[q.span]);
  if (dv) derivsAt(U, p, q, false); else valuesAt(U, p, q); sym_reached("basis with symbolic knots");
}
HARNESS(knot_multiplicity) {
  int p = sym_param("p", 2); VD U = knotPattern(p, sym_param("kv", 5));
  int c = sym_choice("at", 0, 1);
  if (c) { Param q = pickInside("u", U, p); sym_check("multiplicity of a non-knot is 0", Polynomials::GetKnotMultiplicity(U, q.u) == 0); }
  else { int i = sym_choice("i", 0, (int)U.size() - 1); int e = 0; for (double x : U) if (x == U[i]) e++;
    sym_check("multiplicity counts the knot's occurrences", Polynomials::GetKnotMultiplicity(U, U[i]) == e); }
  sym_reached("multiplicity");
}
// ------------------------------------------------------------------ Bernstein, Horner, power basis
HARNESS(bernstein) {
  int n = sym_param("n", 3); double u = sym_real("u", 0, 1);
  if (sym_choice("end", 0, 2) == 1) u = 0.0; else if (sym_choice("end2", 0, 1) == 1) u = 1.0;
  VD all = Polynomials::AllBernstein(n, u); sym_check("AllBernstein size", (int)all.size() == n + 1); double sum = 0;
  for (int i = 0; i <= n; i++) {
    sym_check_eq("AllBernstein", all[i], bern(n, i, u), 1e-9); sym_check_eq("Bernstein", Polynomials::Bernstein(i, n, u), bern(n, i, u), 1e-9);
    sym_check_le("Bernstein nonnegative", 0.0, all[i], 1e-12); sum = sum + all[i];
  }
  sym_check_eq("Bernstein partition of unity", sum, 1.0, 1e-9); sym_reached("bernstein");
}
HARNESS(horner) {
  int n = sym_param("n", 3), m = sym_param("m", 2); double u = sym_real("u", 0, 1), v = sym_real("v", 0, 1);
  VD a; for (int i = 0; i <= n; i++) a.push_back(rv(idx("a", i), -5, 5));
  double x = sym_real("x", -3, 3), e = 0; for (int i = 0; i <= n; i++) e = e + a[i] * ipow(x, i);
  sym_check_eq("Horner", Polynomials::Horner(n, a, x), e, 1e-8);
  VVD A(n + 1, VD(m + 1)); double e2 = 0; for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) { A[i][j] = rv(idx("A", i, j), -5, 5); e2 = e2 + A[i][j] * ipow(u, i) * ipow(v, j); }
  UV uv(u, v); sym_check_eq("Horner of two variables", Polynomials::Horner(n, m, A, uv), e2, 1e-8); sym_reached("horner");
}
HARNESS(power_matrix) {
  int n = sym_param("n", 3); VVD M = Polynomials::BezierToPowerMatrix(n); VVD I = Polynomials::PowerToBezierMatrix(n, M); double u = sym_real("u", 0, 1);
  VD P, a(n + 1, 0.0), b(n + 1, 0.0); for (int i = 0; i <= n; i++) P.push_back(rv(idx("P", i), -5, 5));
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) a[i] = a[i] + M[i][j] * P[j];
  double pw = 0, bz = 0; for (int i = 0; i <= n; i++) { pw = pw + a[i] * ipow(u, i); bz = bz + bern(n, i, u) * P[i]; }
  sym_check_eq("Bezier to power coefficients", pw, bz, 1e-7);
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) b[i] = b[i] + I[i][j] * a[j];
  for (int i = 0; i <= n; i++) sym_check_eq("power to Bezier inverts", b[i], P[i], 1e-7);
  sym_reached("power matrix");
}
HARNESS(bezier_curve) {
  int n = sym_param("n", 3); double u = sym_real("u", 0, 1); VPW C = symCtrl("P", n + 1); LN_BezierCurve<XYZW> b; b.Degree = n; b.ControlPoints = C;
  int e = sym_choice("end", 0, 2); if (e == 1) u = 0.0; if (e == 2) u = 1.0;
  H4 r{0, 0, 0, 0}; for (int i = 0; i <= n; i++) { double w = bern(n, i, u); H4 q = h4(C[i]); r.x = r.x + w * q.x; r.y = r.y + w * q.y; r.z = r.z + w * q.z; r.w = r.w + w * q.w; }
  BezierCurve::Check(b);
  checkH("Bezier point by Bernstein", h4(BezierCurve::GetPointOnCurveByBernstein(b, u)), r);
  checkH("Bezier point by de Casteljau", h4(BezierCurve::GetPointOnCurveByDeCasteljau(b, u)), r);
  if (n == 2) checkProj("quadratic arc point", BezierCurve::GetPointOnQuadraticArc(C[0], C[1], C[2], u), r);
  sym_reached("bezier curve");
}
HARNESS(bezier_surface) {
  int n = sym_param("n", 2), m = sym_param("m", 3); double u = sym_real("u", 0, 1), v = sym_real("v", 0, 1); LN_BezierSurface<XYZW> s; s.DegreeU = n; s.DegreeV = m; H4 r{0, 0, 0, 0};
  for (int i = 0; i <= n; i++) { VPW row; for (int j = 0; j <= m; j++) { PW q = symPW(idx("P", i, j)); row.push_back(q); double w = bern(n, i, u) * bern(m, j, v); H4 h = h4(q); r.x = r.x + w * h.x; r.y = r.y + w * h.y; r.z = r.z + w * h.z; r.w = r.w + w * h.w; } s.ControlPoints.push_back(row); }
  checkH("Bezier surface point by de Casteljau", h4(BezierSurface::GetPointOnSurfaceByDeCasteljau(s, UV(u, v))), r); sym_reached("bezier surface");
}
