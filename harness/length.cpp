// C31: quadrature, arc length and parameters by length
#include "common.h"
#include "NurbsCurve.h"
#include "Integrator.h"
#include "LNEnums.h"
using namespace LNLib;
static IntegratorType IT(int k) { return k == 0 ? IntegratorType::Simpson : k == 1 ? IntegratorType::GaussLegendre : IntegratorType::Chebyshev; }
struct PolyFn : IntegrationFunction { double operator()(double t, void* d) override { VD& a = *(VD*)d; double r = 0; for (int i = (int)a.size() - 1; i >= 0; i--) r = r * t + a[i]; return r; } };
struct PolyFn2 : BinaryIntegrationFunction { double operator()(double u, double v, void* d) const override { VVD& a = *(VVD*)d; double r = 0; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) r = r + a[i][j] * ipow(u, (int)i) * ipow(v, (int)j); return r; } };
static double polyInt(const VD& a, double s, double e) { double r = 0; for (size_t i = 0; i < a.size(); i++) r = r + a[i] * (ipow(e, (int)i + 1) - ipow(s, (int)i + 1)) / (double)(i + 1); return r; }
HARNESS(simpson) { VD a; for (int i = 0; i < 4; i++) a.push_back(rv(idx("a", i), -8, 8)); double B = sym_param("box", 2), s = rv("s", -B, B), e = rv("e", -B, B); PolyFn f; sym_check_eq("Simpson's rule is exact on cubics", Integrator::Simpson(f, &a, s, e), polyInt(a, s, e), 1e-9); }
HARNESS(simpson2) {
  VVD a; for (int i = 0; i < 4; i++) { VD r; for (int j = 0; j < 4; j++) r.push_back(rv(idx("a", i, j), -8, 8)); a.push_back(r); } double B = sym_param("box", 2), s = rv("s", -B, B), e = rv("e", -B, B), p = rv("p", -B, B), q = rv("q", -B, B); PolyFn2 f; double x = 0;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) x = x + a[i][j] * (ipow(e, i + 1) - ipow(s, i + 1)) / (i + 1.0) * (ipow(q, j + 1) - ipow(p, j + 1)) / (j + 1.0);
  sym_check_eq("two-dimensional Simpson is exact on bicubics", Integrator::Simpson(f, &a, s, e, p, q), x, 1e-9); }
HARNESS(gauss) {
  int d = sym_param("d", 20); VD a; for (int i = 0; i <= d; i++) a.push_back(rv(idx("a", i), -8, 8)); const VD &X = Integrator::GaussLegendreAbscissae, &W = Integrator::GaussLegendreWeights;
  sym_check("as many weights as abscissae", X.size() == W.size()); PolyFn f; double r = 0; for (size_t i = 0; i < X.size() && i < W.size(); i++) r = r + W[i] * f(X[i], &a); sym_check_eq("Gauss-Legendre rule is exact on polynomials", r, polyInt(a, -1, 1), 1e-12); }
HARNESS(chebyshev) {
  int d = sym_param("d", 3), two = sym_param("two", 0), rep = sym_param("rep", 0), conc = sym_param("conc", 0); sym_approx_sqrt(1);
  VD a; if (conc == 2) { double k = rv("k", 1, 8); for (int i = 0; i <= d; i++) a.push_back(k * ((i * 7) % 5 - 1.5)); } else a.push_back(conc ? 5.0 : rv("a0", 5, 8)); if (conc != 2) for (int i = 1; i <= d; i++) a.push_back(conc ? (i % 2 ? 0.5 : -0.25) : rv(idx("a", i), -0.5, 0.5)); double s = 0, e = conc ? 2 : 1; PolyFn f; VD se = Integrator::ChebyshevSeries();
  double r = 0; if (rep) r = Integrator::ClenshawCurtisQuadrature(f, &a, -1, 0.5, se); r = two ? Integrator::ClenshawCurtisQuadrature2(f, &a, s, e, se) : Integrator::ClenshawCurtisQuadrature(f, &a, s, e, se);
  sym_check_eq("Clenshaw-Curtis quadrature integrates the polynomial", r, polyInt(a, s, e), 1e-9); sym_reached("cheb");
}
// curves ---------------------------------------------------------------------------------------------
HARNESS(line_len) {
  int ty = sym_param("ty", 0), n = sym_param("n", 2), d = sym_param("dir", 0); sym_approx_sqrt(1); static const double D[][4] = {{1, 0, 0, 1}, {0, 0, 2, 2}, {1, 2, 2, 3}, {-2, 1, 2, 3}, {1, 1, 0, 0}}; P3 dir(D[d][0], D[d][1], D[d][2]);
  P3 o = symP3("o", 4); LN_NurbsCurve c; c.Degree = n == 2 || sym_param("p1", 0) ? 1 : 2; double s = 0; for (int i = 0; i < n; i++) { if (i) s = s + rv(idx("s", i), 0.25, 2); c.ControlPoints.push_back(PW(o + dir * s, n == 2 ? 1 : 1 + 0.5 * i)); }
  c.KnotVector = VD(c.Degree + 1, 0.0); for (int i = 1; i < n - c.Degree; i++) c.KnotVector.push_back(i); for (int i = 0; i <= c.Degree; i++) c.KnotVector.push_back(n - c.Degree);
  double L = NurbsCurve::ApproximateLength(c, IT(ty)); sym_check_eq("length of a straight curve", L * L, s * s * (D[d][0] * D[d][0] + D[d][1] * D[d][1] + D[d][2] * D[d][2]), 1e-7); sym_reached("line");
}
// a straight curve that folds back: u in [0,1], abscissae 0, a, b with b < a
HARNESS(fold_len) {
  int ty = sym_param("ty", 1), deg = sym_param("p", 2); P3 o = symP3("o", 4); LN_NurbsCurve c; c.Degree = deg; sym_approx_sqrt(1);
  double a = 4, b = 1; if (deg == 1) { a = rv("a", 3, 6); b = rv("b", 0.5, 2); } c.ControlPoints = {PW(o, 1), PW(o + P3(a, 0, 0), 1), PW(o + P3(b, 0, 0), 1)}; c.KnotVector = deg == 1 ? VD{0, 0, 0.5, 1, 1} : VD{0, 0, 0, 1, 1, 1};
  double L = NurbsCurve::ApproximateLength(c, IT(ty)); // x(t)=2at(1-t)+bt^2: top at t=a/(2a-b), height a^2/(2a-b)
  double x = deg == 1 ? a + (a - b) : 2 * a * a / (2 * a - b) - b; sym_check_eq("length of a straight curve that folds back", L, x, 2e-3); sym_reached("fold");
}
// Pythagorean-hodograph cubic: x' = u^2-v^2, y' = 2uv, speed u^2+v^2 (u,v linear): length is a closed form
HARNESS(ph_len) {
  int ty = sym_param("ty", 1), kn = sym_param("kn", 0), pl = sym_param("pl", 0), conc = sym_param("conc", 0); sym_approx_sqrt(1);
  double u0 = conc ? 1.5 : rv("u0", 1, 2), u1 = conc ? 1.25 : rv("u1", 1, 2), v0 = conc ? 0.25 : rv("v0", 0.1, 1), v1 = conc ? 1.75 : rv("v1", 1.5, 2); if (conc == 2) { u0 = rv("u0", 1, 2); u1 = rv("u1", 1, 2); } if (conc == 3) { v0 = rv("v0", 0.1, 1); v1 = rv("v1", 1.5, 2); } if (conc == 4) { double s = rv("s", 0.5, 2); u0 = u0 * s; u1 = u1 * s; v0 = v0 * s; v1 = v1 * s; } P3 o = symP3("o", 4);
  double X[3] = {u0 * u0 - v0 * v0, u0 * u1 - v0 * v1, u1 * u1 - v1 * v1}, Y[3] = {2 * u0 * v0, u0 * v1 + u1 * v0, 2 * u1 * v1}; // Bernstein of the derivative
  LN_NurbsCurve c; c.Degree = 3; double x = 0, y = 0; for (int i = 0; i < 4; i++) { P3 q = pl == 0 ? P3(x, y, 0) : pl == 1 ? P3(0, x, y) : P3(y, 0, x); c.ControlPoints.push_back(PW(q + o, 1)); if (i < 3) { x = x + X[i] / 3.0; y = y + Y[i] / 3.0; } }
  double hi = kn ? 5.0 : 1.0, lo = kn ? 2.0 : 0.0; c.KnotVector = VD{lo, lo, lo, lo, hi, hi, hi, hi};
  for (int i = 0; i < sym_param("ins", 0); i++) { LN_NurbsCurve r; NurbsCurve::InsertKnot(c, lo + (hi - lo) * (i == 1 ? 0.75 : 0.375), 1, r); c = r; }
  double L = NurbsCurve::ApproximateLength(c, IT(ty)); double e = (u0 * u0 + u0 * u1 + u1 * u1 + v0 * v0 + v0 * v1 + v1 * v1) / 3.0; sym_check_eq("arc length", L, e, 2e-6);
  if (sym_param("part", 0)) { double t = 0.25, ut = u0 + (u1 - u0) * t, vt = v0 + (v1 - v0) * t, s = 0.75, us = u0 + (u1 - u0) * s, vs = v0 + (v1 - v0) * s; double P = NurbsCurve::ApproximateLength(c, lo + t * (hi - lo), lo + s * (hi - lo), IT(ty));
    sym_check_eq("arc length of a part", P, (s - t) * (ut * ut + ut * us + us * us + vt * vt + vt * vs + vs * vs) / 3.0, 2e-6); }
  sym_reached("ph");
}
HARNESS(arc_len) {
  int q = sym_param("q", 1), ty = sym_param("ty", 1), R = sym_param("R", 2); sym_approx_sqrt(1); P3 o = symP3("o", 4); LN_NurbsCurve c; NurbsCurve::CreateArc(o, P3(0, 1, 0), P3(0, 0, 1), 0, sym_pi(q, 6), R, R, c);
  double L = NurbsCurve::ApproximateLength(c, IT(ty)); sym_check_eq("length of an arc is radius times angle", L, sym_pi(q * R, 6), ty == 0 ? 1e-4 : 2e-6); sym_reached("arc");
}
// parameters by length
HARNESS(param_len) {
  int ty = sym_param("ty", 1), k = sym_param("k", 0); sym_approx_sqrt(1); P3 o = symP3("o", 4); LN_NurbsCurve c; double f = sym_param("f", 25) / 100.0, L; int kn = sym_param("kn", 0);
  if (k == 0) { c.Degree = 1; c.ControlPoints = {PW(o, 1), PW(o + P3(6, 0, 8), 1)}; c.KnotVector = {0, 0, 1, 1}; L = 10; }
  else if (k == 1) { NurbsCurve::CreateArc(o, P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(3, 2), 2, 2, c); L = sym_pi(3, 1); }
  else { c.Degree = 3; double X[3] = {2, 1.5, -1}, Y[3] = {1, 2, 3}; (void)X; (void)Y; c.ControlPoints = {PW(o, 1), PW(o + P3(1, 2, 0), 1), PW(o + P3(3, 2, 1), 1), PW(o + P3(4, 0, 2), 1), PW(o + P3(6, 1, 0), 1)}; c.KnotVector = kn ? VD{1, 1, 1, 1, 2.5, 3, 3, 3, 3} : VD{0, 0, 0, 0, 0.5, 1, 1, 1, 1}; L = NurbsCurve::ApproximateLength(c, IT(ty)); }
  double u = NurbsCurve::GetParamOnCurve(c, f * L, IT(ty)); double lo = c.KnotVector[0], hi = c.KnotVector.back(); sym_check_le("parameter not before the start", lo, u, 0); sym_check_le("parameter not after the end", u, hi, 0);
  if (f >= 1) sym_check_eq("asking for more than the whole gives the end", u, hi, 1e-9);
  else { LN_NurbsCurve a, b; bool s = NurbsCurve::SplitAt(c, u, a, b); sym_check("parameter is inside the curve", s); if (s) sym_check_eq("length up to the parameter", NurbsCurve::ApproximateLength(a, IntegratorType::GaussLegendre), f * L, 1e-4); }
  VD us = NurbsCurve::GetParamsOnCurve(c, f * L, IT(ty)); size_t m = 0; double acc = f; while (acc < 1 - 1e-6) { m++; acc += f; } sym_check("number of division parameters", us.size() == m); if (us.size() != m) return;
  for (size_t i = 0; i < m; i++) { LN_NurbsCurve a, b; bool s = NurbsCurve::SplitAt(c, us[i], a, b); sym_check("division parameter is inside the curve", s); if (s) sym_check_eq("length up to the division parameter", NurbsCurve::ApproximateLength(a, IntegratorType::GaussLegendre), f * L * (double)(i + 1), 3e-4); }
  sym_reached("param");
}
HARNESS(param_zero) { int ty = sym_param("ty", 1), k = sym_param("k", 0); sym_approx_sqrt(1); P3 o = symP3("o", 4); LN_NurbsCurve c; if (k == 0) { c.Degree = 1; c.ControlPoints = {PW(o, 1), PW(o + P3(6, 0, 8), 1)}; c.KnotVector = {0, 0, 1, 1}; } else NurbsCurve::CreateArc(o, P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(3, 2), 2, 2, c);
  double u = NurbsCurve::GetParamOnCurve(c, 0.0, IT(ty)); LN_NurbsCurve a, b; if (NurbsCurve::SplitAt(c, u, a, b)) sym_check_le("length up to the parameter of no length", NurbsCurve::ApproximateLength(a, IT(ty)), 0, 2e-4); sym_reached("zero"); }
