// C29: clamping / unclamping and the curve predicates (clamped, closed, periodic, linear, arc)
#include "common.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "KnotVectorUtils.h"
using namespace LNLib;
// unclamped knot vectors: 0 uniform, 1 uneven, 2 start double inside domain end, 3 end double, 4 half clamped (start clamped), 5 end clamped,
// 6 fully clamped, 7 negative range uneven with interior double
static VD openKnots(int p, int id, int extra = 2) {
  VD U; int m = 2 * p + 1 + extra; // last index
  if (id == 0) { for (int i = 0; i <= m; i++) U.push_back(i * 0.5 - 1); return U; }
  if (id == 1 || id == 7) { double c = id == 7 ? -5 : 0; static const double g[] = {0.5, 1, 0.25, 0.75, 1.5}; for (int i = 0; i <= m; i++) { U.push_back(c); c += g[i % 5]; } if (id == 7 && extra >= 2 && p >= 2) U[p + 2] = U[p + 1]; return U; }
  if (id == 2) { VD V = openKnots(p, 1, extra); V[p - 1] = V[p]; return V; }
  if (id == 3) { VD V = openKnots(p, 1, extra); V[m - p + 1] = V[m - p]; return V; }
  if (id == 4) { VD V = openKnots(p, 1, extra); for (int i = 0; i < p; i++) V[i] = V[p]; return V; }
  if (id == 5) { VD V = openKnots(p, 1, extra); for (int i = m - p; i <= m; i++) V[i] = V[m - p]; return V; }
  VD V = openKnots(p, 1, extra); for (int i = 0; i < p; i++) V[i] = V[p]; for (int i = m - p; i <= m; i++) V[i] = V[m - p]; return V;
}
HARNESS(clamp) {
  int p = sym_param("p", 2), id = sym_param("kv", 0), wm = sym_param("wm", 2), ex = sym_param("ex", 2);
  LN_NurbsCurve c = mkCurve("P", p, openKnots(p, id, ex), wm); LN_NurbsCurve r; bool t = throwsAny([&] { NurbsCurve::ToClampCurve(c, r); });
  sym_check("clamping is accepted", !t); if (t) return;
  sym_check("result well formed", wellFormed(r)); if (!wellFormed(r)) return;
  sym_check("clamped at both ends", clampedAt(r.KnotVector, p)); sym_check("IsClamp says so", NurbsCurve::IsClamp(r));
  sameCurve("clamped curve", c, r); sym_reached("clamp");
}
HARNESS(unclamp) {
  int p = sym_param("p", 2), id = sym_param("kv", 2), wm = sym_param("wm", 2);
  LN_NurbsCurve c = mkCurve("P", p, knotPattern(p, id), wm); LN_NurbsCurve r; NurbsCurve::ToUnclampCurve(c, r);
  sym_check("result well formed", wellFormed(r)); if (!wellFormed(r)) return; sym_check("same number of control points", r.ControlPoints.size() == c.ControlPoints.size());
  int n = (int)c.ControlPoints.size() - 1; const VD& U = r.KnotVector; double T = U[n + 1] - U[p];
  for (int i = 0; i < p; i++) { sym_check_eq("knot gaps before the start repeat those before the end", U[i + 1] - U[i], U[n - p + 2 + i] - U[n - p + 1 + i], 1e-12);
    sym_check_eq("knot gaps after the end repeat those after the start", U[n + 2 + i] - U[n + 1 + i], U[p + 1 + i] - U[p + i], 1e-12); }
  sym_check("not clamped any more", !NurbsCurve::IsClamp(r)); (void)T;
  sameCurve("unclamped curve", c, r);
  LN_NurbsCurve b; bool t = throwsAny([&] { NurbsCurve::ToClampCurve(r, b); }); sym_check("clamping back is accepted", !t); if (t) return;
  sameCurve("clamped back", c, b); bool same = b.ControlPoints.size() == c.ControlPoints.size(); sym_check("round trip keeps the number of control points", same); if (!same) return;
  for (int i = 0; i <= n; i++) checkH("round trip control point", h4(b.ControlPoints[i]), h4(c.ControlPoints[i])); sym_reached("unclamp");
}
HARNESS(is_clamp) {  // symbolic knots: multiplicity of the end knots decides
  int p = sym_param("p", 2), a = sym_param("a", 3), b = sym_param("b", 3), in = sym_param("in", 1);
  VD U; double c = rv("u", -4, 4); for (int i = 0; i < a; i++) U.push_back(c); for (int i = 0; i < in; i++) { c = c + rv(idx("g", i), 0.25, 2); U.push_back(c); } c = c + rv("ge", 0.25, 2); for (int i = 0; i < b; i++) U.push_back(c);
  int tail = sym_param("tail", 0); if (tail & 1) U.push_back(c + rv("gt", 0.25, 2)); if (tail & 2) U.insert(U.begin(), U[0] - rv("gs", 0.25, 2));
  LN_NurbsCurve k; k.Degree = p; k.KnotVector = U; for (int i = 0; i + p + 1 < (int)U.size(); i++) k.ControlPoints.push_back(PW(i, i * i, 0, 1));
  sym_check("IsClamp iff both end knots have multiplicity degree+1", NurbsCurve::IsClamp(k) == (!tail && a == p + 1 && b == p + 1));
}
// closedness: curve ends differ by a symbolic gap along one axis
HARNESS(closed) {
  int p = sym_param("p", 2), id = sym_param("kv", 2), ax = sym_param("ax", 0), open = sym_param("open", 0), wm = sym_param("wm", 2), un = sym_param("un", 0);
  VD U = knotPattern(p, id); LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1;
  P3 o = symP3("o", 8); double g = open ? rv("gap", 0.001, 4) : 0.0; static const double pat[] = {1, 2, 0.5, 1.5, 3, 0.75};
  for (int i = 0; i < n; i++) { double x = i == 0 || i == n - 1 ? 0 : 1.0 + i * 0.75, y = i == 0 || i == n - 1 ? 0 : (i * 3) % 4 + 0.5, z = i == 0 || i == n - 1 ? 0 : (i % 3) * 0.5; P3 q(x, y, z); if (i == n - 1) q[ax] = g; if (open == 2 && i == n - 2) q = P3(0, 0, 0); if (open == 2 && i == 1) { q = P3(0, 0, 0); q[ax] = g; }
    P3 s = q + o; double w = wm ? pat[i % 6] : 1; c.ControlPoints.push_back(PW(s, w)); }
  if (un) { LN_NurbsCurve r; NurbsCurve::ToUnclampCurve(c, r); c = r; }
  bool r = NurbsCurve::IsClosed(c); sym_check(open ? "open curve is not reported closed" : "closed curve is reported closed", open ? !r : r); sym_reached("closed");
}
// uniform unclamped curve with wrapped control points is periodic; breaking one wrapped point ends it
HARNESS(periodic) {
  int p = sym_param("p", 2), m = sym_param("m", 4), br = sym_param("br", -1), wm = sym_param("wm", 1); // m distinct control points
  P3 o = symP3("o", 4); static const double pat[] = {1, 2, 0.5, 1.5, 3, 0.75}; LN_NurbsCurve c; c.Degree = p; double g = 0.375, h = 0.5; if (!sym_param("cg", 0)) { g = rv("g", 0.01, 1); h = rv("h", 0.125, 2); }
  for (int i = 0; i < m + p; i++) { int k = i % m; P3 q((k * 3) % 5 + 0.5 * k, (k * k) % 7 - 1.0, (k % 2) * 0.75); if (br == i) q[0] = q[0] + g; P3 s = q + o; c.ControlPoints.push_back(PW(s, wm ? pat[k % 6] : 1)); }
  for (int i = 0; i < m + 2 * p + 1; i++) c.KnotVector.push_back(i * h);
  bool r = NurbsCurve::IsPeriodic(c); sym_check(br < 0 ? "wrapped uniform curve is periodic" : "curve with a broken wrap is not periodic", br < 0 ? r : !r);
  if (br < 0) { sym_check("periodic curve is closed", NurbsCurve::IsClosed(c)); LN_NurbsCurve cl; NurbsCurve::ToClampCurve(c, cl); sym_check("clamped curve is not periodic", !NurbsCurve::IsPeriodic(cl)); sym_check("clamped curve is still closed", NurbsCurve::IsClosed(cl)); }
  sym_reached("periodic");
}
// collinear control points (symbolic abscissae along a direction) are linear; one point off by more than the tolerance is not
HARNESS(linear) {
  int n = sym_param("n", 4), d = sym_param("dir", 0), off = sym_param("off", -1), wm = sym_param("wm", 1), same = sym_param("same", 0); sym_approx_sqrt(1);
  static const double D[][3] = {{1, 0, 0}, {0, 0, 2}, {1, 2, 2}, {-2, 1, 2}}; static const double N[][3] = {{0, 0, 1}, {1, 0, 0}, {2, -2, 1}, {1, 2, 0}}; static const double pat[] = {1, 2, 0.5, 1.5, 3, 0.75};
  P3 o = symP3("o", 4); P3 dir(D[d][0], D[d][1], D[d][2]), nor(N[d][0], N[d][1], N[d][2]); int sm = sym_param("small", 0); if (sm) dir = dir * (1.0 / 512); LN_NurbsCurve c; c.Degree = 2; double s = 0;
  for (int i = 0; i < n; i++) { if (i == 1 && same) s = 0; else if (i) s = s + rv(idx("s", i), 0.25, 2); if (same == 2 && i == n - 1) s = 0; P3 q = o + dir * s; if (i == off) q = q + nor * rv("e", sm ? 0.001 : 0.01, 2); c.ControlPoints.push_back(PW(q, wm ? pat[i] : 1)); }
  c.KnotVector = VD{0, 0, 0}; for (int i = 1; i < n - 2; i++) c.KnotVector.push_back(i); for (int i = 0; i < 3; i++) c.KnotVector.push_back(n - 2);
  bool r = NurbsCurve::IsLinear(c); sym_check(off < 0 ? "collinear curve is linear" : "bent curve is not linear", off < 0 ? r : !r); sym_reached("linear");
}
// concrete arcs translated symbolically
HARNESS(arc) {
  int q = sym_param("q", 1), ax = sym_param("ax", 0), R = sym_param("R", 2), ba = sym_param("bad", 0), el = sym_param("el", 0); sym_approx_sqrt(1);
  static const double A[][6] = {{1, 0, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 1}, {0.6, 0.8, 0, 0, 0, 1}}; double* a = (double*)A[ax]; P3 o = symP3("o", 4), X(a[0], a[1], a[2]), Y(a[3], a[4], a[5]);
  LN_NurbsCurve c; NurbsCurve::CreateArc(o, X, Y, 0, sym_pi(q, 4), R, el ? R * 1.5 : R, c); if (ba) { int n = (int)c.ControlPoints.size(), at = sym_param("at", 0); PW& w = c.ControlPoints[at ? n - 1 - at : n / 2]; P3 e = w.ToXYZ(true) + X * 0.05; if (ba == 2) { w = PW(w.ToXYZ(true), w.GetW() * 1.01); } else w = PW(e, w.GetW()); }
  if (sym_param("dom", 0)) { double lo = sym_param("dom", 0) == 1 ? 1.0 : -4.0; for (auto& u : c.KnotVector) u = lo + u * 2.0; } if (sym_param("elev", 0)) { LN_NurbsCurve t; NurbsCurve::ElevateDegree(c, sym_param("elev", 0), t); c = t; } if (sym_param("un", 0)) { LN_NurbsCurve t; NurbsCurve::ToUnclampCurve(c, t); c = t; } LN_ArcInfo inf; bool r = NurbsCurve::IsArc(c, inf); bool good = !ba && !el; sym_check(good ? "circular arc is recognised" : "other curve is not an arc", good == r); if (!good || !r) return;
  sym_check_eq("radius", inf.Radius, R, 1e-7); check3("centre", inf.Center, o, 1e-6); sym_check("full circle flag", inf.IsCircle == (q == 8)); sym_check("an arc is not linear", !NurbsCurve::IsLinear(c)); sym_reached("arc");
}
// a curve of two circular arcs in different planes of one sphere keeps its distance from the centre, but is no arc
HARNESS(arc_sphere) {
  sym_approx_sqrt(1); double R = sym_param("R", 1), sg = sym_param("flip", 0) ? -1 : 1, h = 0.70710678118654752440; P3 o = symP3("o", 4); LN_NurbsCurve c; c.Degree = 2; c.KnotVector = VD{0, 0, 0, 0.25, 0.25, 0.5, 0.5, 0.75, 0.75, 1, 1, 1};
  P3 A(R, 0, 0), M(0, R, 0), E(-R, 0, 0), Z(0, 0, R * h); P3 g[2][3] = {{A, (A + M) * 0.5, M}, {M, (M + E) * 0.5, E}};
  for (int k = 0; k < 2; k++) { P3 z = k ? Z * sg : Z; if (!k) c.ControlPoints.push_back(PW(o + g[k][0], 1.0)); c.ControlPoints.push_back(PW(o + g[k][0] + z, h)); c.ControlPoints.push_back(PW(o + g[k][1] + z, 1.0)); c.ControlPoints.push_back(PW(o + g[k][2] + z, h)); c.ControlPoints.push_back(PW(o + g[k][2], 1.0)); }
  LN_ArcInfo inf; sym_check("a curve winding on a sphere is not an arc", !NurbsCurve::IsArc(c, inf)); sym_reached("arc sphere");
}
// a surface is closed in a direction when its first and last rows (columns) coincide, and not when one of them is off anywhere
HARNESS(surf_closed) {
  int du = sym_param("du", 1), open = sym_param("open", 0), un = sym_param("un", 0), at = sym_param("at", 0); int p = du ? 2 : 1, q = du ? 1 : 2; VD A = un ? knotPattern(2, 9) : knotPattern(2, 2), B = sym_param("wide", 0) ? VD{0, 0, 1, 2, 3, 4, 4} : knotPattern(1, 1); LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = du ? A : B; s.KnotVectorV = du ? B : A;
  int n = (int)A.size() - 3, m = (int)B.size() - 2; static const double pat[] = {1, 2, 0.5, 1.5, 3, 0.75}; double g = open ? rv("gap", 0.01, 4) : 0; P3 o = symP3("o", 4); int per = un ? n - 2 : n - 1; VVPW N(n, VPW(m));
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { int k = i % per; double x = (k * 3) % 5 + 0.5 * k + j, y = (k * k) % 7 - 1.0 + 0.25 * j, z = (k % 2) * 0.75 + 2 * j; P3 w = P3(x, y, z) + o; if (open && i == n - 1 && j == at % m) w = w + P3(open == 1 ? g : 0.0, open == 2 ? g : 0.0, open == 3 ? g : 0.0); N[i][j] = PW(w, pat[(k + 2 * j) % 6]); }
  if (du) s.ControlPoints = N; else { s.ControlPoints = VVPW(m, VPW(n)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) s.ControlPoints[j][i] = N[i][j]; }
  sym_check(open ? "open surface is not reported closed" : "closed surface is reported closed", NurbsSurface::IsClosed(s, du) == !open); sym_check("surface is open in the other direction", !NurbsSurface::IsClosed(s, !du)); sym_reached("surf closed");
}
