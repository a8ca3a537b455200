// Local fitting of point runs by one conic or one cubic segment.
#include "common.h"
#include "NurbsCurve.h"
#include "BezierCurve.h"
#include "XYZ.h"
using namespace LNLib;
static P3 shiftV(int tr) { return tr ? P3(rv("tx", 0, 3), rv("ty", 0, 3), rv("tz", 0, 3)) : P3(0, 0, 0); }
static double dot(const P3& a, const P3& b) { return a.GetX() * b.GetX() + a.GetY() * b.GetY() + a.GetZ() * b.GetZ(); }
static P3 crs(const P3& a, const P3& b) { return P3(a.GetY() * b.GetZ() - a.GetZ() * b.GetY(), a.GetZ() * b.GetX() - a.GetX() * b.GetZ(), a.GetX() * b.GetY() - a.GetY() * b.GetX()); }
static P3 conicAt(const P3& a, const P3& r, double w, const P3& b, double u) { double x = (1 - u) * (1 - u), y = 2 * u * (1 - u) * w, z = u * u; return (a * x + r * y + b * z) / (x + y + z); }
static P3 cubicAt(const P3& a, const P3& p, const P3& q, const P3& b, double u) { double v = 1 - u; return a * (v * v * v) + p * (3 * v * v * u) + q * (3 * v * u * u) + b * (u * u * u); }
static void onRay(const char* what, const P3& o, const P3& d, const P3& q, int sign) { P3 v = q - o; check3(what, crs(v, d), P3(0, 0, 0), 1e-6); sym_check_le((std::string(what) + " direction").c_str(), 0.0, sign * dot(v, d), 1e-9); }
struct Con { P3 a, r, b; double w; };
static Con conicShape(int k) {
  switch (k) {
  case 0: return {P3(0, 0, 0), P3(2, 4, 0), P3(6, 0, 0), 1.0};
  case 1: return {P3(1, 0, 2), P3(3, 5, 1), P3(8, 1, 0), 0.5};
  case 2: return {P3(0, 0, 0), P3(0, 3, 0), P3(3, 3, 0), 0.7071067811865476};
  case 3: return {P3(-2, 1, 0), P3(0, 4, 4), P3(1, 0, 6), 2.5};
  default: return {P3(0, 0, 0), P3(3, 8, 0), P3(4, 0, 0), 0.25};
  }
}
static VP3 run(const VP3& in, int pre, int post) { VP3 q; for (int i = 0; i < pre; i++) q.push_back(in[0] + P3(-2.0 - i, -3, 1)); for (auto& p : in) q.push_back(p); for (int i = 0; i < post; i++) q.push_back(in.back() + P3(2.0 + i, -3, 1)); return q; }
HARNESS(conic_exact) {
  sym_approx_sqrt(1); Con c = conicShape(sym_param("k", 0)); P3 s = shiftV(sym_param("tr", 0)); c.a = c.a + s; c.r = c.r + s; c.b = c.b + s; int m = sym_param("m", 3), pre = sym_param("pre", 0), post = sym_param("post", 0); VP3 in;
  for (int i = 0; i <= m + 1; i++) { double u = (i * (i + 2.0)) / ((m + 1) * (m + 3.0)); in.push_back(i == 0 ? c.a : i == m + 1 ? c.b : conicAt(c.a, c.r, c.w, c.b, u)); }
  VP3 Q = run(in, pre, post); std::vector<XYZW> mid; P3 T = (c.r - c.a) * 0.5, E = (c.b - c.r) * 1.5;
  bool ok = NurbsCurve::FitWithConic(Q, pre, pre + m + 1, T, E, 1e-3, mid); sym_check("points of one conic are fitted by one conic", ok); if (!ok) return; sym_check("one middle control point", mid.size() == 1); if (mid.size() != 1) return;
  H4 h = h4(mid[0]); sym_check_eq("weight of the conic", h.w, c.w, 1e-6); check3("control point of the conic", P3(h.x, h.y, h.z) / h.w, c.r, 1e-6); sym_reached("conic");
}
// an off-curve point: either refused, or every point is within the tolerance of the conic returned
static double nearest2(const P3& a, const P3& r, double w, const P3& b, const P3& p) { double best = 1e9; for (int i = 0; i <= 256; i++) { P3 q = conicAt(a, r, w, b, i / 256.0) - p; double d = dot(q, q); if (d < best) best = d; } return best; }
HARNESS(conic_bad) {
  sym_approx_sqrt(1); Con c = conicShape(sym_param("k", 0)); int m = sym_param("m", 3), at = sym_param("at", 2), pre = sym_param("pre", 0); double off = sym_param("off", 20) / 100.0, tol = sym_param("tol", 5) > 0 ? sym_param("tol", 5) / 100.0 : rv("tol", 0.002, 2); VP3 in;
  for (int i = 0; i <= m + 1; i++) { double u = i / (m + 1.0); P3 p = conicAt(c.a, c.r, c.w, c.b, u); if (i == at) p = p + (c.r - (c.a + c.b) * 0.5) * off; in.push_back(p); }
  VP3 Q = run(in, pre, 1); std::vector<XYZW> mid; bool ok = NurbsCurve::FitWithConic(Q, pre, pre + m + 1, c.r - c.a, c.b - c.r, tol, mid);
  if (ok) { sym_check("one middle control point", mid.size() == 1); if (mid.size() != 1) return; H4 h = h4(mid[0]); P3 R = P3(h.x, h.y, h.z) / h.w; check3("tangent lines meet", R, c.r, 1e-6); for (int i = 1; i <= m; i++) { double d = nearest2(c.a, R, h.w, c.b, in[i]); sym_check_le("fitted point within tolerance", d, (tol + 0.01) * (tol + 0.01), 0); } }
  else sym_check("good data not refused", sym_param("must", 0) != 1);
  if (sym_param("must", 0) == 2) sym_check("bad data refused", !ok); sym_reached("conic bad");
}
HARNESS(conic_pair) {
  sym_approx_sqrt(1); Con c = conicShape(sym_param("k", 0)); P3 s = shiftV(sym_param("tr", 0)); c.a = c.a + s; c.r = c.r + s; c.b = c.b + s; VP3 Q = run({c.a, c.b}, sym_param("pre", 0), sym_param("post", 0)); std::vector<XYZW> mid;
  bool ok = NurbsCurve::FitWithConic(Q, sym_param("pre", 0), sym_param("pre", 0) + 1, (c.r - c.a) * 2, (c.b - c.r) * 0.75, 0.1, mid); sym_check("two points with meeting tangents", ok && mid.size() == 1); if (!ok || mid.size() != 1) return; H4 h = h4(mid[0]);
  check3("control point where the tangents meet", P3(h.x, h.y, h.z) / h.w, c.r, 1e-6); sym_check_le("positive weight", 1e-3, h.w, 0); sym_reached("conic pair");
}
HARNESS(conic_line) {
  sym_approx_sqrt(1); static const P3 D[3] = {P3(1, 0, 0), P3(1, 2, 2), P3(-3, 0, 4)}; P3 d = D[sym_param("dir", 0)], o = shiftV(sym_param("tr", 0)) + P3(1, 1, 1); double off = sym_param("off", 0) / 100.0; int m = sym_param("m", 2), at = sym_param("at", 1); VP3 in; for (int i = 0; i <= m + 1; i++) { P3 q = o + d * (i * (i + 2.0) / ((m + 1) * (m + 3.0))); if (i == at) q = q + P3(0, off, 0); in.push_back(q); } VP3 Q = run(in, sym_param("pre", 0), 1); std::vector<XYZW> mid; int p = sym_param("pre", 0);
  bool ok = NurbsCurve::FitWithConic(Q, p, p + m + 1, d, d * 2, 0.1, mid); if (off > 0.2) { sym_check("points off the line are not fitted by it", !ok); sym_reached("line"); return; }
  sym_check("collinear points are fitted by a line", ok && mid.size() == 1); if (!ok || mid.size() != 1) return; H4 h = h4(mid[0]); check3("middle control point on the line", crs(P3(h.x, h.y, h.z) / h.w - o, d), P3(0, 0, 0), 1e-6); sym_check_le("positive weight", 1e-3, h.w, 0); sym_reached("line");
}
// the piecewise conic between two points with given tangents: one middle point where the tangents meet ahead, otherwise two conics joined smoothly
HARNESS(middle_points) {
  sym_approx_sqrt(1); struct G { P3 a, t, b, e; int kind; }; static const G g[] = {{P3(0, 0, 0), P3(1, 2, 0), P3(4, 0, 0), P3(1, -1, 0), 1}, {P3(0, 0, 1), P3(0, 3, 0), P3(3, 3, 1), P3(2, 0, 0), 1}, {P3(1, 1, 0), P3(0.6, 0, 0.8), P3(5, 1, 2), P3(0.8, 0, -0.6), 1},
    {P3(0, 0, 0), P3(0, 1, 0), P3(4, 0, 0), P3(0, 1, 0), 3}, {P3(0, 0, 0), P3(0.6, 0.8, 0), P3(5, 1, 0), P3(0.6, 0.8, 0), 3}, {P3(0, 0, 0), P3(0.6, 0.8, 0), P3(5, 0, 0), P3(0.8, 0.6, 0), 3}, {P3(0, 0, 0), P3(0, 1, 0), P3(4, 1, 0), P3(0.6, 0.8, 0), 3}, {P3(2, 0, 1), P3(0, 0, 1), P3(2, 4, 1), P3(0, 0, 1), 3},
    {P3(0, 0, 0), P3(1, 2, 2), P3(2, 4, 4), P3(2, 4, 4), 2}, {P3(1, 0, 0), P3(1, 0, 0), P3(5, 0, 0), P3(-3, 0, 0), 2}};
  G c = g[sym_param("k", 0)]; if (sym_param("len", 0) && c.kind != 3) { c.t = c.t * rv("lt", 0.25, 4); c.e = c.e * rv("le", 0.25, 4); } P3 s = shiftV(sym_param("tr", 1)); c.a = c.a + s; c.b = c.b + s; std::vector<XYZW> mid; bool ok = BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(c.a, c.t, c.b, c.e, mid); sym_check("middle points found", ok); if (!ok) return; int want = c.kind == 3 ? 3 : 1; sym_check("number of middle points", (int)mid.size() == want); if ((int)mid.size() != want) return;
  std::vector<P3> P; for (auto& m : mid) { H4 h = h4(m); sym_check_le("positive weight", 1e-3, h.w, 0); P.push_back(P3(h.x, h.y, h.z) / h.w); }
  P3 z(0, 0, 0), u = P[0] - c.a, v = c.b - P.back(); check3("on the start tangent", crs(u, c.t), z, 1e-6); check3("on the end tangent", crs(v, c.e), z, 1e-6);
  if (c.kind != 2) { sym_check_le("ahead of the start", 1e-3, dot(u, c.t), 0); sym_check_le("before the end", 1e-3, dot(v, c.e), 0); } else check3("straight: the middle", P[0], (c.a + c.b) * 0.5, 1e-6);
  if (want == 3) { P3 x = P[1] - P[0], y = P[2] - P[1]; check3("the conics share their tangent", crs(x, y), z, 1e-6); sym_check_le("the junction lies between", 1e-3, dot(x, y), 0); sym_check_eq("junction weight", h4(mid[1]).w, 1.0, 1e-9); } sym_reached("middle points");
}
struct Cub { P3 a, p, q, b; bool planar; };
static Cub cubicShape(int k) {
  switch (k) {
  case 0: return {P3(0, 0, 0), P3(1, 2, 0), P3(4, 2, 3), P3(5, 0, 1), false};
  case 1: return {P3(1, -1, 2), P3(3, 0, 2), P3(3, 3, 5), P3(0, 4, 8), false};
  case 2: return {P3(0, 0, 0), P3(0, 3, 1), P3(2, 3, 4), P3(6, 1, 2), false};
  case 3: return {P3(0, 0, 0), P3(1, 2, 0), P3(5, 2, 0), P3(6, 0, 0), true};
  default: return {P3(0, 0, 0), P3(1, 3, 0), P3(5, 2, 0), P3(7, 0, 0), true};
  }
}
HARNESS(cubic_exact) {
  sym_approx_sqrt(1); Cub c = cubicShape(sym_param("k", 0)); P3 s = shiftV(sym_param("tr", 0)); c.a = c.a + s; c.p = c.p + s; c.q = c.q + s; c.b = c.b + s; int m = sym_param("m", 2), pre = sym_param("pre", 0), post = sym_param("post", 0); VP3 in;
  for (int i = 0; i <= m + 1; i++) { double u = c.planar ? i / (m + 1.0) : (i * (i + 2.0)) / ((m + 1) * (m + 3.0)); in.push_back(cubicAt(c.a, c.p, c.q, c.b, u)); }
  VP3 Q = run(in, pre, post); std::vector<XYZW> mid; P3 T = (c.p - c.a) * 0.5, E = (c.b - c.q) * 2; bool ok = NurbsCurve::FitWithCubic(Q, pre, pre + m + 1, T, E, 1e-3, mid); sym_check("points of one cubic are fitted by one cubic", ok); if (!ok) return;
  sym_check("two middle control points", mid.size() == 2); if (mid.size() != 2) return; H4 h = h4(mid[0]), g = h4(mid[1]); sym_check_eq("polynomial", h.w, 1.0, 1e-12); sym_check_eq("polynomial", g.w, 1.0, 1e-12); check3("first control point of the cubic", P3(h.x, h.y, h.z), c.p, 1e-5); check3("second control point of the cubic", P3(g.x, g.y, g.z), c.q, 1e-5); sym_reached("cubic");
}
HARNESS(cubic_bad) {
  sym_approx_sqrt(1); Cub c = cubicShape(sym_param("k", 0)); int m = sym_param("m", 2), at = sym_param("at", 1), pre = sym_param("pre", 0); double off = sym_param("off", 20) / 100.0, tol = sym_param("tol", 5) > 0 ? sym_param("tol", 5) / 100.0 : rv("tol", 0.002, 2); VP3 in;
  for (int i = 0; i <= m + 1; i++) { P3 p = cubicAt(c.a, c.p, c.q, c.b, i / (m + 1.0)); if (i == at) p = p + P3(0, 2, 1) * off * (c.planar ? 0.0 : 1.0) + P3(0, 2, 0) * off * (c.planar ? 1.0 : 0.0); in.push_back(p); }
  VP3 Q = run(in, pre, 1); std::vector<XYZW> mid; P3 T = c.p - c.a, E = c.b - c.q; bool ok = NurbsCurve::FitWithCubic(Q, pre, pre + m + 1, T, E, tol, mid);
  if (ok) { sym_check("two middle control points", mid.size() == 2); if (mid.size() != 2) return; H4 h = h4(mid[0]), g = h4(mid[1]); P3 P(h.x / h.w, h.y / h.w, h.z / h.w), R(g.x / g.w, g.y / g.w, g.z / g.w); onRay("start tangent kept", c.a, T, P, 1); onRay("end tangent kept", c.b, E, R, -1);
    for (int i = 1; i <= m; i++) { double best = 1e9; for (int j = 0; j <= 256; j++) { P3 d = cubicAt(c.a, P, R, c.b, j / 256.0) - in[i]; double x = dot(d, d); if (x < best) best = x; } sym_check_le("fitted point within tolerance", best, (tol + 0.01) * (tol + 0.01), 0); } }
  else sym_check("good data not refused", sym_param("must", 0) != 1);
  if (sym_param("must", 0) == 2) sym_check("bad data refused", !ok); sym_reached("cubic bad");
}
HARNESS(cubic_pair) {
  sym_approx_sqrt(1); Cub c = cubicShape(sym_param("k", 0)); P3 s = shiftV(sym_param("tr", 0)); c.a = c.a + s; c.p = c.p + s; c.q = c.q + s; c.b = c.b + s; int pre = sym_param("pre", 1), post = sym_param("post", 0); VP3 Q = run({c.a, c.b}, pre, post); std::vector<XYZW> mid; P3 T = c.p - c.a, E = c.b - c.q;
  bool ok = NurbsCurve::FitWithCubic(Q, pre, pre + 1, T, E, 0.1, mid); sym_check("two points with tangents", ok && mid.size() == 2); if (!ok || mid.size() != 2) return; H4 h = h4(mid[0]), g = h4(mid[1]); onRay("start tangent kept", c.a, T, P3(h.x / h.w, h.y / h.w, h.z / h.w), 1); onRay("end tangent kept", c.b, E, P3(g.x / g.w, g.y / g.w, g.z / g.w), -1); sym_reached("cubic pair");
}
HARNESS(cubic_line) {
  sym_approx_sqrt(1); static const P3 D[3] = {P3(1, 0, 0), P3(1, 2, 2), P3(-3, 0, 4)}; P3 d = D[sym_param("dir", 0)], o = shiftV(sym_param("tr", 0)) + P3(1, 1, 1); int p = sym_param("pre", 0), m = sym_param("m", 2); VP3 in; for (int i = 0; i <= m + 1; i++) in.push_back(o + d * (i * (i + 2.0) / ((m + 1) * (m + 3.0)))); VP3 Q = run(in, p, 1); std::vector<XYZW> mid;
  bool ok = NurbsCurve::FitWithCubic(Q, p, p + m + 1, d, d, 0.1, mid); sym_check("collinear points are fitted by a line", ok && mid.size() == 2); if (!ok || mid.size() != 2) return; H4 h = h4(mid[0]), g = h4(mid[1]); check3("line control point", P3(h.x, h.y, h.z) / h.w, o + d / 3.0, 1e-6); check3("line control point", P3(g.x, g.y, g.z) / g.w, o + d * 2.0 / 3.0, 1e-6); sym_reached("cubic line");
}
// every cubic with the given end tangent lines: the tangent lengths are symbolic
HARNESS(cubic_lengths) {
  sym_approx_sqrt(1); Cub c = cubicShape(sym_param("k", 0)); P3 T = c.p - c.a, E = c.b - c.q; double al = rv("al", 0.5, 3), be = rv("be", 0.5, 3); P3 P = c.a + T * al, R = c.b - E * be; int m = sym_param("m", 1), pre = sym_param("pre", 0); VP3 in;
  for (int i = 0; i <= m + 1; i++) { double u = (i * (i + 2.0)) / ((m + 1) * (m + 3.0)); in.push_back(i == 0 ? c.a : i == m + 1 ? c.b : cubicAt(c.a, P, R, c.b, u)); }
  VP3 Q = run(in, pre, 1); std::vector<XYZW> mid; bool ok = NurbsCurve::FitWithCubic(Q, pre, pre + m + 1, T, E, 1e-3, mid); sym_check("points of one cubic are fitted by one cubic", ok); if (!ok) return; sym_check("two middle control points", mid.size() == 2); if (mid.size() != 2) return;
  H4 h = h4(mid[0]), g = h4(mid[1]); check3("first control point of the cubic", P3(h.x, h.y, h.z), P, 1e-5); check3("second control point of the cubic", P3(g.x, g.y, g.z), R, 1e-5); sym_reached("cubic lengths");
}
// runs that no conic piece with these tangents can follow are refused
HARNESS(conic_refuse) {
  sym_approx_sqrt(1); int how = sym_param("how", 0), m = sym_param("m", 2), pre = sym_param("pre", 0), at = sym_param("at", 1); Con c = conicShape(sym_param("k", 0)); P3 s = shiftV(1); c.a = c.a + s; c.r = c.r + s; c.b = c.b + s; P3 T = c.r - c.a, E = c.b - c.r, N = crs(T, E), V = c.b - c.a; VP3 in; for (int i = 0; i <= m + 1; i++) { double u = i / (m + 1.0); in.push_back(i == 0 ? c.a : i == m + 1 ? c.b : conicAt(c.a, c.r, c.w, c.b, u)); }
  switch (how) { case 0: E = E + N * 0.25; break; case 1: E = T * 2; break; case 2: E = T * -1; break; case 3: T = T * -1; break; case 4: E = E * -1; break; case 5: T = T * -2; E = E * -1; break;
    case 6: in[at] = in[at] + N * 0.25; break;                       // out of the plane
    case 7: in[at] = c.a + V * -0.5; break; case 8: in[at] = c.a + V * 1.5; break;   // beyond the chord's ends, seen from the apex
    case 9: in[at] = c.r + (c.r - in[at]); break;                     // behind the apex
    case 10: in[at] = c.r; break; }
  VP3 Q = run(in, pre, 1); std::vector<XYZW> mid; bool ok = NurbsCurve::FitWithConic(Q, pre, pre + m + 1, T, E, 1e-3, mid); sym_check("no such conic", !ok); sym_check("nothing appended", mid.empty()); sym_reached("refused");
}
