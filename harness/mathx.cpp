// Vectors, transformations, linear algebra, tolerant comparison, elementary intersections and projections.
#include "common.h"
#include "ControlPointsUtils.h"
#include "MathUtils.h"
#include "Matrix4d.h"
#include "UV.h"
#include "UVW.h"
#include "Intersection.h"
#include "Projection.h"
#include "LNLibExceptions.h"
using namespace LNLib;
static double dot3(const P3& a, const P3& b) { return a.X() * b.X() + a.Y() * b.Y() + a.Z() * b.Z(); }
static P3 cross3(const P3& a, const P3& b) { return P3(a.Y() * b.Z() - a.Z() * b.Y(), a.Z() * b.X() - a.X() * b.Z(), a.X() * b.Y() - a.Y() * b.X()); }
static P3 comb(const P3& a, double s, const P3& b, double t) { return P3(a.X() * s + b.X() * t, a.Y() * s + b.Y() * t, a.Z() * s + b.Z() * t); }
// ------------------------------------------------------------------------------------------ vectors
HARNESS(vec_ops) {
  P3 a = symP3("a"), b = symP3("b"); double s = rv("s", -4, 4), d = rv("d", 0.25, 4); double ax = a[0], ay = a[1], az = a[2], bx = b[0], by = b[1], bz = b[2];
  P3 acc(0, 0, 0); sym_check_eq("X", a.X(), ax, 0); sym_check_eq("GetY", a.GetY(), ay, 0); sym_check_eq("GetZ", a.GetZ(), az, 0); sym_check_eq("GetX", a.GetX(), ax, 0); sym_check_eq("Y", a.Y(), ay, 0); sym_check_eq("Z", a.Z(), az, 0);
  P3 q; check3("default vector is zero", q, P3(0.0, 0.0, 0.0), 0); q.SetX(ax); q.SetY(ay); q.SetZ(az); check3("setters", q, a, 0); q = b; check3("assignment", q, b, 0);
  check3("sum", a + b, P3(ax + bx, ay + by, az + bz), 0); check3("Add", a.Add(b), P3(ax + bx, ay + by, az + bz), 0); check3("difference", a - b, P3(ax - bx, ay - by, az - bz), 0); check3("Substract", a.Substract(b), P3(ax - bx, ay - by, az - bz), 0);
  check3("negation", -a, P3(-ax, -ay, -az), 0); check3("Negative", a.Negative(), P3(-ax, -ay, -az), 0); check3("scaled right", a * s, P3(ax * s, ay * s, az * s), 0); check3("scaled left", s * a, P3(ax * s, ay * s, az * s), 0); check3("divided", a / d, P3(ax / d, ay / d, az / d), 1e-12);
  q = a; q += b; check3("+=", q, P3(ax + bx, ay + by, az + bz), 0); q = a; q -= b; check3("-=", q, P3(ax - bx, ay - by, az - bz), 0); q = a; q *= s; check3("*=", q, P3(ax * s, ay * s, az * s), 0); q = a; q /= d; check3("/=", q, P3(ax / d, ay / d, az / d), 1e-12);
  double dt = ax * bx + ay * by + az * bz; sym_check_eq("dot product", a.DotProduct(b), dt, 0); sym_check_eq("operator dot", a * b, dt, 0); check3("cross product", a.CrossProduct(b), cross3(a, b), 0); check3("operator cross", a ^ b, cross3(a, b), 0);
  sym_check_eq("squared length", a.SqrLength(), dot3(a, a), 0); double L = a.Length(); sym_check_eq("length squared", L * L, dot3(a, a), 1e-9); sym_check("length non-negative", L >= 0); double D = a.Distance(b); P3 df(ax - bx, ay - by, az - bz); sym_check_eq("distance squared", D * D, dot3(df, df), 1e-9); sym_check("distance non-negative", D >= 0); sym_reached("vec ops");
}
HARNESS(vec_normalize) {
  P3 a = symP3("a"); double l2 = dot3(a, a); sym_assume_le(1e-4, l2); P3 n = a.Normalize(); sym_check_eq("unit length", dot3(n, n), 1.0, 1e-9); P3 c = cross3(n, a); check3("same line", c, P3(0.0, 0.0, 0.0), 1e-9); double d = dot3(n, a); sym_check_eq("same length along", d * d, l2, 1e-9); sym_check("same direction", d >= 0); sym_check("normalised is unit", n.IsUnit()); sym_check("not zero", !a.IsZero()); sym_reached("normalize");
}
HARNESS(vec_zero_unit) {
  P3 a = symP3("a", 2); double e = rv("e", 0.001, 0.5), l2 = dot3(a, a); int c = sym_choice("c", 0, 3);
  if (c == 0) { sym_assume_lt(l2, e * e * 0.999); sym_check("short vectors are zero", a.IsZero(e)); } if (c == 1) { sym_assume_lt(e * e * 1.001, l2); sym_check("long vectors are not zero", !a.IsZero(e)); }
  if (c == 2) { sym_assume_lt(1.0 + e * e * 1.001, l2); sym_check("too long for unit", !a.IsUnit(e)); } if (c == 3) { sym_assume_lt(l2, 1.0 - e * e * 1.001); sym_check("too short for unit", !a.IsUnit(e)); }
  P3 z(0.0, 0.0, 0.0), zn = z.Normalize(); check3("normalised zero stays zero", zn, z, 0); sym_check("zero is zero", z.IsZero()); sym_reached("zero/unit");
}
HARNESS(vec_angle) {
  // b = cos(t) a + sin(t) (a turned by a right angle), all in a coordinate plane or a skew plane
  int pl = sym_choice("plane", 0, 3); double t = sym_angle("t", 0.01, 3.13), r = rv("r", 0.25, 4); static const double A[4][3] = {{1, 0, 0}, {0, 2, 0}, {0, 0, 1}, {1, 2, 2}}, B[4][3] = {{0, 1, 0}, {0, 0, 2}, {1, 0, 0}, {2, 1, -2}};
  P3 a(A[pl][0], A[pl][1], A[pl][2]), b0(B[pl][0], B[pl][1], B[pl][2]); P3 b = comb(a, r * cos(t), b0, r * sin(t)); double g = a.AngleTo(b), h = b.AngleTo(a); double la = a.SqrLength();
  sym_check_eq("cosine of the angle", cos(g) * r * la, dot3(a, b), 1e-7); sym_check_eq("symmetric", cos(h), cos(g), 1e-9);
  P3 z(0.0, 0.0, 0.0); sym_check_eq("angle to zero vector", z.AngleTo(a), 0.0, 0); sym_check_eq("angle to zero vector 2", a.AngleTo(z), 0.0, 0); P3 same = a * r; sym_check_eq("parallel", a.AngleTo(same), 0.0, 1e-9); sym_check_eq("antiparallel cosine", cos(a.AngleTo(-same)), -1.0, 1e-9); sym_reached("angle");
}
HARNESS(vec_almost_equal) {
  P3 a = symP3("a", 4); int c = sym_choice("c", 0, 3); double e = rv("e", -0.5, 0.5); double e0 = c == 0 || c == 3 ? e : 0.0, e1 = c == 1 || c == 3 ? -e : 0.0, e2 = c == 2 ? e : 0.0; P3 b(a.X() + e0, a.Y() + e1, a.Z() + e2); bool r = a.IsAlmostEqualTo(b), r2 = b.IsAlmostEqualTo(a); sym_check("symmetric", r == r2);
  if (r) { double m = 1e-5; sym_check("equal only when close", e <= m && e >= -m); sym_reached("equal"); } else { double m = 9e-7; sym_check("different only when apart", !(e <= m && e >= -m)); sym_reached("different"); }
}
HARNESS(vec_uv) {
  double au = rv("au", -8, 8), av = rv("av", -8, 8), bu = rv("bu", -8, 8), bv = rv("bv", -8, 8), s = rv("s", -4, 4), d = rv("d", 0.25, 4); UV a(au, av), b(bu, bv); auto ck = [](const char* w, UV x, double u, double v) { std::string q(w); sym_check_eq((q + ".u").c_str(), x.GetU(), u, 1e-12); sym_check_eq((q + ".v").c_str(), x.GetV(), v, 1e-12); };
  ck("UV value", a, au, av); UV z; ck("UV default", z, 0, 0); z.SetU(au); z.SetV(bv); ck("UV setters", z, au, bv); ck("UV sum", a + b, au + bu, av + bv); ck("UV add", a.Add(b), au + bu, av + bv); ck("UV diff", a - b, au - bu, av - bv); ck("UV sub", a.Substract(b), au - bu, av - bv); ck("UV neg", -a, -au, -av); ck("UV Negative", a.Negative(), -au, -av); ck("UV *", a * s, au * s, av * s); ck("UV l*", s * a, au * s, av * s); ck("UV /", a / d, au / d, av / d);
  z = a; z += b; ck("UV +=", z, au + bu, av + bv); z = a; z -= b; ck("UV -=", z, au - bu, av - bv); z = a; z *= s; ck("UV *=", z, au * s, av * s); z = a; z /= d; ck("UV /=", z, au / d, av / d);
  sym_check_eq("UV dot", a.DotProduct(b), au * bu + av * bv, 0); sym_check_eq("UV op dot", a * b, au * bu + av * bv, 0); sym_check_eq("UV cross", a.CrossProduct(b), au * bv - av * bu, 0); sym_check_eq("UV op cross", a ^ b, au * bv - av * bu, 0); sym_check_eq("UV sqr", a.SqrLength(), au * au + av * av, 0); double L = a.Length(), D = a.Distance(b); sym_check_eq("UV length", L * L, au * au + av * av, 1e-9); sym_check("UV length sign", L >= 0 && D >= 0); sym_check_eq("UV distance", D * D, (au - bu) * (au - bu) + (av - bv) * (av - bv), 1e-9);
  sym_assume_le(1e-4, au * au + av * av); UV n = a.Normalize(); sym_check_eq("UV unit", n.GetU() * n.GetU() + n.GetV() * n.GetV(), 1.0, 1e-9); sym_check_eq("UV same line", n.GetU() * av - n.GetV() * au, 0.0, 1e-9); sym_check("UV same way", n.GetU() * au + n.GetV() * av >= 0);
  UVW w(au, av, bu); sym_check_eq("UVW u", w.GetU(), au, 0); sym_check_eq("UVW v", w.GetV(), av, 0); sym_check_eq("UVW w", w.GetW(), bu, 0); w.SetU(bv); w.SetV(s); w.SetW(d); sym_check_eq("UVW su", w.U(), bv, 0); sym_check_eq("UVW sv", w.V(), s, 0); sym_check_eq("UVW sw", w.W(), d, 0); sym_reached("uv");
}
HARNESS(vec_xyzw) {
  PW a = symPW("a"), b = symPW("b"); double s = rv("s", -4, 4), d = rv("d", 0.25, 4), w2 = rv("w2", 0.25, 4); H4 A = h4(a), B = h4(b);
  checkH("W sum", h4(a + b), {A.x + B.x, A.y + B.y, A.z + B.z, A.w + B.w}, 0); checkH("W diff", h4(a - b), {A.x - B.x, A.y - B.y, A.z - B.z, A.w - B.w}, 0); PW c = a; c += b; checkH("W +=", h4(c), {A.x + B.x, A.y + B.y, A.z + B.z, A.w + B.w}, 0); checkH("W *", h4(a * s), {A.x * s, A.y * s, A.z * s, A.w * s}, 0); checkH("W l*", h4(s * a), {A.x * s, A.y * s, A.z * s, A.w * s}, 0); checkH("W /", h4(a / d), {A.x / d, A.y / d, A.z / d, A.w / d}, 1e-12);
  checkProj("projection divides by the weight", a.ToXYZ(true), A, 1e-9); check3("no division", a.ToXYZ(false), P3(A.x, A.y, A.z), 0); P3 q = symP3("q"); PW e(q, w2); checkH("lifted point", h4(e), {q.X() * w2, q.Y() * w2, q.Z() * w2, w2}, 0); c = a; c.SetW(w2); sym_check_eq("new weight", c.GetW(), w2, 0); checkProj("SetW keeps the location", c.ToXYZ(true), A, 1e-9); double D = a.Distance(b); sym_check_eq("4D distance", D * D, (A.x - B.x) * (A.x - B.x) + (A.y - B.y) * (A.y - B.y) + (A.z - B.z) * (A.z - B.z) + (A.w - B.w) * (A.w - B.w), 1e-9);
  sym_check_eq("indexing", a[0] + 2 * a[1] + 3 * a[2] + 4 * a[3], A.x + 2 * A.y + 3 * A.z + 4 * A.w, 0); sym_check_eq("getters", a.GetWX() + 2 * a.GetWY() + 3 * a.GetWZ() + 4 * a.GetW(), A.x + 2 * A.y + 3 * A.z + 4 * A.w, 0); PW zero; checkH("default", h4(zero), {0, 0, 0, 0}, 0); PW inf(A.x, A.y, A.z, 0.0); check3("a point at infinity keeps its direction", inf.ToXYZ(true), P3(A.x, A.y, A.z), 0); sym_reached("xyzw");
}
// every accessor of the four value types, constant and not, and default values over a dirty place
template <class T> static T& dirty(double* m) { for (int i = 0; i < 4; i++) m[i] = 7 + i; return *new (m) T(); }
HARNESS(vec_access) {
  double a = rv("a", -8, 8), b = rv("b", -8, 8), c = rv("c", -8, 8), d = rv("d", 0.25, 8); alignas(16) double m[4];
  { const XYZ p(a, b, c); sym_check_eq("x", p.X(), a, 0); sym_check_eq("y", p.Y(), b, 0); sym_check_eq("z", p.Z(), c, 0); sym_check_eq("x", p[0], a, 0); sym_check_eq("y", p[1], b, 0); sym_check_eq("z", p[2], c, 0);
    XYZ q; q.X() = a; q.Y() = b; q.Z() = c; check3("set through references", q, p, 0); XYZ r; r.SetX(a); r.SetY(b); r.SetZ(c); check3("set", r, p, 0); XYZ t; t[0] = a; t[1] = b; t[2] = c; check3("set by index", t, p, 0); XYZ u(1, 2, 3); u = p; check3("assigned", u, p, 0); check3("default", dirty<XYZ>(m), P3(0, 0, 0), 0); }
  { const XYZW p(a, b, c, d); sym_check_eq("wx", p.WX(), a, 0); sym_check_eq("wy", p.WY(), b, 0); sym_check_eq("wz", p.WZ(), c, 0); sym_check_eq("w", p.W(), d, 0); for (int i = 0; i < 4; i++) sym_check_eq("homogeneous coordinate", p[i], i == 0 ? a : i == 1 ? b : i == 2 ? c : d, 0);
    XYZW q; q.WX() = a; q.WY() = b; q.WZ() = c; q.W() = d; XYZW t; t[0] = a; t[1] = b; t[2] = c; t[3] = d; XYZW z = dirty<XYZW>(m); for (int i = 0; i < 4; i++) { sym_check_eq("set through references", q[i], p[i], 0); sym_check_eq("set by index", t[i], p[i], 0); sym_check_eq("default", z[i], 0.0, 0); }
    XYZW s = p; s.SetW(2.0); sym_check_eq("weight set", s.GetW(), 2.0, 0); sym_check_eq("point kept under a new weight", s.GetWX() * d, 2 * a, 1e-9); sym_check_eq("point kept under a new weight", s.GetWY() * d, 2 * b, 1e-9); sym_check_eq("point kept under a new weight", s.GetWZ() * d, 2 * c, 1e-9); check3("without division", p.ToXYZ(false), P3(a, b, c), 0); }
  { const UV p(a, b); sym_check_eq("u", p.U(), a, 0); sym_check_eq("v", p.V(), b, 0); sym_check_eq("u", p[0], a, 0); sym_check_eq("v", p[1], b, 0); UV q, r, t, e(3, 4); q.U() = a; q.V() = b; r.SetU(a); r.SetV(b); t[0] = a; t[1] = b; e = p; UV z = dirty<UV>(m); for (int i = 0; i < 2; i++) { sym_check_eq("set through references", q[i], p[i], 0); sym_check_eq("set", r[i], p[i], 0); sym_check_eq("set by index", t[i], p[i], 0); sym_check_eq("assigned", e[i], p[i], 0); sym_check_eq("default", z[i], 0.0, 0); } }
  { const UVW p(a, b, c); sym_check_eq("u", p.U(), a, 0); sym_check_eq("v", p.V(), b, 0); sym_check_eq("w", p.W(), c, 0); sym_check_eq("u", p.GetU(), a, 0); sym_check_eq("v", p.GetV(), b, 0); sym_check_eq("w", p.GetW(), c, 0); UVW q, r; q.U() = a; q.V() = b; q.W() = c; r.SetU(a); r.SetV(b); r.SetW(c); UVW z = dirty<UVW>(m); sym_check_eq("set through references", q.GetU(), a, 0); sym_check_eq("set through references", q.GetV(), b, 0); sym_check_eq("set through references", q.GetW(), c, 0); sym_check_eq("set", r.GetU(), a, 0); sym_check_eq("set", r.GetV(), b, 0); sym_check_eq("set", r.GetW(), c, 0); sym_check_eq("default", z.GetU(), 0.0, 0); sym_check_eq("default", z.GetV(), 0.0, 0); sym_check_eq("default", z.GetW(), 0.0, 0); }
  sym_reached("access");
}
HARNESS(vec_uv_pred) {
  double u = rv("u", -2, 2), v = rv("v", -2, 2), e = rv("e", 0.001, 0.5), l2 = u * u + v * v; UV a(u, v); int c = sym_choice("c", 0, 7); double f = rv("f", -0.5, 0.5), m = f < 0 ? 0 - f : f;
  if (c == 0) { sym_assume_lt(l2, e * e * 0.999); sym_check("short parameters are zero", a.IsZero(e)); } if (c == 1) { sym_assume_lt(e * e * 1.001, l2); sym_check("long parameters are not zero", !a.IsZero(e)); }
  if (c == 2) { sym_assume_lt(1.0 + e * e * 1.001, l2); sym_check("too long for unit", !a.IsUnit(e)); } if (c == 3) { sym_assume_lt(l2, 1.0 - e * e * 1.001); sym_check("too short for unit", !a.IsUnit(e)); }
  if (c == 4 || c == 5) { UV b(c == 4 ? u + f : u, c == 5 ? v + f : v); bool r = a.IsAlmostEqualTo(b); sym_check("symmetric", r == b.IsAlmostEqualTo(a)); if (r) sym_check("equal only when close", m <= 1e-5); else sym_check("different only when apart", m > 9e-7); }
  if (c == 6) { UV z(0.0, 0.0), n = z.Normalize(); sym_check_eq("normalised zero stays zero", n.GetU(), 0.0, 0); sym_check_eq("normalised zero stays zero", n.GetV(), 0.0, 0); sym_check("zero is zero", z.IsZero()); UV o(0.6, 0.8); sym_check("unit is unit", o.IsUnit()); }
  if (c == 7) { int k = sym_choice("k", 0, 2); P3 p(u, v, 1); P3 q(u + (k == 0 ? f : 0.0), v + (k == 1 ? f : 0.0), 1 + (k == 2 ? f : 0.0)); PW A(p, 2), B(q, 1 + e); bool r = A.IsAlmostEqualTo(B); if (r) sym_check("weighted points equal only when close", m <= 1e-5); else sym_check("weighted points differ only when apart", m > 9e-7); }
  sym_reached("uv predicates");
}
HARNESS(vec_orthogonal) {
  int k = sym_choice("k", 0, 5); P3 v; if (k == 0) v = P3(rv("x", -4, 4), 0, 0); else if (k == 1) v = P3(0, rv("y", -4, 4), rv("z", -4, 4)); else if (k == 2) v = P3(rv("x", -4, 4), rv("y", -4, 4), 0); else if (k == 3) { double s = rv("s", 0.25, 4); v = P3(s, -s, s); } else if (k == 4) { double s = rv("s", 0.25, 4); v = P3(s, s, s); } else { double s = rv("s", 0.25, 4); v = P3(-s, -s, s); }
  double l2 = dot3(v, v); sym_assume_le(0.01, l2); P3 o = XYZ::CreateRandomOrthogonal(v); sym_check_eq("orthogonal vector is perpendicular", dot3(o, v), 0.0, 1e-7); sym_check_eq("orthogonal vector is a unit vector", dot3(o, o), 1.0, 1e-7); sym_reached("orthogonal");
}
// ------------------------------------------------------------------------------------------ transformations
static Matrix4d symM(const char* b, bool affine) { double e[16]; for (int i = 0; i < 16; i++) e[i] = affine && i >= 12 ? (i == 15 ? 1.0 : 0.0) : rv(idx(b, i), -4, 4); return Matrix4d(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); }
static double tripleOf(const Matrix4d& m) { return dot3(cross3(m.GetBasisX(), m.GetBasisY()), m.GetBasisZ()); }
HARNESS(mat_algebra) {
  Matrix4d A = symM("a", false), B = symM("b", false); Matrix4d C = A.Multiply(B), D = A * B, S = A + B, R = A - B, T = A.GetTranspose(), I, K; K = A;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double s = 0; for (int k = 0; k < 4; k++) s = s + A.GetElement(i, k) * B.GetElement(k, j); std::string n = idx("[", i, j); sym_check_eq(("product" + n).c_str(), C.GetElement(i, j), s, 0); sym_check_eq(("operator*" + n).c_str(), D.GetElement(i, j), s, 0); sym_check_eq(("sum" + n).c_str(), S.GetElement(i, j), A.GetElement(i, j) + B.GetElement(i, j), 0); sym_check_eq(("difference" + n).c_str(), R.GetElement(i, j), A.GetElement(i, j) - B.GetElement(i, j), 0); sym_check_eq(("transpose" + n).c_str(), T.GetElement(j, i), A.GetElement(i, j), 0); sym_check_eq(("identity" + n).c_str(), I.GetElement(i, j), i == j ? 1.0 : 0.0, 0); sym_check_eq(("assignment" + n).c_str(), K.GetElement(i, j), A.GetElement(i, j), 0); }
  P3 x = symP3("x"), y = symP3("y"), z = symP3("z"), o = symP3("o"); Matrix4d M(x, y, z, o), N; N.SetBasisX(x); N.SetBasisY(y); N.SetBasisZ(z); N.SetBasisW(o);
  for (Matrix4d* m : {&M, &N}) { check3("basis x", m->GetBasisX(), x, 0); check3("basis y", m->GetBasisY(), y, 0); check3("basis z", m->GetBasisZ(), z, 0); check3("origin", m->GetBasisW(), o, 0); P3 p(rv("px", -2, 2), rv("py", -2, 2), rv("pz", -2, 2)); P3 e = comb(comb(x, p.X(), y, p.Y()), 1, comb(z, p.Z(), o, 1), 1); check3("point in the frame", m->OfPoint(p), e, 1e-9); check3("vector in the frame", m->OfVector(p), comb(e, 1, o, -1), 1e-9); for (int j = 0; j < 4; j++) sym_check_eq("bottom row", m->GetElement(3, j), j == 3 ? 1.0 : 0.0, 0); }
  M.SetElement(1, 2, o.X()); sym_check_eq("SetElement", M.GetElement(1, 2), o.X(), 0); sym_check_eq("others kept", M.GetElement(2, 1), y.Z(), 0); sym_reached("matrix algebra");
}
HARNESS(mat_compose) {
  Matrix4d A = symM("a", true), B = symM("b", true); P3 p = symP3("p", 2), v = symP3("v", 2); Matrix4d C = A.Multiply(B); check3("product composes on points", C.OfPoint(p), A.OfPoint(B.OfPoint(p)), 1e-9); check3("product composes on vectors", C.OfVector(v), A.OfVector(B.OfVector(v)), 1e-9); double w = rv("w", 0.25, 4); PW q(p, w), r = A.OfWeightedPoint(q); sym_check_eq("weight kept", r.GetW(), w, 0); checkProj("weighted point", A.OfPoint(p), h4(r), 1e-9); sym_reached("compose");
}
static P3 axisOf(int k) { switch (k) { case 0: return P3(1, 0, 0); case 1: return P3(0, 3, 0); case 2: return P3(0, 0, -2); case 3: return P3(1, 2, 2); case 4: return P3(-2, 3, 6); case 5: return P3(1, 1, 1); default: { double a = rv("ax", -2, 2), b = rv("ay", -2, 2), c = rv("az", -2, 2); sym_assume_le(0.25, a * a + b * b + c * c); return P3(a, b, c); } } }
HARNESS(mat_rotation) {
  P3 ax = axisOf(sym_param("axis", 0)), o = symP3("o", 4), v = symP3("v", 4); double t = sym_angle("t", -3.2, 3.2), l2 = dot3(ax, ax), l = sqrt(l2), c = cos(t), s = sin(t); P3 k(ax.X() / l, ax.Y() / l, ax.Z() / l);
  Matrix4d R = Matrix4d::CreateRotation(ax, t), Q = Matrix4d::CreateRotationAtPoint(o, ax, t); P3 e = comb(comb(v, c, cross3(k, v), s), 1, k, dot3(k, v) * (1.0 - c)); check3("rotated vector", R.OfVector(v), e, 1e-7); check3("rotated point", R.OfPoint(v), e, 1e-7); check3("rotated about a point", Q.OfPoint(comb(o, 1, v, 1)), comb(o, 1, e, 1), 1e-7); check3("centre fixed", Q.OfPoint(o), o, 1e-7); check3("axis fixed", R.OfPoint(ax), ax, 1e-7); sym_check_eq("orientation", tripleOf(R), 1.0, 1e-7); sym_check("rotation is no reflection", !R.HasReflection()); sym_reached("rotation");
}
HARNESS(mat_reflection) {
  P3 ax = axisOf(sym_param("axis", 0)), v = symP3("v", 4); double d = rv("d", -4, 4), l = sqrt(dot3(ax, ax)); P3 k(ax.X() / l, ax.Y() / l, ax.Z() / l); Matrix4d R = Matrix4d::CreateReflection(ax, d), Z = Matrix4d::CreateReflection(ax);
  check3("mirror image", R.OfPoint(v), comb(v, 1, k, -2.0 * (dot3(k, v) + d)), 1e-7); check3("mirrored vector", R.OfVector(v), comb(v, 1, k, -2.0 * dot3(k, v)), 1e-7); check3("involution", R.OfPoint(R.OfPoint(v)), v, 1e-7); check3("through the origin", Z.OfPoint(v), comb(v, 1, k, -2.0 * dot3(k, v)), 1e-7); sym_check("reflection flips orientation", R.HasReflection() && Z.HasReflection()); sym_reached("reflection");
}
HARNESS(mat_translate_scale) {
  P3 t = symP3("t"), v = symP3("v"), s(rv("sx", 0.1, 4), rv("sy", 0.1, 4), rv("sz", 0.1, 4)); Matrix4d T = Matrix4d::CreateTranslation(t), S = Matrix4d::CreateScale(s); check3("translated", T.OfPoint(v), comb(v, 1, t, 1), 0); check3("vectors do not translate", T.OfVector(v), v, 0); check3("scaled", S.OfPoint(v), P3(v.X() * s.X(), v.Y() * s.Y(), v.Z() * s.Z()), 0); check3("reported scale", S.GetScale(), s, 1e-9); sym_check("no reflection", !S.HasReflection() && !T.HasReflection()); sym_check("is translation", T.IsTranslation()); Matrix4d N = Matrix4d::CreateScale(P3(-s.X(), s.Y(), s.Z())); sym_check("mirrored scale", N.HasReflection()); check3("scale of a mirrored frame", N.GetScale(), s, 1e-9); sym_reached("translate scale");
}
HARNESS(mat_is_identity) {
  // identity with up to three perturbed elements anywhere
  int i = sym_choice("i", 0, 15), j = sym_param("j", -1) >= 0 ? sym_param("j", 0) : i, k = sym_param("k", -1) >= 0 ? sym_param("k", 0) : i; double e0 = rv("e0", -2, 2), e1 = rv("e1", -2, 2), e2 = rv("e2", -2, 2); Matrix4d M; double e[16]; for (int q = 0; q < 16; q++) e[q] = q % 5 == 0 ? 1.0 : 0.0; e[i] = e[i] + e0; if (j != i) e[j] = e[j] + e1; if (k != i && k != j) e[k] = e[k] + e2; for (int q = 0; q < 16; q++) M.SetElement(q / 4, q % 4, e[q]);
  auto small = [&](bool translationToo, double m) { bool ok = true; for (int q = 0; q < 16; q++) { if (translationToo && q < 12 && q % 4 == 3) continue; double d = e[q] - (q % 5 == 0 ? 1.0 : 0.0); if (d > m || d < -m) ok = false; } return ok; };
  if (M.IsIdentity()) sym_check("identity means every element matches", small(false, 1e-5)); else sym_check("identity recognised", !small(false, 5e-7)); if (M.IsTranslation()) sym_check("translation means the rest is the identity", small(true, 1e-5)); else sym_check("translation recognised", !small(true, 5e-7)); sym_reached("identity test");
}
static void checkInverse(Matrix4d M) {
  Matrix4d I; bool ok = M.GetInverse(I); sym_check("invertible", ok); Matrix4d A = M.Multiply(I), B = I.Multiply(M); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { sym_check_eq(idx("M*inv", i, j).c_str(), A.GetElement(i, j), i == j ? 1.0 : 0.0, 1e-7); sym_check_eq(idx("inv*M", i, j).c_str(), B.GetElement(i, j), i == j ? 1.0 : 0.0, 1e-7); }
}
HARNESS(mat_inverse) {
  int k = sym_param("k", 0); Matrix4d M; P3 t = symP3("t"); double a = rv("a", 0.5, 4), b = rv("b", 0.5, 4), c = rv("c", -1, 1);
  switch (k) { case 0: M = Matrix4d::CreateTranslation(t); break; case 1: M = Matrix4d(a, 0, 0, t.X(), 0, b, 0, 2, 0, 0, a, 3, 0, 0, 0, 1); break; case 2: M = Matrix4d(0, 2, 0, t.X(), 1, 0, 3, t.Y(), 0, 1, -1, 7, 0, 0, 0, 1); break; case 3: M = Matrix4d(1, c, 0, 2, 0, 1, c, -1, 0, 0, 1, 3, 0, 0, 0, 1); break; case 4: M = Matrix4d(2, 1, 0, 1, -1, 3, 2, 0, 0, 1, 4, 5, 1, 0, 2, 9 + a); break; case 5: { double q = rv("h", -3, 3), cs = (1.0 - q * q) / (1.0 + q * q), sn = 2.0 * q / (1.0 + q * q); M = Matrix4d(cs, -sn, 0, 1, sn, cs, 0, 2, 0, 0, 1, 3, 0, 0, 0, 1); break; } default: M = Matrix4d(a, 1, 0, 0, 1, -b, 0, 0, 0, 0, 2, 1, 0, 0, 1, 1); }
  checkInverse(M); sym_reached("inverse");
}
HARNESS(mat_singular) {
  int k = sym_param("k", 0); double a = rv("a", 0.5, 4), b = rv("b", -4, 4); Matrix4d M, I; switch (k) { case 0: M = Matrix4d::CreateScale(P3(a, 0, 1)); break; case 1: M = Matrix4d(a, 2 * a, 0, b, 1, 2, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1); break; case 2: M = Matrix4d(1, 2, 3, 4, 2, 4, 6, 8, 0, 1, a, 2, 3, 0, 1, b); break; default: M = Matrix4d(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, a); }
  sym_check("singular matrix has no inverse", !M.GetInverse(I)); sym_check_eq("singular determinant", M.GetDeterminant(), 0.0, 1e-9); sym_reached("singular");
}
// ------------------------------------------------------------------------------------------ linear algebra
static double detOf(const VVD& m) { int n = (int)m.size(); if (n == 1) return m[0][0]; double r = 0; for (int c = 0; c < n; c++) { VVD s; for (int i = 1; i < n; i++) { VD row; for (int j = 0; j < n; j++) if (j != c) row.push_back(m[i][j]); s.push_back(row); } double t = m[0][c] * detOf(s); r = c % 2 ? r - t : r + t; } return r; }
static VVD concreteMatrix(int n, int id) { VVD m(n, VD(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = id == 0 ? ((i * 3 + j * 5 + i * j) % 7) - 2.0 + (i == j ? 6 : 0) : id == 1 ? (i + j == n - 1 ? 2.0 + i : ((i + 2 * j) % 3 == 0 ? 0.25 : 0)) : (i == j ? 4.0 : (i > j ? i - j : j - i) == 1 ? 1.0 - 0.5 * (i % 2) : (i > j ? i - j : j - i) == 2 ? 0.25 : 0.0); return m; }
HARNESS(lin_solve) {
  sym_approx_sqrt(1); int n = sym_param("n", 3), id = sym_param("id", 0), cols = 2; VVD A = concreteMatrix(n, id), B(n, VD(cols)); for (int i = 0; i < n; i++) for (int j = 0; j < cols; j++) B[i][j] = rv(idx("b", i, j), -8, 8); VVD A0 = A, B0 = B; VVD X = MathUtils::SolveLinearSystem(A, B); sym_check("solution shape", (int)X.size() == n && (int)X[0].size() == cols); for (int i = 0; i < n; i++) for (int j = 0; j < cols; j++) { double s = 0; for (int k = 0; k < n; k++) s = s + A0[i][k] * X[k][j]; sym_check_eq("solution satisfies the system", s, B0[i][j], 1e-7); } sym_reached("solve");
}
HARNESS(lin_solve2) {   // symbolic 2x2 matrix, diagonally dominant or anti-diagonal
  sym_approx_sqrt(1); double a = rv("a", 2, 4), b = rv("b", -1, 1); int k = sym_param("k", 0); VVD A = k == 0 ? VVD{{a, 0}, {b, 1}} : k == 1 ? VVD{{0, 1}, {a, b}} : VVD{{a, b}, {0, 3}}, B = {{rv("c", -4, 4)}, {rv("d", -4, 4)}}; VVD X = MathUtils::SolveLinearSystem(A, B); for (int i = 0; i < 2; i++) sym_check_eq("2x2 system solved", A[i][0] * X[0][0] + A[i][1] * X[1][0], B[i][0], 1e-7); sym_reached("solve2");
}
HARNESS(lin_lsq) {   // overdetermined: the residual is orthogonal to the columns
  sym_approx_sqrt(1); int m = sym_param("m", 4), n = sym_param("n", 2); VVD A(m, VD(n)), B(m, VD(1)); for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) A[i][j] = ipow(i * 0.5 + 1, j); B[i][0] = rv(idx("b", i), -8, 8); } VVD X = MathUtils::SolveLinearSystem(A, B); sym_check("least squares shape", (int)X.size() == n); for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) { double r = -B[i][0]; for (int k = 0; k < n; k++) r = r + A[i][k] * X[k][0]; s = s + A[i][j] * r; } sym_check_eq("least squares residual orthogonal", s, 0.0, 1e-6); } sym_reached("lsq");
}
HARNESS(lin_banded) {
  sym_approx_sqrt(1); int n = sym_param("n", 4), hb = sym_param("hb", 1), bw = 2 * hb + 1, cols = 2; VVD A = concreteMatrix(n, 2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i - j > hb || j - i > hb) A[i][j] = 0; VVD band(n, VD(bw, 0.0)), B(n, VD(cols)), X(n, VD(cols, 0.0)); for (int i = 0; i < n; i++) { for (int k = 0; k < bw; k++) { int j = i - hb + k; if (j >= 0 && j < n) band[i][k] = A[i][j]; } for (int j = 0; j < cols; j++) B[i][j] = rv(idx("b", i, j), -8, 8); }
  bool ok = MathUtils::SolveLinearSystemBanded(n, band, bw, B, X); sym_check("banded solve succeeds", ok); for (int i = 0; i < n; i++) for (int j = 0; j < cols; j++) { double s = 0; for (int k = 0; k < n; k++) s = s + A[i][k] * X[k][j]; sym_check_eq("banded solution satisfies the system", s, B[i][j], 1e-7); } sym_reached("banded");
}
HARNESS(lin_basic) {
  int m = sym_param("m", 2), n = sym_param("n", 3), p = sym_param("p", 2); VVD A(m, VD(n)), B(n, VD(p)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = rv(idx("a", i, j), -8, 8); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) B[i][j] = rv(idx("b", i, j), -8, 8);
  VVD C = MathUtils::MatrixMultiply(A, B), T; sym_check("product shape", (int)C.size() == m && (int)C[0].size() == p); for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { double s = 0; for (int k = 0; k < n; k++) s = s + A[i][k] * B[k][j]; sym_check_eq("matrix product", C[i][j], s, 0); } MathUtils::Transpose(A, T); sym_check("transpose shape", (int)T.size() == n && (int)T[0].size() == m); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_check_eq("transpose", T[j][i], A[i][j], 0); for (int j = 0; j < n; j++) { VD c = MathUtils::GetColumn(A, j); sym_check("column length", (int)c.size() == m); for (int i = 0; i < m; i++) sym_check_eq("column", c[i], A[i][j], 0); }
  VVD I = MathUtils::MakeDiagonal(n), Z = MathUtils::CreateMatrix(m, n); sym_check("shapes", (int)I.size() == n && (int)Z.size() == m && (int)Z[0].size() == n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym_check_eq("identity matrix", I[i][j], i == j ? 1.0 : 0.0, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_check_eq("zero matrix", Z[i][j], 0.0, 0); sym_reached("matrix basics");
}
HARNESS(lin_det) {
  int n = sym_param("n", 3), r0 = sym_param("row", 0); VVD A = concreteMatrix(n, sym_param("id", 0)); for (int j = 0; j < n; j++) if (j < sym_param("free", 2)) A[r0][j] = rv(idx("a", j), -8, 8); double d = MathUtils::GetDeterminant(A); sym_check_eq("determinant", d, detOf(A), 1e-7); sym_reached("determinant");
}
HARNESS(lin_inverse) {
  int n = sym_param("n", 3); VVD A = concreteMatrix(n, sym_param("id", 0)), R; A[0][sym_param("id", 0) == 1 ? 0 : n - 1] = rv("a", -0.5, 0.5); bool ok = MathUtils::MakeInverse(A, R); sym_check("regular matrix inverted", ok); if (!ok) return; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s = s + A[i][k] * R[k][j]; sym_check_eq("matrix times inverse", s, i == j ? 1.0 : 0.0, 1e-7); } VVD bad = {{1, 2, 3}, {4, 5, 6}}, o; sym_check("non-square refused", !MathUtils::MakeInverse(bad, o)); sym_reached("lin inverse");
}
// ------------------------------------------------------------------------------------------ comparisons
HARNESS(tol_compare) {
  double a = rv("a", -100, 100), b = rv("b", -100, 100), tol = sym_param("dflt", 0) ? Constants::DoubleEpsilon : rv("tol", 0, 0.5); bool dflt = sym_param("dflt", 0);
  bool eq = dflt ? MathUtils::IsAlmostEqualTo(a, b) : MathUtils::IsAlmostEqualTo(a, b, tol), gt = dflt ? MathUtils::IsGreaterThan(a, b) : MathUtils::IsGreaterThan(a, b, tol), ge = dflt ? MathUtils::IsGreaterThanOrEqual(a, b) : MathUtils::IsGreaterThanOrEqual(a, b, tol), lt = dflt ? MathUtils::IsLessThan(a, b) : MathUtils::IsLessThan(a, b, tol), le = dflt ? MathUtils::IsLessThanOrEqual(a, b) : MathUtils::IsLessThanOrEqual(a, b, tol);
  sym_check("exactly one of less, equal, greater", (int)eq + (int)gt + (int)lt == 1); sym_check("less-or-equal", le == (lt || eq)); sym_check("greater-or-equal", ge == (gt || eq));
  if (gt) sym_check("greater is greater", a >= b); if (lt) sym_check("less is less", a <= b); double d = a > b ? a - b : b - a; double aa = a < 0 ? -a : a, ab = b < 0 ? -b : b, m = aa > ab ? aa : ab; if (eq) sym_check("equal means within tolerance", d <= tol * (1.0 + m) * 1.0001 + 1e-12); else sym_check("different means beyond tolerance", d * 1.0001 + 1e-12 >= tol * (1.0 + m)); sym_reached("compare");
}
HARNESS(scalar_misc) {
  double x = rv("x", -1000, 1000); sym_check_eq("angle round trip", MathUtils::AngleToRadians(MathUtils::RadiansToAngle(x)), x, 1e-9); sym_check_eq("radians round trip", MathUtils::RadiansToAngle(MathUtils::AngleToRadians(x)), x, 1e-9); int n = sym_choice("n", 0, 34), i = sym_choice("i", 0, 34); double e = 0; if (i <= n) { e = 1; for (int k = 0; k < i; k++) e = e * (n - k) / (k + 1); } double pa = 0, pb = 0; sym_check_eq("binomial", MathUtils::Binomial(n, i), e, 1e-12); if (n <= 20 && i == 0) { long long f = 1; for (int k = 2; k <= n; k++) f *= k; sym_check("factorial", MathUtils::Factorial(n) == f); } (void)pa; (void)pb; sym_reached("scalar");
}
// ------------------------------------------------------------------------------------------ control point grids, cubic roots, not-a-number
HARNESS(cp_utils) {
  int m = sym_param("m", 2), n = sym_param("n", 3), p = sym_param("p", 2); std::vector<VPW> A(m, VPW(n)); std::vector<VP3> C(m, VP3(n)); VPW row; VVD L(p, VD(m)), R(n, VD(p)); int q = 0;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double w = rv(idx("w", i, j), 0.5, 3); P3 c = symP3(idx("c", i, j)); C[i][j] = c; A[i][j] = PW(c.X() * w, c.Y() * w, c.Z() * w, w); if (i == 0) row.push_back(A[i][j]); }
  for (int i = 0; i < p; i++) for (int j = 0; j < m; j++) L[i][j] = rv(idx("l", i, j), -4, 4); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) R[i][j] = rv(idx("r", i, j), -4, 4);
  VP3 B = ControlPointsUtils::ToXYZ(row); sym_check("row size", (int)B.size() == n); for (int j = 0; j < n; j++) check3("row of plain points", B[j], C[0][j]);
  auto G = ControlPointsUtils::ToXYZ(A); sym_check("grid size", (int)G.size() == m && (int)G[0].size() == n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) check3("plain point", G[i][j], C[i][j]);
  auto W = ControlPointsUtils::ToXYZW(C); sym_check("grid size", (int)W.size() == m && (int)W[0].size() == n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) checkH("point of weight one", h4(W[i][j]), H4{C[i][j].X(), C[i][j].Y(), C[i][j].Z(), 1.0});
  auto X = ControlPointsUtils::Multiply(A, R); sym_check("right product size", (int)X.size() == m && (int)X[0].size() == p); for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { H4 e{0, 0, 0, 0}; for (int k = 0; k < n; k++) { H4 a = h4(A[i][k]); e.x = e.x + a.x * R[k][j]; e.y = e.y + a.y * R[k][j]; e.z = e.z + a.z * R[k][j]; e.w = e.w + a.w * R[k][j]; } checkH("grid times matrix", h4(X[i][j]), e); }
  auto Y = ControlPointsUtils::Multiply(L, A); sym_check("left product size", (int)Y.size() == p && (int)Y[0].size() == n); for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) { H4 e{0, 0, 0, 0}; for (int k = 0; k < m; k++) { H4 a = h4(A[k][j]); e.x = e.x + a.x * L[i][k]; e.y = e.y + a.y * L[i][k]; e.z = e.z + a.z * L[i][k]; e.w = e.w + a.w * L[i][k]; } checkH("matrix times grid", h4(Y[i][j]), e); } sym_reached("control point grids");
}
HARNESS(cubic_root) { // s * (cubic), every scale s: the iteration is the same, the result has to be a root
  static const double Q[][4] = {{2, -3, 0, 0.25}, {2, -3, 0, 0.9375}, {2, -3, 0, 0.0625}, {1, 0, 1, -1}, {1, 0, 0.5, -3}, {0, 0, 2, -3}, {0, 1, 2, -5}, {1, -0.5, 2, 1}, {-1, 0.25, -3, 2}, {0.25, 0, 1, 4}}; int k = sym_param("k", 0); double s = rv("s", 0.125, 16); if (sym_param("neg", 0)) s = -s;
  double x = MathUtils::ComputerCubicEquationsWithOneVariable(Q[k][0] * s, Q[k][1] * s, Q[k][2] * s, Q[k][3] * s); sym_check_eq("root of the cubic", ((Q[k][0] * x + Q[k][1]) * x + Q[k][2]) * x + Q[k][3], 0.0, 1e-5); sym_reached("cubic");
}
HARNESS(tol_nan) {
  double a = rv("a", -100, 100), nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity(); sym_check("NaN recognised", MathUtils::IsNaN(nan) && !MathUtils::IsNaN(a) && !MathUtils::IsNaN(inf)); sym_check("infinity recognised", MathUtils::IsInfinite(inf) && MathUtils::IsInfinite(-inf) && !MathUtils::IsInfinite(a) && !MathUtils::IsInfinite(nan));
  for (int i = 0; i < 3; i++) { double x = i == 1 ? a : nan, y = i == 0 ? a : nan; sym_check("NaN compares false", !MathUtils::IsAlmostEqualTo(x, y) && !MathUtils::IsGreaterThan(x, y) && !MathUtils::IsLessThan(x, y) && !MathUtils::IsGreaterThanOrEqual(x, y) && !MathUtils::IsLessThanOrEqual(x, y)); }
  sym_check("infinities are equal only to themselves", MathUtils::IsAlmostEqualTo(inf, inf) && MathUtils::IsAlmostEqualTo(-inf, -inf) && !MathUtils::IsAlmostEqualTo(inf, -inf) && !MathUtils::IsAlmostEqualTo(inf, a) && !MathUtils::IsAlmostEqualTo(a, -inf)); sym_reached("nan");
}
// ------------------------------------------------------------------------------------------ rays, lines, planes
static P3 dirOf(const char* n, int k) { switch (k) { case 0: return P3(1, 0, 0); case 1: return P3(0, 2, 0); case 2: return P3(1, 2, 2); case 3: return P3(-1, 1, 3); case 4: { double a = rv(std::string(n) + "d", -2, 2); return P3(1, a, 0); } case 5: { double a = rv(std::string(n) + "d", -2, 2), b = rv(std::string(n) + "e", -2, 2); return P3(a, 1, b); } case 7: return P3(1, 0.03, 0); case 8: return P3(30, -4, 0.5); case 9: return P3(0.004, 1, 2); default: return P3(0, 0, 1); } }
HARNESS(ray_meet) {
  P3 X = symP3("X", 4), v0 = dirOf("v", sym_param("a", 0)), v1 = dirOf("w", sym_param("b", 1)); P3 n = cross3(v0, v1); sym_assume_le(sym_param("near", 0) ? 0.0001 : 0.05, dot3(n, n)); double s = rv("s", -4, 4), t = rv("t", -4, 4), h = sym_param("skew", 0) ? rv("h", 0.1, 2) : 0.0; P3 p0 = comb(X, 1, v0, -s), p1 = comb(comb(X, 1, v1, -t), 1, n, h); double a, b; P3 I; CurveCurveIntersectionType ty = Intersection::ComputeRays(p0, v0, p1, v1, a, b, I);
  if (sym_param("skew", 0)) { sym_check("skew lines recognised", ty == CurveCurveIntersectionType::Skew); sym_check_eq("closest parameter 0", a, s, 1e-7); sym_check_eq("closest parameter 1", b, t, 1e-7); } else { sym_check("crossing lines intersect", ty == CurveCurveIntersectionType::Intersecting); check3("intersection point", I, X, 1e-7); if (sym_param("same", 0) == 0) { sym_check_eq("parameter 0", a, s, 1e-7); sym_check_eq("parameter 1", b, t, 1e-7); } } sym_reached("rays meet");
}
HARNESS(ray_parallel) {
  P3 p0 = symP3("p", 4), v = dirOf("v", sym_param("a", 2)); int far = sym_param("far", 0); double k = rv("k", far == 2 ? 1.5 : 0.5, 3), g = sym_choice("sign", 0, 1) ? k : -k; P3 v1 = comb(v, g, v, 0), off = sym_param("off", 0) ? cross3(v, dirOf("q", sym_param("b", 3))) : P3(0.0, 0.0, 0.0); double s = far == 2 ? 0.0 : far ? rv("s", 10, 40) : rv("s", 0.5, 4), h = far ? rv("h", 0.02, 0.25) : rv("h", 0.5, 2); P3 p1 = comb(comb(p0, 1, v, s), 1, off, h); double a, b; P3 I; CurveCurveIntersectionType ty = Intersection::ComputeRays(p0, v, p1, v1, a, b, I); if (sym_param("off", 0)) sym_check("parallel lines recognised", ty == CurveCurveIntersectionType::Parallel); else sym_check("coincident lines recognised", ty == CurveCurveIntersectionType::Coincident); sym_reached("rays parallel");
}
HARNESS(ray_bad) { double a, b; P3 I, z(0.0, 0.0, 0.0), p = symP3("p"), q = symP3("q"); P3 v = dirOf("v", sym_param("a", 2)); sym_check("zero first direction rejected", throwsAny([&] { Intersection::ComputeRays(p, z, q, v, a, b, I); })); sym_check("zero second direction rejected", throwsAny([&] { Intersection::ComputeRays(p, v, q, z, a, b, I); })); sym_reached("bad ray"); }
HARNESS(line_plane) {
  P3 n = dirOf("n", sym_param("a", 2)), d = dirOf("v", sym_param("b", 3)), X = symP3("X", 4); double s = rv("s", -4, 4); P3 L = comb(X, 1, d, -s); double e0 = rv("f", -3, 3); P3 inPlane = cross3(n, P3(1, 3, -2)), Q = comb(X, 1, inPlane, e0), I; double dn = dot3(d, n); int c = sym_param("par", 0);
  if (c == 0) { sym_assume_le(sym_param("near", 0) ? 0.00001 : 0.01, dn * dn); LinePlaneIntersectionType ty = Intersection::ComputeLineAndPlane(n, Q, L, d, I); sym_check("line meets plane", ty == LinePlaneIntersectionType::Intersecting); check3("meeting point", I, X, 1e-7); }
  else { P3 dd = cross3(n, P3(2, -1, 1)); double h = c == 1 ? rv("h", 0.1, 3) : 0.0; P3 LL = comb(X, 1, n, h); LinePlaneIntersectionType ty = Intersection::ComputeLineAndPlane(n, Q, LL, dd, I); if (c == 1) sym_check("parallel line recognised", ty == LinePlaneIntersectionType::Parallel); else { sym_check("line in the plane recognised", ty == LinePlaneIntersectionType::On); sym_check_eq("point in the plane", dot3(comb(I, 1, Q, -1), n), 0.0, 1e-7); } } sym_reached("line plane");
}
HARNESS(project) {
  P3 o = symP3("o", 4), p = symP3("p", 4), v = dirOf("v", sym_param("a", 2)); P3 r = Projection::PointToRay(o, v, p); sym_check_eq("foot is perpendicular", dot3(comb(p, 1, r, -1), v), 0.0, 1e-7); check3("foot is on the line", cross3(comb(r, 1, o, -1), v), P3(0.0, 0.0, 0.0), 1e-7);
  P3 e = comb(o, 1, v, 1), q; double t = dot3(comb(p, 1, o, -1), v) / dot3(v, v); bool ok = Projection::PointToLine(o, e, p, q); if (ok) { sym_check("inside the segment", t >= -1e-5 && t <= 1.0 + 1e-5); sym_check_eq("segment foot perpendicular", dot3(comb(p, 1, q, -1), v), 0.0, 1e-7); check3("segment foot on the line", cross3(comb(q, 1, o, -1), v), P3(0.0, 0.0, 0.0), 1e-7); } else sym_check("refused only outside", t < 0.0 || t > 1.0); P3 z; sym_check("no direction, no projection", !Projection::PointToLine(o, o, p, z)); sym_reached("project");
}
HARNESS(stereographic) {   // sphere of radius r resting on z=0 at the origin, projected from its top (0,0,2r) onto z=0
  double r = rv("r", 0.5, 4), x = rv("x", -4, 4), y = rv("y", -4, 4), z = rv("z", 0, 7); sym_assume_le(z, 1.9 * r); P3 s = Projection::Stereographic(P3(x, y, z), r); sym_check_eq("lands on the plane", s.Z(), 0.0, 0); P3 top(0, 0, 2.0 * r), a = comb(P3(x, y, z), 1, top, -1), b = comb(s, 1, top, -1); check3("on the projecting line", cross3(a, b), P3(0.0, 0.0, 0.0), 1e-7); sym_reached("stereographic");
}
