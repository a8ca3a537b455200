// C37: the C API hands data through to the library and back unchanged
#include "common.h"
#include <cstring>
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "Projection.h"
#include "KnotVectorUtils.h"
#include "ValidationUtils.h"
#include "Polynomials.h"
#include "MathUtils.h"
#include "Matrix4d.h"
#include "UV_CAPI.h"
#include "XYZ_CAPI.h"
#include "XYZW_CAPI.h"
#include "Matrix4d_CAPI.h"
#include "Intersection_CAPI.h"
#include "Projection_CAPI.h"
#include "KnotVectorUtils_CAPI.h"
#include "ValidationUtils_CAPI.h"
#include "BezierCurve_CAPI.h"
#include "BezierSurface_CAPI.h"
#include "Interpolation_CAPI.h"
#include "Polynomials_CAPI.h"
#include "NurbsCurve_CAPI.h"
#include "NurbsSurface_CAPI.h"
using namespace LNLib;
static const double T = 1e-12;
static XYZ_C c3(const P3& p) { return {p.GetX(), p.GetY(), p.GetZ()}; }
static XYZW_C c4(const PW& p) { return {p.GetWX(), p.GetWY(), p.GetWZ(), p.GetW()}; }
static UV_C c2(const UV& p) { return {p.GetU(), p.GetV()}; }
static std::vector<XYZ_C> cv(const VP3& v) { std::vector<XYZ_C> r; for (auto& p : v) r.push_back(c3(p)); return r; }
static void eq(const char* w, double a, double b) { sym_check_eq(w, a, b, T); }
static void eq(const char* w, XYZ_C a, const P3& b) { std::string s(w); eq((s + ".x").c_str(), a.x, b.GetX()); eq((s + ".y").c_str(), a.y, b.GetY()); eq((s + ".z").c_str(), a.z, b.GetZ()); }
static void eq(const char* w, XYZW_C a, const PW& b) { std::string s(w); eq((s + ".wx").c_str(), a.wx, b.GetWX()); eq((s + ".wy").c_str(), a.wy, b.GetWY()); eq((s + ".wz").c_str(), a.wz, b.GetWZ()); eq((s + ".w").c_str(), a.w, b.GetW()); }
static void eq(const char* w, UV_C a, const UV& b) { std::string s(w); eq((s + ".u").c_str(), a.u, b.GetU()); eq((s + ".v").c_str(), a.v, b.GetV()); }
static void truth(const char* w, int c, bool l) { sym_check(w, (c != 0) == l); }
static bool same(const char* w, int a, int b) { sym_check(w, a == b); return a == b; }
static bool same(const char* w, int a, size_t b) { return same(w, a, (int)b); }
// curves and surfaces in caller-owned arrays, padded so that a wrong length shows
struct CB { VD U; std::vector<XYZW_C> P; LN_NurbsCurve n; LN_NurbsCurve_C c; };
static void fillCB(CB& b, const LN_NurbsCurve& n) { b.n = n; b.U = n.KnotVector; b.P.clear(); for (auto& p : n.ControlPoints) b.P.push_back(c4(p)); b.c = {n.Degree, b.U.data(), (int)b.U.size(), b.P.data(), (int)b.P.size()}; }
struct SB { VD U, V; std::vector<XYZW_C> P; LN_NurbsSurface n; LN_NurbsSurface_C c; };
static void fillSB(SB& b, const LN_NurbsSurface& n) { b.n = n; b.U = n.KnotVectorU; b.V = n.KnotVectorV; b.P.clear(); for (auto& r : n.ControlPoints) for (auto& p : r) b.P.push_back(c4(p)); b.c = {n.DegreeU, n.DegreeV, b.U.data(), (int)b.U.size(), b.V.data(), (int)b.V.size(), b.P.data(), (int)n.ControlPoints.size(), (int)n.ControlPoints[0].size()}; }
static void eqCurve(const char* w, const LN_NurbsCurve_C& a, const LN_NurbsCurve& b) {
  std::string s(w); same((s + ": degree").c_str(), a.degree, b.Degree);
  if (same((s + ": number of knots").c_str(), a.knot_vector_count, b.KnotVector.size())) for (size_t i = 0; i < b.KnotVector.size(); i++) eq((s + ": knot").c_str(), a.knot_vector[i], b.KnotVector[i]);
  if (same((s + ": number of control points").c_str(), a.control_point_count, b.ControlPoints.size())) for (size_t i = 0; i < b.ControlPoints.size(); i++) eq((s + ": control point").c_str(), a.control_points[i], b.ControlPoints[i]); }
static void eqSurf(const char* w, const LN_NurbsSurface_C& a, const LN_NurbsSurface& b) {
  std::string s(w); same((s + ": u degree").c_str(), a.degree_u, b.DegreeU); same((s + ": v degree").c_str(), a.degree_v, b.DegreeV);
  if (same((s + ": number of u knots").c_str(), a.knot_vector_count_u, b.KnotVectorU.size())) for (size_t i = 0; i < b.KnotVectorU.size(); i++) eq((s + ": u knot").c_str(), a.knot_vector_u[i], b.KnotVectorU[i]);
  if (same((s + ": number of v knots").c_str(), a.knot_vector_count_v, b.KnotVectorV.size())) for (size_t i = 0; i < b.KnotVectorV.size(); i++) eq((s + ": v knot").c_str(), a.knot_vector_v[i], b.KnotVectorV[i]);
  if (same((s + ": rows").c_str(), a.cp_rows, b.ControlPoints.size()) && same((s + ": columns").c_str(), a.cp_cols, b.ControlPoints[0].size())) for (int i = 0; i < a.cp_rows; i++) for (int j = 0; j < a.cp_cols; j++) eq((s + ": control point").c_str(), a.control_points[i * a.cp_cols + j], b.ControlPoints[i][j]); }
static const double MARK = 12345.5; // what the caller's arrays hold beyond the end of a result
// ---- points and parameters ---------------------------------------------------------------------------
HARNESS(capi_uv) {
  double a = rv("a", -8, 8), b = rv("b", -8, 8), c = rv("c", -8, 8), d = rv("d", -8, 8), f = rv("f", 0.25, 8); UV_C p{a, b}, q{c, d}; UV P(a, b), Q(c, d);
  switch (sym_param("f", 0)) {
  case 0: eq("create", LNLIB_UV_create(a, b), P); eq("get u", LNLIB_UV_get_u(p), a); eq("get v", LNLIB_UV_get_v(p), b); eq("set u", LNLIB_UV_set_u(p, c), UV(c, b)); eq("set v", LNLIB_UV_set_v(p, c), UV(a, c));
    eq("add", LNLIB_UV_add(p, q), UV(a + c, b + d)); eq("subtract", LNLIB_UV_subtract(p, q), UV(a - c, b - d)); eq("negative", LNLIB_UV_negative(p), UV(-a, -b)); eq("scale", LNLIB_UV_scale(p, f), UV(a * f, b * f)); eq("divide", LNLIB_UV_divide(p, f), UV(a / f, b / f));
    eq("square of length", LNLIB_UV_sqr_length(p), a * a + b * b); eq("dot", LNLIB_UV_dot_product(p, q), a * c + b * d); eq("cross", LNLIB_UV_cross_product(p, q), a * d - b * c); break;
  case 1: { double l = LNLIB_UV_length(p), r = LNLIB_UV_distance(p, q); eq("length", l * l, a * a + b * b); sym_check_le("length is not negative", 0, l, 0); eq("distance", r * r, (a - c) * (a - c) + (b - d) * (b - d)); sym_check_le("distance is not negative", 0, r, 0); break; }
  case 2: sym_assume(a > 0.5); eq("normalize", LNLIB_UV_normalize(p), P.Normalize()); break;
  case 3: truth("is zero", LNLIB_UV_is_zero(p, f), P.IsZero(f)); break;
  case 4: truth("is unit", LNLIB_UV_is_unit(p, f), P.IsUnit(f)); break;
  case 5: truth("is almost equal", LNLIB_UV_is_almost_equal(p, q, f), MathUtils::IsAlmostEqualTo(a, c, f) && MathUtils::IsAlmostEqualTo(b, d, f)); break; }
  sym_reached("uv");
}
HARNESS(capi_xyz) {
  P3 A = symP3("a"), B = symP3("b"); if (sym_param("f", 0) == 5) { double l = rv("l", 1, 2); A = P3(l + 1, l, l + 2); B = P3(2, rv("m", 1, 3), l + rv("n", 1, 3)); } XYZ_C a = c3(A), b = c3(B); double f = rv("f", 0.25, 8);
  switch (sym_param("f", 0)) {
  case 0: eq("create", LNLIB_XYZ_create(a.x, a.y, a.z), A); eq("get x", LNLIB_XYZ_get_x(a), a.x); eq("get y", LNLIB_XYZ_get_y(a), a.y); eq("get z", LNLIB_XYZ_get_z(a), a.z); eq("set x", LNLIB_XYZ_set_x(a, f), P3(f, a.y, a.z)); eq("set y", LNLIB_XYZ_set_y(a, f), P3(a.x, f, a.z)); eq("set z", LNLIB_XYZ_set_z(a, f), P3(a.x, a.y, f));
    eq("add", LNLIB_XYZ_add(a, b), P3(a.x + b.x, a.y + b.y, a.z + b.z)); eq("subtract", LNLIB_XYZ_subtract(a, b), P3(a.x - b.x, a.y - b.y, a.z - b.z)); eq("negative", LNLIB_XYZ_negative(a), P3(-a.x, -a.y, -a.z)); eq("multiply", LNLIB_XYZ_multiply(a, f), P3(a.x * f, a.y * f, a.z * f)); eq("divide", LNLIB_XYZ_divide(a, f), P3(a.x / f, a.y / f, a.z / f));
    eq("square of length", LNLIB_XYZ_sqr_length(a), a.x * a.x + a.y * a.y + a.z * a.z); eq("dot", LNLIB_XYZ_dot_product(a, b), a.x * b.x + a.y * b.y + a.z * b.z); eq("cross", LNLIB_XYZ_cross_product(a, b), P3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)); break;
  case 1: eq("length", LNLIB_XYZ_length(a), A.Length()); eq("distance", LNLIB_XYZ_distance(a, b), A.Distance(B)); break;
  case 2: sym_assume(a.x > 0.5); eq("normalize", LNLIB_XYZ_normalize(a), A.Normalize()); break;
  case 3: truth("is zero", LNLIB_XYZ_is_zero(a, f), A.IsZero(f)); break;
  case 4: truth("is unit", LNLIB_XYZ_is_unit(a, f), A.IsUnit(f)); break;
  case 5: truth("is almost equal", LNLIB_XYZ_is_almost_equal(a, b, f), MathUtils::IsAlmostEqualTo(a.x, b.x, f) && MathUtils::IsAlmostEqualTo(a.y, b.y, f) && MathUtils::IsAlmostEqualTo(a.z, b.z, f)); break;
  case 6: { P3 u(1, 2, 2), v(rv("t", 1, 2), 0, 0); eq("angle", LNLIB_XYZ_angle_to(c3(u), c3(v), 1e-6), u.AngleTo(v)); break; }
  case 7: { P3 u(rv("t", 1, 2), 0, 0); XYZ_C r = LNLIB_XYZ_create_random_orthogonal(c3(u)); eq("orthogonal", r.x, 0); eq("orthogonal of unit length", r.y * r.y + r.z * r.z, 1); break; } }
  sym_reached("xyz");
}
HARNESS(capi_xyzw) {
  PW A = symPW("a"), B = symPW("b"); if (sym_param("f", 0) == 2) { double l = rv("l", 1, 2); A = PW(l + 1, l, l + 2, 1); B = PW(2, rv("m", 1, 3), l + rv("n", 1, 3), rv("k", 1, 3)); } XYZW_C a = c4(A), b = c4(B); double f = rv("f", 0.25, 8); P3 p = symP3("p");
  switch (sym_param("f", 0)) {
  case 0: eq("create", LNLIB_XYZW_create(a.wx, a.wy, a.wz, a.w), A); eq("create from point", LNLIB_XYZW_create_from_xyz(c3(p), f), PW(p.GetX() * f, p.GetY() * f, p.GetZ() * f, f)); eq("get wx", LNLIB_XYZW_get_wx(a), a.wx); eq("get wy", LNLIB_XYZW_get_wy(a), a.wy); eq("get wz", LNLIB_XYZW_get_wz(a), a.wz); eq("get w", LNLIB_XYZW_get_w(a), a.w);
    eq("to point", LNLIB_XYZW_to_xyz(a, 1), P3(a.wx / a.w, a.wy / a.w, a.wz / a.w)); eq("to vector", LNLIB_XYZW_to_xyz(a, 0), P3(a.wx, a.wy, a.wz)); eq("set weight", LNLIB_XYZW_set_w(a, f), PW(a.wx / a.w * f, a.wy / a.w * f, a.wz / a.w * f, f));
    eq("add", LNLIB_XYZW_add(a, b), PW(a.wx + b.wx, a.wy + b.wy, a.wz + b.wz, a.w + b.w)); eq("subtract", LNLIB_XYZW_subtract(a, b), PW(a.wx - b.wx, a.wy - b.wy, a.wz - b.wz, a.w - b.w)); eq("multiply", LNLIB_XYZW_multiply(a, f), PW(a.wx * f, a.wy * f, a.wz * f, a.w * f)); eq("divide", LNLIB_XYZW_divide(a, f), PW(a.wx / f, a.wy / f, a.wz / f, a.w / f)); break;
  case 1: eq("distance", LNLIB_XYZW_distance(a, b), A.Distance(B)); break;
  case 2: truth("is almost equal", LNLIB_XYZW_is_almost_equal(a, b, f), MathUtils::IsAlmostEqualTo(a.wx, b.wx, f) && MathUtils::IsAlmostEqualTo(a.wy, b.wy, f) && MathUtils::IsAlmostEqualTo(a.wz, b.wz, f) && MathUtils::IsAlmostEqualTo(a.w, b.w, f)); break; }
  sym_reached("xyzw");
}
// ---- matrices ----------------------------------------------------------------------------------------
static Matrix4d_C cm(Matrix4d& m) { Matrix4d_C r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i * 4 + j] = m.GetElement(i, j); return r; }
static void eqM(const char* w, const Matrix4d_C& a, const Matrix4d& b) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) eq((std::string(w) + idx(" element ", i, j)).c_str(), a.m[i * 4 + j], b.GetElement(i, j)); }
static Matrix4d symMat(const char* b, bool affine) { Matrix4d m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.SetElement(i, j, affine && i == 3 ? (j == 3 ? 1.0 : 0.0) : rv(idx(b, i, j), -4, 4)); return m; }
HARNESS(capi_mat) {
  int f = sym_param("f", 0); P3 x = symP3("x", 4), y = symP3("y", 4), z = symP3("z", 4), o = symP3("o", 4);
  if (f == 0) { eqM("identity", LNLIB_MATRIX_create(), Matrix4d()); eqM("from axes", LNLIB_MATRIX_create_from_xyz(c3(x), c3(y), c3(z), c3(o)), Matrix4d(x, y, z, o)); eqM("translation", LNLIB_MATRIX_create_translation(c3(x)), Matrix4d::CreateTranslation(x)); eqM("scale", LNLIB_MATRIX_create_scale(c3(x)), Matrix4d::CreateScale(x)); return; }
  if (f == 1) { double r = sym_angle("r", -3, 3); P3 ax(1, 2, 2); eqM("rotation", LNLIB_MATRIX_create_rotation(c3(ax), r), Matrix4d::CreateRotation(ax, r)); eqM("rotation at point", LNLIB_MATRIX_create_rotation_at_point(c3(o), c3(ax), r), Matrix4d::CreateRotationAtPoint(o, ax, r)); return; }
  if (f == 2) { P3 n(2, -1, 2); double d = rv("d", -4, 4); eqM("reflection", LNLIB_MATRIX_create_reflection(c3(n)), Matrix4d::CreateReflection(n)); eqM("reflection at distance", LNLIB_MATRIX_create_reflection_by_distance(c3(n), d), Matrix4d::CreateReflection(n, d)); return; }
  Matrix4d A = symMat("a", f == 4), B = symMat("b", f == 4); Matrix4d_C a = cm(A), b = cm(B);
  if (f == 3) {
    eq("basis x", LNLIB_MATRIX_get_basis_x(a), A.GetBasisX()); eq("basis y", LNLIB_MATRIX_get_basis_y(a), A.GetBasisY()); eq("basis z", LNLIB_MATRIX_get_basis_z(a), A.GetBasisZ()); eq("basis w", LNLIB_MATRIX_get_basis_w(a), A.GetBasisW());
    Matrix4d M = A; M.SetBasisX(x); eqM("set basis x", LNLIB_MATRIX_set_basis_x(a, c3(x)), M); M = A; M.SetBasisY(x); eqM("set basis y", LNLIB_MATRIX_set_basis_y(a, c3(x)), M); M = A; M.SetBasisZ(x); eqM("set basis z", LNLIB_MATRIX_set_basis_z(a, c3(x)), M); M = A; M.SetBasisW(x); eqM("set basis w", LNLIB_MATRIX_set_basis_w(a, c3(x)), M);
    eqM("product", LNLIB_MATRIX_multiply(a, b), A.Multiply(B)); eqM("transpose", LNLIB_MATRIX_get_transpose(a), A.GetTranspose()); eq("of vector", LNLIB_MATRIX_of_vector(a, c3(x)), A.OfVector(x)); }
  if (f == 4) { eq("of point", LNLIB_MATRIX_of_point(a, c3(x)), A.OfPoint(x)); eq("of vector", LNLIB_MATRIX_of_vector(a, c3(x)), A.OfVector(x)); truth("has reflection", LNLIB_MATRIX_has_reflection(a), A.HasReflection()); }
  if (f == 5) { Matrix4d D; double s = rv("s", -2, 2); D.SetElement(0, 0, s); D.SetElement(1, 3, rv("t", -2, 2)); Matrix4d_C d = cm(D); truth("is identity", LNLIB_MATRIX_is_identity(d), D.IsIdentity()); truth("is translation", LNLIB_MATRIX_is_translation(d), D.IsTranslation()); Matrix4d I; bool ok = D.GetInverse(I); Matrix4d_C i = cm(A); int r = LNLIB_MATRIX_get_inverse(d, &i); truth("inverse exists", r, ok); if (ok && r) eqM("inverse", i, I); eq("determinant", LNLIB_MATRIX_get_determinant(d), D.GetDeterminant()); eq("scale of a matrix", LNLIB_MATRIX_get_scale(d), D.GetScale()); }
  sym_reached("mat");
}
// ---- lines, planes, projections ----------------------------------------------------------------------
HARNESS(capi_geo) {
  int f = sym_param("f", 0); P3 a = symP3("a", 4);
  if (f == 0) { P3 d(rv("d", 1, 2), 0, 0), b = symP3("b", 4), e(0, rv("e", 1, 2), 0); double s = -7, t = -7, S = -7, T2 = -7; XYZ_C p{-7, -7, -7}; P3 P; int r = LNLIB_INTERSECT_compute_rays(c3(a), c3(d), c3(b), c3(e), &s, &t, &p); auto R = Intersection::ComputeRays(a, d, b, e, S, T2, P); same("kind of ray intersection", r, (int)R);
    if (R == CurveCurveIntersectionType::Intersecting) { eq("ray parameter 0", s, S); eq("ray parameter 1", t, T2); eq("intersection point", p, P); } }
  if (f == 1) { P3 n(0, 0, rv("n", 1, 2)), q = symP3("q", 4), l = symP3("l", 4), d(1, 1, rv("dz", 0.25, 1)); XYZ_C p{-7, -7, -7}; P3 P; int r = LNLIB_INTERSECT_compute_line_and_plane(c3(n), c3(q), c3(l), c3(d), &p); auto R = Intersection::ComputeLineAndPlane(n, q, l, d, P); same("kind of line and plane intersection", r, (int)R); if (R == LinePlaneIntersectionType::Intersecting) eq("point of line and plane", p, P); }
  if (f == 2) { P3 d(0, rv("d", 1, 2), 0), p = symP3("p", 4); eq("point to ray", LNLIB_PROJ_point_to_ray(c3(a), c3(d), c3(p)), Projection::PointToRay(a, d, p)); }
  if (f == 3) { P3 e = a + P3(rv("d", 1, 2), 0, 0), p = symP3("p", 4); XYZ_C q{-7, -7, -7}; P3 Q; int r = LNLIB_PROJ_point_to_line(c3(a), c3(e), c3(p), &q); bool R = Projection::PointToLine(a, e, p, Q); truth("projection onto a segment exists", r, R); if (R && r) eq("point to segment", q, Q); }
  if (f == 4) { P3 p(rv("x", -1, 1), rv("y", -1, 1), rv("z", -1, 0.5)); double R = rv("R", 1, 3); eq("stereographic", LNLIB_PROJ_stereographic(c3(p), R), Projection::Stereographic(p, R)); }
  sym_reached("geo");
}
// ---- knots, validation, polynomials, Bezier ----------------------------------------------------------
HARNESS(capi_knot) {
  int f = sym_param("f", 0); double a = rv("a", 0.25, 1), b = rv("b", 1.25, 2); VD U{0, 0, 0, a, b, b, 3, 3, 3}; VD pad = U; pad.push_back(MARK); int n = (int)U.size();
  if (f == 0) { double lo = rv("lo", -4, 0), hi = rv("hi", 1, 4); VD o(n + 1, MARK); LNLIB_KV_rescale(pad.data(), n, lo, hi, o.data()); VD R = KnotVectorUtils::Rescale(U, lo, hi); for (int i = 0; i < n; i++) eq("rescaled knot", o[i], R[i]); eq("nothing written beyond", o[n], MARK);
    same("continuity", LNLIB_KV_get_continuity(2, pad.data(), n, b), KnotVectorUtils::GetContinuity(2, U, b)); same("continuity", LNLIB_KV_get_continuity(2, pad.data(), n, a), KnotVectorUtils::GetContinuity(2, U, a)); truth("uniform", LNLIB_KV_is_uniform(pad.data(), n), KnotVectorUtils::IsUniform(U)); truth("uniform", LNLIB_KV_is_uniform(pad.data(), 3), KnotVectorUtils::IsUniform(VD(3, 0.0))); }
  if (f == 1) for (int in = 0; in < 2; in++) { auto m = in ? KnotVectorUtils::GetInternalKnotMultiplicityMap(U) : KnotVectorUtils::GetKnotMultiplicityMap(U); VD k(n + 1, MARK); std::vector<int> v(n + 1, -5); int s = -1; if (in) LNLIB_KV_get_internal_knot_multiplicity_map(pad.data(), n, &s, k.data(), v.data()); else LNLIB_KV_get_knot_multiplicity_map(pad.data(), n, &s, k.data(), v.data());
      if (!same("size of the multiplicity map", s, m.size())) continue; int i = 0; for (auto& e : m) { eq("knot of the map", k[i], e.first); same("multiplicity of the map", v[i], e.second); i++; } eq("nothing written beyond", k[i], MARK); }
  if (f == 2) { VD W{0, 1, rv("x", 0, 2), 2}; W.push_back(-1); truth("valid knot vector", LNLIB_VALID_is_valid_knotVector(W.data(), 4), ValidationUtils::IsValidKnotVector(VD(W.begin(), W.begin() + 4))); }
  if (f == 3) { int p = sym_choice("p", 0, 3), c = sym_choice("c", 1, 5), k = sym_choice("k", 4, 9); truth("valid Bezier", LNLIB_VALID_is_valid_bezier(p, c), ValidationUtils::IsValidBezier(p, c)); truth("valid B-spline", LNLIB_VALID_is_valid_bspline(p, k, c), ValidationUtils::IsValidBspline(p, k, c)); truth("valid NURBS", LNLIB_VALID_is_valid_nurbs(p, k, c), ValidationUtils::IsValidNurbs(p, k, c)); }
  if (f == 4) { VPW P; std::vector<XYZW_C> C; for (int i = 0; i < 3; i++) { P.push_back(PW(P3(4 - i, 3 * i, i), 1 + i)); C.push_back(c4(P.back())); } double x = rv("x", 0.25, 0.75); P.push_back(PW(20, 1, 2, x)); C.push_back(c4(P.back())); C.push_back({900, 900, 900, 0.001}); eq("curve modification tolerance", LNLIB_VALID_compute_curve_modify_tolerance(C.data(), 4), ValidationUtils::ComputeCurveModifyTolerance(P)); }
  sym_reached("knot");
}
static void eqFlat(const char* w, double* o, int r, int c, const VVD& M) { std::string s(w); if (!same((s + ": rows").c_str(), r, M.size()) || !same((s + ": columns").c_str(), c, M[0].size())) return; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) eq((s + idx(" ", i, j)).c_str(), o[i * c + j], M[i][j]); }
HARNESS(capi_poly) {
  int f = sym_param("f", 0); double t = rv("t", 0.01, 0.99);
  if (f == 0) { int d = sym_choice("d", 1, 4), i = sym_choice("i", 0, 4); sym_assume(i <= d); eq("Bernstein", LNLIB_POLY_bernstein(i, d, t), Polynomials::Bernstein(i, d, t)); VD o(d + 2, MARK), R = Polynomials::AllBernstein(d, t); LNLIB_POLY_all_bernstein(d, t, o.data()); for (int k = 0; k <= d; k++) eq("all Bernstein", o[k], R[k]); eq("nothing written beyond", o[d + 1], MARK); }
  if (f == 1) { VVD A; VD flat; for (int i = 0; i < 3; i++) { A.push_back({}); for (int j = 0; j < 4; j++) { double x = rv(idx("a", i, j), -8, 8); A[i].push_back(x); flat.push_back(x); } } UV uv(t, rv("s", 0, 1)); UV_C q = c2(uv); double o = 0; LNLIB_POLY_horner_uv(2, 3, flat.data(), &q, &o); eq("Horner in two variables", o, Polynomials::Horner(2, 3, A, uv)); eq("Horner", LNLIB_POLY_horner(3, flat.data(), 4, t), Polynomials::Horner(3, A[0], t)); }
  VD U{0, 0, 0, 0.25, 0.5, 0.5, 1, 1, 1}, pad = U; pad.push_back(0.125); int n = (int)U.size(), p = 2;
  if (f == 2) { Param q = pickParam("u", U, 2); same("knot span", LNLIB_POLY_get_knot_span_index(p, pad.data(), n, q.u), Polynomials::GetKnotSpanIndex(p, U, q.u)); same("knot multiplicity", LNLIB_POLY_get_knot_multiplicity(pad.data(), n, q.u), Polynomials::GetKnotMultiplicity(U, q.u)); }
  if (f == 3) { double u = rv("u", 0.26, 0.49); int s = 3; VD o(4, MARK), R(3); LNLIB_POLY_basis_functions(s, p, pad.data(), n, u, o.data()); Polynomials::BasisFunctions(s, p, U, u, R.data()); for (int i = 0; i < 3; i++) eq("basis function", o[i], R[i]); eq("nothing written beyond", o[3], MARK);
    double* d = nullptr; int r = -1, c = -1; LNLIB_POLY_basis_functions_derivatives(s, p, 2, pad.data(), n, u, &d, &r, &c); eqFlat("basis function derivatives", d, r, c, Polynomials::BasisFunctionsDerivatives(s, p, 2, U, u)); delete[] d;
    const int K = Constants::NURBSMaxDegree + 1; VD f1(2 * K + 1, MARK); double F[2][Constants::NURBSMaxDegree + 1]; LNLIB_POLY_basis_functions_first_derivative(s, p, pad.data(), n, u, f1.data()); Polynomials::BasisFunctionsFirstOrderDerivative(s, p, U, u, F); for (int i = 0; i < 2; i++) for (int j = 0; j < K; j++) eq("first derivatives of basis functions", f1[i * K + j], j <= p ? F[i][j] : 0.0); eq("nothing written beyond", f1[2 * K], MARK);
    int b = sym_choice("b", 0, 5); eq("one basis function", LNLIB_POLY_one_basis_function(b, p, pad.data(), n, u), Polynomials::OneBasisFunction(b, p, U, u)); double* g = nullptr; int sz = -1; LNLIB_POLY_one_basis_function_derivative(b, p, 1, pad.data(), n, u, &g, &sz); VD G = Polynomials::OneBasisFunctionDerivative(b, p, 1, U, u); if (same("number of derivatives", sz, G.size())) for (int i = 0; i < sz; i++) eq("derivative of one basis function", g[i], G[i]); delete[] g;
    d = nullptr; r = c = -1; LNLIB_POLY_all_basis_functions(s, p, pad.data(), n, u, &d, &r, &c); eqFlat("all basis functions", d, r, c, Polynomials::AllBasisFunctions(s, p, U, u)); delete[] d; }
  if (f == 4) { int d = sym_choice("d", 1, 4); double* m = nullptr; int r = -1, c = -1; LNLIB_POLY_bezier_to_power_matrix(d, &m, &r, &c); eqFlat("Bezier to power matrix", m, r, c, Polynomials::BezierToPowerMatrix(d)); if (m) delete[] m; }
  if (f == 5) { int d = sym_choice("d", 1, 3); VVD M = Polynomials::BezierToPowerMatrix(d); double s = rv("s", 1, 2); VD flat; for (auto& r : M) for (double& x : r) { x = x * s; flat.push_back(x); } double* m = nullptr; int r = -1, c = -1; LNLIB_POLY_power_to_bezier_matrix(d, flat.data(), &m, &r, &c); eqFlat("power to Bezier matrix", m, r, c, Polynomials::PowerToBezierMatrix(d, M)); if (m) delete[] m; }
  if (f == 6) { int d = 3; VP3 P; VPW Q; std::vector<XYZ_C> p3; std::vector<XYZW_C> p4; for (int i = 0; i <= d; i++) { P.push_back(symP3(idx("p", i))); Q.push_back(symPW(idx("q", i))); p3.push_back(c3(P[i])); p4.push_back(c4(Q[i])); } LN_BezierCurve<XYZ> B{d, P}; LN_BezierCurve<XYZW> W{d, Q};
    eq("Bezier point", LNLIB_BEZIERCUR_get_point_on_curve_by_bernstein(d, p3.data(), d + 1, t), BezierCurve::GetPointOnCurveByBernstein(B, t)); eq("Bezier point by de Casteljau", LNLIB_BEZIERCUR_get_point_on_curve_by_deCasteljau(d, p3.data(), d + 1, t), BezierCurve::GetPointOnCurveByDeCasteljau(B, t));
    eq("rational Bezier point", LNLIB_BEZIERCUR_get_rational_point_on_curve_by_bernstein(d, p4.data(), d + 1, t), BezierCurve::GetPointOnCurveByBernstein(W, t)); eq("rational Bezier point by de Casteljau", LNLIB_BEZIERCUR_get_rational_point_on_curve_by_deCasteljau(d, p4.data(), d + 1, t), BezierCurve::GetPointOnCurveByDeCasteljau(W, t)); }
  if (f == 7) { LN_BezierSurface<XYZ> S; LN_BezierSurface<XYZW> W; S.DegreeU = W.DegreeU = 1; S.DegreeV = W.DegreeV = 2; std::vector<XYZ_C> p3; std::vector<XYZW_C> p4; for (int i = 0; i < 2; i++) { S.ControlPoints.push_back({}); W.ControlPoints.push_back({}); for (int j = 0; j < 3; j++) { S.ControlPoints[i].push_back(symP3(idx("p", i, j))); W.ControlPoints[i].push_back(symPW(idx("q", i, j))); p3.push_back(c3(S.ControlPoints[i][j])); p4.push_back(c4(W.ControlPoints[i][j])); } } UV uv(t, rv("s", 0.01, 0.99));
    eq("Bezier surface point", LNLIB_BEZIERSURF_get_point_on_surface_by_deCasteljau(1, 2, p3.data(), 2, 3, c2(uv)), BezierSurface::GetPointOnSurfaceByDeCasteljau(S, uv)); eq("rational Bezier surface point", LNLIB_BEZIERSURF_get_rational_point_on_surface_by_deCasteljau(1, 2, p4.data(), 2, 3, c2(uv)), BezierSurface::GetPointOnSurfaceByDeCasteljau(W, uv)); }
  sym_reached("poly");
}
// ---- interpolation helpers ---------------------------------------------------------------------------
static VP3 zig(int n) { P3 o = symP3("o", 4); VP3 r; for (int i = 0; i < n; i++) r.push_back(o + P3(i * 2, (i * i) % 3, (i * 2) % 5)); return r; } // a fixed zigzag, moved anywhere
static void eqVec(const char* w, const VD& o, int n, const VD& R) { std::string s(w); if (!same((s + ": count").c_str(), n, R.size())) return; for (int i = 0; i < n; i++) eq(w, o[i], R[i]); eq((s + ": nothing written beyond").c_str(), o[n], MARK); }
static void eqVec(const char* w, const std::vector<XYZ_C>& o, int n, const VP3& R) { std::string s(w); if (!same((s + ": count").c_str(), n, R.size())) return; for (int i = 0; i < n; i++) eq(w, o[i], R[i]); eq((s + ": nothing written beyond").c_str(), o[n].x, MARK); }
static std::vector<XYZ_C> blank3(int n) { return std::vector<XYZ_C>(n, XYZ_C{MARK, MARK, MARK}); }
HARNESS(capi_interp) {
  int f = sym_param("f", 0); sym_approx_sqrt(1); VP3 P = zig(5); auto p = cv(P); p.push_back({50, 60, 70}); int n = 5, k = -1; VD o(40, MARK); auto o3 = blank3(40);
  if (f == 0) { eq("total chord length", LNLIB_INTERPOLATION_get_total_chord_length(p.data(), n), Interpolation::GetTotalChordLength(P)); LNLIB_INTERPOLATION_get_chord_parameterization(p.data(), n, o.data(), &k); eqVec("chord parameters", o, k, Interpolation::GetChordParameterization(P)); }
  if (f == 1) { eq("centripetal length", LNLIB_INTERPOLATION_get_centripetal_length(p.data(), n), Interpolation::GetCentripetalLength(P)); LNLIB_INTERPOLATION_get_centripetal_parameterization(p.data(), n, o.data(), &k); eqVec("centripetal parameters", o, k, Interpolation::GetCentripetalParameterization(P)); }
  if (f == 2) { VD t{0, rv("t1", 0.1, 0.2), rv("t2", 0.3, 0.4), rv("t3", 0.5, 0.6), 1}, q = t; q.push_back(7); LNLIB_INTERPOLATION_average_knot_vector(2, q.data(), 5, o.data(), &k); eqVec("averaged knots", o, k, Interpolation::AverageKnotVector(2, t)); VD o2(40, MARK); LNLIB_INTERPOLATION_compute_knot_vector(2, 4, q.data(), 5, o2.data(), &k); eqVec("fitting knots", o2, k, Interpolation::ComputeKnotVector(2, 4, t)); }
  if (f == 3) { std::vector<VP3> G; std::vector<XYZ_C> g; P3 e = symP3("e", 4); for (int i = 0; i < 3; i++) { G.push_back({}); for (int j = 0; j < 4; j++) { G[i].push_back(e + P3(i * 2 + (j == 2), j * j, 0)); g.push_back(c3(G[i][j])); } } VD ov(40, MARK), A, B; int m = -1; int r = LNLIB_INTERPOLATION_get_surface_mesh_parameterization(g.data(), 3, 4, o.data(), &k, ov.data(), &m); bool R = Interpolation::GetSurfaceMeshParameterization(G, A, B); truth("mesh parameters exist", r, R); eqVec("u mesh parameters", o, k, A); eqVec("v mesh parameters", ov, m, B); }
  if (f == 4) { LNLIB_INTERPOLATION_compute_tangent_by_three_points(p.data(), n, o3.data(), &k); eqVec("tangents by three points", o3, k, Interpolation::ComputeTangent(P)); }
  if (f == 5) { VP3 R; int r = LNLIB_INTERPOLATION_compute_tangent_by_five_points(p.data(), n, o3.data(), &k); bool ok = Interpolation::ComputeTangent(P, R); truth("tangents by five points exist", r, ok); eqVec("tangents by five points", o3, k, R); }
  if (f == 6) { P3 s = symP3("s", 4), m = s + P3(1, 2, 0), e = s + P3(3, 0, 0); double w = -1, W = -1; int r = LNLIB_INTERPOLATION_computer_weight_for_rational_quadratic_interpolation(c3(s), c3(m), c3(e), &w); bool R = Interpolation::ComputerWeightForRationalQuadraticInterpolation(s, m, e, W); truth("weight exists", r, R); if (R) eq("weight of the middle control point", w, W); }
  sym_reached("interp");
}
// ---- curves ------------------------------------------------------------------------------------------
#define CV(call, lib) { LN_NurbsCurve R; LN_NurbsCurve_C r{}; call; lib; eqCurve(#lib, r, R); }
#define CVB(call, lib) { LN_NurbsCurve R; LN_NurbsCurve_C r{}; int k = (call); bool K = (lib); truth("reported success of " #lib, k, K); if (K && k) eqCurve(#lib, r, R); }
HARNESS(capi_curve) {
  int f = sym_param("f", 0); sym_approx_sqrt(1); double t = rv("t", 0.26, 0.49); CB b, d; VD U{0, 0, 0, 0.25, 0.5, 1, 1, 1};
  LN_NurbsCurve c = mkCurve("c", 2, U, 0); for (size_t i = 0; i < c.ControlPoints.size(); i++) { H4 h = h4(c.ControlPoints[i]); c.ControlPoints[i] = PW(h.x, h.y, h.z, 1 + 0.25 * i); } fillCB(b, c);
  P3 o = f == 10 || f == 11 || f == 35 ? P3(1, 2, 3) : symP3("o", 4); LN_NurbsCurve g; g.Degree = 2; g.KnotVector = U; { static const double Z[5][4] = {{0, 0, 0, 1}, {1, 2, 0, 1}, {3, 2.5, 1, 1.5}, {5, 1, 2, 1}, {6, -1, 0, 2}}; for (auto& z : Z) g.ControlPoints.push_back(PW(o + P3(z[0], z[1], z[2]), z[3])); } // a fixed rational curve, moved anywhere
  auto o3 = blank3(600); VD od(600, MARK);
  switch (f) {
  case 0: eq("point on curve", LNLIB_NURBSCUR_get_point_on_curve(b.c, t), NurbsCurve::GetPointOnCurve(c, t)); eq("point by corner cut", LNLIB_NURBSCUR_get_point_on_curve_by_corner_cut(b.c, t), NurbsCurve::GetPointOnCurveByCornerCut(c, t)); { VP3 R = NurbsCurve::ComputeRationalCurveDerivatives(c, 2, t); int k = LNLIB_NURBSCUR_compute_rational_curve_derivatives(b.c, 2, t, o3.data()); eqVec("curve derivatives", o3, k, R); } break;
  case 1: fillCB(d, g); truth("derivative computable", LNLIB_NURBSCUR_can_compute_derivative(d.c, 0.5), NurbsCurve::CanComputeDerivative(g, 0.5)); truth("clamped", LNLIB_NURBSCUR_is_clamp(d.c), NurbsCurve::IsClamp(g)); truth("periodic", LNLIB_NURBSCUR_is_periodic(d.c), NurbsCurve::IsPeriodic(g)); break;
  case 2: CV(LNLIB_NURBSCUR_reverse(b.c, &r), NurbsCurve::Reverse(c, R)); CV(LNLIB_NURBSCUR_reparametrize(b.c, t, 3, &r), NurbsCurve::Reparametrize(c, t, 3, R)); CV(LNLIB_NURBSCUR_elevate_degree(b.c, 2, &r), NurbsCurve::ElevateDegree(c, 2, R)); CV(LNLIB_NURBSCUR_to_unclamp_curve(b.c, &r), NurbsCurve::ToUnclampCurve(c, R)); break;
  case 3: { LN_NurbsCurve R; LN_NurbsCurve_C r{}; int k = LNLIB_NURBSCUR_insert_knot(b.c, t, 2, &r), K = NurbsCurve::InsertKnot(c, t, 2, R); same("insertions reported", k, K); eqCurve("InsertKnot", r, R); break; }
  case 4: { VD x{t, 0.75, 0.75}, y = x; y.push_back(0.9); CV(LNLIB_NURBSCUR_refine_knot_vector(b.c, y.data(), 3, &r), NurbsCurve::RefineKnotVector(c, x, R)); break; }
  case 5: { auto R = NurbsCurve::DecomposeToBeziers(c); LN_NurbsCurve_C r[6] = {}; r[3].degree = -9; int k = LNLIB_NURBSCUR_decompose_to_beziers(b.c, r, 6); if (same("number of Bezier pieces", k, R.size())) for (int i = 0; i < k; i++) eqCurve("Bezier piece", r[i], R[i]); same("nothing written beyond the pieces", r[3].degree, -9);
      LN_NurbsCurve_C q[3] = {}; q[2].degree = -9; same("no more pieces than asked for", LNLIB_NURBSCUR_decompose_to_beziers(b.c, q, 2), 2); same("nothing written beyond the asked pieces", q[2].degree, -9); eqCurve("Bezier piece of a part", q[0], R[0]); break; }
  case 6: { LN_NurbsCurve L, R; LN_NurbsCurve_C l{}, r{}; int k = LNLIB_NURBSCUR_split_at(b.c, t, &l, &r); bool K = NurbsCurve::SplitAt(c, t, L, R); truth("split done", k, K); if (k && K) { eqCurve("left part", l, L); eqCurve("right part", r, R); } CV(LNLIB_NURBSCUR_extract(b.c, t, 0.75, &r), NurbsCurve::Extract(c, t, 0.75, R)); l.degree = -9; truth("split at the end refused", LNLIB_NURBSCUR_split_at(b.c, 1.0, &l, &r), false); same("refused split leaves the output", l.degree, -9); break; }
  case 7: { LN_NurbsCurve h = g; for (auto& q : h.ControlPoints) q = PW(q.ToXYZ(true) + P3(6, -1, 0) , 1); fillCB(b, g); fillCB(d, h); CVB(LNLIB_NURBSCUR_merge(b.c, d.c, &r), NurbsCurve::Merge(g, h, R)); break; }
  case 8: { Matrix4d M = symMat("m", true); CV(LNLIB_NURBSCUR_create_transformed(b.c, cm(M), &r), NurbsCurve::CreateTransformed(c, M, R)); break; }
  case 9: CV(LNLIB_NURBSCUR_reparametrize_linear_rational(b.c, 1, rv("be", 0, 0.5), 0.5, 2, &r), NurbsCurve::Reparametrize(c, 1, rv("be", 0, 0.5), 0.5, 2, R)); break;
  case 10: { LN_NurbsCurve h; NurbsCurve::InsertKnot(g, 0.375, 2, h); fillCB(d, h); CVB(LNLIB_NURBSCUR_remove_knot(d.c, 0.375, 1, &r), NurbsCurve::RemoveKnot(h, 0.375, 1, R)); break; }
  case 11: { LN_NurbsCurve h; h.Degree = 2; h.KnotVector = {0, 0, 0, 1, 1, 1}; h.ControlPoints = {g.ControlPoints[0], g.ControlPoints[1], g.ControlPoints[2]}; LN_NurbsCurve e; NurbsCurve::ElevateDegree(h, 1, e); fillCB(d, e); CVB(LNLIB_NURBSCUR_reduce_degree(d.c, &r), NurbsCurve::ReduceDegree(e, R)); break; }
  case 12: { LN_NurbsCurve h; NurbsCurve::InsertKnot(g, 0.375, 1, h); fillCB(d, h); CV(LNLIB_NURBSCUR_remove_excessive_knots(d.c, &r), NurbsCurve::RemoveExcessiveKnots(h, R)); eq("removal error bound", LNLIB_NURBSCUR_computer_remove_knot_error_bound(d.c, 4), NurbsCurve::ComputerRemoveKnotErrorBound(h, 4)); break; }
  case 13: fillCB(d, g); truth("closed", LNLIB_NURBSCUR_is_closed(d.c), NurbsCurve::IsClosed(g)); truth("linear", LNLIB_NURBSCUR_is_linear(d.c), NurbsCurve::IsLinear(g)); eq("curvature", LNLIB_NURBSCUR_curvature(d.c, 0.3), NurbsCurve::Curvature(g, 0.3)); eq("torsion", LNLIB_NURBSCUR_torsion(d.c, 0.3), NurbsCurve::Torsion(g, 0.3)); eq("normal", LNLIB_NURBSCUR_normal(d.c, CURVE_NORMAL_NORMAL, 0.3), NurbsCurve::Normal(g, CurveNormal::Normal, 0.3)); eq("binormal", LNLIB_NURBSCUR_normal(d.c, CURVE_NORMAL_BINORMAL, 0.3), NurbsCurve::Normal(g, CurveNormal::Binormal, 0.3)); break;
  case 14: { fillCB(d, g); int k = LNLIB_NURBSCUR_project_normal(d.c, o3.data()); eqVec("projected normals", o3, k, NurbsCurve::ProjectNormal(g)); break; }
  case 15: { LN_NurbsCurve l; NurbsCurve::CreateLine(o, o + P3(3, 4, 0), l); fillCB(d, l); truth("linear", LNLIB_NURBSCUR_is_linear(d.c), NurbsCurve::IsLinear(l)); for (int y = 0; y < 3; y++) { auto Y = (IntegratorType)y; auto y_ = (LNLIB_ENUMS_IntegratorType_C)y; eq("length", LNLIB_NURBSCUR_approximate_length(d.c, y_), NurbsCurve::ApproximateLength(l, Y)); eq("parameter by length", LNLIB_NURBSCUR_get_param_by_length(d.c, 2, y_), NurbsCurve::GetParamOnCurve(l, 2.0, Y)); VD e(40, MARK); int k = LNLIB_NURBSCUR_get_params_by_equal_length(d.c, 1.5, y_, e.data()); eqVec("parameters by equal length", e, k, NurbsCurve::GetParamsOnCurve(l, 1.5, Y)); } eq("parameter of a point", LNLIB_NURBSCUR_get_param_on_curve(d.c, c3(o + P3(1, 2, 0))), NurbsCurve::GetParamOnCurve(l, o + P3(1, 2, 0))); break; }
  case 16: { LN_NurbsCurve l; NurbsCurve::CreateLine(o, o + P3(3, 4, 0), l); l.ControlPoints.insert(l.ControlPoints.begin() + 1, PW(o + P3(1, 2, 2), 1)); l.KnotVector = {0, 0, 0.5, 1, 1}; g = l; fillCB(d, g); int k = LNLIB_NURBSCUR_tessellate(d.c, o3.data()); VP3 R = NurbsCurve::Tessellate(g); eqVec("tessellation", o3, k, R); break; }
  case 17: { fillCB(d, g); VP3 R; VD K; NurbsCurve::EquallyTessellate(g, R, K); int m = (int)R.size(); LNLIB_NURBSCUR_equally_tessellate(d.c, 600, o3.data(), od.data()); eqVec("equal tessellation points", o3, m, R); eqVec("equal tessellation parameters", od, m, K); auto p3 = blank3(600); VD pd(600, MARK); LNLIB_NURBSCUR_equally_tessellate(d.c, 3, p3.data(), pd.data()); for (int i = 0; i < 3; i++) eq("limited equal tessellation", p3[i], R[i]); eq("no more points than asked for", p3[3].x, MARK); eq("no more parameters than asked for", pd[3], MARK); break; }
  case 18: CV(r = LNLIB_NURBSCUR_create_line(c3(o), c3(o + P3(1, t, 2))), NurbsCurve::CreateLine(o, o + P3(1, t, 2), R)); break;
  case 19: { VP3 P, D; for (int i = 0; i < 4; i++) { P.push_back(o + P3(i * 2, (i * i) % 3, i % 2)); D.push_back(P3(rv(idx("d", i), 1, 2), 1, 0.5)); } auto p = cv(P), e = cv(D); CV(LNLIB_NURBSCUR_create_cubic_hermite(p.data(), 4, e.data(), 4, &r), NurbsCurve::CreateCubicHermite(P, D, R)); break; }
  case 20: { double R1 = rv("r1", 1, 2), R2 = rv("r2", 3, 4); P3 x(1, 0, 0), y(0, 0.6, 0.8); CVB(LNLIB_NURBSCUR_create_arc(c3(o), c3(x), c3(y), sym_pi(1, 4), sym_pi(1, 1), R1, R2, &r), NurbsCurve::CreateArc(o, x, y, sym_pi(1, 4), sym_pi(1, 1), R1, R2, R)); break; }
  case 21: { P3 s = o, st(0, 1, 0), e = o + P3(2, 0, 0), et(0, -1, 0), q = o + P3(1, rv("h", 0.5, 2), 0), Q; XYZ_C z{-7, -7, -7}; double w = -7, W = -7; int k = LNLIB_NURBSCUR_create_one_conic_arc(c3(s), c3(st), c3(e), c3(et), c3(q), &z, &w); bool K = NurbsCurve::CreateOneConicArc(s, st, e, et, q, Q, W); truth("conic arc exists", k, K); if (K) { eq("conic arc apex", z, Q); eq("conic arc weight", w, W); } break; }
  case 22: { P3 s = o, m = symP3("m"), e = symP3("e"), A, B, C; double w = rv("w", 0.5, 2), W = -7, w2 = -7; XYZ_C x, y, z; LNLIB_NURBSCUR_split_arc(c3(s), c3(m), w, c3(e), &x, &y, &z, &w2); NurbsCurve::SplitArc(s, m, w, e, A, B, C, W); eq("split arc start side", x, A); eq("split arc point", y, B); eq("split arc end side", z, C); eq("split arc weight", w2, W); break; }
  case 23: { P3 s = o, st(0, 1, 0), e = o + P3(2, 0, 0), et(1, -1, 0), q = o + P3(1, 0.5, 0); CVB(LNLIB_NURBSCUR_create_open_conic(c3(s), c3(st), c3(e), c3(et), c3(q), &r), NurbsCurve::CreateOpenConic(s, st, e, et, q, R)); break; }
  case 24: { VP3 P = zig(5); auto p = cv(P); p.push_back({50, 60, 70}); CV(LNLIB_NURBSCUR_global_interpolation(2, p.data(), 5, &r), NurbsCurve::GlobalInterpolation(2, P, R)); CVB(LNLIB_NURBSCUR_cubic_local_interpolation(p.data(), 5, &r), NurbsCurve::CubicLocalInterpolation(P, R)); break; }
  case 25: { VP3 P = zig(4), D; for (int i = 0; i < 4; i++) D.push_back(symP3(idx("d", i))); auto p = cv(P), e = cv(D); p.push_back({50, 60, 70}); double k = rv("k", 0.5, 2); CV(LNLIB_NURBSCUR_global_interpolation_with_tangents(3, p.data(), e.data(), k, 4, &r), NurbsCurve::GlobalInterpolation(3, P, D, k, R)); break; }
  case 26: { VP3 P = zig(6); auto p = cv(P); p.push_back({50, 60, 70}); CVB(LNLIB_NURBSCUR_least_squares_approximation(2, p.data(), 6, 4, &r), NurbsCurve::LeastSquaresApproximation(2, P, 4, R)); break; }
  case 27: { int m = sym_param("m", 4); VP3 P = zig(m), D{P3(1, 2, 0)}; VD pw(m, 1.0), tw{1.0}; for (int i = 0; i < m; i++) pw[i] = 1 + 0.5 * i; std::vector<int> ti{2}; auto p = cv(P), e = cv(D); CVB(LNLIB_NURBSCUR_weighted_constrained_least_squares(2, p.data(), pw.data(), e.data(), ti.data(), tw.data(), 1, 4, &r), NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, P, pw, D, ti, tw, 4, R)); break; }
  case 28: { fillCB(d, g); P3 dir = P3(0, 1, 0); double z = rv("z", 0.5, 1); CVB(LNLIB_NURBSCUR_control_point_reposition(d.c, 0.4, 2, c3(dir), z, &r), NurbsCurve::ControlPointReposition(g, 0.4, 2, dir, z, R)); CV(LNLIB_NURBSCUR_weight_modification(d.c, 0.4, 2, 0.25, &r), NurbsCurve::WeightModification(g, 0.4, 2, 0.25, R)); CVB(LNLIB_NURBSCUR_neighbor_weights_modification(d.c, 0.4, 1, 0.25, 0.75, &r), NurbsCurve::NeighborWeightsModification(g, 0.4, 1, 0.25, 0.75, R)); break; }
  case 29: { fillCB(d, g); VD w{0, 0.5, 1, 0.5, 0}, w2 = w; w2.push_back(9); P3 n(0, 0, 1); CV(LNLIB_NURBSCUR_warping(d.c, w2.data(), 5, 0.5, c3(n), 0.125, 0.875, &r), NurbsCurve::Warping(g, w, 0.5, n, 0.125, 0.875, R)); break; }
  case 30: { fillCB(d, g); P3 s = o + P3(-1, 4, 0), e = o + P3(8, 4, 0); CVB(LNLIB_NURBSCUR_flattening(d.c, c3(s), c3(e), 0.125, 0.875, &r), NurbsCurve::Flattening(g, s, e, 0.125, 0.875, R)); break; }
  case 31: { fillCB(d, g); P3 s = o + P3(3, 9, 0); CV(LNLIB_NURBSCUR_bending(d.c, 0.125, 0.875, c3(s), 2, 0.5, &r), NurbsCurve::Bending(g, 0.125, 0.875, s, 2, 0.5, R)); break; }
  case 32: { VD ps{0.375}; VP3 D{symP3("d")}; std::vector<int> ai{0}, ad{0}, fi{0, 4}; auto e = cv(D); CV(LNLIB_NURBSCUR_constraint_based_modification(b.c, ps.data(), e.data(), ai.data(), ad.data(), fi.data(), 1, 2, &r), NurbsCurve::ConstraintBasedModification(c, ps, D, ai, ad, fi, R)); break; }
  case 33: { LN_NurbsCurve h; h.Degree = 2; h.KnotVector = {0, 0.25, 0.5, 0.75, 1, 1.25, 1.5}; h.ControlPoints = {c.ControlPoints[0], c.ControlPoints[1], c.ControlPoints[2], c.ControlPoints[3]}; fillCB(d, h); CV(LNLIB_NURBSCUR_to_clamp_curve(d.c, &r), NurbsCurve::ToClampCurve(h, R)); break; }
  case 34: { LN_NurbsCurve h; NurbsCurve::CreateArc(o, P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(1, 2), 2, 2, h); fillCB(d, h); LN_ArcInfo A; LNLIB_ArcInfo_C a{}; int k = LNLIB_NURBSCUR_is_arc(d.c, &a); bool K = NurbsCurve::IsArc(h, A); truth("arc", k, K); if (K) { eq("arc radius", a.radius, A.Radius); eq("arc centre", a.center, A.Center); } CV(LNLIB_NURBSCUR_offset(d.c, 0.0, OFFSET_PIEGL_TILLER, &r), NurbsCurve::Offset(h, 0.0, OffsetType::PieglAndTiller, R)); break; }
  case 35: { LN_NurbsCurve h; NurbsCurve::InsertKnot(g, 0.375, 1, h); fillCB(d, h); VD ps{0.1, 0.3, 0.6, 0.9}, p2 = ps; p2.push_back(0.95); VD E(4); LN_NurbsCurve R; LN_NurbsCurve_C r{}; int k = -1; LNLIB_NURBSCUR_remove_knots_by_given_bound(d.c, p2.data(), 4, 0.01, od.data(), &k, &r); NurbsCurve::RemoveKnotsByGivenBound(h, ps, E, 0.01, R); eqVec("removal errors", od, k, E); eqCurve("RemoveKnotsByGivenBound", r, R); break; }
  case 36: { VP3 P; for (int i = 0; i < 4; i++) P.push_back(P3(i, 2 * i, 3 - i)); auto p = cv(P); p.push_back({50, 60, 70}); CV(LNLIB_NURBSCUR_global_approximation_by_error_bound(2, p.data(), 4, 0.01, &r), NurbsCurve::GlobalApproximationByErrorBound(2, P, 0.01, R)); break; }
  case 37: { VP3 P{o, o + P3(1, 1, 0), o + P3(2, 1.5, 0), o + P3(3, 1, 0), o + P3(4, 0, 0)}; auto p = cv(P); P3 a(1, 1, 0), e(1, -1, 0); VPW R; XYZW_C m[4]; int sz = -1; int k = LNLIB_NURBSCUR_fit_with_conic(p.data(), 5, 0, 4, c3(a), c3(e), 5, m, &sz); bool K = NurbsCurve::FitWithConic(P, 0, 4, a, e, 5, R); truth("conic fit found", k, K); if (same("conic fit control points", sz, R.size())) for (int i = 0; i < sz; i++) eq("conic fit control point", m[i], R[i]);
      VPW R2; k = LNLIB_NURBSCUR_fit_with_cubic(p.data(), 5, 1, 3, c3(a), c3(e), 5, m, &sz); K = NurbsCurve::FitWithCubic(P, 1, 3, a, e, 5, R2); truth("cubic fit found", k, K); if (same("cubic fit control points", sz, R2.size())) for (int i = 0; i < sz; i++) eq("cubic fit control point", m[i], R2[i]); break; }
  }
  sym_reached("curve");
}
// ---- surfaces ----------------------------------------------------------------------------------------
#define SV(call, lib) { LN_NurbsSurface R; LN_NurbsSurface_C r{}; call; lib; eqSurf(#lib, r, R); }
#define SVB(call, lib) { LN_NurbsSurface R; LN_NurbsSurface_C r{}; int k = (call); bool K = (lib); truth("reported success of " #lib, k, K); if (K && k) eqSurf(#lib, r, R); }
static std::vector<VPW> fixedNet(double x) { std::vector<VPW> r; for (int i = 0; i < 3; i++) { r.push_back({}); for (int j = 0; j < 3; j++) r[i].push_back(PW(P3(i * 2 + 0.25 * j + x, j * 1.5, (i * i + 2 * j) % 3), 1 + 0.25 * ((i + j) % 2))); } return r; }
HARNESS(capi_surf) {
  int f = sym_param("f", 0); sym_approx_sqrt(1); SB b, d; CB a1, a2, a3, a4; P3 o = symP3("o", 4); UV uv(rv("u", 0.26, 0.9), rv("v", 0.1, 0.9)); UV q(0.4, 0.3);
  LN_NurbsSurface s; s.DegreeU = 1; s.DegreeV = 2; s.KnotVectorU = {0, 0, 0.25, 1, 1}; s.KnotVectorV = {0, 0, 0, 1, 1, 1}; LN_NurbsSurface g = s; // s: symbolic net, 3x3 padded to 3 rows, 3 columns; g: fixed net moved anywhere
  for (int i = 0; i < 3; i++) { s.ControlPoints.push_back({}); g.ControlPoints.push_back({}); for (int j = 0; j < 3; j++) { double z = rv(idx("z", i, j), 1, 8); s.ControlPoints[i].push_back(PW(i * 2 + j * 0.5, j * 3 - i * 0.25, z, 1 + 0.25 * ((i + 2 * j) % 3))); g.ControlPoints[i].push_back(PW(o + P3(i * 2 + 0.25 * j, j * 1.5, (i * i + 2 * j) % 3), 1 + 0.25 * ((i + j) % 2))); } }
  LN_NurbsSurface w = s; w.DegreeV = 1; w.KnotVectorV = {0, 0, 0.5, 0.75, 1, 1}; for (int i = 0; i < 3; i++) w.ControlPoints[i].push_back(PW(i + 7, 3, 2 * i, 1)); // 3 rows, 4 columns
  fillSB(b, w); auto o3 = blank3(2000);
  switch (f) {
  case 0: eq("point on surface", LNLIB_NURBSSUR_get_point_on_surface(b.c, c2(q)), NurbsSurface::GetPointOnSurface(w, q)); { XYZ_C x, y, z; P3 X, Y, Z; LNLIB_NURBSSUR_compute_rational_surface_first_order_derivative(b.c, c2(q), &x, &y, &z); NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(w, q, X, Y, Z); eq("S", x, X); eq("Su", y, Y); eq("Sv", z, Z); } break;
  case 1: { fillSB(d, s); auto R = NurbsSurface::ComputeRationalSurfaceDerivatives(s, 2, q); VP3 flat; for (auto& r : R) for (auto& x : r) flat.push_back(x); int k = LNLIB_NURBSSUR_compute_rational_surface_derivatives(d.c, 2, c2(q), o3.data()); eqVec("surface derivatives", o3, k, flat); break; }
  case 2: { fillSB(d, g); for (int y = 0; y < 6; y++) eq("surface curvature", LNLIB_NURBSSUR_curvature(d.c, y, c2(q)), NurbsSurface::Curvature(g, (SurfaceCurvature)y, q)); eq("surface normal", LNLIB_NURBSSUR_Normal(d.c, c2(q)), NurbsSurface::Normal(g, q)); break; }
  case 3: SV(LNLIB_NURBSSUR_swap(b.c, &r), NurbsSurface::Swap(w, R)); for (int y = 0; y < 3; y++) SV(LNLIB_NURBSSUR_reverse(b.c, y, &r), NurbsSurface::Reverse(w, (SurfaceDirection)y, R)); SV(LNLIB_NURBSSUR_reparametrize(b.c, 1, 2, 3, uv.GetU() + 4, &r), NurbsSurface::Reparametrize(w, 1, 2, 3, uv.GetU() + 4, R)); break;
  case 4: for (int y = 0; y < 2; y++) { SV(LNLIB_NURBSSUR_insert_knot(b.c, uv.GetU(), 1, y, &r), NurbsSurface::InsertKnot(w, uv.GetU(), 1, y == 1, R)); } break;
  case 5: { VD x{0.375, 0.8}, y = x; y.push_back(0.9); for (int z = 0; z < 2; z++) SV(LNLIB_NURBSSUR_refine_knot_vector(b.c, y.data(), 2, z, &r), NurbsSurface::RefineKnotVector(w, x, z == 1, R)); for (int z = 0; z < 2; z++) SV(LNLIB_NURBSSUR_elevate_degree(b.c, 2, z, &r), NurbsSurface::ElevateDegree(w, 2, z == 1, R)); break; }
  case 6: { LN_NurbsSurface k = g; k.ControlPoints = fixedNet(1); g = k; } for (int z = 0; z < 2; z++) { LN_NurbsSurface h; NurbsSurface::InsertKnot(g, 0.625, 1, z == 1, h); fillSB(d, h); SV(LNLIB_NURBSSUR_remove_knot(d.c, 0.625, 1, z, &r), NurbsSurface::RemoveKnot(h, 0.625, 1, z == 1, R)); } break;
  case 7: { LN_NurbsSurface h = s, e; h.ControlPoints = fixedNet(1); h.KnotVectorU = {0, 0, 1, 1}; h.ControlPoints.pop_back(); NurbsSurface::ElevateDegree(h, 1, true, e); fillSB(d, e); SVB(LNLIB_NURBSSUR_reduce_degree(d.c, 1, &r), NurbsSurface::ReduceDegree(e, true, R)); NurbsSurface::ElevateDegree(h, 1, false, e); fillSB(d, e); SVB(LNLIB_NURBSSUR_reduce_degree(d.c, 0, &r), NurbsSurface::ReduceDegree(e, false, R)); break; }
  case 8: { auto R = NurbsSurface::DecomposeToBeziers(w); LN_NurbsSurface_C r[9] = {}; int m = (int)R.size(); sym_check("enough room", m < 9); r[m].degree_u = -9; int k = LNLIB_NURBSSUR_decompose_to_beziers(b.c, r, 9); if (same("number of patches", k, m)) for (int i = 0; i < m; i++) eqSurf("Bezier patch", r[i], R[i]); same("nothing written beyond the patches", r[m].degree_u, -9); r[2].degree_u = -9; same("no more patches than asked for", LNLIB_NURBSSUR_decompose_to_beziers(b.c, r, 2), 2); same("nothing written beyond the asked patches", r[2].degree_u, -9); eqSurf("Bezier patch of a part", r[0], R[0]); break; }
  case 9: { LN_NurbsSurface h = g; h.ControlPoints.back() = h.ControlPoints[0]; fillSB(d, h); for (int z = 0; z < 2; z++) truth("closed", LNLIB_NURBSSUR_is_closed(d.c, z), NurbsSurface::IsClosed(h, z == 1)); break; }
  case 10: { fillSB(d, g); VP3 R; std::vector<UV> K; NurbsSurface::EquallyTessellate(g, R, K); int m = 40; sym_check("enough points", (int)R.size() > m); std::vector<UV_C> u(2000, UV_C{MARK, MARK}); LNLIB_NURBSSUR_equally_tessellate(d.c, o3.data(), u.data(), m); for (int i = 0; i < m && i < (int)R.size(); i++) { eq("equal tessellation point", o3[i], R[i]); eq("equal tessellation parameters", u[i], K[i]); } eq("no more points than asked for", o3[m].x, MARK); eq("no more parameters than asked for", u[m].u, MARK); break; }
  case 11: { fillSB(d, g); P3 tg(1, 0.5, 0.25), pt = o + P3(2, 1, 5); UV R; UV_C r{-7, -7}; int k = LNLIB_NURBSSUR_get_uv_tangent(d.c, c2(q), c3(tg), &r); bool K = NurbsSurface::GetUVTangent(g, q, tg, R); truth("parameter tangent exists", k, K); if (K) eq("parameter tangent", r, R); break; }
  case 12: { P3 A = o, B = o + symP3("b"), C = o + symP3("c"), D = o + symP3("d"); SV(LNLIB_NURBSSUR_create_bilinear_surface(c3(A), c3(B), c3(C), c3(D), &r), NurbsSurface::CreateBilinearSurface(A, B, C, D, R)); break; }
  case 13: { double R1 = rv("r", 1, 2), h = rv("h", 3, 5); SVB(LNLIB_NURBSSUR_create_cylindrical_surface(c3(o), XYZ_C{1, 0, 0}, XYZ_C{0, 1, 0}, 0, sym_pi(1, 2), R1, h, &r), NurbsSurface::CreateCylindricalSurface(o, P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(1, 2), R1, h, R)); break; }
  case 14: case 15: case 16: case 17: case 18: case 19: {
    LN_NurbsCurve l, m; l.Degree = 2; l.KnotVector = {0, 0, 0, 1, 1, 1}; l.ControlPoints = {PW(o, 1), PW(o + P3(1, 2, 0), 2), PW(o + P3(3, 0, 0), 1)}; m.Degree = 1; m.KnotVector = {0, 0, 0.5, 1, 1}; m.ControlPoints = {PW(o + P3(0, 0, 4), 1), PW(o + P3(2, 1, 4), 1), PW(o + P3(3, 0, 5), 1)}; fillCB(a1, l); fillCB(a2, m);
    if (f == 14) SV(LNLIB_NURBSSUR_create_ruled_surface(a1.c, a2.c, &r), NurbsSurface::CreateRuledSurface(l, m, R));
    if (f == 15) { SVB(LNLIB_NURBSSUR_create_revolved_surface(c3(o + P3(0, -3, 0)), XYZ_C{2, 0, 0}, sym_pi(1, 2), a1.c, &r), NurbsSurface::CreateRevolvedSurface(o + P3(0, -3, 0), P3(2, 0, 0), sym_pi(1, 2), l, R)); }
    if (f == 16) SV(LNLIB_NURBSSUR_create_generalized_translational_sweep_surface(a1.c, a2.c, &r), NurbsSurface::CreateGeneralizedTranslationalSweepSurface(l, m, R));
    if (f == 17) { LN_NurbsCurve n = l; for (auto& x : n.ControlPoints) x = PW(x.ToXYZ(true) + P3(1, 0, 2), 1); fillCB(a3, n); LN_NurbsCurve_C z[3] = {a1.c, a3.c, a2.c}; SV(LNLIB_NURBSSUR_create_loft_surface(z, 3, &r, 0, nullptr, 0), NurbsSurface::CreateLoftSurface({l, n, m}, R)); SV(LNLIB_NURBSSUR_create_loft_surface(z, 3, &r, 1, nullptr, 0), NurbsSurface::CreateLoftSurface({l, n, m}, R, 1, {})); VD kn{0, 0.375, 1}; SV(LNLIB_NURBSSUR_create_loft_surface(z, 3, &r, 1, kn.data(), 3), NurbsSurface::CreateLoftSurface({l, n, m}, R, 1, kn)); }
    if (f == 18) { LN_NurbsCurve n; NurbsCurve::CreateLine(o + P3(0, 0, 1), o + P3(0, 0, 6), n); fillCB(a3, n); SV(LNLIB_NURBSSUR_create_sweep_surface(a1.c, a3.c, 4, &r), NurbsSurface::CreateSweepSurface(l, n, 4, R)); SV(LNLIB_NURBSSUR_create_sweep_surface_by_trajectory_degree(a1.c, a3.c, 4, 2, &r), NurbsSurface::CreateSweepSurface(l, n, 4, 2, R)); }
    if (f == 19) { SVB(LNLIB_NURBSSUR_create_swung_surface(a1.c, a2.c, 2, &r), NurbsSurface::CreateSwungSurface(l, m, 2, R)); } break; }
  case 20: { auto L = [&](P3 x, P3 y) { LN_NurbsCurve n; NurbsCurve::CreateLine(x, y, n); return n; }; P3 A = o, B = o + P3(4, 0, 1), C = o + P3(0, 3, 0), D = o + P3(5, 4, 2); LN_NurbsCurve l = L(C, A), r_ = L(B, D), bo = L(A, B), to = L(D, C); fillCB(a1, l); fillCB(a2, bo); fillCB(a3, r_); fillCB(a4, to); SV(LNLIB_NURBSSUR_create_coons_surface(a1.c, a2.c, a3.c, a4.c, &r), NurbsSurface::CreateCoonsSurface(l, bo, r_, to, R)); break; }
  case 21: { auto L = [&](VP3 P) { LN_NurbsCurve n; n.Degree = 1; for (size_t i = 0; i < P.size(); i++) n.ControlPoints.push_back(PW(P[i], 1)); n.KnotVector = P.size() == 2 ? VD{0, 0, 1, 1} : VD{0, 0, 0.5, 1, 1}; return n; }; auto G = [&](int i, int j) { return o + P3(2 * j, 3 * i, 0); }; std::vector<LN_NurbsCurve> us, vs; std::vector<VP3> X; std::vector<XYZ_C> x; for (int i = 0; i < 2; i++) us.push_back(L({G(i, 0), G(i, 1), G(i, 2)})); for (int j = 0; j < 3; j++) vs.push_back(L({G(0, j), G(1, j)})); for (int i = 0; i < 2; i++) { X.push_back({}); for (int j = 0; j < 3; j++) { X[i].push_back(G(i, j)); x.push_back(c3(G(i, j))); } }
    CB B[5]; LN_NurbsCurve_C u[2], v[3]; for (int i = 0; i < 2; i++) { fillCB(B[i], us[i]); u[i] = B[i].c; } for (int i = 0; i < 3; i++) { fillCB(B[2 + i], vs[i]); v[i] = B[2 + i].c; } SV(LNLIB_NURBSSUR_create_gordon_surface(u, 2, v, 3, x.data(), &r), NurbsSurface::CreateGordonSurface(us, vs, X, R)); break; }
  case 22: { double x = rv("x", 0.5, 2), y = rv("y", 0.5, 2), z = rv("zz", 0.5, 2); XYZW_C* R = nullptr; int rr = -1, cc = -1; LNLIB_NURBSSUR_non_uniform_scaling_query_size(b.P.data(), 3, 4, x, y, z, c3(o), &R, &rr, &cc); auto N = NurbsSurface::NonUniformScaling(w.ControlPoints, x, y, z, o); if (same("scaled rows", rr, N.size()) && same("scaled columns", cc, N[0].size())) for (int i = 0; i < rr; i++) for (int j = 0; j < cc; j++) eq("scaled control point", R[i * cc + j], N[i][j]); delete[] R; break; }
  case 23: { LN_NurbsCurve h; NurbsCurve::CreateArc(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(1, 2), rv("r", 1, 3), 2, h); NurbsCurve::CreateArc(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), 0, sym_pi(1, 2), 2, 2, h); fillCB(a1, h); SV(LNLIB_NURBSSUR_make_corner_fillet_surface(a1.c, &r), NurbsSurface::MakeCornerFilletSurface(h, R)); break; }
  case 24: case 25: case 26: { int R_ = f == 26 ? 5 : 3, C_ = f == 25 ? 3 : f == 26 ? 6 : 4; std::vector<VP3> G; std::vector<XYZ_C> x; for (int i = 0; i < R_; i++) { G.push_back({}); for (int j = 0; j < C_; j++) { G[i].push_back((f == 26 ? P3() : o) + P3(2 * i, 3 * j, (i * j + j) % 2)); x.push_back(c3(G[i][j])); } }
    if (f == 24) SV(LNLIB_NURBSSUR_global_interpolation(x.data(), R_, C_, 1, 2, &r), NurbsSurface::GlobalInterpolation(G, 1, 2, R));
    if (f == 25) SVB(LNLIB_NURBSSUR_bicubic_local_interpolation(x.data(), R_, C_, &r), NurbsSurface::BicubicLocalInterpolation(G, R));
    if (f == 26) SVB(LNLIB_NURBSSUR_global_approximation(x.data(), R_, C_, 1, 2, 3, 4, &r), NurbsSurface::GlobalApproximation(G, 1, 2, 3, 4, R)); break; }
  case 27: { LN_NurbsSurface h; NurbsSurface::CreateBilinearSurface(o, o + P3(0, 3, 0), o + P3(2, 0, 0), o + P3(2, 3, 0), h); fillSB(d, h); for (int y = 0; y < 3; y++) eq("area", LNLIB_NURBSSUR_approximate_area(d.c, y), NurbsSurface::ApproximateArea(h, (IntegratorType)y)); break; }
  case 30: { LN_NurbsSurface h; double x = rv("x", -4, 4); NurbsSurface::CreateBilinearSurface(P3(x, 0, 0), P3(x, 3, 0), P3(x + 2, 0, 0), P3(x + 2, 3, 0), h); fillSB(d, h); P3 p(x + 1, 1, 0); eq("parameters of a point", LNLIB_NURBSSUR_get_param_on_surface(d.c, c3(p)), NurbsSurface::GetParamOnSurface(h, p)); break; }
  case 28: case 29: { bool de = f == 29; LN_NurbsSurface h; NurbsSurface::CreateBilinearSurface(o, o + P3(0, 3, 1), o + P3(2, 0, 0), o + P3(2, 3, 0), h); fillSB(d, h); LN_Mesh M = NurbsSurface::Triangulate(h, 3, 2, de); LNLIB_Mesh_C m = LNLIB_NURBSSUR_triangulate(d.c, 3, 2, de); if (same("mesh vertices", m.vertices_count, M.Vertices.size())) for (int i = 0; i < m.vertices_count; i++) eq("mesh vertex", m.vertices[i], M.Vertices[i]);
    std::vector<int> F; for (auto& x : M.Faces) for (int y : x) F.push_back(y); if (same("mesh facet indices", m.facets_count, F.size())) for (size_t i = 0; i < F.size(); i++) same("mesh facet index", m.facets[i], F[i]); if (same("mesh parameters", m.uvs_count, M.UVs.size())) for (int i = 0; i < m.uvs_count; i++) eq("mesh parameter", m.uvs[i], M.UVs[i]); if (same("mesh normals", m.normals_count, M.Normals.size())) for (int i = 0; i < m.normals_count; i++) eq("mesh normal", m.normals[i], M.Normals[i]);
    auto ix = [&](const char* w, const std::vector<int>& lib, size_t cnt, const int* c, int n) { const std::vector<int>& E = !lib.empty() ? lib : F; if (lib.empty() && cnt != M.Vertices.size()) { same(w, n, 0); return; } if (same(w, n, E.size())) for (int i = 0; i < n; i++) same(w, c[i], E[i]); }; ix("mesh parameter indices", M.UVIndices, M.UVs.size(), m.uv_indices, m.uv_indices_count); ix("mesh normal indices", M.NormalIndices, M.Normals.size(), m.normal_indices, m.normal_indices_count); break; }
  }
  sym_reached("surf");
}

// larger data: degree 4 and 5, more control points than rows of the small nets
HARNESS(capi_big) {
  int f = sym_param("f", 0); CB b; SB d; double t = rv("t", 0.26, 0.49); LN_NurbsCurve c = mkCurve("c", 4, knotPattern(4, 10), 1); fillCB(b, c); LN_NurbsSurface s = mkSurf("s", 4, 5, knotPattern(4, 1), knotPattern(5, 3), 1); fillSB(d, s); UV q((s.KnotVectorU[0] + s.KnotVectorU.back()) * 0.375, s.KnotVectorV[0] * 0.25 + s.KnotVectorV.back() * 0.75); auto o3 = blank3(2000); double m = c.KnotVector[0] * 0.625 + c.KnotVector.back() * 0.375; (void)t;
  switch (f) {
  case 0: eq("point on curve", LNLIB_NURBSCUR_get_point_on_curve(b.c, m), NurbsCurve::GetPointOnCurve(c, m)); { VP3 R = NurbsCurve::ComputeRationalCurveDerivatives(c, 5, m); int k = LNLIB_NURBSCUR_compute_rational_curve_derivatives(b.c, 5, m, o3.data()); eqVec("curve derivatives", o3, k, R); } break;
  case 1: CV(LNLIB_NURBSCUR_reverse(b.c, &r), NurbsCurve::Reverse(c, R)); CV(LNLIB_NURBSCUR_elevate_degree(b.c, 3, &r), NurbsCurve::ElevateDegree(c, 3, R)); { LN_NurbsCurve R; LN_NurbsCurve_C r{}; int k = LNLIB_NURBSCUR_insert_knot(b.c, m, 3, &r), K = NurbsCurve::InsertKnot(c, m, 3, R); same("insertions reported", k, K); eqCurve("InsertKnot", r, R); } break;
  case 2: eq("point on surface", LNLIB_NURBSSUR_get_point_on_surface(d.c, c2(q)), NurbsSurface::GetPointOnSurface(s, q)); { auto R = NurbsSurface::ComputeRationalSurfaceDerivatives(s, 3, q); VP3 flat; for (auto& r : R) for (auto& x : r) flat.push_back(x); int k = LNLIB_NURBSSUR_compute_rational_surface_derivatives(d.c, 3, c2(q), o3.data()); eqVec("surface derivatives", o3, k, flat); } break;
  case 3: SV(LNLIB_NURBSSUR_swap(d.c, &r), NurbsSurface::Swap(s, R)); for (int y = 0; y < 3; y++) SV(LNLIB_NURBSSUR_reverse(d.c, y, &r), NurbsSurface::Reverse(s, (SurfaceDirection)y, R)); for (int y = 0; y < 2; y++) SV(LNLIB_NURBSSUR_elevate_degree(d.c, 1, y, &r), NurbsSurface::ElevateDegree(s, 1, y == 1, R)); break;
  case 4: { auto R = NurbsSurface::DecomposeToBeziers(s); std::vector<LN_NurbsSurface_C> r(40); int n = (int)R.size(); sym_check("enough room", n < 40); int k = LNLIB_NURBSSUR_decompose_to_beziers(d.c, r.data(), 40); if (same("number of patches", k, n)) for (int i = 0; i < n; i++) eqSurf("Bezier patch", r[i], R[i]); auto C = NurbsCurve::DecomposeToBeziers(c); std::vector<LN_NurbsCurve_C> g(40); k = LNLIB_NURBSCUR_decompose_to_beziers(b.c, g.data(), 40); if (same("number of pieces", k, C.size())) for (size_t i = 0; i < C.size(); i++) eqCurve("Bezier piece", g[i], C[i]); break; }
  }
  sym_reached("big");
}
