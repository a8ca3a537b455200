// Fourier, cosine and sine transforms (FFT.h) against their defining sums, and each inverse pair.
#include "common.h"
#include "FFT.h"
#include <cmath>
using namespace LNLib;
static VD data(int n) { VD a; for (int i = 0; i < n; i++) a.push_back(rv(idx("a", i), -1, 1)); return a; }
static double cs(double num, double den) { return (double)cosl(3.14159265358979323846264338327950288L * num / den); }
static double sn(double num, double den) { return (double)sinl(3.14159265358979323846264338327950288L * num / den); }
static void same(const char* l, double x, double y) { sym_check_eq(l, x, y, 1e-9); }
// kind 0 complex, 1 real, 2 cosine, 3 sine, 4 symmetric, 5 antisymmetric; back=1: the second case of the documentation; inv=1: transform and documented inverse
HARNESS(fft) {
  int kind = sym_param("kind", 0), n = sym_param("n", 4), back = sym_param("back", 0), inv = sym_param("inv", 0);
  if (kind == 0) { // n complex numbers
    VD a = data(2 * n), A = a; double s = back ? -1 : 1; int pad = sym_param("pad", 0); for (int i = 0; i < pad; i++) a.push_back(7 + i);
    cdft(2 * n, cs(1, n), s * sn(1, n), a);
    if (inv) { cdft(2 * n, cs(1, n), -s * sn(1, n), a); for (int j = 0; j < 2 * n; j++) same("complex transform and its inverse", a[j] / n, A[j]); }
    else for (int k = 0; k < n; k++) { double re = 0, im = 0; for (int j = 0; j < n; j++) { int q = (j * k) % n; double c = cs(2 * q, n), d = s * sn(2 * q, n); re = re + (A[2 * j] * c - A[2 * j + 1] * d); im = im + (A[2 * j] * d + A[2 * j + 1] * c); } same("complex transform, real part", a[2 * k], re); same("complex transform, imaginary part", a[2 * k + 1], im); }
    for (int i = 0; i < pad; i++) sym_check("values past the data length stay", a[2 * n + i] == 7 + i); sym_check("length stays", (int)a.size() == 2 * n + pad);
  } else if (kind == 1) {
    VD a = data(n), A = a; 
    if (inv) { rdft(n, cs(1, n), (back ? -1 : 1) * sn(1, n), a); rdft(n, cs(1, n), (back ? 1 : -1) * sn(1, n), a); for (int j = 0; j < n; j++) same("real transform and its inverse", a[j] * 2 / n, A[j]); }
    else if (!back) { rdft(n, cs(1, n), sn(1, n), a); for (int k = 0; k <= n / 2; k++) { double R = 0, I = 0; for (int j = 0; j < n; j++) { int q = (j * k) % n; R = R + A[j] * cs(2 * q, n); I = I + A[j] * sn(2 * q, n); } if (k < n / 2) same("real transform, cosine part", a[2 * k], R); else same("real transform, last cosine", a[1], R); if (k > 0 && k < n / 2) same("real transform, sine part", a[2 * k + 1], I); } }
    else { rdft(n, cs(1, n), -sn(1, n), a); for (int k = 0; k < n; k++) { double x = A[0] / 2 + A[1] / 2 * cs(k % 2, 1); for (int j = 1; j < n / 2; j++) { int q = (j * k) % n; x = x + A[2 * j] * cs(2 * q, n) + A[2 * j + 1] * sn(2 * q, n); } same("inverse real transform", a[k], x); } }
  } else if (kind == 2) {
    VD a = data(n), A = a; double c = cs(0.5, n), s = sn(0.5, n);
    if (inv) { ddct(n, c, -s, a); a[0] *= 0.5; ddct(n, c, s, a); for (int j = 0; j < n; j++) same("cosine transform and its inverse", a[j] * 2 / n, A[j]); }
    else { ddct(n, c, back ? -s : s, a); for (int k = 0; k < n; k++) { double x = 0; for (int j = 0; j < n; j++) x = x + A[j] * (back ? cs((j + 0.5) * k, n) : cs(j * (k + 0.5), n)); same("cosine transform", a[k], x); } }
  } else if (kind == 3) {
    VD a = data(n), A = a; double c = cs(0.5, n), s = sn(0.5, n);
    if (inv) { ddst(n, c, -s, a); a[0] *= 0.5; ddst(n, c, s, a); for (int j = 0; j < n; j++) same("sine transform and its inverse", a[j] * 2 / n, A[j]); }
    else if (!back) { ddst(n, c, s, a); for (int k = 0; k < n; k++) { double x = 0; for (int j = 1; j <= n; j++) x = x + A[j % n] * sn(j * (k + 0.5), n); same("inverse sine transform", a[k], x); } }
    else { ddst(n, c, -s, a); for (int k = 1; k <= n; k++) { double x = 0; for (int j = 0; j < n; j++) x = x + A[j] * sn((j + 0.5) * k, n); same("sine transform", a[k % n], x); } }
  } else if (kind == 4) {
    VD a = data(n + 1), A = a;
    if (inv) { for (int r = 0; r < 2; r++) { a[0] *= 0.5; a[n] *= 0.5; dfct(n, cs(1, n), sn(1, n), a); } for (int j = 0; j <= n; j++) same("symmetric transform and its inverse", a[j] * 2 / n, A[j]); }
    else { dfct(n, cs(1, n), sn(1, n), a); for (int k = 0; k <= n; k++) { double x = 0; for (int j = 0; j <= n; j++) x = x + A[j] * cs((j * k) % (2 * n), n); same("symmetric transform", a[k], x); } }
  } else {
    VD a = data(n), A = a;
    if (inv) { for (int r = 0; r < 2; r++) dfst(n, cs(1, n), sn(1, n), a); for (int j = 1; j < n; j++) same("antisymmetric transform and its inverse", a[j] * 2 / n, A[j]); }
    else { dfst(n, cs(1, n), sn(1, n), a); for (int k = 1; k < n; k++) { double x = 0; for (int j = 1; j < n; j++) x = x + A[j] * sn((j * k) % (2 * n), n); same("antisymmetric transform", a[k], x); } }
  }
  sym_reached("fft");
}
