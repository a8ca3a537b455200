// Native replay runtime: the harness API over plain IEEE doubles, inputs taken from a model file.
//   replay --harness NAME --param k=v ... --model FILE
// Model file: lines "c:name=int" and "r:name=num/den".  Exit 0: every obligation held; 1: some obligation failed
// (lines "FAIL <label>"), 3: an assumption of the harness is not met by the model, 4: usage.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <gmpxx.h>
using std::string;
typedef void (*HFn)();
struct HReg { string name; HFn f; };
static std::vector<HReg>& regs() { static auto* r = new std::vector<HReg>; return *r; }
static std::map<string, string> g_r, g_c; static std::map<string, int> g_params; static int g_fail = 0, g_tier = 0, g_n = 0;
static bool g_trace = false;
static const double PI_ = 3.14159265358979323846;
static void fail(const char* w, double a, double b) { g_fail++; printf("FAIL\t%s\tgot %.17g expected %.17g\n", w, a, b); fflush(stdout); }
extern "C" {
void sym_register(const char* n, HFn f) { regs().push_back({n, f}); }
double sym_real(const char* n, double lo, double hi) {
  double v; if (lo == hi) v = lo; else { auto it = g_r.find(n); if (it == g_r.end()) v = lo + (hi - lo) * 0.37; else { mpq_class q(it->second); q.canonicalize(); v = q.get_d(); } }
  if (v < lo) v = lo; if (v > hi) v = hi; if (g_trace) printf("INPUT\t%s = %.17g\n", n, v); return v; }
double sym_angle(const char* n, double lo, double hi) { return sym_real(n, lo, hi); }
int sym_choice(const char* n, int lo, int hi) { (void)hi; auto it = g_c.find(n); int v = it == g_c.end() ? lo : atoi(it->second.c_str()); if (g_trace) printf("INPUT\t%s = %d\n", n, v); return v; }
static double slack(double a, double b) { return 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static void skip(const char* w) { printf("ASSUME\t%s\n", w); fflush(stdout); _Exit(g_fail ? 1 : 3); }
void sym_assume_lt(double a, double b) { if (!(a <= b + slack(a, b))) skip("lt"); }
void sym_assume_le(double a, double b) { if (!(a <= b + slack(a, b))) skip("le"); }
void sym_assume_ne(double a, double b) { if (a == b) skip("ne"); }
void sym_assume(int c) { if (!c) skip("cond"); }
void sym_check_eq(const char* w, double a, double b, double tol) { g_n++; if (a == b) return; if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)))) fail(w, a, b); }
void sym_check_le(const char* w, double a, double b, double tol) { g_n++; if (!(a <= b + tol + 1e-9 * (std::fabs(a) + std::fabs(b)))) fail(w, a, b); }
void sym_check(const char* w, int c) { g_n++; if (!c) fail(w, 0, 1); }
void sym_fail(const char* w) { fail(w, 0, 0); }
void sym_reached(const char*) {}
double sym_const(long n, long d) { return (double)n / (double)d; }
double sym_pi(long n, long d) { return PI_ * (double)n / (double)d; }
int sym_is_symbolic(void) { return 0; }
void sym_approx_sqrt(int) {}
void sym_generic(int) {}
int sym_param(const char* k, int d) { auto it = g_params.find(k); return it == g_params.end() ? d : it->second; }
int sym_tier(void) { return g_tier; }
void sym_describe(const char* k, double v) { if (g_trace) printf("NOTE\t%s = %.17g\n", k, v); }
}
int main(int argc, char** argv) {
  string hn, model;
  for (int i = 1; i < argc; i++) { string a = argv[i];
    if (a == "--harness") hn = argv[++i];
    else if (a == "--param") { string kv = argv[++i]; size_t e = kv.find('='); g_params[kv.substr(0, e)] = atoi(kv.c_str() + e + 1); }
    else if (a == "--model") model = argv[++i]; else if (a == "--tier") g_tier = atoi(argv[++i]); else if (a == "--trace") g_trace = true; }
  std::ifstream f(model); string l; while (std::getline(f, l)) { size_t e = l.find('='); if (e == string::npos || l.size() < 3) continue; if (l[0] == 'r') g_r[l.substr(2, e - 2)] = l.substr(e + 1); else if (l[0] == 'c') g_c[l.substr(2, e - 2)] = l.substr(e + 1); }
  for (auto& r : regs()) if (r.name == hn) {
    try { r.f(); } catch (std::exception& e) { printf("FAIL\tunexpected exception: %s\n", e.what()); g_fail++; } catch (...) { printf("FAIL\tunexpected exception\n"); g_fail++; }
    printf("DONE\t%d obligations, %d failed\n", g_n, g_fail); fflush(stdout); _Exit(g_fail ? 1 : 0); }
  fprintf(stderr, "no such harness\n"); return 4;
}
// deterministic entropy: the seed is a shape parameter of the configuration
#include <random>
extern "C" int sym_param(const char*, int);
std::random_device::result_type std::random_device::_M_getval() { return 4711u + (unsigned)sym_param("seed", 0); }
