// Harness API.  The same harness source is compiled twice:
//  * symbolic build (IR-instrumented, linked with symrt.cpp): doubles are symbolic terms, every path is
//    explored, obligations are discharged by the SMT solver;
//  * native build (plain compiler, linked with nativert.cpp): inputs are read from a model file and the
//    obligations are evaluated in IEEE double arithmetic -- this is the replay of a counterexample.
#pragma once
#include <cstddef>
extern "C" {
double sym_real(const char* name, double lo, double hi);      // any real in [lo,hi]
int    sym_choice(const char* name, int lo, int hi);          // any integer in [lo,hi] (path fork)
void   sym_assume_lt(double a, double b);                     // path constraint a <  b
void   sym_assume_le(double a, double b);                     // path constraint a <= b
void   sym_assume_ne(double a, double b);
void   sym_assume(int cond);                                  // prune path when cond is 0
void   sym_check_eq(const char* what, double a, double b, double tol); // |a-b| <= tol*(1+|a|+|b|)
void   sym_check_le(const char* what, double a, double b, double tol); // a <= b + tol
void   sym_check(const char* what, int cond);                 // boolean obligation on this path
void   sym_fail(const char* what);                            // reaching this is a violation
void   sym_reached(const char* tag);                          // reachability witness (vacuity guard)
double sym_const(long num, long den);                         // exact rational constant
double sym_angle(const char* name, double lo, double hi);     // symbolic angle variable (radians)
double sym_pi(long num, long den);                            // num*pi/den
int    sym_is_symbolic(void);                                 // 1 in the symbolic build
int    sym_param(const char* key, int dflt);                  // shape parameter of this configuration
int    sym_tier(void);                                        // 0 quick, 1 thorough
void   sym_approx_sqrt(int on);                               // sqrt(constant) as a 400-bit rational instead of an exact algebraic number
void   sym_generic(int on);                                   // follow only the non-zero side of exact x==0 tests on data (a stated bound)
void   sym_describe(const char* key, double v);
void   sym_register(const char* name, void (*fn)());
}
#define HARNESS(n) static void n(); namespace { struct Reg_##n { Reg_##n() { sym_register(#n, n); } } reg_##n; } static void n()
