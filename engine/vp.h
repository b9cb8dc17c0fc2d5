// Harness API of the symbolic engine.  In the symbolic build these calls create SMT variables and proof
// obligations; in the native build they read a concrete assignment and evaluate the same obligations in doubles.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
double vp_real(const char* name) __attribute__((nothrow));                              // any real
double vp_real_in(const char* name, double lo, double hi) __attribute__((nothrow));     // any real in [lo,hi]
int vp_int(const char* name, int lo, int hi) __attribute__((nothrow));                  // any integer in [lo,hi]
bool vp_bool(const char* name) __attribute__((nothrow));
void vp_unit(const char* name, int n, double* out) __attribute__((nothrow));            // any unit vector of dimension n
void vp_assume(bool c) __attribute__((nothrow));                                        // restricts what follows
void vp_check(const char* name, bool c) __attribute__((nothrow));                       // obligation
void vp_check_eq(const char* name, double a, double b) __attribute__((nothrow));        // obligation: equal reals
void vp_check_le(const char* name, double a, double b) __attribute__((nothrow));        // obligation: a <= b
void vp_reach(const char* name) __attribute__((nothrow));                               // reachability witness (vacuity guard)
double vp_fresh(const char* name) __attribute__((nothrow));                             // stub result: arbitrary real
double vp_exact(double v) __attribute__((nothrow));                                      // constant whose arithmetic is carried out exactly
bool vp_is_native() __attribute__((nothrow));                                           // replay build?
double vp_peek(double v) __attribute__((nothrow));                                       // concrete value of this run (only to match things up)
int vp_concrete(int v) __attribute__((nothrow));                                        // fork on the value: one path per value
double vp_abstract(const char* fn, int nargs, const double* args, double value) __attribute__((nothrow));  // uninterpreted function of args
}
void vp_main();
