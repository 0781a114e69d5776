// Harness API of symtvm. The same harness source is compiled twice: instrumented (symbolic execution; the sym_*
// functions are provided by sym_rt.cpp) and natively (replay of a counterexample; provided by sym_native.cpp).
#pragma once
#include <cmath>
#include <cstdio>
extern "C"
{
  // A real in [lo,hi], a 32 bits integer in [lo,hi], a boolean: symbolic.
  double sym_real(const char * name, double lo, double hi);
  int sym_int(const char * name, int lo, int hi);
  bool sym_bool(const char * name);
  // A structural choice in [0,n): one path per value.
  int sym_choose(const char * name, int n);
  // Enumerate (by solver) the values of x on this path.
  int sym_conc(int x);
  void sym_assume(bool c);
  void sym_check(bool c, const char * msg);
  // a == b for all the values (up to rounding of the native arithmetic)
  void sym_check_eq(double a, double b, const char * msg);
  // a <= b for all the values (up to rounding of the native arithmetic)
  void sym_check_le(double a, double b, const char * msg);
  // a hint (to pair things before checking them): are a and b the same expression? No path is split.
  bool sym_same(double a, double b);
  // non-vacuity witness
  void sym_reach(const char * label);
  // 0: quick, 1: thorough
  int sym_tier();
  int sym_native();
  // end of the current path, without verdict (counted)
  [[noreturn]] void sym_cut(const char * why);
}
void harness();
