// Native side of the harness API: replays a counterexample file against the natively compiled code.
#include "sym.h"
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <execinfo.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
// Released memory is overwritten and not reused, so that a use after release is visible.
#include <malloc.h>
static void release(void * p)
{
  static size_t kept = 0;
  if(!p) return;
  size_t n = malloc_usable_size(p);
  if(n > (1u << 20) || kept > (1u << 30))
  {
    free(p);
    return;
  }
  memset(p, 0xA5, n);
  kept += n;
}
void operator delete(void * p) noexcept { release(p); }
void operator delete[](void * p) noexcept { release(p); }
void operator delete(void * p, std::size_t) noexcept { release(p); }
void operator delete[](void * p, std::size_t) noexcept { release(p); }
static std::map<std::string, double> vals;
static std::map<std::string, int> cnt;
static int fails = 0;
static std::string key(const char * n)
{
  int k = cnt[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static double get(const char * n, double def)
{
  auto k = key(n);
  auto it = vals.find(k);
  if(it == vals.end()) return def;
  return it->second;
}
static void fail(const char * m)
{
  ++fails;
  printf("REPLAY-FAIL %s\n", m);
  fflush(stdout);
}
extern "C"
{
  double sym_real(const char * name, double lo, double hi) { return get(name, (lo <= 0 && hi >= 0) ? 0 : lo); }
  int sym_int(const char * name, int lo, int) { return (int)get(name, lo); }
  bool sym_bool(const char * name) { return get(name, 0) != 0; }
  int sym_choose(const char * name, int) { return (int)get(name, 0); }
  int sym_conc(int x) { return x; }
  void sym_assume(bool c)
  {
    if(!c)
    {
      printf("REPLAY-ASSUME-FALSE\n");
      fflush(stdout);
      _exit(fails ? 1 : 4);
    }
  }
  void sym_check(bool c, const char * msg)
  {
    if(!c) fail(msg);
  }
  void sym_check_eq(double a, double b, const char * msg)
  {
    double s = 1 + std::max(std::abs(a), std::abs(b));
    if(a == b) return;
    if(!(std::abs(a - b) <= 1e-7 * s))
    {
      fail(msg);
      printf("  got %.17g expected %.17g\n", a, b);
    }
  }
  bool sym_same(double a, double b) { return a == b || std::abs(a - b) <= 1e-7 * (1 + std::max(std::abs(a), std::abs(b))); }
  void sym_check_le(double a, double b, const char * msg)
  {
    double s = 1 + std::max(std::abs(a), std::abs(b));
    if(!(a - b <= 1e-7 * s))
    {
      fail(msg);
      printf("  got %.17g > %.17g\n", a, b);
    }
  }
  void sym_reach(const char *) {}
  int sym_tier() { return getenv("SYM_TIER") ? atoi(getenv("SYM_TIER")) : 0; }
  int sym_native() { return 1; }
  void sym_cut(const char *) { _exit(fails ? 1 : 0); }
}
static void onsig(int s)
{
  printf("REPLAY-FAIL crash: signal %d\n", s);
  fflush(stdout);
  _exit(1);
}
int main(int argc, char ** argv)
{
  if(argc > 1)
  {
    std::ifstream f(argv[1]);
    std::string line;
    while(std::getline(f, line))
    {
      if(line.empty() || line[0] == '#') continue;
      auto p = line.find_last_of(' '); // names may contain spaces
      if(p == std::string::npos) continue;
      vals[line.substr(0, p)] = strtod(line.c_str() + p, nullptr);
    }
  }
  for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
  alarm(60);
  try
  {
    harness();
  }
  catch(const std::exception & e)
  {
    std::string m = std::string("uncaught exception: ") + e.what();
    fail(m.c_str());
  }
  catch(...)
  {
    fail("uncaught exception");
  }
  if(fails) _exit(1);
  printf("REPLAY-OK\n");
  fflush(stdout);
  _exit(0);
}
