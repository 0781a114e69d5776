// symtvm runtime: expression DAG, shadow memory, path exploration (fork at symbolic decisions), SMT queries (Z3).
#include "sym.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fcntl.h>
#include <gmpxx.h>
#include <map>
#include <malloc.h>
#include <memory>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <z3++.h>

typedef uint64_t u64;
typedef uint32_t u32;

// ------------------------------------------------------------------------------------------------ nodes
enum Op : uint8_t
{
  O_VAR, O_CONST, O_ADD, O_SUB, O_MUL, O_DIV, O_SQRT, O_ITE, O_EQ, O_LT, O_LE, // Real (LT, LE, EQ), ITE: all sorts
  O_NOT, O_AND, O_OR, O_XOR,                                                   // Bool
  O_BADD, O_BSUB, O_BMUL, O_BAND, O_BOR, O_BXOR, O_BSHL, O_BLSHR, O_BASHR, O_BUDIV, O_BSDIV, O_BUREM, O_BSREM,
  O_BULT, O_BULE, O_BSLT, O_BSLE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_AGG
};
enum Sort : uint8_t { S_BOOL, S_BV, S_REAL, S_AGG };

struct Bits
{
  std::vector<u64> w;
  void set(unsigned i)
  {
    if(w.size() <= i / 64) w.resize(i / 64 + 1);
    w[i / 64] |= 1ull << (i % 64);
  }
  bool meets(const Bits & o) const
  {
    size_t n = std::min(w.size(), o.w.size());
    for(size_t i = 0; i < n; ++i)
      if(w[i] & o.w[i]) return true;
    return false;
  }
  bool add(const Bits & o)
  {
    bool ch = false;
    if(w.size() < o.w.size()) w.resize(o.w.size());
    for(size_t i = 0; i < o.w.size(); ++i)
    {
      u64 n = w[i] | o.w[i];
      if(n != w[i])
      {
        w[i] = n;
        ch = true;
      }
    }
    return ch;
  }
};

struct Node
{
  Op op;
  Sort sort;
  uint8_t nonlin = 0;
  uint8_t mixed = 0; // contains BV and Real
  int width; // BV width
  u32 id;
  Node *a = nullptr, *b = nullptr, *c = nullptr;
  u64 cv = 0; // const BV / Bool value, EXTRACT low, VAR index
  mpq_class * q = nullptr; // const real
  double nf = 0; // non finite const (q == nullptr, sort REAL, op CONST)
  std::vector<Node *> kids; // AGG
  const Bits * vars = nullptr;
  Node * known = nullptr; // value known on this path
  u32 ep = 0; // evaluation epoch
  bool evok = false;
  mpq_class evq;
  u64 evi = 0;
  Z3_ast z = nullptr;
  Z3_ast zi = nullptr; // translation to linear integer arithmetic (value congruent to the bit-vector), when possible
  int8_t zst = 0; // 0: not tried, 1: done, 2: impossible
  int64_t il = 0, ih = 0; // bounds of the translation
};

static inline bool isNF(const Node * n) { return n->op == O_CONST && n->sort == S_REAL && !n->q; }

extern "C"
{
  Node * __sym_args[64];
  Node * __sym_ret;
  void * __sym_token;
}

// ------------------------------------------------------------------------------------------------ shared state
struct Tab
{
  static const int N = 256;
  std::atomic<int> n;
  std::atomic<int> lock;
  char s[N][160];
  std::atomic<u64> c[N];
  void add(const char * m)
  {
    while(lock.exchange(1)) usleep(10);
    int i = 0;
    for(; i < n; ++i)
      if(!strncmp(s[i], m, 159)) break;
    if(i == n && n < N)
    {
      strncpy(s[i], m, 159);
      c[i] = 0;
      ++n;
    }
    lock = 0;
    if(i < N) c[i]++;
  }
};
struct Shared
{
  sem_t tokens;
  std::atomic<long> live;
  std::atomic<u64> paths, forks, queries, qsat, qunsat, qunk, decisions, checks, checksId, checksConc, checksPoly, polyConfirmed, checksSolver, rounding, solver_us,
      maxdepth, outside, symops, procs, evaldecided;
  std::atomic<int> stop, nviol, abnormal, traces;
  Tab reach, incomplete, outsideT, viol, samples;
  std::atomic<u64> pcs[1 << 15]; // return addresses of the instrumented operations with symbolic operands
  double deadline;
  std::atomic<u64> violTimeMs;
};
static Shared * SH;
static int inRT = 0;
static bool asyncChild = true; // does this process own a token?
static const char * outdir = "/tmp";
static int tier = 0;
static double tolEq = 1e-6;
static std::set<std::string> knownMsgs;

static double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
struct Guard
{
  Guard() { ++inRT; }
  ~Guard() { --inRT; }
};

static void incomplete(const char * fmt, ...)
{
  char b[200];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  SH->incomplete.add(b);
}

[[noreturn]] static void endPath()
{
  if(asyncChild) sem_post(&SH->tokens);
  SH->live--;
  _exit(0);
}

// ------------------------------------------------------------------------------------------------ hash consing
struct KeyHash
{
  size_t operator()(const Node * n) const
  {
    size_t h = n->op * 1000003u + n->sort * 7 + n->width * 31;
    auto mix = [&](size_t x) { h = (h ^ (x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))) * 0x100000001b3ull; };
    mix(n->a ? n->a->id + 1 : 0);
    mix(n->b ? n->b->id + 1 : 0);
    mix(n->c ? n->c->id + 1 : 0);
    mix(n->cv);
    if(n->op == O_CONST && n->sort == S_REAL)
    {
      double d = n->q ? n->q->get_d() : n->nf;
      u64 x;
      memcpy(&x, &d, 8);
      mix(x);
    }
    for(auto k : n->kids) mix(k ? k->id + 1 : 0);
    return h;
  }
};
struct KeyEq
{
  bool operator()(const Node * x, const Node * y) const
  {
    if(x->op != y->op || x->sort != y->sort || x->width != y->width || x->a != y->a || x->b != y->b || x->c != y->c
       || x->cv != y->cv || x->kids != y->kids)
      return false;
    if(x->op == O_CONST && x->sort == S_REAL)
    {
      if(!x->q != !y->q) return false;
      if(x->q) return *x->q == *y->q;
      return memcmp(&x->nf, &y->nf, 8) == 0;
    }
    return true;
  }
};
static std::unordered_map<Node *, Node *, KeyHash, KeyEq> * table;
static std::vector<Node *> vars;
static u32 nextId = 1;
static u32 epoch = 1;

static const Bits * uni(const Bits * a, const Bits * b)
{
  if(!a) return b;
  if(!b || a == b) return a;
  Bits t = *a;
  if(!t.add(*b)) return a;
  Bits t2 = *b;
  if(!t2.add(*a)) return b;
  return new Bits(t);
}

static Node * intern(Node & k)
{
  auto it = table->find(&k);
  if(it != table->end()) return it->second;
  Node * n = new Node(k);
  n->id = nextId++;
  n->ep = 0;
  n->known = nullptr;
  n->z = nullptr;
  if(n->op != O_VAR)
  {
    const Bits * v = nullptr;
    for(Node * x : {n->a, n->b, n->c})
      if(x)
      {
        v = uni(v, x->vars);
        n->nonlin |= x->nonlin;
      }
    for(Node * x : n->kids)
      if(x) v = uni(v, x->vars);
    n->vars = v;
    if(n->op == O_MUL && n->a->op != O_CONST && n->b->op != O_CONST) n->nonlin = 1;
    if(n->op == O_DIV && n->b->op != O_CONST) n->nonlin = 1;
    if(n->op == O_SQRT) n->nonlin = 1;
  }
  (*table)[n] = n;
  return n;
}

static Node * cq(const mpq_class & v)
{
  Node k;
  k.op = O_CONST;
  k.sort = S_REAL;
  k.width = 0;
  mpq_class tmp = v;
  k.q = &tmp;
  auto it = table->find(&k);
  if(it != table->end()) return it->second;
  k.q = new mpq_class(v);
  return intern(k);
}
static Node * cd(double d)
{
  if(std::isfinite(d)) return cq(mpq_class(d));
  Node k;
  k.op = O_CONST;
  k.sort = S_REAL;
  k.width = 0;
  k.nf = std::isnan(d) ? NAN : d;
  return intern(k);
}
static u64 maskw(u64 v, int w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
static Node * cb(u64 v, int w)
{
  Node k;
  k.op = O_CONST;
  k.sort = S_BV;
  k.width = w;
  k.cv = maskw(v, w);
  return intern(k);
}
static Node * cbool(bool b)
{
  Node k;
  k.op = O_CONST;
  k.sort = S_BOOL;
  k.width = 1;
  k.cv = b;
  return intern(k);
}
static Node * mk(Op op, Sort s, int w, Node * a = nullptr, Node * b = nullptr, Node * c = nullptr, u64 cv = 0)
{
  Node k;
  k.op = op;
  k.sort = s;
  k.width = w;
  k.a = a;
  k.b = b;
  k.c = c;
  k.cv = cv;
  return intern(k);
}
static inline bool isC(const Node * n) { return n->op == O_CONST; }
static bool isZeroC(const Node * n) { return n->op == O_CONST && n->q && *n->q == 0; }
static bool isOneC(const Node * n) { return n->op == O_CONST && n->q && *n->q == 1; }

static Node * R(Node * n) // resolve
{
  while(n && n->known) n = n->known;
  return n;
}

// --- Bool
static Node * mkNot(Node * a)
{
  a = R(a);
  if(isC(a)) return cbool(!a->cv);
  if(a->op == O_NOT) return a->a;
  return mk(O_NOT, S_BOOL, 1, a);
}
static Node * mkBool2(Op op, Node * a, Node * b)
{
  a = R(a);
  b = R(b);
  if(isC(a)) std::swap(a, b);
  if(isC(b))
  {
    bool v = b->cv;
    if(op == O_AND) return v ? a : cbool(false);
    if(op == O_OR) return v ? cbool(true) : a;
    return v ? mkNot(a) : a;
  }
  if(a == b) return op == O_XOR ? cbool(false) : a;
  if(a->id > b->id) std::swap(a, b);
  return mk(op, S_BOOL, 1, a, b);
}
// --- Real
static Node * rAdd(Node *, Node *);
static Node * rMul(Node *, Node *);
static Node * rNeg(Node * a) { return rMul(cq(-1), a); }
static Node * rAdd(Node * a, Node * b)
{
  if(isC(a)) std::swap(a, b);
  if(isC(b))
  {
    if(isC(a)) return cq(*a->q + *b->q);
    if(*b->q == 0) return a;
  }
  if(a->id > b->id) std::swap(a, b);
  return mk(O_ADD, S_REAL, 0, a, b);
}
static Node * rSub(Node * a, Node * b)
{
  if(isC(a) && isC(b)) return cq(*a->q - *b->q);
  if(isZeroC(b)) return a;
  if(a == b) return cq(0);
  if(isZeroC(a)) return rNeg(b);
  return mk(O_SUB, S_REAL, 0, a, b);
}
static Node * rMul(Node * a, Node * b)
{
  if(isC(a)) std::swap(a, b);
  if(isC(b))
  {
    if(isC(a)) return cq(*a->q * *b->q);
    if(*b->q == 0) return b;
    if(*b->q == 1) return a;
    if(a->op == O_MUL && isC(a->b)) return rMul(a->a, cq(*a->b->q * *b->q));
    return mk(O_MUL, S_REAL, 0, a, b);
  }
  if(a->id > b->id) std::swap(a, b);
  return mk(O_MUL, S_REAL, 0, a, b);
}
static Node * rCmp(Op op, Node * a, Node * b)
{
  if(isC(a) && isC(b))
  {
    int c = cmp(*a->q, *b->q);
    return cbool(op == O_EQ ? c == 0 : op == O_LT ? c < 0 : c <= 0);
  }
  if(a == b) return cbool(op != O_LT);
  if(op == O_EQ && a->id > b->id) std::swap(a, b);
  return mk(op, S_BOOL, 1, a, b);
}
static Node * mkIte(Node * c, Node * t, Node * f)
{
  if(isC(c)) return c->cv ? t : f;
  if(t == f) return t;
  if(c->op == O_NOT)
  {
    c = c->a;
    std::swap(t, f);
  }
  if(t->sort == S_BOOL)
  {
    if(isC(t) && isC(f)) return t->cv ? c : mkNot(c);
    if(isC(t)) return t->cv ? mkBool2(O_OR, c, f) : mkBool2(O_AND, mkNot(c), f);
    if(isC(f)) return f->cv ? mkBool2(O_OR, mkNot(c), t) : mkBool2(O_AND, c, t);
  }
  if(t->op == O_ITE && t->a == c) t = t->b;
  if(f->op == O_ITE && f->a == c) f = f->c;
  if(t == f) return t;
  return mk(O_ITE, t->sort, t->width, c, t, f);
}
// --- BV
static int64_t sx(u64 v, int w)
{
  if(w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}
static u64 foldB(Op op, int w, u64 x, u64 y)
{
  switch(op)
  {
    case O_BADD: return maskw(x + y, w);
    case O_BSUB: return maskw(x - y, w);
    case O_BMUL: return maskw(x * y, w);
    case O_BAND: return x & y;
    case O_BOR: return x | y;
    case O_BXOR: return x ^ y;
    case O_BSHL: return y >= (u64)w ? 0 : maskw(x << y, w);
    case O_BLSHR: return y >= (u64)w ? 0 : x >> y;
    case O_BASHR: return maskw((u64)(sx(x, w) >> std::min<u64>(y, 63)), w);
    case O_BUDIV: return y ? x / y : maskw(~0ull, w);
    case O_BUREM: return y ? x % y : x;
    case O_BSDIV: return y ? (sx(y, w) == -1 ? maskw(0 - x, w) : maskw((u64)(sx(x, w) / sx(y, w)), w)) : 0;
    case O_BSREM: return y ? (sx(y, w) == -1 ? 0 : maskw((u64)(sx(x, w) % sx(y, w)), w)) : x;
    default: abort();
  }
}
static Node * bCmp(Op op, Node * a, Node * b);
static Node * bBin(Op op, Node * a, Node * b)
{
  int w = a->width;
  if(isC(a) && isC(b)) return cb(foldB(op, w, a->cv, b->cv), w);
  bool comm = op == O_BADD || op == O_BMUL || op == O_BAND || op == O_BOR || op == O_BXOR;
  if(comm && isC(a)) std::swap(a, b);
  if(isC(b))
  {
    u64 v = b->cv;
    if(v == 0 && (op == O_BADD || op == O_BSUB || op == O_BOR || op == O_BXOR || op == O_BSHL || op == O_BLSHR || op == O_BASHR))
      return a;
    if(v == 0 && (op == O_BMUL || op == O_BAND)) return b;
    if(v == 1 && (op == O_BMUL || op == O_BUDIV || op == O_BSDIV)) return a;
    if(op == O_BAND && v == maskw(~0ull, w)) return a;
    if(op == O_BSUB) return bBin(O_BADD, a, cb(0 - v, w));
    if(op == O_BADD && a->op == O_BADD && isC(a->b)) return bBin(O_BADD, a->a, cb(a->b->cv + v, w));
    // push through ite of constants
    if(a->op == O_ITE && isC(a->b) && isC(a->c))
      return mkIte(a->a, cb(foldB(op, w, a->b->cv, v), w), cb(foldB(op, w, a->c->cv, v), w));
    if(op == O_BAND && a->op == O_ZEXT)
    {
      int n = a->a->width;
      if(maskw(v, n) == maskw(~0ull, n)) return a;
    }
  }
  if(a == b)
  {
    if(op == O_BSUB || op == O_BXOR) return cb(0, w);
    if(op == O_BAND || op == O_BOR) return a;
  }
  // both ite on the same condition
  if(a->op == O_ITE && b->op == O_ITE && a->a == b->a && isC(a->b) && isC(a->c) && isC(b->b) && isC(b->c))
    return mkIte(a->a, cb(foldB(op, w, a->b->cv, b->b->cv), w), cb(foldB(op, w, a->c->cv, b->c->cv), w));
  if(op == O_BAND || op == O_BOR || op == O_BXOR)
  {
    // boolean valued ite
    auto bl = [&](Node * n) { return n->op == O_ITE && isC(n->b) && isC(n->c) && n->b->cv == 1 && n->c->cv == 0; };
    if(bl(a) && bl(b))
      return mkIte(mkBool2(op == O_BAND ? O_AND : op == O_BOR ? O_OR : O_XOR, a->a, b->a), cb(1, w), cb(0, w));
  }
  if(comm && a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(op, S_BV, w, a, b);
}
static bool foldC(Op op, int w, u64 x, u64 y)
{
  switch(op)
  {
    case O_EQ: return x == y;
    case O_BULT: return x < y;
    case O_BULE: return x <= y;
    case O_BSLT: return sx(x, w) < sx(y, w);
    case O_BSLE: return sx(x, w) <= sx(y, w);
    default: abort();
  }
}
static Node * bCmp(Op op, Node * a, Node * b)
{
  int w = a->width;
  if(isC(a) && isC(b)) return cbool(foldC(op, w, a->cv, b->cv));
  if(a == b) return cbool(op == O_EQ || op == O_BULE || op == O_BSLE);
  if(a->op == O_ITE && isC(a->b) && isC(a->c) && isC(b))
    return mkIte(a->a, cbool(foldC(op, w, a->b->cv, b->cv)), cbool(foldC(op, w, a->c->cv, b->cv)));
  if(b->op == O_ITE && isC(b->b) && isC(b->c) && isC(a))
    return mkIte(b->a, cbool(foldC(op, w, a->cv, b->b->cv)), cbool(foldC(op, w, a->cv, b->c->cv)));
  if(op == O_BULT && isC(b) && b->cv == 0) return cbool(false);
  if(op == O_BULT && isC(b) && b->cv == 1) return bCmp(O_EQ, a, cb(0, w));
  if(op == O_EQ && isC(a)) std::swap(a, b);
  if(op == O_EQ && isC(b) && a->op == O_BADD && isC(a->b)) return bCmp(O_EQ, a->a, cb(b->cv - a->b->cv, w));
  if(op == O_EQ && isC(b) && (a->op == O_ZEXT || a->op == O_SEXT))
  {
    int n = a->a->width;
    u64 lo = maskw(b->cv, n);
    u64 back = a->op == O_ZEXT ? lo : maskw((u64)sx(lo, n), w);
    if(back != b->cv) return cbool(false);
    return bCmp(O_EQ, a->a, cb(lo, n));
  }
  if(op == O_EQ && a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(op, S_BOOL, 1, a, b);
}
static Node * bExt(bool s, Node * a, int w)
{
  if(a->sort == S_BOOL) return mkIte(a, cb(s ? ~0ull : 1, w), cb(0, w));
  if(a->width == w) return a;
  if(isC(a)) return cb(s ? (u64)sx(a->cv, a->width) : a->cv, w);
  if(a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, bExt(s, a->b, w), bExt(s, a->c, w));
  if(!s && a->op == O_ZEXT) return bExt(false, a->a, w);
  return mk(s ? O_SEXT : O_ZEXT, S_BV, w, a);
}
static Node * bExtract(Node * a, int lo, int w)
{
  if(a->width == w && lo == 0) return a;
  if(isC(a)) return cb(a->cv >> lo, w);
  if(a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, bExtract(a->b, lo, w), bExtract(a->c, lo, w));
  if(a->op == O_EXTRACT) return bExtract(a->a, lo + (int)a->cv, w);
  if(a->op == O_CONCAT) // a: high, b: low
  {
    int lw = a->b->width;
    if(lo >= lw) return bExtract(a->a, lo - lw, w);
    if(lo + w <= lw) return bExtract(a->b, lo, w);
  }
  if((a->op == O_ZEXT || a->op == O_SEXT))
  {
    int n = a->a->width;
    if(lo + w <= n) return bExtract(a->a, lo, w);
    if(lo == 0 && w > n) return bExt(a->op == O_SEXT, a->a, w);
    if(lo >= n && a->op == O_ZEXT) return cb(0, w);
  }
  if(lo == 0 && (a->op == O_BADD || a->op == O_BSUB || a->op == O_BMUL || a->op == O_BAND || a->op == O_BOR || a->op == O_BXOR))
    return bBin(a->op, bExtract(a->a, 0, w), bExtract(a->b, 0, w));
  return mk(O_EXTRACT, S_BV, w, a, nullptr, nullptr, (u64)lo);
}
static Node * bConcat(Node * hi, Node * lo)
{
  int w = hi->width + lo->width;
  if(isC(hi) && isC(lo)) return cb((hi->cv << lo->width) | lo->cv, w);
  if(isC(hi) && hi->cv == 0) return bExt(false, lo, w);
  if(hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->cv == lo->cv + (u64)lo->width)
    return bExtract(lo->a, (int)lo->cv, w);
  if(hi->op == O_EXTRACT && hi->a == lo && hi->cv == (u64)lo->width) return bExtract(lo, 0, w);
  return mk(O_CONCAT, S_BV, w, hi, lo);
}

// ------------------------------------------------------------------------------------------------ model & evaluation
struct VarInfo
{
  Node * n;
  std::string name;
  mpq_class q;
  u64 i = 0;
  bool exact = true;
  Node * sqrtOf = nullptr;
  bool bounded = false; // declared bounds of an integer
  int64_t lo = 0, hi = 0;
};
static std::vector<VarInfo> * VI;
static std::vector<Node *> * PC; // path condition
static std::vector<std::pair<std::string, long>> * choices; // structural choices

static bool isSquare(const mpq_class & q, mpq_class & r)
{
  if(q < 0) return false;
  if(!mpz_perfect_square_p(q.get_num().get_mpz_t()) || !mpz_perfect_square_p(q.get_den().get_mpz_t())) return false;
  mpz_class a = sqrt(q.get_num()), b = sqrt(q.get_den());
  r = mpq_class(a, b);
  return true;
}

static bool ev(Node * n)
{
  if(n->ep == epoch) return n->evok;
  bool ok = true;
  switch(n->op)
  {
    case O_VAR:
    {
      auto & v = (*VI)[n->cv];
      if(v.sqrtOf)
      {
        ok = ev(v.sqrtOf) && isSquare(v.sqrtOf->evq, n->evq);
      }
      else if(n->sort == S_REAL)
      {
        ok = v.exact;
        n->evq = v.q;
      }
      else
        n->evi = v.i;
      break;
    }
    case O_CONST:
      if(n->sort == S_REAL)
      {
        if(n->q)
          n->evq = *n->q;
        else
          ok = false;
      }
      else
        n->evi = n->cv;
      break;
    case O_ADD:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evq = n->a->evq + n->b->evq;
      break;
    case O_SUB:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evq = n->a->evq - n->b->evq;
      break;
    case O_MUL:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evq = n->a->evq * n->b->evq;
      break;
    case O_DIV:
      ok = ev(n->a) && ev(n->b) && n->b->evq != 0;
      if(ok) n->evq = n->a->evq / n->b->evq;
      break;
    case O_ITE:
      ok = ev(n->a);
      if(ok)
      {
        Node * k = n->a->evi ? n->b : n->c;
        ok = ev(k);
        if(ok)
        {
          n->evi = k->evi;
          if(n->sort == S_REAL) n->evq = k->evq;
        }
      }
      break;
    case O_EQ:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evi = n->a->sort == S_REAL ? (n->a->evq == n->b->evq) : (n->a->evi == n->b->evi);
      break;
    case O_LT:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evi = n->a->evq < n->b->evq;
      break;
    case O_LE:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evi = n->a->evq <= n->b->evq;
      break;
    case O_NOT:
      ok = ev(n->a);
      if(ok) n->evi = !n->a->evi;
      break;
    case O_AND:
    {
      bool x = ev(n->a), y = ev(n->b);
      if((x && !n->a->evi) || (y && !n->b->evi))
        n->evi = 0;
      else if(x && y)
        n->evi = 1;
      else
        ok = false;
      break;
    }
    case O_OR:
    {
      bool x = ev(n->a), y = ev(n->b);
      if((x && n->a->evi) || (y && n->b->evi))
        n->evi = 1;
      else if(x && y)
        n->evi = 0;
      else
        ok = false;
      break;
    }
    case O_XOR:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evi = n->a->evi ^ n->b->evi;
      break;
    case O_BULT:
    case O_BULE:
    case O_BSLT:
    case O_BSLE:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evi = foldC(n->op, n->a->width, n->a->evi, n->b->evi);
      break;
    case O_ZEXT:
      ok = ev(n->a);
      n->evi = n->a->evi;
      break;
    case O_SEXT:
      ok = ev(n->a);
      n->evi = maskw((u64)sx(n->a->evi, n->a->width), n->width);
      break;
    case O_EXTRACT:
      ok = ev(n->a);
      n->evi = maskw(n->a->evi >> n->cv, n->width);
      break;
    case O_CONCAT:
      ok = ev(n->a) && ev(n->b);
      n->evi = (n->a->evi << n->b->width) | n->b->evi;
      break;
    default:
      ok = ev(n->a) && ev(n->b);
      if(ok) n->evi = foldB(n->op, n->width, n->a->evi, n->b->evi);
  }
  n->ep = epoch;
  n->evok = ok;
  return ok;
}

// ------------------------------------------------------------------------------------------------ solver
static z3::context * ZC;
static z3::context & zc()
{
  if(!ZC)
  {
    ZC = new z3::context();
  }
  return *ZC;
}
static z3::expr zx(Node * n);
static z3::expr mkz(Node * n)
{
  auto & c = zc();
  switch(n->op)
  {
    case O_VAR:
    {
      std::string nm = "v" + std::to_string(n->cv);
      if(n->sort == S_REAL) return c.real_const(nm.c_str());
      if(n->sort == S_BOOL) return c.bool_const(nm.c_str());
      return c.bv_const(nm.c_str(), n->width);
    }
    case O_CONST:
      if(n->sort == S_REAL) return c.real_val(n->q->get_str().c_str());
      if(n->sort == S_BOOL) return c.bool_val(n->cv != 0);
      return c.bv_val((uint64_t)n->cv, (unsigned)n->width);
    case O_ADD: return zx(n->a) + zx(n->b);
    case O_SUB: return zx(n->a) - zx(n->b);
    case O_MUL: return zx(n->a) * zx(n->b);
    case O_DIV: return zx(n->a) / zx(n->b);
    case O_ITE: return z3::ite(zx(n->a), zx(n->b), zx(n->c));
    case O_EQ: return zx(n->a) == zx(n->b);
    case O_LT: return zx(n->a) < zx(n->b);
    case O_LE: return zx(n->a) <= zx(n->b);
    case O_NOT: return !zx(n->a);
    case O_AND: return zx(n->a) && zx(n->b);
    case O_OR: return zx(n->a) || zx(n->b);
    case O_XOR: return zx(n->a) != zx(n->b);
    case O_BADD: return zx(n->a) + zx(n->b);
    case O_BSUB: return zx(n->a) - zx(n->b);
    case O_BMUL: return zx(n->a) * zx(n->b);
    case O_BAND: return zx(n->a) & zx(n->b);
    case O_BOR: return zx(n->a) | zx(n->b);
    case O_BXOR: return zx(n->a) ^ zx(n->b);
    case O_BSHL: return z3::shl(zx(n->a), zx(n->b));
    case O_BLSHR: return z3::lshr(zx(n->a), zx(n->b));
    case O_BASHR: return z3::ashr(zx(n->a), zx(n->b));
    case O_BUDIV: return z3::udiv(zx(n->a), zx(n->b));
    case O_BSDIV: return zx(n->a) / zx(n->b);
    case O_BUREM: return z3::urem(zx(n->a), zx(n->b));
    case O_BSREM: return z3::srem(zx(n->a), zx(n->b));
    case O_BULT: return z3::ult(zx(n->a), zx(n->b));
    case O_BULE: return z3::ule(zx(n->a), zx(n->b));
    case O_BSLT: return zx(n->a) < zx(n->b);
    case O_BSLE: return zx(n->a) <= zx(n->b);
    case O_ZEXT: return z3::zext(zx(n->a), n->width - n->a->width);
    case O_SEXT: return z3::sext(zx(n->a), n->width - n->a->width);
    case O_EXTRACT: return zx(n->a).extract((unsigned)n->cv + n->width - 1, (unsigned)n->cv);
    case O_CONCAT: return z3::concat(zx(n->a), zx(n->b));
    default: abort();
  }
}
static z3::expr zx(Node * n)
{
  if(n->z) return z3::expr(zc(), n->z);
  z3::expr e = mkz(n);
  Z3_inc_ref(zc(), e);
  n->z = e;
  return e;
}

// Translation of bit-vector formulas to linear integer arithmetic. Each bit-vector is translated to an integer congruent
// to it modulo 2^width and known to be in [il,ih]; comparisons are translated only when the intervals show that the
// integer is the signed (or unsigned) value of the bit-vector, so that the translation is exact.
static bool toInt(Node * n)
{
  if(n->zst) return n->zst == 1;
  n->zst = 2;
  auto & c = zc();
  z3::expr e(c);
  auto X = [&](Node * k) { return z3::expr(c, k->zi); };
  const int64_t LIM = 1ll << 40;
  auto sgn = [&](Node * k) { return k->width <= 40 ? (k->il >= -(1ll << (k->width - 1)) && k->ih < (1ll << (k->width - 1))) : true; };
  auto uns = [&](Node * k) { return k->il >= 0 && (k->width > 40 || k->ih < (1ll << k->width)); };
  if(n->sort == S_REAL)
  {
    if(n->mixed) return false;
    e = zx(n);
  }
  else if(n->sort == S_BOOL)
  {
    switch(n->op)
    {
      case O_VAR:
      case O_CONST: e = zx(n); break;
      case O_NOT:
        if(!toInt(n->a)) return false;
        e = !X(n->a);
        break;
      case O_AND:
      case O_OR:
      case O_XOR:
        if(!toInt(n->a) || !toInt(n->b)) return false;
        e = n->op == O_AND ? (X(n->a) && X(n->b)) : n->op == O_OR ? (X(n->a) || X(n->b)) : (X(n->a) != X(n->b));
        break;
      case O_ITE:
        if(!toInt(n->a) || !toInt(n->b) || !toInt(n->c)) return false;
        e = z3::ite(X(n->a), X(n->b), X(n->c));
        break;
      case O_EQ:
      case O_LT:
      case O_LE:
        if(n->a->sort == S_REAL && (n->a->mixed || n->b->mixed)) return false;
        if(!toInt(n->a) || !toInt(n->b)) return false;
        if(n->a->sort == S_BV && !(sgn(n->a) && sgn(n->b)) && !(uns(n->a) && uns(n->b))) return false;
        e = n->op == O_EQ ? (X(n->a) == X(n->b)) : n->op == O_LT ? (X(n->a) < X(n->b)) : (X(n->a) <= X(n->b));
        break;
      case O_BSLT:
      case O_BSLE:
        if(!toInt(n->a) || !toInt(n->b) || !sgn(n->a) || !sgn(n->b)) return false;
        e = n->op == O_BSLT ? (X(n->a) < X(n->b)) : (X(n->a) <= X(n->b));
        break;
      case O_BULT:
      case O_BULE:
        if(!toInt(n->a) || !toInt(n->b)) return false;
        if(uns(n->a) && uns(n->b)) e = n->op == O_BULT ? (X(n->a) < X(n->b)) : (X(n->a) <= X(n->b));
        else if(sgn(n->a) && sgn(n->b) && n->b->il >= 0) // a negative: large unsigned
          e = X(n->a) >= 0 && (n->op == O_BULT ? (X(n->a) < X(n->b)) : (X(n->a) <= X(n->b)));
        else if(sgn(n->a) && sgn(n->b) && n->a->il >= 0)
          e = X(n->b) < 0 || (n->op == O_BULT ? (X(n->a) < X(n->b)) : (X(n->a) <= X(n->b)));
        else return false;
        break;
      default: return false;
    }
  }
  else if(n->sort == S_BV)
  {
    switch(n->op)
    {
      case O_VAR:
      {
        auto & v = (*VI)[n->cv];
        if(!v.bounded) return false;
        e = c.int_const(("i" + std::to_string(n->cv)).c_str());
        n->il = v.lo;
        n->ih = v.hi;
        break;
      }
      case O_CONST:
        n->il = n->ih = sx(n->cv, n->width);
        e = c.int_val(n->il);
        break;
      case O_BADD:
      case O_BSUB:
        if(!toInt(n->a) || !toInt(n->b)) return false;
        if(n->op == O_BADD)
        {
          e = X(n->a) + X(n->b);
          n->il = n->a->il + n->b->il;
          n->ih = n->a->ih + n->b->ih;
        }
        else
        {
          e = X(n->a) - X(n->b);
          n->il = n->a->il - n->b->ih;
          n->ih = n->a->ih - n->b->il;
        }
        break;
      case O_BMUL:
      case O_BSHL:
      {
        Node *x = n->a, *k = n->b;
        if(n->op == O_BMUL && isC(x)) std::swap(x, k);
        if(!isC(k) || !toInt(x)) return false;
        if(n->op == O_BSHL && k->cv > 30) return false;
        int64_t m = n->op == O_BSHL ? 1ll << k->cv : sx(k->cv, k->width);
        if(m > (1 << 20) || m < -(1 << 20) || x->il < -(1ll << 41) || x->ih > (1ll << 41)) return false;
        e = X(x) * c.int_val(m);
        n->il = std::min(m * x->il, m * x->ih);
        n->ih = std::max(m * x->il, m * x->ih);
        break;
      }
      case O_ITE:
        if(!toInt(n->a) || !toInt(n->b) || !toInt(n->c)) return false;
        e = z3::ite(X(n->a), X(n->b), X(n->c));
        n->il = std::min(n->b->il, n->c->il);
        n->ih = std::max(n->b->ih, n->c->ih);
        break;
      case O_ZEXT:
        if(!toInt(n->a) || !uns(n->a)) return false;
        e = X(n->a);
        n->il = n->a->il;
        n->ih = n->a->ih;
        break;
      case O_SEXT:
        if(!toInt(n->a) || !sgn(n->a)) return false;
        e = X(n->a);
        n->il = n->a->il;
        n->ih = n->a->ih;
        break;
      case O_EXTRACT:
        if(n->cv != 0 || !toInt(n->a)) return false;
        e = X(n->a);
        n->il = n->a->il;
        n->ih = n->a->ih;
        break;
      default: return false;
    }
    if(n->il < -LIM || n->ih > LIM) return false;
  }
  else return false;
  Z3_inc_ref(zc(), e);
  n->zi = e;
  n->zst = 1;
  return true;
}

enum Res { UNSAT, SAT, UNK };
struct ModelUpd
{
  std::vector<std::tuple<int, mpq_class, u64, bool>> v;
};
struct QHash
{
  size_t operator()(const std::vector<u32> & v) const
  {
    size_t h = 1469598103934665603ull;
    for(u32 x : v) h = (h ^ x) * 1099511628211ull;
    return h;
  }
};
static std::unordered_map<std::vector<u32>, std::pair<Res, ModelUpd>, QHash> * qcache;

static void sliceOf(const std::vector<Node *> & q, std::vector<Node *> & out, Bits & vs)
{
  for(auto n : q)
    if(n->vars) vs.add(*n->vars);
  std::vector<char> in(PC->size(), 0);
  bool ch = true;
  while(ch)
  {
    ch = false;
    for(size_t i = 0; i < PC->size(); ++i)
      if(!in[i] && (*PC)[i]->vars && (*PC)[i]->vars->meets(vs))
      {
        in[i] = 1;
        out.push_back((*PC)[i]);
        vs.add(*(*PC)[i]->vars);
        ch = true;
      }
  }
  for(auto n : q) out.push_back(n);
}

static Res runZ3(const std::vector<Node *> & as, const Bits & vs, ModelUpd & mu, bool nonlin, int hard) // hard: -1 light, 0, 1
{
  Res r = UNK;
  double t0 = now();
  try
  {
    auto & c = zc();
    int nAtt = hard < 0 ? 1 : nonlin ? 3 : 2;
    bool lia = true;
    for(auto a : as) lia = lia && toInt(a);
    for(int att = 0; att < nAtt && r == UNK; ++att)
    {
      z3::solver s = (nonlin && att >= 1) ? z3::tactic(c, att == 1 ? "qfnra-nlsat" : "qfnra").mk_solver()
                                          : z3::solver(c, z3::solver::simple());
      z3::params p(c);
      unsigned lim = att == 0 ? (nonlin ? 400000u : 20000000u) : (hard > 0 ? 60000000u : 12000000u);
      p.set("rlimit", lim);
      if(!(nonlin && att >= 1)) p.set("random_seed", (unsigned)(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1));
      try
      {
        s.set(p);
      }
      catch(z3::exception &)
      {
        z3::params p2(c);
        p2.set("rlimit", lim);
        s.set(p2);
      }
      for(auto a : as) s.add(lia ? z3::expr(c, a->zi) : zx(a));
      z3::check_result cr;
      try
      {
        cr = s.check();
      }
      catch(z3::exception & e)
      {
        continue;
      }
      if(cr == z3::unsat) r = UNSAT;
      if(cr == z3::sat)
      {
        r = SAT;
        z3::model m = s.get_model();
        for(size_t i = 0; i < vs.w.size() * 64; ++i)
          if(vs.w[i / 64] >> (i % 64) & 1)
          {
            Node * v = (*VI)[i].n;
            z3::expr e = m.eval(lia && v->sort == S_BV ? z3::expr(c, v->zi) : zx(v), true);
            mpq_class q;
            u64 iv = 0;
            bool exact = true;
            if(v->sort == S_REAL)
            {
              if(e.is_numeral())
                q = mpq_class(std::string(Z3_get_numeral_string(c, e)));
              else
              {
                exact = false;
                std::string d;
                try
                {
                  d = Z3_get_numeral_decimal_string(c, e, 20);
                }
                catch(...)
                {
                  d = "0";
                }
                if(!d.empty() && d.back() == '?') d.pop_back();
                q = mpq_class(strtod(d.c_str(), nullptr));
              }
              q.canonicalize();
            }
            else if(v->sort == S_BOOL)
              iv = e.is_true();
            else
            {
              if(lia)
              {
                int64_t t = 0;
                e.is_numeral_i64(t);
                iv = maskw((u64)t, v->width);
              }
              else
              {
                uint64_t t = 0;
                e.is_numeral_u64(t);
                iv = t;
              }
            }
            mu.v.emplace_back((int)i, q, iv, exact);
          }
      }
    }
  }
  catch(z3::exception & e)
  {
    incomplete("z3 exception: %s", e.msg());
  }
  static double dbg = getenv("SYM_SLOW") ? atof(getenv("SYM_SLOW")) : 0;
  if(dbg > 0 && now() - t0 > dbg)
  {
    bool lia = true;
    for(auto a : as) lia = lia && toInt(a);
    fprintf(stderr, "SLOW %.3f lia=%d n=%zu\n", now() - t0, lia, as.size());
    static int shown = 0;
    if(shown++ < 1)
      for(auto a : as) fprintf(stderr, "  %s\n", (lia ? z3::expr(zc(), a->zi) : zx(a)).to_string().c_str());
  }
  SH->solver_us += (u64)((now() - t0) * 1e6);
  return r;
}

// Is PC /\ q satisfiable?
static Res query(const std::vector<Node *> & q, ModelUpd & mu, int hard = 0)
{
  std::vector<Node *> as;
  Bits vs;
  sliceOf(q, as, vs);
  bool nonlin = false;
  for(auto n : as) nonlin |= n->nonlin;
  std::vector<u32> key;
  for(auto n : as) key.push_back(n->id);
  std::sort(key.begin(), key.end());
  auto it = qcache->find(key);
  if(it != qcache->end())
  {
    mu = it->second.second;
    return it->second.first;
  }
  SH->queries++;
  Res r = runZ3(as, vs, mu, nonlin, hard);
  (r == UNSAT ? SH->qunsat : r == SAT ? SH->qsat : SH->qunk)++;
  if(r != UNK && key.size() < 200) (*qcache)[key] = {r, mu};
  return r;
}
static void applyModel(const ModelUpd & mu)
{
  for(auto & t : mu.v)
  {
    auto & v = (*VI)[std::get<0>(t)];
    v.q = std::get<1>(t);
    v.i = std::get<2>(t);
    v.exact = std::get<3>(t);
  }
  ++epoch;
}

// ------------------------------------------------------------------------------------------------ violations
static void dumpModel(FILE * f, const ModelUpd * mu)
{
  std::map<int, const std::tuple<int, mpq_class, u64, bool> *> over;
  if(mu)
    for(auto & t : mu->v) over[std::get<0>(t)] = &t;
  for(auto & c : *choices) fprintf(f, "%s %ld\n", c.first.c_str(), c.second);
  for(size_t i = 0; i < VI->size(); ++i)
  {
    auto & v = (*VI)[i];
    if(v.sqrtOf) continue;
    mpq_class q = v.q;
    u64 iv = v.i;
    auto it = over.find((int)i);
    if(it != over.end())
    {
      q = std::get<1>(*it->second);
      iv = std::get<2>(*it->second);
    }
    if(v.n->sort == S_REAL)
      fprintf(f, "%s %.17g\n", v.name.c_str(), q.get_d());
    else if(v.n->sort == S_BOOL)
      fprintf(f, "%s %d\n", v.name.c_str(), (int)iv);
    else
      fprintf(f, "%s %lld\n", v.name.c_str(), (long long)sx(iv, v.n->width));
  }
}
static std::string sanitize(const char * m)
{
  std::string s(m);
  for(auto & c : s)
    if(c == '\n' || c == '\r') c = ' ';
  if(s.size() > 150) s.resize(150);
  return s;
}
static void violation(const char * msg0, const ModelUpd * mu)
{
  std::string msg = sanitize(msg0);
  SH->viol.add(msg.c_str());
  int id = SH->nviol++;
  int idx = 0;
  u64 cnt = 0;
  for(int i = 0; i < SH->viol.n; ++i)
    if(!strncmp(SH->viol.s[i], msg.c_str(), 159))
    {
      idx = i;
      cnt = SH->viol.c[i];
    }
  (void)idx;
  if(cnt <= 4)
  {
    std::string fn = std::string(outdir) + "/cand_" + std::to_string(id) + ".txt";
    FILE * f = fopen(fn.c_str(), "w");
    if(f)
    {
      fprintf(f, "# %s\n", msg.c_str());
      dumpModel(f, mu);
      fclose(f);
    }
  }
  bool known = false;
  for(auto & k : knownMsgs)
    if(msg.find(k) != std::string::npos) known = true;
  if(!known)
  {
    u64 z = 0;
    SH->violTimeMs.compare_exchange_strong(z, (u64)(now() * 1000));
  }
}

static void outsideModel(const char * why)
{
  SH->outside++;
  SH->outsideT.add(why);
}

// ------------------------------------------------------------------------------------------------ exploration
static void record(void * pc)
{
  SH->symops++;
  u64 x = (u64)pc;
  size_t h = (x * 0x9e3779b97f4a7c15ull) >> (64 - 15);
  for(int k = 0; k < 64; ++k)
  {
    u64 e = SH->pcs[(h + k) & 32767];
    if(e == x) return;
    if(e == 0)
    {
      u64 z = 0;
      SH->pcs[(h + k) & 32767].compare_exchange_strong(z, x);
      return;
    }
  }
}
static u32 depth = 0;

static void timeCheck()
{
  if(SH->stop) endPath();
  double t = now();
  u64 vt = SH->violTimeMs;
  if(vt && t * 1000 > vt + 8000)
  {
    SH->stop = 2;
    endPath();
  }
  if(t > SH->deadline)
  {
    if(!SH->stop.exchange(1)) incomplete("time budget exhausted");
    endPath();
  }
}

// forks; returns true in the child
static bool doFork()
{
  timeCheck();
  SH->forks++;
  depth++;
  if(depth > SH->maxdepth) SH->maxdepth = depth;
  bool async = sem_trywait(&SH->tokens) == 0;
  SH->live++;
  SH->procs++;
  pid_t p;
  for(int k = 0; (p = fork()) < 0 && k < 100; ++k) usleep(20000);
  if(p < 0)
  {
    incomplete("fork failed");
    SH->live--;
    if(async) sem_post(&SH->tokens);
    return false;
  }
  if(p == 0)
  {
    asyncChild = async;
    alarm(0);
    alarm(getenv("SYM_PATH_TIMEOUT") ? atoi(getenv("SYM_PATH_TIMEOUT")) : 200);
    return true;
  }
  if(!async)
  {
    int st = 0;
    unsigned rem = alarm(0);
    while(waitpid(p, &st, 0) < 0 && errno == EINTR)
      ;
    alarm(rem ? rem : 1);
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
      incomplete("a path process died (status %d)", st);
      SH->abnormal++;
      SH->live--;
    }
  }
  timeCheck();
  return false;
}

static void setKnown(Node * n, bool v)
{
  n = R(n);
  if(isC(n)) return;
  if(n->op == O_NOT)
  {
    setKnown(n->a, !v);
    return;
  }
  n->known = cbool(v);
  if(n->op == O_AND && v)
  {
    setKnown(n->a, true);
    setKnown(n->b, true);
  }
  if(n->op == O_OR && !v)
  {
    setKnown(n->a, false);
    setKnown(n->b, false);
  }
  if(n->op == O_EQ && v && n->a->sort != S_REAL)
  {
    if(isC(n->b) && !isC(n->a)) n->a->known = n->b;
  }
  if(n->op == O_EQ && v && n->a->sort == S_REAL)
  {
    if(isC(n->b) && n->a->op == O_VAR) n->a->known = n->b;
    if(isC(n->a) && n->b->op == O_VAR) n->b->known = n->a;
  }
}
static void assertPC(Node * n, bool v)
{
  Node * t = v ? n : mkNot(n);
  if(isC(t)) return;
  PC->push_back(t);
  setKnown(n, v);
}
// resolve deeply under the known facts (ite conditions ...)
static Node * simp(Node * n, std::unordered_map<Node *, Node *> & memo);
static Node * rebuild(Node * n, Node * a, Node * b, Node * c)
{
  switch(n->op)
  {
    case O_ADD: return rAdd(a, b);
    case O_SUB: return rSub(a, b);
    case O_MUL: return rMul(a, b);
    case O_DIV:
      if(isC(b) && *b->q != 0) return rMul(a, cq(1 / *b->q));
      return mk(O_DIV, S_REAL, 0, a, b);
    case O_ITE: return mkIte(a, b, c);
    case O_EQ: return a->sort == S_REAL ? rCmp(O_EQ, a, b) : bCmp(O_EQ, a, b);
    case O_LT:
    case O_LE: return rCmp(n->op, a, b);
    case O_NOT: return mkNot(a);
    case O_AND:
    case O_OR:
    case O_XOR: return mkBool2(n->op, a, b);
    case O_BULT:
    case O_BULE:
    case O_BSLT:
    case O_BSLE: return bCmp(n->op, a, b);
    case O_ZEXT: return bExt(false, a, n->width);
    case O_SEXT: return bExt(true, a, n->width);
    case O_EXTRACT: return bExtract(a, (int)n->cv, n->width);
    case O_CONCAT: return bConcat(a, b);
    default: return bBin(n->op, a, b);
  }
}
static Node * simp(Node * n, std::unordered_map<Node *, Node *> & memo)
{
  n = R(n);
  if(n->op == O_VAR || n->op == O_CONST) return n;
  auto it = memo.find(n);
  if(it != memo.end()) return it->second;
  Node * r;
  if(n->op == O_ITE)
  {
    Node * c = simp(n->a, memo);
    if(isC(c))
      r = simp(c->cv ? n->b : n->c, memo);
    else
      r = mkIte(c, simp(n->b, memo), simp(n->c, memo));
  }
  else
  {
    Node * a = n->a ? simp(n->a, memo) : nullptr;
    Node * b = n->b ? simp(n->b, memo) : nullptr;
    Node * c = n->c ? simp(n->c, memo) : nullptr;
    r = (a == n->a && b == n->b && c == n->c) ? n : rebuild(n, a, b, c);
  }
  r = R(r);
  memo[n] = r;
  return r;
}
static Node * simp(Node * n)
{
  std::unordered_map<Node *, Node *> memo;
  return simp(n, memo);
}

static bool decide(Node * n)
{
  n = R(n);
  if(isC(n)) return n->cv;
  n = simp(n);
  if(isC(n)) return n->cv;
  timeCheck();
  SH->decisions++;
  bool dir;
  if(ev(n))
  {
    dir = n->evi;
  }
  else
  {
    ModelUpd mu;
    Res r = query({n}, mu);
    if(r == UNK)
    {
      incomplete("unknown branch feasibility");
      // assume true may be feasible and hope
      Res r2 = query({mkNot(n)}, mu);
      if(r2 != SAT)
      {
        endPath();
      }
      dir = false;
      applyModel(mu);
    }
    else if(r == SAT)
    {
      dir = true;
      applyModel(mu);
    }
    else
    {
      setKnown(n, false);
      return false;
    }
  }
  Node * other = dir ? mkNot(n) : n;
  ModelUpd mu;
  Res r = query({other}, mu);
  if(r == UNK)
  {
    ModelUpd mu2;
    r = query({other}, mu2, true);
    mu = mu2;
  }
  if(r == UNSAT)
  {
    setKnown(n, dir);
    return dir;
  }
  if(r == UNK)
  {
    incomplete("unknown branch feasibility");
    assertPC(n, dir);
    return dir;
  }
  if(doFork())
  {
    applyModel(mu);
    assertPC(n, !dir);
    return !dir;
  }
  assertPC(n, dir);
  return dir;
}

// one sided: keep only the paths where n holds
static void assumeN(Node * n)
{
  n = simp(n);
  if(isC(n))
  {
    if(n->cv) return;
    SH->outsideT.add("assumption false");
    endPath();
  }
  if(ev(n) && n->evi)
  {
    assertPC(n, true);
    return;
  }
  ModelUpd mu;
  Res r = query({n}, mu);
  if(r == SAT)
  {
    applyModel(mu);
    assertPC(n, true);
    return;
  }
  if(r == UNK) incomplete("unknown assumption feasibility");
  endPath();
}

// ------------------------------------------------------------------------------------------------ polynomials
// Canonical form of real expressions: polynomials with rational coefficients over atoms (variables, if-then-else with
// canonical parts, inverses of canonical polynomials). Divisors are non zero on the path (see L_FDiv), hence the
// rewriting of a/b as a * (1/b) and the negative exponents; the square of the variable standing for sqrt(x) is x.
typedef std::vector<std::pair<u32, int>> Mono;
typedef std::map<Mono, mpq_class> Poly;
struct Canon
{
  std::unordered_map<Node *, Poly> memo;
  std::unordered_map<Node *, Node *> bmemo;
  std::unordered_map<u32, Node *> atoms;
  std::unordered_map<Node *, Node *> sqrts;
  bool bad = false;
  Canon()
  {
    for(auto & v : *VI)
      if(v.sqrtOf) sqrts[v.n] = v.sqrtOf;
  }
  Poly atom(Node * n)
  {
    atoms[n->id] = n;
    Poly r;
    r[{{n->id, 1}}] = 1;
    return r;
  }
  static void addTo(Poly & r, const Poly & b, const mpq_class & k)
  {
    for(auto & t : b)
    {
      auto & x = r[t.first];
      x += k * t.second;
      if(x == 0) r.erase(t.first);
    }
  }
  Poly mulP(const Poly & a, const Poly & b)
  {
    Poly r;
    if(a.size() * b.size() > 20000)
    {
      bad = true;
      return r;
    }
    for(auto & s : a)
      for(auto & t : b)
      {
        std::map<u32, int> m;
        for(auto & e : s.first) m[e.first] += e.second;
        for(auto & e : t.first) m[e.first] += e.second;
        mpq_class k = s.second * t.second;
        Poly extra;
        bool ex = false;
        Mono mo;
        for(auto & e : m)
        {
          int q = e.second;
          if(q >= 2 && !sqrts.empty())
          {
            auto it = sqrts.find(atoms[e.first]);
            if(it != sqrts.end())
            {
              Poly o = of(it->second);
              if(!ex) extra[{}] = 1;
              ex = true;
              for(; q >= 2 && !bad; q -= 2) extra = mulP(extra, o);
            }
          }
          if(q) mo.push_back({e.first, q});
        }
        if(ex)
        {
          Poly one;
          one[mo] = k;
          addTo(r, mulP(one, extra), 1);
        }
        else
        {
          auto & x = r[mo];
          x += k;
          if(x == 0) r.erase(mo);
        }
        if(bad) return r;
      }
    return r;
  }
  static mpq_class lead(const Poly & p) { return p.rbegin()->second; }
  static Poly scale(Poly p, const mpq_class & k)
  {
    for(auto & t : p) t.second *= k;
    return p;
  }
  static bool isCst(const Poly & p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
  Node * node(const Poly & p)
  {
    Node * r = nullptr;
    for(auto & t : p)
    {
      Node *num = cq(t.second), *den = nullptr;
      for(auto & e : t.first)
        for(int k = 0; k < std::abs(e.second); ++k)
        {
          Node * a = atoms[e.first];
          if(e.second > 0)
            num = rMul(num, a);
          else
            den = den ? rMul(den, a) : a;
        }
      if(den) num = mk(O_DIV, S_REAL, 0, num, den);
      r = r ? rAdd(r, num) : num;
    }
    return r ? r : cq(0);
  }
  // p = k m, with the leading coefficient of m equal to 1
  static Poly monic(const Poly & p, mpq_class & k)
  {
    k = lead(p);
    return scale(p, 1 / k);
  }
  Poly of(Node * n)
  {
    auto it = memo.find(n);
    if(it != memo.end()) return it->second;
    Poly r;
    if(bad) return r;
    switch(n->op)
    {
      case O_CONST:
        if(!n->q)
          bad = true;
        else if(*n->q != 0)
          r[{}] = *n->q;
        break;
      case O_ADD:
      case O_SUB:
        r = of(n->a);
        addTo(r, of(n->b), n->op == O_ADD ? 1 : -1);
        break;
      case O_MUL: r = mulP(of(n->a), of(n->b)); break;
      case O_DIV:
      {
        Poly a = of(n->a), b = of(n->b);
        if(bad || b.empty())
        {
          bad = true;
          break;
        }
        if(b.size() == 1)
        {
          Mono m = b.begin()->first;
          for(auto & e : m) e.second = -e.second;
          Poly i;
          i[m] = 1 / b.begin()->second;
          r = mulP(a, i);
          break;
        }
        mpq_class k;
        Poly m = monic(b, k);
        // an exact multiple
        if(a.size() == b.size())
        {
          mpq_class l = lead(a) / lead(b);
          if(scale(b, l) == a)
          {
            r[{}] = l;
            break;
          }
        }
        Poly i = atom(node(m));
        Poly inv;
        inv[{{i.begin()->first[0].first, -1}}] = 1 / k;
        r = mulP(a, inv);
        break;
      }
      case O_ITE:
      {
        Poly x = of(n->b), y = of(n->c);
        if(bad) break;
        Node * c = n->a;
        if(c->op == O_NOT)
        {
          c = c->a;
          std::swap(x, y);
        }
        if((c->op == O_LT || c->op == O_LE) && c->a->sort == S_REAL)
        {
          Poly p = of(c->a);
          addTo(p, of(c->b), -1);
          Poly d = x;
          addTo(d, y, -1);
          if(bad) break;
          if(isCst(p))
          {
            mpq_class v = p.empty() ? mpq_class(0) : lead(p);
            r = (c->op == O_LT ? v < 0 : v <= 0) ? x : y;
            break;
          }
          if(d.empty())
          {
            r = x;
            break;
          }
          // if p < 0 then y + l p else y (the same at p = 0): y + l min(p, 0)
          if(d.size() == p.size())
          {
            mpq_class l = lead(d) / lead(p);
            if(scale(p, l) == d)
            {
              mpq_class k;
              Poly m = monic(p, k);
              Node * mn = node(m);
              Poly N = atom(mkIte(rCmp(O_LT, mn, cq(0)), mn, cq(0))); // min(m, 0)
              r = y;
              if(k > 0)
                addTo(r, N, l * k);
              else
              {
                addTo(r, m, l * k);
                addTo(r, N, -l * k);
              }
              break;
            }
          }
        }
        Node * t = mkIte(cond(c), node(x), node(y));
        if(t->op == O_ITE)
          r = atom(t);
        else if(t != n)
          r = of(t);
        else
          bad = true;
        break;
      }
      default: r = atom(n);
    }
    if(r.size() > 5000) bad = true;
    memo[n] = r;
    return r;
  }
  Node * cond(Node * n)
  {
    auto it = bmemo.find(n);
    if(it != bmemo.end()) return it->second;
    Node * r = n;
    if((n->op == O_LT || n->op == O_LE || n->op == O_EQ) && n->a->sort == S_REAL)
    {
      Poly p = of(n->a);
      addTo(p, of(n->b), -1);
      if(bad) return n;
      if(isCst(p))
      {
        mpq_class v = p.empty() ? mpq_class(0) : lead(p);
        r = cbool(n->op == O_LT ? v < 0 : n->op == O_LE ? v <= 0 : v == 0);
      }
      else
      {
        mpq_class k;
        Node * m = node(monic(p, k));
        if(n->op == O_EQ || k > 0)
          r = rCmp((Op)n->op, m, cq(0));
        else // m > 0, m >= 0
          r = mkNot(rCmp(n->op == O_LT ? O_LE : O_LT, m, cq(0)));
      }
    }
    else if(n->op == O_NOT)
      r = mkNot(cond(n->a));
    else if(n->op == O_AND || n->op == O_OR || (n->op == O_XOR && n->a->sort == S_BOOL))
      r = mkBool2((Op)n->op, cond(n->a), cond(n->b));
    bmemo[n] = r;
    return r;
  }
};
static bool polyZero(Canon & k, Node * a, Node * b)
{
  k.bad = false;
  Poly pa = k.of(a), pb = k.of(b);
  if(k.bad)
  {
    k = Canon();
    return false;
  }
  return pa == pb;
}

// ------------------------------------------------------------------------------------------------ checks
struct Pending
{
  Node *a, *b;
  std::string msg;
};
static std::vector<Pending> * pending;

static void checkBool(Node * n, const char * msg)
{
  SH->checks++;
  n = simp(n);
  if(isC(n))
  {
    if(n->cv)
      SH->checksId++;
    else
    {
      violation(msg, nullptr);
    }
    return;
  }
  ModelUpd mu;
  if(!(ev(n) && !n->evi))
  {
    Canon can;
    Node * c = can.cond(n);
    if(!can.bad && isC(c) && c->cv)
    {
      SH->checksPoly++;
      ModelUpd m0;
      Res r0 = query({mkNot(n)}, m0, -1);
      if(r0 == UNSAT) SH->polyConfirmed++;
      if(r0 == SAT) incomplete("engine: identity refuted by the solver");
      setKnown(n, true);
      return;
    }
  }
  if(ev(n) && !n->evi)
  {
    violation(msg, nullptr);
    ModelUpd m2;
    if(query({n}, m2) == SAT)
    {
      applyModel(m2);
      assertPC(n, true);
      return;
    }
    endPath();
  }
  Res r = query({mkNot(n)}, mu);
  if(r == UNK) r = query({mkNot(n)}, mu, true);
  if(r == UNSAT)
  {
    SH->checksSolver++;
    setKnown(n, true);
    return;
  }
  if(r == UNK)
  {
    incomplete("unknown verdict: %s", msg);
    return;
  }
  violation(msg, &mu);
  if(ev(n) && n->evi)
    assertPC(n, true);
  else
    assumeN(n);
}

static void flushChecks()
{
  if(pending->empty()) return;
  std::vector<Pending> left, polys;
  std::unordered_map<Node *, Node *> memo;
  Node * any = nullptr;
  Canon can;
  for(auto & p : *pending)
  {
    Node *a = simp(p.a, memo), *b = simp(p.b, memo);
    if(a == b)
    {
      SH->checksId++;
      continue;
    }
    if(polyZero(can, a, b))
    {
      SH->checksPoly++;
      polys.push_back({a, b, p.msg});
      continue;
    }
    left.push_back({a, b, p.msg});
  }
  pending->clear();
  if(!polys.empty())
  {
    // equal as polynomials: have it confirmed by the solver, all at once
    Node * q = nullptr;
    for(auto & p : polys)
    {
      Node * ne = mkNot(rCmp(O_EQ, p.a, p.b));
      q = q ? mkBool2(O_OR, q, ne) : ne;
    }
    ModelUpd m0;
    Res r0 = query({q}, m0, -1);
    if(r0 == UNSAT) SH->polyConfirmed += polys.size();
    if(r0 == SAT) incomplete("engine: polynomial identity refuted by the solver");
  }
  if(left.empty()) return;
  for(auto & p : left)
  {
    Node * ne = mkNot(rCmp(O_EQ, p.a, p.b));
    any = any ? mkBool2(O_OR, any, ne) : ne;
  }
  ModelUpd mu;
  Res r = UNK;
  if(left.size() <= 40) r = query({any}, mu);
  if(r == UNSAT)
  {
    SH->checksSolver += left.size();
    return;
  }
  int nv = 0;
  for(auto & p : left)
  {
    ModelUpd m1;
    r = query({mkNot(rCmp(O_EQ, p.a, p.b))}, m1);
    if(r == UNSAT)
    {
      SH->checksSolver++;
      continue;
    }
    // is the difference more than what rounding explains?
    ModelUpd m2;
    Node * d = rSub(p.a, p.b);
    Node * big = mkBool2(O_OR, rCmp(O_LT, cd(tolEq), d), rCmp(O_LT, d, cd(-tolEq)));
    // prefer a large difference (robust to the native rounding)
    Node * huge = mkBool2(O_OR, rCmp(O_LT, cd(1e-2), d), rCmp(O_LT, d, cd(-1e-2)));
    r = query({huge}, m2);
    if(r != SAT)
    {
      ModelUpd m3;
      r = query({big}, m3, true);
      m2 = m3;
    }
    if(r == SAT)
    {
      violation(p.msg.c_str(), &m2);
      if(++nv > 10) break;
    }
    else if(r == UNSAT)
    {
      SH->rounding++;
      SH->checksSolver++;
    }
    else
      incomplete("unknown verdict: %s", p.msg.c_str());
  }
}

// ------------------------------------------------------------------------------------------------ shadow memory
struct Mixed
{
  Node * b[8];
  uint8_t idx[8];
};
struct Cell
{
  u64 n; // Node* or (Mixed* | 1)
  u64 bits;
};
struct Page
{
  Cell c[512];
};
static Page *** L1;
__attribute__((constructor(101))) static void initShadow()
{
  L1 = (Page ***)mmap(nullptr, sizeof(void *) << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static inline Page * page(u64 a, bool create)
{
  u64 hi = a >> 30, mid = (a >> 12) & ((1u << 18) - 1);
  if(hi >= (1u << 17)) return nullptr;
  if(!L1[hi])
  {
    if(!create) return nullptr;
    L1[hi] = (Page **)mmap(nullptr, sizeof(Page *) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  Page *& p = L1[hi][mid];
  if(!p && create) p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  return p;
}
static u64 rd(u64 a, int n)
{
  u64 v = 0;
  memcpy(&v, (void *)a, n);
  return v;
}
// one cell -> 8 bytes. 'fresh': bytes that have just been overwritten by the program (not compared to the recorded
// native bits, which tell whether uninstrumented code wrote over the cell)
static inline u64 byteMask(int off, int n)
{
  u64 m = 0;
  for(int k = off; k < off + n && k < 8; ++k) m |= 0xffull << (8 * k);
  return m;
}
static void getBytes(u64 a, Node ** nb, uint8_t * ix, u64 fresh = 0)
{
  Page * p = page(a, false);
  Cell * c = p ? &p->c[(a >> 3) & 511] : nullptr;
  if(!c || !c->n)
  {
    for(int k = 0; k < 8; ++k) nb[k] = nullptr;
    return;
  }
  if(c->n & 1)
  {
    Mixed * m = (Mixed *)(c->n & ~1ull);
    u64 cur = rd(a, 8);
    for(int k = 0; k < 8; ++k)
    {
      nb[k] = m->b[k];
      ix[k] = m->idx[k];
      if(nb[k] && ((cur ^ c->bits) >> (8 * k) & 0xff)) nb[k] = nullptr;
    }
  }
  else
  {
    bool ok = ((rd(a, 8) ^ c->bits) & ~fresh) == 0;
    for(int k = 0; k < 8; ++k)
    {
      nb[k] = ok ? (Node *)c->n : nullptr;
      ix[k] = k;
    }
  }
}
static void setBytes(u64 a, Node ** nb, uint8_t * ix)
{
  Page * p = page(a, true);
  Cell * c = &p->c[(a >> 3) & 511];
  if(c->n & 1) delete(Mixed *)(c->n & ~1ull);
  c->bits = rd(a, 8);
  bool full = nb[0] != nullptr, empty = true;
  for(int k = 0; k < 8; ++k)
  {
    if(nb[k]) empty = false;
    if(nb[k] != nb[0] || ix[k] != k) full = false;
  }
  if(empty)
    c->n = 0;
  else if(full && (nb[0]->sort == S_REAL || nb[0]->width == 64))
    c->n = (u64)nb[0];
  else
  {
    Mixed * m = new Mixed;
    memcpy(m->b, nb, sizeof m->b);
    memcpy(m->idx, ix, sizeof m->idx);
    c->n = (u64)m | 1;
  }
}

static inline bool pageMaybe(u64 a)
{
  u64 hi = a >> 30;
  return hi < (1u << 17) && L1[hi] && L1[hi][(a >> 12) & ((1u << 18) - 1)];
}

static Node * nat(u64 bits, int w)
{
  if(w == 1000)
  {
    double d;
    memcpy(&d, &bits, 8);
    return cd(d);
  }
  if(w == 1) return cbool(bits & 1);
  return cb(bits, w);
}
static Node * asReal(Node * n, u64 bits)
{
  if(n)
  {
    n = R(n);
    if(n->sort == S_REAL) return n;
    if(n->sort == S_BV && isC(n) && n->width == 64)
    {
      double d;
      memcpy(&d, &n->cv, 8);
      return cd(d);
    }
    incomplete("integer bits used as a real");
    return cd(0);
  }
  double d;
  memcpy(&d, &bits, 8);
  return cd(d);
}
static Node * asBV(Node * n, u64 bits, int w)
{
  if(!n) return w == 1 ? cbool(bits & 1) : cb(bits, w);
  n = R(n);
  if(n->sort == S_BOOL && w > 1) return bExt(false, n, w);
  if(n->sort == S_BV && w == 1) return bCmp(O_EQ, bExtract(n, 0, 1), cb(1, 1));
  if(n->sort == S_REAL)
  {
    if(isC(n))
    {
      double d = n->q ? n->q->get_d() : n->nf;
      u64 x;
      memcpy(&x, &d, 8);
      return cb(x, w);
    }
    incomplete("real used as integer bits");
    return cb(bits, w);
  }
  return n;
}

extern "C"
{

void __sym_unsup(Node * n, int code)
{
  if(!n) return;
  Guard g;
  incomplete("unsupported operation on a symbolic value (code %d)", code);
}

Node * __sym_load(void * ptr, int n, int w)
{
  u64 a = (u64)ptr;
  if(__builtin_expect(!pageMaybe(a) && !pageMaybe(a + n - 1), 1)) return nullptr;
  if((a & 7) == 0 && n == 8)
  {
    Page * p = page(a, false);
    if(!p) return nullptr;
    Cell & c = p->c[(a >> 3) & 511];
    if(!c.n) return nullptr;
    if(!(c.n & 1)) return rd(a, 8) == c.bits ? R((Node *)c.n) : nullptr;
  }
  // general case
  Node * nb[16];
  uint8_t ix[16];
  u64 base = a & ~7ull;
  getBytes(base, nb, ix);
  int off = (int)(a - base);
  if(off + n > 8) getBytes(base + 8, nb + 8, ix + 8);
  bool any = false;
  for(int k = 0; k < n; ++k)
    if(nb[off + k]) any = true;
  if(!any) return nullptr;
  Guard g;
  Node * f = nb[off];
  bool whole = f != nullptr;
  for(int k = 0; k < n && whole; ++k)
    if(nb[off + k] != f || ix[off + k] != k) whole = false;
  if(whole)
  {
    f = R(f);
    if(f->sort == S_REAL && n == 8) return f;
    if(f->sort == S_BOOL && n == 1) return w == 1 ? f : bExt(false, f, 8);
    if(f->sort == S_BV && f->width == 8 * n) return w == 1 ? asBV(f, 0, 1) : (w < 8 * n ? bExtract(f, 0, w) : f);
  }
  Node * r = nullptr;
  for(int k = 0; k < n;)
  {
    // runs of consecutive bytes of the same value
    int len = 1;
    while(k + len < n && nb[off + k + len] == nb[off + k] && (!nb[off + k] || ix[off + k + len] == ix[off + k] + len))
      ++len;
    Node * b = nb[off + k];
    Node * e;
    if(!b)
      e = cb(rd((u64)ptr + k, len), 8 * len);
    else
    {
      b = R(b);
      if(b->sort == S_REAL)
      {
        if(isC(b))
          b = asBV(b, 0, 64);
        else
        {
          incomplete("partial load of a real");
          return nullptr;
        }
      }
      if(b->sort == S_BOOL) b = bExt(false, b, 8);
      if(b->width < 8 * (ix[off + k] + len)) b = bExt(false, b, 8 * (ix[off + k] + len));
      e = bExtract(b, 8 * ix[off + k], 8 * len);
    }
    r = r ? bConcat(e, r) : e;
    k += len;
  }
  if(w == 1) return asBV(r, 0, 1);
  if(w < 8 * n) return bExtract(r, 0, w);
  return r;
}

void __sym_store(void * ptr, int n, Node * s, u64 bits)
{
  u64 a = (u64)ptr;
  if(!s && !pageMaybe(a) && !pageMaybe(a + n - 1)) return;
  if((a & 7) == 0 && n == 8)
  {
    Page * p = page(a, s != nullptr);
    if(!p) return;
    Cell & c = p->c[(a >> 3) & 511];
    if(c.n & 1) delete(Mixed *)(c.n & ~1ull);
    c.n = (u64)s;
    c.bits = bits;
    return;
  }
  Node * nb[16];
  uint8_t ix[16];
  u64 base = a & ~7ull;
  int off = (int)(a - base);
  getBytes(base, nb, ix, byteMask(off, n));
  bool two = off + n > 8;
  if(two) getBytes(base + 8, nb + 8, ix + 8, byteMask(0, off + n - 8));
  if(s && s->sort == S_BV && s->width < 8 * n)
  {
    Guard g;
    s = bExt(false, s, 8 * n);
  }
  for(int k = 0; k < n; ++k)
  {
    nb[off + k] = s;
    ix[off + k] = k;
  }
  // the native bytes of the neighbours are unchanged: setBytes re-reads the memory
  setBytes(base, nb, ix);
  if(two) setBytes(base + 8, nb + 8, ix + 8);
}

void __sym_clear(void * ptr, u64 n)
{
  u64 a = (u64)ptr, e = a + n;
  if(!n || !ptr) return;
  u64 x = a;
  while(x < e)
  {
    u64 pend = (x & ~4095ull) + 4096;
    u64 stop = std::min(e, pend);
    if(pageMaybe(x))
    {
      while(x < stop)
      {
        if((x & 7) == 0 && x + 8 <= e)
        {
          Cell & c = page(x, false)->c[(x >> 3) & 511];
          if(c.n & 1) delete(Mixed *)(c.n & ~1ull);
          c.n = 0;
          x += 8;
        }
        else
        {
          int k = (int)std::min<u64>(8 - (x & 7), e - x);
          Cell & c = page(x, false)->c[(x >> 3) & 511];
          if(c.n)
          {
            Node * nb[8];
            uint8_t ix[8];
            getBytes(x & ~7ull, nb, ix, byteMask((int)(x & 7), k));
            for(int j = 0; j < k; ++j) nb[(x & 7) + j] = nullptr;
            setBytes(x & ~7ull, nb, ix);
          }
          x += k;
        }
      }
    }
    x = stop > x ? stop : x;
  }
}
void __sym_mset(void * p, void *, u64 n) { __sym_clear(p, n); }

static bool anyPage(u64 a, u64 n)
{
  for(u64 x = a & ~4095ull; x < a + n; x += 4096)
    if(pageMaybe(x)) return true;
  return false;
}

void __sym_cpy(void * d, void * s, u64 n)
{
  if(!n || d == s) return;
  if(!s)
  {
    __sym_clear(d, n);
    return;
  }
  u64 da = (u64)d, sa = (u64)s;
  if(!anyPage(sa, n))
  {
    __sym_clear(d, n);
    return;
  }
  // gather the source bytes, then write. The native copy happens after: record the source bits
  std::vector<Node *> nb(n);
  std::vector<uint8_t> ix(n);
  bool any = false;
  for(u64 k = 0; k < n;)
  {
    Node * b8[8];
    uint8_t i8[8];
    u64 base = (sa + k) & ~7ull;
    int off = (int)(sa + k - base);
    getBytes(base, b8, i8);
    for(int j = off; j < 8 && k < n; ++j, ++k)
    {
      nb[k] = b8[j];
      ix[k] = i8[j];
      if(nb[k]) any = true;
    }
  }
  if(!any)
  {
    __sym_clear(d, n);
    return;
  }
  // perform the copy natively first (idempotent with the memcpy/memmove that follows, since memmove semantics of the
  // source is preserved only if the regions do not overlap; for overlapping regions work on a temporary)
  std::vector<uint8_t> tmp((uint8_t *)s, (uint8_t *)s + n);
  std::vector<uint8_t> old((uint8_t *)d, (uint8_t *)d + n);
  memcpy(d, tmp.data(), n);
  for(u64 k = 0; k < n;)
  {
    Node * b8[8];
    uint8_t i8[8];
    u64 base = (da + k) & ~7ull;
    int off = (int)(da + k - base);
    if(off == 0 && k + 8 <= n)
    {
      setBytes(base, &nb[k], &ix[k]);
      k += 8;
    }
    else
    {
      // neighbours: bits unchanged
      Page * p = page(base, false);
      if(p && p->c[(base >> 3) & 511].n)
      {
        // compare against the bits before the copy for the bytes that are overwritten: they are replaced anyway
        getBytes(base, b8, i8, byteMask(off, (int)std::min<u64>(8 - off, n - k)));
      }
      else
        for(int j = 0; j < 8; ++j)
        {
          b8[j] = nullptr;
          i8[j] = 0;
        }
      for(int j = off; j < 8 && k < n; ++j, ++k)
      {
        b8[j] = nb[k];
        i8[j] = ix[k];
      }
      setBytes(base, b8, i8);
    }
  }
  // undo when overlapping, so that the following memmove sees its original source
  if(!(da + n <= sa || sa + n <= da)) memcpy(d, old.data(), n);
}

void * __sym_realloc(void * p, u64 n)
{
  size_t o = p ? malloc_usable_size(p) : 0;
  void * q = malloc(n);
  if(!q) return q;
  __sym_clear(q, n);
  if(p)
  {
    size_t k = std::min<u64>(o, n);
    __sym_cpy(q, p, k);
    memcpy(q, p, k);
    __sym_clear(p, o);
    free(p);
  }
  return q;
}
// Released memory is overwritten and not reused (up to a limit), so that a use after release is visible.
void * __sym_free(void * p)
{
  static size_t kept = 0;
  if(!p) return nullptr;
  size_t n = malloc_usable_size(p);
  __sym_clear(p, n);
  if(n > (1u << 20) || kept > (256u << 20)) return p;
  memset(p, 0xA5, n);
  kept += n;
  return nullptr;
}
void __sym_loadck(void * p, u64 n)
{
  u64 a = (u64)p;
  if(!anyPage(a, n)) return;
  for(u64 base = a & ~7ull; base < a + n; base += 8)
  {
    Node * nb[8];
    uint8_t ix[8];
    getBytes(base, nb, ix);
    for(int k = 0; k < 8; ++k)
      if(nb[k] && base + k >= a && base + k < a + n)
      {
        Guard g;
        incomplete("wide load / memcmp of a symbolic value");
        return;
      }
  }
}

void __sym_enter(void * f, int n)
{
  if(__sym_token == f)
  {
    __sym_token = nullptr;
    return;
  }
  __sym_token = nullptr;
  for(int i = 0; i < n && i < 64; ++i) __sym_args[i] = nullptr;
}

#define REC() record(__builtin_return_address(0))

// LLVM opcodes
enum { L_Add = 13, L_FAdd = 14, L_Sub = 15, L_FSub = 16, L_Mul = 17, L_FMul = 18, L_UDiv = 19, L_SDiv = 20, L_FDiv = 21,
       L_URem = 22, L_SRem = 23, L_FRem = 24, L_Shl = 25, L_LShr = 26, L_AShr = 27, L_And = 28, L_Or = 29, L_Xor = 30 };
enum { L_Trunc = 38, L_ZExt = 39, L_SExt = 40 };

static Node * realBitsOp(int op, Node * a, u64 av, Node * b, u64 bv, bool & done)
{
  // integer operation applied to the bit pattern of a real: sign manipulations
  Node * r = a && a->sort == S_REAL ? a : b;
  Node * o = r == a ? b : a;
  u64 ov = r == a ? bv : av;
  done = false;
  if(o && !isC(o)) return nullptr;
  if(o) ov = o->sort == S_BV ? o->cv : 0;
  if(op == L_Xor && ov == 0x8000000000000000ull)
  {
    done = true;
    return rNeg(r);
  }
  if(op == L_And && ov == 0x7fffffffffffffffull)
  {
    done = true;
    return mkIte(rCmp(O_LT, r, cq(0)), rNeg(r), r);
  }
  return nullptr;
}

Node * __sym_binop(int op, int w, Node * a, u64 av, Node * b, u64 bv)
{
  if(!a && !b) return nullptr;
  Guard g;
  REC();
  if(a) a = R(a);
  if(b) b = R(b);
  if((a && a->sort == S_REAL && !isC(a)) || (b && b->sort == S_REAL && !isC(b)))
  {
    bool done;
    Node * r = realBitsOp(op, a, av, b, bv, done);
    if(done) return r;
  }
  if(w == 1)
  {
    Node *x = asBV(a, av, 1), *y = asBV(b, bv, 1);
    switch(op)
    {
      case L_And:
      case L_Mul: return mkBool2(O_AND, x, y);
      case L_Or: return mkBool2(O_OR, x, y);
      case L_Xor:
      case L_Add:
      case L_Sub: return mkBool2(O_XOR, x, y);
      default: incomplete("i1 operation %d", op); return nullptr;
    }
  }
  Node *x = asBV(a, av, w), *y = asBV(b, bv, w);
  if(x->width != w || y->width != w)
  {
    incomplete("width mismatch");
    return nullptr;
  }
  Op o;
  switch(op)
  {
    case L_Add: o = O_BADD; break;
    case L_Sub: o = O_BSUB; break;
    case L_Mul: o = O_BMUL; break;
    case L_UDiv: o = O_BUDIV; break;
    case L_SDiv: o = O_BSDIV; break;
    case L_URem: o = O_BUREM; break;
    case L_SRem: o = O_BSREM; break;
    case L_Shl: o = O_BSHL; break;
    case L_LShr: o = O_BLSHR; break;
    case L_AShr: o = O_BASHR; break;
    case L_And: o = O_BAND; break;
    case L_Or: o = O_BOR; break;
    case L_Xor: o = O_BXOR; break;
    default: incomplete("integer opcode %d", op); return nullptr;
  }
  return bBin(o, x, y);
}

Node * __sym_fneg(Node * a)
{
  if(!a) return nullptr;
  Guard g;
  REC();
  a = asReal(a, 0);
  if(isNF(a)) return cd(-a->nf);
  return rNeg(a);
}

static double dval(Node * n) { return isNF(n) ? n->nf : n->q->get_d(); }

Node * __sym_fbin(int op, Node * a, double av, Node * b, double bv)
{
  if(!a && !b) return nullptr;
  Guard g;
  REC();
  Node * x = a ? asReal(a, 0) : cd(av);
  Node * y = b ? asReal(b, 0) : cd(bv);
  if(isNF(x) || isNF(y))
  {
    // sign analysis
    auto sgn = [&](Node * n) -> double {
      if(isC(n)) return dval(n);
      if(decide(rCmp(O_EQ, n, cq(0)))) return 0.;
      return decide(rCmp(O_LT, cq(0), n)) ? 1. : -1.;
    };
    double p, q;
    if(op == L_FAdd || op == L_FSub)
    {
      p = isNF(x) ? x->nf : 0.;
      q = isNF(y) ? y->nf : 0.;
      return cd(op == L_FAdd ? p + q : p - q);
    }
    p = sgn(x);
    q = sgn(y);
    if(op == L_FMul) return cd(p * q);
    if(op == L_FDiv) return cd(p / q);
    incomplete("frem");
    return nullptr;
  }
  switch(op)
  {
    case L_FAdd: return rAdd(x, y);
    case L_FSub: return rSub(x, y);
    case L_FMul: return rMul(x, y);
    case L_FDiv:
      if(isC(y))
      {
        if(*y->q == 0)
        {
          double yz = b ? 0. : bv; // keep the sign of the concrete zero
          if(isC(x)) return cd(dval(x) / yz);
          if(decide(rCmp(O_EQ, x, cq(0)))) return cd(NAN);
          return cd((decide(rCmp(O_LT, cq(0), x)) ? 1. : -1.) / yz);
        }
        return rMul(x, cq(1 / *y->q));
      }
      if(decide(rCmp(O_EQ, y, cq(0))))
      {
        outsideModel("division by a symbolic zero");
        endPath();
      }
      y = R(y);
      if(isC(y)) return rMul(x, cq(1 / *y->q));
      if(isZeroC(x)) return x;
      if(x == y) return cq(1);
      return mk(O_DIV, S_REAL, 0, x, y);
    default: incomplete("fp opcode %d", op); return nullptr;
  }
}

Node * __sym_icmp(int pred, int w, Node * a, u64 av, Node * b, u64 bv)
{
  if(!a && !b) return nullptr;
  Guard g;
  REC();
  if(a) a = R(a);
  if(b) b = R(b);
  if((a && a->sort == S_REAL && !isC(a)) || (b && b->sort == S_REAL && !isC(b)))
  {
    bool both = a && b && a->sort == S_REAL && b->sort == S_REAL;
    if(both && (pred == 32 || pred == 33))
    {
      Node * e = rCmp(O_EQ, a, b);
      return pred == 32 ? e : mkNot(e);
    }
    Node * r = a && a->sort == S_REAL ? a : b;
    Node * o = r == a ? b : a;
    u64 ov = o ? (isC(o) ? o->cv : 1) : (r == a ? bv : av);
    if((!o || isC(o)) && r == a)
    {
      double d;
      memcpy(&d, &ov, 8);
      if(pred == 32 || pred == 33)
      {
        if(!std::isfinite(d)) return cbool(pred == 33);
        Node * e = rCmp(O_EQ, r, cd(d));
        return pred == 32 ? e : mkNot(e);
      }
      if(pred == 40 && ov == 0) return rCmp(O_LT, r, cq(0)); // slt 0
      if(pred == 38 && ov == ~0ull) return rCmp(O_LE, cq(0), r); // sgt -1
    }
  }
  if(w == 1)
  {
    Node *x = asBV(a, av, 1), *y = asBV(b, bv, 1);
    switch(pred)
    {
      case 32: return mkNot(mkBool2(O_XOR, x, y));
      case 33: return mkBool2(O_XOR, x, y);
      case 34: return mkBool2(O_AND, x, mkNot(y)); // ugt
      case 35: return mkBool2(O_OR, x, mkNot(y));
      case 36: return mkBool2(O_AND, mkNot(x), y);
      case 37: return mkBool2(O_OR, mkNot(x), y);
      case 38: return mkBool2(O_AND, mkNot(x), y); // sgt: true is -1
      case 39: return mkBool2(O_OR, mkNot(x), y);
      case 40: return mkBool2(O_AND, x, mkNot(y));
      default: return mkBool2(O_OR, x, mkNot(y));
    }
  }
  Node *x = asBV(a, av, w), *y = asBV(b, bv, w);
  if(x->width != w || y->width != w)
  {
    incomplete("width mismatch");
    return nullptr;
  }
  switch(pred)
  {
    case 32: return bCmp(O_EQ, x, y);
    case 33: return mkNot(bCmp(O_EQ, x, y));
    case 34: return bCmp(O_BULT, y, x);
    case 35: return bCmp(O_BULE, y, x);
    case 36: return bCmp(O_BULT, x, y);
    case 37: return bCmp(O_BULE, x, y);
    case 38: return bCmp(O_BSLT, y, x);
    case 39: return bCmp(O_BSLE, y, x);
    case 40: return bCmp(O_BSLT, x, y);
    default: return bCmp(O_BSLE, x, y);
  }
}

Node * __sym_fcmp(int pred, Node * a, double av, Node * b, double bv)
{
  if(!a && !b) return nullptr;
  Guard g;
  REC();
  Node * x = a ? asReal(a, 0) : cd(av);
  Node * y = b ? asReal(b, 0) : cd(bv);
  if(pred == 0) return cbool(false);
  if(pred == 15) return cbool(true);
  bool unord = pred & 8;
  if(isNF(x) || isNF(y))
  {
    double p = isNF(x) ? x->nf : 0., q = isNF(y) ? y->nf : 0.;
    bool nan = std::isnan(p) || std::isnan(q);
    if(nan) return cbool(unord);
    bool r = false;
    if(pred & 1) r |= p == q;
    if(pred & 2) r |= p > q;
    if(pred & 4) r |= p < q;
    if((pred & 7) == 7 && pred == 7) r = true;
    return cbool(r);
  }
  switch(pred & 7)
  {
    case 0: return cbool(false); // uno
    case 7: return cbool(true); // ord
    case 1: return rCmp(O_EQ, x, y);
    case 2: return rCmp(O_LT, y, x);
    case 3: return rCmp(O_LE, y, x);
    case 4: return rCmp(O_LT, x, y);
    case 5: return rCmp(O_LE, x, y);
    default: return mkNot(rCmp(O_EQ, x, y));
  }
}

Node * __sym_select(Node * c, bool cn, Node * t, u64 tb, Node * f, u64 fb, int w)
{
  if(!c)
    return cn ? t : f;
  Guard g;
  REC();
  c = R(c);
  if(t) t = R(t);
  if(f) f = R(f);
  if(w == 64 && ((t && t->sort == S_REAL) || (f && f->sort == S_REAL))) w = 1000;
  Node * x = w == 1000 ? asReal(t, tb) : t && t->sort == S_AGG ? t : asBV(t, tb, w);
  Node * y = w == 1000 ? asReal(f, fb) : f && f->sort == S_AGG ? f : asBV(f, fb, w);
  if(isC(c)) return c->cv ? x : y;
  if(isNF(x) || isNF(y)) return decide(c) ? x : y;
  return mkIte(c, x, y);
}

Node * __sym_cast(int op, int wi, int wo, Node * a, u64 av)
{
  if(!a) return nullptr;
  Guard g;
  a = R(a);
  if(a->sort == S_REAL && !isC(a))
  {
    incomplete("integer cast of the bits of a real");
    return nullptr;
  }
  Node * x = asBV(a, av, wi);
  if(op == L_ZExt) return bExt(false, x, wo);
  if(op == L_SExt) return bExt(true, x, wo);
  if(wo == 1) return asBV(x, 0, 1);
  return bExtract(x, 0, wo);
}

bool __sym_branch(Node * c, bool n)
{
  if(!c) return n;
  Guard g;
  REC();
  c = R(c);
  if(c->sort == S_BV) c = asBV(c, 0, 1);
  return decide(c);
}

u64 __sym_conc(Node * n, u64 nv, int w)
{
  if(!n) return nv;
  Guard g;
  REC();
  n = R(n);
  if(n->sort == S_REAL)
  {
    if(isC(n)) return asBV(n, nv, 64)->cv;
    incomplete("real bits concretized");
    return nv;
  }
  if(n->sort == S_BOOL) return decide(n) ? 1 : 0;
  n = simp(n);
  for(int k = 0; k < 100000; ++k)
  {
    if(isC(n)) return n->cv;
    if(!ev(n))
    {
      ModelUpd mu;
      if(query({cbool(true), bCmp(O_EQ, n, n)}, mu) != SAT) break;
      applyModel(mu);
      if(!ev(n)) break;
    }
    u64 v = n->evi;
    if(decide(bCmp(O_EQ, n, cb(v, n->width)))) return v;
    n = simp(n);
  }
  incomplete("concretization failed");
  return nv;
}

static Node * mkSqrt(Node * x)
{
  if(isC(x)) return cd(std::sqrt(x->q->get_d()));
  if(decide(rCmp(O_LT, x, cq(0))))
  {
    outsideModel("square root of a negative value");
    endPath();
  }
  x = R(x);
  if(isC(x)) return cd(std::sqrt(x->q->get_d()));
  for(size_t i = 0; i < VI->size(); ++i)
    if((*VI)[i].sqrtOf == x) return R((*VI)[i].n);
  Node k;
  k.op = O_VAR;
  k.sort = S_REAL;
  k.width = 0;
  k.cv = VI->size();
  Node * n = intern(k);
  Bits * b = new Bits;
  b->set((unsigned)n->cv);
  n->vars = b;
  VarInfo vi;
  vi.n = n;
  vi.name = "sqrt";
  vi.sqrtOf = x;
  VI->push_back(vi);
  PC->push_back(rCmp(O_EQ, rMul(n, n), x));
  PC->push_back(rCmp(O_LE, cq(0), n));
  return n;
}

Node * __sym_fun(int code, int w, Node * a, u64 av, Node * b, u64 bv)
{
  if(!a && !b) return nullptr;
  Guard g;
  REC();
  if(code >= 20)
  {
    Node * x = asBV(a, av, w);
    if(code == 24) return mkIte(bCmp(O_BSLT, x, cb(0, w)), bBin(O_BSUB, cb(0, w), x), x);
    Node * y = asBV(b, bv, w);
    switch(code)
    {
      case 20: return mkIte(bCmp(O_BSLT, x, y), x, y);
      case 21: return mkIte(bCmp(O_BSLT, x, y), y, x);
      case 22: return mkIte(bCmp(O_BULT, x, y), x, y);
      default: return mkIte(bCmp(O_BULT, x, y), y, x);
    }
  }
  Node * x = asReal(a, av);
  Node * y = asReal(b, bv);
  if(isC(x) && (code <= 2 || (code >= 6 && code <= 9) || isC(y)))
  {
    double p = dval(x), q = dval(y);
    switch(code)
    {
      case 1: return cd(std::sqrt(p));
      case 2: return cd(std::fabs(p));
      case 3: return cd(std::fmin(p, q));
      case 4: return cd(std::fmax(p, q));
      case 5: return cd(std::pow(p, q));
      case 6: return cd(std::exp(p));
      case 7: return cd(std::log(p));
      case 8: return cd(std::sin(p));
      case 9: return cd(std::cos(p));
      case 10: return cd(std::hypot(p, q));
    }
  }
  switch(code)
  {
    case 1: return mkSqrt(x);
    case 2: return mkIte(rCmp(O_LT, x, cq(0)), rNeg(x), x);
    case 3:
    case 4:
      if(isNF(x) || isNF(y))
      {
        Node *f = isNF(x) ? y : x, *i = isNF(x) ? x : y;
        if(std::isnan(i->nf)) return f;
        bool takeInf = (i->nf > 0) == (code == 4);
        return takeInf ? i : f;
      }
      if(code == 3) return mkIte(rCmp(O_LT, y, x), y, x);
      return mkIte(rCmp(O_LT, x, y), y, x);
    case 5:
      if(isC(y) && y->q)
      {
        if(*y->q == 2) return rMul(x, x);
        if(*y->q == 1) return x;
        if(*y->q == 0) return cq(1);
        if(*y->q == mpq_class(1, 2)) return mkSqrt(x);
      }
      break;
    case 10: return mkSqrt(rAdd(rMul(x, x), rMul(y, y)));
  }
  incomplete("transcendental function %d of a symbolic value", code);
  return nullptr;
}

Node * __sym_aggget(Node * a, int k)
{
  if(!a || a->sort != S_AGG) return nullptr;
  return (size_t)k < a->kids.size() ? R(a->kids[k]) : nullptr;
}
Node * __sym_aggset(Node * a, int k, Node * v)
{
  if(!a && !v) return nullptr;
  Node key;
  key.op = O_AGG;
  key.sort = S_AGG;
  key.width = 0;
  if(a) key.kids = a->kids;
  if(key.kids.size() <= (size_t)k) key.kids.resize(k + 1);
  key.kids[k] = v;
  return intern(key);
}

// ------------------------------------------------------------------------------------------------ harness API
static std::map<std::string, int> * names;
static std::string uniq(const char * n)
{
  int k = (*names)[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static Node * newVar(Sort s, int w, const std::string & name)
{
  Node k;
  k.op = O_VAR;
  k.sort = s;
  k.width = w;
  k.cv = VI->size();
  Node * n = intern(k);
  Bits * b = new Bits;
  b->set((unsigned)n->cv);
  n->vars = b;
  VarInfo vi;
  vi.n = n;
  vi.name = name;
  VI->push_back(vi);
  return n;
}
// fetch the shadow of argument i of an API function
static void fetch(void * f)
{
  if(__sym_token != f)
    for(int i = 0; i < 8; ++i) __sym_args[i] = nullptr;
  __sym_token = nullptr;
}

double sym_real(const char * name, double lo, double hi)
{
  Guard g;
  fetch((void *)&sym_real);
  Node * n = newVar(S_REAL, 0, uniq(name));
  auto & vi = VI->back();
  // a generic looking initial value
  static unsigned seed = 12345;
  seed = seed * 1103515245 + 12345;
  double t = ((seed >> 16) % 97 + 1) / 98.;
  double v = lo + (hi - lo) * t;
  v = std::round(v * 64) / 64;
  if(!(v > lo && v < hi)) v = lo + (hi - lo) / 2;
  vi.q = mpq_class(v);
  PC->push_back(rCmp(O_LE, cd(lo), n));
  PC->push_back(rCmp(O_LE, n, cd(hi)));
  __sym_ret = n;
  return v;
}
int sym_int(const char * name, int lo, int hi)
{
  Guard g;
  fetch((void *)&sym_int);
  Node * n = newVar(S_BV, 32, uniq(name));
  VI->back().i = (u32)lo;
  VI->back().bounded = true;
  VI->back().lo = lo;
  VI->back().hi = hi;
  PC->push_back(bCmp(O_BSLE, cb((u32)lo, 32), n));
  PC->push_back(bCmp(O_BSLE, n, cb((u32)hi, 32)));
  __sym_ret = n;
  return lo;
}
bool sym_bool(const char * name)
{
  Guard g;
  fetch((void *)&sym_bool);
  Node * n = newVar(S_BOOL, 1, uniq(name));
  __sym_ret = n;
  return false;
}
int sym_choose(const char * name, int n)
{
  Guard g;
  fetch((void *)&sym_choose);
  std::string nm = uniq(name);
  __sym_ret = nullptr;
  int v = 0;
  for(; v + 1 < n; ++v)
  {
    // child takes v, parent goes on with the other values
    if(doFork()) break;
  }
  choices->emplace_back(nm, v);
  return v;
}
int sym_conc(int x)
{
  Guard g;
  fetch((void *)&sym_conc);
  Node * n = __sym_args[0];
  __sym_ret = nullptr;
  return (int)__sym_conc(n, (u32)x, 32);
}
void sym_assume(bool c)
{
  Guard g;
  fetch((void *)&sym_assume);
  Node * n = __sym_args[0];
  if(!n)
  {
    if(!c)
    {
      SH->outsideT.add("assumption false");
      endPath();
    }
    return;
  }
  flushChecks();
  assumeN(asBV(n, c, 1));
}
void sym_check(bool c, const char * msg)
{
  Guard g;
  fetch((void *)&sym_check);
  Node * n = __sym_args[0];
  if(!n)
  {
    SH->checks++;
    SH->checksConc++;
    if(!c) violation(msg, nullptr);
    return;
  }
  checkBool(asBV(n, c, 1), msg);
}
void sym_check_eq(double a, double b, const char * msg)
{
  Guard g;
  fetch((void *)&sym_check_eq);
  Node *x = __sym_args[0], *y = __sym_args[1];
  SH->checks++;
  if(!x && !y)
  {
    SH->checksConc++;
    double s = 1 + std::max(std::abs(a), std::abs(b));
    if(a == b) return;
    if(!(std::abs(a - b) <= 1e-9 * s)) violation(msg, nullptr);
    return;
  }
  x = x ? asReal(x, 0) : cd(a);
  y = y ? asReal(y, 0) : cd(b);
  if(isNF(x) || isNF(y))
  {
    bool ok = isNF(x) && isNF(y) && x->nf == y->nf;
    if(!ok) violation(msg, nullptr);
    return;
  }
  if(x == y)
  {
    SH->checksId++;
    return;
  }
  pending->push_back({x, y, msg});
  if(pending->size() >= 40) flushChecks();
}
bool sym_same(double a, double b)
{
  Guard g;
  fetch((void *)&sym_same);
  Node *x = __sym_args[0], *y = __sym_args[1];
  __sym_ret = nullptr;
  if(!x && !y) return a == b || std::abs(a - b) <= 1e-9 * (1 + std::max(std::abs(a), std::abs(b)));
  x = x ? asReal(x, 0) : cd(a);
  y = y ? asReal(y, 0) : cd(b);
  if(isNF(x) || isNF(y)) return isNF(x) && isNF(y) && x->nf == y->nf;
  if(x == y) return true;
  std::unordered_map<Node *, Node *> memo;
  x = simp(x, memo);
  y = simp(y, memo);
  if(x == y) return true;
  Canon can;
  return polyZero(can, x, y);
}
void sym_check_le(double a, double b, const char * msg)
{
  Guard g;
  fetch((void *)&sym_check_le);
  Node *x = __sym_args[0], *y = __sym_args[1];
  if(!x && !y)
  {
    SH->checks++;
    SH->checksConc++;
    double s = 1 + std::max(std::abs(a), std::abs(b));
    if(!(a <= b || a - b <= 1e-9 * s)) violation(msg, nullptr);
    return;
  }
  x = x ? asReal(x, 0) : cd(a);
  y = y ? asReal(y, 0) : cd(b);
  if(isNF(x) || isNF(y))
  {
    SH->checks++;
    double p = isNF(x) ? x->nf : 0, q = isNF(y) ? y->nf : 0;
    if(!(p <= q)) violation(msg, nullptr);
    return;
  }
  // margin: what rounding explains is not a violation
  checkBool(rCmp(O_LE, rSub(x, y), cd(tolEq)), msg);
}
void sym_reach(const char * label) { SH->reach.add(label); }
int sym_tier() { __sym_ret = nullptr; return tier; }
int sym_native() { __sym_ret = nullptr; return 0; }
void sym_cut(const char * why)
{
  Guard g;
  flushChecks();
  SH->outsideT.add(why);
  endPath();
}

// assertion failures of the code under test
void __assert_fail(const char * expr, const char * file, unsigned line, const char * fn)
{
  if(inRT)
  {
    fprintf(stderr, "engine assertion: %s %s:%u\n", expr, file, line);
    incomplete("engine assertion %s", expr);
    endPath();
  }
  Guard g;
  flushChecks();
  char b[300];
  const char * base = strrchr(file, '/');
  (void)fn;
  snprintf(b, sizeof b, "crash: assertion `%s' (%s)", expr, base ? base + 1 : file);
  violation(b, nullptr);
  SH->paths++;
  endPath();
}
} // extern "C"

static void onsig(int s)
{
  if(inRT)
  {
    char b[64];
    snprintf(b, sizeof b, "engine: signal %d in the runtime", s);
    SH->incomplete.add(b);
    endPath();
  }
  ++inRT;
  char b[100];
  snprintf(b, sizeof b, s == SIGALRM ? "hang: path exceeded its time limit" : "crash: signal %d", s);
  if(s == SIGALRM && SH->stop) endPath();
  violation(b, nullptr);
  SH->paths++;
  endPath();
}

static void emit(FILE * f, const char * k, Tab & t)
{
  for(int i = 0; i < t.n; ++i)
  {
    for(char * c = t.s[i]; *c; ++c)
      if(*c == '\n' || *c == '\t' || *c == '\r') *c = ' ';
    fprintf(f, "%s\t%llu\t%s\n", k, (unsigned long long)t.c[i], t.s[i]);
  }
}

int main(int argc, char ** argv)
{
  if(argc > 1) outdir = argv[1];
  double budget = argc > 2 ? atof(argv[2]) : 300;
  tier = argc > 3 ? atoi(argv[3]) : 0;
  int jobs = argc > 4 ? atoi(argv[4]) : 8;
  if(getenv("SYM_KNOWN"))
  {
    std::string s = getenv("SYM_KNOWN");
    size_t p = 0;
    while(p < s.size())
    {
      size_t e = s.find('\n', p);
      if(e == std::string::npos) e = s.size();
      if(e > p) knownMsgs.insert(s.substr(p, e - p));
      p = e + 1;
    }
  }
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof(Shared));
  sem_init(&SH->tokens, 1, jobs - 1);
  SH->deadline = now() + budget;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  table = new std::unordered_map<Node *, Node *, KeyHash, KeyEq>();
  table->reserve(1 << 14);
  VI = new std::vector<VarInfo>();
  PC = new std::vector<Node *>();
  choices = new std::vector<std::pair<std::string, long>>();
  pending = new std::vector<Pending>();
  names = new std::map<std::string, int>();
  qcache = new std::unordered_map<std::vector<u32>, std::pair<Res, ModelUpd>, QHash>();
  zc(); // create the context before forking: it is inherited
  SH->live = 1;
  SH->procs = 1;
  double t0 = now();
  // The root path must own a token: the semaphore has jobs-1 left.
  pid_t p = fork();
  if(p == 0)
  {
    static char alt[1 << 16];
    stack_t ss;
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM})
    {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = onsig;
      sa.sa_flags = SA_ONSTACK | SA_NODEFER;
      sigaction(s, &sa, nullptr);
    }
    alarm(getenv("SYM_PATH_TIMEOUT") ? atoi(getenv("SYM_PATH_TIMEOUT")) : 200);
    try
    {
      harness();
    }
    catch(const std::exception & e)
    {
      Guard g;
      std::string m = std::string("uncaught exception: ") + e.what();
      violation(m.c_str(), nullptr);
    }
    catch(...)
    {
      Guard g;
      violation("uncaught exception", nullptr);
    }
    {
      Guard g;
      flushChecks();
      int tr = SH->traces++;
      // spread the validated traces: path numbers 0..3, then powers of two
      if(tr < 4 || (tr & (tr - 1)) == 0)
      {
        std::string fn = std::string(outdir) + "/trace_" + std::to_string(tr) + ".txt";
        FILE * f = fopen(fn.c_str(), "w");
        if(f)
        {
          dumpModel(f, nullptr);
          fclose(f);
        }
      }
      if(SH->samples.n < 6)
      {
        std::string s;
        for(auto & c : *choices) s += c.first + "=" + std::to_string(c.second) + " ";
        s += "| " + std::to_string(VI->size()) + " symbolic vars, pc " + std::to_string(PC->size());
        if(s.size() > 150) s = s.substr(0, 100) + "..." + s.substr(s.size() - 45);
        SH->samples.add(s.c_str());
      }
    }
    SH->paths++;
    endPath();
  }
  int st;
  while(true)
  {
    pid_t q = waitpid(-1, &st, 0);
    if(q < 0)
    {
      if(errno == EINTR) continue;
      break;
    }
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
      incomplete("a path process died (status %d)", st);
      SH->abnormal++;
    }
  }
  std::string rf = std::string(outdir) + "/result.txt";
  FILE * f = fopen(rf.c_str(), "w");
#define E(x) fprintf(f, "stat\t%llu\t" #x "\n", (unsigned long long)SH->x)
  E(paths);
  E(forks);
  E(procs);
  E(queries);
  E(qsat);
  E(qunsat);
  E(qunk);
  E(decisions);
  E(checks);
  E(checksId);
  E(checksConc);
  E(checksPoly);
  E(polyConfirmed);
  E(checksSolver);
  E(rounding);
  E(solver_us);
  E(maxdepth);
  E(outside);
  E(symops);
  E(abnormal);
  E(stop);
  fprintf(f, "stat\t%llu\twall_ms\n", (unsigned long long)((now() - t0) * 1000));
  emit(f, "reach", SH->reach);
  emit(f, "incomplete", SH->incomplete);
  emit(f, "outside", SH->outsideT);
  emit(f, "viol", SH->viol);
  emit(f, "sample", SH->samples);
  for(auto & a : SH->pcs)
    if(a.load()) fprintf(f, "pc\t%llx\t-\n", (unsigned long long)a.load());
  fclose(f);
  return 0;
}
