// P05: counted variables give the union of what is currently in use, for every history of additions and removals.
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/internal/VariableCountingVector.h>
#include <tvm/internal/VariableVectorPartition.h>
using namespace tvm;
using namespace tvm::internal;
using namespace vf;
namespace
{
struct V
{
  VariablePtr p;
  int sup, s, n; // range in the supervariable (in coefficients)
  int inUse; // additions minus removals of this very variable
  bool whole; // no part of it was removed separately
  bool added = false; // its addition brought new coefficients (since its super variable was last unused)
};
std::vector<V> pool;
std::vector<std::vector<int>> cnt; // per supervariable, per coefficient
std::vector<VariablePtr> sup;

void check(const VariableVector & vars, bool split)
{
  int lastSup = -1, lastEnd = 0;
  std::vector<std::vector<int>> cover;
  for(auto & c : cnt) cover.push_back(std::vector<int>(c.size(), 0));
  for(const auto & v : vars)
  {
    int si = -1;
    for(size_t i = 0; i < sup.size(); ++i)
      if(sup[i] && v->superVariable() == sup[i]) si = (int)i;
    sym_check(si >= 0, "variables are parts of the variables added");
    if(si < 0) return;
    Range r = v->subvariableRange();
    sym_check(v->size() == r.dim && r.dim > 0, "parts are not empty");
    sym_check(si > lastSup || (si == lastSup && r.start >= lastEnd), "parts are sorted by supervariable and range");
    if(!split) sym_check(si > lastSup || r.start > lastEnd, "parts are maximal");
    lastSup = si;
    lastEnd = r.end();
    for(int j = r.start; j < r.end() && j < (int)cnt[si].size(); ++j)
    {
      ++cover[si][j];
      if(split) sym_check(cnt[si][j] == cnt[si][r.start], "parts of a partition have a constant count");
    }
    if(split)
      for(auto & p : pool)
        if(p.sup == si && p.inUse > 0 && p.whole)
        {
          bool in = r.start >= p.s && r.end() <= p.s + p.n, out = r.end() <= p.s || r.start >= p.s + p.n;
          sym_check(in || out, "an added variable is a union of parts");
        }
  }
  for(size_t i = 0; i < cnt.size(); ++i)
    for(size_t j = 0; j < cnt[i].size(); ++j)
      sym_check(cover[i][j] == (cnt[i][j] > 0), "a coefficient is covered once exactly when it is in use");
}
} // namespace
void harness()
{
  int kind = sym_choose("space", 4);
  bool split = sym_choose("split", 2);
  VariablePtr x, y;
  int N = 0;
  if(kind == 0) // arbitrary parts of a Euclidean variable, created on the fly
  {
    N = sym_tier() ? 5 : 4;
    x = Space(N).createVariable("x");
  }
  else if(kind == 3) // several variables, some of which are destroyed once they are no longer in use
  {
    x = Space(2).createVariable("x");
    pool.push_back({x, 0, 0, 2, 0, true});
  }
  else
  {
    x = (Space(1) * Space(Space::Type::SE3) * Space(2)).createVariable("x");
    if(kind == 2) x = dot(x);
    int q = kind == 1 ? 7 : 6;
    pool.push_back({x, 0, 0, q + 3, 0, true});
    pool.push_back({x->subvariable(Space(Space::Type::SE3), "a", Space(1)), 0, 1, q, 0, true});
    pool.push_back({x->subvariable(Space(1) * Space(Space::Type::SE3), "b"), 0, 0, q + 1, 0, true});
    pool.push_back({x->subvariable(Space(2), "d", Space(1) * Space(Space::Type::SE3)), 0, q + 1, 2, 0, true});
  }
  y = Space(1).createVariable("y");
  pool.push_back({y, 1, 0, 1, 0, true});
  int iy = (int)pool.size() - 1;
  sup = {x, y};
  cnt.push_back(std::vector<int>(x->size(), 0));
  cnt.push_back({0});
  x.reset();
  y.reset();

  VariableCountingVector vc(split);
  bool query = sym_choose("query", 2);
  bool onlyAdd = true;
  int len = (sym_tier() ? 4 : 3) + (kind == 3);
  for(int k = 0; k < len; ++k)
  {
    int op = sym_choose("op", 4);
    if(op >= 1 && k == 0) sym_cut("nothing to remove");
    if(op == 3) // destruction of a variable no longer in use; another one is created
    {
      if(kind != 3 || cnt[1][0] != 1) sym_cut("no removal");
      sym_check(vc.remove(*pool[iy].p), "remove reports a change");
      cnt[1][0] = 0;
      pool[iy].inUse = 0;
      pool[iy].p.reset();
      sup[1].reset();
      pool[iy].p = Space(1).createVariable("y2");
      sup[1] = pool[iy].p;
      sym_reach("destruction");
    }
    else if(op == 2)
    {
      vc.clear();
      for(auto & c : cnt) c.assign(c.size(), 0);
      for(auto & p : pool) p.inUse = 0, p.whole = true;
    }
    else
    {
      int i = sym_choose("v", (int)pool.size() + (kind == 0));
      if(i == (int)pool.size()) // any part of x
      {
        int s = sym_int("start", 0, N - 1), n = sym_int("dim", 1, N);
        sym_assume(s + n <= N);
        pool.push_back({sup[0]->subvariable(Space(n), "s", Space(s)), 0, s, n, 0, true});
      }
      bool r = false;
      bool t = throws([&] { r = op == 0 ? vc.add(pool[i].p) : vc.remove(*pool[i].p); });
      pool[i].s = sym_conc(pool[i].s);
      pool[i].n = sym_conc(pool[i].n);
      auto & c = cnt[pool[i].sup];
      bool all = true, change = false;
      for(int j = pool[i].s; j < pool[i].s + pool[i].n; ++j) all = all && c[j] > 0;
      sym_check(t == (op == 1 && !all), "a removal is refused exactly when a coefficient is not in use");
      for(int j = pool[i].s; j < pool[i].s + pool[i].n; ++j)
      {
        if(op == 0)
        {
          change = change || c[j] == 0;
          ++c[j];
        }
        else if(all)
        {
          --c[j];
          change = change || c[j] == 0;
        }
      }
      if(op == 0)
      {
        if(change) sym_check(r, "add reports a change");
        // the same part added through another object
        int at = i;
        for(int q = 0; q < i; ++q)
          if(pool[q].sup == pool[i].sup && pool[q].s == pool[i].s && pool[q].n == pool[i].n) at = q;
        ++pool[at].inUse;
        if(change) pool[at].added = true;
      }
      else
      {
        onlyAdd = false;
        if(!t)
        {
          if(change) sym_check(r, "remove reports a change");
          bool none = true;
          for(int j : c) none = none && j == 0;
          if(none)
            for(auto & p : pool)
              if(p.sup == pool[i].sup) p.added = false;
          int at = -1;
          for(int q = 0; q < (int)pool.size(); ++q)
            if(pool[q].sup == pool[i].sup && pool[q].s == pool[i].s && pool[q].n == pool[i].n && pool[q].inUse) at = q;
          if(at >= 0)
            --pool[at].inUse;
          else // what was removed is only a part of what was added
            for(auto & p : pool)
              if(p.sup == pool[i].sup) p.whole = false;
          sym_reach("removal");
        }
        else
          sym_reach("refused removal");
      }
    }
    if(query) check(vc.variables(), split);
  }
  const VariableVector & vars = vc.variables();
  check(vars, split);
  bool disjoint = true;
  for(auto & c : cnt)
    for(int j : c) disjoint = disjoint && j <= 1;
  sym_check(vc.isDisjointUnion() == disjoint, "disjoint union exactly when no coefficient is counted twice");
  if(split)
  {
    sym_check(throws([&] { vc.simple(); }), "simple() is refused for partitions");
    // iteration over the variables still in use along the partition
    std::vector<VariablePtr> l;
    for(size_t i = pool.size(); i-- > 0;)
      if(pool[i].inUse > 0 && pool[i].whole) l.push_back(pool[i].p);
    if(l.empty()) return;
    std::vector<VariablePtr> got;
    VariableVectorPartition<std::vector<VariablePtr>> part(l, vc);
    for(const auto & v : part) got.push_back(v);
    size_t g = 0;
    for(auto & v : l)
    {
      int at = v->subvariableRange().start, end = v->subvariableRange().end();
      while(at < end)
      {
        bool ok = g < got.size() && got[g]->superVariable() == v->superVariable() && got[g]->subvariableRange().start == at;
        sym_check(ok, "iterating over a partition gives the consecutive parts of each variable");
        if(!ok) return;
        at = got[g]->subvariableRange().end();
        ++g;
      }
      sym_check(at == end, "the parts cover exactly the variable");
    }
    sym_check(g == got.size(), "iterating over a partition gives nothing else");
    if(g > l.size()) sym_reach("split variable");
  }
  else
  {
    auto simple = vc.simple();
    sym_check((int)simple.size() == vars.numberOfVariables(), "simple() mirrors variables()");
    for(int i = 0; i < vars.numberOfVariables() && i < (int)simple.size(); ++i)
    {
      bool single = false;
      for(auto & p : pool)
        if(p.added && *p.p == *vars[i]) single = true;
      if(simple[i]) sym_check(single, "simple variables come from a single addition");
      if(simple[i]) sym_reach("simple");
    }
  }
}
