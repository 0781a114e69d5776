// P04: range counting agrees with counting each index separately, for all ranges (symbolic limits).
#include "vh.h"
#include <tvm/internal/RangeCounting.h>
using namespace tvm;
using namespace tvm::internal;
using namespace vf;
namespace
{
struct R
{
  int s, e, w;
}; // [s,e) counted w times
std::vector<R> hist;
int count(int j)
{
  int c = 0;
  for(auto & h : hist) c += h.w * (int)((h.s <= j) & (j < h.e));
  return c;
}
} // namespace
void harness()
{
  RangeCounting rc;
  int N = 15; // any order of at most 8 limits is met
  int nAdd = 0, len = sym_tier() ? 4 : 3;
  std::vector<R> added;
  bool removed = false, refused = false;
  int query = sym_choose("query", 3);
  for(int k = 0; k < len; ++k)
  {
    int s = sym_int("start", 0, N), d = sym_int("dim", 0, N);
    bool add = k == 0 || sym_choose("add", 2) == 0;
    // what ranges(false) covers at an arbitrary index, before the operation
    if(add)
    {
      std::vector<Range> before = RangeCounting(rc).ranges();
      bool ret = rc.add(Range(s, d));
      sym_check(ret == !(before == RangeCounting(rc).ranges()), "add tells if the ranges are changed");
      hist.push_back({s, s + d, 1});
      ++nAdd;
    }
    else
    {
      // each index of a removed range must be currently counted: the count can only become null at a limit of a range
      bool ok = true;
      std::vector<R> h = hist;
      ok = ok & ((d == 0) | (count(s) > 0));
      for(auto & r : hist)
      {
        ok = ok & !((s <= r.e) & (r.e < s + d) & (count(r.e) <= 0));
        ok = ok & !((s <= r.s) & (r.s < s + d) & (count(r.s) <= 0));
      }
      std::vector<Range> before = RangeCounting(rc).ranges();
      bool ret = false;
      bool t = throws([&] { ret = rc.remove(Range(s, d)); });
      if(!t) sym_check(ret == !(before == RangeCounting(rc).ranges()), "remove tells if the ranges are changed");
      sym_check(t == !ok, "a range is accepted for removal exactly when each of its indexes is counted");
      if(!t)
      {
        hist.push_back({s, s + d, -1});
        removed = true;
      }
      else refused = true;
    }
    if(k < len - 1 && query) rc.ranges(query == 2); // intermediate queries must not perturb the result
  }
  if(removed) sym_reach("removal");
  if(refused) sym_reach("refused removal");
  int j = sym_int("index", 0, 2 * N);
  int c = count(j);
  bool any = false;
  int mx = 0;
  for(auto & h : hist)
  {
    any = any | (count(h.s) > 0) | (count(h.e) > 0);
    for(int e : {h.s, h.e})
    {
      int ce = count(e);
      mx = ce > mx ? ce : mx;
    }
  }
  sym_check(rc.empty() == !any, "empty exactly when nothing is counted");
  sym_check(rc.maxCount() == mx, "maximum count");
  int order = query ? 0 : sym_choose("order", 2);
  for(int q = 0; q < 2; ++q)
  {
    bool split = (q == 0) == (order == 0);
    std::vector<Range> rs = rc.ranges(split);
    int in = 0, prevEnd = -1;
    for(size_t i = 0; i < rs.size(); ++i)
    {
      int s = rs[i].start, e = rs[i].end();
      sym_check(rs[i].dim > 0, "ranges are not empty");
      if(split) sym_check(s >= prevEnd, "ranges are sorted and disjoint");
      else sym_check(s > prevEnd || i == 0, "ranges are maximal, sorted and disjoint");
      prevEnd = e;
      bool inside = (s <= j) & (j < e);
      in += inside;
      if(split)
      {
        int cs = count(s);
        sym_check(!inside | (c == cs), "split ranges have a constant count");
        // a split happens only at a limit of a range added or removed
        bool lim = false;
        for(auto & h : hist) lim = lim | (h.s == s) | (h.e == s);
        sym_check(lim, "split ranges start at the limit of a range");
      }
    }
    sym_check(in == (int)(c > 0), "an index is in exactly one range if it is counted, none otherwise");
    if(rs.size() > 1) sym_reach("several ranges");
  }
}
