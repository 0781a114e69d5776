// P03: a VariableVector maps each variable to its own slice, under every history of additions/removals/copies.
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
using namespace tvm;
using namespace vf;
namespace
{
// pool of variables: (supervariable index, start, size)
struct V
{
  VariablePtr p;
  int sup, s, n;
};
std::vector<V> pool;
bool contains(int a, int b) { return pool[a].sup == pool[b].sup && pool[a].s <= pool[b].s && pool[b].s + pool[b].n <= pool[a].s + pool[a].n; }
bool intersects(int a, int b) { return pool[a].sup == pool[b].sup && pool[a].s < pool[b].s + pool[b].n && pool[b].s < pool[a].s + pool[a].n; }
bool same(int a, int b) { return contains(a, b) && contains(b, a); }

struct Model
{
  std::vector<int> l;
  bool has(int v) const
  {
    for(int i : l)
      if(contains(i, v)) return true;
    return false;
  }
  // 0: already there, 1: added, 2: partially there (exception)
  int add(int v)
  {
    if(has(v)) return 0;
    for(int i : l)
      if(intersects(i, v)) return 2;
    l.push_back(v);
    return 1;
  }
  int total() const
  {
    int t = 0;
    for(int i : l) t += pool[i].n;
    return t;
  }
};
std::vector<std::vector<double>> val; // values per supervariable

void check(VariableVector & vv, const Model & m)
{
  sym_check(vv.numberOfVariables() == (int)m.l.size(), "number of variables");
  sym_check(vv.totalSize() == m.total(), "total size");
  if(vv.numberOfVariables() != (int)m.l.size() || vv.totalSize() != m.total()) return;
  const VectorXd & value = vv.value();
  sym_check(value.size() == m.total(), "size of the concatenated value");
  int start = 0;
  for(size_t i = 0; i < m.l.size(); ++i)
  {
    const V & v = pool[m.l[i]];
    sym_check(*vv[(int)i] == *v.p, "variables are listed in insertion order");
    Range r = v.p->getMappingIn(vv);
    sym_check(r.start == start && r.dim == v.n, "range of a variable");
    for(int j = 0; j < v.n && start + v.n <= value.size(); ++j)
      sym_check_eq(value[start + j], val[v.sup][v.s + j], "value is the concatenation of the values");
    start += v.n;
  }
  for(size_t k = 0; k < pool.size(); ++k)
  {
    bool has = m.has((int)k), inter = false;
    int idx = -1, st = 0, at = -1;
    for(size_t i = 0; i < m.l.size(); ++i)
    {
      if(same(m.l[i], (int)k)) idx = (int)i;
      if(contains(m.l[i], (int)k)) at = st + pool[k].s - pool[m.l[i]].s;
      inter = inter || intersects(m.l[i], (int)k);
      st += pool[m.l[i]].n;
    }
    sym_check(vv.contains(*pool[k].p) == has, "contains");
    sym_check(vv.intersects(*pool[k].p) == inter, "intersects");
    sym_check(vv.indexOf(*pool[k].p) == idx, "indexOf");
    Range r(0, 0);
    bool thrown = throws([&] { r = pool[k].p->getMappingIn(vv); });
    sym_check(thrown == !has, "mapping is given exactly for the variables and parts contained");
    if(!thrown && has) sym_check(r.start == at && r.dim == pool[k].n, "range of a variable or part");
  }
}
} // namespace
void harness()
{
  VariablePtr x = Space(3).createVariable("x"), y = Space(2).createVariable("y");
  pool.push_back({x, 0, 0, 3});
  pool.push_back({y, 1, 0, 2});
  pool.push_back({x->subvariable(Space(2), "x01"), 0, 0, 2});
  pool.push_back({x->subvariable(Space(2), "x12", Space(1)), 0, 1, 2});
  pool.push_back({x->subvariable(Space(1), "x2", Space(2)), 0, 2, 1});
  VectorXd vx = vec("x", 3), vy = vec("y", 2);
  x->set(vx);
  y->set(vy);
  val = {{vx[0], vx[1], vx[2]}, {vy[0], vy[1]}};

  VariableVector vv, other;
  Model m, mo;
  int len = sym_tier() ? 4 : 3;
  for(int k = 0; k < len; ++k)
  {
    int stamp = vv.stamp();
    std::vector<int> before = m.l;
    switch(sym_choose("op", 10))
    {
      case 0:
      {
        int i = sym_choose("v", (int)pool.size());
        bool ret = false;
        int e = m.add(i);
        bool t = throws([&] { ret = vv.add(pool[i].p); });
        sym_check(t == (e == 2), "adding a partially present variable is refused");
        if(!t) sym_check(ret == (e == 1), "add reports if the variable was added");
        break;
      }
      case 1:
      {
        int i = sym_choose("v", (int)pool.size());
        bool c = sym_choose("containing", 2);
        int at = -1, strict = -1;
        for(size_t j = 0; j < m.l.size(); ++j)
        {
          if(same(m.l[j], i)) at = (int)j;
          else if(contains(m.l[j], i)) strict = (int)j;
        }
        int e = m.add(i), ret = -2;
        if(e == 1) at = (int)m.l.size() - 1;
        bool t = throws([&] { ret = vv.addAndGetIndex(pool[i].p, c); });
        sym_check(t == (e == 2), "adding a partially present variable is refused");
        if(!t) sym_check(ret == (at >= 0 ? at : c ? strict : -1), "addAndGetIndex returns the index");
        break;
      }
      case 2:
      {
        int i = sym_choose("v", (int)pool.size());
        bool found = false;
        for(size_t j = 0; j < m.l.size(); ++j)
          if(same(m.l[j], i))
          {
            m.l.erase(m.l.begin() + j);
            found = true;
            break;
          }
        sym_check(vv.remove(*pool[i].p) == found, "remove reports if the variable was there");
        if(found) sym_reach("removed");
        break;
      }
      case 3:
      {
        int i = sym_int("index", -2, 4);
        bool t = throws([&] { vv.remove(i); });
        bool bad = i < 0 || i >= (int)m.l.size();
        sym_check(t == bad, "removing at an invalid index is refused");
        if(!bad)
        {
          m.l.erase(m.l.begin() + sym_conc(i));
          sym_reach("removed by index");
        }
        break;
      }
      case 4:
        vv.clear();
        m.l.clear();
        break;
      case 5: // concatenated value
      {
        VectorXd v = vec("v", m.total());
        vv.set(v);
        int st = 0;
        for(int i : m.l)
        {
          for(int j = 0; j < pool[i].n; ++j) val[pool[i].sup][pool[i].s + j] = v[st + j];
          st += pool[i].n;
        }
        break;
      }
      case 6: // the same variables in another vector have another mapping
      {
        int i = sym_choose("v", (int)pool.size());
        int e = mo.add(i);
        bool t = throws([&] { other.add(pool[i].p); });
        sym_check(t == (e == 2), "adding a partially present variable is refused");
        break;
      }
      case 7:
      {
        int c = sym_choose("copy", 4);
        if(c == 0)
        {
          vv = other;
          m = mo;
          sym_reach("copy assignment");
        }
        else if(c == 1)
        {
          VariableVector & self = vv;
          vv = self;
          sym_reach("self assignment");
        }
        else if(c == 2)
        {
          VariableVector copy(vv);
          check(copy, m);
          copy.clear();
          sym_reach("copy construction");
        }
        else
        {
          VariableVector tmp(other, pool[1].p);
          mo.add(1);
          other = tmp;
        }
        break;
      }
      case 8: // move
      {
        VariableVector moved(std::move(vv));
        check(moved, m);
        vv = std::move(moved);
        sym_reach("move");
        break;
      }
      case 9: // addition of another vector
      {
        bool refused = false;
        Model m2 = m;
        for(int i : mo.l)
          if(!refused && m2.add(i) == 2) refused = true;
        if(refused) sym_cut("partially present");
        m = m2;
        vv.add(other);
        break;
      }
    }
    if(m.l != before) sym_check(vv.stamp() != stamp, "a change of content changes the stamp");
    check(vv, m);
    check(other, mo);
  }
}
