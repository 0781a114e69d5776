// The levels of a hierarchical problem, and how to compare them with those a solver was given.
#pragma once
#include "psub.h"
#include "mockhsolver.h"
namespace vf
{
struct Levels
{
  std::vector<rec::Level> l;
  VectorXd xl, xu;
};
// The level of each item is in s
inline Levels levels(const std::vector<Lin> & items, const tvm::VariableVector & v, bool damping)
{
  Levels r;
  int n = v.totalSize();
  r.xl = VectorXd::Constant(n, -rec::big);
  r.xu = VectorXd::Constant(n, rec::big);
  bool bounds = false;
  auto at = [&](int p) -> rec::Level & {
    if(int(r.l.size()) <= p) r.l.resize(p + 1);
    return r.l[p];
  };
  for(auto & i : items)
  {
    Lin c = i;
    c.s = 1;
    rec::Problem q;
    q.n = n;
    q.xl = r.xl;
    q.xu = r.xu;
    if(i.kind == Lin::BOUND)
    {
      bounds = true;
      c.addTo(q, v);
      r.xl = q.xl;
      r.xu = q.xu;
      at(0);
      continue;
    }
    rec::Level & l = at(int(i.s));
    c.kind = Lin::CONSTRAINT;
    for(int k = 0; k < c.m; ++k)
    {
      double f = std::sqrt(c.w) * std::sqrt(c.aw[k]);
      for(auto & A : c.A) A.row(k) *= f;
      if(c.t != Lin::Type::LOWER_THAN) c.l[k] *= f;
      if(c.t != Lin::Type::GREATER_THAN) c.u[k] *= f;
    }
    c.addTo(q, v);
    l.eq.insert(l.eq.end(), q.eq.begin(), q.eq.end());
    l.ge.insert(l.ge.end(), q.ge.begin(), q.ge.end());
  }
  if(damping)
  {
    r.l.emplace_back();
    for(int i = 0; i < n; ++i) r.l.back().eq.push_back(rec::row(MatrixXd::Identity(n, n), VectorXd::Zero(n), i));
  }
  return r;
}
// what the solver got, against what was expected
inline void compare(Levels e)
{
  auto g = rec::lastLevels;
  VectorXd xl = rec::last.xl, xu = rec::last.xu;
  int n = e.xl.size();
  sym_check(rec::last.n == n, "number of variables");
  if(rec::last.n != n) return;
  if(!g.empty() && g[0].simple)
  {
    xl = g[0].xl;
    xu = g[0].xu;
    g.erase(g.begin());
  }
  if(xl.size() != n) // no bounds on the variables: they are among the rows of the first level
  {
    for(int i = 0; i < n; ++i)
    {
      MatrixXd I = MatrixXd::Identity(n, n);
      if(!rec::isBig(e.xl[i])) e.l[0].ge.push_back(rec::row(I, e.xl, i));
      if(!rec::isBig(e.xu[i])) e.l[0].ge.push_back(rec::row(I, e.xu, i, -1));
    }
  }
  else
  {
    eqv(xl, e.xl, "the lower bounds are those of the problem");
    eqv(xu, e.xu, "the upper bounds are those of the problem");
  }
  size_t k = std::max(g.size(), e.l.size());
  g.resize(k);
  e.l.resize(k);
  for(size_t i = 0; i < k; ++i)
  {
    rec::compare(g[i].eq, e.l[i].eq, true, "the equalities of each level are those of the tasks with this priority");
    rec::compare(g[i].ge, e.l[i].ge, false, "the inequalities of each level are those of the tasks with this priority");
  }
}
} // namespace vf
