// Histories of changes of a problem given to a least-squares solver.
#pragma once
#include "items.h"
#include <tvm/internal/VariableCountingVector.h>
using namespace tvm;
using namespace vf;
using Type = Item::Type;
using RHS = Item::RHS;
namespace
{
struct World
{
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y"), z = Space(1).createVariable("z");
  std::vector<Item> items;
  std::vector<bool> in;
  tvm::internal::VariableCountingVector vars;
  std::vector<const Item *> present() const
  {
    std::vector<const Item *> r;
    for(size_t i = 0; i < items.size(); ++i)
      if(in[i]) r.push_back(&items[i]);
    return r;
  }
  bool concrete; // cost with known coefficients
  int step = 0;
  World(bool concrete = false) : concrete(concrete)
  {
    items.emplace_back(Item::CONSTRAINT, 1, std::vector<VariablePtr>{x, y}, Type::EQUAL, RHS::AS_GIVEN);
    items.emplace_back(Item::CONSTRAINT, 2, std::vector<VariablePtr>{x}, Type::GREATER_THAN, RHS::OPPOSITE);
    items.emplace_back(Item::OBJECTIVE, 2, std::vector<VariablePtr>{z, x}, Type::EQUAL, RHS::AS_GIVEN);
    items.emplace_back(Item::BOUND, 2, std::vector<VariablePtr>{x}, Type::DOUBLE_SIDED, RHS::AS_GIVEN);
    items.emplace_back(Item::CONSTRAINT, 1, std::vector<VariablePtr>{y, z}, Type::DOUBLE_SIDED, RHS::AS_GIVEN);
    items.emplace_back(Item::OBJECTIVE, 1, std::vector<VariablePtr>{y}, Type::EQUAL, RHS::OPPOSITE);
    items.emplace_back(Item::BOUND, 1, std::vector<VariablePtr>{z}, Type::LOWER_THAN, RHS::AS_GIVEN, -1);
    items.emplace_back(Item::CONSTRAINT, 1, std::vector<VariablePtr>{z}, Type::EQUAL, RHS::ZERO);
    items.emplace_back(Item::BOUND, 2, std::vector<VariablePtr>{x}, Type::GREATER_THAN, RHS::AS_GIVEN);
    items.emplace_back(Item::CONSTRAINT, 1, std::vector<VariablePtr>{x}, Type::EQUAL, RHS::AS_GIVEN);
    items.emplace_back(Item::CONSTRAINT, 1, std::vector<VariablePtr>{x}, Type::LOWER_THAN, RHS::AS_GIVEN);
    items.emplace_back(Item::CONSTRAINT, 1, std::vector<VariablePtr>{x}, Type::GREATER_THAN, RHS::AS_GIVEN);
    if(!concrete) // (the cost needs to have a unique factorisation)
      items.emplace_back(Item::OBJECTIVE, 1, std::vector<VariablePtr>{z}, Type::EQUAL, RHS::AS_GIVEN);
    in.resize(items.size(), false);
    for(auto & i : items) i.concrete = concrete && i.kind == Item::OBJECTIVE;
  }
  void set(Item & i)
  {
    i.w = concrete ? (step = step % 3 + 1) * 1.25 : sym_real("weight", 0.25, 4);
    i.req->weight() = i.w;
  }
  void seta(Item & i)
  {
    for(int k = 0; k < i.m; ++k) i.aw[k] = concrete ? (step = step % 3 + 1) * 0.75 : sym_real("anisotropic weight", 0.25, 4);
    i.req->anisotropicWeight() = i.aw;
  }
};
template<typename Solver>
void build(Solver & s, World & W)
{
  int o = 0, e = 0, q = 0;
  bool b = false;
  for(auto i : W.present())
  {
    if(i->kind == Item::OBJECTIVE)
      o += i->m;
    else if(i->kind == Item::BOUND)
      b = true;
    else
      (i->t == Type::EQUAL ? e : q) += s.constraintSize(*i->c);
  }
  s.startBuild(W.vars.variables(), o, e, q, b);
  for(auto i : W.present())
    switch(i->kind)
    {
      case Item::CONSTRAINT: s.addConstraint(i->c); break;
      case Item::BOUND: s.addBound(i->c); break;
      default: s.addObjective(i->c, i->req, i->s);
    }
  s.finalizeBuild();
}
// adapt: how the solver writes the problem
template<typename Solver, typename Adapt>
void check(Solver & s, World & W, Adapt adapt)
{
  for(auto & i : W.items) i.values();
  int n = rec::solved;
  sym_check(s.solve() && rec::solved == n + 1, "solve calls the solver");
  auto p = W.present();
  auto e = expected(std::vector<const Lin *>(p.begin(), p.end()), W.vars.variables());
  adapt(e);
  rec::compare(rec::last, e);
  sym_check(&s.result() == &rec::result || s.result() == rec::result, "the result is that of the library");
}
// a history of changes
template<typename Solver, typename Adapt>
void history(Solver & s, World & W, Adapt adapt, int ops)
{
  static const int start[] = {0x0f, 0x94, 0x1ff, 0, 0x620, 0x68};
  int st = start[sym_choose("start", 6)];
  int n = W.items.size();
  // weights: given at the beginning or not
  int wk = sym_choose("weights", 3);
  for(auto & i : W.items)
    if(i.kind == Item::OBJECTIVE)
    {
      i.s = 10;
      if(wk == 1) W.set(i);
      if(wk == 2) W.seta(i);
    }
  for(int i = 0; i < n; ++i)
    if(st >> i & 1)
    {
      W.in[i] = true;
      for(auto & v : W.items[i].x) W.vars.add(v);
    }
  build(s, W);
  check(s, W, adapt);
  if(wk == 0) check(s, W, adapt); // again
  for(int k = 0; k < 2; ++k)
  {
    solver::internal::SolverEvents se;
    // up to 2 changes at once (the same item may be added and removed, or conversely)
    int objectives = 0;
    for(int j = 0; j < (k == 0 ? ops + 1 : 1); ++j)
    {
      // with a change of weights among other changes of the objectives
      if(k == 0 && j == ops && objectives < 2) break;
      int o = k == 0 && j == ops ? n + sym_choose("change of weights", 3) : sym_choose("change", n + 3);
      if(o == n + 2) continue;
      if(o >= n) // weights
      {
        for(auto & i : W.items)
          if(i.kind == Item::OBJECTIVE)
          {
            if(o == n)
            {
              W.set(i);
              se.addScalarWeightEvent(i.c.get());
            }
            else
            {
              W.seta(i);
              se.addVectorWeightEvent(i.c.get());
            }
          }
        continue;
      }
      Item & i = W.items[o];
      bool add = !W.in[o];
      objectives += i.kind == Item::OBJECTIVE;
      W.in[o] = add;
      for(auto & v : i.x)
      {
        if(add)
        {
          if(W.vars.add(v)) se.addVariable(v);
        }
        else if(W.vars.remove(*v))
          se.removeVariable(v);
      }
      switch(i.kind)
      {
        case Item::CONSTRAINT: add ? se.addConstraint(i.c) : se.removeConstraint(i.c); break;
        case Item::BOUND: add ? se.addBound(i.c) : se.removeBound(i.c); break;
        default:
          if(add)
            se.addObjective({i.c, i.req, i.s});
          else
            se.removeObjective(i.c);
      }
    }
    W.vars.variables();
    s.process(se);
    check(s, W, adapt);
    if(!sym_tier()) break;
  }
  // from scratch, with the same solver and with another one
  if(sym_choose("rebuild", 2))
  {
    build(s, W);
    check(s, W, adapt);
    sym_reach("rebuilt");
  }
}
} // namespace
