// P32: the hierarchy passed to the numerical library is the one of the constraints and bounds given to the solver, whatever was
// built before with this solver.
#include <solver/LexLSHierarchicalLeastSquareSolver.cpp>
#include "p21.h"
using namespace tvm;
using namespace vf;
using Type = Lin::Type;
using RHS = Lin::RHS;
void harness()
{
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y"), z = Space(1).createVariable("z");
  using V = std::vector<VariablePtr>;
  std::vector<Item> items;
  items.emplace_back(Item::CONSTRAINT, 1, V{x, y}, Type::EQUAL, RHS::AS_GIVEN);
  items.emplace_back(Item::CONSTRAINT, 2, V{x}, Type::GREATER_THAN, RHS::OPPOSITE);
  items.emplace_back(Item::CONSTRAINT, 2, V{z, x}, Type::EQUAL, RHS::OPPOSITE);
  items.emplace_back(Item::BOUND, 2, V{x}, Type::DOUBLE_SIDED, RHS::AS_GIVEN);
  items.emplace_back(Item::CONSTRAINT, 1, V{y}, Type::DOUBLE_SIDED, RHS::AS_GIVEN);
  items.emplace_back(Item::CONSTRAINT, 1, V{x}, Type::EQUAL, RHS::AS_GIVEN);
  items.emplace_back(Item::BOUND, 1, V{y}, Type::LOWER_THAN, RHS::AS_GIVEN, -1);
  // items, levels
  struct Config
  {
    int in, lvl[7];
    bool z;
  };
  static const Config configs[] = {{0x0b, {0, 1}, false}, {0x37, {0, 1, 2, 0, 1, 2}, true}, {0x03, {0, 0}, false}, {0x7b, {0, 0, 0, 0, 1, 1}, false}, {0x48, {0}, false}, {0x21, {1, 0, 0, 0, 0, 3}, false}, {0x43, {0, 1}, false}};
  std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> s;
  int kind = sym_choose("solver", 3);
  if(kind == 2)
    s = MockHFactory().createSolver();
  else
    s = solver::LexLSHLSSolverFactory(solver::LexLSHLSSolverOptions().feasibleFirstLevel(kind == 1).warmStart(true)).clone()->createSolver();
  VariableVector small, large;
  small.add(x);
  small.add(y);
  large.add(z);
  large.add(x);
  large.add(y);
  int wk = sym_choose("weights", 2);
  for(auto & i : items)
  {
    if(i.kind == Item::BOUND || !wk) continue;
    i.w = sym_real("weight", 0.25, 4);
    if(wk > 0)
      for(int k = 0; k < i.m; ++k) i.aw[k] = sym_real("anisotropic weight", 0.25, 4);
  }
  for(int k = 0; k < 2 + sym_tier(); ++k)
  {
    const Config & c = configs[sym_choose("problem", 7)];
    bool damping = sym_choose("minimum norm", 2);
    const VariableVector & v = c.z ? large : small;
    std::vector<int> e(1, 0), q(1, 0);
    bool b = false;
    std::vector<Lin> in;
    for(int i = 0; i < 7; ++i)
    {
      if(!(c.in >> i & 1)) continue;
      Item & it = items[i];
      if(it.kind == Item::BOUND)
        b = true;
      else
      {
        it.req = std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(c.lvl[i]));
        if(wk)
        {
          it.req->weight() = it.w;
          it.req->anisotropicWeight() = it.aw;
        }
        e.resize(std::max<size_t>(e.size(), c.lvl[i] + 1), 0);
        q.resize(e.size(), 0);
        (it.t == Type::EQUAL ? e : q)[c.lvl[i]] += s->constraintSize(*it.c);
      }
    }
    if(damping)
    {
      e.push_back(v.totalSize());
      q.push_back(0);
    }
    s->startBuild(v, e, q, b);
    for(int i = 0; i < 7; ++i)
      if(c.in >> i & 1)
      {
        if(items[i].kind != Item::BOUND) s->addConstraint(items[i].c, items[i].req);
        else s->addBound(items[i].c);
      }
    if(damping) s->setMinimumNorm();
    s->finalizeBuild();
    sym_check(s->numberOfLevels() == int(e.size()) + b, "number of levels");
    for(int r = 0; r < 2; ++r)
    {
      for(auto & i : items) i.values();
      in.clear();
      for(int i = 0; i < 7; ++i)
        if(c.in >> i & 1)
        {
          in.push_back(items[i]);
          in.back().s = c.lvl[i];
        }
      int n = rec::solved;
      sym_check(s->solve() && rec::solved == n + 1, "solve calls the solver");
      compare(levels(in, v, damping));
      sym_check(&s->result() == &rec::result, "the result is that of the library");
    }
  }
  sym_reach("end hier");
}
