// P24: pending changes keep only their net effect; the notifications of a problem reach all its listeners.
#include "vh.h"
#include <algorithm>
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/scheme/internal/ProblemComputationData.h>
#include <tvm/scheme/internal/helpers.hpp>
#include <tvm/solver/internal/SolverEvents.h>
#include <tvm/task_dynamics/None.h>
using namespace tvm;
using namespace vf;
using namespace tvm::scheme::internal;
using solver::internal::SolverEvents;
using ET = ProblemDefinitionEvent::Type;
namespace
{
template<typename T, typename U>
bool has(const std::vector<T> & v, const U & x)
{ return std::find(v.begin(), v.end(), x) != v.end(); }
// What remains for the solver after a history of additions, removals and changes
void solverEvents()
{
  SolverEvents e;
  Space S(1);
  const int N = 5; // items: constraint, constraint, bound, objective, objective
  LinearConstraintPtr c[N];
  for(int i = 0; i < N; ++i)
    c[i] = std::make_shared<constraint::BasicLinearConstraint>(1, VariablePtr(S.createVariable("x")), constraint::Type::EQUAL);
  VariablePtr v[2] = {S.createVariable("v0"), S.createVariable("v1")};
  int in[N + 2], at0[N + 2]; // -1: not known yet
  std::fill(in, in + N + 2, -1);
  std::fill(at0, at0 + N + 2, -1);
  bool scalar[N] = {}, vect[N] = {}, hidden = false;
  double w[N] = {};
  SolvingRequirementsPtr req[N];
  int menu = anyInt("menu", 4);
  std::vector<std::vector<int>> menus = {{0, 1, 2, 3, 5}, {3, 4, 7, 5, 12}, {5, 6, 0, 2}, {0, 7, 3, 10, 12}};
  for(int k = 0; k < 4 + sym_tier(); ++k)
  {
    int op = menus[menu][anyInt("op", static_cast<int>(menus[menu].size()))];
    if(op >= N + 2)
    {
      int i = (op - N - 2) % N;
      (op - N - 2 < N ? scalar : vect)[i] = true;
      if(op - N - 2 < N)
        e.addScalarWeightEvent(c[i].get());
      else
        e.addVectorWeightEvent(c[i].get());
      continue;
    }
    if(in[op] < 0) in[op] = at0[op] = anyInt("initial", 2);
    bool add = !in[op];
    if(op < 2) add ? e.addConstraint(c[op]) : e.removeConstraint(c[op]);
    else if(op == 2) add ? e.addBound(c[op]) : e.removeBound(c[op]);
    else if(op < 5)
    {
      if(add)
      {
        w[op] = sym_real("w", 0, 10);
        req[op] = std::make_shared<requirements::SolvingRequirementsWithCallbacks>();
        e.addObjective({c[op], req[op], w[op]});
      }
      else
        e.removeObjective(c[op]);
    }
    else
    {
      if(in[op] != at0[op]) hidden = true;
      add ? e.addVariable(v[op - N]) : e.removeVariable(v[op - N]);
    }
    in[op] = add;
  }
  size_t n[8] = {};
  for(int i = 0; i < N + 2; ++i)
  {
    bool add = in[i] == 1 && at0[i] == 0, rem = in[i] == 0 && at0[i] == 1;
    if(i < 2)
    {
      sym_check(has(e.addedConstraints(), c[i]) == add, "added constraints");
      sym_check(has(e.removedConstraints(), c[i]) == rem, "removed constraints");
      n[0] += add;
      n[1] += rem;
    }
    else if(i == 2)
    {
      sym_check(has(e.addedBounds(), c[i]) == add, "added bounds");
      sym_check(has(e.removedBounds(), c[i]) == rem, "removed bounds");
      n[2] += add;
      n[3] += rem;
    }
    else if(i < 5)
    {
      auto it = std::find_if(e.addedObjectives().begin(), e.addedObjectives().end(), [&](auto & o) { return o.c == c[i]; });
      sym_check((it != e.addedObjectives().end()) == add, "added objectives");
      if(add)
      {
        sym_check(it->req == req[i], "requirements of the last addition");
        sym_check_eq(it->scalarizationWeight, w[i], "weight of the last addition");
      }
      sym_check(has(e.removedObjectives(), c[i]) == rem, "removed objectives");
      n[4] += add;
      n[5] += rem;
    }
    else
    {
      sym_check(has(e.addedVariables(), v[i - N]) == add, "added variables");
      sym_check(has(e.removedVariables(), v[i - N]) == rem, "removed variables");
      n[6] += add;
      n[7] += rem;
    }
  }
  sym_check(e.addedConstraints().size() == n[0] && e.removedConstraints().size() == n[1], "nothing else");
  sym_check(e.addedBounds().size() == n[2] && e.removedBounds().size() == n[3], "nothing else");
  sym_check(e.addedObjectives().size() == n[4] && e.removedObjectives().size() == n[5], "nothing else");
  sym_check(e.addedVariables().size() == n[6] && e.removedVariables().size() == n[7], "nothing else");
  if(hidden) sym_check(e.hasHiddenVariableChange(), "the order of the variables may have changed");
  size_t we = 0;
  for(int i = 0; i < N; ++i)
  {
    auto p = [&](const SolverEvents::WeightEvent & k) { return k.c == c[i].get(); };
    auto it = std::find_if(e.weightEvents().begin(), e.weightEvents().end(), p);
    bool some = scalar[i] | vect[i];
    sym_check((it != e.weightEvents().end()) == some, "weight changes");
    if(some) sym_check(it->scalar == scalar[i] && it->vector == vect[i], "kind of weight change");
    we += some;
  }
  sym_check(e.weightEvents().size() == we, "one weight event for each constraint");
  sym_reach("solver events");
}

struct Data : ProblemComputationData
{
  Data(int id) : ProblemComputationData(id) {}
  void setVariablesToSolution_(tvm::internal::VariableCountingVector &) override {}
};
// Reads the events of a problem, and tracks the tasks it contains.
struct Reader
{
  struct State
  {
    const void * t;
    bool in, added, removed;
    int weight, aniso;
  };
  ProblemComputationData * d = nullptr;
  std::vector<State> s;
  std::vector<std::pair<ET, const void *>> subs;
  State & operator[](const void * t)
  {
    for(auto & k : s)
      if(k.t == t) return k;
    s.push_back({t, false, false, false, 0, 0});
    return s.back();
  }
  void read(ET t, const void * a)
  {
    if(t == ET::SubstitutionAddition || t == ET::SubstitutionRemoval)
    {
      subs.emplace_back(t, a);
      return;
    }
    auto & k = (*this)[a];
    if(t == ET::TaskAddition)
    {
      sym_check(!k.in, "added once");
      sym_check(!k.added, "one addition");
      k = {a, true, true, k.removed, 0, 0};
    }
    else
    {
      sym_check(k.in, "events are about tasks that are present");
      if(t == ET::TaskRemoval)
      {
        sym_check(!k.removed, "one removal");
        k.in = false;
        k.removed = true;
      }
      if(t == ET::WeightChange) ++k.weight;
      if(t == ET::AnisotropicWeightChange) ++k.aniso;
    }
  }
  // starting from here
  void mark()
  {
    subs.clear();
    for(auto & k : s) k = {k.t, k.in, false, false, 0, 0};
  }
  void all()
  {
    while(d->hasEvents())
    {
      auto e = d->popEvent();
      read(e.type(), e.emitter());
    }
  }
};
// The truth about the tasks of a problem, for one listener
struct Truth
{
  const void * t;
  bool in0, in;
  int weight, aniso, changes;
};
void compare(Reader & r, const std::vector<Truth> & T, const std::vector<std::pair<ET, const void *>> & subs)
{
  r.mark();
  r.all();
  for(auto & t : T)
  {
    auto & k = r[t.t];
    sym_check(k.in == t.in, "tasks in the problem");
    if(t.in)
    {
      sym_check((k.weight > 0) == (t.weight > 0), "weight changes are not forgotten");
      sym_check((k.aniso > 0) == (t.aniso > 0), "anisotropic weight changes are not forgotten");
    }
    if(!t.in0 && !t.in) sym_check(!k.added && !k.removed, "adding then removing a task leaves nothing to do");
    if(!t.changes) sym_check(!k.added && !k.removed, "no event without a change");
  }
  sym_check(r.subs == subs, "substitution events, in order");
}
// Events put directly in a queue
void queue()
{
  Data d(1);
  Reader r;
  r.d = &d;
  alignas(TaskWithRequirements) char mem[2][sizeof(TaskWithRequirements)];
  Truth T[2];
  for(int i = 0; i < 2; ++i)
  {
    bool in = anyInt("initial", 2);
    T[i] = {mem[i], in, in, 0, 0, 0};
    r[mem[i]].in = in;
  }
  std::vector<std::pair<ET, const void *>> subs;
  for(int k = 0; k < 4 + sym_tier(); ++k)
  {
    int op = anyInt("op", 10);
    auto & t = T[op % 2];
    auto & task = *reinterpret_cast<const TaskWithRequirements *>(t.t);
    // the memory of a substitution that no longer exists may be used for a task
    auto hint = reinterpret_cast<const hint::Substitution *>(t.t);
    switch(op / 2)
    {
      case 0:
        d.addEvent({t.in ? ET::TaskRemoval : ET::TaskAddition, task});
        t.in = !t.in;
        t.weight = t.aniso = 0;
        ++t.changes;
        break;
      case 1:
        if(!t.in) return;
        d.addEvent({ET::WeightChange, task});
        ++t.weight;
        break;
      case 2:
        if(!t.in) return;
        d.addEvent({ET::AnisotropicWeightChange, task});
        ++t.aniso;
        break;
      case 3:
        d.addEvent({op % 2 ? ET::SubstitutionAddition : ET::SubstitutionRemoval, hint});
        subs.emplace_back(op % 2 ? ET::SubstitutionAddition : ET::SubstitutionRemoval, t.t);
        break;
      default:
        compare(r, {T[0], T[1]}, subs);
        subs.clear();
        for(auto & i : T) i = {i.t, i.in, i.in, 0, 0, 0};
        if(op % 2) d.clearEvents();
        sym_check(!d.hasEvents(), "events are read once");
    }
  }
  compare(r, {T[0], T[1]}, subs);
  sym_reach("queue");
}
struct Listener : tvm::internal::ObjWithId
{
  std::unique_ptr<ProblemComputationData> createComputationData(const LinearizedControlProblem &) const { return std::make_unique<Data>(id()); }
};
// Events issued by a problem, with two listeners. Tasks can be destroyed as soon as they are removed
void problem()
{
  LinearizedControlProblem pb;
  Listener l[2];
  Reader r[2];
  TaskWithRequirementsPtr t[2];
  std::vector<Truth> T[2];
  std::vector<std::pair<ET, const void *>> subs[2];
  std::vector<const TaskWithRequirements *> present;
  VariablePtr x = Space(1).createVariable("x");
  auto f = std::make_shared<function::IdentityFunction>(x);
  std::unique_ptr<hint::Substitution> hint;
  auto truth = [](std::vector<Truth> & v, const void * p) -> Truth & {
    for(auto & i : v)
      if(i.t == p) return i;
    v.push_back({p, false, false, 0, 0, 0});
    return v.back();
  };
  auto listen = [&](int i) {
    auto d = getComputationData(pb, l[i]);
    if(r[i].d)
      sym_check(d == r[i].d, "the data of a scheme are kept");
    else
    {
      sym_check(!d->hasEvents(), "no event before");
      sym_check(d->solverId() == l[i].id(), "owner");
      r[i].d = d;
      for(auto p : present)
      {
        truth(T[i], p) = {p, true, true, 0, 0, 0};
        r[i][p].in = true;
      }
    }
  };
  listen(0);
  for(int k = 0; k < 5 + sym_tier(); ++k)
  {
    int op = anyInt("op", 9), i = op % 2;
    if(op < 2)
    {
      bool add = !t[i];
      if(add)
      {
        t[i] = pb.add(Task(f, constraint::Type::EQUAL, task_dynamics::None(), VectorXd::Zero(1)));
        present.push_back(t[i].get());
      }
      const void * p = t[i].get();
      if(!add)
      {
        if(hint && i == 1) continue;
        present.erase(std::find(present.begin(), present.end(), t[i].get()));
        pb.remove(*t[i]);
        t[i].reset();
      }
      for(int j = 0; j < 2; ++j)
      {
        if(!r[j].d) continue;
        auto & u = truth(T[j], p);
        u.in = add;
        u.weight = u.aniso = 0;
        ++u.changes;
      }
    }
    else if(op < 6)
    {
      if(!t[i]) return;
      if(op < 4) t[i]->requirements.weight() = 3;
      else t[i]->requirements.anisotropicWeight() = VectorXd::Constant(1, 2).eval();
      for(int j = 0; j < 2; ++j)
        if(r[j].d)
        {
          auto & u = truth(T[j], t[i].get());
          op < 4 ? ++u.weight : ++u.aniso;
        }
    }
    else if(op == 6)
      listen(1);
    else if(op == 7)
    {
      compare(r[0], T[0], subs[0]);
      subs[0].clear();
      for(auto & u : T[0]) u = {u.t, u.in, u.in, 0, 0, 0};
    }
    else
    {
      if(!t[1]) return;
      ET type = hint ? ET::SubstitutionRemoval : ET::SubstitutionAddition;
      if(!hint) hint = std::make_unique<hint::Substitution>(pb.constraint(*t[1]), x);
      for(int j = 0; j < 2; ++j)
        if(r[j].d) subs[j].emplace_back(type, hint.get());
      if(type == ET::SubstitutionAddition)
        pb.add(*hint);
      else
      {
        pb.remove(*hint);
        hint.reset();
      }
    }
  }
  for(int j = 0; j < 2; ++j)
    if(r[j].d) compare(r[j], T[j], subs[j]);
  if(r[1].d) sym_reach("two listeners");
}
} // namespace
void harness()
{
  int part = anyInt("part", 3);
  if(part == 0)
    solverEvents();
  else if(part == 1)
    queue();
  else
    problem();
}
