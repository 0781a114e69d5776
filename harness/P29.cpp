// P29: a control problem contains the tasks added and not removed, and updates their constraints.
#include "vh.h"
#include <algorithm>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
using namespace tvm;
using namespace vf;
using Type = constraint::Type;
namespace
{
bool eq(double a, double b) { return a == b; }
struct World
{
  VariablePtr x = Space(1).createVariable("x"), y = Space(1).createVariable("y"), z = Space(1).createVariable("z");
  std::shared_ptr<function::BasicLinearFunction> f[2];
  MatrixXd A[2][2];
  VectorXd b[2], r[2], rz, zv, zu;
  double kp = sym_real("kp", 0.25, 4);
  std::unique_ptr<LinearizedControlProblem> pb;
  TaskWithRequirementsPtr t[3], never;
  std::vector<int> in;
  std::unique_ptr<hint::Substitution> s;
  bool group = false;
  // 0: 2x + a y = r0;   1: x + 3 y <= r1 (or = r1);  2: r <= z <= u, first order
  World(bool fromOther, Type t1)
  {
    for(int i = 0; i < 2; ++i)
    {
      f[i] = std::make_shared<function::BasicLinearFunction>(1, std::vector<VariablePtr>{x, y});
      r[i] = vec("r", 1);
    }
    rz = vec("rz", 1);
    zu = rz + VectorXd::Constant(1, 2);
    auto g = std::make_shared<function::IdentityFunction>(z);
    data();
    Task T[3] = {Task(f[0], Type::EQUAL, task_dynamics::None(), r[0]), Task(f[1], t1, task_dynamics::None(), r[1]),
                 Task(g, Type::DOUBLE_SIDED, task_dynamics::P(kp), rz, zu)};
    if(fromOther)
    {
      // the tasks of another problem
      ControlProblem cp;
      for(int i = 0; i < 2; ++i) t[i] = cp.add(T[i], {requirements::PriorityLevel(i)});
      auto gone = cp.add(T[2], {});
      cp.remove(*gone);
      sym_check(cp.size() == 2 && cp.tasks()[0] == t[0] && cp.tasks()[1] == t[1], "tasks of a control problem");
      pb = std::make_unique<LinearizedControlProblem>(cp);
      in = {0, 1};
    }
    else
      pb = std::make_unique<LinearizedControlProblem>();
    for(int i = 0; i < 3; ++i)
      if(!t[i]) t[i] = std::make_shared<TaskWithRequirements>(T[i], requirements::SolvingRequirements{requirements::PriorityLevel(i)});
    never = std::make_shared<TaskWithRequirements>(T[0], requirements::SolvingRequirements{});
  }
  void data()
  {
    for(int i = 0; i < 2; ++i)
    {
      A[i][0] = MatrixXd::Constant(1, 1, 2 - i);
      A[i][1] = i == 0 ? group && s ? MatrixXd(MatrixXd::Constant(1, 1, -1)) : mat("a", 1, 1, -1, 1) : MatrixXd(MatrixXd::Constant(1, 1, 3));
      b[i] = vec("b", 1);
      f[i]->A(A[i][0], *x);
      f[i]->A(A[i][1], *y);
      f[i]->b(b[i]);
    }
    z->set(zv = vec("z", 1));
  }
  bool has(int i) const { return std::find(in.begin(), in.end(), i) != in.end(); }
  void contents()
  {
    sym_check(pb->size() == static_cast<int>(in.size()), "number of tasks");
    sym_check(pb->tasks().size() == in.size(), "tasks");
    for(size_t k = 0; k < in.size(); ++k) sym_check(pb->tasks()[k] == t[in[k]], "tasks, in order of insertion");
    auto cs = pb->constraints();
    sym_check(cs.size() == in.size() && pb->constraintMap().size() == in.size(), "one constraint for each task");
    std::vector<VariablePtr> vars;
    if(has(0) || has(1)) vars = {x, y};
    if(has(2)) vars.push_back(dot(z));
    auto v = pb->variables();
    sym_check(v.numberOfVariables() == static_cast<int>(vars.size()), "variables");
    for(auto & k : vars) sym_check(v.contains(*k), "variables");
    for(int i = 0; i < 3; ++i)
    {
      auto c = pb->constraintNoThrow(*t[i]);
      auto q = pb->constraintWithRequirementsNoThrow(*t[i]);
      sym_check(bool(c) == has(i) && q.has_value() == has(i), "constraint of a task");
      if(has(i))
      {
        sym_check(pb->constraint(*t[i]) == c && pb->constraintWithRequirements(*t[i]).constraint == c, "constraint of a task");
        sym_check(q->get().constraint == c, "constraint of a task");
        sym_check(q->get().requirements.get() == &t[i]->requirements, "requirements of a task");
        sym_check(q->get().bound == (i == 2), "bound or not");
        sym_check(std::count_if(cs.begin(), cs.end(), [&](auto & k) { return k.constraint == c; }) == 1, "list of constraints");
        sym_check(c->type() == t[i]->task.type(), "type");
      }
      else
        sym_check(throws([&] { pb->constraint(*t[i]); }) && throws([&] { pb->constraintWithRequirements(*t[i]); }), "no constraint");
    }
    const auto & S = pb->substitutions();
    sym_check(S.substitutions().size() == (s ? 1u : 0u), "substitutions");
  }
  void values()
  {
    data();
    pb->update();
    for(int i = 0; i < 2; ++i)
    {
      if(!has(i)) continue;
      auto c = pb->constraint(*t[i]);
      eqv(c->jacobian(*x), A[i][0], "matrix of a constraint after an update");
      eqv(c->jacobian(*y), A[i][1], "matrix of a constraint after an update");
      VectorXd rhs = r[i] - b[i];
      if(c->type() == Type::EQUAL) eqv(c->e(), rhs, "right-hand side after an update");
      else eqv(c->u(), rhs, "right-hand side after an update");
    }
    if(has(2))
    {
      auto c = pb->constraint(*t[2]);
      eqv(c->jacobian(*dot(z)), MatrixXd::Identity(1, 1), "matrix of a constraint after an update");
      eqv(c->l(), VectorXd(-kp * (zv - rz)), "right-hand side after an update");
      eqv(c->u(), VectorXd(-kp * (zv - zu)), "right-hand side after an update");
    }
    if(s && !group)
    {
      const auto & S = pb->substitutions();
      sym_check(S.variables().size() == 1 && S.variables()[0] == x, "substituted variable");
      const auto & g = *S.variableSubstitutions()[0];
      eqv(g.jacobian(*y), MatrixXd(-A[0][1] / 2), "matrix of a substitution after an update");
      eqv(g.b(), VectorXd((r[0] - b[0]) / 2), "constant of a substitution after an update");
    }
  }
  void step(int op)
  {
    if(op < 3)
    {
      if(has(op))
      {
        bool involved = s && (op == 0 || (op == 1 && group));
        bool refuse = involved && group;
        bool t_ = throws([&] { pb->remove(*t[op]); });
        sym_check(t_ == refuse, "a task used in a group of substitutions cannot be removed");
        if(!refuse)
        {
          in.erase(std::find(in.begin(), in.end(), op));
          if(involved) s.reset();
        }
        else
          sym_reach("refused");
      }
      else
      {
        pb->add(t[op]);
        in.push_back(op);
      }
    }
    else if(op == 3)
    {
      if(in.empty()) return;
      // adding once more is refused, or does nothing
      throws([&] { pb->add(t[in.back()]); });
    }
    else if(op == 4)
      pb->remove(*never);
    else if(op == 5)
      values();
    else if(op == 6)
    {
      if(s)
      {
        pb->remove(*s);
        s.reset();
      }
      else if(has(0))
      {
        group = false;
        s = std::make_unique<hint::Substitution>(pb->constraint(*t[0]), x);
        pb->add(*s);
      }
    }
    else if(!s && has(0) && has(1) && t[1]->task.type() == Type::EQUAL)
    {
      group = true;
      s = std::make_unique<hint::Substitution>(std::vector<LinearConstraintPtr>{pb->constraint(*t[0]), pb->constraint(*t[1])},
                                               std::vector<VariablePtr>{x, y});
      pb->add(*s);
    }
  }
};
} // namespace
void harness()
{
  bool other = anyInt("from a control problem", 2);
  World W(other, anyInt("type", 2) ? Type::EQUAL : Type::LOWER_THAN);
  W.contents();
  for(int k = 0; k < 4 + sym_tier(); ++k)
  {
    W.step(anyInt("op", 8));
    W.contents();
  }
  W.values();
  W.contents();
  sym_reach("history");
}
