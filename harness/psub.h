// Substitutions leaving a free variable and additional constraints, in a problem with other tasks or without any.
#pragma once
#include "tasks.h"
#include <tvm/hint/internal/DiagonalCalculator.h>
namespace vf
{
// diag(a, 0) u + B y = c: u[0] is given by y, u[1] is free, and y is constrained
struct Deficient
{
  using V = std::vector<tvm::VariablePtr>;
  using Type = Lin::Type;
  tvm::VariablePtr u = tvm::Space(2).createVariable("u"), y = tvm::Space(2).createVariable("y"), w = tvm::Space(1).createVariable("w");
  tvm::LinearizedControlProblem pb;
  tvm::TaskWithRequirementsPtr def;
  std::shared_ptr<tvm::function::BasicLinearFunction> f;
  MatrixXd B;
  VectorXd b;
  std::vector<TaskItem> t;
  Deficient()
  {
    f = std::make_shared<tvm::function::BasicLinearFunction>(2, V{u, y});
    MatrixXd A = MatrixXd::Zero(2, 2);
    A(0, 0) = 2;
    f->A(A, *u);
    t.reserve(5);
    t.emplace_back(0, 1, V{u, w}, Type::GREATER_THAN);
    t.emplace_back(1, 2, V{u}, Type::EQUAL);
    t.emplace_back(1, 1, V{w}, Type::EQUAL);
    t.emplace_back(0, 1, V{w}, Type::DOUBLE_SIDED, 1);
    t.emplace_back(0, 1, V{y, w}, Type::EQUAL);
    values();
    def = pb.add(tvm::Task(f, Type::EQUAL, tvm::task_dynamics::None(), VectorXd::Zero(2)), {tvm::requirements::PriorityLevel(0)});
    pb.add(tvm::hint::Substitution(pb.constraint(*def), u, 1, tvm::hint::internal::DiagonalCalculator(std::vector<Eigen::DenseIndex>{0}, std::vector<Eigen::DenseIndex>{1})));
  }
  void values()
  {
    for(auto & i : t) i.values();
    B = mat("B", 2, 2);
    b = vec("c", 2);
    f->A(B, *y);
    f->b(b);
  }
  // The tasks once u is replaced; z stands for u[1]
  std::vector<Lin> tasks(const tvm::VariablePtr & z)
  {
    std::vector<Lin> r;
    for(auto & i : t)
    {
      if(!i.in) continue;
      r.push_back(i);
      Lin & q = r.back();
      q.s = i.p; // the level
      for(size_t k = 0; k < q.x.size(); ++k)
        if(q.x[k] == u)
        {
          MatrixXd A = q.A[k], Z = A.col(1), Y(q.m, 2);
          for(int a = 0; a < q.m; ++a)
          {
            for(int c = 0; c < 2; ++c) Y(a, c) = -A(a, 0) * B(0, c) / 2;
            double o = A(a, 0) * b[0] / 2; // u[0] = -(b[0] + B.row(0) y) / 2
            if(q.t != Type::LOWER_THAN) q.l[a] += o;
            if(q.t != Type::GREATER_THAN) q.u[a] += o;
          }
          q.x[k] = y;
          q.A[k] = Y;
          q.x.push_back(z);
          q.A.push_back(Z);
        }
    }
    Lin a;
    a.kind = Lin::CONSTRAINT;
    a.m = 1;
    a.x = {y};
    a.t = Type::EQUAL;
    a.A = {B.row(1)};
    a.l = a.u = -b.segment(1, 1);
    a.s = 0;
    a.aw = VectorXd::Ones(1);
    r.push_back(a);
    return r;
  }
  bool needs(const tvm::VariablePtr & v) // among those of the solver
  {
    if(v == y) return true;
    bool r = false;
    for(auto & i : t)
      if(i.in)
        for(auto & x : i.x) r |= x == (v == w ? w : u);
    return r;
  }
  // after solve
  template<typename Compare>
  void check(bool status, int calls, Compare compare)
  {
    sym_check(status && calls == 1, "the solver is called once");
    tvm::VariablePtr z;
    bool wIn = false, yIn = false;
    for(auto & v : rec::variables)
    {
      if(v == y) yIn = true;
      else if(v == w) wIn = true;
      else
      {
        sym_check(!z && v != u && v->size() == 1, "the variables are those of the tasks and constraints");
        z = v;
      }
    }
    sym_check(yIn && wIn == needs(w) && bool(z) == needs(nullptr), "the variables are those of the tasks and constraints");
    if(!yIn || (needs(nullptr) && !z)) return;
    auto items = tasks(z);
    compare(items);
    int at = 0;
    for(auto & v : rec::variables)
    {
      eqv(v->value(), rec::result.segment(at, v->size()), "the solution is written in the variables");
      at += v->size();
    }
    VectorXd Y = y->value();
    sym_check_eq(2 * u->value()[0] + B(0, 0) * Y[0] + B(0, 1) * Y[1], -b[0], "the substituted variable satisfies its definition");
    if(z) sym_check_eq(u->value()[1], z->value()[0], "the substituted variable satisfies its definition");
  }
};
} // namespace vf
