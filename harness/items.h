// Linear constraints with symbolic data, and the problem they make up.
#pragma once
#include "rec.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/requirements/SolvingRequirements.h>
namespace vf
{
struct Lin
{
  using Type = tvm::constraint::Type;
  using RHS = tvm::constraint::RHS;
  enum Kind
  {
    CONSTRAINT,
    BOUND,
    OBJECTIVE
  };
  Kind kind;
  int m;
  std::vector<tvm::VariablePtr> x;
  Type t;
  std::vector<MatrixXd> A;
  VectorXd l, u; // l <= A x <= u
  double w = 1;
  VectorXd aw;
  double s = 1; // scalarization weight
  // what it adds to the problem in the variables v
  void addTo(rec::Problem & p, const tvm::VariableVector & v) const
  {
    auto get = [&](int i, double f) {
      rec::Row q;
      q.a = VectorXd::Zero(p.n);
      for(size_t k = 0; k < x.size(); ++k)
      {
        int at = 0, found = 0;
        for(const auto & y : v)
        {
          if(y->contains(*x[k]))
          {
            found = 1;
            break;
          }
          at += y->size();
        }
        sym_check(found, "the variables of the problem are among those given to the solver");
        if(!found) continue;
        for(int j = 0; j < x[k]->size(); ++j) q.a[at + j] = f * A[k](i, j);
      }
      return q;
    };
    for(int i = 0; i < m; ++i)
    {
      rec::Row q;
      switch(kind)
      {
        case CONSTRAINT:
          q = get(i, 1);
          q.b = l[i];
          if(t == Type::EQUAL)
            p.eq.push_back(q);
          else
          {
            if(t != Type::LOWER_THAN) p.ge.push_back(q);
            if(t != Type::GREATER_THAN)
            {
              q = get(i, -1);
              q.b = -u[i];
              p.ge.push_back(q);
            }
          }
          break;
        case OBJECTIVE:
        {
          double f = std::sqrt(w) * std::sqrt(aw[i]) * s;
          q = get(i, f);
          q.b = f * l[i];
          p.ls.push_back(q);
          break;
        }
        default:
        {
          int at = 0;
          for(const auto & y : v)
          {
            if(y == x[0]) break;
            at += y->size();
          }
          double f = A[0](0, 0);
          double lo = f > 0 ? l[i] : -u[i], up = f > 0 ? u[i] : -l[i];
          sym_check(at + i < p.n, "the variables of the problem are among those given to the solver");
          if(at + i >= p.n) break;
          p.xl[at + i] = std::max(p.xl[at + i], lo);
          p.xu[at + i] = std::min(p.xu[at + i], up);
        }
      }
    }
  }
};
struct Item : Lin
{
  RHS r;
  bool concrete = false; // known matrices
  int step = 0;
  std::shared_ptr<tvm::constraint::BasicLinearConstraint> c;
  std::shared_ptr<tvm::requirements::SolvingRequirementsWithCallbacks> req;
  Item(Kind k, int m, std::vector<tvm::VariablePtr> v, Type t, RHS r, double bound = 1)
  {
    kind = k;
    this->m = m;
    x = v;
    this->t = t;
    this->r = r;
    c = std::make_shared<tvm::constraint::BasicLinearConstraint>(m, v, t, r);
    req = std::make_shared<tvm::requirements::SolvingRequirementsWithCallbacks>(tvm::requirements::PriorityLevel(k == OBJECTIVE ? 1 : 0));
    aw = VectorXd::Ones(m);
    if(k == BOUND) A.push_back(bound * MatrixXd::Identity(m, m));
    values();
  }
  void values()
  {
    using P = tvm::internal::MatrixProperties;
    if(kind == BOUND)
      c->A(A[0], A[0](0, 0) > 0 ? P(P::IDENTITY) : P(P::MINUS_IDENTITY));
    else
    {
      A.clear();
      for(auto & v : x)
      {
        A.push_back(concrete ? MatrixXd(m, v->size()) : mat("A", m, v->size()));
        if(concrete)
          for(int i = 0; i < m; ++i)
            for(int j = 0; j < v->size(); ++j) A.back()(i, j) = (3 * i + 5 * j + 7 * step++) % 4 - 1.5;
        c->A(A.back(), *v);
      }
    }
    l = vec("l", m);
    u = l;
    if(t == Type::DOUBLE_SIDED)
      for(int i = 0; i < m; ++i) u[i] = l[i] + sym_real("width", 1, 5);
    double f = r == RHS::OPPOSITE ? -1 : 1;
    if(r == RHS::ZERO)
      l = u = VectorXd::Zero(m);
    else if(t == Type::DOUBLE_SIDED)
    {
      c->l(f * l);
      c->u(f * u);
    }
    else
      c->b(f * l);
    if(t == Type::GREATER_THAN) u.setConstant(rec::big);
    if(t == Type::LOWER_THAN) l.setConstant(-rec::big);
  }
};
inline rec::Problem expected(const std::vector<const Lin *> & items, const tvm::VariableVector & v)
{
  rec::Problem p;
  for(const auto & x : v) p.n += x->size();
  p.xl = VectorXd::Constant(p.n, -rec::big);
  p.xu = VectorXd::Constant(p.n, rec::big);
  for(auto i : items) i->addTo(p, v);
  return p;
}
} // namespace vf
