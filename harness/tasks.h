// A control problem over a menu of tasks with symbolic data, and the least-squares problem it stands for.
#pragma once
#include "items.h"
#include "mocksolver.h"
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
namespace vf
{
struct TaskItem : Lin
{
  int p;
  tvm::FunctionPtr f;
  std::shared_ptr<tvm::function::BasicLinearFunction> lf;
  tvm::VariablePtr q; // for the first order task on a variable
  VectorXd r, r2;     // right-hand sides
  double kp = 0, scale = 1;
  tvm::TaskWithRequirementsPtr tr;
  bool in = false;
  // m rows on v; p = 0: constraint (bound when bnd != 0: through the matrix bnd * I), else objective
  TaskItem(int p, int m, std::vector<tvm::VariablePtr> v, Type t, double bnd = 0, bool firstOrder = false)
  {
    this->p = p;
    this->m = m;
    this->t = t;
    asBound = bnd != 0;
    kind = p > 0 ? OBJECTIVE : asBound ? BOUND : CONSTRAINT;
    x = v;
    aw = VectorXd::Ones(m);
    r = vec("rhs", m);
    r2 = r;
    if(t == Type::DOUBLE_SIDED)
      for(int i = 0; i < m; ++i) r2[i] = r[i] + sym_real("width", 1, 5);
    using P = tvm::internal::MatrixProperties;
    if(firstOrder)
    {
      q = v[0];
      x = {tvm::dot(q)};
      f = std::make_shared<tvm::function::IdentityFunction>(q);
      kp = sym_real("kp", 0.25, 4);
      A.push_back(MatrixXd::Identity(m, m));
    }
    else if(bnd == 1)
    {
      f = std::make_shared<tvm::function::IdentityFunction>(v[0]);
      A.push_back(MatrixXd::Identity(m, m));
    }
    else
    {
      f = lf = std::make_shared<tvm::function::BasicLinearFunction>(m, v);
      if(bnd != 0)
      {
        A.push_back(bnd * MatrixXd::Identity(m, m));
        lf->A(A[0], bnd < 0 ? P(P::MINUS_IDENTITY) : P(P::DIAGONAL, P::Invertibility(true), P::POSITIVE_DEFINITE));
      }
    }
    values();
  }
  // New values for the data of the function
  void values()
  {
    VectorXd b = VectorXd::Zero(m);
    if(lf)
    {
      if(!asBound)
      {
        A.clear();
        for(auto & v : x)
        {
          A.push_back(mat("A", m, v->size()));
          for(int i = 0; i < m && v->name() == pivot; ++i)
            for(int j = 0; j < v->size(); ++j) A.back()(i, j) = i == j ? 2 : 0;
          lf->A(A.back(), *v);
        }
      }
      b = vec("b", m);
      lf->b(b);
    }
    l = r - b;
    u = r2 - b;
    if(q)
    {
      VectorXd v = vec("q", q->size());
      q->set(v);
      for(int i = 0; i < m; ++i)
      {
        l[i] = -kp * (v[i] - r[i]);
        u[i] = -kp * (v[i] - r2[i]);
      }
    }
    if(t == Type::GREATER_THAN) u.setConstant(rec::big);
    if(t == Type::LOWER_THAN) l.setConstant(-rec::big);
  }
  void add(tvm::LinearizedControlProblem & pb, bool fresh)
  {
    using namespace tvm::requirements;
    in = true;
    if(tr && !fresh)
    {
      pb.add(tr);
      return;
    }
    SolvingRequirements req{PriorityLevel(p), Weight(w), ViolationEvaluation(vet)};
    if(weighted) req.anisotropicWeight() = AnisotropicWeight(aw);
    if(t == Type::DOUBLE_SIDED)
      tr = pb.add(tvm::Task(f, t, tvm::task_dynamics::None(), r, r2), req);
    else if(q)
      tr = pb.add(tvm::Task(f, t, tvm::task_dynamics::P(kp), r), req);
    else
      tr = pb.add(tvm::Task(f, t, tvm::task_dynamics::None(), r), req);
  }
  void remove(tvm::LinearizedControlProblem & pb)
  {
    in = false;
    pb.remove(*tr);
  }
  void weight(double v)
  {
    w = v;
    if(tr) tr->requirements.weight() = w;
  }
  void weight(const VectorXd & v)
  {
    aw = v;
    weighted = true;
    if(tr) tr->requirements.anisotropicWeight() = aw;
  }
  void priority(int v)
  {
    p = v;
    kind = p > 0 ? OBJECTIVE : asBound ? BOUND : CONSTRAINT;
    if(tr) tr->requirements.priorityLevel() = v;
  }
  void evaluation(tvm::requirements::ViolationEvaluationType v)
  {
    vet = v;
    if(tr) tr->requirements.violationEvaluation() = v;
  }
  tvm::requirements::ViolationEvaluationType vet = tvm::requirements::ViolationEvaluationType::L2;
  bool weighted = false, asBound;
  std::string pivot; // variable with a fixed matrix
};
// item without the variable y, replaced according to s: 2 y + sum(A_k x_k) = l
inline Lin replaced(const Lin & item, const Lin & s, const tvm::VariablePtr & y)
{
  size_t at = 0, sy = 0;
  for(; at < item.x.size() && item.x[at] != y; ++at) {}
  for(; sy < s.x.size() && s.x[sy] != y; ++sy) {}
  Lin r = item;
  if(at == item.x.size()) return r;
  r.x.erase(r.x.begin() + at);
  r.A.erase(r.A.begin() + at);
  const MatrixXd & Y = item.A[at];
  for(size_t k = 0; k < s.x.size(); ++k)
  {
    if(k == sy) continue;
    MatrixXd Z = mul(Y, s.A[k]);
    for(int i = 0; i < Z.rows(); ++i)
      for(int j = 0; j < Z.cols(); ++j) Z(i, j) = -Z(i, j) / 2;
    size_t to = 0;
    for(; to < r.x.size() && r.x[to] != s.x[k]; ++to) {}
    if(to == r.x.size())
    {
      r.x.push_back(s.x[k]);
      r.A.push_back(Z);
    }
    else
      r.A[to] += Z;
  }
  for(int i = 0; i < r.m; ++i)
  {
    double c = 0;
    for(int j = 0; j < Y.cols(); ++j) c += Y(i, j) * s.l[j] / 2;
    if(!rec::isBig(r.l[i])) r.l[i] -= c;
    if(!rec::isBig(r.u[i])) r.u[i] -= c;
  }
  return r;
}
// Levels (in s) are emulated by weights, relatively to one of the levels (possibly a level that was used before)
inline void scalarize(std::vector<Lin> & items)
{
  int ref = 2;
  for(int k = 2; k >= 0 && !rec::last.ls.empty(); --k)
  {
    bool found = true;
    for(auto & i : items)
      if(i.kind == Lin::OBJECTIVE)
      {
        Lin c = i;
        c.s = std::pow(1000., k - int(i.s));
        rec::Problem p;
        p.n = rec::last.n;
        c.addTo(p, tvm::VariableVector(rec::variables));
        bool any = false;
        for(auto & g : rec::last.ls) any = any || rec::same(p.ls[0], g, 1) || rec::same(p.ls[0], g, -1);
        found = found && any;
      }
    if(found)
    {
      ref = k;
      break;
    }
  }
  for(auto & i : items) i.s = i.kind == Lin::OBJECTIVE ? std::pow(1000., ref - int(i.s)) : 1;
}
} // namespace vf
