// P11: the linear constraint built from a task prescribes the value of the task dynamics to the right derivative of the
// function, for symbolic values of the function, its derivatives, its jacobian, the right-hand sides and the dynamics.
#define VF_GRAPH
#include "vh.h"
#include "mockf.h"
#include <tvm/Task.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
using namespace tvm;
using namespace vf;
using constraint::Type;
using constraint::internal::LinearizedTaskConstraint;
using C = constraint::abstract::Constraint;
using Order = task_dynamics::Order;
namespace
{
// Dynamics of any order, whose value only shows when updated: g .* (f - rhs) + h, depending on the type.
class MockTD : public task_dynamics::abstract::TaskDynamics
{
public:
  class Impl : public task_dynamics::abstract::TaskDynamicsImpl
  {
  public:
    Impl(FunctionPtr f, Type t, const VectorXd & rhs, Order o, const VectorXd & g)
    : TaskDynamicsImpl(o, f, t, rhs), g_(g)
    {}
    ~Impl() override = default;
    void updateValue() override
    {
      for(int i = 0; i < g_.size(); ++i)
        value_[i] = g_[i] * (function().value()[i] - 2 * rhs()[i]) + (type() == Type::LOWER_THAN ? 3 : type() == Type::GREATER_THAN ? -5 : 1);
    }
    VectorXd g_;
  };
  MockTD(Order o, const VectorXd & g) : o_(o), g_(g) {}
  std::unique_ptr<task_dynamics::abstract::TaskDynamicsImpl> impl_(FunctionPtr f, Type t, const VectorXd & rhs) const override
  { return std::make_unique<Impl>(f, t, rhs, o_, g_); }
  Order order_() const override { return o_; }
  static VectorXd want(const VectorXd & g, const VectorXd & f, const VectorXd & rhs, Type t)
  {
    VectorXd v(g.size());
    for(int i = 0; i < g.size(); ++i) v[i] = g[i] * (f[i] - 2 * rhs[i]) + (t == Type::LOWER_THAN ? 3 : t == Type::GREATER_THAN ? -5 : 1);
    return v;
  }
  TASK_DYNAMICS_DERIVED_FACTORY(g_)

private:
  Order o_;
  VectorXd g_;
};
struct Ctr
{
  Type t;
  VectorXd l, u; // rhs is l for the single sided types
  int form;      // how the task is written
};
Task make(const FunctionPtr & f, Ctr & c, const task_dynamics::abstract::TaskDynamics & td, int m)
{
  c.t = (Type)sym_choose("type", 4);
  c.form = sym_choose("form", c.t == Type::DOUBLE_SIDED ? 3 : 4);
  c.l = vec("l", m);
  c.u = vec("u", m);
  if(c.form == 1) // scalar right-hand sides
  {
    c.l.setConstant(c.l[0]);
    c.u.setConstant(c.u[0]);
  }
  if(c.form == 3) c.l.setZero();
  if(c.t == Type::DOUBLE_SIDED)
  {
    if(c.form == 0) return Task(f, c.t, td, c.l, c.u);
    if(c.form == 1) return Task(f, c.t, td, c.l[0], c.u[0]);
    return Task(utils::ProtoTaskDS(f, c.l, c.u), td);
  }
  if(c.form == 0) return Task(f, c.t, td, c.l);
  if(c.form == 1) return Task(f, c.t, td, c.l[0]);
  if(c.form == 3) return Task(f, c.t, td);
  if(c.t == Type::EQUAL) return Task(utils::ProtoTaskEQ(f, c.l), td);
  if(c.t == Type::LOWER_THAN) return Task(utils::ProtoTaskLT(f, c.l), td);
  return Task(utils::ProtoTaskGT(f, c.l), td);
}
// evaluates one output only, hence its own dependencies must be complete
template<typename F>
void bounds(const std::shared_ptr<LinearizedTaskConstraint> & k, const Ctr & c, F && want, const char * msg)
{
  if(c.t == Type::EQUAL)
  {
    run(k, C::Output::E);
    eqv(k->e(), want(c.l, Type::EQUAL), msg);
  }
  else if(c.t == Type::GREATER_THAN)
  {
    run(k, C::Output::L);
    eqv(k->l(), want(c.l, Type::GREATER_THAN), msg);
  }
  else if(c.t == Type::LOWER_THAN)
  {
    run(k, C::Output::U);
    eqv(k->u(), want(c.l, Type::LOWER_THAN), msg);
  }
  else
  {
    int first = sym_choose("first", 2);
    for(int i = 0; i < 2; ++i)
      if(i == first)
      {
        run(k, C::Output::L);
        eqv(k->l(), want(c.l, Type::GREATER_THAN), msg);
      }
      else
      {
        run(k, C::Output::U);
        eqv(k->u(), want(c.u, Type::LOWER_THAN), msg);
      }
  }
}
void shape(const LinearizedTaskConstraint & k, const Ctr & c, const function::abstract::Function & f, int order, int m)
{
  sym_check(k.type() == c.t, "type of the constraint");
  sym_check(k.rhs() == constraint::RHS::AS_GIVEN, "right-hand-side convention of the constraint");
  sym_check(k.size() == m, "size of the constraint");
  sym_check(k.variables().numberOfVariables() == f.variables().numberOfVariables(), "number of variables");
  for(int i = 0; i < f.variables().numberOfVariables(); ++i)
  {
    auto v = f.variables()[i];
    auto z = order ? dot(v, order) : v;
    sym_check(k.variables()[i] == z, "variables of the constraint are the derivatives of those of the function");
    sym_check(k.linearIn(*z), "linear in its variables");
  }
  bool E = c.t == Type::EQUAL, L = c.t == Type::GREATER_THAN || c.t == Type::DOUBLE_SIDED, U = c.t == Type::LOWER_THAN || c.t == Type::DOUBLE_SIDED;
  sym_check(k.isOutputEnabled(C::Output::E) == E && k.isOutputEnabled(C::Output::L) == L && k.isOutputEnabled(C::Output::U) == U,
            "enabled outputs match the type");
}
void any()
{
  int m = 2;
  int o = sym_choose("order", 3);
  // a space whose tangent space has another size
  VariablePtr x = Space(2).createVariable("x"), y = (o == 0 ? Space(1) : Space(1, 2, 1)).createVariable("y");
  auto f = std::make_shared<MockF>(m, std::vector<VariablePtr>{x, y}, true);
  VectorXd g = vec("g", m);
  Ctr c;
  auto t = make(f, c, MockTD((Order)o, g), m);
  auto k = std::make_shared<LinearizedTaskConstraint>(t);
  shape(*k, c, *f, o, m);
  for(int step = 0; step < 2; ++step)
  {
    f->v = vec("value", m);
    f->a = vec("normal acceleration", m);
    f->J[0] = mat("Jx", m, 2);
    f->J[1] = mat("Jy", m, 1);
    bounds(
        k, c,
        [&](const VectorXd & rhs, Type s) {
          VectorXd w = MockTD::want(g, f->v, rhs, s);
          if(o == 2) w -= f->a;
          return w;
        },
        "right-hand side: prescribed derivative minus what does not depend on the variable");
    auto zx = o ? dot(x, o) : x, zy = o ? dot(y, o) : y;
    run(k, C::Output::Jacobian);
    eqv(k->jacobian(*zx), f->J[0], "matrix is the jacobian of the function");
    eqv(k->jacobian(*zy), f->J[1], "matrix is the jacobian of the function");
    f->J[0] = mat("Jx", m, 2);
    zx->set(vec("zx", 2));
    zy->set(vec("zy", 1));
    run(k, C::Output::Value);
    eqv(k->value(), mul(f->J[0], zx->value()) + mul(f->J[1], zy->value()), "value of the constraint");
  }
  sym_reach("any");
}
// The meaning: with z satisfying the constraint with equality, the real derivative of the function is the one prescribed
void linear()
{
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y");
  MatrixXd A = mat("A", 2, 2), B = mat("B", 2, 1);
  VectorXd b = vec("b", 2);
  auto f = std::make_shared<function::BasicLinearFunction>(std::vector<MatrixConstRef>{A, B}, std::vector<VariablePtr>{x, y}, b);
  double kp = sym_real("kp", 0.5, 3), kv = sym_real("kv", 0.5, 3);
  int o = sym_choose("order", 3);
  Ctr c;
  using namespace task_dynamics;
  Task t = o == 0 ? make(f, c, None(), 2) : o == 1 ? make(f, c, P(kp), 2) : make(f, c, PD(kp, kv), 2);
  auto k = std::make_shared<LinearizedTaskConstraint>(t);
  shape(*k, c, *f, o, 2);
  x->set(vec("x", 2));
  y->set(vec("y", 1));
  VectorXd v(0), d(0);
  if(o == 2)
  {
    dot(x)->set(vec("dx", 2));
    dot(y)->set(vec("dy", 1));
    d = mul(A, dot(x)->value()) + mul(B, dot(y)->value());
  }
  v = mul(A, x->value()) + mul(B, y->value()) + b;
  bounds(
      k, c,
      [&](const VectorXd & rhs, Type) {
        VectorXd w = o == 0 ? VectorXd(rhs - b) : VectorXd(-kp * (v - rhs));
        if(o == 2) w -= kv * d;
        return w;
      },
      "constraint on a linear function");
  auto z = o ? dot(x, o) : x, zy = o ? dot(y, o) : y;
  z->set(vec("z", 2));
  zy->set(vec("zy", 1));
  run(k, C::Output::Jacobian);
  eqv(mul(k->jacobian(*z), z->value()) + mul(k->jacobian(*zy), zy->value()), mul(A, z->value()) + mul(B, zy->value()), "rows of the constraint");
  sym_reach("linear");
}
void refused()
{
  VariablePtr x = Space(2).createVariable("x");
  VectorXd g = VectorXd::Ones(2);
  Type t = (Type)sym_choose("type", 4);
  bool lin = sym_choose("linear", 2);
  int o = sym_choose("order", 3);
  auto f = std::make_shared<MockF>(2, std::vector<VariablePtr>{x}, lin);
  MockTD td((Order)o, g);
  bool ds = t == Type::DOUBLE_SIDED;
  VectorXd r = VectorXd::Zero(2);
  sym_check(throws([&] { Task(f, t, td); }) == ds, "a double sided task needs two bounds");
  sym_check(throws([&] { Task(f, t, td, r); }) == ds, "a double sided task needs two bounds");
  sym_check(throws([&] { Task(f, t, td, r, r); }) == !ds, "two bounds are for double sided tasks");
  int n = sym_conc(sym_int("size", 1, 3));
  VectorXd w = VectorXd::Zero(n);
  sym_check(throws([&] { utils::ProtoTaskEQ(f, w); }) == (n != 2), "right-hand side of the wrong size");
  sym_check(throws([&] { utils::ProtoTaskDS(f, w, r); }) == (n != 2), "right-hand side of the wrong size");
  sym_check(throws([&] { utils::ProtoTaskDS(f, 0., w); }) == (n != 2), "right-hand side of the wrong size");
  sym_check(throws([&] { ds ? Task(f, t, td, r, w) : Task(f, t, td, w); }) == (n != 2), "right-hand side of the wrong size");
  Task k = ds ? Task(f, t, td, r, r) : Task(f, t, td, r);
  sym_check(throws([&] { LinearizedTaskConstraint c(k); }) == (o == 0 && !lin), "a task on a value needs a linear function");
  sym_reach("refused");
}
} // namespace
void harness()
{
  switch(sym_choose("mode", 3))
  {
    case 0: any(); break;
    case 1: linear(); break;
    default: refused();
  }
}
