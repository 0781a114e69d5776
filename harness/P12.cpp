// P12: each task dynamics computes its formula, for symbolic gains, values, velocities and right-hand sides.
#define VF_GRAPH
#include "vh.h"
#include "mockf.h"
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
using namespace tvm;
using namespace vf;
using namespace tvm::task_dynamics;
using constraint::Type;
using TDI = std::shared_ptr<task_dynamics::abstract::TaskDynamicsImpl>;
namespace
{
const Type types[] = {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED};

// a gain of kind 0: scalar, 1: diagonal, 2: matrix, as a matrix
struct G
{
  int kind;
  double s;
  VectorXd v;
  MatrixXd m, as;
  G(int k, int n, const char * name, double lo = -10) : kind(k)
  {
    as = MatrixXd::Zero(n, n);
    if(k == 0)
    {
      s = sym_real(name, lo, 10);
      for(int i = 0; i < n; ++i) as(i, i) = s;
    }
    else if(k == 1)
    {
      v = vec(name, n, lo);
      for(int i = 0; i < n; ++i) as(i, i) = v[i];
    }
    else
      as = m = mat(name, n, n);
  }
};
struct Fix
{
  int n;
  std::shared_ptr<MockF> f;
  VectorXd rhs;
  Type t;
  Fix(int n_) : n(n_), f(std::make_shared<MockF>(n_)), rhs(vec("rhs", n_)), t(types[sym_choose("type", sym_tier() ? 4 : 1)]) { next(); }
  void next()
  {
    f->v = vec("value", n);
    f->d = vec("velocity", n);
  }
  VectorXd e() const { return f->v - rhs; }
};
void eval(const TDI & i) { run(i, task_dynamics::abstract::TaskDynamicsImpl::Output::Value); }
template<typename TD>
TDI impl(const TD & td, const Fix & x, Order o)
{
  TDI i = td.impl(x.f, x.t, x.rhs);
  sym_check(td.order() == o && i->order() == o, "order of the task dynamics");
  sym_check(i->template checkType<typename TD::Impl>(), "type of the implementation");
  return i;
}
void withGain(Proportional::Impl & i, const G & g)
{
  if(g.kind == 0)
    i.gain(g.s);
  else if(g.kind == 1)
    i.gain(g.v);
  else
    i.gain(g.m);
}
Proportional makeP(const G & g) { return g.kind == 0 ? Proportional(g.s) : g.kind == 1 ? Proportional(g.v) : Proportional(g.m); }
template<typename F>
void both(const G & p, const G & v, F && f)
{
  auto second = [&](const auto & kp) {
    if(v.kind == 0)
      f(kp, v.s);
    else if(v.kind == 1)
      f(kp, v.v);
    else
      f(kp, v.m);
  };
  if(p.kind == 0)
    second(p.s);
  else if(p.kind == 1)
    second(p.v);
  else
    second(p.m);
}
class Prov : public graph::abstract::Node<Prov>
{
public:
  SET_OUTPUTS(Prov, Value)
  SET_UPDATES(Prov, Value)
  Prov(int n) : v(VectorXd::Constant(n, 7e3))
  {
    registerUpdates(Update::Value, &Prov::up);
    addOutputDependency(Output::Value, Update::Value);
  }
  const VectorXd & value() const { return v; }
  VectorXd next;

private:
  void up() { v = next; }
  VectorXd v;
};
void proportional()
{
  Fix x(1 + sym_choose("size", 2));
  G g(sym_choose("gain", 3), x.n, "kp");
  auto i = impl(makeP(g), x, Order::One);
  eval(i);
  eqv(i->value(), -mul(g.as, x.e()), "proportional: -kp e");
  auto & P = static_cast<Proportional::Impl &>(*i);
  int how = sym_choose("change", 4);
  G h(how == 3 ? g.kind : how, x.n, "kp2");
  if(how == 3) // through the reference
  {
    if(g.kind == 0)
      P.gain<double>() = h.s;
    else if(g.kind == 1)
      P.gain<VectorXd>() = h.v;
    else
      P.gain() = h.m;
  }
  else
    withGain(P, h);
  x.next();
  eval(i);
  eqv(i->value(), -mul(h.as, x.e()), "proportional: -kp e after a change of gain");
  sym_check((int)P.gain().index() == h.kind, "kind of gain");
  sym_reach("P");
}
void pd()
{
  Fix x(2);
  G p(sym_choose("kp", 3), 2, "kp"), v(sym_choose("kv", 3), 2, "kv");
  TDI i;
  both(p, v, [&](const auto & kp, const auto & kv) { i = impl(ProportionalDerivative(kp, kv), x, Order::Two); });
  eval(i);
  eqv(i->value(), -mul(v.as, x.f->d) - mul(p.as, x.e()), "proportional derivative: -kv de - kp e");
  auto & P = static_cast<ProportionalDerivative::Impl &>(*i);
  G q(sym_choose("kp2", 3), 2, "kp2"), w(sym_choose("kv2", 3), 2, "kv2");
  both(q, w, [&](const auto & kp, const auto & kv) { P.gains(kp, kv); });
  x.next();
  eval(i);
  eqv(i->value(), -mul(w.as, x.f->d) - mul(q.as, x.e()), "proportional derivative: -kv de - kp e after a change of gains");
  sym_check((int)P.kp().index() == q.kind && (int)P.kv().index() == w.kind, "kinds of gains");
  sym_reach("PD");
}
void critical()
{
  int kind = sym_choose("kind", 3);
  int n = kind == 0 ? 1 : 1 + sym_choose("n", 2);
  Fix x(n);
  int how = sym_choose("by", 2); // constructor or change
  VectorXd r = vec("r", n, 0.125, 4); // square roots of the eigenvalues of kp
  VectorXd k = r.cwiseProduct(r);
  MatrixXd K = k.asDiagonal(), R = r.asDiagonal();
  if(kind == 2 && n == 2 && sym_choose("rotated", 2))
  {
    // a rotation that is not along the axes
    MatrixXd U(2, 2);
    U << 0.6, -0.8, 0.8, 0.6;
    sym_assume(r[0] == 2 && r[1] == 1);
    K = MatrixXd(2, 2);
    K << 0.36 * 4 + 0.64, 0.48 * 3, 0.48 * 3, 0.64 * 4 + 0.36;
    R = MatrixXd(2, 2);
    R << 0.36 * 2 + 0.64, 0.48, 0.48, 0.64 * 2 + 0.36;
    sym_reach("rotated");
  }
  TDI i;
  auto make = [&](const auto & kp) {
    if(how == 0)
      i = impl(ProportionalDerivative(kp), x, Order::Two);
    else
    {
      i = impl(ProportionalDerivative(3., 5.), x, Order::Two);
      static_cast<ProportionalDerivative::Impl &>(*i).gains(kp);
    }
  };
  if(kind == 0)
    make(k[0]);
  else if(kind == 1)
    make(k);
  else
    make(K);
  eval(i);
  eqv(i->value(), -2 * mul(R, x.f->d) - mul(K, x.e()), "default damping is critical");
  sym_reach("critical");
}
void others()
{
  Fix x(2);
  switch(sym_choose("which", 5))
  {
    case 0:
    {
      auto i = impl(Constant(), x, Order::Zero);
      eval(i);
      eqv(i->value(), x.rhs, "constant: the right-hand side");
      sym_reach("constant");
      break;
    }
    case 1:
    {
      VariablePtr y = Space(3).createVariable("y");
      MatrixXd A = mat("A", 2, 3);
      VectorXd b = vec("b", 2);
      auto f = std::make_shared<function::BasicLinearFunction>(A, y, b);
      y->set(vec("y", 3));
      None td;
      TDI i = td.impl(f, x.t, x.rhs);
      sym_check(td.order() == Order::Zero && i->order() == Order::Zero, "order of the task dynamics");
      eval(i);
      eqv(i->value(), x.rhs - b, "none: rhs - f(0)");
      b = vec("b2", 2);
      f->b(b);
      y->set(vec("y2", 3));
      eval(i);
      eqv(i->value(), x.rhs - b, "none: rhs - f(0), after a change of f");
      sym_check(throws([&] { td.impl(x.f, x.t, x.rhs); }), "none needs a linear function");
      sym_reach("none");
      break;
    }
    case 2:
    {
      double dt = sym_real("dt", -1, 2);
      Order o = sym_choose("order", 2) ? Order::Two : Order::One;
      TDI i;
      bool t = throws([&] { i = impl(OneStepToZero(o, dt), x, o); });
      sym_check(t == (dt <= 0), "one step to zero needs a positive time step");
      if(t) return;
      for(int k = 0; k < 2; ++k)
      {
        eval(i);
        for(int j = 0; j < 2; ++j)
        {
          double e1 = o == Order::One ? x.f->v[j] + dt * i->value()[j] : x.f->v[j] + dt * x.f->d[j] + dt * dt * i->value()[j] / 2;
          sym_check_eq(e1, x.rhs[j], "one step to zero: reaches the right-hand side in one step");
        }
        x.next();
      }
      sym_check(throws([&] { OneStepToZero(Order::Zero, dt); }), "one step to zero needs an order");
      sym_reach("one step");
      break;
    }
    case 3:
    {
      auto r = std::make_shared<MockF>(2);
      Order o = (Order)sym_choose("order", 3);
      auto i = impl(Reference(o, r), x, o);
      for(int k = 0; k < 2; ++k)
      {
        r->v = vec("ref", 2);
        eval(i);
        eqv(i->value(), r->v, "reference: value of the reference");
      }
      sym_check(ReferenceVelocity(r).order() == Order::One && ReferenceAcceleration(r).order() == Order::Two, "order of references");
      sym_check(throws([&] { Reference(o, nullptr).impl(x.f, x.t, x.rhs); }), "a reference is needed");
      sym_reach("reference");
      break;
    }
    default:
    {
      auto p = std::make_shared<Prov>(2);
      G kp(sym_choose("kp", 2) * 2, 2, "kp"), kv(0, 2, "kv");
      p->next = vec("ff", 2);
      bool second = sym_choose("order", 2);
      TDI i;
      if(second)
        both(kp, kv, [&](const auto & a, const auto & b) {
          i = impl(FeedForwardPD(p, &Prov::value, Prov::Output::Value, a, b), x, Order::Two);
        });
      else
        both(kp, kv, [&](const auto & a, const auto &) {
          i = impl(FeedForwardP(p, &Prov::value, Prov::Output::Value, a), x, Order::One);
        });
      for(int k = 0; k < 2; ++k)
      {
        eval(i);
        VectorXd want = -mul(kp.as, x.e()) + p->next;
        if(second) want -= mul(kv.as, x.f->d);
        eqv(i->value(), want, "feed forward: the term is added to the dynamics");
        p->next = vec("ff", 2);
        x.next();
      }
      sym_reach("feed forward");
    }
  }
}
void sizes()
{
  Fix x(2);
  int r = sym_conc(sym_int("rows", 1, 3)), c = sym_conc(sym_int("cols", 1, 3));
  MatrixXd M = MatrixXd::Ones(r, c);
  VectorXd v = VectorXd::Ones(r);
  auto refused = [&](auto && td) { return throws([&] { td.impl(x.f, x.t, x.rhs); }); };
  sym_check(refused(Proportional(v)) == (r != 2), "a gain of the wrong size is refused");
  sym_check(refused(Proportional(M)) == !(r == 2 && c == 2), "a gain of the wrong size is refused");
  auto i = impl(Proportional(1.), x, Order::One);
  auto & P = static_cast<Proportional::Impl &>(*i);
  sym_check(throws([&] { P.gain(v); }) == (r != 2), "a gain of the wrong size is refused");
  sym_check(throws([&] { P.gain(M); }) == !(r == 2 && c == 2), "a gain of the wrong size is refused");
  auto j = impl(ProportionalDerivative(1., 1.), x, Order::Two);
  auto & D = static_cast<ProportionalDerivative::Impl &>(*j);
  sym_check(throws([&] { D.gains(v, 1.); }) == (r != 2), "a gain of the wrong size is refused");
  sym_check(throws([&] { D.gains(1., v); }) == (r != 2), "a gain of the wrong size is refused");
  sym_check(throws([&] { D.gains(v); }) == (r != 2), "a gain of the wrong size is refused");
  sym_check(throws([&] { D.gains(M, v); }) == !(r == 2 && c == 2), "a gain of the wrong size is refused");
  sym_check(throws([&] { D.gains(VectorXd(VectorXd::Ones(2)), M); }) == !(r == 2 && c == 2), "a gain of the wrong size is refused");
  sym_check(throws([&] { Constant().impl(x.f, x.t, v); }) == (r != 2), "a right-hand side of the wrong size is refused");
  sym_check(throws([&] { Proportional(1.).impl(x.f, x.t, v); }) == (r != 2), "a right-hand side of the wrong size is refused");
  sym_check(refused(Reference(Order::One, std::make_shared<MockF>(r))) == (r != 2), "a reference of the wrong size is refused");
  auto p = std::make_shared<Prov>(r);
  sym_check(refused(FeedForwardP(p, &Prov::value, Prov::Output::Value, 1.)) == (r != 2), "a feed forward term of the wrong size is refused");
  sym_reach("sizes");
}
} // namespace
void harness()
{
  switch(sym_choose("mode", 5))
  {
    case 0: proportional(); break;
    case 1: pd(); break;
    case 2: critical(); break;
    case 3: others(); break;
    default: sizes();
  }
}
