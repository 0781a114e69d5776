// P13: a clamped dynamics is the underlying one scaled by the largest factor of [0,1] bringing it within its bounds.
#define VF_GRAPH
#include "vh.h"
#include "mockf.h"
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/VelocityDamper.h>
using namespace tvm;
using namespace vf;
using namespace tvm::task_dynamics;
using constraint::Type;
using TDI = std::shared_ptr<task_dynamics::abstract::TaskDynamicsImpl>;
namespace
{
void eval(const TDI & i) { run(i, task_dynamics::abstract::TaskDynamicsImpl::Output::Value); }
// u: underlying value
void clamped(const VectorXd & out, const VectorXd & u, const VectorXd & lo, const VectorXd & hi)
{
  int n = (int)u.size();
  bool in = true;
  double touch = 1;
  for(int i = 0; i < n; ++i)
  {
    sym_check_le(lo[i], out[i], "clamped value is above the minimum");
    sym_check_le(out[i], hi[i], "clamped value is below the maximum");
    sym_check_le(0, out[i] * u[i], "scaling factor is not negative");
    for(int j = 0; j < i; ++j) sym_check_eq(out[i] * u[j], out[j] * u[i], "clamped value has the direction of the original one");
    // a component out of its bounds, if any, is brought on its bound, for one component at least
    if(u[i] > hi[i])
    {
      in = false;
      touch *= out[i] - hi[i];
    }
    else if(u[i] < lo[i])
    {
      in = false;
      touch *= out[i] - lo[i];
    }
  }
  if(in)
  {
    eqv(out, u, "a value within the bounds is not changed");
    sym_reach("inside");
  }
  else
  {
    sym_check_eq(touch, 0, "scaling factor is the largest possible");
    sym_reach("outside");
  }
}
struct Lim
{
  int form; // 0: max, 1: (min,max), 2: vector max, 3: (vector min, vector max)
  VectorXd lo, hi;
  Lim(int n, int f) : form(f), lo(n), hi(n)
  {
    bool s = f < 2;
    hi = s ? VectorXd::Constant(n, sym_real("max", 0, 5)) : vec("max", n, 0, 5);
    lo = f == 0 || f == 2 ? VectorXd(-hi) : s ? VectorXd::Constant(n, sym_real("min", -5, 0)) : vec("min", n, -5, 0);
  }
  template<typename TD, typename... Args>
  TDI impl(const FunctionPtr & f, const VectorXd & rhs, Args &&... a) const
  {
    using Cl = Clamped<TD>;
    Type t = Type::EQUAL;
    TDI r;
    if(form == 0)
      r = Cl(hi[0], a...).impl(f, t, rhs);
    else if(form == 1)
      r = Cl(std::pair<double, double>(lo[0], hi[0]), a...).impl(f, t, rhs);
    else if(form == 2)
      r = Cl(VectorConstRef(hi), a...).impl(f, t, rhs);
    else
      r = Cl(std::pair<VectorConstRef, VectorConstRef>(lo, hi), a...).impl(f, t, rhs);
    sym_check(r->template checkType<typename Cl::Impl>() && r->template checkType<typename TD::Impl>(), "type of the implementation");
    auto & i = static_cast<typename Cl::Impl &>(*r);
    eqv(std::as_const(i).min(), lo, "minimum");
    eqv(std::as_const(i).max(), hi, "maximum");
    return r;
  }
};
void proportional()
{
  int n = sym_tier() ? 3 : 2;
  auto f = std::make_shared<MockF>(n);
  VectorXd rhs = vec("rhs", n);
  Lim l(n, sym_choose("form", 4));
  f->v = vec("value", n);
  double k = sym_choose("gain", 2) ? 2 : -1;
  TDI i = l.impl<P>(f, rhs, k);
  eval(i);
  clamped(i->value(), -k * (f->v - rhs), l.lo, l.hi);
  sym_check(i->order() == Order::One, "order");
  if(sym_choose("again", 2))
  {
    // new bounds, new value, through the accessors
    Lim m(n, 3);
    auto & c = static_cast<Clamped<P>::Impl &>(*i);
    c.min() = m.lo;
    c.max() = m.hi;
    f->v = vec("value", n);
    eval(i);
    clamped(i->value(), -k * (f->v - rhs), m.lo, m.hi);
    sym_reach("again");
  }
}
void nested()
{
  int n = 2;
  auto f = std::make_shared<MockF>(n);
  VectorXd rhs = VectorXd::Zero(n);
  Lim l(n, sym_choose("form", 4));
  f->v = vec("value", n);
  f->d = vec("velocity", n);
  TDI i;
  VectorXd u;
  switch(sym_choose("which", 2))
  {
    case 0:
      i = l.impl<PD>(f, rhs, 3., 2.);
      u = -2 * f->d - 3 * f->v;
      sym_check(i->order() == Order::Two, "order");
      break;
    default:
    {
      // clamped twice
      Lim k(n, 3);
      using In = Clamped<P>;
      TDI in = In(std::pair<VectorConstRef, VectorConstRef>(k.lo, k.hi), 1.).impl(f, Type::EQUAL, rhs);
      eval(in);
      u = in->value();
      i = l.impl<In>(f, rhs, std::pair<VectorConstRef, VectorConstRef>(k.lo, k.hi), 1.);
    }
  }
  eval(i);
  clamped(i->value(), u, l.lo, l.hi);
  sym_reach("nested");
}
void refused()
{
  int n = 2;
  auto f = std::make_shared<MockF>(n);
  VectorXd rhs = VectorXd::Zero(n);
  double a = sym_real("a", -5, 5), b = sym_real("b", -5, 5), c = sym_real("c", -5, 5), d = sym_real("d", -5, 5);
  VectorXd A(2), B(2);
  A << a, c;
  B << b, d;
  switch(sym_choose("form", 5))
  {
    case 0: sym_check(throws([&] { Clamped<P>(a, 1.); }) == (a < 0), "negative maximum refused"); break;
    case 1:
      sym_check(throws([&] { Clamped<P>(std::make_pair(a, b), 1.); }) == ((a > 0) | (b < 0)), "bounds must be on each side of 0");
      break;
    case 2:
      sym_check(throws([&] { Clamped<P>(VectorConstRef(A), 1.); }) == ((a < 0) | (c < 0)), "negative maximum refused");
      break;
    case 3:
      sym_check(throws([&] { Clamped<P>(std::pair<VectorConstRef, VectorConstRef>(A, B), 1.); }) == ((a > 0) | (c > 0) | (b < 0) | (d < 0)),
                "bounds must be on each side of 0");
      break;
    default:
    {
      int p = sym_conc(sym_int("p", 1, 3)), q = sym_conc(sym_int("q", 1, 3));
      VectorXd l = -VectorXd::Ones(p), u = VectorXd::Ones(q);
      sym_check(throws([&] { Clamped<P>(std::pair<VectorConstRef, VectorConstRef>(l, u), 1.).impl(f, Type::EQUAL, rhs); }) == !(p == 2 && q == 2),
                "sizes of the bounds");
      sym_check(throws([&] { Clamped<P>(VectorConstRef(u), 1.).impl(f, Type::EQUAL, rhs); }) == (q != 2), "sizes of the bounds");
    }
  }
  sym_reach("refused");
}
} // namespace
void harness()
{
  switch(sym_choose("mode", 3))
  {
    case 0: proportional(); break;
    case 1: nested(); break;
    default: refused();
  }
}
