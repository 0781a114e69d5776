// P14: velocity damper law, for symbolic parameters, distances, velocities and (for the automatic damping) histories.
#define VF_GRAPH
#include "vh.h"
#include "mockf.h"
#include <tvm/Task.h>
#include <tvm/task_dynamics/VelocityDamper.h>
using namespace tvm;
using namespace vf;
using namespace tvm::task_dynamics;
using constraint::Type;
using TDI = std::shared_ptr<task_dynamics::abstract::TaskDynamicsImpl>;
namespace
{
void eval(const TDI & i) { run(i, task_dynamics::abstract::TaskDynamicsImpl::Output::Value); }
struct Param
{
  int n;
  bool aniso, second, lower;
  VectorXd di, ds, xsi, off;
  double dt = 0, big;
  VelocityDamper td;
  static double pos(const char * n) { return sym_real(n, 0.125, 8); }
  Param(int n_, bool automatic, bool vector)
  : n(n_), aniso(vector), second(sym_choose("second order", 2)), lower(sym_choose("lower than", 2)), di(n_), ds(n_), xsi(n_), off(n_),
    td(build(automatic))
  {}
  VelocityDamper build(bool automatic)
  {
    big = sym_real("big", 100, 1000);
    for(int i = 0; i < n; ++i)
    {
      bool fresh = aniso || i == 0;
      ds[i] = fresh ? sym_real("ds", 0, 4) : ds[0];
      di[i] = fresh ? sym_real("di", 0, 8) : di[0];
      xsi[i] = automatic ? 0 : fresh ? pos("xsi") : xsi[0];
      off[i] = fresh ? sym_real("off", 0, 4) : off[0];
      sym_assume(di[i] > ds[i]);
    }
    if(second) dt = pos("dt");
    if(aniso)
    {
      if(!automatic && sym_choose("default offset", 2))
      {
        VelocityDamper::AnisotropicConfig c(di, ds, xsi);
        return second ? VelocityDamper(dt, c, big) : VelocityDamper(c, big);
      }
      VelocityDamper::AnisotropicConfig c(di, ds, xsi, std::optional<VectorConstRef>(off));
      return second ? VelocityDamper(dt, c, big) : VelocityDamper(c, big);
    }
    VelocityDamper::Config c(di[0], ds[0], xsi[0], off[0]);
    return second ? VelocityDamper(dt, c, big) : VelocityDamper(c, big);
  }
  TDI impl(const FunctionPtr & f, const VectorXd & rhs) const
  {
    TDI i = td.impl(f, lower ? Type::LOWER_THAN : Type::GREATER_THAN, rhs);
    sym_check(i->order() == (second ? Order::Two : Order::One) && td.order() == i->order(), "order of the dynamics");
    return i;
  }
  // d: distance, dd: its derivative, x: damping in use; val: what is prescribed for f
  void law(double val, int i, double d, double dd, double x) const
  {
    double bound = lower ? -val : val; // on the derivative of the distance
    if(d > di[i])
    {
      sym_check_eq(bound, -big, "beyond the interaction distance the bound is the big value");
      sym_reach("beyond");
      return;
    }
    double lim = second ? dd + dt * bound : bound; // the next velocity, at the bound
    sym_check_eq(lim * (di[i] - ds[i]), -x * (d - ds[i]), "the distance derivative is bounded by -xsi (d-ds)/(di-ds)");
    sym_reach("within");
  }
};
void fixedDamping()
{
  int n = 2;
  Param p(n, false, sym_choose("anisotropic", 2));
  auto f = std::make_shared<MockF>(n);
  VectorXd rhs = vec("rhs", n, -4, 4);
  TDI i = p.impl(f, rhs);
  for(int k = 0; k < 2; ++k)
  {
    f->v = vec("value", n, -8, 8);
    f->d = vec("velocity", n, -8, 8);
    eval(i);
    for(int j = 0; j < n; ++j)
    {
      double d = p.lower ? rhs[j] - f->v[j] : f->v[j] - rhs[j];
      p.law(i->value()[j], j, d, p.lower ? -f->d[j] : f->d[j], p.xsi[j]);
    }
  }
  sym_reach("fixed");
}
void automatic(int n, int steps)
{
  Param p(n, true, n > 1 && sym_choose("anisotropic", 2));
  auto f = std::make_shared<MockF>(n);
  VectorXd rhs = vec("rhs", n, -4, 4);
  TDI i = p.impl(f, rhs);
  std::vector<bool> in(n, false);
  VectorXd x = VectorXd::Zero(n), xd = VectorXd::Ones(n); // damping x/xd
  for(int k = 0; k < steps; ++k)
  {
    f->v = vec("value", n, -8, 8);
    f->d = vec("velocity", n, -8, 8);
    VectorXd d = p.lower ? VectorXd(rhs - f->v) : VectorXd(f->v - rhs);
    VectorXd dd = p.lower ? VectorXd(-f->d) : f->d;
    // at exactly ds, the automatic damping is undefined
    for(int j = 0; j < n; ++j) sym_assume(d[j] != p.ds[j]);
    eval(i);
    for(int j = 0; j < n; ++j)
    {
      if(d[j] <= p.di[j])
      {
        if(!in[j])
        {
          x[j] = -(p.di[j] - p.ds[j]) / (d[j] - p.ds[j]) * dd[j] + p.off[j];
          sym_reach("enters");
        }
        else
          sym_reach("stays");
        in[j] = true;
      }
      else
      {
        if(in[j]) sym_reach("leaves");
        in[j] = false;
      }
      p.law(i->value()[j], j, d[j], dd[j], x[j]);
    }
  }
  sym_reach("automatic");
}
void refused()
{
  double di = sym_real("di", -4, 8), ds = sym_real("ds", -4, 8), xsi = sym_real("xsi", -2, 2), off = sym_real("off", -2, 2);
  double dt = sym_real("dt", -2, 2), big = sym_real("big", -2, 2);
  bool bad = (di <= ds) | (ds < 0) | (xsi < 0) | (off < 0);
  switch(sym_choose("which", 4))
  {
    case 0:
      sym_check(throws([&] { VelocityDamper::Config(di, ds, xsi, off); }) == bad, "invalid parameters are refused");
      break;
    case 1:
    {
      VectorXd I(2), S(2), X(2), O(2);
      I << di, 3;
      S << ds, 1;
      X << xsi, 1;
      O << off, 1;
      int w = sym_choose("where", 2);
      if(w == 1)
        for(auto v : {&I, &S, &X, &O}) std::swap((*v)[0], (*v)[1]);
      bad = bad | (xsi == 0); // automatic for a part only
      sym_check(throws([&] { VelocityDamper::AnisotropicConfig(I, S, X, std::optional<VectorConstRef>(O)); }) == bad, "invalid parameters are refused");
      break;
    }
    case 2:
    {
      VelocityDamper::Config c(3, 1, 1);
      sym_check(throws([&] { VelocityDamper(c, big); }) == (big <= 0), "invalid big value is refused");
      sym_check(throws([&] { VelocityDamper(dt, c, big); }) == ((big <= 0) | (dt <= 0)), "invalid time step or big value is refused");
      break;
    }
    default:
    {
      int a = sym_conc(sym_int("a", 1, 3)), b = sym_conc(sym_int("b", 1, 3)), c = sym_conc(sym_int("c", 1, 3));
      VectorXd I = VectorXd::Constant(a, 3), S = VectorXd::Constant(b, 1), X = VectorXd::Constant(c, 1);
      bool t = throws([&] { VelocityDamper::AnisotropicConfig(I, S, X); });
      sym_check(t == !(a == b && a == c), "sizes of the parameters must match");
      if(t) return;
      auto f = std::make_shared<MockF>(2);
      VelocityDamper td(VelocityDamper::AnisotropicConfig(I, S, X)), td2(0.5, VelocityDamper::AnisotropicConfig(I, S, X));
      sym_check(throws([&] { td.impl(f, Type::LOWER_THAN, VectorXd::Zero(2)); }) == (a == 3), "sizes of the parameters must be that of the function, or 1");
      sym_check(throws([&] { td2.impl(f, Type::LOWER_THAN, VectorXd::Zero(2)); }) == (a == 3), "sizes of the parameters must be that of the function, or 1");
    }
  }
  sym_reach("refused");
}
// both sides of a double sided task are damped toward their own bound
void both()
{
  auto f = std::make_shared<MockF>(1);
  double l = sym_real("l", -4, 0), u = sym_real("u", 0, 4);
  VelocityDamper td(VelocityDamper::Config(2, 1, 4), 1000);
  Task t(f, Type::DOUBLE_SIDED, td, l, u);
  f->v = vec("value", 1, -8, 8);
  eval(t.taskDynamics());
  eval(t.secondBoundTaskDynamics());
  double dl = f->v[0] - l, du = u - f->v[0];
  sym_check_eq(t.taskDynamics()->value()[0], dl > 2 ? -1000 : -4 * (dl - 1), "lower side of a double sided task");
  sym_check_eq(t.secondBoundTaskDynamics()->value()[0], du > 2 ? 1000 : 4 * (du - 1), "upper side of a double sided task");
  sym_reach("both");
}
} // namespace
void harness()
{
  switch(sym_choose("mode", 5))
  {
    case 0: fixedDamping(); break;
    case 1: automatic(1, sym_tier() ? 6 : 4); break;
    case 2: automatic(2, sym_tier() ? 4 : 3); break;
    case 3: both(); break;
    default: refused();
  }
}
