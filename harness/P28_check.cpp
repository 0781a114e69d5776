// P28: checkJacobian, checkVelocity and checkNormalAcceleration accept consistent functions and reject wrong ones.
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/utils/checkFunction.h>
using namespace tvm;
using namespace vf;
using utils::CheckOptions;
namespace
{
// f_i = (A x)_i + B_i y + c_i x_0^2 / 2 + b_i, with possible errors on its derivatives
class F : public function::abstract::Function
{
public:
  SET_UPDATES(F, Value, Jac, Vel, Na)
  F(VariablePtr x, VariablePtr y) : Function(2), x(x), y(y)
  {
    registerUpdates(Update::Value, &F::uv, Update::Jac, &F::uj, Update::Vel, &F::ud, Update::Na, &F::ua);
    addOutputDependency<F>(Output::Value, Update::Value);
    addOutputDependency<F>(Output::Jacobian, Update::Jac);
    addOutputDependency<F>(Output::Velocity, Update::Vel);
    addOutputDependency<F>(Output::NormalAcceleration, Update::Na);
    addVariable(x, false);
    addVariable(y, false);
  }
  MatrixXd J() const
  {
    MatrixXd j(2, 3);
    j << A, B;
    j.col(0) += c * x->value()[0];
    return j;
  }
  void uv() { value_ = mul(A, x->value()) + B * y->value()[0] + c * (x->value()[0] * x->value()[0] * 0.5) + b; }
  void uj()
  {
    MatrixXd j = J() + eJ;
    jacobian_[x.get()] = j.leftCols(2);
    jacobian_[y.get()] = j.col(2);
  }
  void ud()
  {
    VectorXd d(3);
    d << dot(x)->value(), dot(y)->value();
    velocity_ = mul(J(), d) + eV;
  }
  void ua() { normalAcceleration_ = c * (dot(x)->value()[0] * dot(x)->value()[0]) + eN; }
  VariablePtr x, y;
  MatrixXd A = MatrixXd::Zero(2, 2), eJ = MatrixXd::Zero(2, 3);
  VectorXd B = VectorXd::Zero(2), c = VectorXd::Zero(2), b = VectorXd::Zero(2), eV = VectorXd::Zero(2), eN = VectorXd::Zero(2);
};
double s(const char * n, double lo, double hi) { return sym_real(n, lo, hi); }
// a real whose absolute value is in [lo, hi]
double away(const char * n, double lo, double hi)
{
  double v = sym_real(n, lo, hi);
  return sym_choose("sign", 2) ? v : -v;
}
} // namespace
void harness()
{
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y");
  auto f = std::make_shared<F>(x, y);
  CheckOptions opt(1. / 128, 1. / 128, false);
  int what = sym_choose("check", 4);
  int shape = sym_choose("function", 3);
  if(shape == 2 && what == 3) return;
  // Symbolic values for one of: value, velocity, acceleration, coefficients
  int g = sym_choose("symbolic", 4);
  if(g == 3 && shape != 0) return;
  CheckOptions::CheckConfiguration c;
  c.value = g == 0 ? vec("v", 3, -2, 2) : VectorXd(Eigen::Vector3d(1, -1.5, 0.5));
  c.velocity = g == 1 ? vec("d", 3, 1, 2) : VectorXd(Eigen::Vector3d(1, 2, 1.5));
  c.acceleration = g == 2 ? vec("a", 3, 8, 10) : VectorXd(Eigen::Vector3d(8, 10, 9));
  f->b = Eigen::Vector2d(-3, 2);
  if(shape == 0) // affine
  {
    if(g == 3)
    {
      f->A << 1, s("A", -1, 1), 0, s("A", -1, 1);
      f->B << s("B", -1, 1), 2;
    }
    else
    {
      f->A << 1, -0.5, 0, 0.25;
      f->B << 0.5, 2;
    }
  }
  else if(shape == 2) // quadratic
  {
    f->A(0, 0) = what == 2 ? 0 : 4;
    if(what == 2) (*c.value)[0] = g == 0 ? s("v", -1. / 64, 1. / 64) : 0;
    f->c << 1, 0;
    opt.prec = what == 2 ? 1. / 4 : 1. / 32;
  }
  bool wrong = sym_choose("wrong", 2);
  if(wrong)
  {
    int i = sym_choose("row", 2);
    if(what == 0) f->eJ(i, sym_choose("col", 3)) = away("error", 1, 3);
    if(what == 1) f->eV[i] = away("error", 1, 3);
    if(what == 2) f->eN[i] = away("error", shape == 2 ? 4 : 2, 30);
    if(what == 3)
    {
      int w = sym_choose("which", 3);
      if(w == 0) f->eJ(i, sym_choose("col", 3)) = away("error", 1, 3);
      if(w == 1) f->eV[i] = away("error", 1, 3);
      if(w == 2) f->eN[i] = away("error", 2, 30);
    }
  }
  if(sym_choose("second", 2))
  {
    // a first configuration, then the one above
    CheckOptions::CheckConfiguration d;
    d.value = VectorXd::Ones(3);
    d.velocity = VectorXd::Ones(3);
    d.acceleration = VectorXd(VectorXd::Ones(3) * 8);
    opt.configs = {d, c};
  }
  else
    opt.configs = {c};
  bool r;
  if(what == 0) r = checkJacobian(f, opt);
  else if(what == 1) r = checkVelocity(f, opt);
  else if(what == 2) r = checkNormalAcceleration(f, opt);
  else r = checkFunction(f, opt);
  sym_check(r == !wrong, wrong ? "a wrong function is rejected" : "a right function is accepted");
  sym_reach(wrong ? "wrong" : "right");
}
