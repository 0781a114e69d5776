// P28: evaluating a function through UpdatelessFunction gives what its updates compute for the values given.
#define VF_GRAPH
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/utils/UpdatelessFunction.h>
using namespace tvm;
using namespace vf;
namespace
{
// f_i = (A x)_i + B_i y + c_i x_0 y, computed through a chain of updates
class F : public function::abstract::Function
{
public:
  SET_UPDATES(F, Value, Common, Jac, Vel, Na, JD)
  F(VariablePtr x, VariablePtr y, bool part = false) : Function(2), x(x), y(y)
  {
    registerUpdates(Update::Value, &F::uv, Update::Common, &F::uc, Update::Jac, &F::uj, Update::Vel, &F::ud, Update::Na, &F::ua, Update::JD, &F::uJ);
    addOutputDependency<F>(Output::Value, Update::Value);
    addOutputDependency<F>(Output::Jacobian, Update::Jac);
    addInternalDependency<F>(Update::Jac, Update::Common);
    addOutputDependency<F>(Output::Velocity, Update::Vel);
    addInternalDependency<F>(Update::Vel, Update::Jac);
    if(!part)
    {
      addOutputDependency<F>(Output::JDot, Update::JD);
      addOutputDependency<F>(Output::NormalAcceleration, Update::Na);
      addInternalDependency<F>(Update::Na, Update::JD);
    }
    addVariable(x, false);
    addVariable(y, false);
  }
  void uv() { value_ = fv(x->value(), y->value()[0]); }
  void uc() { common = y->value()[0]; }
  void uj()
  {
    jacobian_[x.get()] = A;
    for(int i = 0; i < 2; ++i) jacobian_[x.get()](i, 0) += c[i] * common;
    jacobian_[y.get()] = B + c * x->value()[0];
  }
  void ud()
  {
    VectorXd dx = dot(x)->value(), dy = dot(y)->value();
    velocity_ = mul(jacobian_[x.get()], dx) + mul(jacobian_[y.get()], dy);
  }
  void uJ()
  {
    JDot_[x.get()].setZero();
    for(int i = 0; i < 2; ++i) JDot_[x.get()](i, 0) = c[i] * dot(y)->value()[0];
    JDot_[y.get()] = c * dot(x)->value()[0];
  }
  void ua() { normalAcceleration_ = JDot_[x.get()].col(0) * dot(x)->value()[0] + JDot_[y.get()].col(0) * dot(y)->value()[0]; }
  VectorXd fv(const VectorXd & X, double Y) const { return mul(A, X) + B * Y + c * (X[0] * Y); }
  VariablePtr x, y;
  double common = 1e5;
  MatrixXd A = mat("A", 2, 2);
  VectorXd B = vec("B", 2), c = vec("c", 2);
};
// without the outputs about the second derivative
class Part : public F
{
public:
  SET_OUTPUTS(Part, Nothing)
  DISABLE_OUTPUTS(F::Output::NormalAcceleration, F::Output::JDot)
  using F::F;
};
struct World
{
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y"), z = Space(1).createVariable("z");
  std::shared_ptr<F> f;
  std::unique_ptr<utils::UpdatelessFunction> u;
  VectorXd X, Y, dX, dY; // expected values
  World()
  {
    // the variables may be parts of others
    if(sym_choose("subvariables", 2))
    {
      VariablePtr w = Space(4).createVariable("w");
      w->set(VectorXd(VectorXd::Zero(4)));
      x = w->subvariable(Space(2), "x", Space(1));
      y = w->subvariable(Space(1), "y", Space(0));
    }
    f = std::make_shared<F>(x, y);
    u = std::make_unique<utils::UpdatelessFunction>(f);
    x->set(X = vec("x", 2));
    y->set(Y = vec("y", 1));
    dot(x)->set(dX = vec("dx", 2));
    dot(y)->set(dY = vec("dy", 1));
  }
  void check()
  {
    eqv(x->value(), X, "value of the variable");
    eqv(y->value(), Y, "value of the variable");
    eqv(dot(x)->value(), dX, "velocity of the variable");
    eqv(dot(y)->value(), dY, "velocity of the variable");
  }
  MatrixXd Jx() const
  {
    MatrixXd J = f->A;
    for(int i = 0; i < 2; ++i) J(i, 0) += f->c[i] * Y[0];
    return J;
  }
  VectorXd Jy() const { return f->B + f->c * X[0]; }
  void step()
  {
    int out = sym_choose("output", 7), style = sym_choose("style", 9);
    VectorXd a = vec("a", 2), b = vec("b", 1), da = vec("da", 2), db = vec("db", 1), o = vec("o", 2), q = vec("q", 3), dq = vec("dq", 3);
    q << a, b;
    dq << da, db;
    std::initializer_list<double> la = {a[0], a[1]}, lb = {b[0]}, lda = {da[0], da[1]}, ldb = {db[0]}, lq = {a[0], a[1], b[0]};
    bool vel = out >= 3, ux = style != 6, uy = style != 5;
    if(ux) X = a;
    if(uy) Y = b;
    if(vel && ux) dX = da;
    if(vel && uy) dY = db;
    auto pos = [&](auto && g) {
      switch(style)
      {
        case 0: g(a, b); break;
        case 1: g(la, lb); break;
        case 2: g(q); break;
        case 3: g(lq); break;
        case 4: g(*x, a, *y, b); break;
        case 5: g(*x, la); break;
        case 6: g(*y, b); break;
        case 7: g(*y, lb, *x, o, *x, a); break;
        default: g(a, lb);
      }
    };
    auto full = [&](auto && g) {
      switch(style)
      {
        case 0: g(a, da, b, db); break;
        case 1: g(la, lda, lb, ldb); break;
        case 2: g(q, dq); break;
        case 3: g(lq, dq); break;
        case 4: g(*x, a, da, *y, b, db); break;
        case 5: g(*x, la, da); break;
        case 6: g(*y, b, ldb); break;
        case 7: g(*y, lb, ldb, *x, o, a, *x, a, lda); break;
        default: g(a, lda, lb, db);
      }
    };
    switch(out)
    {
      case 0:
        pos([&](auto &&... v) { eqv(u->value(v...), f->fv(a_(), Y[0]), "value"); });
        break;
      case 1:
        pos([&](auto &&... v) { eqv(u->jacobian(*x, v...), Jx(), "jacobian"); });
        break;
      case 2:
        pos([&](auto &&... v) { eqv(u->jacobian(*y, v...), Jy(), "jacobian"); });
        break;
      case 3:
        full([&](auto &&... v) { eqv(u->velocity(v...), VectorXd(mul(Jx(), dX) + mul(Jy(), dY)), "velocity"); });
        break;
      case 4:
        full([&](auto &&... v) { eqv(u->normalAcceleration(v...), VectorXd(2 * dX[0] * dY[0] * f->c), "normal acceleration"); });
        break;
      case 5:
        full([&](auto &&... v) {
          MatrixXd J = u->JDot(*x, v...);
          MatrixXd E = MatrixXd::Zero(2, 2);
          E.col(0) = f->c * dY[0];
          eqv(J, E, "derivative of the jacobian");
        });
        break;
      default:
        full([&](auto &&... v) {
          MatrixXd J = u->JDot(*y, v...);
          eqv(J, VectorXd(f->c * dX[0]), "derivative of the jacobian");
        });
    }
    check();
    sym_reach("evaluated");
  }
  VectorXd a_() const { return X; }
};
// variables whose representation and tangent space have different sizes
class G : public function::abstract::Function
{
public:
  SET_UPDATES(G, Value, Vel)
  G(VariablePtr r, VariablePtr x, VariablePtr y, bool after) : Function(2), r(r), x(x), y(y)
  {
    registerUpdates(Update::Value, &G::uv, Update::Vel, &G::ud);
    addOutputDependency<G>(Output::Value, Update::Value);
    addOutputDependency<G>(Output::Velocity, Update::Vel);
    if(after) addVariable(x, false);
    addVariable(r, false);
    if(!after) addVariable(x, false);
    addVariable(y, false);
  }
  void uv() { value_ = mul(M, r->value()) + mul(A, x->value()) + B * y->value()[0]; }
  void ud() { velocity_ = mul(N, dot(r)->value()) + mul(A, dot(x)->value()) + B * dot(y)->value()[0]; }
  VariablePtr r, x, y;
  VectorXd B = vec("B", 2);
  MatrixXd M = mat("M", 2, r->size()), N = mat("N", 2, r->space().tSize()), A = mat("A", 2, 2);
};
void manifold()
{
  bool after = sym_choose("after", 2);
  VariablePtr r = Space(sym_choose("SE3", 2) ? Space::Type::SE3 : Space::Type::SO3).createVariable("r"), x = Space(2).createVariable("x"), y = Space(1).createVariable("y");
  int n = r->size(), k = r->space().tSize();
  VectorXd R = VectorXd::Zero(n), X = VectorXd::Zero(2), dR = VectorXd::Zero(k), dX = VectorXd::Zero(2), Y = VectorXd::Zero(1), dY = VectorXd::Zero(1);
  R[0] = 1;
  r->set(R);
  x->set(X);
  dot(r)->set(dR);
  dot(x)->set(dX);
  y->set(Y);
  dot(y)->set(dY);
  auto f = std::make_shared<G>(r, x, y, after);
  utils::UpdatelessFunction u(f);
  auto cat = [&](const VectorXd & a, const VectorXd & b, const VectorXd & d) {
    VectorXd c(a.size() + b.size() + 1);
    if(after)
      c << b, a, d;
    else
      c << a, b, d;
    return c;
  };
  for(int s = 0; s < 2; ++s)
  {
    R = vec("R", n);
    X = vec("X", 2);
    Y = vec("Y", 1);
    if(sym_choose("velocity", 2))
    {
      dR = vec("dR", k);
      dX = vec("dX", 2);
      dY = vec("dY", 1);
      VectorXd g;
      switch(sym_choose("style", 3))
      {
        case 0: g = u.velocity(cat(R, X, Y), cat(dR, dX, dY)); break;
        case 1: g = after ? u.velocity(X, dX, R, dR, Y, dY) : u.velocity(R, dR, X, dX, Y, dY); break;
        default: g = u.velocity(*x, X, dX, *y, Y, dY, *r, R, dR);
      }
      eqv(g, VectorXd(mul(f->N, dR) + mul(f->A, dX) + f->B * dY[0]), "velocity");
    }
    else
    {
      VectorXd g;
      switch(sym_choose("style", 3))
      {
        case 0: g = u.value(cat(R, X, Y)); break;
        case 1: g = after ? u.value(X, R, Y) : u.value(R, X, Y); break;
        default: g = u.value(*x, X, *y, Y, *r, R);
      }
      eqv(g, VectorXd(mul(f->M, R) + mul(f->A, X) + f->B * Y[0]), "value");
    }
    eqv(r->value(), R, "value of the variable");
    eqv(x->value(), X, "value of the variable");
    eqv(dot(r)->value(), dR, "velocity of the variable");
    eqv(dot(x)->value(), dX, "velocity of the variable");
    eqv(y->value(), Y, "value of the variable");
    eqv(dot(y)->value(), dY, "velocity of the variable");
  }
  sym_check(throws([&] { u.value(X, X, Y); }) && throws([&] { u.velocity(R, R, X, X, Y, Y); }), "wrong sizes are refused");
  sym_check(throws([&] { u.velocity(cat(R, X, Y), cat(R, X, Y)); }) && throws([&] { u.velocity(cat(dR, dX, dY), cat(dR, dX, dY)); }), "wrong sizes are refused");
  sym_reach("manifold");
}
void refusals(World & W)
{
  auto & u = *W.u;
  VectorXd a = vec("a", 2), b = vec("b", 1), q = vec("q", 3);
  auto x = W.x, y = W.y;
  VariablePtr z = W.z;
  using L = std::initializer_list<double>;
  bool t;
  switch(sym_choose("refusal", 20))
  {
    case 0: t = throws([&] { u.value(a); }); break;
    case 1: t = throws([&] { u.value(a, b, b); }); break;
    case 2: t = throws([&] { u.value(b, a); }); break;
    case 3: t = throws([&] { u.value(a, a); }); break;
    case 4: t = throws([&] { u.value(*z, b); }); break;
    case 5: t = throws([&] { u.value(*x, b); }); break;
    case 6: t = throws([&] { u.value(*x, a, *y, a); }); break;
    case 7: t = throws([&] { u.jacobian(*x, L{1, 2}); }); break;
    case 8: t = throws([&] { u.value(L{1, 2, 3, 4}); }); break;
    case 9: t = throws([&] { u.velocity(a, a); }); break;
    case 10: t = throws([&] { u.velocity(a, b, b, b); }); break;
    case 11: t = throws([&] { u.velocity(a, a, b, a); }); break;
    case 12: t = throws([&] { u.velocity(q, a); }); break;
    case 13: t = throws([&] { u.velocity(a, q); }); break;
    case 14: t = throws([&] { u.velocity(*x, a, b); }); break;
    case 15: t = throws([&] { u.velocity(*z, b, b); }); break;
    case 16: t = throws([&] { u.normalAcceleration(a, a, b, b, b, b); }); break;
    case 17: t = throws([&] { u.jacobian(*z, a, b); }); break;
    default:
    {
      auto f = std::make_shared<Part>(x, y, true);
      f->A = W.f->A;
      utils::UpdatelessFunction p(f);
      t = throws([&] { p.normalAcceleration(a, a, b, b); }) && throws([&] { p.JDot(*x, a, a, b, b); });
      eqv(p.value(a, b), f->fv(a, b[0]), "the available outputs are computed");
    }
  }
  sym_check(t, "wrong arguments are refused");
  sym_reach("refused");
}
} // namespace
void harness()
{
  if(sym_choose("manifold", 2)) return manifold();
  World W;
  if(sym_choose("refused", 2))
    refusals(W);
  else
    for(int k = 0; k < 2 + (sym_tier() > 0); ++k) W.step();
}
