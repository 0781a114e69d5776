// P23: affine expressions evaluate to what is written; comparison operators build the task that is written.
#define VF_GRAPH
#define VF_PROPERTIES
#include "vh.h"
#include "mockf.h"
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/utils/ProtoTask.h>
using namespace tvm;
using namespace vf;
using constraint::Type;
using function::BasicLinearFunction;
using FO = function::abstract::Function::Output;
using LO = function::abstract::LinearFunction::Output;
namespace
{
// coordinates: a (3), c (2); u = a[0:2), v = a[1:3), w = a[2:3), p = a[0:1)
struct World
{
  VariablePtr a = Space(3).createVariable("a"), c = Space(2).createVariable("c");
  VariablePtr u = a->subvariable(Space(2), "u"), v = a->subvariable(Space(2), "v", Space(1)), w = a->subvariable(Space(1), "w", Space(2)),
              p = a->subvariable(Space(1), "p");
  VariablePtr ad = dot(a), cd = dot(c), ud = dot(u), vd = dot(v);
  VectorXd x = vec("x", 5), dx = vec("dx", 5), ddx = vec("ddx", 5);
  void set(bool diff)
  {
    a->set(x.head(3));
    c->set(x.tail(2));
    ad->set(dx.head(3));
    cd->set(dx.tail(2));
    if(diff)
    {
      dot(ad)->set(ddx.head(3));
      dot(cd)->set(ddx.tail(2));
    }
  }
  std::vector<VariablePtr> parts;
  bool nonlinear = false;
  World() { parts = {a, c, u, v, w, p}; }
};
const int start[] = {0, 3, 0, 1, 2, 0}, dim[] = {3, 2, 2, 2, 1, 1};
enum
{
  a_,
  c_,
  u_,
  v_,
  w_,
  p_
};
// what the expression is worth: J x + b
struct Oracle
{
  MatrixXd J;
  VectorXd b;
  Oracle(int m) : J(MatrixXd::Zero(m, 5)), b(VectorXd::Zero(m)) {}
  Oracle & add(const MatrixXd & A, int k)
  {
    for(int i = 0; i < J.rows(); ++i)
      for(int j = 0; j < dim[k]; ++j) J(i, start[k] + j) = J(i, start[k] + j) + A(i, j);
    return *this;
  }
  Oracle & add(double s, int k) { return add(MatrixXd(s * MatrixXd::Identity(dim[k], dim[k])), k); }
  Oracle & cst(const VectorXd & d)
  {
    b = b + d;
    return *this;
  }
};
template<typename F>
void checkF(World & w, const std::shared_ptr<F> & f, const Oracle & o, bool diff)
{
  // diff: the variables of the expression are the derivatives of those of the world
  const VectorXd &x = diff ? w.dx : w.x, &dx = diff ? w.ddx : w.dx;
  w.set(diff);
  run(f, FO::Value, FO::Velocity, FO::NormalAcceleration, FO::Jacobian, FO::JDot, LO::B);
  sym_check(f->size() == o.J.rows(), "size");
  eqv(f->value(), mul(o.J, x) + o.b, "value of the expression");
  eqv(f->velocity(), mul(o.J, dx), "velocity of the expression");
  eqv(f->normalAcceleration(), VectorXd::Zero(o.J.rows()), "normal acceleration of an affine expression");
  eqv(f->b(), o.b, "constant part");
  claims(f->b().properties(), f->b(), "properties of the constant part are true");
  int covered = 0;
  for(int k = 0; k < 6; ++k)
  {
    VariablePtr v = diff ? dot(w.parts[k]) : w.parts[k];
    bool in = false;
    for(const auto & y : f->variables()) in = in || y->contains(*v);
    if(!in) continue;
    auto J = f->jacobian(*v);
    eqv(J, o.J.middleCols(start[k], dim[k]), "jacobian of the expression");
    claims(J.properties(), J, "properties of the jacobian are true");
    sym_check(f->linearIn(*v), "linear");
    eqv(f->JDot(*v), MatrixXd::Zero(o.J.rows(), dim[k]), "the jacobian is constant");
  }
  for(const auto & y : f->variables())
  {
    claims(f->jacobian(*y).properties(), f->jacobian(*y), "properties of the jacobian are true");
    covered += y->size();
    for(const auto & z : f->variables()) sym_check(y == z || !y->intersects(*z), "variables are merged");
  }
  int used = 0;
  for(int j = 0; j < 5; ++j)
    for(int i = 0; i < o.J.rows(); ++i)
      if(!sym_same(o.J(i, j), 0))
      {
        ++used;
        break;
      }
  sym_check(used <= covered, "no variable is lost");
}
// as the operators of ProtoTask.h do, or through a task
template<typename E>
void check(World & w, const E & e, const Oracle & o, bool diff = false)
{
  checkF(w, std::make_shared<BasicLinearFunction>(e), o, diff);
}
void expressions(World & w, int part)
{
  const auto &a = w.a, &c = w.c, &u = w.u, &v = w.v, &p = w.p;
  const auto & q = w.w;
  MatrixXd A = mat("A", 2, 3), B = mat("B", 2, 2), C = mat("C", 2, 2), D = mat("D", 2, 1);
  VectorXd b = vec("b", 2), d = vec("d", 2);
  double s = sym_real("s", 0.25, 4);
  Oracle o(2);
  switch(part)
  {
    case 0: // single terms
      switch(anyInt("expr", 10))
      {
        case 0: return check(w, A * a, o.add(A, a_));
        case 1: return check(w, -(B * u), o.add(-B, u_));
        case 2: return check(w, s * c, o.add(s, c_));
        case 3: return check(w, -v, o.add(-1, v_));
        case 4: return check(w, s * (B * v), o.add(s * B, v_));
        case 5: return check(w, (B + C) * c, o.add(B + C, c_));
        case 6: return check(w, B * C * u, o.add(mul(B, C), u_));
        case 7: return check(w, B * (C * u), o.add(mul(B, C), u_));
        case 8: return check(w, B.transpose() * -c, o.add(-B.transpose(), c_));
        default: return check(w, D * q, o.add(D, w_));
      }
    case 1: // with a constant
      switch(anyInt("expr", 10))
      {
        case 0: return check(w, A * a + b, o.add(A, a_).cst(b));
        case 1: return check(w, b + A * a, o.add(A, a_).cst(b));
        case 2: return check(w, A * a - b, o.add(A, a_).cst(-b));
        case 3: return check(w, b + -(A * a), o.add(-A, a_).cst(b));
        case 4: return check(w, b + u, o.add(1, u_).cst(b));
        case 5: return check(w, b - u, o.add(-1, u_).cst(b));
        case 6: return check(w, u + s * b, o.add(1, u_).cst(s * b));
        case 7: return check(w, v - (b - d), o.add(1, v_).cst(d - b));
        case 8: return check(w, b + A * a + d, o.add(A, a_).cst(b).cst(d));
        default: return check(w, d + -(b + -(B * c)), o.add(B, c_).cst(d).cst(-b));
      }
    case 2: // two terms
      switch(anyInt("expr", 12))
      {
        case 0: return check(w, u + c, o.add(1, u_).add(1, c_));
        case 1: return check(w, u - c, o.add(1, u_).add(-1, c_));
        case 2: return check(w, -u + c, o.add(-1, u_).add(1, c_));
        case 3: return check(w, s * u - c, o.add(s, u_).add(-1, c_));
        case 4: return check(w, u - s * c, o.add(1, u_).add(-s, c_));
        case 5: return check(w, A * a - B * c + b, o.add(A, a_).add(-B, c_).cst(b));
        case 6: return check(w, -(A * a + B * c - b), o.add(-A, a_).add(-B, c_).cst(b));
        case 7: return check(w, b + -(A * a + B * c), o.add(-A, a_).add(-B, c_).cst(b));
        case 8: return check(w, c - (B * u + b), o.add(1, c_).add(-B, u_).cst(-b));
        case 9: return check(w, (B * u + b) - c, o.add(-1, c_).add(B, u_).cst(b));
        case 10: return check(w, s * (A * a + B * c + b), o.add(s * A, a_).add(s * B, c_).cst(s * b));
        default: return check(w, C * (A * a - (B * c + b)), o.add(mul(C, A), a_).add(-mul(C, B), c_).cst(-mul(C, b)));
      }
    case 3: // repeated or overlapping variables
      switch(anyInt("expr", 14))
      {
        case 0: return check(w, A * a + A * a, o.add(A, a_).add(A, a_));
        case 1: return check(w, u + u, o.add(1, u_).add(1, u_));
        case 2: return check(w, s * u - u, o.add(s, u_).add(-1, u_));
        case 3: return check(w, u - u + b, o.cst(b));
        case 4: return check(w, B * u + C * v, o.add(B, u_).add(C, v_));
        case 5: return check(w, B * u + D * q + b, o.add(B, u_).add(D, w_).cst(b));
        case 6: return check(w, D * q - B * u, o.add(D, w_).add(-B, u_));
        case 7: return check(w, D * p + B * c + D * q, o.add(D, p_).add(B, c_).add(D, w_));
        case 8: return check(w, A * a + B * c - D * q + b, o.add(A, a_).add(B, c_).add(-D, w_).cst(b));
        case 9: return check(w, D * q + B * v + A * a, o.add(D, w_).add(B, v_).add(A, a_));
        case 10: return check(w, B * c - (C * u + B * c) + d, o.add(-C, u_).cst(d));
        case 11: return check(w, D * p + D * p + D * q, o.add(D, p_).add(D, p_).add(D, w_));
        case 12: return check(w, u + v, o.add(1, u_).add(1, v_));
        default: return check(w, B * v + v - s * v + b, o.add(B, v_).add(1, v_).add(-s, v_).cst(b));
      }
    case 4: // sums of sums
      switch(anyInt("expr", 9))
      {
        case 0: return check(w, (A * a + b) + (B * c + d), o.add(A, a_).add(B, c_).cst(b).cst(d));
        case 1: return check(w, (A * a + b) - (B * c + d), o.add(A, a_).add(-B, c_).cst(b).cst(-d));
        case 2: return check(w, (A * a + B * c) - (B * u + b), o.add(A, a_).add(B, c_).add(-B, u_).cst(-b));
        case 3: return check(w, (A * a + b) - (B * c - u), o.add(A, a_).add(-B, c_).add(1, u_).cst(b));
        case 4: return check(w, A * a + (B * c + C * u), o.add(A, a_).add(B, c_).add(C, u_));
        case 5: return check(w, A * a - (B * c - (C * v + d)), o.add(A, a_).add(-B, c_).add(C, v_).cst(d));
        case 6: return check(w, (u + c) + b - (v - d), o.add(1, u_).add(1, c_).add(-1, v_).cst(b).cst(d));
        case 7: return check(w, -(-(u - s * c) - b) - d, o.add(1, u_).add(-s, c_).cst(b).cst(-d));
        default: return check(w, B * (u - (c + b)) - (b + -(C * (c - d))), o.add(B, u_).add(-B, c_).add(C, c_).cst(-mul(B, b)).cst(-b).cst(-mul(C, d)));
      }
    case 5: // special matrices
    {
      MatrixXd I2 = MatrixXd::Identity(2, 2), I23 = MatrixXd::Identity(2, 3);
      Eigen::Matrix2d F = B;
      Eigen::Vector2d g = b;
      Eigen::Matrix<double, 2, 3, Eigen::RowMajor> R = A;
      double z = sym_real("z", -1, 1); // possibly zero
      switch(anyInt("expr", 11))
      {
        case 0: return check(w, MatrixXd::Identity(2, 2) * u, o.add(I2, u_));
        case 1: return check(w, MatrixXd::Identity(2, 3) * a, o.add(I23, a_));
        case 2: return check(w, z * MatrixXd::Identity(2, 2) * u, o.add(z * I2, u_));
        case 3: return check(w, z * MatrixXd::Identity(2, 3) * a + b, o.add(z * I23, a_).cst(b));
        case 4: return check(w, -MatrixXd::Identity(2, 3) * a, o.add(-I23, a_));
        case 5: return check(w, F * u + g, o.add(B, u_).cst(b));
        case 6: return check(w, R * a - g, o.add(A, a_).cst(-b));
        case 7: return check(w, A.leftCols(2) * c + A.col(2), o.add(A.leftCols(2), c_).cst(A.col(2)));
        case 8: return check(w, A.middleCols(1, 1) * p + b.head(2), o.add(A.middleCols(1, 1), p_).cst(b));
        case 9: return check(w, b.asDiagonal() * (B * u), o.add(mul(MatrixXd(b.asDiagonal()), B), u_));
        default: return check(w, z * (u - s * c) - MatrixXd::Identity(2, 2) * u, o.add(z, u_).add(-z * s, c_).add(-1, u_));
      }
    }
    case 6: // derivatives of variables, expressions kept for later
    {
      switch(anyInt("expr", 6))
      {
        case 0: return check(w, A * dot(a) + b, o.add(A, a_).cst(b), true);
        case 1: return check(w, dot(u) - B * dot(c), o.add(1, u_).add(-B, c_), true);
        case 2: return check(w, s * dot(u) + D * dot(q), o.add(s, u_).add(D, w_), true);
        case 3:
        {
          auto e = A * dot(a) - s * dot(c);
          auto f = e + b;
          auto g = -f;
          check(w, g - d, o.add(-A, a_).add(s, c_).cst(-b).cst(-d), true);
          return;
        }
        case 4:
        {
          auto e = A * a + b;
          auto f = B * e - c;
          A = mat("A2", 2, 3); // A and b are referred to until the function is built
          b = vec("b2", 2);
          check(w, f + d, o.add(mul(B, A), a_).add(-1, c_).cst(mul(B, b)).cst(d));
          return;
        }
        default:
        {
          auto e = -dot(u);
          check(w, B * e, o.add(-B, u_), true);
          return;
        }
      }
    }
    default: // refusals
    {
      MatrixXd W = mat("W", 3, 2);
      VectorXd h = vec("h", 3);
      sym_check(throws([&] { BasicLinearFunction f(A * a + W * c); }), "terms of different sizes are refused");
      sym_check(throws([&] { BasicLinearFunction f(A * a + h); }), "a constant of the wrong size is refused");
      sym_check(throws([&] { BasicLinearFunction f(u - h); }), "a constant of the wrong size is refused");
      sym_check(throws([&] { auto t = (A * a == h); }), "a right-hand side of the wrong size is refused");
      sym_check(throws([&] { auto t = (u + c <= h); }), "a right-hand side of the wrong size is refused");
      sym_check(throws([&] { auto t = (h <= u); }), "a right-hand side of the wrong size is refused");
      sym_check(throws([&] { auto t = ((b <= u) <= h); }), "an upper bound of the wrong size is refused");
      MatrixXd S = mat("S", 2, 4);
      VariablePtr so3 = Space(Space::Type::SO3).createVariable("so3");
      sym_check(throws([&] { BasicLinearFunction f(S * so3); }), "linear functions are on Euclidean variables");
      sym_check(throws([&] { BasicLinearFunction f(S * so3 + b); }), "linear functions are on Euclidean variables");
      MatrixXd T = mat("T", 2, 3);
      VariablePtr rd = dot(so3);
      VectorXd x = vec("omega", 3);
      rd->set(x);
      auto f = std::make_shared<BasicLinearFunction>(T * rd + b);
      run(f, FO::Value);
      eqv(f->value(), mul(T, x) + b, "derivatives of variables of any space are allowed");
      sym_reach("refusals");
    }
  }
}
struct Want
{
  Type t;
  VectorXd l, u;
};
template<typename P>
void checkTask(const P & proto, World & w, const Oracle & o, const Want & want)
{
  // a first order dynamics: d(expression)/dt {=, >=, <=} -2 (expression - right-hand side)
  bool order = sym_choose("order", 2);
  if(!order && w.nonlinear) return;
  Task t = order ? Task(proto, task_dynamics::P(2.)) : Task(proto, task_dynamics::None());
  sym_check(t.type() == want.t, "type of the task");
  w.set(false);
  auto c = std::make_shared<constraint::internal::LinearizedTaskConstraint>(t);
  using CO = constraint::abstract::Constraint::Output;
  sym_check(c->type() == want.t, "type of the constraint");
  run(t.function(), FO::Value);
  VectorXd f = mul(o.J, w.x) + o.b;
  eqv(t.function()->value(), f, "function of the task");
  auto bound = [&](const VectorXd & r) -> VectorXd { return order ? VectorXd(-2 * (f - r)) : VectorXd(r - o.b); };
  if(want.t == Type::EQUAL)
  {
    run(c, CO::E, CO::Jacobian);
    eqv(c->e(), bound(want.l), "right-hand side");
  }
  if(want.t == Type::GREATER_THAN || want.t == Type::DOUBLE_SIDED)
  {
    run(c, CO::L, CO::Jacobian);
    eqv(c->l(), bound(want.l), "lower bound");
  }
  if(want.t == Type::LOWER_THAN || want.t == Type::DOUBLE_SIDED)
  {
    run(c, CO::U, CO::Jacobian);
    eqv(c->u(), bound(want.u), "upper bound");
  }
  for(int k : {a_, c_})
  {
    bool in = false;
    auto v = order ? dot(w.parts[k]) : w.parts[k];
    for(const auto & y : c->variables()) in = in || y == v;
    if(in) eqv(c->jacobian(*v), o.J.middleCols(start[k], dim[k]), "jacobian of the constraint");
  }
}
// all the operators for an operand e
template<typename E, typename R>
void compare(World & w, const E & e, const Oracle & o, const R & r, const VectorXd & rv, const R & r2, const VectorXd & rv2)
{
  switch(anyInt("op", 10))
  {
    case 0: return checkTask(e == r, w, o, {Type::EQUAL, rv, rv});
    case 1: return checkTask(r == e, w, o, {Type::EQUAL, rv, rv});
    case 2: return checkTask(e >= r, w, o, {Type::GREATER_THAN, rv, rv});
    case 3: return checkTask(r >= e, w, o, {Type::LOWER_THAN, rv, rv});
    case 4: return checkTask(e <= r, w, o, {Type::LOWER_THAN, rv, rv});
    case 5: return checkTask(r <= e, w, o, {Type::GREATER_THAN, rv, rv});
    case 6: return checkTask(r <= e <= r2, w, o, {Type::DOUBLE_SIDED, rv, rv2});
    case 7: return checkTask(r >= e >= r2, w, o, {Type::DOUBLE_SIDED, rv2, rv});
    case 8: return checkTask((e >= r) <= r2, w, o, {Type::DOUBLE_SIDED, rv, rv2});
    default: return checkTask((e <= r) >= r2, w, o, {Type::DOUBLE_SIDED, rv2, rv});
  }
}
template<typename E>
void rhs(World & w, const E & e, const Oracle & o)
{
  int m = static_cast<int>(o.J.rows());
  VectorXd r = vec("r", m), r2 = vec("r2", m);
  switch(anyInt("rhs", 3))
  {
    case 0: return compare(w, e, o, r, r, r2, r2);
    case 1:
    { // includes 0
      double s = sym_real("rd", -2, 2), s2 = sym_real("rd2", -2, 2);
      return compare(w, e, o, s, VectorXd::Constant(m, s), s2, VectorXd::Constant(m, s2));
    }
    default:
    {
      auto x = 2 * r - r2;
      auto y = -r;
      switch(anyInt("op", 3))
      {
        case 0: return checkTask(x <= e, w, o, {Type::GREATER_THAN, x, x});
        case 1: return checkTask(e == r.head(m), w, o, {Type::EQUAL, r, r});
        default: return checkTask(x <= e <= y, w, o, {Type::DOUBLE_SIDED, x, y});
      }
    }
  }
}
void tasks()
{
  World w;
  MatrixXd A = mat("A", 2, 3), B = mat("B", 2, 2);
  VectorXd b = vec("b", 2);
  Oracle o(2);
  switch(anyInt("operand", 6))
  {
    case 0: rhs(w, A * w.a, o.add(A, a_)); break;
    case 1: rhs(w, A * w.a + B * w.c - b, o.add(A, a_).add(B, c_).cst(-b)); break;
    case 2:
    {
      Oracle q(3);
      rhs(w, w.a, q.add(1, a_));
      break;
    }
    case 3: rhs(w, std::make_shared<BasicLinearFunction>(A, w.a, b), o.add(A, a_).cst(b)); break;
    case 4: rhs(w, LinearFunctionPtr(std::make_shared<function::IdentityFunction>(w.c)), o.add(1, c_)); break;
    default:
    {
      w.nonlinear = true;
      auto f = std::make_shared<MockF>(2, std::vector<VariablePtr>{w.a, w.c}, true);
      w.set(false);
      f->J = {A, B};
      f->v = mul(A, w.x.head(3)) + mul(B, w.x.tail(2));
      rhs(w, f, o.add(A, a_).add(B, c_));
    }
  }
  sym_reach("tasks");
}
} // namespace
void harness()
{
  int part = sym_choose("part", 9);
  if(part == 8) return tasks();
  World w;
  expressions(w, part);
  sym_reach("expressions");
}
