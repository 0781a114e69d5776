// P10: linear functions and constraints evaluate to their definition.
#define VF_GRAPH
#define VF_PROPERTIES
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
using namespace tvm;
using namespace vf;
using tvm::function::BasicLinearFunction;
using tvm::function::IdentityFunction;
using tvm::constraint::BasicLinearConstraint;
using tvm::constraint::RHS;
using tvm::constraint::Type;
using FO = function::abstract::Function::Output;
using LO = function::abstract::LinearFunction::Output;
namespace
{
// Base variables: a has 3 coordinates, c has 2. Terms bear on them or on parts of them.
struct World
{
  VariablePtr a = Space(3).createVariable("a"), c = Space(2).createVariable("c");
  VariablePtr ad = dot(a), cd = dot(c);
  std::vector<VariablePtr> keep;
  VariablePtr var(int k) // 0: a, 1: c, 2: a[0:2), 3: a[2:3), 4: a[1:3), 5: c[1:2)
  {
    VariablePtr v;
    switch(k)
    {
      case 0: v = a; break;
      case 1: v = c; break;
      case 2: v = a->subvariable(Space(2), "a02"); break;
      case 3: v = a->subvariable(Space(1), "a23", Space(2)); break;
      case 4: v = a->subvariable(Space(2), "a13", Space(1)); break;
      default: v = c->subvariable(Space(1), "c12", Space(1));
    }
    keep.push_back(v);
    return v;
  }
  static int start(int k)
  {
    static const int s[] = {0, 3, 0, 2, 1, 4};
    return s[k];
  }
  static int dim(int k)
  {
    static const int s[] = {3, 2, 2, 1, 2, 1};
    return s[k];
  }
  VectorXd x, dx;
  void values(const char * n)
  {
    x = vec(n, 5);
    dx = vec("dx", 5);
    a->set(x.head(3));
    c->set(x.tail(2));
    ad->set(dx.head(3));
    cd->set(dx.tail(2));
  }
};
// Terms with their matrices, and the matrix of the sum over the coordinates
struct Terms
{
  int m;
  std::vector<int> k;
  std::vector<MatrixXd> A;
  std::vector<VariablePtr> v;
  MatrixXd J;
  Terms(World & w, int m_, std::vector<int> ks, const char * n) : m(m_), k(ks)
  {
    for(int i : ks)
    {
      A.push_back(mat(n, m, World::dim(i)));
      v.push_back(w.var(i));
    }
    sum();
  }
  void sum()
  {
    J = MatrixXd::Zero(m, 5);
    for(size_t t = 0; t < k.size(); ++t)
      for(int i = 0; i < m; ++i)
        for(int j = 0; j < World::dim(k[t]); ++j) J(i, World::start(k[t]) + j) = J(i, World::start(k[t]) + j) + A[t](i, j);
  }
  std::vector<MatrixConstRef> refs() const { return std::vector<MatrixConstRef>(A.begin(), A.end()); }
};
// coordinates covered by the variables of a function or constraint
template<typename F>
void checkJacobians(World & w, const F & f, const MatrixXd & J, bool jdot)
{
  for(int k = 0; k < 6; ++k)
  {
    auto v = w.var(k);
    bool in = false;
    for(const auto & y : f.variables()) in = in || y->contains(*v);
    if(!in)
    {
      sym_check(throws([&] { f.jacobian(*v); }), "no jacobian for a variable the function does not depend on");
      continue;
    }
    auto Jv = f.jacobian(*v);
    eqv(Jv, J.middleCols(World::start(k), World::dim(k)), "jacobian with respect to a variable or part of it");
    claims(Jv.properties(), Jv, "properties of a jacobian are true");
    sym_check(f.linearIn(*v), "linear in its variables");
    if constexpr(std::is_base_of_v<function::abstract::Function, F>)
      eqv(f.JDot(*v), MatrixXd::Zero(J.rows(), World::dim(k)), "the jacobian of a linear function has no derivative");
  }
}
void checkFunction(World & w, const std::shared_ptr<BasicLinearFunction> & f, const MatrixXd & J, const VectorXd & b)
{
  run(f, FO::Value, FO::Velocity, FO::NormalAcceleration, FO::Jacobian, FO::JDot, LO::B);
  eqv(f->value(), mul(J, w.x) + b, "value is A x + b");
  eqv(f->velocity(), mul(J, w.dx), "velocity is A dx/dt");
  eqv(f->normalAcceleration(), VectorXd::Zero(J.rows()), "normal acceleration is zero");
  eqv(f->b(), b, "constant term");
  claims(f->b().properties(), f->b(), "properties of the constant term are true");
  sym_check(f->size() == J.rows(), "size");
  checkJacobians(w, *f, J, true);
}
const std::vector<std::vector<int>> sets = {{0}, {1}, {4}, {0, 1}, {2, 3}, {3, 1, 2}, {5, 0}};
const std::vector<std::vector<int>> repeated = {{0, 0}, {1, 0, 1}, {0, 3}, {0, 4, 2}, {4, 4}, {5, 1}, {3, 0}, {2, 4}};

template<typename C>
struct Open : public C // gives access to the protected methods a user class has
{
  using C::C;
  void add(VariablePtr v) { this->addVariable(v, true); }
  void remove(VariablePtr v) { this->removeVariable(v); }
  void sz(int n) { this->resize(n); }
};

void functions()
{
  World w;
  bool rep = sym_choose("repeated", 2);
  const auto & S = rep ? repeated : sets;
  auto ks = S[sym_choose("variables", (int)S.size())];
  int m = 1 + sym_choose("rows", 2);
  Terms t(w, m, ks, "A");
  VectorXd b = VectorXd::Zero(m);
  std::shared_ptr<BasicLinearFunction> f;
  int ctor = sym_choose("ctor", 4);
  bool th = throws([&] {
    switch(ctor)
    {
      case 0:
        if(ks.size() == 1)
          f = std::make_shared<BasicLinearFunction>(t.A[0], t.v[0]);
        else
          f = std::make_shared<BasicLinearFunction>(t.refs(), t.v);
        break;
      case 1:
        b = vec("b", m);
        if(ks.size() == 1)
          f = std::make_shared<BasicLinearFunction>(t.A[0], t.v[0], b);
        else
          f = std::make_shared<BasicLinearFunction>(t.refs(), t.v, b);
        break;
      default: // uninitialized, then set
        if(rep) return;
        if(ks.size() == 1)
          f = std::make_shared<BasicLinearFunction>(m, t.v[0]);
        else
          f = std::make_shared<BasicLinearFunction>(m, t.v);
        b = vec("b", m);
        for(size_t i = 0; i < ks.size(); ++i)
          if(ks.size() == 1 && ctor == 2)
            f->A(t.A[i]);
          else
            f->A(t.A[i], *t.v[i]);
        f->b(b);
    }
  });
  // an overlap that is not an inclusion of a variable in a previous one may be refused
  if(th && rep)
  {
    sym_check(ks == repeated[5] || ks == repeated[6] || ks == repeated[7], "a repeated variable is accepted");
    return;
  }
  sym_check(!th, "a linear function can be built");
  if(!f) return;
  w.values("x");
  checkFunction(w, f, t.J, b);
  sym_reach(rep ? "repeated variables" : "function");
  // coefficients with properties, then new ones without
  if(sym_choose("properties given", 2))
  {
    using tvm::internal::MatrixProperties;
    if(rep) return;
    int i = sym_choose("which", (int)ks.size()), n = World::dim(ks[i]);
    bool one = ks.size() == 1 && sym_choose("single", 2);
    auto set = [&](auto &&... p) {
      if(one)
        f->A(t.A[i], p...);
      else
        f->A(t.A[i], *t.v[i], p...);
    };
    bool keepb = sym_choose("zero b", 2);
    t.A[i] = MatrixXd::Zero(m, n);
    if(m == n && sym_choose("identity", 2))
    {
      for(int r = 0; r < m; ++r) t.A[i](r, r) = 1;
      set(MatrixProperties(MatrixProperties::IDENTITY));
      sym_check(f->jacobian(*t.v[i]).properties().isIdentity(), "the properties given are those of the matrix");
    }
    else
    {
      set(MatrixProperties(MatrixProperties::ZERO));
      sym_check(f->jacobian(*t.v[i]).properties().isZero(), "the properties given are those of the matrix");
    }
    if(keepb)
    {
      b = VectorXd::Zero(m);
      f->b(b, MatrixProperties(MatrixProperties::ZERO));
      sym_check(f->b().properties().isZero(), "the properties given are those of the vector");
    }
    t.sum();
    w.values("z");
    checkFunction(w, f, t.J, b);
    t.A[i] = mat("A3", m, n);
    set();
    t.sum();
    if(keepb && sym_choose("new b", 2))
    {
      b = vec("b3", m);
      f->b(b);
    }
    checkFunction(w, f, t.J, b);
    sym_reach("properties replaced");
    return;
  }
  // new coefficients and values
  if(!rep)
  {
    if(sym_choose("newA", 2))
    {
      int i = sym_choose("which", (int)ks.size());
      t.A[i] = mat("A2", m, World::dim(ks[i]));
      f->A(t.A[i], *t.v[i]);
      t.sum();
    }
    if(sym_choose("newb", 2))
    {
      b = vec("b2", m);
      f->b(b);
    }
  }
  w.values("y");
  checkFunction(w, f, t.J, b);
}
void identity()
{
  World w;
  int k = sym_choose("variable", 6);
  auto f = std::make_shared<IdentityFunction>(w.var(k));
  int n = World::dim(k);
  MatrixXd J = MatrixXd::Zero(n, 5);
  for(int i = 0; i < n; ++i) J(i, World::start(k) + i) = 1;
  for(int r = 0; r < 2; ++r)
  {
    w.values("x");
    run(f, FO::Value, FO::Velocity, FO::NormalAcceleration);
    eqv(f->value(), w.x.segment(World::start(k), n), "the identity function returns its variable");
    checkFunction(w, f, J, VectorXd::Zero(n));
  }
  BasicLinearFunction & g = *f;
  sym_check(throws([&] { g.A(MatrixXd::Identity(n, n)); }), "the matrix of an identity function cannot be changed");
  sym_check(throws([&] { g.A(MatrixXd::Identity(n, n), *f->variables()[0]); }), "the matrix of an identity function cannot be changed");
  sym_check(throws([&] { g.b(VectorXd::Zero(n)); }), "the vector of an identity function cannot be changed");
  sym_reach("identity");
}
void constraints()
{
  World w;
  bool rep = sym_choose("repeated", 2);
  const auto & S = rep ? repeated : sets;
  auto ks = S[sym_choose("variables", (int)S.size())];
  int m = 1 + sym_choose("rows", 2);
  Terms t(w, m, ks, "A");
  static const Type types[] = {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED};
  static const RHS rhss[] = {RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE};
  Type ty = types[sym_choose("type", 4)];
  RHS rh = rhss[sym_choose("rhs", 3)];
  VectorXd b = vec("b", m), l = vec("l", m), u = vec("u", m);
  std::shared_ptr<BasicLinearConstraint> c;
  int ctor = sym_choose("ctor", 2);
  bool single = ks.size() == 1;
  bool bad = ty == Type::DOUBLE_SIDED && rh == RHS::ZERO;
  bool th = throws([&] {
    if(ctor == 1)
    {
      if(rep) return;
      std::vector<VariablePtr> vs = t.v;
      c = single ? std::make_shared<BasicLinearConstraint>(m, t.v[0], ty, rh) : std::make_shared<BasicLinearConstraint>(m, vs, ty, rh);
      for(size_t i = 0; i < ks.size(); ++i)
        if(single)
          c->A(t.A[i]);
        else
          c->A(t.A[i], *t.v[i]);
      if(rh != RHS::ZERO)
      {
        if(ty == Type::DOUBLE_SIDED)
        {
          c->u(u);
          c->l(l);
        }
        else
          c->b(b);
      }
    }
    else if(ty == Type::DOUBLE_SIDED)
      c = single ? std::make_shared<BasicLinearConstraint>(t.A[0], t.v[0], l, u, rh) : std::make_shared<BasicLinearConstraint>(t.refs(), t.v, l, u, rh);
    else if(rh == RHS::ZERO)
      c = single ? std::make_shared<BasicLinearConstraint>(t.A[0], t.v[0], ty) : std::make_shared<BasicLinearConstraint>(t.refs(), t.v, ty);
    else
      c = single ? std::make_shared<BasicLinearConstraint>(t.A[0], t.v[0], b, ty, rh) : std::make_shared<BasicLinearConstraint>(t.refs(), t.v, b, ty, rh);
  });
  if(rep)
  {
    // refusing overlapping variables is fine, misinterpreting them is not
    if(th || !c) return;
    sym_reach("repeated variables in a constraint");
  }
  else
    sym_check(th == bad, "a constraint is refused exactly when double sided with no right-hand side");
  if(!c) return;
  auto check = [&] {
    using CO = constraint::abstract::Constraint::Output;
    sym_check(c->type() == ty && c->rhs() == rh && c->isEquality() == (ty == Type::EQUAL), "type and convention");
    run(c, CO::Value, CO::Jacobian);
    eqv(c->value(), mul(t.J, w.x), "value of a constraint is A x");
    bool nz = rh != RHS::ZERO;
    sym_check(c->isOutputEnabled(CO::E) == (nz && ty == Type::EQUAL), "right-hand side available");
    sym_check(c->isOutputEnabled(CO::L) == (nz && (ty == Type::GREATER_THAN || ty == Type::DOUBLE_SIDED)), "lower bound available");
    sym_check(c->isOutputEnabled(CO::U) == (nz && (ty == Type::LOWER_THAN || ty == Type::DOUBLE_SIDED)), "upper bound available");
    if(nz && ty == Type::EQUAL) eqv(c->e(), b, "right-hand side");
    if(nz && ty == Type::GREATER_THAN) eqv(c->l(), b, "lower bound");
    if(nz && ty == Type::LOWER_THAN) eqv(c->u(), b, "upper bound");
    if(nz && ty == Type::DOUBLE_SIDED)
    {
      eqv(c->l(), l, "lower bound");
      eqv(c->u(), u, "upper bound");
    }
    checkJacobians(w, *c, t.J, false);
  };
  w.values("x");
  check();
  sym_reach("constraint");
  if(!rep && sym_choose("change", 2))
  {
    int i = sym_choose("which", (int)ks.size());
    t.A[i] = mat("A2", m, World::dim(ks[i]));
    c->A(t.A[i], *t.v[i]);
    t.sum();
    b = vec("b2", m);
    l = vec("l2", m);
    sym_check(throws([&] { c->b(b); }) == (rh == RHS::ZERO || ty == Type::DOUBLE_SIDED), "setting b is refused exactly when there is none");
    sym_check(throws([&] { c->l(l); }) == (ty != Type::DOUBLE_SIDED), "setting l is refused exactly when there is none");
    sym_check(throws([&] { c->u(u); }) == (ty != Type::DOUBLE_SIDED), "setting u is refused exactly when there is none");
    w.values("y");
    check();
  }
}
void dimensions()
{
  World w;
  // sizes as integers decided by the solver
  int ra = sym_conc(sym_int("rows", 1, 3)), ca = sym_conc(sym_int("cols", 1, 4));
  int rb = sym_conc(sym_int("brows", 1, 3)), r2 = sym_conc(sym_int("rows2", 1, 3)), c2 = sym_conc(sym_int("cols2", 1, 3));
  MatrixXd A = MatrixXd::Ones(ra, ca), A2 = MatrixXd::Ones(r2, c2);
  VectorXd b = VectorXd::Ones(rb);
  bool ok1 = ca == 3;
  bool ok2 = ok1 && r2 == ra && c2 == 2;
  std::vector<MatrixConstRef> AA{A, A2};
  std::vector<VariablePtr> vv{w.a, w.c};
  switch(sym_choose("what", 6))
  {
    case 0:
      sym_check(throws([&] { BasicLinearFunction(A, w.a, b); }) == !(ok1 && rb == ra), "dimensions that do not match are refused");
      sym_check(throws([&] { BasicLinearConstraint(A, w.a, b, Type::EQUAL); }) == !(ok1 && rb == ra), "dimensions that do not match are refused");
      sym_check(throws([&] { BasicLinearConstraint(A, w.a, VectorXd::Ones(ra), b); }) == !(ok1 && rb == ra), "dimensions that do not match are refused");
      sym_check(throws([&] { BasicLinearConstraint(A, w.a, b, VectorXd::Ones(ra)); }) == !(ok1 && rb == ra), "dimensions that do not match are refused");
      break;
    case 1:
      sym_check(throws([&] { BasicLinearFunction(AA, vv); }) == !ok2, "dimensions that do not match are refused");
      sym_check(throws([&] { BasicLinearConstraint(AA, vv, Type::GREATER_THAN); }) == !ok2, "dimensions that do not match are refused");
      break;
    case 2:
      sym_check(throws([&] { BasicLinearFunction(AA, vv, b); }) == !(ok2 && rb == ra), "dimensions that do not match are refused");
      sym_check(throws([&] { BasicLinearConstraint(AA, vv, b, Type::LOWER_THAN, RHS::OPPOSITE); }) == !(ok2 && rb == ra), "dimensions that do not match are refused");
      break;
    case 3:
    {
      BasicLinearFunction f(2, vv);
      sym_check(throws([&] { f.A(A, *w.a); }) == !(ok1 && ra == 2), "dimensions that do not match are refused");
      sym_check(throws([&] { f.A(A2, *w.c); }) == !(c2 == 2 && r2 == 2), "dimensions that do not match are refused");
      sym_check(throws([&] { f.b(b); }) == (rb != 2), "dimensions that do not match are refused");
      sym_check(throws([&] { f.A(A); }), "setting the matrix without variable needs a single variable");
      break;
    }
    case 4:
    {
      BasicLinearConstraint f(2, w.a, Type::DOUBLE_SIDED);
      sym_check(throws([&] { f.A(A); }) == !(ok1 && ra == 2), "dimensions that do not match are refused");
      sym_check(throws([&] { f.l(b); }) == (rb != 2), "dimensions that do not match are refused");
      sym_check(throws([&] { f.u(b); }) == (rb != 2), "dimensions that do not match are refused");
      BasicLinearConstraint g(2, w.a, Type::EQUAL);
      sym_check(throws([&] { g.b(b); }) == (rb != 2), "dimensions that do not match are refused");
      sym_check(throws([&] { g.A(MatrixXd::Ones(2, 2), *w.c); }), "a variable that is not there is refused");
      break;
    }
    default:
    {
      std::vector<VariablePtr> v1{w.a};
      sym_check(throws([&] { BasicLinearFunction(AA, v1); }), "as many matrices as variables");
      sym_check(throws([&] { BasicLinearFunction(std::vector<MatrixConstRef>{A}, vv, b); }), "as many matrices as variables");
      sym_check(throws([&] { BasicLinearConstraint(AA, v1, Type::EQUAL); }), "as many matrices as variables");
      sym_check(throws([&] { BasicLinearConstraint(AA, v1, b, Type::EQUAL); }), "as many matrices as variables");
      sym_check(throws([&] { BasicLinearConstraint(AA, v1, b, b); }), "as many matrices as variables");
      VariablePtr q = Space(Space::Type::SO3).createVariable("q");
      sym_check(throws([&] { BasicLinearFunction(MatrixXd::Ones(1, 4), q); }), "a linear function needs Euclidean variables");
      sym_check(throws([&] { BasicLinearConstraint(MatrixXd::Ones(1, 4), q, Type::EQUAL); }), "a linear constraint needs Euclidean variables");
    }
  }
  sym_reach("dimensions");
}
void histories()
{
  // functions defined by the user: variables come and go
  World w;
  auto f = std::make_shared<Open<BasicLinearFunction>>(2, std::vector<VariablePtr>{});
  VectorXd b = vec("b", 2);
  f->b(b);
  MatrixXd A[2];
  bool in[2] = {false, false};
  VariablePtr added[2];
  VariablePtr v[2] = {w.a, w.c};
  bool part = sym_choose("part", 2); // c[1:2) instead of c, through a new object each time
  const int k1 = part ? 5 : 1;
  for(int k = 0; k < 4; ++k)
  {
    int i = sym_choose("variable", 2);
    if(i && part) v[1] = w.var(5);
    if(sym_choose("add", 2))
    {
      f->add(v[i]);
      if(!in[i])
      {
        A[i] = mat("A", 2, World::dim(i ? k1 : 0));
        f->A(A[i], *v[i]);
        added[i] = v[i];
      }
      in[i] = true;
    }
    else
    {
      bool t = throws([&] { f->remove(v[i]); });
      sym_check(t == !in[i], "removing a variable that is not there is refused");
      in[i] = false;
    }
  }
  MatrixXd J = MatrixXd::Zero(2, 5);
  for(int i = 0; i < 2; ++i)
    if(in[i]) J.middleCols(World::start(i ? k1 : 0), World::dim(i ? k1 : 0)) = A[i];
  sym_check(f->variables().numberOfVariables() == in[0] + in[1], "variables are those added and not removed");
  for(int i = 0; i < 2; ++i) sym_check(f->variables().contains(*v[i]) == in[i], "variables are those added and not removed");
  w.values("x");
  // JDot is not set by adding a variable: the class does it
  f->sz(2);
  f->b(b);
  for(int i = 0; i < 2; ++i)
    if(in[i]) f->A(A[i], *added[i]);
  checkFunction(w, f, J, b);
  sym_reach("histories");
}
void nonEuclidean()
{
  // tangent and representation sizes differ: parts of jacobians use tangent sizes
  struct F : public function::abstract::Function
  {
    F(VariablePtr v, const MatrixXd & A, const MatrixXd & D) : Function(2)
    {
      addVariable(v, false);
      jacobian_[v.get()] = A;
      JDot_[v.get()] = D;
    }
  };
  Space S = Space(1) * Space(Space::Type::SO3) * Space(2);
  VariablePtr v = S.createVariable("v");
  sym_check(v->size() == 7 && v->space().tSize() == 6, "sizes");
  MatrixXd A = mat("A", 2, 6), D = mat("D", 2, 6);
  F f(v, A, D);
  struct
  {
    Space s, shift;
    int t0, tn;
  } parts[] = {{Space(1), Space(0), 0, 1},
               {Space(Space::Type::SO3), Space(1), 1, 3},
               {Space(2), Space(1) * Space(Space::Type::SO3), 4, 2},
               {Space(Space::Type::SO3) * Space(2), Space(1), 1, 5}};
  auto & p = parts[sym_choose("part", 4)];
  auto y = v->subvariable(p.s, "y", p.shift);
  eqv(f.jacobian(*y), A.middleCols(p.t0, p.tn), "jacobian with respect to a part of a non-Euclidean variable");
  eqv(f.JDot(*y), D.middleCols(p.t0, p.tn), "derivative of the jacobian with respect to a part of a non-Euclidean variable");
  eqv(f.jacobian(*v), A, "jacobian");
  eqv(f.JDot(*v), D, "derivative of the jacobian");
  sym_check(!f.linearIn(*y), "linearity");
  sym_reach("non Euclidean");
}
// values in a space whose tangent space has another size, the size being changed afterwards or not
void image()
{
  struct F : public function::abstract::Function
  {
    F(Space s, VariablePtr v) : Function(s) { addVariable(v, false); }
    F(int m, VariablePtr v) : Function(m) { addVariable(v, false); }
    void redim(int m) { resize(m); }
    void more(VariablePtr v) { addVariable(v, true); }
  };
  int n = sym_conc(sym_int("n", 0, 3));
  bool so3 = sym_choose("SO3", 2);
  Space S = so3 ? Space(n) * Space(Space::Type::SO3) : Space(n);
  VariablePtr v = (Space(1) * Space(Space::Type::SO3)).createVariable("v"), w = Space(2).createVariable("w");
  auto f = so3 || sym_choose("by space", 2) ? std::make_shared<F>(S, v) : std::make_shared<F>(n, v);
  int r = n + (so3 ? 4 : 0), t = n + (so3 ? 3 : 0);
  if(!so3 && sym_choose("resized", 2)) f->redim(r = t = n = sym_conc(sym_int("m", 0, 3)));
  if(sym_choose("more", 2)) f->more(w);
  sym_check(f->size() == t && f->rSize() == r && f->tSize() == t, "sizes of a function");
  sym_check(f->imageSpace().rSize() == r && f->imageSpace().tSize() == t && f->imageSpace().isEuclidean() == !so3, "image space");
  sym_check(f->value().size() == r && f->velocity().size() == t && f->normalAcceleration().size() == t, "sizes of the outputs");
  for(auto & x : f->variables())
  {
    sym_check(f->jacobian(*x).rows() == t && f->jacobian(*x).cols() == x->space().tSize(), "size of a jacobian");
    sym_check(f->JDot(*x).rows() == t && f->JDot(*x).cols() == x->space().tSize(), "size of the derivative of a jacobian");
    sym_check(f->linearIn(*x) == (x == w), "linearity");
  }
  sym_reach("image");
}
} // namespace
void harness()
{
  switch(sym_choose("mode", 7))
  {
    case 0: functions(); break;
    case 1: identity(); break;
    case 2: constraints(); break;
    case 3: dimensions(); break;
    case 4: histories(); break;
    case 5: image(); break;
    default: nonEuclidean();
  }
}
