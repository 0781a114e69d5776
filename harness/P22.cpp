// P22: substituting variables keeps the constraints that define them. Values that are not pivots are symbolic; the matrices
// that are factorized by a QR decomposition come from a menu, the others (single row, diagonal) are symbolic.
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>
#include <tvm/hint/internal/Substitutions.h>
#include <algorithm>
#include <map>
using namespace tvm;
using namespace vf;
using namespace tvm::hint;
using hint::internal::DiagonalCalculator;
using hint::internal::GenericCalculator;
using hint::internal::Substitutions;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using constraint::Type;
using P = tvm::internal::MatrixProperties;
namespace
{
void near(double a, double b, const char * msg)
{
  sym_check_le(a - b, 1e-7, msg);
  sym_check_le(b - a, 1e-7, msg);
}
const RHS rhss[] = {RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE};
// sum A_i x_i = c
struct Cst
{
  int m;
  std::vector<VariablePtr> x;
  std::vector<MatrixXd> A;
  std::vector<bool> fixed;
  VectorXd c;
  RHS r;
  std::shared_ptr<BasicLinearConstraint> p;
  Cst(int m_, const std::vector<VariablePtr> & x_, RHS r_) : m(m_), x(x_), A(x_.size()), fixed(x_.size(), false), r(r_)
  {
    p = std::make_shared<BasicLinearConstraint>(m, x, Type::EQUAL, r);
  }
  // fixes the matrix of a variable
  Cst & with(const VariablePtr & v, const MatrixXd & M, const P & prop = P())
  {
    for(size_t i = 0; i < x.size(); ++i)
      if(x[i] == v)
      {
        A[i] = M;
        fixed[i] = true;
        p->A(M, *v, prop);
      }
    return *this;
  }
  Cst & values(double s = -1) // s < 0: symbolic, otherwise some concrete values
  {
    double k = s;
    for(size_t i = 0; i < x.size(); ++i)
      if(!fixed[i])
      {
        if(s < 0)
          A[i] = mat("B", m, x[i]->size());
        else
        {
          A[i] = MatrixXd(m, x[i]->size());
          for(int a = 0; a < m; ++a)
            for(int b = 0; b < x[i]->size(); ++b) A[i](a, b) = (k += 1.25) * (int(k) % 2 ? 1 : -1);
        }
        p->A(A[i], *x[i]);
      }
    c = VectorXd::Zero(m);
    if(r == RHS::ZERO) return *this;
    if(s < 0)
      c = vec("c", m);
    else
      for(int a = 0; a < m; ++a) c[a] = (k += 0.75) * (int(k) % 2 ? 1 : -1);
    p->b(r == RHS::OPPOSITE ? VectorXd(-c) : c);
    return *this;
  }
};
struct Affine
{
  std::map<const Variable *, VectorXd> c;
  double d = 0;
  void add(double f, const Variable * v, const VectorXd & r)
  {
    auto it = c.find(v);
    if(it == c.end())
      c[v] = VectorXd(f * r);
    else
      for(int i = 0; i < r.size(); ++i) it->second[i] += f * r[i];
  }
};
// component i of v, once substituted
void expand(const Substitutions & S, Affine & e, double f, const VariablePtr & v, int i)
{
  const auto & xs = S.variables();
  Range rv = v->subvariableRange();
  for(size_t k = 0; k < xs.size(); ++k)
  {
    if(!xs[k]->intersects(*v)) continue;
    int j = i + rv.start - xs[k]->subvariableRange().start;
    if(j < 0 || j >= xs[k]->size()) continue;
    const auto & g = *S.variableSubstitutions()[k];
    for(const auto & y : g.variables())
    {
      VectorXd r(y->size());
      MatrixConstRef J = g.jacobian(*y);
      for(int q = 0; q < y->size(); ++q) r[q] = J(j, q);
      e.add(f, y.get(), r);
    }
    e.d += f * g.b()[j];
    return;
  }
  // not substituted: variables are compared by supervariable
  VectorXd r = VectorXd::Zero(v->superVariable()->size());
  r[i + rv.start] = 1;
  e.add(f, v->superVariable().get(), r);
}
// variables of e are replaced by their supervariable
Affine onSuper(const Affine & e)
{
  Affine o;
  o.d = e.d;
  for(auto & t : e.c)
  {
    Range g = t.first->subvariableRange();
    VectorXd r = VectorXd::Zero(t.first->superVariable()->size());
    for(int i = 0; i < t.second.size(); ++i) r[g.start + i] = t.second[i];
    o.add(1, t.first->superVariable().get(), r);
  }
  return o;
}
Affine residual(const Substitutions & S, const Cst & c, int row)
{
  Affine e;
  for(size_t i = 0; i < c.x.size(); ++i)
    for(int q = 0; q < c.x[i]->size(); ++q) expand(S, e, c.A[i](row, q), c.x[i], q);
  e.d -= c.c[row];
  return onSuper(e);
}
void satisfied(const Substitutions & S, const Cst & c)
{
  for(int k = 0; k < c.m; ++k)
  {
    Affine e = residual(S, c, k);
    for(auto & t : e.c)
      for(int i = 0; i < t.second.size(); ++i) near(t.second[i], 0, "the constraint is satisfied for every value of the remaining variables");
    near(e.d, 0, "the constraint is satisfied for every value of the remaining variables");
  }
}
// no substituted variable is used in the substitutions, and each is substituted once
void wellFormed(const Substitutions & S, const std::vector<VariablePtr> & subst, int freeDim, int left)
{
  const auto & xs = S.variables();
  sym_check(xs.size() == S.variableSubstitutions().size(), "one substitution per variable");
  int n = 0, ns = 0;
  for(auto & x : subst) n += x->size();
  for(size_t i = 0; i < xs.size(); ++i)
  {
    ns += xs[i]->size();
    for(size_t j = 0; j < i; ++j) sym_check(!xs[i]->intersects(*xs[j]), "a variable is substituted once");
    sym_check(S.variableSubstitutions()[i]->size() == xs[i]->size(), "size of a substitution");
    for(auto & y : S.variableSubstitutions()[i]->variables())
    {
      for(auto & x : subst) sym_check(!y->intersects(*x), "substitutions use only the remaining variables");
      bool other = false;
      for(auto & o : S.otherVariables()) other = other || o->contains(*y);
      for(auto & o : S.additionalVariables()) other = other || o->contains(*y);
      sym_check(other, "substitutions use only the remaining variables");
    }
  }
  for(size_t i = 0; i < xs.size(); ++i)
  {
    bool in = false;
    for(auto & x : subst) in = in || x->contains(*xs[i]);
    sym_check(in, "only the given variables are substituted");
  }
  sym_check(n == ns, "all the given variables are substituted");
  int z = 0, l = 0;
  for(auto & v : S.additionalVariables()) z += v->size();
  for(auto & c : S.additionalConstraints()) l += c->size();
  sym_check(z == freeDim, "as many new variables as free dimensions");
  sym_check(l == left, "as many constraints left as redundant rows");
}
// the parametrization by the new variables is injective: some rows of the expressions are those of the identity, or
// at least independent. Here: for each new variable, at most 2 components, determinant of some rows is not zero
void injective(const Substitutions & S)
{
  for(auto & z : S.additionalVariables())
  {
    std::vector<VectorXd> rows;
    for(size_t i = 0; i < S.variables().size(); ++i)
    {
      const auto & g = *S.variableSubstitutions()[i];
      if(!g.variables().contains(*z)) continue;
      MatrixConstRef J = g.jacobian(*z);
      for(int k = 0; k < J.rows(); ++k)
      {
        VectorXd r(J.cols());
        for(int q = 0; q < J.cols(); ++q) r[q] = J(k, q);
        rows.push_back(r);
      }
    }
    if(z->size() == 1)
    {
      double s = 0;
      for(auto & r : rows) s += r[0] * r[0];
      sym_check_le(1e-6, s, "every solution is reached by one value of the new variables");
    }
    else if(z->size() == 2)
    {
      double s = 0;
      for(size_t a = 0; a < rows.size(); ++a)
        for(size_t b = 0; b < a; ++b)
        {
          double d = rows[a][0] * rows[b][1] - rows[a][1] * rows[b][0];
          s += d * d;
        }
      sym_check_le(1e-6, s, "every solution is reached by one value of the new variables");
    }
  }
}
void values(Substitutions & S, const std::vector<VariablePtr> & ys)
{
  for(auto & y : ys) y->set(vec("y", y->size(), -2, 2));
  for(auto & z : S.additionalVariables()) z->set(vec("z", z->size(), -2, 2));
  S.updateVariableValues();
  for(size_t i = 0; i < S.variables().size(); ++i)
    for(int k = 0; k < S.variables()[i]->size(); ++k)
    {
      const auto & g = *S.variableSubstitutions()[i];
      double s = g.b()[k];
      for(auto & y : g.variables())
      {
        MatrixConstRef J = g.jacobian(*y);
        for(int q = 0; q < y->size(); ++q) s += J(k, q) * y->value()[q];
      }
      sym_check_eq(S.variables()[i]->value()[k], s, "the variables are given the values of their substitutions");
    }
}
void go(Substitutions & S)
{
  S.finalize();
  S.updateSubstitutions();
}
MatrixXd M22(double a, double b, double c, double d)
{
  MatrixXd M(2, 2);
  M << a, b, c, d;
  return M;
}
double nz(const char * n)
{
  double a = sym_real(n, 0.125, 8);
  return sym_choose("sign", 2) ? -a : a;
}
// a single substitution, full rank
void single()
{
  VariablePtr y = Space(2).createVariable("y"), w = Space(1).createVariable("w");
  RHS r = rhss[sym_choose("rhs", 3)];
  Substitutions S;
  std::vector<Cst> cs;
  std::vector<VariablePtr> xs, ys{y, w};
  int dim = 0;
  switch(sym_choose("matrix", 9))
  {
    case 0:
    case 1: // square
    {
      static const double men[][4] = {{2, 1, 1, 3}, {0, 2, -1, 0}, {1, -1, 1, 1}, {-1, 0, 0, -1}};
      VariablePtr x = Space(2).createVariable("x");
      const double * q = men[sym_choose("menu", 4)];
      cs.emplace_back(2, std::vector<VariablePtr>{y, x, w}, r);
      cs[0].with(x, M22(q[0], q[1], q[2], q[3])).values();
      S.add(sym_choose("calculator", 2) ? Substitution(cs[0].p, x, 2, GenericCalculator()) : Substitution(cs[0].p, x));
      xs = {x};
      break;
    }
    case 2: // more unknowns than rows
    {
      VariablePtr x = Space(3).createVariable("x");
      MatrixXd A(2, 3);
      if(sym_choose("menu", 2))
        A << 1, 2, 0, 0, 1, 3;
      else
        A << 0, 0, 1, 2, 0, 1;
      cs.emplace_back(2, std::vector<VariablePtr>{x, y}, r);
      cs[0].with(x, A).values();
      S.add(Substitution(cs[0].p, x));
      xs = {x};
      dim = 1;
      ys = {y};
      break;
    }
    case 3: // a single row, symbolic
    {
      VariablePtr x = Space(2).createVariable("x");
      MatrixXd A(1, 2);
      A << nz("a"), nz("a");
      cs.emplace_back(1, std::vector<VariablePtr>{x, y}, r);
      cs[0].with(x, A).values();
      S.add(Substitution(cs[0].p, x));
      xs = {x};
      dim = 1;
      ys = {y};
      break;
    }
    case 4: // one scalar, symbolic
    {
      VariablePtr x = Space(1).createVariable("x");
      cs.emplace_back(1, std::vector<VariablePtr>{w, x, y}, r);
      cs[0].with(x, MatrixXd::Constant(1, 1, nz("a"))).values();
      S.add(Substitution(cs[0].p, x));
      xs = {x};
      break;
    }
    case 5: // diagonal, symbolic
    {
      VariablePtr x = Space(2).createVariable("x");
      MatrixXd A = MatrixXd::Zero(2, 2);
      A(0, 0) = nz("a");
      A(1, 1) = nz("a");
      cs.emplace_back(2, std::vector<VariablePtr>{w, x, y}, r);
      cs[0].with(x, A, P(P::DIAGONAL, P::Invertibility(true))).values();
      S.add(sym_choose("calculator", 2) ? Substitution(cs[0].p, x, 2, DiagonalCalculator()) : Substitution(cs[0].p, x));
      xs = {x};
      break;
    }
    case 6: // two constraints, one variable
    {
      VariablePtr x = Space(2).createVariable("x");
      MatrixXd a(1, 2), b(1, 2);
      a << 1, 2;
      b << 3, 1;
      cs.emplace_back(1, std::vector<VariablePtr>{x, y}, r);
      cs.emplace_back(1, std::vector<VariablePtr>{w, x}, rhss[sym_choose("rhs", 2)]);
      cs[0].with(x, a).values();
      cs[1].with(x, b).values();
      S.add(Substitution(std::vector<LinearConstraintPtr>{cs[0].p, cs[1].p}, x));
      xs = {x};
      break;
    }
    case 7: // one constraint, two variables
    {
      VariablePtr x = Space(1).createVariable("x"), v = Space(1).createVariable("v");
      MatrixXd a(2, 1), b(2, 1);
      a << 1, 2;
      b << -1, 3;
      cs.emplace_back(2, std::vector<VariablePtr>{v, y, x}, r);
      cs[0].with(x, a).with(v, b).values();
      xs = {x, v};
      S.add(Substitution(cs[0].p, xs));
      ys = {y};
      break;
    }
    default: // a part of a variable, the other part remaining in the constraint
    {
      VariablePtr x = Space(3).createVariable("x");
      VariablePtr x0 = x->subvariable(2, "x0", 0), x2 = x->subvariable(1, "x2", 2);
      cs.emplace_back(2, std::vector<VariablePtr>{x, y}, r);
      MatrixXd A(2, 3);
      A << 1, 1, sym_real("b", -10, 10), 1, -1, sym_real("b", -10, 10);
      cs[0].with(x, A).values();
      S.add(Substitution(cs[0].p, x0));
      xs = {x0};
      ys = {y, x2};
    }
  }
  go(S);
  int k = 0;
  do
  {
    wellFormed(S, xs, dim, 0);
    for(auto & c : cs) satisfied(S, c);
    injective(S);
    if(k) break;
    for(auto & c : cs) c.values();
    S.updateSubstitutions();
  } while(++k < 2);
  for(auto & c : cs) sym_check(S.uses(c.p), "the constraints are used");
  for(auto & x : xs)
  {
    VariableVector s = S.substitute(x);
    const auto & g = S.variableSubstitutions()[0];
    sym_check(s.numberOfVariables() == g->variables().numberOfVariables(), "a variable is replaced by those of its substitution");
    for(auto & v : g->variables()) sym_check(s.contains(*v), "a variable is replaced by those of its substitution");
  }
  for(auto & v : ys) sym_check(S.substitute(v).numberOfVariables() == 1 && S.substitute(v)[0] == v, "other variables are not replaced");
  values(S, ys);
  sym_reach("single");
}
// redundant rows are left as constraints on the remaining variables
void deficient()
{
  VariablePtr x, y = Space(2).createVariable("y");
  Substitutions S;
  MatrixXd A;
  VectorXd n; // left kernel of A
  int kind = sym_choose("kind", 4), dim = 1;
  std::vector<Eigen::Index> nnz, zeros;
  if(kind == 0)
  {
    x = Space(2).createVariable("x");
    A = M22(1, 2, 2, 4);
    n = VectorXd(2);
    n << 2, -1;
  }
  else if(kind == 1) // diagonal with a zero
  {
    x = Space(3).createVariable("x");
    A = MatrixXd::Zero(3, 3);
    A(0, 0) = nz("a");
    A(2, 2) = nz("a");
    n = VectorXd::Zero(3);
    n[1] = 1;
    nnz = {0, 2};
    if(sym_choose("order", 2)) nnz = {2, 0};
    zeros = {1};
  }
  else if(kind == 2) // rows: 1 (zero), 2 ; column 0 does not appear
  {
    x = Space(3).createVariable("x");
    A = MatrixXd::Zero(2, 3);
    A(1, 2) = nz("a");
    n = VectorXd::Zero(2);
    n[0] = 1;
    nnz = {2};
    zeros = {1};
    dim = 2;
  }
  else // rows: 0, 2 (zero) ; column 1 does not appear
  {
    x = Space(3).createVariable("x");
    A = MatrixXd::Zero(2, 3);
    A(0, 0) = nz("a");
    n = VectorXd::Zero(2);
    n[1] = 1;
    nnz = {0};
    zeros = {2};
    dim = 2;
  }
  Cst c(A.rows(), {x, y}, rhss[sym_choose("rhs", 3)]);
  c.with(x, A).values(1);
  int rank = A.rows() - 1;
  S.add(kind ? Substitution(c.p, x, rank, DiagonalCalculator(nnz, zeros)) : Substitution(c.p, x, rank));
  go(S);
  wellFormed(S, {x}, dim, 1);
  if(S.additionalConstraints().size() != 1) return;
  const auto & a = *S.additionalConstraints()[0];
  sym_check(a.type() == Type::EQUAL && a.variables().numberOfVariables() == 1 && a.variables().contains(*y), "what is left constrains the remaining variables");
  auto left = [&](VectorXd & R, double & rc) {
    MatrixConstRef J = a.jacobian(*y);
    R = VectorXd(2);
    for(int i = 0; i < 2; ++i) R[i] = J(0, i);
    rc = a.rhs() == RHS::ZERO ? 0 : a.rhs() == RHS::OPPOSITE ? -a.e()[0] : a.e()[0];
  };
  // factors, from concrete values: left = h * n^T (B y - c), residual = g * left
  VectorXd R;
  double rc;
  left(R, rc);
  double nb = 0;
  for(int k = 0; k < A.rows(); ++k) nb += n[k] * c.A[1](k, 0);
  double h = R[0] / nb;
  sym_check(h > 1e-6 || h < -1e-6, "the remaining constraint is not void");
  VectorXd g(A.rows());
  for(int k = 0; k < A.rows(); ++k) g[k] = residual(S, c, k).c[y.get()][0] / R[0];
  c.values();
  S.updateSubstitutions();
  left(R, rc);
  for(int j = 0; j < 2; ++j)
  {
    double s = 0;
    for(int k = 0; k < A.rows(); ++k) s += n[k] * c.A[1](k, j);
    near(R[j], h * s, "what is left is implied by the constraint");
  }
  double s = 0;
  for(int k = 0; k < A.rows(); ++k) s += n[k] * c.c[k];
  near(rc, h * s, "what is left is implied by the constraint");
  for(int k = 0; k < A.rows(); ++k)
  {
    Affine e = residual(S, c, k);
    for(auto & t : e.c)
      for(int j = 0; j < t.second.size(); ++j) near(t.second[j], t.first == y.get() ? g[k] * R[j] : 0, "with what is left, the constraint is satisfied");
    near(e.d, -g[k] * rc, "with what is left, the constraint is satisfied");
  }
  injective(S);
  sym_reach("deficient");
}
// several substitutions that depend on each other, or not, given in any order
void chain()
{
  VariablePtr y = Space(1).createVariable("y"), w = Space(1).createVariable("w");
  std::vector<VariablePtr> x{Space(1).createVariable("x0"), Space(2).createVariable("x1"), Space(1).createVariable("x2")};
  static const int orders[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
  const int * o = orders[sym_choose("order", 3)];
  bool d10 = sym_choose("1 uses 0", 2), d20 = sym_choose("2 uses 0", 2), d21 = sym_choose("2 uses 1", 2);
  std::vector<RHS> r;
  for(int i = 0; i < 3; ++i) r.push_back(rhss[sym_choose("rhs", 2)]);
  bool wide = sym_choose("wide", 2); // the second one has a free dimension
  auto vars = [&](int k, bool d0, bool d1) {
    std::vector<VariablePtr> v{x[k]};
    if(d0) v.push_back(x[0]);
    if(d1) v.push_back(x[1]);
    v.push_back(k == 1 ? w : y);
    return v;
  };
  std::vector<Cst> cs;
  cs.emplace_back(1, vars(0, false, false), r[0]);
  cs.emplace_back(wide ? 1 : 2, vars(1, d10, false), r[1]);
  cs.emplace_back(1, vars(2, d20, d21), r[2]);
  cs[0].with(x[0], MatrixXd::Constant(1, 1, 2));
  if(wide)
  {
    MatrixXd A(1, 2);
    A << 1, 4;
    cs[1].with(x[1], A);
  }
  else
    cs[1].with(x[1], M22(-1, 0, 0, -1), P(P::MINUS_IDENTITY));
  cs[2].with(x[2], MatrixXd::Constant(1, 1, -1));
  for(auto & c : cs) c.values();
  Substitutions S;
  for(int i = 0; i < 3; ++i) S.add(Substitution(cs[o[i]].p, x[o[i]]));
  go(S);
  for(int k = 0; k < 2; ++k)
  {
    wellFormed(S, x, wide ? 1 : 0, 0);
    for(auto & c : cs) satisfied(S, c);
    // a vector declared as zero is zero
    for(auto & f : S.variableSubstitutions())
      if(f->b().properties().isZero())
        for(int i = 0; i < f->size(); ++i) sym_check_eq(f->b()[i], 0, "a constant part said to be zero is zero");
    injective(S);
    for(auto & c : cs) c.values();
    S.updateSubstitutions();
  }
  sym_reach("chain");
}
// substitutions of several variables used by others, zero right-hand sides
void several()
{
  VariablePtr y = Space(1).createVariable("y");
  std::vector<VariablePtr> x;
  for(int i = 0; i < 5; ++i) x.push_back(Space(1).createVariable("x"));
  int src = sym_choose("which is used", 2);
  std::vector<RHS> r;
  for(int i = 0; i < 4; ++i) r.push_back(sym_choose("given", 2) ? RHS::AS_GIVEN : RHS::ZERO);
  int kind = sym_choose("two constraints", 3);
  bool two = kind == 1, wide = kind == 2; // or with a free dimension
  auto one = [](double q) { return MatrixXd::Constant(1, 1, q); };
  MatrixXd a(2, 1), b(2, 1);
  a << 1, 2;
  b << -1, 3;
  std::vector<Cst> cs;
  using V = std::vector<VariablePtr>;
  if(two)
  {
    cs.emplace_back(1, V{x[0], x[1], y}, r[0]);
    cs.emplace_back(1, V{x[0], x[1], y}, r[0]);
    cs[0].with(x[0], one(1)).with(x[1], one(-1));
    cs[1].with(x[0], one(2)).with(x[1], one(3));
  }
  else if(wide)
  {
    cs.emplace_back(1, V{x[0], x[1], y}, r[0]);
    cs[0].with(x[0], one(3)).with(x[1], one(4));
  }
  else
  {
    cs.emplace_back(2, V{x[0], x[1], y}, r[0]);
    cs[0].with(x[0], a).with(x[1], b);
  }
  cs.emplace_back(1, V{x[2], y}, r[1]);
  cs.back().with(x[2], one(1));
  cs.emplace_back(1, V{x[3], x[src]}, r[2]);
  cs.back().with(x[3], one(2));
  cs.emplace_back(1, sym_choose("more uses", 2) ? V{x[2], x[3], x[4], x[1 - src]} : V{x[2], x[3], x[4]}, r[3]);
  cs.back().with(x[4], one(-1));
  for(auto & c : cs) c.values();
  std::vector<Substitution> subs;
  V x01{x[0], x[1]};
  if(two)
    subs.emplace_back(std::vector<LinearConstraintPtr>{cs[0].p, cs[1].p}, x01);
  else
    subs.emplace_back(cs[0].p, x01);
  for(int i = 0; i < 3; ++i) subs.emplace_back(cs[(two ? 2 : 1) + i].p, x[2 + i]);
  Substitutions S;
  std::vector<int> o{0, 1, 2, 3};
  for(int i = 0; i < 4; ++i)
  {
    int k = i < 3 && sym_tier() ? sym_choose("next", 4 - i) : i == 0 ? sym_choose("first", 2) : 0;
    S.add(subs[o[k]]);
    o.erase(o.begin() + k);
  }
  go(S);
  for(int k = 0; k < 2; ++k)
  {
    wellFormed(S, x, wide ? 1 : 0, 0);
    for(auto & c : cs) satisfied(S, c);
    for(auto & f : S.variableSubstitutions())
      if(f->b().properties().isZero())
        for(int i = 0; i < f->size(); ++i) sym_check_eq(f->b()[i], 0, "a constant part said to be zero is zero");
    injective(S);
    for(auto & c : cs) c.values();
    S.updateSubstitutions();
  }
  sym_reach("several");
}
// mutual dependencies
void cycle()
{
  VariablePtr y = Space(1).createVariable("y");
  VariablePtr a = Space(1).createVariable("a"), b = Space(1).createVariable("b"), v = Space(1).createVariable("v");
  auto one = [](double q) { return MatrixXd::Constant(1, 1, q); };
  static const double men[][4] = {{2, 1, 1, 3}, {1, -1, 2, 1}, {1, 5, -5, 1}};
  const double * q = men[sym_choose("menu", 3)];
  std::vector<Cst> cs;
  cs.emplace_back(1, std::vector<VariablePtr>{a, b, y}, rhss[sym_choose("rhs", 2)]);
  cs.emplace_back(1, std::vector<VariablePtr>{a, y, b}, rhss[sym_choose("rhs", 2)]);
  cs[0].with(a, one(q[0])).with(b, one(q[1])).values();
  cs[1].with(a, one(q[2])).with(b, one(q[3])).values();
  Substitutions S;
  std::vector<VariablePtr> xs{a, b};
  // a third one uses the two others
  bool third = sym_choose("third", 2);
  if(third)
  {
    cs.emplace_back(1, std::vector<VariablePtr>{v, a, b}, rhss[sym_choose("rhs", 2)]);
    cs[2].with(v, one(-1)).values();
    xs.push_back(v);
  }
  if(third && sym_choose("first", 2)) S.add(Substitution(cs[2].p, v));
  S.add(Substitution(cs[0].p, a));
  S.add(Substitution(cs[1].p, b));
  if(third && S.substitutions().size() == 2) S.add(Substitution(cs[2].p, v));
  go(S);
  for(int k = 0; k < 2; ++k)
  {
    wellFormed(S, xs, 0, 0);
    for(auto & c : cs) satisfied(S, c);
    for(auto & c : cs) c.values();
    S.updateSubstitutions();
  }
  sym_reach("cycle");
}
// additions and removals
void history()
{
  VariablePtr y = Space(1).createVariable("y");
  std::vector<VariablePtr> x;
  std::vector<Cst> cs;
  std::vector<Substitution> subs;
  for(int i = 0; i < 3; ++i) x.push_back(Space(2).createVariable("x"));
  for(int i = 0; i < 3; ++i)
  {
    std::vector<VariablePtr> v{x[i], y};
    if(i == 2) v.push_back(x[0]);
    cs.emplace_back(i == 1 ? 1 : 2, v, RHS::AS_GIVEN);
    MatrixXd A(1, 2);
    A << 1, 2;
    if(i == 1)
      cs[i].with(x[i], A);
    else
      cs[i].with(x[i], M22(-1, 0, 0, -1), P(P::MINUS_IDENTITY));
    cs[i].values();
    subs.emplace_back(cs[i].p, x[i]);
  }
  std::vector<bool> in(3, false);
  Substitutions S;
  int n = sym_tier() ? 5 : 4;
  for(int k = 0; k < n; ++k)
  {
    int q = sym_choose("operation", 4); // one of the substitutions is added or removed, or nothing
    if(q < 3)
    {
      if(in[q])
      {
        if(sym_choose("how", 2))
          S.remove(subs[q]);
        else
          S.remove(*S.getSubstitutionFor(*cs[q].p));
      }
      else
        S.add(subs[q]);
      in[q] = !in[q];
    }
    if(q == 3 || k == n - 1)
    {
      go(S);
      std::vector<VariablePtr> xs;
      for(int i = 0; i < 3; ++i)
      {
        if(in[i]) xs.push_back(x[i]);
        sym_check(S.uses(cs[i].p) == in[i], "the constraints used are those of the present substitutions");
        sym_check((S.getSubstitutionFor(*cs[i].p) != nullptr) == in[i], "the constraints used are those of the present substitutions");
      }
      wellFormed(S, xs, in[1] ? 1 : 0, 0);
      for(int i = 0; i < 3; ++i)
        if(in[i]) satisfied(S, cs[i]);
    }
  }
  sym_reach("history");
}
void refused()
{
  using Ix = std::vector<Eigen::DenseIndex>;
  VariablePtr x = Space(2).createVariable("x"), y = Space(2).createVariable("y"), w = Space(1).createVariable("w");
  VariablePtr x0 = x->subvariable(1, "x0", 0);
  MatrixXd I = MatrixXd::Identity(2, 2);
  auto bl = [&](Type t) {
    std::vector<VariablePtr> v{x, y};
    auto c = std::make_shared<BasicLinearConstraint>(2, v, t, RHS::ZERO);
    c->A(I, *x);
    c->A(I, *y);
    return c;
  };
  auto c = bl(Type::EQUAL);
  switch(sym_choose("which", 8))
  {
    case 0:
      for(Type t : {Type::GREATER_THAN, Type::LOWER_THAN})
      {
        auto d = bl(t);
        sym_check(throws([&] { Substitution(d, x); }), "an inequality is refused");
      }
      break;
    case 1: sym_check(throws([&] { Substitution(c, w); }), "a variable out of the constraint is refused"); break;
    case 2: sym_check(throws([&] { Substitution(c, x0); }), "more equations than unknowns is refused"); break;
    case 3:
    {
      std::vector<VariablePtr> v{x, x0};
      sym_check(throws([&] { Substitution(c, v); }), "overlapping variables are refused");
      break;
    }
    case 4:
    {
      std::vector<VariablePtr> v{w, y};
      auto d = std::make_shared<BasicLinearConstraint>(1, v, Type::EQUAL, RHS::ZERO);
      sym_check(throws([&] { Substitution(std::vector<LinearConstraintPtr>{c, d}, x, 2); }), "a constraint without any of the variables is refused");
      break;
    }
    case 5: // not the rank that was given
    {
      static const double men[][4] = {{1, 2, 2, 4}, {0, 0, 0, 0}, {1, 0, 0, 1}};
      int k = sym_choose("menu", 3), r = sym_choose("rank", 3);
      static const int ranks[] = {1, 0, 2};
      const double * q = men[k];
      c->A(M22(q[0], q[1], q[2], q[3]), *x);
      Substitutions S;
      S.add(Substitution(c, x, r));
      S.finalize();
      sym_check(throws([&] { S.updateSubstitutions(); }) == (r != ranks[k]), "a wrong rank is refused");
      break;
    }
    case 6:
      sym_check(throws([&] { Substitution(c, x, 1, DiagonalCalculator()); }), "a wrong rank is refused");
      sym_check(throws([&] { Substitution(c, x, 1, DiagonalCalculator(Ix{2}, Ix{0})); }), "an index too large is refused");
      sym_check(throws([&] { Substitution(c, x, 1, DiagonalCalculator(Ix{0, 1}, Ix{})); }), "more non-zero rows than the rank are refused");
      sym_check(throws([&] { Substitution(c, x, 2, DiagonalCalculator(Ix{1}, Ix{0})); }), "less non-zero rows than the rank are refused");
      sym_check(throws([&] { DiagonalCalculator(Ix{0, 0}); }) && throws([&] { DiagonalCalculator(Ix{0}, Ix{0}); }), "an index given twice is refused");
      break;
    default:
    {
      std::vector<VariablePtr> v{x, y};
      sym_check(throws([&] { Substitution(c, v, 2, DiagonalCalculator()); }), "a diagonal for several variables is refused");
    }
  }
  sym_reach("refused");
}
} // namespace
void harness()
{
  switch(sym_choose("mode", 7))
  {
    case 0: single(); break;
    case 1: deficient(); break;
    case 2: chain(); break;
    case 3: cycle(); break;
    case 4: history(); break;
    case 5: several(); break;
    default: refused();
  }
}
