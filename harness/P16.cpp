// P16: with substitutions, an assignment writes the rows of the constraint once the variables are replaced, for symbolic
// matrices, vectors, weights and substitutions, for all the conventions of the source and the target.
#include "p15.h"
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/Substitutions.h>
#include <map>
using P = tvm::internal::MatrixProperties;
namespace
{
// x = sum M_i v_i + d, from the constraint sum M_i v_i - x = -d
struct Sub
{
  VariablePtr x;
  std::vector<VariablePtr> v;
  std::vector<MatrixXd> M;
  VectorXd d;
  RHS r;
  int rows; // number of components of x that are defined
  std::shared_ptr<BasicLinearConstraint> c;
  Sub(VariablePtr x_, const std::vector<VariablePtr> & v_, RHS r_, int rows_ = -1) : x(x_), v(v_), M(v_.size()), r(r_), rows(rows_ < 0 ? x_->size() : rows_)
  {
    std::vector<VariablePtr> all = v;
    all.push_back(x);
    c = std::make_shared<BasicLinearConstraint>(rows, all, Type::EQUAL, r);
    MatrixXd I = MatrixXd::Zero(rows, x->size());
    for(int i = 0; i < rows; ++i) I(i, i) = -1;
    c->A(I, *x, rows == x->size() ? P(P::MINUS_IDENTITY) : P());
    values();
  }
  void values()
  {
    for(size_t i = 0; i < v.size(); ++i)
    {
      M[i] = mat("M", rows, v[i]->size());
      c->A(M[i], *v[i]);
    }
    d = VectorXd::Zero(rows);
    if(r == RHS::ZERO) return;
    d = vec("d", rows);
    c->b(r == RHS::OPPOSITE ? d : VectorXd(-d));
  }
};
struct Src
{
  Type t;
  RHS r;
  std::vector<VariablePtr> x;
  std::vector<MatrixXd> A;
  int kind; // 0: general, 1: identity, 2: minus identity (for the first variable)
  VectorXd l, u, b;
  std::shared_ptr<BasicLinearConstraint> c;
  std::vector<std::unique_ptr<Sub>> subs; // in an order such that a substitution only uses previous ones
  hint::internal::Substitutions S;
  VariablePtr z; // additional variable
  bool joint = false; // a single substitution
  void values()
  {
    for(size_t i = 0; i < x.size(); ++i)
    {
      if(i == 0 && kind)
      {
        A[i] = MatrixXd::Zero(m, m);
        for(int k = 0; k < m; ++k) A[i](k, k) = kind == 1 ? 1 : -1;
        c->A(A[i], *x[i], P(kind == 1 ? P::IDENTITY : P::MINUS_IDENTITY));
        continue;
      }
      A[i] = mat("A", m, x[i]->size());
      c->A(A[i], *x[i]);
    }
    b = l = u = VectorXd::Zero(m);
    if(r != RHS::ZERO)
    {
      if(t == Type::DOUBLE_SIDED)
      {
        l = vec("l", m);
        u = vec("u", m);
        c->l(l);
        c->u(u);
      }
      else
      {
        b = vec("b", m);
        c->b(b);
      }
    }
  }
  void newValues()
  {
    values();
    for(auto & s : subs) s->values();
    S.updateSubstitutions();
  }
  void build(const std::vector<VariablePtr> & xs)
  {
    x = xs;
    A.resize(x.size());
    c = std::make_shared<BasicLinearConstraint>(m, x, t, r);
    values();
    if(joint) S.add(hint::Substitution({subs[0]->c, subs[1]->c}, {subs[0]->x, subs[1]->x}));
    for(auto & s : subs)
    {
      if(joint) break;
      if(s->rows == s->x->size())
        S.add(hint::Substitution(s->c, s->x));
      else
        S.add(hint::Substitution(s->c, s->x, s->rows, hint::internal::DiagonalCalculator(0, s->rows)));
    }
    S.finalize();
    S.updateSubstitutions();
    sym_check(S.additionalConstraints().empty(), "no constraint is left");
    if(!S.additionalVariables().empty()) z = S.additionalVariables()[0];
  }
  double sign() const { return r == RHS::OPPOSITE ? -1 : 1; }
  bool lower() const { return t != Type::LOWER_THAN; }
  bool upper() const { return t != Type::GREATER_THAN; }
  // coefficient i of variable v as an expression of the columns of vv: coefficients, constant, columns involved
  struct Expr
  {
    std::map<int, double> c;
    double d = 0;
  };
  Expr expr(const Variable & v, int i, const VariableVector & vv) const
  {
    for(auto & s : subs)
    {
      if(!s->x->contains(v) && !v.contains(*s->x)) continue;
      int j = i + v.subvariableRange().start - s->x->subvariableRange().start; // index in s->x
      if(v.isBasePrimitive() && !v.isSubvariable()) j = i - (s->x->isSubvariable() ? s->x->subvariableRange().start : 0);
      if(j < 0 || j >= s->x->size()) continue;
      Expr e;
      if(j >= s->rows)
      {
        e.c[z->getMappingIn(vv).start + j - s->rows] = 1;
        return e;
      }
      e.d = s->d[j];
      for(size_t k = 0; k < s->v.size(); ++k)
        for(int q = 0; q < s->v[k]->size(); ++q) acc(e, s->M[k](j, q), expr(*s->v[k], q, vv));
      return e;
    }
    Expr e;
    VariablePtr p = const_cast<Variable &>(v).subvariable(1, "p", i);
    e.c[p->getMappingIn(vv).start] = 1;
    return e;
  }
  static void acc(Expr & e, double f, const Expr & o)
  {
    e.d += f * o.d;
    for(auto & c : o.c) e.c[c.first] = (e.c.count(c.first) ? e.c[c.first] : 0) + f * c.second;
  }
  Expr row(int k, const VariableVector & vv) const
  {
    Expr e;
    for(size_t i = 0; i < x.size(); ++i)
      for(int q = 0; q < x[i]->size(); ++q) acc(e, A[i](k, q), expr(*x[i], q, vv));
    return e;
  }
  mutable std::vector<Expr> rows;
  void prepare(const VariableVector & vv) const
  {
    rows.clear();
    for(int k = 0; k < m; ++k) rows.push_back(row(k, vv));
  }
  bool has(const VariableVector &, int col) const { return rows[0].c.count(col) > 0; }
  double coef(int k, const VariableVector &, int col) const { return rows[k].c.at(col); }
  double lo(int i) const { return sign() * (t == Type::DOUBLE_SIDED ? l[i] : b[i]) - rows[i].d; }
  double up(int i) const { return sign() * (t == Type::DOUBLE_SIDED ? u[i] : b[i]) - rows[i].d; }
};
void check(const Src & s, const Target & t, const VariableVector & vv, Memory & mem, const VectorXd & w)
{
  s.prepare(vv);
  compare(s, t, vv, mem, w);
}
} // namespace
void harness()
{
  Src s;
  s.t = types[sym_choose("source type", 4)];
  s.r = s.t == Type::DOUBLE_SIDED ? rhss[1 + sym_choose("source rhs", 2)] : rhss[sym_choose("source rhs", 3)];
  Target t;
  t.t = types[sym_choose("target type", 4)];
  if((s.t == Type::EQUAL) != (t.t == Type::EQUAL) && t.t != Type::DOUBLE_SIDED) return; // refused, see P15
  if(s.t != Type::EQUAL && t.t == Type::EQUAL) return;
  t.r = t.t == Type::DOUBLE_SIDED ? rhss[1 + sym_choose("target rhs", 2)] : rhss[sym_choose("target rhs", 3)];
  if(t.r == RHS::ZERO && s.r != RHS::ZERO) return;
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y"), w = Space(1).createVariable("w"), v = Space(2).createVariable("v");
  VariablePtr x0 = x->subvariable(1, "x0", 0), x1 = x->subvariable(1, "x1", 1);
  int cfg = sym_choose("substitutions", 8);
  RHS sr = rhss[sym_choose("substitution rhs", 3)];
  s.kind = 0;
  auto sub = [&](VariablePtr a, std::vector<VariablePtr> b, RHS r, int rows = -1) { s.subs.push_back(std::make_unique<Sub>(a, b, r, rows)); };
  std::vector<VariablePtr> rest; // what remains
  switch(cfg)
  {
    case 0: // appears directly and through the substitution
      sub(x, {y, w}, sr);
      s.build({x, y});
      rest = {v, y, w};
      break;
    case 1: // chained
      sub(x, {y}, sr);
      sub(v, {x, w}, sym_choose("other", 2) ? RHS::AS_GIVEN : RHS::ZERO);
      s.build({v, y});
      rest = {y, w};
      break;
    case 2: // a part of a variable
      sub(x0, {w}, sr);
      s.build({x, y});
      rest = {w, y, x1};
      break;
    case 3: // not concerned
      sub(x, {y}, sr);
      s.build({w, v});
      rest = {w, y, v};
      break;
    case 4: // two substitutions
      sub(x, {y}, sr);
      sub(v, {y, w}, sym_choose("other", 2) ? RHS::AS_GIVEN : RHS::ZERO);
      s.build({x, v});
      rest = {w, y};
      break;
    case 5: // identity or minus identity
      s.kind = 1 + sym_choose("identity", 2);
      sub(x, {y, w}, sr);
      s.build({x, y});
      rest = {y, w};
      break;
    case 6: // by two constraints together
      s.joint = true;
      sub(w, {y}, sr);
      sub(x, {y}, sym_choose("other", 2) ? RHS::AS_GIVEN : RHS::ZERO);
      s.build({x, w});
      rest = {v, y};
      break;
    default: // part of the variable remains free
      sub(x, {y}, sr, 1);
      s.build({x, w});
      rest = {w, y, s.z};
  }
  VariableVector vv(rest);
  t.range = std::make_shared<Range>(1, s.t == Type::DOUBLE_SIDED && t.t != Type::DOUBLE_SIDED ? 2 * m : m);
  Memory mem(2 * m + 2, vv.totalSize());
  bool constant = false;
  for(auto & q : s.subs) constant = constant || q->r != RHS::ZERO;
  int wk = sym_choose("weights", 3);
  double w0 = 1;
  VectorXd wa = VectorXd::Ones(m);
  std::shared_ptr<SolvingRequirementsWithCallbacks> req;
  if(wk == 1) req = std::make_shared<SolvingRequirementsWithCallbacks>(requirements::Weight(w0 = wt("weight")));
  if(wk == 2)
  {
    wa << wt("weight 0"), wt("weight 1");
    req = std::make_shared<SolvingRequirementsWithCallbacks>(requirements::AnisotropicWeight(wa));
  }
  auto factor = [&] {
    VectorXd f(m);
    for(int i = 0; i < m; ++i) f[i] = wk == 1 ? std::sqrt(w0) : wk == 2 ? std::sqrt(wa[i]) : 1;
    return f;
  };
  std::unique_ptr<Assignment> a;
  bool th = throws([&] { a = std::make_unique<Assignment>(s.c, req, t.at(mem), vv, &s.S); });
  if(t.r == RHS::ZERO && constant)
  {
    if(cfg != 3) sym_check(th, "a constant part cannot be written in a target without right-hand side");
    sym_reach("refused");
    if(th) return;
  }
  else
    sym_check(!th, "compatible conventions are accepted");
  if(th) return;
  s.newValues();
  a->run();
  check(s, t, vv, mem, factor());
  int n = sym_choose("then", sym_tier() ? 4 : 2);
  if(!sym_tier() && n) n = (cfg + int(t.t)) % 2 ? 1 : 2; // quick: alternates
  switch(n)
  {
    case 1:
    {
      VariableVector v2;
      for(size_t i = rest.size(); i--;) v2.add(rest[i]);
      Memory m2(2 * m + 3, vv.totalSize());
      t.range->start = 2;
      if(t.t == Type::DOUBLE_SIDED)
        a->target().changeData(m2.A, m2.l, m2.u);
      else if(t.r == RHS::ZERO)
        a->target().setA(m2.A);
      else
        a->target().changeData(MatrixRef(m2.A), VectorRef(m2.b));
      a->onUpdatedMapping(v2, false);
      a->onUpdatedTarget();
      s.newValues();
      a->run();
      check(s, t, v2, m2, factor());
      sym_reach("retargeted");
      break;
    }
    case 2:
    {
      VariableVector v2;
      for(size_t i = rest.size(); i--;) v2.add(rest[i]);
      Assignment c = Assignment::reprocess(*a, v2, &s.S);
      a.reset();
      c.run();
      check(s, t, v2, mem, factor());
      sym_reach("reprocessed");
      break;
    }
    case 3:
      if(!wk) return;
      if(wk == 1) req->weight() = w0 = wt("weight");
      if(wk == 2)
      {
        wa << wt("weight 0"), wt("weight 1");
        req->anisotropicWeight() = wa;
      }
      a->onUpdateWeights(wk == 1, wk == 2);
      a->run();
      check(s, t, vv, mem, factor());
      break;
    default: sym_reach("written");
  }
}
