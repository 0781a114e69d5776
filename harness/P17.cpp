// P17: bounds on a variable (or on a part of it) written in bound vectors define the intersection of the allowed intervals,
// for symbolic coefficients, bounds and previous content, for all the conventions of the source and the target.
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/scheme/internal/Assignment.h>
#include <tvm/scheme/internal/helpers.h>
#include <tvm/hint/internal/Substitutions.h>
using namespace tvm;
using namespace vf;
using namespace tvm::scheme::internal;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using constraint::Type;
using P = tvm::internal::MatrixProperties;
namespace
{
const Type types[] = {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED};
const RHS rhss[] = {RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE};
const double big = 1e6;
// largest absolute value of a finite bound below: 8 * 1024
const double infinite = 1e5;
enum Kind
{
  ID,
  MINUS_ID,
  POS,
  NEG,
  MIXED,
  SCALED, // multiple of the identity
  SINGULAR, // diagonal, not known to be invertible
  FULL
};
struct Bound
{
  Type t;
  RHS r;
  Kind k;
  VariablePtr x;
  int n;
  VectorXd d, l, u, b;
  std::shared_ptr<BasicLinearConstraint> c;
  double coef(int i)
  {
    double a = sym_real("d", 1. / 1024, 8);
    switch(k)
    {
      case ID: return 1;
      case MINUS_ID: return -1;
      case NEG: return -a;
      case MIXED: return i ? -a : a;
      case SCALED: return i ? d[0] : a;
      default: return a;
    }
  }
  P prop() const
  {
    switch(k)
    {
      case ID: return P(P::IDENTITY);
      case MINUS_ID: return P(P::MINUS_IDENTITY);
      case POS: return P(P::DIAGONAL, P::POSITIVE_DEFINITE);
      case NEG: return P(P::DIAGONAL, P::NEGATIVE_DEFINITE);
      case MIXED: return P(P::DIAGONAL, P::Invertibility(true));
      case SCALED: return P(P::MULTIPLE_OF_IDENTITY, P::Invertibility(true));
      case SINGULAR: return P(P::DIAGONAL);
      default: return P();
    }
  }
  void values()
  {
    for(int i = 0; i < n; ++i) d[i] = coef(i);
    MatrixXd A = MatrixXd::Zero(n, n);
    for(int i = 0; i < n; ++i) A(i, i) = d[i];
    c->A(A, *x, prop());
    b = l = u = VectorXd::Zero(n);
    if(r == RHS::ZERO) return;
    if(t == Type::DOUBLE_SIDED)
    {
      l = vec("l", n, -8, 8);
      u = vec("u", n, -8, 8);
      for(int i = 0; i < n; ++i) sym_assume(r == RHS::OPPOSITE ? l[i] >= u[i] : l[i] <= u[i]);
      c->l(l);
      c->u(u);
    }
    else
    {
      b = vec("b", n, -8, 8);
      c->b(b);
    }
  }
  Bound(Type t_, RHS r_, Kind k_, VariablePtr x_) : t(t_), r(r_), k(k_), x(x_), n(x_->size()), d(n)
  {
    std::vector<VariablePtr> v{x};
    c = std::make_shared<BasicLinearConstraint>(n, v, t, r);
    values();
  }
  double sign() const { return r == RHS::OPPOSITE ? -1 : 1; }
  // does it bound component i from below (above), and by what
  bool low(int i) const { return d0(i) ? t != Type::LOWER_THAN : t != Type::GREATER_THAN; }
  bool upp(int i) const { return d0(i) ? t != Type::GREATER_THAN : t != Type::LOWER_THAN; }
  bool d0(int i) const { return !(k == MINUS_ID || k == NEG || (k == MIXED && i)); }
  double left(int i) const { return sign() * (t == Type::DOUBLE_SIDED ? l[i] : b[i]) / d[i]; }
  double right(int i) const { return sign() * (t == Type::DOUBLE_SIDED ? u[i] : b[i]) / d[i]; }
  double lo(int i) const { return d0(i) ? left(i) : right(i); }
  double up(int i) const { return d0(i) ? right(i) : left(i); }
};
Bound any(VariablePtr x, bool all)
{
  Type t = types[sym_choose("type", 4)];
  RHS r = t == Type::DOUBLE_SIDED ? rhss[1 + sym_choose("rhs", 2)] : rhss[sym_choose("rhs", 3)];
  return Bound(t, r, Kind(sym_choose("matrix", all ? 8 : 5)), x);
}
struct Memory
{
  VectorXd l, u, l0, u0;
  Memory(int n) : l(vec("target l", n)), u(vec("target u", n)), l0(l), u0(u) {}
};
struct Given
{
  const Bound * b;
  Range g;
};
// l and u are the intersection of the given bounds with the previous content
void compare(const Memory & m, const std::vector<Given> & bs, const std::vector<bool> & kept)
{
  for(int i = 0; i < m.l.size(); ++i)
  {
    bool hasL = kept[i], hasU = kept[i], any = kept[i];
    double L = m.l0[i], U = m.u0[i];
    for(auto & g : bs)
    {
      int k = i - g.g.start;
      if(k < 0 || k >= g.g.dim) continue;
      any = true;
      if(g.b->low(k)) L = hasL ? std::max(L, g.b->lo(k)) : g.b->lo(k), hasL = true;
      if(g.b->upp(k)) U = hasU ? std::min(U, g.b->up(k)) : g.b->up(k), hasU = true;
    }
    (void)any;
    if(hasL)
      sym_check_eq(m.l[i], L, "the lower bound is the largest of the lower bounds");
    else
      sym_check_le(m.l[i], -infinite, "no lower bound");
    if(hasU)
      sym_check_eq(m.u[i], U, "the upper bound is the smallest of the upper bounds");
    else
      sym_check_le(infinite, m.u[i], "no upper bound");
  }
}
std::shared_ptr<Range> rg(int s, int d) { return std::make_shared<Range>(s, d); }

void one()
{
  VariablePtr x = Space(2).createVariable("x");
  Bound b = any(x, true);
  bool first = sym_choose("first", 2);
  Memory m(4);
  auto g = rg(1, 2);
  bool ok = b.k != SINGULAR && b.k != FULL;
  sym_check(isBound(b.c) == ok, "a constraint with an invertible diagonal matrix is a bound");
  std::unique_ptr<Assignment> a;
  bool th = throws([&] { a = std::make_unique<Assignment>(b.c, AssignmentTarget(g, m.l, m.u), x, first); });
  sym_check(th == !ok, "accepted exactly when the constraint is a bound");
  if(th)
  {
    sym_reach("refused");
    return;
  }
  b.values(); // the values matter when running
  a->run();
  std::vector<bool> kept{true, !first, !first, true};
  compare(m, {{&b, *g}}, kept);
  switch(sym_choose("then", 4))
  {
    case 0:
    {
      Memory m2(5);
      g->start = 2;
      a->target().changeData(VectorRef(m2.l), VectorRef(m2.u));
      a->onUpdatedTarget();
      b.values();
      a->run();
      compare(m2, {{&b, *g}}, {true, true, !first, !first, true});
      sym_reach("target");
      break;
    }
    case 1:
    {
      Memory m2(4);
      m.l = m.l0 = m2.l;
      m.u = m.u0 = m2.u;
      Assignment c(std::move(*a));
      a.reset();
      b.values();
      c.run();
      compare(m, {{&b, *g}}, kept);
      sym_reach("values");
      break;
    }
    case 2:
    {
      Memory m2(4);
      m.l = m.l0 = m2.l;
      m.u = m.u0 = m2.u;
      Assignment c = Assignment::reprocess(*a, x, !first);
      c.run();
      compare(m, {{&b, *g}}, {true, first, first, true});
      sym_reach("reprocess");
      break;
    }
    default: sym_reach("one");
  }
}
// one sided target
void oneSided()
{
  VariablePtr x = Space(2).createVariable("x");
  Bound b = any(x, true);
  Type t = types[1 + sym_choose("target", 2)];
  bool first = sym_choose("first", 2);
  VectorXd v = vec("target", 4), v0 = v;
  auto g = rg(1, 2);
  bool single = b.t == Type::GREATER_THAN || b.t == Type::LOWER_THAN;
  bool pos = b.k == ID || b.k == POS, neg = b.k == MINUS_ID || b.k == NEG;
  bool ok = single && (b.t == t ? pos : neg);
  // for a multiple of the identity, the sign depends on what is known of it
  if(single && b.k == SCALED) return;
  sym_check(canBeUsedAsBound(b.c, {}, {}, t) == ok, "usable for a one sided target exactly when the side is known");
  std::unique_ptr<Assignment> a;
  bool th = throws([&] { a = std::make_unique<Assignment>(b.c, AssignmentTarget(g, VectorRef(v), t), x, first); });
  sym_check(th == !ok, "accepted exactly when usable");
  if(th)
  {
    sym_reach("one sided, refused");
    return;
  }
  b.values();
  for(int k = 0; k < 2; ++k)
  {
    a->run();
    for(int i = 0; i < 4; ++i)
      if(i < g->start || i >= g->start + 2)
        sym_check_eq(v[i], v0[i], "other components are not touched");
      else
      {
        int j = i - g->start;
        if(t == Type::GREATER_THAN)
          sym_check_eq(v[i], first ? b.lo(j) : std::max(v0[i], b.lo(j)), "the lower bound is the largest of the lower bounds");
        else
          sym_check_eq(v[i], first ? b.up(j) : std::min(v0[i], b.up(j)), "the upper bound is the smallest of the upper bounds");
      }
    g->start = 2;
    v0 = v;
    a->onUpdatedTarget();
  }
  sym_reach("one sided");
}
// several bounds on a variable and its parts, the first ones having the flag `first` or the content being reset
void several(int n)
{
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y");
  VariableVector vv(y, x);
  std::vector<VariablePtr> pool{x, x->subvariable(1, "x0", 0), x->subvariable(1, "x1", 1)};
  std::vector<Bound> bs;
  std::vector<std::unique_ptr<Assignment>> as;
  Memory m(3);
  std::vector<bool> kept(3, true), seen(3, false);
  std::vector<Given> g;
  bs.reserve(n);
  bool flag = sym_choose("flag", 2);
  for(int k = 0; k < n; ++k)
  {
    // the conventions are all covered by one()
    static const Kind kinds[] = {ID, MINUS_ID, MIXED};
    Type t = types[k == 0 ? sym_choose("type", 4) : sym_tier() ? sym_choose("type", 4) : 1 + sym_choose("type", 3)];
    auto v = pool[sym_choose("variable", sym_tier() ? 3 : 2)];
    Kind kd = kinds[sym_choose("matrix", 3)];
    bs.emplace_back(t, kd == ID ? RHS::OPPOSITE : RHS::AS_GIVEN, kd, v);
    Range r = v->getMappingIn(vv);
    bool f = flag;
    for(int i = r.start; i < r.end(); ++i)
    {
      if(seen[i]) f = false;
      if(f) kept[i] = false;
    }
    // first overwrites: valid only if nothing was seen on the whole range
    if(flag && !f)
      for(int i = r.start; i < r.end(); ++i)
        if(!seen[i]) kept[i] = true;
    for(int i = r.start; i < r.end(); ++i) seen[i] = true;
    as.push_back(std::make_unique<Assignment>(bs.back().c, AssignmentTarget(std::make_shared<Range>(r), m.l, m.u), v, f));
    g.push_back({&bs.back(), r});
  }
  // run in the order they were given or, when no one overwrites, in the other
  if(!flag && sym_choose("order", 2))
    for(size_t i = as.size(); i--;) as[i]->run();
  else
    for(auto & a : as) a->run();
  compare(m, g, kept);
  sym_reach("several");
}
} // namespace
void harness()
{
  Assignment::big_ = big;
  switch(sym_choose("mode", 3))
  {
    case 0: one(); break;
    case 1: oneSided(); break;
    default: several(2 + (sym_tier() ? sym_choose("n", 2) : 0));
  }
}
