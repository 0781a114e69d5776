// P15: what an assignment writes in its target is the source constraint, for symbolic matrices, vectors and weights, for
// all the conventions of the source and the target.
#include "p15.h"
namespace
{
struct Src
{
  Type t;
  RHS r;
  std::vector<VariablePtr> x;
  std::vector<MatrixXd> A;
  VectorXd l, u, b;
  std::shared_ptr<BasicLinearConstraint> c;
  void values()
  {
    for(size_t i = 0; i < x.size(); ++i)
    {
      A[i] = mat("A", m, x[i]->size());
      if(c) c->A(A[i], *x[i]);
    }
    b = l = u = VectorXd::Zero(m);
    if(r == RHS::ZERO) return;
    if(t == Type::DOUBLE_SIDED)
    {
      l = vec("l", m);
      u = vec("u", m);
      if(c) c->l(l);
      if(c) c->u(u);
    }
    else
    {
      b = vec("b", m);
      if(c) c->b(b);
    }
  }
  Src(Type t_, RHS r_, const std::vector<VariablePtr> & x_) : t(t_), r(r_), x(x_), A(x_.size())
  {
    c = std::make_shared<BasicLinearConstraint>(m, x, t, r);
    values();
  }
  double sign() const { return r == RHS::OPPOSITE ? -1 : 1; }
  // row of the constraint on the variables vv, and its right-hand sides as if they were given
  double coef(int row, const VariableVector & vv, int col) const
  {
    for(size_t k = 0; k < x.size(); ++k)
    {
      Range g = x[k]->getMappingIn(vv);
      if(col >= g.start && col < g.end()) return A[k](row, col - g.start);
    }
    return 0;
  }
  bool has(const VariableVector & vv, int col) const
  {
    for(auto & v : x)
    {
      Range g = v->getMappingIn(vv);
      if(col >= g.start && col < g.end()) return true;
    }
    return false;
  }
  bool lower() const { return t != Type::LOWER_THAN; }
  bool upper() const { return t != Type::GREATER_THAN; }
  double lo(int i) const { return sign() * (t == Type::DOUBLE_SIDED ? l[i] : b[i]); }
  double up(int i) const { return sign() * (t == Type::DOUBLE_SIDED ? u[i] : b[i]); }
};
} // namespace
void targets()
{
  Memory mem(3, 4);
  auto r = std::make_shared<Range>(1, 2);
  Type ty = types[sym_choose("target type", 4)];
  RHS rh = rhss[sym_choose("target rhs", 3)];
  bool ds = ty == Type::DOUBLE_SIDED;
  auto is = [&](const AssignmentTarget & t, Type y, RHS h) {
    sym_check(t.targetType() == TargetType::Linear && t.constraintType() == y && t.constraintRhs() == h && t.size() == 2 && &t.range() == r.get(), "a target has the convention given");
  };
  sym_check(throws([&] { is(AssignmentTarget(r, MatrixRef(mem.A), ty), ty, RHS::ZERO); }) == ds, "single-sided targets are refused for double-sided conventions");
  sym_check(throws([&] { is(AssignmentTarget(r, mem.A, mem.b, ty, rh), ty, rh); }) == ds, "single-sided targets are refused for double-sided conventions");
  sym_check(throws([&] { is(AssignmentTarget(r, mem.A, mem.l, mem.u, rh), Type::DOUBLE_SIDED, rh); }) == (rh == RHS::ZERO), "double-sided targets need bounds");
  sym_check(throws([&] { is(AssignmentTarget(r, VectorRef(mem.b), ty), ty, RHS::AS_GIVEN); }) == (ty == Type::EQUAL || ds), "a single bound is a lower or an upper one");
  is(AssignmentTarget(r, mem.l, mem.u), Type::DOUBLE_SIDED, RHS::AS_GIVEN);
  // views on the rows of the target
  AssignmentTarget t(r, mem.A, mem.b, Type::EQUAL, RHS::AS_GIVEN);
  eqv(MatrixXd(t.A(1, 2)), MatrixXd(mem.A.block(1, 1, 2, 2)), "rows of the target");
  eqv(VectorXd(t.b()), VectorXd(mem.b.segment(1, 2)), "rows of the target");
  AssignmentTarget d(r, mem.A, mem.l, mem.u, RHS::OPPOSITE);
  eqv(VectorXd(d.l()), VectorXd(mem.l.segment(1, 2)), "rows of the target");
  eqv(VectorXd(d.u()), VectorXd(mem.u.segment(1, 2)), "rows of the target");
  // and after the data are replaced
  Memory nw(3, 4);
  t.changeData(MatrixRef(nw.A), VectorRef(nw.b));
  eqv(MatrixXd(t.A(1, 2)), MatrixXd(nw.A.block(1, 1, 2, 2)), "rows of the new data");
  eqv(VectorXd(t.b()), VectorXd(nw.b.segment(1, 2)), "rows of the new data");
  d.changeData(MatrixRef(nw.A), VectorRef(nw.l), VectorRef(nw.u));
  eqv(MatrixXd(d.A(0, 3)), MatrixXd(nw.A.block(1, 0, 2, 3)), "rows of the new data");
  eqv(VectorXd(d.l()), VectorXd(nw.l.segment(1, 2)), "rows of the new data");
  eqv(VectorXd(d.u()), VectorXd(nw.u.segment(1, 2)), "rows of the new data");
  AssignmentTarget q(mem.A, mem.b, RHS::AS_GIVEN);
  sym_check(q.targetType() == TargetType::Quadratic && q.constraintRhs() == RHS::AS_GIVEN, "a target has the convention given");
  for(auto * p : {&mem, &nw})
  {
    if(p == &nw) q.changeData(MatrixRef(nw.A), VectorRef(nw.b));
    eqv(MatrixXd(q.Q()), p->A, "quadratic data");
    eqv(VectorXd(q.q()), p->b, "quadratic data");
  }
  sym_reach("targets");
}
void harness()
{
  if(sym_choose("targets", 2)) return targets();
  Type st = types[sym_choose("source type", 4)];
  RHS sr = st == Type::DOUBLE_SIDED ? rhss[1 + sym_choose("source rhs", 2)] : rhss[sym_choose("source rhs", 3)];
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y"), z = Space(1).createVariable("z");
  VariablePtr x1 = x->subvariable(1, "x1", 1);
  VariableVector vv(z, x, y);
  std::vector<VariablePtr> xs;
  int cfg = sym_choose("variables", sym_tier() ? 3 : 2);
  xs = cfg == 0 ? std::vector<VariablePtr>{y, x} : cfg == 1 ? std::vector<VariablePtr>{x1, z} : std::vector<VariablePtr>{x};
  Src s(st, sr, xs);
  Target t;
  t.t = types[sym_choose("target type", 4)];
  t.r = t.t == Type::DOUBLE_SIDED ? rhss[1 + sym_choose("target rhs", 2)] : rhss[sym_choose("target rhs", 3)];
  int rows = st == Type::DOUBLE_SIDED && t.t != Type::DOUBLE_SIDED ? 2 * m : m;
  bool wrongSize = sym_choose("wrong size", 2);
  t.range = std::make_shared<Range>(1, wrongSize ? rows + (rows == m ? m : -m) : rows);
  Memory mem(2 * m + 3, 4);
  bool accepted = (st == Type::EQUAL ? t.t == Type::EQUAL || t.t == Type::DOUBLE_SIDED : t.t != Type::EQUAL)
                  && (t.r != RHS::ZERO || sr == RHS::ZERO) && !wrongSize;
  // requirements
  bool ws = false, wv = false;
  double w0 = 1, sw = 1;
  VectorXd wa = VectorXd::Ones(m);
  std::shared_ptr<SolvingRequirementsWithCallbacks> req;
  int wk = accepted ? sym_choose("weights", 5) : 0; // none given, default, scalar, vector, both (+ scalarization)
  using requirements::AnisotropicWeight;
  using requirements::Weight;
  if(wk == 2 || wk == 4)
  {
    w0 = wt("weight");
    ws = true;
  }
  if(wk == 3 || wk == 4)
  {
    wa << wt("weight 0"), wt("weight 1");
    wv = true;
  }
  if(wk == 1) req = std::make_shared<SolvingRequirementsWithCallbacks>();
  if(wk == 2) req = std::make_shared<SolvingRequirementsWithCallbacks>(Weight(w0));
  if(wk == 3) req = std::make_shared<SolvingRequirementsWithCallbacks>(AnisotropicWeight(wa));
  if(wk == 4)
  {
    req = std::make_shared<SolvingRequirementsWithCallbacks>(Weight(w0), AnisotropicWeight(wa));
    sw = wt("scalarization");
  }
  auto factor = [&] {
    VectorXd f(m);
    for(int i = 0; i < m; ++i) f[i] = (ws ? std::sqrt(w0) : 1) * sw * (wv ? std::sqrt(wa[i]) : 1);
    return f;
  };
  std::unique_ptr<Assignment> a;
  bool th = throws([&] { a = std::make_unique<Assignment>(s.c, req, t.at(mem), vv, nullptr, sw); });
  sym_check(th == !accepted, "accepted exactly when the conventions and sizes are compatible");
  if(th)
  {
    sym_reach("refused");
    return;
  }
  sym_check(a->changeScalarWeightIsAllowed() == ws, "changing a non default weight is allowed");
  sym_check(a->changeVectorWeightIsAllowed() == wv, "changing a non default weight is allowed");
  s.values(); // the values matter when running, not when building
  a->run();
  compare(s, t, vv, mem, factor());
  switch(sym_choose("then", wk >= 2 ? 5 : 4))
  {
    case 0: // new values, and the assignment is moved
    {
      Assignment b(std::move(*a));
      a.reset();
      s.values();
      b.run();
      compare(s, t, vv, mem, factor());
      sym_reach("values");
      break;
    }
    case 1: // other rows and other memory
    {
      Memory m2(2 * m + 4, 4);
      t.range->start = 2;
      if(sym_choose("memory", 2))
      {
        if(t.t == Type::DOUBLE_SIDED)
          a->target().changeData(m2.A, m2.l, m2.u);
        else if(t.r == RHS::ZERO)
          a->target().setA(m2.A);
        else
          a->target().changeData(MatrixRef(m2.A), VectorRef(m2.b));
        a->onUpdatedTarget();
        a->run();
        compare(s, t, vv, m2, factor());
      }
      else
      {
        a->onUpdatedTarget();
        a->run();
        compare(s, t, vv, mem, factor());
      }
      sym_reach("target");
      break;
    }
    case 2: // other columns
    {
      VariableVector v2(x, z, y);
      if(sym_choose("how", 2))
        a->onUpdatedMapping(v2);
      else
      {
        a->onUpdatedMapping(v2, false);
        a->onUpdatedTarget();
      }
      a->run();
      compare(s, t, v2, mem, factor());
      sym_reach("mapping");
      break;
    }
    case 3: // rebuilt
    {
      VariableVector v2(y, x, z);
      Assignment b = Assignment::reprocess(*a, v2, nullptr);
      a.reset();
      b.run();
      compare(s, t, v2, mem, factor());
      sym_reach("reprocess");
      break;
    }
    default: // new weights: all at once, the scalar only, the vector only, one after the other
      int how = sym_choose("which weights", 5);
      bool cs = ws && how != 2, cv = wv && how != 1;
      if(!cs && !cv) return;
      if(cs) w0 = wt("weight");
      if(cv) wa << wt("weight 0"), wt("weight 1");
      if(cs) req->weight() = w0;
      if(cv) req->anisotropicWeight() = wa;
      switch(how)
      {
        case 0: a->onUpdateWeights(); break;
        case 1: a->onUpdateWeights(true, false); break;
        case 2: a->onUpdateWeights(false, true); break;
        case 3:
          a->onUpdateWeights(true, false);
          a->onUpdateWeights(false, wv);
          break;
        default:
          a->onUpdateWeights(false, wv);
          a->onUpdateWeights(true, false);
      }
      a->run();
      compare(s, t, vv, mem, factor());
      sym_reach("new weights");
  }
}
