// P02: subvariables are segments of their supervariable.
#include "vh.h"
#include <tvm/Variable.h>
using namespace tvm;
using namespace vf;
namespace
{
// The factors of the supervariable's space, with their representation and tangent sizes
struct Seg
{
  Space s, shift;
  int r0, rn, t0, tn;
};
Seg pick(const std::vector<Space> & f, const char * n)
{
  // consecutive factors [i, j)
  int k = (int)f.size();
  int i = anyInt(n, k);
  int j = i + 1 + anyInt(n, k - i);
  Seg g{Space(0), Space(0), 0, 0, 0, 0};
  for(int a = 0; a < i; ++a) g.shift = g.shift * f[a];
  for(int a = i; a < j; ++a) g.s = a == i ? f[a] : g.s * f[a];
  for(int a = 0; a < i; ++a)
  {
    g.r0 += f[a].rSize();
    g.t0 += f[a].tSize();
  }
  for(int a = i; a < j; ++a)
  {
    g.rn += f[a].rSize();
    g.tn += f[a].tSize();
  }
  return g;
}
bool inside(int a0, int an, int b0, int bn) { return a0 <= b0 && b0 + bn <= a0 + an; }
bool meet(int a0, int an, int b0, int bn) { return a0 < b0 + bn && b0 < a0 + an; }
} // namespace
void harness()
{
  std::vector<Space> f;
  switch(anyInt("space", 2))
  {
    case 0: f = {Space(1), Space(1), Space(1), Space(1)}; break;
    case 1: f = {Space(2), Space(Space::Type::SO3), Space(1)}; break;
  }
  if(sym_tier() && f[0].size() == 1) f.push_back(Space(1));
  Space full = f[0];
  for(size_t i = 1; i < f.size(); ++i) full = full * f[i];
  VariablePtr X = full.createVariable("X"), Y = full.createVariable("Y");
  int order = anyInt("order", 3);
  VariablePtr Xd = order ? dot(X, order) : X, Yd = order ? dot(Y, order) : Y;
  int n = order ? full.tSize() : full.rSize();
  sym_check(Xd->size() == n, "size of the supervariable");
  // set before the subvariables exist (in some cases): nothing may reset it
  VectorXd v = vec("x", n);
  Xd->set(v);
  int scen = anyInt("scenario", 4);
  Seg g = pick(f, "seg1");
  int g0 = order ? g.t0 : g.r0, gn = order ? g.tn : g.rn;
  // either the subvariable of the derivative or the derivative of the subvariable
  bool viaD = anyInt("via derivative", 2);
  VariablePtr s;
  if(viaD)
    s = Xd->subvariable(g.s, "s", g.shift);
  else
  {
    s = X->subvariable(g.s, g.shift);
    if(order) s = dot(s, order);
  }
  sym_check(s->size() == gn, "size of the subvariable");
  sym_check(s->derivativeNumber() == order, "order of the subvariable");
  sym_check(s->isSubvariable() && !s->isSuperVariable(), "isSubvariable");
  sym_check(Xd->isSuperVariable() && !Xd->isSubvariable(), "isSuperVariable");
  sym_check(s->superVariable() == Xd, "superVariable");
  sym_check(Xd->isSuperVariableOf(*s) && !s->isSuperVariableOf(*Xd) && !Yd->isSuperVariableOf(*s), "isSuperVariableOf");
  Range r = s->subvariableRange();
  sym_check(r.start == g0 && r.dim == gn, "subvariableRange");
  r = s->tSubvariableRange();
  sym_check(r.start == g.t0 && r.dim == g.tn, "tSubvariableRange");
  sym_check(Xd->subvariableRange() == Range(0, n) && Xd->tSubvariableRange() == Range(0, full.tSize()), "range of a supervariable");
  if(s->size() != gn) return;
  eqv(s->value(), v.segment(g0, gn), "value of the subvariable");
  eqv(Xd->value(), v, "creating a subvariable keeps the value of the supervariable");
  sym_check(Xd->contains(*s) && Xd->intersects(*s) && s->intersects(*Xd), "contained in its supervariable");
  sym_check(s->contains(*Xd) == (gn == n), "contains only if it covers everything");
  sym_check(!Yd->contains(*s) && !Yd->intersects(*s) && !s->contains(*Yd) && !s->intersects(*Yd), "unrelated variables");
  if(order)
    sym_check(!X->contains(*s) && !X->intersects(*s) && !s->intersects(*X), "the derivative of a part is not a part of the primitive");

  if(scen == 0)
  {
    // second subvariable, of X or of Y
    bool onY = anyInt("on Y", 2);
    Seg h = pick(f, "seg2");
    int h0 = order ? h.t0 : h.r0, hn = order ? h.tn : h.rn;
    VariablePtr t = (onY ? Y : X)->subvariable(h.s, "t", h.shift);
    if(order) t = dot(t, order);
    sym_check(s->contains(*t) == (!onY && inside(g0, gn, h0, hn)), "contains");
    sym_check(t->contains(*s) == (!onY && inside(h0, hn, g0, gn)), "contains (reverse)");
    sym_check(s->intersects(*t) == (!onY && meet(g0, gn, h0, hn)), "intersects");
    sym_check(t->intersects(*s) == (!onY && meet(g0, gn, h0, hn)), "intersects (reverse)");
    sym_check((*s == *t) == (!onY && g0 == h0 && gn == hn), "equality");
    sym_check((*s != *t) == !(!onY && g0 == h0 && gn == hn), "inequality");
    // write through t, read through s and X
    VectorXd w = vec("w", hn);
    switch(anyInt("write", 4))
    {
      case 0: t->set(w); break;
      case 1:
        for(int i = 0; i < hn; ++i) t->set(i, w[i]);
        break;
      case 2:
        t->set(hn - 1, 1, w.tail(1));
        t->set(0, hn - 1, w.head(hn - 1));
        break;
      case 3:
        t->setZero();
        w.setZero();
        break;
    }
    VectorXd e = v;
    if(!onY) e.segment(h0, hn) = w;
    eqv(Xd->value(), e, "writing a part writes exactly these coefficients");
    eqv(s->value(), e.segment(g0, gn), "overlapping parts share their values");
    VectorXd ey = VectorXd::Zero(n);
    if(onY) ey.segment(h0, hn) = w;
    eqv(Yd->value(), ey, "writing a part writes exactly these coefficients (Y)");
    sym_reach("two subvariables");
  }
  else if(scen == 1)
  {
    // writing the supervariable shows in the part
    VectorXd w = vec("w", n);
    Xd->set(w);
    eqv(s->value(), w.segment(g0, gn), "the part sees the supervariable");
    // another order is not affected
    VariablePtr D = dot(Xd);
    VectorXd z = vec("z", D->size());
    D->set(z);
    eqv(Xd->value(), w, "the derivative has its own value");
    eqv(s->value(), w.segment(g0, gn), "the derivative has its own value (part)");
    VariablePtr ds = dot(s);
    eqv(ds->value(), z.segment(g.t0, g.tn), "derivative of the part = part of the derivative");
    sym_check(ds->superVariable() == D, "supervariable of the derivative of the part");
    sym_check(ds->derivativeNumber() == order + 1, "order of the derivative of the part");
    sym_check(ds->primitive() == s, "primitive of the derivative of the part");
    ds->setZero();
    z.segment(g.t0, g.tn).setZero();
    eqv(D->value(), z, "writing the derivative of the part");
    sym_reach("derivative of a part");
  }
  else if(scen == 2)
  {
    // subvariable of the subvariable
    std::vector<Space> sf;
    int a = 0, acc = 0;
    while(acc < g.r0) acc += f[a++].rSize();
    acc = 0;
    while(acc < g.rn)
    {
      sf.push_back(f[a]);
      acc += f[a++].rSize();
    }
    Seg h = pick(sf, "seg2");
    int h0 = g0 + (order ? h.t0 : h.r0), hn = order ? h.tn : h.rn;
    VariablePtr t = anyInt("named", 2) ? s->subvariable(h.s, "t", h.shift) : s->subvariable(h.s, h.shift);
    sym_check(t->superVariable() == Xd, "supervariable of a nested subvariable");
    sym_check(t->subvariableRange() == Range(h0, hn), "range of a nested subvariable");
    sym_check(s->contains(*t), "a nested subvariable is contained");
    eqv(t->value(), v.segment(h0, hn), "value of a nested subvariable");
    VectorXd w = vec("w", hn);
    t->set(w);
    v.segment(h0, hn) = w;
    eqv(Xd->value(), v, "writing a nested subvariable");
    eqv(s->value(), v.segment(g0, gn), "writing a nested subvariable (part)");
    sym_reach("nested");
  }
  else
  {
    // invalid requests are refused and change nothing
    Space big = f[0];
    for(size_t i = 0; i < f.size(); ++i) big = big * f[i];
    sym_check(throws([&] { auto p = X->subvariable(big, "b"); }), "too large subvariable refused");
    sym_check(throws([&] { auto p = X->subvariable(f.back(), "b", full); }), "too large shift refused");
    sym_check(throws([&] { auto p = s->subvariable(g.s * Space(1), "b"); }) , "subvariable larger than the part refused");
    sym_check(throws([&] { s->set(VectorXd::Zero(gn + 1)); }), "wrong size refused");
    sym_check(throws([&] { s->set(gn, 1.); }) && throws([&] { s->set(-1, 1.); }), "wrong index refused");
    sym_check(throws([&] { s->set(1, gn, VectorXd::Zero(gn)); }) && throws([&] { s->set(-1, 1, VectorXd::Zero(1)); })
                  && throws([&] { s->set(0, 1, VectorXd::Zero(2)); }), "wrong segment refused");
    eqv(Xd->value(), v, "refused requests change nothing");
    VariablePtr d = s->duplicate("d");
    eqv(d->value(), v.segment(g0, gn), "a duplicate has the same value");
    sym_check(d->derivativeNumber() == order && d->size() == gn, "a duplicate has the same order and size");
    sym_check(!d->intersects(*s) && !Xd->intersects(*d) && *d != *s, "a duplicate is unrelated");
    d->setZero();
    eqv(Xd->value(), v, "a duplicate has its own value");
    sym_reach("refused");
  }
}
