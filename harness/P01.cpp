// P01: derivative / primitive chains under every history of requests and releases.
#include "vh.h"
#include <tvm/Variable.h>
using namespace tvm;
using namespace vf;
namespace
{
struct Base // a base variable (or subvariable object): values of its successive derivatives
{
  int sup; // index of the base it is a part of (itself for a supervariable)
  int r0, rn, t0, tn; // range in the value / tangent vector of the super
  std::vector<std::vector<double>> val; // for super variables: value per order, for the orders created so far
};
struct Held
{
  VariablePtr p;
  int base, order;
};
std::vector<Base> bases;
std::vector<Held> held;

void ensure(int b, int order)
{
  Base & s = bases[bases[b].sup];
  while((int)s.val.size() <= order)
    s.val.push_back(std::vector<double>(s.val.empty() ? s.rn : s.tn, 0.));
}
void checkAll()
{
  for(auto & h : held)
  {
    Base & b = bases[h.base];
    Base & s = bases[b.sup];
    sym_check(h.p->derivativeNumber() == h.order, "derivativeNumber follows the requests");
    sym_check(h.p->isBasePrimitive() == (h.order == 0), "isBasePrimitive");
    int n = h.order ? b.tn : b.rn, o = h.order ? b.t0 : b.r0;
    sym_check(h.p->size() == n, "size is the (tangent) size of the space");
    if(h.p->size() != n) continue;
    for(int i = 0; i < n; ++i) sym_check_eq(h.p->value()[i], s.val[h.order][o + i], "values are preserved");
    for(auto & g : held)
    {
      sym_check((h.p.get() == g.p.get()) == (h.base == g.base && h.order == g.order), "same request <=> same object");
      sym_check(h.p->isDerivativeOf(*g.p) == (h.base == g.base && h.order > g.order), "isDerivativeOf");
      sym_check(h.p->isPrimitiveOf(*g.p) == (h.base == g.base && h.order < g.order), "isPrimitiveOf");
    }
  }
}
} // namespace
void harness()
{
  int kind = anyInt("space", 3);
  Space sp = kind == 0 ? Space(2) : kind == 1 ? Space(Space::Type::SO3) : Space(2) * Space(Space::Type::SE3);
  VariablePtr x = sp.createVariable("x");
  bases.push_back({0, 0, sp.rSize(), 0, sp.tSize(), {}});
  ensure(0, 0);
  held.push_back({x, 0, 0});
  x.reset();
  int len = sym_tier() ? 4 : 3;
  for(int k = 0; k < len; ++k)
  {
    int i = anyInt("which", (int)held.size());
    Held h = held[i];
    int b = h.base;
    switch(anyInt("op", 8))
    {
      case 0:
      case 1:
      {
        int d = 1 + anyInt("order", 2);
        if(h.order + d > 3) sym_cut("order bound");
        VariablePtr r = dot(h.p, d);
        ensure(b, h.order + d);
        if(d == 2) sym_reach("second derivative at once");
        held.push_back({r, b, h.order + d});
        break;
      }
      case 2:
        if(h.order == 0)
        {
          sym_check(throws([&] { auto p = h.p->primitive<1>(); }), "primitive of a base variable is refused");
          sym_cut("no primitive");
        }
        held.push_back({h.p->primitive<1>(), b, h.order - 1});
        sym_reach("primitive");
        break;
      case 3:
        if(h.order < 2) sym_cut("no second primitive");
        held.push_back({h.p->primitive<2>(), b, h.order - 2});
        sym_reach("second primitive");
        break;
      case 4:
        held.push_back({h.p->basePrimitive(), b, 0});
        break;
      case 5: // release
        if(held.size() < 2) sym_cut("nothing would be left");
        held.erase(held.begin() + i);
        h.p.reset();
        sym_reach("release");
        break;
      case 6:
      {
        // subvariable: skip the first coefficient (Euclidean part only)
        if(bases[b].sup != b || kind == 1) sym_cut("no subvariable here");
        VariablePtr s = h.p->subvariable(Space(1), "s", Space(1));
        Base nb = {b, 1, 1, 1, 1, {}};
        bases.push_back(nb);
        held.push_back({s, (int)bases.size() - 1, h.order});
        if(h.order) sym_reach("subvariable of a derivative");
        break;
      }
      case 7:
      {
        VectorXd v = vec("v", h.p->size());
        h.p->set(v);
        Base & s = bases[bases[b].sup];
        int o = h.order ? bases[b].t0 : bases[b].r0;
        for(int j = 0; j < v.size(); ++j) s.val[h.order][o + j] = v[j];
        break;
      }
    }
    h.p.reset();
    checkAll();
  }
  // a derivative keeps its primitives (and a subvariable its supervariable) alive
  int i = anyInt("last", (int)held.size());
  Held h = held[i];
  held.clear();
  VariablePtr again = h.p->shared_from_this();
  h.p.reset();
  h.p = again;
  again.reset();
  held.push_back(h);
  checkAll();
  VariablePtr bp = h.p->basePrimitive();
  sym_check(bp->derivativeNumber() == 0, "base primitive of the last survivor");
  sym_check(h.order == 0 || dot(bp, h.order).get() == h.p.get(), "derivating the base primitive leads back");
  h.p.reset();
  held.clear();
  sym_check(bp->size() == bases[h.base].rn, "base primitive still alive");
  if(h.order)
  {
    VariablePtr d = dot(bp, h.order);
    bp.reset();
    bp = d->basePrimitive();
    d.reset();
    sym_check(bp->size() == bases[h.base].rn, "base primitive still alive");
  }
  for(int j = 0; j < bp->size(); ++j)
    sym_check_eq(bp->value()[j], bases[bases[h.base].sup].val[0][bases[h.base].r0 + j], "values are preserved");
}
