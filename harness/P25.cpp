// P25: the callbacks of a requirement are called once per change, for the tokens alive, and invalid values are refused.
#include "vh.h"
#include <map>
#include <optional>
#include <tvm/requirements/SolvingRequirements.h>
using namespace tvm;
using namespace tvm::requirements;
using namespace tvm::internal;
using namespace vf;
namespace
{
using Req = WeightBase<false>;
struct World
{
  std::unique_ptr<Req> w = std::make_unique<Req>();
  double value = 1;
  bool def = true;
  std::optional<PairElementToken> slot[2];
  int in[2] = {-1, -1}; // callback the slot refers to
  std::vector<int> calls;
  std::vector<bool> alive;
  bool changing = false;
  void drop(int i)
  {
    if(in[i] >= 0) alive[in[i]] = false;
    in[i] = -1;
  }
  // kills: slot whose token is destroyed by the callback
  void add(int i, int kills)
  {
    int id = static_cast<int>(calls.size());
    calls.push_back(0);
    alive.push_back(true);
    auto f = [this, id, kills] {
      sym_check(changing, "no call without a change");
      sym_check(alive[id], "a callback whose token is released is not called");
      ++calls[id];
      sym_check_eq(w->value(), value, "the new value is visible in the callback");
      if(kills >= 0)
      {
        slot[kills].reset();
        drop(kills);
      }
    };
    drop(i);
    if(slot[i])
      *slot[i] = w->registerCallback(f);
    else
      slot[i].emplace(w->registerCallback(f));
    in[i] = id;
  }
  void move(int i)
  {
    int j = 1 - i;
    if(!slot[i]) return;
    drop(j);
    if(slot[j])
      *slot[j] = std::move(*slot[i]);
    else
      slot[j].emplace(std::move(*slot[i]));
    in[j] = in[i];
    in[i] = -1;
  }
  void unregister(int i)
  {
    if(!slot[i]) return;
    bool t = throws([&] { w->unregisterCallback(*slot[i]); });
    sym_check(t == (in[i] < 0), "unregistering is for what is registered");
    drop(i);
  }
  void change(int how)
  {
    double v = sym_real("w", -2, 5);
    bool invalid = v < 0;
    if(!invalid)
    {
      value = v;
      def = false;
    }
    std::vector<bool> before = alive;
    for(auto & c : calls) c = 0;
    changing = true;
    bool t = throws([&] {
      if(how == 0)
        w->value(v);
      else if(how == 1)
        *w = v;
      else
        *w = Weight(v);
    });
    changing = false;
    sym_check(t == invalid, "an invalid value is refused, and only then");
    sym_check_eq(w->value(), value, "value");
    sym_check(w->isDefault() == def, "default");
    for(size_t k = 0; k < calls.size(); ++k)
    {
      if(invalid || !before[k])
        sym_check(calls[k] == 0, "no call");
      else if(alive[k])
        sym_check(calls[k] == 1, "one call for each change");
      else
        sym_check(calls[k] <= 1, "at most one call for each change");
    }
    if(!t) sym_reach("change");
    else sym_reach("refused");
  }
  void step(int op)
  {
    if(op < 2) add(op, -1);
    else if(op < 4) add(op - 2, 3 - op); // kills the other one
    else if(op < 6) add(op - 4, op - 4); // kills itself
    else if(op < 8) { slot[op - 6].reset(); drop(op - 6); }
    else if(op < 10) move(op - 8);
    else if(op < 12) unregister(op - 10);
    else change(op - 12);
  }
};
void callbacks()
{
  World W;
  W.add(0, -1);
  for(int k = 0; k < 3 + sym_tier(); ++k) W.step(sym_choose("op", 15));
  W.change(sym_choose("how", 3));
  if(sym_choose("die first", 2))
  {
    W.w.reset();
    for(auto & s : W.slot)
      if(s) sym_check(!s->isPaired(), "tokens know that the requirement is gone");
    sym_reach("owner first");
  }
  else
  {
    for(auto & s : W.slot) s.reset();
    W.w->value(3);
    sym_reach("tokens first");
  }
}
template<typename R>
void same(const R & r, int p, double w, const VectorXd & a, ViolationEvaluationType t, int given)
{
  sym_check(r.priorityLevel().value() == (given & 1 ? p : 0), "priority");
  sym_check(r.priorityLevel().isDefault() == !(given & 1), "default priority");
  sym_check_eq(r.weight().value(), given & 2 ? w : 1, "weight");
  sym_check(r.weight().isDefault() == !(given & 2), "default weight");
  eqv(r.anisotropicWeight().value(), given & 4 ? a : VectorXd(), "anisotropic weight");
  sym_check(r.anisotropicWeight().isDefault() == !(given & 4), "default anisotropic weight");
  sym_check(r.violationEvaluation().value() == (given & 8 ? t : ViolationEvaluationType::L2), "evaluation");
  sym_check(r.violationEvaluation().isDefault() == !(given & 8), "default evaluation");
}
void sets()
{
  int p = sym_int("p", -2, 5);
  double w = sym_real("w", -3, 3);
  VectorXd a = vec("a", 2, -3, 3);
  ViolationEvaluationType T[] = {ViolationEvaluationType::L1, ViolationEvaluationType::L2, ViolationEvaluationType::LINF};
  auto t = T[sym_choose("type", 3)];
  sym_check(throws([&] { PriorityLevel P(p); }) == (p < 0), "invalid priority");
  sym_check(throws([&] { Weight W(w); }) == (w < 0), "invalid weight");
  sym_check(throws([&] { AnisotropicWeight A(a); }) == ((a[0] < 0) | (a[1] < 0)), "invalid anisotropic weight");
  if((p < 0) | (w < 0) | (a[0] < 0) | (a[1] < 0))
  {
    PriorityLevelBase<false> P;
    AnisotropicWeightBase<false> A(VectorXd::Ones(2));
    sym_check(throws([&] { P.value(p); }) == (p < 0), "an invalid priority is refused");
    sym_check(throws([&] { A.value(a); }) == ((a[0] < 0) | (a[1] < 0)), "an invalid anisotropic weight is refused");
    sym_check(P.value() >= 0, "nothing changes");
    sym_check((A.value()[0] >= 0) & (A.value()[1] >= 0), "nothing changes");
    sym_reach("invalid");
    return;
  }
  PriorityLevel P(p);
  Weight W(w);
  AnisotropicWeight A(a);
  ViolationEvaluation V(t);
  SolvingRequirements r[] = {{}, {P}, {W, P}, {A}, {A, P}, {P, W, A}, {V}, {V, A, W, P}, {W}, {A, W}};
  int given[] = {0, 1, 3, 4, 5, 7, 8, 15, 2, 6};
  int i = sym_choose("set", 10);
  same(r[i], p, w, a, t, given[i]);
  SolvingRequirementsWithCallbacks c(r[i]);
  same(c, p, w, a, t, given[i]);
  SolvingRequirements copy(r[i]);
  same(copy, p, w, a, t, given[i]);
  int n[4] = {0, 0, 0, 0};
  PairElementToken k0(c.priorityLevel().registerCallback([&] { ++n[0]; })), k1(c.weight().registerCallback([&] { ++n[1]; })),
      k2(c.anisotropicWeight().registerCallback([&] { ++n[2]; })), k3(c.violationEvaluation().registerCallback([&] { ++n[3]; }));
  int ch = sym_choose("change", 4);
  if(ch == 0) c.priorityLevel() = p + 1;
  if(ch == 1) c.weight() = w + 1;
  if(ch == 2) c.anisotropicWeight() = VectorXd(2 * a);
  if(ch == 3) c.violationEvaluation() = T[1];
  for(int k = 0; k < 4; ++k) sym_check(n[k] == (k == ch), "only the callbacks of what changed are called");
  same(c, p + (ch == 0), w + (ch == 1), ch == 2 ? VectorXd(2 * a) : a, ch == 3 ? T[1] : t, given[i] | (1 << ch));
  sym_reach("set");
}
} // namespace
void harness()
{
  if(sym_choose("part", 2))
    callbacks();
  else
    sets();
}
