// Histories of requirements accepted or refused by a scheme.
#pragma once
#include "tasks.h"
namespace vf
{
using VET = tvm::requirements::ViolationEvaluationType;
struct World30
{
  using V = std::vector<tvm::VariablePtr>;
  using Type = Lin::Type;
  tvm::VariablePtr x = tvm::Space(2).createVariable("x"), y = tvm::Space(1).createVariable("y"), z = tvm::Space(1).createVariable("z");
  tvm::LinearizedControlProblem pb;
  std::vector<TaskItem> t;
  bool inequalities; // supported after the first level
  int pending = 0;   // weight changes in the first level
  static const int N = 8;
  World30(bool ineq) : inequalities(ineq)
  {
    t.reserve(N);
    t.emplace_back(0, 1, V{x, y}, Type::EQUAL);
    t.emplace_back(1, 1, V{y}, Type::EQUAL);
    t.emplace_back(0, 2, V{x}, Type::DOUBLE_SIDED, 1);
    t.emplace_back(1, 1, V{y, z}, Type::GREATER_THAN);
    t.emplace_back(0, 1, V{z}, Type::EQUAL);
    t.emplace_back(2, 1, V{x, z}, Type::LOWER_THAN);
    t.emplace_back(0, 1, V{y}, Type::GREATER_THAN, -1);
    t.emplace_back(1, 1, V{z, y}, Type::EQUAL);
    t[4].vet = VET::L1;
    t[7].vet = VET::LINF;
  }
  bool refused(const TaskItem & i) const
  { return i.in && (i.vet != VET::L2 || (i.p > 0 && i.t != Type::EQUAL && !inequalities)); }
  bool refused() const
  {
    return std::any_of(t.begin(), t.end(), [&](auto & i) { return refused(i); });
  }
  void change(int o)
  {
    if(o < N)
    {
      if(t[o].in)
        t[o].remove(pb);
      else
        t[o].add(pb, o % 2);
      return;
    }
    switch(o - N)
    {
      case 0: return t[4].evaluation(VET::L2);
      case 1: return t[0].evaluation(VET::LINF);
      case 2: return t[3].priority(0);
      case 3: return t[2].priority(1);
      case 4: return t[0].priority(t[0].p ? 0 : 2);
      case 5: return t[1].priority(t[1].p == 1 ? 0 : 1);
      case 6:
        for(auto & i : t)
          if(i.in && i.p == 0) ++pending;
        t[0].weight(2);
        return t[6].weight(VectorXd::Constant(1, 3.));
      default:
        if(t[1].in && t[1].p == 0) ++pending;
        return t[1].weight(sym_real("weight", 0.25, 4));
    }
  }
  static const int CHANGES = N + 8;
};
// one resolution. content(items, variables) compares the data of the solver with the items
template<typename S, typename F>
void resolution(S & s, World30 & W, F && content)
{
  for(auto & i : W.t) i.values();
  std::vector<Lin> items;
  std::vector<tvm::VariablePtr> used;
  for(auto & i : W.t)
  {
    if(!i.in) continue;
    items.push_back(i);
    items.back().s = i.p;
    for(auto & v : i.x)
      if(std::find(used.begin(), used.end(), v) == used.end()) used.push_back(v);
  }
  VectorXd before[] = {W.x->value(), W.y->value(), W.z->value()};
  tvm::VariablePtr all[] = {W.x, W.y, W.z};
  rec::success = true;
  int n = rec::solved;
  bool b = false, no = throws([&] { b = s.solve(W.pb); });
  bool maybe = W.pending > 0;
  W.pending = 0;
  if(W.refused())
    sym_check(no, "a requirement the scheme does not handle is refused");
  else if(!maybe)
    sym_check(!no, "supported requirements are accepted");
  if(no)
  {
    sym_check(rec::solved == n, "nothing is solved when a requirement is refused");
    for(int i = 0; i < 3; ++i) eqv(all[i]->value(), before[i], "refusing changes no variable");
    sym_reach("refused");
    return;
  }
  if(items.empty()) return;
  sym_check(b && rec::solved == n + 1, "solved");
  const auto & v = rec::variables;
  sym_check(v.size() == used.size(), "the variables are those of the tasks");
  for(auto & u : used) sym_check(std::find(v.begin(), v.end(), u) != v.end(), "the variables are those of the tasks");
  if(v.size() != used.size()) return;
  content(items, tvm::VariableVector(v));
  sym_reach("accepted");
}
template<typename S, typename F>
void histories(S & s, World30 & W, F && content)
{
  static const int start[] = {0x07, 0x47, 0x0b, 0x53, 0x00};
  int st = start[anyInt("start", 5)];
  for(int i = 0; i < W.N; ++i)
    if(st >> i & 1) W.change(i);
  if(anyInt("solve first", 2)) resolution(s, W, content);
  for(int k = 0; k < 2; ++k)
  {
    for(int j = 0; j < (k == 0 ? 2 : 1) + (sym_tier() && k); ++j)
    {
      static const int last[] = {99, 3, 4, 0, W.N + 4, W.N + 6};
      static const int second[] = {99, 1, 3, 2, W.N + 3, W.N + 4, W.N + 5, W.N + 6};
      int o = k == 0 && j == 1 && !sym_tier() ? second[anyInt("second change", 8)] : k == 1 && !sym_tier() ? last[anyInt("last change", 6)] : anyInt("change", W.CHANGES + 1);
      if(o < W.CHANGES) W.change(o);
      else
        break;
    }
    resolution(s, W, content);
  }
  resolution(s, W, content);
}
} // namespace vf
