// P20: what the weighted least-squares scheme gives to its solver is the problem made of the tasks currently present, and
// the solution is written in the variables. Two schemes, with solvers of different styles, work on the same problem.
#include "tasks.h"
#include <tvm/scheme/WeightedLeastSquares.h>
using namespace tvm;
using namespace vf;
using Type = Lin::Type;
namespace
{
struct World
{
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y"), z = Space(1).createVariable("z"),
              q = Space(1).createVariable("q");
  LinearizedControlProblem pb;
  std::vector<TaskItem> t;
  std::unique_ptr<hint::Substitution> hint;
  bool damping;
  static const int SUB = 9;
  World()
  {
    t.reserve(11);
    t.emplace_back(0, 1, V{x, y}, Type::EQUAL);
    t.emplace_back(0, 2, V{x}, Type::GREATER_THAN);
    t.emplace_back(1, 2, V{z, x}, Type::EQUAL);
    t.emplace_back(1, 1, V{y}, Type::EQUAL);
    t.emplace_back(0, 2, V{x}, Type::DOUBLE_SIDED, 1);
    t.emplace_back(2, 1, V{x}, Type::EQUAL);
    t.emplace_back(0, 1, V{y, z}, Type::DOUBLE_SIDED);
    t.emplace_back(0, 1, V{z}, Type::LOWER_THAN, -1);
    t.emplace_back(0, 1, V{q}, Type::GREATER_THAN, 1, true);
    t.emplace_back(0, 1, V{y, z}, Type::EQUAL);
    t.emplace_back(1, 2, V{x}, Type::EQUAL, 1); // could be a bound at the first level
    t[SUB].pivot = "y";
    t[SUB].values();
  }
  using V = std::vector<VariablePtr>;
  void toggle(int i)
  {
    if(t[i].in)
    {
      t[i].remove(pb);
      if(i == SUB) hint.reset();
    }
    else
      t[i].add(pb, i % 2);
  }
  void toggleHint()
  {
    if(hint)
    {
      pb.remove(*hint);
      hint.reset();
    }
    else
    {
      hint = std::make_unique<hint::Substitution>(pb.constraint(*t[SUB].tr), y);
      pb.add(*hint);
    }
  }
};
rec::Problem problem(const std::vector<Lin> & items, const VariableVector & v, bool damping)
{
  std::vector<const Lin *> p;
  bool obj = false;
  for(auto & i : items)
  {
    p.push_back(&i);
    obj |= i.kind == Lin::OBJECTIVE;
  }
  auto e = expected(p, v);
  if(!obj && damping)
    for(int i = 0; i < e.n; ++i) e.ls.push_back(rec::row(MatrixXd::Identity(e.n, e.n), VectorXd::Zero(e.n), i));
  return e;
}
void check(scheme::WeightedLeastSquares & s, World & W, bool mayFail = false)
{
  for(auto & i : W.t) i.values();
  int n = rec::solved;
  std::vector<Lin> items;
  std::vector<VariablePtr> used;
  for(auto & i : W.t)
  {
    if(!i.in || (W.hint && &i == &W.t[W.SUB])) continue;
    items.push_back(W.hint ? replaced(i, W.t[W.SUB], W.y) : i);
    items.back().s = i.p; // the level for now
    for(auto & v : items.back().x)
      if(std::find(used.begin(), used.end(), v) == used.end()) used.push_back(v);
  }
  bool some = std::any_of(W.t.begin(), W.t.end(), [](auto & i) { return i.in; });
  rec::success = !mayFail || sym_bool("success");
  bool ok = rec::success;
  VectorXd before[] = {W.x->value(), W.y->value(), W.z->value(), dot(W.q)->value()};
  VariablePtr all[] = {W.x, W.y, W.z, dot(W.q)};
  bool b = s.solve(W.pb);
  if(!items.empty())
  {
    sym_check(rec::solved == n + 1, "the solver is called once");
    sym_check(b == ok, "the status is that of the solver");
    const auto & v = rec::variables;
    sym_check(v.size() == used.size(), "the variables are those of the tasks");
    for(auto & u : used) sym_check(std::find(v.begin(), v.end(), u) != v.end(), "the variables are those of the tasks");
    scalarize(items);
    rec::compare(rec::last, problem(items, VariableVector(v), W.damping));
    int at = 0;
    for(auto & u : v)
    {
      eqv(u->value(), rec::result.segment(at, u->size()), "the solution is written in the variables");
      at += u->size();
    }
  }
  else
    sym_check(b, "nothing to solve");
  const Lin & S = W.t[W.SUB];
  for(int i = 0; i < 4; ++i)
  {
    if(W.hint && i == 1)
    {
      sym_check_eq(2 * W.y->value()[0] + S.A[1](0, 0) * W.z->value()[0], S.l[0], "the substituted variable satisfies its definition");
      continue;
    }
    if(some && std::find(used.begin(), used.end(), all[i]) == used.end() && !(W.hint && i == 2))
      eqv(all[i]->value(), before[i], "other variables are left untouched");
  }
}
} // namespace
void harness()
{
  World W;
  bool two = sym_choose("two sided", 2);
  W.damping = sym_choose("auto damping", 2);
  scheme::WeightedLeastSquaresOptions opt;
  opt.autoDamping(W.damping);
  scheme::WeightedLeastSquares s1(MockFactory{two}, opt), s2(MockFactory{!two}, opt);
  static const int start[] = {0x00f, 0x2d4, 0x590, 0x3ff, 0x200};
  int st = start[sym_choose("start", 5)];
  int n = W.t.size();
  for(int i = 0; i < n; ++i)
    if(st >> i & 1) W.toggle(i);
  bool h = sym_choose("substitution at first", 2);
  if(h)
  {
    if(!W.t[W.SUB].in) sym_cut("no constraint to substitute");
    W.toggleHint();
  }
  check(s1, W);
  bool both = (sym_tier() || st < 2) && sym_choose("both schemes", 2);
  if(both) check(s2, W);
  for(int k = 0; k < 1 + sym_tier(); ++k)
  {
    for(int j = 0; j < 2 - k; ++j)
    {
      int o = sym_choose("change", n + 4);
      if(o < n) W.toggle(o);
      else if(o == n || o == n + 1)
      {
        for(auto & i : W.t)
          if(i.kind == Lin::OBJECTIVE)
          {
            if(o == n)
              i.weight(sym_real("weight", 0.25, 4));
            else
              i.weight(vec("anisotropic weight", i.m, 0.25, 4));
          }
      }
      else if(o == n + 2)
      {
        if(!W.t[W.SUB].in) sym_cut("no constraint to substitute");
        W.toggleHint();
      }
    }
    check(s1, W);
  }
  check(s2, W, !h && W.damping);
  sym_reach("end");
}
