// P33: the probes of the computation graph report the current values of the outputs, and follow their dependencies.
#include "vh.h"
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/diagnostic/GraphProbe.h>
#include <tvm/diagnostic/matrix.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/internal/Logger.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
using namespace tvm;
using namespace vf;
using diagnostic::GraphProbe;
using graph::internal::Log;
namespace
{
void freshLog() { const_cast<Log &>(graph::internal::Logger::logger().log()) = Log(); }

class N : public graph::abstract::Node<N>
{
public:
  SET_OUTPUTS(N, O0, O1)
  SET_UPDATES(N, U0, U1)
  N(int id) : id_(id)
  {
    registerUpdates(Update::U0, &N::u, Update::U1, &N::w);
    out(1, 1);
    for(auto & v : val) v = vec("value", 1, -5, 5);
  }
  void u() {}
  void w() {}
  Eigen::VectorXd o0() const { return val[0]; }
  const Eigen::VectorXd & o1() const { return val[1]; }
  void out(int o, int u) { addOutputDependency<N>(O(o), U(u)); }
  void internal(int u, int v) { addInternalDependency<N>(U(u), U(v)); }
  void input(int u, std::shared_ptr<N> n, int o) { addInputDependency<N>(U(u), n, O(o)); }
  void direct(int o, std::shared_ptr<N> n, int i) { addDirectDependency<N>(O(o), n, O(i)); }
  static Output_ O(int o) { return o ? Output::O1 : Output::O0; }
  static Update_ U(int u) { return u ? Update::U1 : Update::U0; }
  int id_;
  Eigen::VectorXd val[2];
};
// a derived class with an output of its own, whose base outputs are retrieved in another way
class D : public N
{
public:
  SET_OUTPUTS(D, O2)
  SET_UPDATES(D, U2)
  D(int id) : N(id)
  {
    registerUpdates(Update::U2, &D::u2);
    addOutputDependency<D>(Output::O2, Update::U2);
    addInternalDependency<D>(Update::U2, N::Update::U0);
  }
  void u2() {}
  Eigen::VectorXd d0() const { return 2 * val[0]; }
};

using Key = std::array<int, 3>; // 0: output, 1: update; node; id
struct Model
{
  std::map<Key, std::vector<Key>> dep;
  bool registered[3][2]; // accessors
  double value[3][2];
};
std::vector<std::shared_ptr<N>> nodes;
Key key(const GraphProbe::ProbeNode & p)
{
  bool u = p.val.index() == 1;
  auto own = u ? mpark::get<GraphProbe::Update>(p.val).owner.value : mpark::get<GraphProbe::Output>(p.val).owner.value;
  int id = u ? mpark::get<GraphProbe::Update>(p.val).id.value : mpark::get<GraphProbe::Output>(p.val).id.value;
  for(size_t i = 0; i < nodes.size(); ++i)
    if(reinterpret_cast<std::uintptr_t>(nodes[i].get()) == own) return {u, (int)i, id};
  sym_check(false, "a node of the tree is a node of the graph");
  return {u, -1, id};
}
int keyOf(const Log::Output & o)
{
  for(size_t i = 0; i < nodes.size(); ++i)
    if(reinterpret_cast<std::uintptr_t>(nodes[i].get()) == o.owner.value) return 2 * i + o.id.value;
  return -1;
}
void reach(const Model & m, Key k, const std::function<bool(Key)> & through, std::set<Key> & r)
{
  if(!r.insert(k).second || !through(k)) return;
  auto it = m.dep.find(k);
  if(it != m.dep.end())
    for(auto d : it->second) reach(m, d, through, r);
}
void collect(const GraphProbe::ProbeNode & p, std::map<Key, int> & expanded, std::set<Key> & seen, const Model & m)
{
  Key k = key(p);
  seen.insert(k);
  auto it = m.dep.find(k);
  std::vector<Key> d = it == m.dep.end() ? std::vector<Key>{} : it->second, c;
  for(auto & q : p.children) c.push_back(key(*q));
  std::sort(d.begin(), d.end());
  std::sort(c.begin(), c.end());
  if(!c.empty())
  {
    sym_check(c == d, "the children are the dependencies");
    ++expanded[k];
  }
  for(auto & q : p.children) collect(*q, expanded, seen, m);
}
void checkTree(const GraphProbe::ProbeNode & p, Key root, const Model & m, const std::function<bool(Key)> & sel)
{
  std::map<Key, int> expanded;
  std::set<Key> seen, r;
  sym_check(key(p) == root, "the tree starts at the output");
  collect(p, expanded, seen, m);
  reach(m, root, sel, r);
  sym_check(seen == r, "the tree covers what can be reached through selected values");
  for(auto k : r)
  {
    bool has = sel(k) && m.dep.count(k) && !m.dep.at(k).empty();
    sym_check((expanded.count(k) ? expanded[k] : 0) == (has ? 1 : 0), "what is selected is followed, once");
  }
}

void topology()
{
  freshLog();
  nodes.clear();
  Model m;
  int n = 3;
  bool full = sym_tier();
  bool derived = sym_choose("derived", 2);
  for(int i = 0; i < n; ++i)
  {
    if(i == 1 && derived)
      nodes.push_back(std::make_shared<D>(i));
    else
      nodes.push_back(std::make_shared<N>(i));
  }
  auto add = [&](Key a, Key b) {
    auto & v = m.dep[a];
    if(std::find(v.begin(), v.end(), b) == v.end()) v.push_back(b);
  };
  for(int i = 0; i < n; ++i)
  {
    auto & N = *nodes[i];
    // the inputs
    if(i > 0)
    {
      int k = full ? sym_choose("input", i == 2 ? 5 : 3) : 1 + sym_choose("input", i == 2 ? 4 : 2);
      if(k == 1 || k == 4)
      {
        N.input(0, nodes[i - 1], 0);
        add({1, i, 0}, {0, i - 1, 0});
      }
      if(k == 2)
      {
        N.input(0, nodes[i - 1], 1);
        add({1, i, 0}, {0, i - 1, 1});
        N.input(1, nodes[i - 1], 1);
        add({1, i, 1}, {0, i - 1, 1});
      }
      if(k >= 3)
      {
        N.input(1, nodes[0], 1);
        add({1, i, 1}, {0, 0, 1});
      }
    }
    // the outputs
    int o = sym_choose("outputs", i == 0 ? 2 : 3);
    if(o == 2)
    {
      int dd = sym_choose("direct", 2);
      N.direct(0, nodes[i - 1], dd);
      add({0, i, 0}, {0, i - 1, dd});
    }
    else
    {
      N.out(0, 0);
      add({0, i, 0}, {1, i, 0});
      if(o == 1)
      {
        N.out(0, 1);
        add({0, i, 0}, {1, i, 1});
      }
    }
    add({0, i, 1}, {1, i, 1});
    if(i != 1 && full ? sym_choose("internal", 2) : i == 2 ? derived : o == 1)
    {
      N.internal(1, 0);
      add({1, i, 1}, {1, i, 0});
    }
  }
  GraphProbe gp;
  bool all = full ? sym_choose("all accessors", 2) : !derived;
  gp.registerAccessor<N>(N::Output::O0, &N::o0);
  if(all) gp.registerAccessor<N>(N::Output::O1, &N::o1);
  if(derived) gp.registerAccessor<D>(N::Output::O0, &D::d0);
  auto value = [&](Key k) {
    return k[2] == 0 && k[1] == 1 && derived ? 2 * nodes[k[1]]->val[0][0] : nodes[k[1]]->val[k[2]][0];
  };
  auto always = [](Key) { return true; };

  // the values
  auto in = std::make_shared<graph::internal::Inputs>();
  int req = full ? sym_choose("requested", 4) : 3 * sym_choose("requested", 2);
  std::vector<Key> roots;
  if(req == 0 || req == 3)
  {
    in->addInput(nodes[2], N::Output::O0);
    roots.push_back({0, 2, 0});
  }
  if(req == 1 || req == 3)
  {
    in->addInput(nodes[2], N::Output::O1);
    roots.push_back({0, 2, 1});
  }
  if(req == 2 || req == 3)
  {
    in->addInput(nodes[1], N::Output::O1);
    roots.push_back({0, 1, 1});
  }
  graph::CallGraph g;
  g.add(in);
  auto checkList = [&](const std::vector<GraphProbe::OutputVal> & l, const std::vector<Key> & from) {
    std::set<Key> r;
    for(auto k : from) reach(m, k, always, r);
    std::map<int, int> count;
    for(auto & v : l)
    {
      int k = keyOf(std::get<0>(v));
      sym_check(k >= 0 && std::get<1>(v) == nullptr, "the output is one of the graph");
      ++count[k];
      auto & M = std::get<2>(v);
      sym_check(M.rows() == 1 && M.cols() == 1, "the size of the value");
      sym_check_eq(M(0, 0), value({0, k / 2, k % 2}), "the value reported is the current one");
    }
    for(int i = 0; i < n; ++i)
      for(int o = 0; o < 2; ++o)
      {
        Key k{0, i, o};
        int c = count.count(2 * i + o) ? count[2 * i + o] : 0;
        sym_check(c == (r.count(k) && (all || o == 0) ? 1 : 0), "the values listed are those of the graph, once each");
      }
  };
  checkList(gp.listOutputVal(&g), roots);
  for(auto & v : nodes[0]->val) v = vec("new value", 1, -5, 5); // no copy is kept
  checkList(gp.listOutputVal(&g), roots);

  // following up
  double lo = sym_real("lo", 0, 2), hi = sym_real("hi", 1, 6);
  auto sel = [&](Key k) {
    if(k[0]) return true;
    if(!all && k[2]) return false; // unknown values stop the search
    double v = value(k);
    v = v < 0 ? -v : v;
    return lo <= v && v <= hi;
  };
  auto select = GraphProbe::absInRange(lo, hi);
  auto t = gp.followUp(&g, select);
  size_t i = 0;
  for(auto k : roots)
    if(sel(k))
    {
      sym_check(i < t.size(), "there is a tree for each selected input");
      bool found = false;
      for(auto & q : t)
        if(key(*q) == k)
        {
          sym_check(!found, "only one");
          found = true;
          checkTree(*q, k, m, sel);
        }
      sym_check(found, "there is a tree for the selected input");
      ++i;
    }
  sym_check(i == t.size(), "there is no other tree");
  const auto & outs = graph::internal::Logger::logger().log().outputs_;
  for(auto & o : outs)
    if(keyOf(o) == 2 * roots[0][1] + roots[0][2])
    {
      if(o.id.type != std::type_index(typeid(N::Output::O0))) continue;
      checkList(gp.listOutputVal(o), {roots[0]});
      checkTree(*gp.followUp(o, select), roots[0], m, sel);
      checkTree(*gp.followUp(o), roots[0], m, [&](Key k) { return k[0] || all || !k[2]; });
      break;
    }
  sym_reach(derived ? "topology, derived" : "topology");
}

// the classes of the library
template<typename T>
std::uintptr_t addr(const std::shared_ptr<T> & p)
{ return reinterpret_cast<std::uintptr_t>(p.get()); }
void problem()
{
  freshLog();
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y");
  x->set(vec("x", 2));
  y->set(vec("y", 1));
  bool two = sym_choose("order", 2); // task of order one or two
  auto f = std::make_shared<function::BasicLinearFunction>(std::vector<MatrixConstRef>{mat("A", 1, 2), mat("B", 1, 1)},
                                                           std::vector<VariablePtr>{x, y}, vec("b", 1));
  auto idf = std::make_shared<function::IdentityFunction>(x);
  for(auto & v : {x, y}) dot(v)->set(vec("v", v->size()));
  static const constraint::Type types[] = {constraint::Type::EQUAL, constraint::Type::LOWER_THAN, constraint::Type::GREATER_THAN,
                                           constraint::Type::DOUBLE_SIDED};
  auto ty = types[sym_choose("type", 4)];
  double kp = sym_real("kp", 1, 3), kv = sym_real("kv", 1, 3);
  VectorXd l = vec("l", 1), u = vec("u", 1);
  LinearizedControlProblem pb;
  auto make = [&](const task_dynamics::abstract::TaskDynamics & td) {
    return ty == constraint::Type::DOUBLE_SIDED ? Task(f, ty, td, l, u) : Task(f, ty, td, l);
  };
  auto t = pb.add(two ? make(task_dynamics::PD(kp, kv)) : make(task_dynamics::P(kp)), {requirements::PriorityLevel(0)});
  auto c = pb.constraint(*t);
  std::shared_ptr<constraint::abstract::LinearConstraint> c2;
  if(sym_choose("second task", 2))
    c2 = pb.constraint(*pb.add(Task(idf, constraint::Type::GREATER_THAN, task_dynamics::P(kp), vec("m", 2)), {requirements::PriorityLevel(0)}));
  pb.update();
  GraphProbe gp;
  auto lst = gp.listOutputVal(&pb.updateGraph());
  using C = constraint::abstract::Constraint;
  using F = function::abstract::Function;
  using T = task_dynamics::abstract::TaskDynamicsImpl;
  bool ds = ty == constraint::Type::DOUBLE_SIDED;
  std::map<std::pair<std::uintptr_t, std::string>, std::vector<std::pair<VariablePtr, MatrixXd>>> exp;
  auto cst = [&](const std::shared_ptr<constraint::abstract::LinearConstraint> & k) {
    auto p = std::dynamic_pointer_cast<constraint::internal::LinearizedTaskConstraint>(k);
    auto a = addr(p);
    for(auto & v : k->variables()) exp[{a, "Jacobian"}].push_back({v, k->jacobian(*v)});
    if(k->type() == constraint::Type::EQUAL) exp[{a, "E"}].push_back({nullptr, k->e()});
    if(k->type() == constraint::Type::LOWER_THAN || k->type() == constraint::Type::DOUBLE_SIDED) exp[{a, "U"}].push_back({nullptr, k->u()});
    if(k->type() == constraint::Type::GREATER_THAN || k->type() == constraint::Type::DOUBLE_SIDED) exp[{a, "L"}].push_back({nullptr, k->l()});
  };
  cst(c);
  if(c2) cst(c2);
  auto fun = [&](const std::shared_ptr<function::abstract::LinearFunction> & g, bool second) {
    exp[{addr(g), "B"}].push_back({nullptr, g->b()});
    exp[{addr(g), "Value"}].push_back({nullptr, g->value()});
    for(auto & v : g->variables()) exp[{addr(g), "Jacobian"}].push_back({v, g->jacobian(*v)});
    if(second)
    {
      exp[{addr(g), "Velocity"}].push_back({nullptr, g->velocity()});
      exp[{addr(g), "NormalAcceleration"}].push_back({nullptr, g->normalAcceleration()});
    }
  };
  fun(f, two);
  if(c2) fun(idf, false);
  std::map<std::pair<std::uintptr_t, std::string>, size_t> cnt;
  int dyn = 0;
  for(auto & v : lst)
  {
    auto & o = std::get<0>(v);
    std::string nm = o.name;
    auto it = exp.find({o.owner.value, nm});
    if(it == exp.end())
    {
      ++dyn;
      sym_check(nm == "Value", "the other values are those of the task dynamics"); // and they are checked through the constraints
      VectorXd ref = -kp * (f->value() - l);
      if(two) ref = ref - kv * f->velocity();
      if(!c2 && !ds) eqv(std::get<2>(v), ref, "the value of the task dynamics");
      continue;
    }
    ++cnt[{o.owner.value, nm}];
    bool found = false;
    for(auto & e : it->second)
      if(e.first == std::get<1>(v))
      {
        found = true;
        eqv(std::get<2>(v), e.second, "the value reported is that of the object");
      }
    sym_check(found, "the variable is one of the object");
  }
  sym_check(dyn == 1 + (ds ? 1 : 0) + (c2 ? 1 : 0), "the values of the task dynamics are listed");
  for(auto & e : exp) sym_check(cnt[e.first] == e.second.size(), "all the values are listed once");
  auto roots = gp.followUp(&pb.updateGraph());
  size_t nr = 0;
  for(auto & k : {c, c2})
    if(k) nr += 1 + (k->type() == constraint::Type::DOUBLE_SIDED ? 2 : 1);
  sym_check(roots.size() == nr, "there is a root by output that the problem uses");
  sym_reach(two ? "second order" : "first order");
}

void matrices()
{
  // is an address that of an element of a (part of a) matrix
  int r = anyInt("rows", 4), c = anyInt("cols", 4), rs = 1 + anyInt("row stride", 3);
  int cs = sym_conc(sym_int("column stride", 1, 9));
  sym_assume(cs >= r * rs || (c <= 1 && cs >= 1));
  if(cs < r * rs) cs = r * rs;
  if(cs == 0) cs = 1;
  double data[64];
  using S = Eigen::Stride<-1, -1>;
  Eigen::Map<MatrixXd, 0, S> M(data + 16, r, c, S(cs, rs));
  int d = sym_int("address", -8, 40);
  bool in = false;
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j) in = in | (d == i * rs + j * cs);
  sym_check(diagnostic::isInMatrix(static_cast<const double *>(data + 16 + d), M) == in, "isInMatrix");
  MatrixXd A = mat("A", 2, 2, -3, 3);
  double lo = sym_real("lo", -1, 3), hi = sym_real("hi", -1, 3);
  bool e = false;
  for(int i = 0; i < 4; ++i)
  {
    double v = A(i / 2, i % 2);
    if(v < 0) v = -v;
    e = e || (lo <= v && v <= hi);
  }
  sym_check(GraphProbe::absInRange(lo, hi)(A) == e, "absInRange");
  sym_reach("matrices");
}
} // namespace
void harness()
{
  switch(sym_choose("mode", 3))
  {
    case 0: topology(); break;
    case 1: problem(); break;
    case 2: matrices(); break;
  }
}
