// P35: the drawings (dot) of a graph show exactly its nodes, updates, outputs and dependencies, and highlight exactly
// what a call graph uses.
#include "vh.h"
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/internal/Logger.h>
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace tvm;
using namespace vf;
using graph::internal::Log;
using graph::internal::Logger;
namespace
{
void freshLog() { const_cast<Log &>(Logger::logger().log()) = Log(); }

class N : public graph::abstract::Node<N>
{
public:
  SET_OUTPUTS(N, O0, O1)
  SET_UPDATES(N, U0, U1)
  N() { registerUpdates(Update::U0, &N::u, Update::U1, &N::w); }
  void u() {}
  void w() {}
  void out(int o, int u) { addOutputDependency<N>(O(o), U(u)); }
  void internal(int u, int v) { addInternalDependency<N>(U(u), U(v)); }
  void input(int u, std::shared_ptr<N> n, int o) { addInputDependency<N>(U(u), n, O(o)); }
  void direct(int o, std::shared_ptr<N> n, int i) { addDirectDependency<N>(O(o), n, O(i)); }
  static Output_ O(int o) { return o ? Output::O1 : Output::O0; }
  static Update_ U(int u) { return u ? Update::U1 : Update::U0; }
};
class D : public N
{
public:
  SET_OUTPUTS(D, O2)
  SET_UPDATES(D, U2)
  D()
  {
    registerUpdates(Update::U2, &D::u2);
    addOutputDependency<D>(Output::O2, Update::U2);
    addInternalDependency<D>(Update::U2, N::Update::U0);
  }
  void u2() {}
};

// what is drawn: kind (input 'i', update 'u', output 'o'), node, number
using Key = std::array<int, 3>;
using Edge = std::pair<Key, Key>;
std::vector<std::shared_ptr<N>> nodes;

struct Drawing
{
  std::map<std::string, Key> ids;
  std::map<Key, std::string> attr; // attributes of the elements
  std::multiset<Edge> edges, marked;
  std::map<int, std::string> cluster; // label of the cluster of a node
  std::vector<std::string> names;
  std::set<std::string> foreign; // elements that are not those of the nodes of the harness
};
int owner(const std::string & id)
{
  for(size_t i = 0; i < nodes.size(); ++i)
    if(id.find(std::to_string(reinterpret_cast<std::uintptr_t>(nodes[i].get()))) != std::string::npos) return (int)i;
  return -1;
}
std::string trim(std::string s)
{
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t;");
  return a == std::string::npos || b == std::string::npos ? "" : s.substr(a, b + 1 - a);
}
std::vector<std::string> lines(const std::string & s)
{
  std::vector<std::string> r;
  for(size_t a = 0; a < s.size();)
  {
    size_t b = s.find('\n', a);
    if(b == std::string::npos) b = s.size();
    r.push_back(s.substr(a, b - a));
    a = b + 1;
  }
  return r;
}
// the name given between quotes
std::string quoted(const std::string & s)
{
  size_t a = s.find('"'), b = s.rfind('"');
  return a == b ? "" : s.substr(a + 1, s.find('"', a + 1) - a - 1);
}
Drawing parse(const std::string & dot)
{
  Drawing d;
  std::string label;
  std::string dflt; // default attributes of the block
  int depth = 0;
  for(auto l : lines(dot))
  {
    l = trim(l);
    size_t arrow = l.find("->"), br = l.find(" [");
    if(l.find("digraph") == 0 || l.empty() || l.find("rank") == 0) continue;
    if(l.find("subgraph") == 0) { ++depth; label = dflt = ""; continue; }
    if(l == "{") { ++depth; continue; }
    if(l == "}") { if(--depth <= 1) dflt = ""; continue; }
    if(l.find("label=") == 0) { label = quoted(l); continue; }
    if(l.find("node [") == 0) { dflt = l; continue; }
    if(arrow != std::string::npos)
    {
      std::string from = trim(l.substr(0, arrow)), to = l.substr(arrow + 2), at;
      if(br != std::string::npos) { at = l.substr(br); to = l.substr(arrow + 2, br - arrow - 2); }
      to = trim(to);
      sym_check(d.ids.count(from) && d.ids.count(to), "the ends of an edge are drawn");
      if(!d.ids.count(from) || !d.ids.count(to)) continue;
      Edge e{d.ids[from], d.ids[to]};
      d.edges.insert(e);
      if(at.find("orange") != std::string::npos) d.marked.insert(e);
      continue;
    }
    if(br == std::string::npos) continue;
    std::string id = trim(l.substr(0, br)), at = l.substr(br), name = quoted(at);
    int o = owner(id);
    if(o < 0) { d.foreign.insert(id); continue; }
    if(!label.empty()) d.cluster[o] = label;
    // outputs and inputs are named O., updates U.
    int kind = !name.empty() && name[0] == 'U' ? 'u' : at.find("diamond") != std::string::npos && at.find("Mdiamond") == std::string::npos || dflt.find("diamond") != std::string::npos ? 'i' : 'o';
    Key k{kind, o, name.size() == 2 ? name[1] - '0' : -1};
    sym_check(!d.ids.count(id), "an identifier is drawn once");
    sym_check(!d.attr.count(k), "an element is drawn once");
    d.ids[id] = k;
    d.attr[k] = at + dflt;
  }
  return d;
}

void drawings()
{
  bool full = sym_tier();
  freshLog();
  nodes.clear();
  std::set<Key> elems;
  std::multiset<Edge> edges;
  std::set<Key> used;
  bool derived = sym_choose("derived", 2);
  const int n = 3;
  auto mk = [&](int i) {
    if(i == 1 && derived)
      nodes.push_back(std::make_shared<D>());
    else
      nodes.push_back(std::make_shared<N>());
    elems.insert({'u', i, 0});
    elems.insert({'u', i, 1});
    if(i == 1 && derived)
    {
      elems.insert({'u', i, 2});
      elems.insert({'o', i, 2});
      edges.insert({{'u', i, 2}, {'o', i, 2}});
      edges.insert({{'u', i, 0}, {'u', i, 2}});
    }
  };
  // in the quick tier, some of the edges are given
  auto edge = [&](Key a, Key b, const char * name, int given = -1) {
    if(given < 0 || full ? !sym_bool(name) : !given) return false;
    elems.insert(a);
    elems.insert(b);
    if(a[1] != b[1]) used.insert(a);
    edges.insert({a, b});
    return true;
  };
  for(int i = 0; i < n; ++i) mk(i);
  for(int i = 0; i < n; ++i)
  {
    auto & N = *nodes[i];
    bool direct = false; // cannot be mixed with dependencies on updates
    if(i > 0)
    {
      if(edge({'o', i - 1, 0}, {'u', i, 0}, "input 0")) N.input(0, nodes[i - 1], 0);
      if(edge({'o', i - 1, 1}, {'u', i, 0}, "input 1", i == 1 && !derived)) N.input(0, nodes[i - 1], 1);
      if(i == 2 && edge({'o', 0, 0}, {'u', i, 1}, "input 2")) N.input(1, nodes[0], 0);
      if(edge({'o', i - 1, 1}, {'o', i, 0}, "direct")) { N.direct(0, nodes[i - 1], 1); direct = true; }
    }
    if(!direct && edge({'u', i, 0}, {'o', i, 0}, "output 0", i == 2 ? -1 : i == 0)) N.out(0, 0);
    if(edge({'u', i, 1}, {'o', i, 1}, "output 1", i == 1 ? -1 : i == 0)) N.out(1, 1);
    if(!direct && edge({'u', i, 1}, {'o', i, 0}, "output 01", i == 2 ? -1 : 0)) N.out(0, 1);
    if(edge({'u', i, 0}, {'u', i, 1}, "internal", i == 1 ? -1 : 0)) N.internal(1, 0);
  }
  // a call graph: it uses the outputs that exist
  auto in = std::make_shared<graph::internal::Inputs>(), in2 = std::make_shared<graph::internal::Inputs>();
  graph::CallGraph g, empty;
  std::vector<Key> roots;
  auto root = [&](std::shared_ptr<graph::internal::Inputs> in, int i, int o, const char * name) {
    if(!sym_bool(name)) return;
    in->addInput(nodes[i], N::O(o));
    Key k{'o', i, o};
    elems.insert(k);
    used.insert(k);
    roots.push_back(k);
  };
  root(in, 2, 0, "root 0");
  root(in, 1, 1, "root 1");
  g.add(in);
  if(full) { root(in2, 0, 1, "root 2"); g.add(in2); }
  // nothing is recorded while the log is disabled
  if((full ? sym_choose("disabled", 2) : derived))
  {
    Logger::logger().disable();
    auto o = std::make_shared<N>();
    o->out(0, 0);
    nodes[0]->internal(0, 1);
    Logger::logger().enable();
  }
  std::set<Key> reached;
  std::vector<Key> todo = roots;
  while(!todo.empty())
  {
    Key k = todo.back();
    todo.pop_back();
    if(!reached.insert(k).second) continue;
    for(auto & e : edges)
      if(e.second == k) todo.push_back(e.first);
  }
  const Log & log = Logger::logger().log();
  auto whole = [&](const std::string & dot, const std::set<Key> & hl) {
    auto d = parse(dot);
    std::set<Key> drawn;
    for(auto & a : d.attr)
    {
      drawn.insert(a.first);
      sym_check((a.second.find("orange") != std::string::npos) == (hl.count(a.first) > 0), "what is used is highlighted");
      if(a.first[0] == 'o')
        sym_check((a.second.find("Mdiamond") != std::string::npos) == (used.count(a.first) > 0), "the outputs used by others are distinguished");
    }
    sym_check(drawn == elems, "the elements are drawn");
    sym_check(d.foreign.empty(), "nothing else is drawn");
    sym_check(d.edges == edges, "the dependencies are drawn");
    std::multiset<Edge> m;
    for(auto & e : edges)
      if(hl.count(e.first) && hl.count(e.second)) m.insert(e);
    sym_check(d.marked == m, "the dependencies between used elements are highlighted");
    for(auto & c : d.cluster)
      sym_check(c.second.size() > 3 && c.second.substr(c.second.size() - 3) == (c.first == 1 && derived ? "::D" : "::N"), "a node is named by its class");
  };
  whole(log.generateDot(), {});
  std::string s = log.generateDot(&g);
  if(roots.empty())
    sym_check(s.empty(), "no drawing for an empty call graph");
  else
    whole(s, reached);
  sym_check(log.generateDot(&empty).empty(), "no drawing for an unknown call graph");
  // what leads to one output
  for(auto & o : log.outputs_)
  {
    if(o.owner.value != reinterpret_cast<std::uintptr_t>(nodes[2].get()) || o.name != "O0") continue;
    std::set<Key> r;
    todo = {{'o', 2, 0}};
    while(!todo.empty())
    {
      Key k = todo.back();
      todo.pop_back();
      if(!r.insert(k).second) continue;
      for(auto & e : edges)
        if(e.second == k) todo.push_back(e.first);
    }
    auto [os, us] = log.subGraph(o);
    whole(log.generateDot(os, us), r);
    sym_check(os.size() + us.size() == r.size(), "each used element is listed once");
    break;
  }
  // the drawing of a node
  for(int i = 0; i < n; ++i)
  {
    auto dot = i == 1 && derived ? log.generateDot(static_cast<D *>(nodes[i].get())) : log.generateDot(nodes[i].get());
    auto d = parse(dot);
    std::set<Key> drawn, expect;
    for(auto & a : d.attr) drawn.insert(a.first);
    std::multiset<Edge> ee;
    for(auto & k : elems)
      if(k[1] == i) expect.insert(k);
    for(auto e : edges)
      if(e.second[1] == i)
      {
        if(e.first[1] != i) e.first[0] = 'i';
        expect.insert(e.first);
        ee.insert(e);
      }
    sym_check(drawn == expect, "node: the elements are drawn");
    sym_check(d.foreign.empty(), "node: nothing else is drawn");
    sym_check(d.edges == ee, "node: the dependencies are drawn");
  }
  sym_reach(derived ? "drawings, derived" : "drawings");
}
} // namespace
void harness() { drawings(); }
