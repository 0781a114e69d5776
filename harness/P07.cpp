// P07: order, components and reduction of every dependency graph (symbolic adjacency matrix), before and after
// removal of nodes.
#include "vh.h"
#include <algorithm>
#include <tvm/graph/internal/DependencyGraph.h>
using namespace tvm::graph::internal;
using namespace vf;
namespace
{
using Adj = std::vector<std::vector<char>>;
Adj closure(Adj a)
{
  size_t n = a.size();
  for(size_t k = 0; k < n; ++k)
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j) a[i][j] = a[i][j] || (a[i][k] && a[k][j]);
  return a;
}
void check(const DependencyGraph & g, const Adj & a)
{
  size_t n = a.size();
  Adj r = closure(a);
  bool cycle = false;
  for(size_t i = 0; i < n; ++i) cycle = cycle || r[i][i];
  sym_check(g.size() == n, "number of nodes");
  size_t ne = 0;
  for(size_t i = 0; i < n; ++i)
    for(size_t j = 0; j < n; ++j)
      if(a[i][j])
      {
        ++ne;
        sym_check(g.edges().count({i, j}) == 1, "edges are those added and not removed");
      }
  sym_check(g.edges().size() == ne, "edges are those added and not removed");

  std::vector<size_t> order;
  bool t = throws([&] { order = g.order(); });
  sym_check(t == cycle, "an error is raised exactly when the graph has a cycle");
  std::vector<std::vector<size_t>> groups;
  bool tg = throws([&] { groups = g.groupedOrder(); });
  sym_check(tg == cycle, "an error is raised exactly when the graph has a cycle (grouped order)");
  if(cycle) sym_reach("cycle");
  if(!cycle && !t)
  {
    std::vector<int> at(n, -1);
    sym_check(order.size() == n, "each node is ordered once");
    for(size_t i = 0; i < order.size(); ++i)
    {
      sym_check(order[i] < n && at[order[i]] < 0, "each node is ordered once");
      if(order[i] < n) at[order[i]] = (int)i;
    }
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
        if(a[i][j]) sym_check(at[j] >= 0 && at[i] > at[j], "a node comes after those it depends on");
    sym_reach("order");
  }
  if(!cycle && !tg)
  {
    // weakly connected components
    Adj u = a;
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j) u[i][j] = a[i][j] || a[j][i];
    u = closure(u);
    std::vector<int> at(n, -1), gr(n, -1);
    size_t cnt = 0;
    for(size_t k = 0; k < groups.size(); ++k)
    {
      sym_check(!groups[k].empty(), "groups are not empty");
      for(size_t i = 0; i < groups[k].size(); ++i)
      {
        size_t v = groups[k][i];
        sym_check(v < n && gr[v] < 0, "each node is in one group");
        if(v >= n) return;
        gr[v] = (int)k;
        at[v] = (int)i;
        ++cnt;
      }
    }
    sym_check(cnt == n, "each node is in one group");
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
      {
        if(i != j) sym_check((gr[i] == gr[j]) == (bool)u[i][j], "groups are the connected components");
        if(a[i][j]) sym_check(at[i] > at[j], "a node comes after those it depends on, in its group");
      }
  }
  // strongly connected components and reduced graph
  auto red = g.reduce();
  std::vector<int> scc(n, -1);
  size_t cnt = 0;
  for(size_t k = 0; k < red.first.size(); ++k)
    for(size_t v : red.first[k])
    {
      sym_check(v < n && scc[v] < 0, "each node is in one strongly connected component");
      if(v >= n) return;
      scc[v] = (int)k;
      ++cnt;
    }
  sym_check(cnt == n, "each node is in one strongly connected component");
  sym_check(red.second.size() == red.first.size(), "one node of the reduced graph per component");
  std::set<std::pair<size_t, size_t>> e;
  for(size_t i = 0; i < n; ++i)
    for(size_t j = 0; j < n; ++j)
    {
      if(i != j)
        sym_check((scc[i] == scc[j]) == (r[i][j] && r[j][i]), "same component exactly when each node reaches the other");
      if(a[i][j] && scc[i] != scc[j]) e.insert({(size_t)scc[i], (size_t)scc[j]});
    }
  sym_check(e == red.second.edges(), "edges of the reduced graph");
  sym_check(!throws([&] { red.second.order(); }), "the reduced graph can be ordered");
}
} // namespace
void harness()
{
  int mode = sym_choose("mode", 3);
  int n = mode == 0 ? (sym_tier() ? 5 : 4) : 3;
  bool self = mode != 0, reverse = sym_choose("reverse", 2);
  DependencyGraph g;
  Adj a(n, std::vector<char>(n, 0));
  for(int i = 0; i < n; ++i) sym_check(g.addNode() == (size_t)i, "nodes are numbered in order");
  for(int k = 0; k < n * n; ++k)
  {
    int q = reverse ? n * n - 1 - k : k;
    int i = q / n, j = q % n;
    if(!self && i == j) continue;
    if(sym_bool("edge"))
    {
      sym_check(g.addEdge(i, j), "a new edge is added");
      sym_check(!g.addEdge(i, j), "an edge is added once");
      a[i][j] = 1;
    }
  }
  if(mode == 1)
  {
    size_t id = (size_t)sym_conc(sym_int("removed", 0, n - 1));
    g.removeNode(id);
    a.erase(a.begin() + id);
    for(auto & l : a) l.erase(l.begin() + id);
    // then a new node, with new edges
    size_t m = g.addNode();
    sym_check(m == a.size(), "nodes are numbered in order");
    for(auto & l : a) l.push_back(0);
    a.push_back(std::vector<char>(a.size() + 1, 0));
    if(sym_bool("to"))
    {
      g.addEdge(0, m);
      a[0][m] = 1;
    }
    if(sym_bool("from"))
    {
      g.addEdge(m, 1);
      a[m][1] = 1;
    }
    sym_reach("removal");
  }
  if(mode == 2 && sym_choose("clear", 2))
  {
    g.clear();
    a.clear();
  }
  check(g, a);
}
