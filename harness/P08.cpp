// P08: plans built by CallGraph from every pattern of output, internal, input and direct dependencies.
#include "vh.h"
#include <algorithm>
#include <map>
#include <set>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
using namespace tvm::graph;
using namespace vf;
namespace
{
using UId = std::pair<int, int>; // node, update
using OId = std::pair<int, int>; // node, output
std::vector<UId> trace;

class Src : public abstract::Outputs
{
public:
  SET_OUTPUTS(Src, S0, S1)
};

class N : public abstract::Node<N>
{
public:
  SET_OUTPUTS(N, O0, O1)
  SET_UPDATES(N, U0, U1, U2)
  N(int id) : id_(id)
  { registerUpdates(Update::U0, &N::u0, Update::U1, &N::u1, Update::U2, &N::u2); }
  void u0() { trace.push_back({id_, 0}); }
  void u1() { trace.push_back({id_, 1}); }
  void u2() { trace.push_back({id_, 2}); }
  void out(int o, int u) { addOutputDependency<N>(O(o), U(u)); }
  void internal(int u, int v) { addInternalDependency<N>(U(u), U(v)); }
  void input(int u, std::shared_ptr<N> n, int o) { addInputDependency<N>(U(u), n, O(o)); }
  void inputRef(int u, N & n, int o) { addInputDependency<N>(U(u), n, O(o)); }
  void input(int u, std::shared_ptr<Src> n) { addInputDependency<N>(U(u), n, Src::Output::S1); }
  void direct(int o, std::shared_ptr<N> n, int i)
  {
    if(o == i) addDirectDependency<N>(O(o), *n, O(i)); // given by reference, or by pointer
    else addDirectDependency<N>(O(o), n, O(i));
  }
  static Output_ O(int o) { return o ? Output::O1 : Output::O0; }
  static Update_ U(int u) { return u == 0 ? Update::U0 : u == 1 ? Update::U1 : Update::U2; }
  int id_;
};
// Derived class with its own update and output
class D : public N
{
public:
  SET_OUTPUTS(D, O2)
  SET_UPDATES(D, U3)
  D(int id) : N(id)
  {
    registerUpdates(Update::U3, &D::u3);
    addOutputDependency<D>(Output::O2, Update::U3);
    addInternalDependency<D>(Update::U3, N::Update::U1);
  }
  void u3() { trace.push_back({id_, 3}); }
};

struct Model
{
  std::map<OId, std::set<UId>> out;
  std::map<UId, std::set<UId>> intern;
  std::map<UId, std::set<OId>> input;
  std::map<OId, OId> direct;
  std::set<UId> ofOutput(OId o) const
  {
    auto d = direct.find(o);
    if(d != direct.end()) return ofOutput(d->second);
    auto it = out.find(o);
    return it == out.end() ? std::set<UId>{} : it->second;
  }
  std::set<UId> preds(UId u) const
  {
    std::set<UId> r;
    if(intern.count(u))
      for(auto v : intern.at(u)) r.insert(v);
    if(input.count(u))
      for(auto o : input.at(u))
        for(auto v : ofOutput(o)) r.insert(v);
    return r;
  }
  std::set<UId> needed(const std::set<OId> & req) const
  {
    std::set<UId> r;
    std::vector<UId> todo;
    for(auto o : req)
      for(auto u : ofOutput(o)) todo.push_back(u);
    while(!todo.empty())
    {
      auto u = todo.back();
      todo.pop_back();
      if(!r.insert(u).second) continue;
      for(auto v : preds(u)) todo.push_back(v);
    }
    return r;
  }
  bool reaches(UId a, UId b) const
  {
    std::set<UId> seen;
    std::vector<UId> todo{a};
    while(!todo.empty())
    {
      auto u = todo.back();
      todo.pop_back();
      for(auto v : preds(u))
      {
        if(v == b) return true;
        if(seen.insert(v).second) todo.push_back(v);
      }
    }
    return false;
  }
};

void check(CallGraph & g, const Model & m, const std::set<OId> & req)
{
  auto need = m.needed(req);
  bool cycle = false;
  for(auto u : need) cycle = cycle || m.reaches(u, u);
  bool t = throws([&] { g.update(); });
  sym_check(t == cycle, "building the plan fails exactly when the needed updates depend cyclically on one another");
  if(t)
  {
    sym_reach("cycle");
    return;
  }
  for(int k = 0; k < 2; ++k)
  {
    trace.clear();
    g.execute();
    std::map<UId, int> at;
    for(size_t i = 0; i < trace.size(); ++i)
    {
      sym_check(at.count(trace[i]) == 0, "an update runs once");
      sym_check(need.count(trace[i]) == 1, "an update that nothing needs is not run");
      at[trace[i]] = (int)i;
    }
    for(auto u : need)
    {
      sym_check(at.count(u) == 1, "a needed update is run");
      for(auto v : m.preds(u))
        sym_check(at.count(v) && at.count(u) && at[v] < at[u], "an update is run after those it depends on");
    }
  }
  sym_reach("executed");
}
} // namespace

void harness()
{
  Model m;
  std::vector<std::shared_ptr<N>> n;
  auto node = [&] { n.push_back(std::make_shared<N>((int)n.size())); };
  auto out = [&](int i, int o, int u) {
    n[i]->out(o, u);
    m.out[{i, o}].insert({i, u});
  };
  auto internal = [&](int i, int u, int v) {
    n[i]->internal(u, v);
    m.intern[{i, u}].insert({i, v});
  };
  auto input = [&](int i, int u, int j, int o) {
    if(o)
      n[i]->inputRef(u, *n[j], o);
    else
      n[i]->input(u, n[j], o);
    m.input[{i, u}].insert({j, o});
  };
  auto direct = [&](int i, int o, int j, int p) {
    n[i]->direct(o, n[j], p);
    m.direct[{i, o}] = {j, p};
  };
  std::set<OId> req;
  auto in = std::make_shared<internal::Inputs>();
  auto request = [&](internal::Inputs & I, int i, int o) {
    I.addInput(n[i], N::O(o));
    req.insert({i, o});
  };
  CallGraph g;
  switch(sym_choose("mode", 5))
  {
    case 0: // one node: outputs and internal dependencies
    {
      node();
      if(sym_bool("o0u0")) out(0, 0, 0);
      if(sym_bool("o0u1")) out(0, 0, 1);
      out(0, 1, 2);
      for(int u = 0; u < 3; ++u)
        for(int v = 0; v < 3; ++v)
          if((sym_tier() || u != v) && sym_bool("internal")) internal(0, u, v);
      if(sym_bool("r0")) request(*in, 0, 0);
      if(sym_bool("r1")) request(*in, 0, 1);
      g.add(in);
      check(g, m, req);
      break;
    }
    case 1: // three nodes, inputs of each update
    {
      for(int i = 0; i < 3; ++i) node();
      for(int i = 0; i < 3; ++i)
      {
        out(i, 0, 0);
        out(i, 1, 1);
        if(i < 2 && sym_bool("internal")) internal(i, 0, 1);
      }
      for(int i = 1; i < 3; ++i)
        for(int j = 0; j < i; ++j)
          for(int u = 0; u < 2; ++u)
            for(int o = 0; o < 2; ++o)
              if((i != 2 || j != 0 || u == o || sym_tier()) && sym_bool("input")) input(i, u, j, o);
      if(sym_bool("back")) input(0, 1, 2, 1);
      request(*in, 2, 0);
      g.add(in);
      check(g, m, req);
      break;
    }
    case 2: // direct dependencies
    {
      for(int i = 0; i < 4; ++i) node();
      out(0, 0, 0);
      out(0, 1, 1);
      if(sym_bool("internal")) internal(0, 1, 0);
      // outputs of 1 and 2 come directly from elsewhere
      direct(1, 0, 0, sym_choose("a", 2));
      if(sym_bool("o1"))
        direct(1, 1, 0, sym_choose("b", 2));
      else
        out(1, 1, 2);
      int c = sym_choose("c", 4);
      direct(2, 0, c / 2, c % 2);
      out(2, 1, 0);
      int d = sym_choose("d", 6);
      out(3, 0, 0);
      input(3, 0, d / 2, d % 2);
      int e = sym_choose("e", 6);
      input(3, 0, e / 2, e % 2);
      request(*in, 3, 0);
      if(sym_bool("r")) request(*in, 2, 0);
      g.add(in);
      check(g, m, req);
      break;
    }
    case 3: // graph built incrementally from several inputs, cleared, rebuilt
    {
      for(int i = 0; i < 3; ++i) node();
      for(int i = 0; i < 3; ++i)
      {
        out(i, 0, 0);
        out(i, 1, 1);
        if((i < 2 || sym_tier()) && sym_bool("int01")) internal(i, 0, 1);
        if(i > 0 && sym_bool("in")) input(i, 1, i - 1, sym_choose("o", 2));
      }
      int nadd = sym_choose("n", 2) + 1;
      if(sym_tier() && sym_choose("empty", 2)) check(g, m, req);
      for(int k = 0; k < nadd; ++k)
      {
        auto I = std::make_shared<internal::Inputs>();
        int r = (sym_tier() || k == 0) ? sym_choose("r", 6) : 2 * sym_choose("r", 3);
        request(*I, r / 2, r % 2);
        g.add(I);
        if(k == 0 && sym_choose("twice", 2)) g.add(I);
        if(k == nadd - 1 || sym_choose("between", 2)) check(g, m, req);
      }
      if(sym_choose("clear", 2))
      {
        g.clear();
        req.clear();
        if(sym_choose("rebuild", 2))
        {
          auto I = std::make_shared<internal::Inputs>();
          int r = sym_tier() ? sym_choose("r", 6) : 2 * sym_choose("r", 3) + 1;
          request(*I, r / 2, r % 2);
          g.add(I);
          sym_reach("rebuilt");
        }
        check(g, m, req);
      }
      break;
    }
    default: // derived node, plain sources
    {
      auto d = std::make_shared<D>(0);
      n.push_back(d);
      node();
      m.out[{0, 2}].insert({0, 3});
      m.intern[{0, 3}].insert({0, 1});
      out(0, 0, 0);
      if(sym_bool("int10")) internal(0, 1, 0);
      if(sym_bool("int02")) internal(0, 0, 2);
      out(1, 0, 0);
      if(sym_bool("base")) input(1, 0, 0, 0);
      auto s = std::make_shared<Src>();
      if(sym_bool("src")) n[1]->input(0, s);
      if(sym_bool("rs")) in->addInput(s, Src::Output::S0, Src::Output::S1);
      if(sym_bool("rd"))
      {
        in->addInput(d, D::Output::O2);
        req.insert({0, 2});
      }
      if(sym_bool("rb")) request(*in, 0, 0);
      if(sym_bool("r1")) request(*in, 1, 0);
      g.add(in);
      check(g, m, req);
    }
  }
}
