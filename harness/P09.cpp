// P09: enabling of outputs (static, dynamic, locked) along class hierarchies, and recording of declared inputs.
#include "vh.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>
using namespace tvm::graph;
using namespace tvm::graph::abstract;
using namespace vf;
namespace
{
class A : public Node<A>
{
public:
  SET_OUTPUTS(A, O0, O1, O2)
  SET_UPDATES(A, Up, Uq)
  A() {}
};
class B : public A
{
public:
  SET_OUTPUTS(B, O3, O4)
  SET_UPDATES(B, Ur)
  DISABLE_OUTPUTS(A::Output::O1, B::Output::O4)
  DISABLE_UPDATES(A::Update::Uq)
  void up() {}
  template<typename E>
  bool reg(E e)
  { return !throws([&] { registerUpdates(e, &B::up); }); }
  template<typename E>
  bool outDep(E e)
  { return !throws([&] { addOutputDependency<B>(e, A::Update::Up); }); }
  template<typename E>
  bool intDep(E e, E f)
  { return !throws([&] { addInternalDependency<B>(e, f); }); }
  const std::map<int, std::vector<int>> & od() const { return outputDependencies_; }
};
// selector directly above its provider
class C : public OutputSelector<B>
{
public:
  template<typename... E>
  bool en(E... e)
  { return !throws([&] { enableOutput(e...); }); }
  template<typename... E>
  bool dis(E... e)
  { return !throws([&] { disableOutput(e...); }); }
};
class D : public C
{
public:
  SET_OUTPUTS(D, O5, O6)
};
// second selector in the chain, sharing the members of the first
class E : public OutputSelector<D>
{
public:
  template<typename... T>
  bool en(T... e)
  { return !throws([&] { enableOutput(e...); }); }
  template<typename... T>
  bool dis(T... e)
  { return !throws([&] { disableOutput(e...); }); }
};
// class declaring its outputs and being its own provider, re-enabling all the statically disabled ones
class F : public OutputSelector<F, D>
{
public:
  SET_OUTPUTS(F, O7)
  CLEAR_DISABLED_OUTPUTS()
  F() { disableOutput(A::Output::O0); }
  template<typename... T>
  bool en(T... e)
  { return !throws([&] { enableOutput(e...); }); }
  template<typename... T>
  bool dis(T... e)
  { return !throws([&] { disableOutput(e...); }); }
};
class User : public Node<User>
{
public:
  SET_OUTPUTS(User, V)
  SET_UPDATES(User, Up, Uq)
  template<typename S, typename... O>
  bool dep(User::Update_ u, std::shared_ptr<S> s, O... o)
  { return !throws([&] { addInputDependency<User>(u, s, o...); }); }
  template<typename S, typename... O>
  bool depRef(User::Update_ u, S & s, O... o)
  { return !throws([&] { addInputDependency<User>(u, s, o...); }); }
  template<typename S, typename O>
  bool direct(std::shared_ptr<S> s, O o)
  { return !throws([&] { addDirectDependency<User>(User::Output::V, s, o); }); }
  const std::map<int, input_dependency_t> & deps() const { return inputDependencies_; }
};

template<int n>
struct Mask
{
  bool en[n];
  bool at(int i) const
  {
    bool r = false;
    for(int k = 0; k < n; ++k) r = r | (en[k] & (k == i));
    return r;
  }
  void set(int i, bool v, bool cond)
  {
    for(int k = 0; k < n; ++k) en[k] = ((!(cond & (k == i))) & en[k]) | ((cond & (k == i)) & v);
  }
};

// one change applied to output number i through the enumeration it belongs to
template<typename T>
bool change(T & p, int e, bool enable)
{
  if(e < 3)
  {
    auto o = static_cast<A::Output_>(e);
    return enable ? p.en(o) : p.dis(o);
  }
  if(e < 5)
  {
    auto o = static_cast<B::Output_>(e);
    return enable ? p.en(o) : p.dis(o);
  }
  if constexpr(T::OutputSize > 5)
  {
    if(e < 7)
    {
      auto o = static_cast<D::Output_>(e);
      return enable ? p.en(o) : p.dis(o);
    }
    if constexpr(T::OutputSize > 7)
    {
      auto o = static_cast<F::Output_>(e);
      return enable ? p.en(o) : p.dis(o);
    }
  }
  return false;
}
template<typename T, int n>
void query(const T & p, const Mask<n> & sta, const Mask<n> & dyn)
{
  int q = sym_int("query", 0, n - 1);
  bool want = sta.at(q) & dyn.at(q);
  bool got = p.isOutputEnabled(q);
  sym_check(got == want, "output enabled exactly when available for the class and enabled for the instance");
  sym_check(p.isOutputStaticallyEnabled(q) == sta.at(q), "static availability");
  sym_check(static_cast<const Outputs &>(p).isOutputCustomEnabled(q) == dyn.at(q), "dynamic enabling");
  // by enum
  bool byEnum = got;
  if(q < 3)
  {
    byEnum = p.isOutputEnabled(static_cast<A::Output_>(q));
    sym_check(T::OutputStaticallyEnabled(static_cast<A::Output_>(q)) == sta.at(q), "static availability, at compile time");
  }
  else if(q < 5)
  {
    byEnum = p.isOutputEnabled(static_cast<B::Output_>(q));
    sym_check(T::OutputStaticallyEnabled(static_cast<B::Output_>(q)) == sta.at(q), "static availability, at compile time");
  }
  else if constexpr(n > 5)
    if(q < 7) byEnum = p.isOutputEnabled(static_cast<D::Output_>(q));
  sym_check(byEnum == got, "querying by enum or number agrees");
}
template<typename T, int n>
void selector(const Mask<n> & sta, Mask<n> dyn)
{
  T p;
  static_assert(T::OutputSize == n);
  bool locked = false;
  int N = sym_tier() ? 3 + (n == 7) : 2 + (n == 5);
  for(int k = 0; k < N; ++k)
  {
    int op = sym_choose("op", 3);
    if(op == 2)
    {
      if(locked)
        p.unlock();
      else
        p.lock();
      locked = !locked;
      sym_check(p.isLocked() == locked, "lock");
      continue;
    }
    int e = sym_int("output", 0, n - 1);
    bool ok = change(p, e, op == 0);
    bool want = !locked & (op == 1 || sta.at(e));
    sym_check(ok == want, "a change is refused exactly when locked or statically disabled");
    dyn.set(e, op == 0, want);
  }
  query(p, sta, dyn);
  sym_reach("selector");
}
bool streq(const char * a, const char * b) { return std::strcmp(a, b) == 0; }

using Set = std::set<int>;
template<typename I, typename S>
void recorded(I & in, const std::shared_ptr<S> & s, const Set & want)
{
  auto it = in.getInput(s);
  sym_check((bool)it == !want.empty(), "a source is recorded exactly when one of its outputs is");
  if(it) sym_check(it->second == want, "the outputs recorded are those requested and not removed");
  auto jt = in.getInput(s.get());
  sym_check((bool)jt == !want.empty(), "a source is recorded exactly when one of its outputs is");
}
} // namespace

void harness()
{
  switch(sym_choose("mode", 8))
  {
    case 0:
      selector<C, 5>({{true, false, true, true, false}}, {{true, true, true, true, true}});
      break;
    case 1:
      selector<E, 7>({{true, false, true, true, false, true, true}}, {{true, true, true, true, true, true, true}});
      break;
    case 2:
      selector<F, 8>({{true, true, true, true, true, true, true, true}},
                     {{false, true, true, true, true, true, true, true}});
      break;
    case 3: // changes of several outputs at once
    {
      E p;
      bool l = sym_bool("lock");
      if(l) p.lock();
      int a = sym_int("a", 0, 2), b = sym_int("b", 3, 4), c = sym_int("c", 5, 6);
      bool ok = p.dis(static_cast<A::Output_>(a), static_cast<B::Output_>(b), static_cast<D::Output_>(c));
      sym_check(ok == !l, "several outputs can be disabled at once, unless locked");
      Mask<7> sta{{true, false, true, true, false, true, true}}, dyn{{true, true, true, true, true, true, true}};
      dyn.set(a, false, !l);
      dyn.set(b, false, !l);
      dyn.set(c, false, !l);
      query(p, sta, dyn);
      p.unlock();
      int d = sym_int("d", 0, 2), f = sym_int("f", 5, 6);
      ok = p.en(static_cast<D::Output_>(f), static_cast<A::Output_>(d));
      sym_check(ok == (d != 1), "several outputs can be enabled at once, unless statically disabled");
      dyn.set(f, true, true);
      dyn.set(d, true, d != 1);
      query(p, sta, dyn);
      break;
    }
    case 4: // names and numbers
    {
      const char * names[] = {"O0", "O1", "O2", "O3", "O4", "O5", "O6", "O7"};
      int e = sym_int("e", 0, 7);
      const char * got = e < 3   ? F::OutputName(static_cast<A::Output_>(e))
                         : e < 5 ? F::OutputName(static_cast<B::Output_>(e))
                         : e < 7 ? F::OutputName(static_cast<D::Output_>(e))
                                 : F::OutputName(static_cast<F::Output_>(e));
      sym_check(streq(got, names[sym_conc(e)]), "name of an output");
      sym_check(streq(B::UpdateName(B::Update::Ur), "Ur") & streq(B::UpdateName(A::Update::Uq), "Uq"), "name of an update");
      sym_check((int)A::Output::O0 == 0 && (int)B::Output::O3 == 3 && (int)D::Output::O5 == 5 && (int)F::Output::O7 == 7
                    && (int)F::Output::O2 == 2 && (int)B::Update::Ur == 2,
                "outputs and updates of a class are numbered after those of its base");
      sym_check(is_valid_output<F>(A::Output::O1, B::Output::O3, D::Output::O6, F::Output::O7), "validity of outputs");
      sym_check(!is_valid_output<B>(D::Output::O5) && !is_valid_output<A>(B::Output::O3)
                    && !is_valid_output<D>(A::Output::O0, F::Output::O7) && !is_valid_output<D>(F::Output::O7, A::Output::O0),
                "validity of outputs");
      sym_check(internal::is_valid_update<B>(A::Update::Up, B::Update::Ur)
                    && !internal::is_valid_update<A>(B::Update::Ur) && !internal::is_valid_update<User>(A::Update::Up),
                "validity of updates");
      break;
    }
    case 5: // registration refuses what is not available
    {
      B b;
      int u = sym_int("u", 0, 1);
      sym_check(b.reg(static_cast<A::Update_>(u)) == (u == 0), "a disabled update cannot be registered");
      sym_check(b.isUpdateEnabled(u) == (u == 0), "update enabled");
      sym_check(b.intDep(static_cast<A::Update_>(u), A::Update::Up) == (u == 0), "dependency of a disabled update is refused");
      sym_check(b.intDep(A::Update::Up, static_cast<A::Update_>(u)) == (u == 0), "dependency on a disabled update is refused");
      int o = sym_int("o", 0, 4);
      bool sta = o != 1 && o != 4;
      bool ok = o < 3 ? b.outDep(static_cast<A::Output_>(o)) : b.outDep(static_cast<B::Output_>(o));
      sym_check(ok == sta, "dependency of a disabled output is refused");
      sym_check(b.od().count(sym_conc(o)) == (sta ? 1u : 0u), "dependency of a disabled output is refused");
      sym_check(b.isOutputEnabled(o) == sta, "output enabled");
      sym_check(!b.reg(A::Update::Up) == (u == 0), "an update is registered once");
      sym_reach("registration");
      break;
    }
    case 6: // histories of inputs
    {
      auto s0 = std::make_shared<C>(), s1 = std::make_shared<C>();
      int d = sym_tier() ? sym_conc(sym_int("disabled", 0, 3)) : 3 * sym_choose("disabled", 2);
      change(*s1, d, false);
      auto ok = [&](int s, int o) { return o != 1 && o != 4 && !(s == 1 && o == d); };
      internal::Inputs in;
      Set want[2];
      for(int k = 0; k < 3; ++k)
      {
        int s = sym_choose("s", 2);
        auto & p = s ? s1 : s0;
        // quick: the history starts with an addition and ends with a removal
        switch(sym_tier() || k == 1 ? sym_choose("op", 4) : k == 0 ? sym_choose("op", 2) : 2 + sym_choose("op", 2))
        {
          case 0: // one output
          {
            int e = sym_int("e", 0, 4);
            bool bySP = k % 2;
            bool t = throws([&] {
              if(e < 3)
                bySP ? in.addInput(p, static_cast<A::Output_>(e)) : in.addInput(*p, static_cast<A::Output_>(e));
              else
                bySP ? in.addInput(p, static_cast<B::Output_>(e)) : in.addInput(*p, static_cast<B::Output_>(e));
            });
            e = sym_conc(e);
            sym_check(t == !ok(s, e), "an input is refused exactly when the output is not available");
            if(!t) want[s].insert(e);
            break;
          }
          case 1: // two outputs of which the first is available
          {
            int e = sym_int("f", 0, 4);
            int first = s == 1 && d == 0 ? 2 : 0;
            bool bySP = k % 2 == 0;
            auto f = static_cast<A::Output_>(first);
            bool t = throws([&] {
              if(e < 3)
                bySP ? in.addInput(p, f, static_cast<A::Output_>(e)) : in.addInput(*p, f, static_cast<A::Output_>(e));
              else
                bySP ? in.addInput(p, f, static_cast<B::Output_>(e)) : in.addInput(*p, f, static_cast<B::Output_>(e));
            });
            e = sym_conc(e);
            sym_check(t == !ok(s, e), "an input is refused exactly when the output is not available");
            if(t) return;
            want[s].insert(first);
            want[s].insert(e);
            break;
          }
          case 2: // remove a source
          {
            bool t = throws([&] { in.removeInput(p.get()); });
            sym_check(t == want[s].empty(), "removing an absent source is refused");
            want[s].clear();
            break;
          }
          default: // remove an output
          {
            int e = sym_int("r", 0, 2);
            bool t = throws([&] { in.removeInput(p.get(), static_cast<A::Output_>(e)); });
            e = sym_conc(e);
            sym_check(t == (want[s].count(e) == 0), "removing an absent input is refused");
            want[s].erase(e);
          }
        }
      }
      recorded(in, s0, want[0]);
      recorded(in, s1, want[1]);
      sym_reach("inputs");
      break;
    }
    default: // dependencies of updates on inputs, lifetime of sources
    {
      auto s = std::make_shared<C>();
      int d = sym_conc(sym_int("disabled", 0, 3));
      change(*s, d, false);
      auto ok = [&](int o) { return o != 1 && o != 4 && o != d; };
      auto u = std::make_shared<User>();
      int e = sym_int("e", 0, 2), f = sym_int("f", 0, 2), g = sym_int("g", 3, 4);
      auto E = static_cast<A::Output_>(e), F = static_cast<A::Output_>(f);
      auto G = static_cast<B::Output_>(g);
      int how = sym_choose("how", 5);
      bool r = true;
      switch(how)
      {
        case 0:
          r = u->dep(User::Update::Up, s, E);
          break;
        case 1:
          r = u->dep(User::Update::Up, s, E, F);
          break;
        case 2:
          r = u->dep(User::Update::Up, s, E, F, G);
          break;
        case 3:
          r = u->depRef(User::Update::Up, *s, E, G);
          break;
        default:
          r = u->direct(s, E);
          if(r) sym_check(!u->direct(s, F), "an output has one direct dependency");
      }
      e = sym_conc(e);
      Set want{e};
      if(how == 1 || how == 2) want.insert(sym_conc(f));
      if(how == 2 || how == 3) want.insert(sym_conc(g));
      bool all = std::all_of(want.begin(), want.end(), ok);
      sym_check(r == all, "depending on an unavailable output is refused");
      if(!r) return;
      recorded(*u, s, want);
      if(how != 4)
      {
        sym_check(u->deps().size() == 1 && u->deps().begin()->first == 0 && u->deps().begin()->second.size() == 1
                      && u->deps().begin()->second.begin()->second == want,
                  "the dependencies of an update are those declared");
        // a second declaration completes the first
        if(how == 0 && ok(2))
        {
          u->dep(User::Update::Up, s, A::Output::O2);
          want.insert(2);
          recorded(*u, s, want);
          sym_check(u->deps().begin()->second.begin()->second == want, "the dependencies of an update are those declared");
        }
      }
      std::weak_ptr<C> w = s;
      C * raw = s.get();
      s.reset();
      sym_check(w.expired() == (how == 3), "a source given by shared pointer is kept alive");
      if(how != 3)
      {
        u->removeInput(raw);
        sym_check(w.expired(), "a removed source is released");
        sym_reach("released");
      }
    }
  }
}
