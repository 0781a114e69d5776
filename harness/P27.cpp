// P27: ticks and time step of a clock; what depends on the time of a clock.
#define VF_GRAPH
#include "vh.h"
#define private public // the number of ticks elapsed is set below, to start from any
#include <tvm/Clock.h>
#undef private
#include <tvm/graph/abstract/Node.h>
using namespace tvm;
using namespace vf;
namespace
{
struct C : Clock
{
  using Clock::Clock;
  C(const C &) = default;
};
class Timed : public graph::abstract::Node<Timed>
{
public:
  SET_OUTPUTS(Timed, T)
  SET_UPDATES(Timed, Up)
  Timed(std::shared_ptr<Clock> c) : c(c)
  {
    registerUpdates(Update::Up, &Timed::up);
    addOutputDependency(Output::T, Update::Up);
    addInputDependency<Timed>(Update::Up, c, Clock::Output::Time);
  }
  void up() { t = static_cast<double>(c->ticks()) * c->dt(); }
  std::shared_ptr<Clock> c;
  double t = -1;
};
// gives a clock the number of ticks elapsed, where it is kept as a member of this name
template<typename K>
auto elapse(K & c, uint64_t t, int) -> decltype(c.ticks_ = t, true)
{
  c.ticks_ = static_cast<decltype(c.ticks_)>(t);
  return true;
}
template<typename K>
bool elapse(K &, uint64_t, long)
{ return false; }
void any(double dt)
{
  C a(dt);
  uint64_t t = static_cast<uint64_t>(sym_int("high", 0, (1 << 30) - 1)) * 4294967296ull + static_cast<uint64_t>(sym_int("middle", 0, 65535)) * 65536ull
               + static_cast<uint64_t>(sym_int("low", 0, 65535));
  sym_reach("any tick");
  if(!elapse(a, t, 0)) return;
  sym_check(a.ticks() == t, "any number of ticks");
  for(uint64_t i = 1; i <= 3; ++i)
  {
    a.advance();
    sym_check(a.ticks() == t + i, "one tick more");
  }
  C b(a);
  b.advance();
  sym_check(b.ticks() == t + 4 && a.ticks() == t + 3, "clocks are independent");
}
} // namespace
void harness()
{
  double dt = sym_real("dt", 1e-6, 10);
  if(sym_choose("any", 2)) return any(dt);
  if(sym_choose("graph", 2))
  {
    auto c = std::make_shared<C>(dt);
    auto t = std::make_shared<Timed>(c);
    int n = sym_conc(sym_int("n", 0, 5));
    for(int i = 0; i < n; ++i) c->advance();
    sym_check(c->isOutputEnabled(Clock::Output::Time), "time is available");
    run(t, Timed::Output::T);
    sym_check_eq(t->t, n * dt, "time seen by what depends on it");
    c->advance();
    sym_check_eq(t->t, n * dt, "updated on request");
    run(t, Timed::Output::T);
    sym_check_eq(t->t, (n + 1) * dt, "time seen by what depends on it");
    sym_reach("graph");
    return;
  }
  C a(dt);
  sym_check(a.ticks() == 0, "starts at zero");
  int n = sym_int("n", 0, sym_tier() ? 400 : 100);
  uint64_t last = 0;
  for(int i = 0; i < n; ++i)
  {
    a.advance();
    sym_check(a.ticks() == last + 1, "one tick");
    last = a.ticks();
  }
  sym_check(a.ticks() == static_cast<uint64_t>(n), "ticks");
  sym_check_eq(a.dt(), dt, "time step");
  C b(a), d(sym_real("dt2", 1e-6, 10));
  b.advance();
  sym_check(b.ticks() == static_cast<uint64_t>(n) + 1 && a.ticks() == static_cast<uint64_t>(n), "clocks are independent");
  sym_check_eq(b.dt(), dt, "time step of a copy");
  sym_check(d.ticks() == 0, "clocks are independent");
  sym_reach("ticks");
}
