// P34: an event reaches the living listeners that were registered for it, and only them.
#include "vh.h"
#include <tvm/event/Listener.h>
#include <tvm/event/Source.h>
#include <algorithm>
using namespace vf;
using namespace tvm::event;
namespace
{
struct Got
{
  int listener;
  Type type;
  const Source * from;
  bool operator==(const Got & o) const { return listener == o.listener && type == o.type && from == o.from; }
};
std::vector<Got> got;
struct L : Listener
{
  L(int id) : id(id) {}
  void process(Type t, const Source & s) override
  {
    got.push_back({id, t, &s});
    if(then) then();
  }
  int id;
  std::function<void()> then;
};
constexpr Type types[] = {Type::CONTACT_NUMBER_CHANGED, static_cast<Type>(1)};
} // namespace
void harness()
{
  Source s[2];
  std::vector<std::shared_ptr<L>> l;
  for(int i = 0; i < 3; ++i) l.push_back(std::make_shared<L>(i));
  struct Reg
  {
    int source, type, listener;
  };
  std::vector<Reg> regs;
  int steps = 4;
  for(int k = 0; k < steps; ++k)
  {
    // A first registration and a last notification lose nothing, nor do the names of the first source and type
    switch(k == 0 ? 0 : k + 1 == steps ? 2 : sym_choose("operation", 3))
    {
      case 0: { // registration
        bool any = k || sym_tier();
        Reg r{any ? sym_choose("source", 2) : 0, any ? sym_choose("type", 2) : 0, anyInt("listener", 3)};
        if(!l[r.listener]) return;
        s[r.source].regist(l[r.listener], types[r.type]);
        regs.push_back(r);
        break;
      }
      case 1: { // a listener dies
        int i = anyInt("dead", 3);
        if(!l[i]) return;
        l[i].reset();
        sym_reach("dead listener");
        break;
      }
      case 2: {
        int i = sym_choose("notified source", 2), t = sym_choose("notified type", 2);
        // A listener might register another one, or make it disappear, while it is notified
        int re = sym_choose("reaction", 3), n = 0;
        bool done = false;
        std::vector<Got> e;
        std::vector<Reg> before = regs;
        bool dead = false;
        for(auto & r : before)
          if(r.source == i && r.type == t && l[r.listener] && !(r.listener == 2 && dead))
          {
            e.push_back({r.listener, types[t], &s[i]});
            if(r.listener == 0 && re == 2) dead = true;
          }
        if(l[0] && re)
          l[0]->then = [&] {
            if(done) return;
            done = true;
            if(re == 1 && l[1])
              for(int q = 0; q < 3; ++q) s[i].regist(l[1], types[t]), ++n;
            if(re == 2) l[2].reset();
          };
        got.clear();
        s[i].notify(types[t]);
        if(l[0]) l[0]->then = nullptr;
        for(int q = 0; q < n; ++q) regs.push_back({i, t, 1});
        if(n) sym_reach("registered while notifying");
        // whether those registered meanwhile are notified now is not specified
        sym_check(got.size() >= e.size() && got.size() <= e.size() + n && std::equal(e.begin(), e.end(), got.begin()),
                  "the living listeners registered for the event are notified, in order");
        for(size_t q = e.size(); q < got.size(); ++q) sym_check(got[q] == Got{1, types[t], &s[i]}, "nobody else is");
        sym_reach("notified");
        break;
      }
    }
  }
}
