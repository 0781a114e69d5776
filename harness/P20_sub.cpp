// P20: substitutions that leave additional constraints and variables.
#include "psub.h"
#include <tvm/scheme/WeightedLeastSquares.h>
using namespace tvm;
using namespace vf;
void harness()
{
  Deficient W;
  bool two = sym_choose("two sided", 2), damping = sym_choose("auto damping", 2);
  scheme::WeightedLeastSquaresOptions opt;
  opt.autoDamping(damping);
  scheme::WeightedLeastSquares s(MockFactory{two}, opt);
  int st = sym_choose("start", 32);
  for(int i = 0; i < 5; ++i)
    if(st >> i & 1) W.t[i].add(W.pb, true);
  for(int k = 0; k < 2 + sym_tier(); ++k)
  {
    W.values();
    int n = rec::solved;
    bool b = s.solve(W.pb);
    W.check(b, rec::solved - n, [&](std::vector<Lin> & items) {
      scalarize(items);
      std::vector<const Lin *> p;
      bool obj = false;
      for(auto & i : items)
      {
        p.push_back(&i);
        obj |= i.kind == Lin::OBJECTIVE;
      }
      VariableVector v(rec::variables);
      auto e = expected(p, v);
      if(!obj && damping)
        for(int i = 0; i < e.n; ++i) e.ls.push_back(rec::row(MatrixXd::Identity(e.n, e.n), VectorXd::Zero(e.n), i));
      rec::compare(rec::last, e);
    });
    int o = sym_choose("change", 6);
    if(o == 5) break;
    W.t[o].in ? W.t[o].remove(W.pb) : W.t[o].add(W.pb, true);
  }
  sym_reach("end sub");
}
