// P21: substitutions that leave additional constraints and variables.
#include "p21.h"
#include <tvm/scheme/HierarchicalLeastSquares.h>
using namespace tvm;
using namespace vf;
void harness()
{
  Deficient W;
  bool damping = sym_choose("auto damping", 2);
  scheme::HierarchicalLeastSquaresOptions opt;
  opt.autoDamping(damping);
  scheme::HierarchicalLeastSquares s(MockHFactory{}, opt);
  int st = sym_choose("start", 32);
  for(int i = 0; i < 5; ++i)
    if(st >> i & 1) W.t[i].add(W.pb, true);
  for(int k = 0; k < 2 + sym_tier(); ++k)
  {
    W.values();
    int n = rec::solved;
    bool b = s.solve(W.pb);
    W.check(b, rec::solved - n, [&](std::vector<Lin> & items) { compare(levels(items, VariableVector(rec::variables), damping)); });
    int o = sym_choose("change", 6);
    if(o == 5) break;
    W.t[o].in ? W.t[o].remove(W.pb) : W.t[o].add(W.pb, true);
  }
  sym_reach("end sub");
}
