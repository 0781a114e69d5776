// P30: the weighted scheme refuses what it does not handle, and the refusal leaves nothing behind.
#include "sch30.h"
#include <tvm/scheme/WeightedLeastSquares.h>
using namespace tvm;
using namespace vf;
void harness()
{
  World30 W(false);
  bool two = sym_choose("two sided", 2);
  scheme::WeightedLeastSquaresOptions opt;
  opt.autoDamping(false);
  scheme::WeightedLeastSquares s(MockFactory{two}, opt);
  histories(s, W, [&](std::vector<Lin> items, const VariableVector & v) {
    std::vector<const Lin *> p;
    scalarize(items);
    for(auto & i : items) p.push_back(&i);
    rec::compare(rec::last, expected(p, v));
  });
}
