// P30: the hierarchical scheme refuses what it does not handle, and the refusal leaves nothing behind.
#include "p21.h"
#include "sch30.h"
#include <tvm/scheme/HierarchicalLeastSquares.h>
using namespace tvm;
using namespace vf;
void harness()
{
  World30 W(true);
  scheme::HierarchicalLeastSquaresOptions opt;
  opt.autoDamping(false);
  scheme::HierarchicalLeastSquares s(MockHFactory{}, opt);
  histories(s, W, [&](std::vector<Lin> items, const VariableVector & v) { compare(levels(items, v, false)); });
}
