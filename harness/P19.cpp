// P19: after any history of changes, the problem a least-squares solver works with is the one of the constraints, bounds
// and objectives present, as if it had been built from scratch.
#include "mocksolver.h"
#include "p19.h"
void harness()
{
  World W;
  MockSolver s(sym_choose("two sided", 2));
  history(s, W, [](rec::Problem &) {}, 2);
  sym_reach("end");
}
