// P30: the abilities of a scheme accept exactly what they declare, for any number of levels and any table.
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/internal/SchemeAbilities.h>
using namespace tvm;
using namespace vf;
using namespace tvm::scheme::internal;
using VET = requirements::ViolationEvaluationType;
void harness()
{
  const int K = sym_tier() ? 4 : 3; // entries of the table: general, levels 0 .. K-2
  int n = sym_int("levels", -3, K);
  bool scal = sym_bool("scalarization");
  // the entries, the first of which is the general one
  std::map<int, LevelAbilities> m;
  bool has[4] = {}, ineq[4] = {};
  int vet[4] = {}; // set of evaluations
  for(int k = 0; k < K; ++k)
  {
    if(!sym_bool("entry")) continue;
    has[k] = true;
    ineq[k] = sym_bool("inequalities");
    vet[k] = k == 1 ? 2 : 1 << k % 3 | (sym_bool("L2 too") ? 2 : 0);
    std::vector<VET> v;
    if(vet[k] & 1) v.push_back(VET::L1);
    if(vet[k] & 4) v.push_back(VET::LINF);
    if(vet[k] & 2) v.push_back(VET::L2);
    m.emplace(k == 0 ? GeneralLevel : k - 1, LevelAbilities(ineq[k], v));
  }
  bool valid = n >= -1;
  if(!has[0])
  {
    valid = valid && n >= 0;
    for(int i = 0; i < K; ++i)
      if(i < n && (i + 1 >= K || !has[i + 1])) valid = false;
  }
  std::unique_ptr<SchemeAbilities> a;
  bool refused = throws([&] { a = std::make_unique<SchemeAbilities>(n, m, scal); });
  sym_check(refused == !valid, "the table is accepted when it has an entry for each level");
  if(refused) return;
  auto type = static_cast<constraint::Type>(sym_conc(sym_int("type", 0, 3)));
  auto c = std::make_shared<constraint::BasicLinearConstraint>(1, VariablePtr(Space(1).createVariable("x")), type);
  int p = sym_int("priority", 0, K + 1), e = sym_conc(sym_int("evaluation", 0, 2));
  requirements::SolvingRequirements req{requirements::PriorityLevel(p),
                                        requirements::ViolationEvaluation(e == 0 ? VET::L1 : e == 1 ? VET::L2 : VET::LINF)};
  bool no = throws([&] { a->check(c, &req, false); });
  // the entry that applies
  int level = p;
  bool covered = true;
  if(n >= 0 && p >= n)
  {
    covered = scal && n > 0;
    level = n - 1;
  }
  if(covered)
  {
    int k = 0;
    for(int i = 1; i < K; ++i)
      if(level == i - 1 && has[i]) k = i;
    covered = (ineq[k] || type == constraint::Type::EQUAL) && (vet[k] >> e & 1);
  }
  sym_check(no == !covered, "a requirement is accepted when it is covered");
  sym_reach("checked");
}
