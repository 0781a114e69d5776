// A hierarchical solver that records the problem it is given (per level: equalities, then inequalities) and returns 0.
#include <tvm/VariableVector.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/HierarchicalLeastSquareSolver.h>
namespace demo
{
using namespace tvm;
using scheme::internal::AssignmentTarget;
using Cst = constraint::abstract::LinearConstraint;
struct Data
{
  std::vector<MatrixXd> A;
  std::vector<VectorXd> b;
  std::vector<int> ne;
  VectorXd xl, xu;
  bool minNorm = false;
  int solved = 0;
};
inline Data data;
struct HSolver : solver::abstract::HierarchicalLeastSquareSolver
{
  VectorXd x;
  void initializeBuild_(const std::vector<int> & e, const std::vector<int> & i, bool b) override { data.minNorm = false; resize_(e, i, b); }
  ImpactFromChanges resize_(const std::vector<int> & e, const std::vector<int> & q, bool) override
  {
    int n = variables().totalSize();
    data.A.clear(); data.b.clear(); data.ne = e;
    for(size_t i = 0; i < e.size(); ++i) { data.A.push_back(MatrixXd::Zero(e[i] + q[i], n)); data.b.push_back(VectorXd::Zero(e[i] + q[i])); }
    data.xl.setConstant(n, -1e20); data.xu.setConstant(n, 1e20); x.setZero(n);
    return ImpactFromChanges(int(e.size()));
  }
  void addBound_(LinearConstraintPtr b, RangePtr r, bool first) override { addAssignement(b, AssignmentTarget(r, data.xl, data.xu), b->variables()[0], first); }
  void addEqualityConstraint_(LinearConstraintPtr c, SolvingRequirementsPtr q) override
  { int k = q->priorityLevel().value(); addAssignement(c, q, AssignmentTarget(std::make_shared<Range>(eqSize_[k], c->size()), data.A[k], data.b[k], constraint::Type::EQUAL, constraint::RHS::AS_GIVEN), variables(), substitutions()); }
  void addIneqalityConstraint_(LinearConstraintPtr c, SolvingRequirementsPtr q) override
  { int k = q->priorityLevel().value(), m = int(data.A[k].rows()) - data.ne[k]; addAssignement(c, q, AssignmentTarget(std::make_shared<Range>(ineqSize_[k], constraintSize(*c)), data.A[k].bottomRows(m), data.b[k].tail(m), constraint::Type::GREATER_THAN, constraint::RHS::AS_GIVEN), variables(), substitutions()); }
  void setMinimumNorm_() override { data.minNorm = true; }
  void resetBounds_() override { data.xl.setConstant(-1e20); data.xu.setConstant(1e20); }
  bool solve_() override { ++data.solved; return true; }
  const VectorXd & result_() const override { return x; }
  bool handleDoubleSidedConstraint_() const override { return false; }
  Range nextEqualityConstraintRange_(int k, const Cst & c) const override { return {eqSize_[k], c.size()}; }
  Range nextInequalityConstraintRange_(int k, const Cst & c) const override { return {ineqSize_[k], constraintSize(c)}; }
  void removeBounds_(const Range &) override {}
  void updateEqualityTargetData(int, AssignmentTarget &) override {}
  void updateInequalityTargetData(int, AssignmentTarget &) override {}
  void updateBoundTargetData(AssignmentTarget &) override {}
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}
};
struct HFactory : solver::abstract::HLSSolverFactory
{
  HFactory() : HLSSolverFactory("demo") {}
  std::unique_ptr<HLSSolverFactory> clone() const override { return std::make_unique<HFactory>(*this); }
  std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> createSolver() const override { return std::make_unique<HSolver>(); }
};
struct HOptions
{
  std::optional<bool> autoDamping_opt;
  std::unique_ptr<solver::abstract::HLSSolverFactory> f = std::make_unique<HFactory>();
};
} // namespace demo
