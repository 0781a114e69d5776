// A hierarchical least-squares solver that only records the problem it is given. At each level, equalities and then one-sided
// inequalities are stacked in a matrix.
#pragma once
#include "rec.h"
#include <tvm/VariableVector.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/HierarchicalLeastSquareSolver.h>
namespace vf
{
class MockHSolver : public tvm::solver::abstract::HierarchicalLeastSquareSolver
{
  using CType = tvm::constraint::Type;
  using RHS = tvm::constraint::RHS;
  using Target = tvm::scheme::internal::AssignmentTarget;
  using Cst = tvm::constraint::abstract::LinearConstraint;

protected:
  void initializeBuild_(const std::vector<int> & e, const std::vector<int> & i, bool b) override
  {
    minNorm_ = false;
    resize_(e, i, b);
  }
  ImpactFromChanges resize_(const std::vector<int> & e, const std::vector<int> & q, bool b) override
  {
    int n = variables().totalSize();
    A_.assign(e.size(), {});
    b_.assign(e.size(), {});
    ne_ = e;
    bounds_ = b;
    for(size_t i = 0; i < e.size(); ++i)
    {
      A_[i] = MatrixXd::Zero(e[i] + q[i], n);
      b_[i] = VectorXd::Zero(e[i] + q[i]);
    }
    xl_ = VectorXd::Constant(n, -rec::big);
    xu_ = VectorXd::Constant(n, rec::big);
    ImpactFromChanges r(e.size());
    return r;
  }
  void addBound_(tvm::LinearConstraintPtr b, tvm::RangePtr r, bool first) override
  {
    sym_check(bounds_, "bounds are announced");
    addAssignement(b, Target(r, xl_, xu_), b->variables()[0], first);
  }
  void addEqualityConstraint_(tvm::LinearConstraintPtr c, tvm::SolvingRequirementsPtr req) override
  {
    int k = req->priorityLevel().value();
    addAssignement(c, req, Target(std::make_shared<tvm::Range>(nextEqualityConstraintRange_(k, *c)), A_[k], b_[k], CType::EQUAL, RHS::AS_GIVEN), variables(), substitutions());
  }
  void addIneqalityConstraint_(tvm::LinearConstraintPtr c, tvm::SolvingRequirementsPtr req) override
  {
    int k = req->priorityLevel().value(), m = A_[k].rows() - ne_[k];
    addAssignement(c, req, Target(std::make_shared<tvm::Range>(nextInequalityConstraintRange_(k, *c)), A_[k].bottomRows(m), b_[k].tail(m), CType::GREATER_THAN, RHS::OPPOSITE), variables(), substitutions());
  }
  void setMinimumNorm_() override { minNorm_ = true; }
  void resetBounds_() override
  {
    xl_.setConstant(-rec::big);
    xu_.setConstant(rec::big);
  }
  // As some libraries do, the resolution destroys the data, that need to be cleaned before being written
  void preAssignmentProcess_() override
  {
    for(auto & A : A_) A.setZero();
    ready_ = false;
  }
  void postAssignmentProcess_() override { ready_ = true; }
  bool solve_() override
  {
    sym_check(ready_, "the data are processed before the resolution");
    ready_ = false;
    rec::Problem p;
    p.n = xl_.size();
    p.xl = xl_;
    p.xu = xu_;
    rec::lastLevels.assign(A_.size(), {});
    for(size_t k = 0; k < A_.size(); ++k)
    {
      if(minNorm_ && k + 1 == A_.size())
      {
        sym_check(A_[k].rows() == p.n && ne_[k] == p.n, "the last level is made of the minimum norm only");
        A_[k] = MatrixXd::Identity(p.n, p.n);
        b_[k].setZero();
      }
      VectorXd o = -b_[k];
      for(int i = 0; i < A_[k].rows(); ++i)
        if(i < ne_[k])
          rec::lastLevels[k].eq.push_back(rec::row(A_[k], b_[k], i));
        else
          rec::lastLevels[k].ge.push_back(rec::row(A_[k], o, i));
    }
    for(auto & A : A_) A.setConstant(1234);
    for(auto & b : b_) b.setConstant(4321);
    rec::variables = variables().variables();
    return rec::solve(p);
  }
  const VectorXd & result_() const override { return rec::result; }
  bool handleDoubleSidedConstraint_() const override { return false; }
  tvm::Range nextEqualityConstraintRange_(int k, const Cst & c) const override { return {eqSize_[k], c.size()}; }
  tvm::Range nextInequalityConstraintRange_(int k, const Cst & c) const override { return {ineqSize_[k], constraintSize(c)}; }
  void removeBounds_(const tvm::Range &) override {}
  void updateEqualityTargetData(int, Target &) override {}
  void updateInequalityTargetData(int, Target &) override {}
  void updateBoundTargetData(Target &) override {}
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}

private:
  bool ready_ = false, minNorm_ = false, bounds_ = false;
  std::vector<MatrixXd> A_;
  std::vector<VectorXd> b_;
  std::vector<int> ne_;
  VectorXd xl_, xu_;
};
class MockHFactory : public tvm::solver::abstract::HLSSolverFactory
{
public:
  MockHFactory() : HLSSolverFactory("mock") {}
  std::unique_ptr<HLSSolverFactory> clone() const override { return std::make_unique<MockHFactory>(*this); }
  std::unique_ptr<tvm::solver::abstract::HierarchicalLeastSquareSolver> createSolver() const override { return std::make_unique<MockHSolver>(); }
};
} // namespace vf
