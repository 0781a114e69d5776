// A least-squares solver that only records the problem it is given. Two layouts: equalities and one-sided inequalities
// stacked in a matrix, or double-sided constraints with the bounds on the variables on top.
#pragma once
#include "rec.h"
#include <tvm/VariableVector.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/LeastSquareSolver.h>
namespace vf
{
namespace ts = tvm::scheme::internal;
class MockSolver : public tvm::solver::abstract::LeastSquareSolver
{
public:
  using CType = tvm::constraint::Type;
  using RHS = tvm::constraint::RHS;
  MockSolver(bool twoSided) : two_(twoSided) {}
  int minNorm = 0;

protected:
  using VRef = Eigen::Ref<VectorXd>;
  void initializeBuild_(int nObj, int nEq, int nIneq, bool) override
  {
    resize_(nObj, nEq, nIneq, true);
    minNorm = 0;
  }
  ImpactFromChanges resize_(int nObj, int nEq, int nIneq, bool) override
  {
    int n = variables().totalSize(), m = nEq + nIneq;
    ImpactFromChanges r;
    r.objectives_ = ImpactFromChanges::willReallocate(D_, nObj, n);
    D_.resize(nObj, n);
    D_.setZero();
    e_ = VectorXd::Zero(nObj);
    r.equalityConstraints_ = r.inequalityConstraints_ = ImpactFromChanges::willReallocate(C_, m, n);
    r.bounds_ = ImpactFromChanges::willReallocate(l_, m + n) || r.equalityConstraints_;
    C_.resize(m, n);
    C_.setZero();
    l_ = VectorXd::Constant(m + n, -rec::big);
    u_ = VectorXd::Constant(m + n, rec::big);
    nEqR_ = nEq;
    return r;
  }
  VRef xl() { return l_.head(C_.cols()); }
  VRef xu() { return u_.head(C_.cols()); }
  VRef cl() { return l_.tail(C_.rows()); }
  VRef cu() { return u_.tail(C_.rows()); }
  void addBound_(tvm::LinearConstraintPtr b, tvm::RangePtr range, bool first) override
  {
    ts::AssignmentTarget t(range, xl(), xu());
    addAssignement(b, t, b->variables()[0], first);
  }
  void addEqualityConstraint_(tvm::LinearConstraintPtr c) override
  {
    auto r = std::make_shared<tvm::Range>(nextEqualityConstraintRange_(*c));
    if(two_)
      addAssignement(c, nullptr, ts::AssignmentTarget(r, C_, cl(), cu(), RHS::AS_GIVEN), variables(), substitutions());
    else
      addAssignement(c, nullptr, ts::AssignmentTarget(r, C_, cl(), CType::EQUAL, RHS::OPPOSITE), variables(), substitutions());
  }
  void addIneqalityConstraint_(tvm::LinearConstraintPtr c) override
  {
    auto r = std::make_shared<tvm::Range>(nextInequalityConstraintRange_(*c));
    if(two_)
      addAssignement(c, nullptr, ts::AssignmentTarget(r, C_, cl(), cu(), RHS::AS_GIVEN), variables(), substitutions());
    else
      addAssignement(c, nullptr, ts::AssignmentTarget(r, C_.bottomRows(C_.rows() - nEqR_), cl().tail(C_.rows() - nEqR_), CType::GREATER_THAN, RHS::OPPOSITE), variables(), substitutions());
  }
  void addObjective_(tvm::LinearConstraintPtr c, tvm::SolvingRequirementsPtr req, double w) override
  {
    auto r = std::make_shared<tvm::Range>(nextObjectiveRange_(*c));
    addAssignement(c, req, ts::AssignmentTarget(r, D_, e_, CType::EQUAL, two_ ? RHS::AS_GIVEN : RHS::OPPOSITE), variables(), substitutions(), w);
  }
  void setMinimumNorm_() override { minNorm = variables().totalSize(); }
  void resetBounds_() override
  {
    xl().setConstant(-rec::big);
    xu().setConstant(rec::big);
  }
  // As some libraries do, the resolution destroys the objectives, that need to be cleaned before being written
  void preAssignmentProcess_() override
  {
    D_.setZero();
    ready_ = false;
  }
  void postAssignmentProcess_() override { ready_ = true; }
  bool solve_() override
  {
    sym_check(ready_, "the data are processed before the resolution");
    ready_ = false;
    rec::Problem p;
    p.n = C_.cols();
    int m = C_.rows();
    VectorXd b = l_.tail(m), u = u_.tail(m), e = e_;
    if(two_)
      rec::doubleSided(C_, b, u, p.eq, p.ge);
    else
    {
      for(int i = 0; i < m; ++i) b[i] = -b[i];
      for(int i = 0; i < m; ++i) (i < nEqR_ ? p.eq : p.ge).push_back(rec::row(C_, b, i));
    }
    if(!two_)
      for(int i = 0; i < e.size(); ++i) e[i] = -e[i];
    for(int i = 0; i < D_.rows() && !minNorm; ++i) p.ls.push_back(rec::row(D_, e, i));
    for(int i = 0; i < minNorm; ++i) p.ls.push_back(rec::row(MatrixXd::Identity(p.n, p.n), VectorXd::Zero(p.n), i));
    p.xl = l_.head(p.n);
    p.xu = u_.head(p.n);
    D_.setConstant(1234);
    e_.setConstant(4321);
    rec::variables = variables().variables();
    return rec::solve(p);
  }
  const VectorXd & result_() const override { return rec::result; }
  bool handleDoubleSidedConstraint_() const override { return two_; }
  tvm::Range nextEqualityConstraintRange_(const tvm::constraint::abstract::LinearConstraint & c) const override
  { return {two_ ? eqSize_ + ineqSize_ : eqSize_, c.size()}; }
  tvm::Range nextInequalityConstraintRange_(const tvm::constraint::abstract::LinearConstraint & c) const override
  { return {two_ ? eqSize_ + ineqSize_ : ineqSize_, constraintSize(c)}; }
  tvm::Range nextObjectiveRange_(const tvm::constraint::abstract::LinearConstraint & c) const override { return {objSize_, c.size()}; }
  void removeBounds_(const tvm::Range &) override {}
  void updateEqualityTargetData(ts::AssignmentTarget & t) override
  {
    if(two_)
      t.changeData(C_, cl(), cu());
    else
      t.changeData(tvm::MatrixRef(C_), cl());
  }
  void updateInequalityTargetData(ts::AssignmentTarget & t) override
  {
    if(two_)
      t.changeData(C_, cl(), cu());
    else
      t.changeData(tvm::MatrixRef(C_.bottomRows(C_.rows() - nEqR_)), cl().tail(C_.rows() - nEqR_));
  }
  void updateBoundTargetData(ts::AssignmentTarget & t) override { t.changeData(tvm::VectorRef(xl()), xu()); }
  void updateObjectiveTargetData(ts::AssignmentTarget & t) override { t.changeData(tvm::MatrixRef(D_), e_); }
  void applyImpactLogic(ImpactFromChanges & i) override
  {
    if(i.equalityConstraints_) i.inequalityConstraints_ = true;
    if(i.inequalityConstraints_ && two_) i.equalityConstraints_ = true;
  }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}

private:
  bool two_, ready_ = false;
  int nEqR_ = 0;
  MatrixXd D_, C_;
  VectorXd e_, l_, u_;
};
class MockFactory : public tvm::solver::abstract::LSSolverFactory
{
public:
  MockFactory(bool two) : LSSolverFactory("mock"), two(two) {}
  std::unique_ptr<LSSolverFactory> clone() const override { return std::make_unique<MockFactory>(*this); }
  std::unique_ptr<tvm::solver::abstract::LeastSquareSolver> createSolver() const override { return std::make_unique<MockSolver>(two); }
  bool two;
};
} // namespace vf
