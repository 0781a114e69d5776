// A least-squares solver that records the problem it is given: l <= C x <= u, bounds, objectives D x = e.
#pragma once
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/VariableVector.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/LeastSquareSolver.h>
#include <tvm/task_dynamics/None.h>
#include <iostream>
#include <map>
#include <set>
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace ts = tvm::scheme::internal;
struct Data
{
  MatrixXd C, D;
  VectorXd l, u, e, xl, xu;
  std::vector<std::string> names;
  // rows as sorted sets, columns by names
  static std::string row(const MatrixXd & M, int i, const std::vector<std::string> & n)
  {
    std::map<std::string, double> m;
    for(int j = 0; j < M.cols(); ++j) m[n[j]] = M(i, j);
    std::string s;
    for(auto & p : m) if(std::abs(p.second) > 1e-9) s += p.first + ":" + num(p.second) + " ";
    return s;
  }
  static std::string num(double d) { d = std::abs(d) < 1e-9 ? 0 : d; char b[40]; snprintf(b, 40, "%.6g", d); return b; }
  std::multiset<std::string> canon() const
  {
    std::multiset<std::string> r;
    for(int i = 0; i < C.rows(); ++i) r.insert("C " + num(l[i]) + "<= " + row(C, i, names) + "<=" + num(u[i]));
    for(int i = 0; i < D.rows(); ++i) r.insert("O " + row(D, i, names) + "= " + num(e[i]));
    for(int i = 0; i < xl.size(); ++i) r.insert("B " + num(xl[i]) + " <= " + names[i] + " <= " + num(xu[i]));
    return r;
  }
};
inline Data & last() { static Data d; return d; }
class RecSolver : public tvm::solver::abstract::LeastSquareSolver
{
protected:
  using VRef = Eigen::Ref<VectorXd>;
  void initializeBuild_(int nObj, int nEq, int nIneq, bool) override { resize_(nObj, nEq, nIneq, true); mn_ = false; }
  ImpactFromChanges resize_(int nObj, int nEq, int nIneq, bool) override
  {
    int n = variables().totalSize(), m = nEq + nIneq;
    ImpactFromChanges r;
    r.objectives_ = ImpactFromChanges::willReallocate(D_, nObj, n);
    r.equalityConstraints_ = r.inequalityConstraints_ = ImpactFromChanges::willReallocate(C_, m, n);
    r.bounds_ = ImpactFromChanges::willReallocate(l_, m + n) || r.equalityConstraints_;
    D_ = MatrixXd::Zero(nObj, n);
    e_ = VectorXd::Zero(nObj);
    C_ = MatrixXd::Zero(m, n);
    l_ = VectorXd::Constant(m + n, -1e6);
    u_ = VectorXd::Constant(m + n, 1e6);
    x_ = VectorXd::Zero(n);
    return r;
  }
  VRef xl() { return l_.head(C_.cols()); }
  VRef xu() { return u_.head(C_.cols()); }
  VRef cl() { return l_.tail(C_.rows()); }
  VRef cu() { return u_.tail(C_.rows()); }
  void addBound_(LinearConstraintPtr b, RangePtr range, bool first) override
  {
    ts::AssignmentTarget t(range, xl(), xu());
    addAssignement(b, t, b->variables()[0], first);
  }
  void addEqualityConstraint_(LinearConstraintPtr c) override
  {
    auto r = std::make_shared<Range>(nextEqualityConstraintRange_(*c));
    addAssignement(c, nullptr, ts::AssignmentTarget(r, C_, cl(), cu(), constraint::RHS::AS_GIVEN), variables(), substitutions());
  }
  void addIneqalityConstraint_(LinearConstraintPtr c) override
  {
    auto r = std::make_shared<Range>(nextInequalityConstraintRange_(*c));
    addAssignement(c, nullptr, ts::AssignmentTarget(r, C_, cl(), cu(), constraint::RHS::AS_GIVEN), variables(), substitutions());
  }
  void addObjective_(LinearConstraintPtr c, SolvingRequirementsPtr req, double w) override
  {
    auto r = std::make_shared<Range>(nextObjectiveRange_(*c));
    addAssignement(c, req, ts::AssignmentTarget(r, D_, e_, constraint::Type::EQUAL, constraint::RHS::AS_GIVEN), variables(), substitutions(), w);
  }
  void setMinimumNorm_() override { D_.setIdentity(); e_.setZero(); }
  void resetBounds_() override { xl().setConstant(-1e6); xu().setConstant(1e6); }
  bool solve_() override
  {
    Data & d = last();
    d = Data();
    int m = C_.rows(), n = C_.cols();
    d.C = C_; d.D = D_; d.e = e_; d.l = l_.tail(m); d.u = u_.tail(m); d.xl = l_.head(n); d.xu = u_.head(n);
    for(auto & v : variables().variables())
      for(int i = 0; i < v->size(); ++i) d.names.push_back(v->name() + std::to_string(i));
    x_ = VectorXd::LinSpaced(n, 1, n);
    return true;
  }
  const VectorXd & result_() const override { return x_; }
  bool handleDoubleSidedConstraint_() const override { return true; }
  Range nextEqualityConstraintRange_(const constraint::abstract::LinearConstraint & c) const override { return {eqSize_ + ineqSize_, c.size()}; }
  Range nextInequalityConstraintRange_(const constraint::abstract::LinearConstraint & c) const override { return {eqSize_ + ineqSize_, constraintSize(c)}; }
  Range nextObjectiveRange_(const constraint::abstract::LinearConstraint & c) const override { return {objSize_, c.size()}; }
  void removeBounds_(const Range &) override {}
  void updateEqualityTargetData(ts::AssignmentTarget & t) override { t.changeData(C_, cl(), cu()); }
  void updateInequalityTargetData(ts::AssignmentTarget & t) override { t.changeData(C_, cl(), cu()); }
  void updateBoundTargetData(ts::AssignmentTarget & t) override { t.changeData(tvm::VectorRef(xl()), xu()); }
  void updateObjectiveTargetData(ts::AssignmentTarget & t) override { t.changeData(tvm::MatrixRef(D_), e_); }
  void applyImpactLogic(ImpactFromChanges & i) override
  {
    if(i.equalityConstraints_ || i.inequalityConstraints_) i.inequalityConstraints_ = i.equalityConstraints_ = true;
  }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}
  bool mn_ = false;
  MatrixXd D_, C_;
  VectorXd e_, l_, u_, x_;
};
class RecFactory : public tvm::solver::abstract::LSSolverFactory
{
public:
  RecFactory() : LSSolverFactory("rec") {}
  std::unique_ptr<LSSolverFactory> clone() const override { return std::make_unique<RecFactory>(*this); }
  std::unique_ptr<tvm::solver::abstract::LeastSquareSolver> createSolver() const override { return std::make_unique<RecSolver>(); }
};
// What a scheme that was never used gives to its solver for this problem
inline std::multiset<std::string> fresh(LinearizedControlProblem & pb)
{
  scheme::WeightedLeastSquares s{RecFactory()};
  s.solve(pb);
  return last().canon();
}
inline bool same(const std::multiset<std::string> & a, const std::multiset<std::string> & b)
{
  if(a == b) return true;
  std::cout << "---- got\n"; for(auto & s : a) std::cout << s << "\n";
  std::cout << "---- expected\n"; for(auto & s : b) std::cout << s << "\n";
  return false;
}
inline std::shared_ptr<function::BasicLinearFunction> lin(const MatrixXd & A, VariablePtr x, const VectorXd & b)
{ return std::make_shared<function::BasicLinearFunction>(A, x, b); }
