// Stand-in for lexls: records the levels l <= A x <= u (given as [A l u]), or l <= x_i <= u (given as [l u]).
#pragma once
#include "../../rec.h"
#include <string>
namespace LexLS
{
using Index = unsigned;
using RealScalar = double;
enum TerminationStatus
{
  TERMINATION_STATUS_UNKNOWN = -1, PROBLEM_SOLVED = 0, PROBLEM_SOLVED_CYCLING_HANDLING, MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED
};
enum ConstraintActivationType
{
  CTR_INACTIVE, CTR_ACTIVE_LB, CTR_ACTIVE_UB, CTR_ACTIVE_EQ, CORRECT_SIGN_OF_LAMBDA
};
enum ObjectiveType
{
  GENERAL_OBJECTIVE, SIMPLE_BOUNDS_OBJECTIVE
};
enum RegularizationType
{
  REGULARIZATION_NONE, REGULARIZATION_TIKHONOV
};
struct ConstraintIdentifier
{
  Index obj_index, ctr_index;
  ConstraintActivationType ctr_type;
};
struct ParametersLexLSI
{
  Index max_number_of_factorizations = 200;
  RealScalar tol_linear_dependence = 1e-12, tol_wrong_sign_lambda = 1e-8, tol_correct_sign_lambda = 1e-12, tol_feasibility = 1e-13;
  RegularizationType regularization_type = REGULARIZATION_NONE;
  Index max_number_of_CG_iterations = 10;
  RealScalar variable_regularization_factor = 0;
  bool cycling_handling_enabled = true;
  Index cycling_max_counter = 50;
  RealScalar cycling_relax_step = 1e-8;
  std::string output_file_name;
  bool modify_x_guess_enabled = false, modify_type_active_enabled = false, modify_type_inactive_enabled = false, set_min_init_ctr_violation = true, use_phase1_v0 = false, log_working_set_enabled = false, deactivate_first_wrong_sign = false;
};
namespace internal
{
class LexLSI
{
public:
  void setParameters(const ParametersLexLSI &) {}
  void resize(Index n, Index k, const Index * dim, const ObjectiveType * type)
  {
    n_ = n;
    dim_.assign(dim, dim + k);
    type_.assign(type, type + k);
    data_.assign(k, {});
    var_.assign(k, {});
  }
  void reset() { data_.assign(dim_.size(), {}); }
  void setData(Index i, const Eigen::MatrixXd & d)
  {
    sym_check(i < dim_.size() && type_[i] == GENERAL_OBJECTIVE, "the level is one of those declared");
    sym_check(d.rows() == dim_[i] && d.cols() == n_ + 2, "the size of the level is the one declared");
    data_[i] = d;
  }
  void setData(Index i, const Index * v, const Eigen::MatrixXd & d)
  {
    sym_check(i < dim_.size() && type_[i] == SIMPLE_BOUNDS_OBJECTIVE, "the level is one of those declared");
    sym_check(d.rows() == dim_[i] && d.cols() == 2, "the size of the level is the one declared");
    data_[i] = d;
    var_[i].assign(v, v + dim_[i]);
  }
  void activate(Index i, Index c, ConstraintActivationType, bool = true)
  {
    sym_check(i < dim_.size() && c < dim_[i], "only constraints of the problem are activated");
  }
  void set_x0(const Eigen::VectorXd & x) { sym_check(x.size() == n_, "the guess is a value of the variables"); }
  TerminationStatus solve()
  {
    rec::Problem p;
    p.n = n_;
    rec::lastLevels.clear();
    for(size_t i = 0; i < dim_.size(); ++i)
    {
      rec::Level l;
      sym_check(data_[i].rows() == dim_[i], "the data of each level are given");
      if(type_[i] == SIMPLE_BOUNDS_OBJECTIVE)
      {
        l.simple = true;
        p.xl = l.xl = Eigen::VectorXd::Constant(n_, -rec::big);
        p.xu = l.xu = Eigen::VectorXd::Constant(n_, rec::big);
        for(size_t k = 0; k < dim_[i]; ++k)
        {
          sym_check(var_[i][k] < n_, "bounds are put on the variables");
          p.xl[var_[i][k]] = l.xl[var_[i][k]] = data_[i](k, 0);
          p.xu[var_[i][k]] = l.xu[var_[i][k]] = data_[i](k, 1);
        }
      }
      else
        rec::doubleSided(data_[i].leftCols(n_), data_[i].col(n_), data_[i].col(n_ + 1), l.eq, l.ge);
      rec::lastLevels.push_back(l);
    }
    // as a least-squares problem: bounds, constraints, objectives
    if(rec::lastLevels.size() == 3 && rec::lastLevels[0].simple)
    {
      p.eq = rec::lastLevels[1].eq;
      p.ge = rec::lastLevels[1].ge;
      p.ls = rec::lastLevels[2].eq;
    }
    return rec::solve(p) ? (rec::solved % 2 ? PROBLEM_SOLVED : PROBLEM_SOLVED_CYCLING_HANDLING) : MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED;
  }
  const Eigen::VectorXd & get_x() const { return rec::result; }
  void getActiveCtr(Index i, std::vector<ConstraintActivationType> & a) const
  {
    for(size_t k = 0; k < dim_[i]; ++k) a.push_back(k % 2 ? CTR_ACTIVE_LB : CTR_ACTIVE_UB);
  }
  void getActiveCtr_order(std::vector<ConstraintIdentifier> & a) const
  {
    for(Index i = 0; i < dim_.size(); ++i)
      for(Index k = 0; k < dim_[i]; ++k) a.push_back({i, k, k % 2 ? CTR_ACTIVE_LB : CTR_ACTIVE_UB});
  }
  void print(const char *) const {}

private:
  Index n_ = 0;
  std::vector<Index> dim_;
  std::vector<ObjectiveType> type_;
  std::vector<Eigen::MatrixXd> data_;
  std::vector<std::vector<Index>> var_;
};
} // namespace internal
} // namespace LexLS
