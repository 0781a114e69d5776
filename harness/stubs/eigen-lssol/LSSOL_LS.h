// Stand-in for eigen-lssol: records the problem
//   min. ||b - A x||^2  (nothing for FP)   s.t. l <= (x, C x) <= u
// A is overwritten by the resolution.
#pragma once
#include "../../rec.h"
namespace Eigen
{
namespace lssol
{
enum class eType
{
  FP, LP, QP1, QP2, QP3, QP4, LS1, LS2, LS3, LS4
};
struct Options
{
#define VF_OPTION(T, name, value)    \
  T name() const { return name##_; } \
  void name(T v) { name##_ = v; }    \
  T name##_ = value;
  VF_OPTION(double, crashTol, 0.01)
  VF_OPTION(int, feasibilityMaxIter, 50)
  VF_OPTION(double, feasibilityTol, 1e-8)
  VF_OPTION(double, infiniteBnd, 1e10)
  VF_OPTION(double, infiniteStep, 1e10)
  VF_OPTION(int, optimalityMaxIter, 50)
  VF_OPTION(bool, persistence, false)
  VF_OPTION(int, printLevel, 0)
  VF_OPTION(double, rankTol, 1e-8)
  VF_OPTION(bool, warm, false)
  VF_OPTION(bool, forceMinSize, true)
#undef VF_OPTION
  const char * inform() const { return ""; }
  void print_inform() const {}
  const VectorXd & result() const { return rec::result; }

protected:
  template<typename CT, typename LT, typename UT>
  rec::Problem problem(const CT & C, const LT & l, const UT & u)
  {
    sym_check(C.rows() == m_ && C.cols() == n_, "the size of the constraints is the one declared");
    sym_check(l.size() == n_ + m_ && u.size() == n_ + m_, "the size of the bounds is the one declared");
    rec::Problem p;
    p.n = n_;
    p.xl = l.head(n_);
    p.xu = u.head(n_);
    rec::doubleSided(C, l.tail(m_), u.tail(m_), p.eq, p.ge);
    return p;
  }
  int n_ = -1, m_ = 0;
};
} // namespace lssol
class LSSOL_LS : public lssol::Options
{
public:
  void resize(int n, int m, lssol::eType t)
  {
    n_ = n;
    m_ = m;
    t_ = t;
  }
  template<typename CT, typename LT, typename UT>
  bool solve(MatrixXd & A, const VectorXd & b, const CT & C, const LT & l, const UT & u)
  {
    auto p = problem(C, l, u);
    sym_check(t_ == lssol::eType::LS1, "the problem is a least-squares one");
    sym_check(A.rows() == b.size() && A.cols() == n_, "the size of the objectives is the one declared");
    for(int i = 0; i < A.rows(); ++i) p.ls.push_back(rec::row(A, b, i));
    for(int i = 0; i < A.rows(); ++i)
      for(int j = 0; j < A.cols(); ++j) A(i, j) = 1234 + i - 2 * j;
    return rec::solve(p);
  }

private:
  lssol::eType t_;
};
class LSSOL_FP : public lssol::Options
{
public:
  void resize(int n, int m)
  {
    n_ = n;
    m_ = m;
  }
  template<typename CT, typename LT, typename UT>
  bool solve(const CT & C, const LT & l, const UT & u)
  {
    return rec::solve(problem(C, l, u));
  }
};
} // namespace Eigen
