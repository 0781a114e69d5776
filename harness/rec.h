// The problem a numerical library was given, in a common form, and how to compare it with the expected one.
#pragma once
#include "vh.h"
#include <cmath>
#include <cstdlib>
#include <iostream>
namespace rec
{
using Eigen::MatrixXd;
using Eigen::VectorXd;
struct Row // a^T x + (>=|=) b
{
  VectorXd a;
  double b;
};
// minimise the sum of squares of (a^T x - b) over ls (when given by rows), or x^T Q x / 2 + c^T x
// s.t. a^T x >= b, a^T x = b, xl <= x <= xu
struct Problem
{
  int n = 0;
  std::vector<Row> ls, ge, eq;
  VectorXd xl, xu;
  bool quadratic = false;
  MatrixXd Q;
  VectorXd c;
};
struct Level // of a hierarchical problem
{
  std::vector<Row> eq, ge;
  bool simple = false; // bounds on the variables
  VectorXd xl, xu;
};
inline Problem last;
inline std::vector<Level> lastLevels;
inline int solved = 0;
inline VectorXd result;  // what the library returns next
inline bool success = true;
inline bool fresh = true; // the result is made of new symbolic values
inline std::vector<tvm::VariablePtr> variables;
inline const double big = tvm::constant::big_number;

inline Row row(const MatrixXd & A, const VectorXd & b, int i, double s = 1)
{
  Row r;
  r.a = VectorXd(A.cols());
  for(int j = 0; j < A.cols(); ++j) r.a[j] = s < 0 ? -A(i, j) : A(i, j);
  r.b = s < 0 ? -b[i] : b[i];
  return r;
}
inline bool isBig(double v) { return sym_same(v, big) || sym_same(v, -big); }
// R^T R, R being the upper triangular part of the matrix given
inline MatrixXd gram(const MatrixXd & R)
{
  MatrixXd Q = MatrixXd::Zero(R.rows(), R.rows());
  for(int i = 0; i < R.rows(); ++i)
    for(int j = 0; j < R.rows(); ++j)
      for(int k = 0; k <= std::min(i, j); ++k) Q(i, j) += R(k, i) * R(k, j);
  return Q;
}
// inverse of an upper triangular matrix
inline MatrixXd invUpper(const MatrixXd & U)
{
  int n = U.rows();
  MatrixXd X = MatrixXd::Zero(n, n);
  for(int j = 0; j < n; ++j)
    for(int i = j; i >= 0; --i)
    {
      double s = i == j;
      for(int k = i + 1; k <= j; ++k) s -= U(i, k) * X(k, j);
      X(i, j) = s / U(i, i);
    }
  return X;
}
// so large that it is no limit (a weight might have been applied)
inline bool isNoLimit(double v) { return isBig(v) || v > big / 1000 || v < -big / 1000; }
// l <= A x <= u
inline void doubleSided(const MatrixXd & A, const VectorXd & l, const VectorXd & u, std::vector<Row> & eq, std::vector<Row> & ge)
{
  for(int i = 0; i < A.rows(); ++i)
  {
    if(sym_same(l[i], u[i]))
      eq.push_back(row(A, l, i));
    else
    {
      if(!isNoLimit(l[i])) ge.push_back(row(A, l, i));
      if(!isNoLimit(u[i])) ge.push_back(row(A, u, i, -1));
    }
  }
}
// A library solves the problem p
inline bool solve(const Problem & p)
{
  last = p;
  if(fresh) result = vf::vec("solution", p.n);
  ++solved;
  return success;
}
inline bool same(const Row & r, const Row & s, double f)
{
  if(r.a.size() != s.a.size() || !sym_same(r.b, f * s.b)) return false;
  for(int j = 0; j < r.a.size(); ++j)
    if(!sym_same(r.a[j], f * s.a[j])) return false;
  return true;
}
// the rows are the expected ones, in any order (up to a sign when anySign)
inline void compare(const std::vector<Row> & got, const std::vector<Row> & exp, bool anySign, const char * msg)
{
  sym_check(got.size() == exp.size(), msg);
  if(got.size() != exp.size()) return;
  std::vector<bool> used(got.size(), false);
  std::vector<int> pair(exp.size(), -1);
  std::vector<double> sign(exp.size(), 1);
  for(size_t i = 0; i < exp.size(); ++i)
    for(size_t k = 0; k < got.size() && pair[i] < 0; ++k)
      for(double f : {1., -1.})
        if((f > 0 || anySign) && !used[k] && pair[i] < 0 && same(exp[i], got[k], f))
        {
          pair[i] = k;
          used[k] = true;
          sign[i] = f;
        }
  if(sym_native() && getenv("REC_PRINT"))
    for(bool e : {true, false})
      for(auto & r : e ? exp : got) std::cout << (e ? "expected " : "got ") << r.a.transpose() << " | " << r.b << std::endl;
  for(size_t i = 0; i < exp.size(); ++i)
  {
    for(size_t k = 0; k < got.size() && pair[i] < 0; ++k)
      if(!used[k])
      {
        pair[i] = k;
        used[k] = true;
      }
    const Row & g = got[pair[i]];
    sym_check(g.a.size() == exp[i].a.size(), msg);
    if(g.a.size() != exp[i].a.size()) continue;
    for(int j = 0; j < g.a.size(); ++j) sym_check_eq(exp[i].a[j], sign[i] * g.a[j], msg);
    sym_check_eq(exp[i].b, sign[i] * g.b, msg);
  }
}
inline void compare(const Problem & got, const Problem & exp)
{
  sym_check(got.n == exp.n, "number of variables");
  compare(got.eq, exp.eq, true, "the equality constraints are those of the problem");
  compare(got.ge, exp.ge, false, "the inequality constraints are those of the problem");
  if(got.quadratic)
  {
    MatrixXd Q = MatrixXd::Zero(exp.n, exp.n);
    VectorXd c = VectorXd::Zero(exp.n);
    for(const auto & r : exp.ls)
      for(int i = 0; i < exp.n; ++i)
      {
        for(int j = 0; j < exp.n; ++j) Q(i, j) += r.a[i] * r.a[j];
        c[i] -= r.a[i] * r.b;
      }
    vf::eqv(got.Q, Q, "the cost is that of the problem");
    vf::eqv(got.c, c, "the cost is that of the problem");
  }
  else
    compare(got.ls, exp.ls, true, "the objectives are those of the problem");
  vf::eqv(got.xl, exp.xl, "the lower bounds are those of the problem");
  vf::eqv(got.xu, exp.xu, "the upper bounds are those of the problem");
}
} // namespace rec
