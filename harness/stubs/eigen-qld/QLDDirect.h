// Stand-in for eigen-qld: records the problem
//   min. x^T Q x / 2 + c^T x  (Q = R^T R, R upper triangular, when decomposed)
//   s.t. A x + b = 0 (first nreq rows), A x + b >= 0 (others), xl <= x <= xu
#pragma once
#include "../../rec.h"
namespace Eigen
{
class QLDDirect
{
public:
  void problem(int nrvar, int nreq, int nrineq, int ldq = -1, int lda = -1)
  {
    n_ = nrvar;
    eq_ = nreq;
    ineq_ = nrineq;
  }
  template<typename QT, typename CT, typename AT, typename BT, typename LT, typename UT>
  bool solve(const QT & Q, const CT & c, const AT & A, const BT & b, const LT & xl, const UT & xu, int nreq, bool decomposed = false, double eps = 1e-6)
  {
    sym_check(Q.rows() == n_ && Q.cols() == n_ && c.size() == n_, "the size of the cost is the one declared");
    sym_check(A.rows() == eq_ + ineq_ && A.cols() == n_ && b.size() == eq_ + ineq_ && nreq == eq_, "the size of the constraints is the one declared");
    sym_check(xl.size() == n_ && xu.size() == n_, "the size of the bounds is the one declared");
    rec::Problem p;
    p.n = n_;
    p.quadratic = true;
    p.Q = decomposed ? rec::gram(Q) : MatrixXd(Q);
    p.c = c;
    for(int i = 0; i < A.rows(); ++i)
    {
      auto r = rec::row(A, b, i);
      r.b = -r.b;
      (i < nreq ? p.eq : p.ge).push_back(r);
    }
    p.xl = xl;
    p.xu = xu;
    return rec::solve(p);
  }
  const VectorXd & result() const { return rec::result; }
  int fail() const { return !rec::success; }

private:
  int n_ = -1, eq_ = 0, ineq_ = 0;
};
} // namespace Eigen
