// Stand-in for eigen-quadprog: records the problem
//   min. x^T Q x / 2 + c^T x  (Q = R^T R, and R^{-1} is given, upper triangular, when decomposed)
//   s.t. Aeq x = beq, Aineq x <= bineq
#pragma once
#include "../../rec.h"
namespace Eigen
{
class QuadProgDense
{
public:
  void problem(int nrvar, int nreq, int nrineq)
  {
    n_ = nrvar;
    eq_ = nreq;
    ineq_ = nrineq;
  }
  template<typename QT, typename CT, typename AT, typename BT, typename DT, typename ET>
  bool solve(const QT & Q, const CT & c, const AT & Aeq, const BT & beq, const DT & Aineq, const ET & bineq, bool decomposed = false)
  {
    sym_check(Q.rows() == n_ && Q.cols() == n_ && c.size() == n_, "the size of the cost is the one declared");
    sym_check(Aeq.rows() == eq_ && Aeq.cols() == n_ && beq.size() == eq_, "the size of the equality constraints is the one declared");
    sym_check(Aineq.rows() == ineq_ && Aineq.cols() == n_ && bineq.size() == ineq_, "the size of the inequality constraints is the one declared");
    rec::Problem p;
    p.n = n_;
    p.quadratic = true;
    p.Q = decomposed ? rec::gram(rec::invUpper(Q)) : MatrixXd(Q);
    p.c = c;
    for(int i = 0; i < Aeq.rows(); ++i) p.eq.push_back(rec::row(Aeq, beq, i));
    p.xl = VectorXd::Constant(n_, -rec::big);
    p.xu = VectorXd::Constant(n_, rec::big);
    for(int i = 0; i < Aineq.rows(); ++i)
      if(!rec::isBig(bineq[i])) p.ge.push_back(rec::row(Aineq, bineq, i, -1));
    return rec::solve(p);
  }
  const VectorXd & result() const { return rec::result; }
  int fail() const { return !rec::success; }

private:
  int n_ = -1, eq_ = 0, ineq_ = 0;
};
} // namespace Eigen
