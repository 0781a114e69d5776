// Helpers shared by the harnesses.
#pragma once
#include "sym.h"
#include <tvm/defs.h>
#include <Eigen/Core>
#include <exception>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace vf
{
using Eigen::MatrixXd;
using Eigen::VectorXd;

inline VectorXd vec(const char * name, int n, double lo = -10, double hi = 10)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v[i] = sym_real(name, lo, hi);
  return v;
}
inline MatrixXd mat(const char * name, int m, int n, double lo = -10, double hi = 10)
{
  MatrixXd v(m, n);
  for(int i = 0; i < m; ++i)
    for(int j = 0; j < n; ++j) v(i, j) = sym_real(name, lo, hi);
  return v;
}
template<typename A, typename B>
inline void eqv(const A & a, const B & b, const char * msg)
{
  sym_check(a.rows() == b.rows() && a.cols() == b.cols(), msg);
  if(a.rows() != b.rows() || a.cols() != b.cols()) return;
  for(Eigen::Index i = 0; i < a.rows(); ++i)
    for(Eigen::Index j = 0; j < a.cols(); ++j) sym_check_eq(a(i, j), b(i, j), msg);
}
// A value in [0, n): a symbolic integer, whose values are enumerated by the solver
inline int anyInt(const char * name, int n) { return sym_conc(sym_int(name, 0, n - 1)); }
// Runs f and returns true if it threw
template<typename F>
inline bool throws(F && f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}
// naive product (no Eigen product kernels): oracle
inline MatrixXd mul(const MatrixXd & A, const MatrixXd & B)
{
  MatrixXd C(A.rows(), B.cols());
  for(int i = 0; i < A.rows(); ++i)
    for(int j = 0; j < B.cols(); ++j)
    {
      double s = 0;
      for(int k = 0; k < A.cols(); ++k) s += A(i, k) * B(k, j);
      C(i, j) = s;
    }
  return C;
}
} // namespace vf

#ifdef VF_GRAPH
#  include <tvm/graph/CallGraph.h>
namespace vf
{
// Runs the updates needed by the given outputs of source
template<typename T, typename... O>
inline void run(const std::shared_ptr<T> & source, O... o)
{
  auto in = std::make_shared<tvm::graph::internal::Inputs>();
  in->addInput(source, o...);
  tvm::graph::CallGraph g;
  g.add(in);
  g.update();
  g.execute();
}
} // namespace vf
#endif

#ifdef VF_PROPERTIES
#  include <tvm/internal/MatrixProperties.h>
namespace vf
{
// What p says about the shape of M is true
inline void claims(const tvm::internal::MatrixProperties & p, const MatrixXd & M, const char * msg)
{
  for(int i = 0; i < M.rows(); ++i)
    for(int j = 0; j < M.cols(); ++j)
    {
      if(p.isZero()) sym_check_eq(M(i, j), 0, msg);
      if(p.isIdentity()) sym_check_eq(M(i, j), i == j, msg);
      if(p.isMinusIdentity()) sym_check_eq(M(i, j), -(i == j), msg);
      if(p.isDiagonal() && i != j) sym_check_eq(M(i, j), 0, msg);
      if(p.isMultipleOfIdentity() && i == j) sym_check_eq(M(i, j), M(0, 0), msg);
      if(p.isLowerTriangular() && i < j) sym_check_eq(M(i, j), 0, msg);
      if(p.isUpperTriangular() && i > j) sym_check_eq(M(i, j), 0, msg);
    }
  if(p.isIdentity() || p.isMinusIdentity() || p.isMultipleOfIdentity() || p.isDiagonal())
    sym_check(M.rows() == M.cols() || p.isZero(), msg);
}
} // namespace vf
#endif
