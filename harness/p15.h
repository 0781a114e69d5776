// Shared by P15 and P16: memory of a target, conventions, and comparison of what is written with what is expected.
#pragma once
#include "vh.h"
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/internal/Assignment.h>
using namespace tvm;
using namespace vf;
using namespace tvm::scheme::internal;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using constraint::Type;
using tvm::requirements::SolvingRequirementsWithCallbacks;
namespace
{
const int m = 2;
struct Memory
{
  MatrixXd A, A0;
  VectorXd b, l, u, b0, l0, u0;
  Memory(int r, int c) : A(mat("target A", r, c)), b(vec("target b", r)), l(vec("target l", r)), u(vec("target u", r)) { save(); }
  void save()
  {
    A0 = A;
    b0 = b;
    l0 = l;
    u0 = u;
  }
};
struct Target
{
  Type t;
  RHS r;
  std::shared_ptr<Range> range;
  AssignmentTarget at(Memory & mem) const
  {
    if(t == Type::DOUBLE_SIDED) return AssignmentTarget(range, mem.A, mem.l, mem.u, r);
    if(r == RHS::ZERO) return AssignmentTarget(range, MatrixRef(mem.A), t);
    return AssignmentTarget(range, mem.A, mem.b, t, r);
  }
};
// S gives t (type), lower(), upper(), has(vv, column), coef(row, vv, column), lo(row), up(row); w[i]: factor expected on row i
template<typename S>
void compare(const S & s, const Target & t, const VariableVector & vv, Memory & mem, const VectorXd & w)
{
  const double big = Assignment::big_;
  double ts = t.r == RHS::OPPOSITE ? -1 : 1;
  bool twice = s.t == Type::DOUBLE_SIDED && t.t != Type::DOUBLE_SIDED;
  auto inRange = [&](int i) { return i >= t.range->start && i < t.range->start + t.range->dim; };
  for(int i = 0; i < mem.A.rows(); ++i)
  {
    if(!inRange(i))
    {
      for(int j = 0; j < mem.A.cols(); ++j) sym_check_eq(mem.A(i, j), mem.A0(i, j), "rows of other constraints are not touched");
      sym_check_eq(mem.b[i], mem.b0[i], "rows of other constraints are not touched");
      sym_check_eq(mem.l[i], mem.l0[i], "rows of other constraints are not touched");
      sym_check_eq(mem.u[i], mem.u0[i], "rows of other constraints are not touched");
      continue;
    }
    int k = i - t.range->start;
    bool second = twice && k >= m;
    if(second) k -= m;
    // sign of the row in the target
    double sg = 1;
    if(t.t == Type::GREATER_THAN) sg = s.t == Type::LOWER_THAN || second ? -1 : 1;
    if(t.t == Type::LOWER_THAN) sg = s.t == Type::GREATER_THAN || second ? -1 : 1;
    for(int j = 0; j < mem.A.cols(); ++j)
      if(s.has(vv, j))
        sym_check_eq(mem.A(i, j), sg * w[k] * s.coef(k, vv, j), "matrix rows are those of the constraint");
      else
        sym_check_eq(mem.A(i, j), mem.A0(i, j), "columns of other variables are not touched");
    if(t.t == Type::DOUBLE_SIDED)
    {
      if(s.lower())
        sym_check_eq(ts * mem.l[i], w[k] * s.lo(k), "lower bound is the one of the constraint");
      else
        sym_check_le(ts * mem.l[i], -big / 100, "no lower bound");
      if(s.upper())
        sym_check_eq(ts * mem.u[i], w[k] * s.up(k), "upper bound is the one of the constraint");
      else
        sym_check_le(big / 100, ts * mem.u[i], "no upper bound");
      sym_check_eq(mem.b[i], mem.b0[i], "unrelated vector is not touched");
    }
    else
    {
      double want;
      if(t.t == Type::EQUAL)
        want = s.lo(k);
      else if(twice)
        want = (t.t == Type::GREATER_THAN) != second ? s.lo(k) : s.up(k);
      else
        want = s.lo(k);
      if(t.r != RHS::ZERO)
        sym_check_eq(ts * mem.b[i], sg * w[k] * want, "right-hand side is the one of the constraint");
      else
        sym_check_eq(want, 0, "right-hand side is the one of the constraint");
      sym_check_eq(mem.l[i], mem.l0[i], "unrelated vector is not touched");
      sym_check_eq(mem.u[i], mem.u0[i], "unrelated vector is not touched");
    }
  }
  mem.save();
}
const Type types[] = {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED};
const RHS rhss[] = {RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE};
inline double wt(const char * n) { return sym_real(n, 0.25, 9); }
} // namespace
