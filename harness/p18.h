// P18: every instance of the compiled assignments, on symbolic operands. VF_MATRIX selects matrices or vectors.
#include "vh.h"
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>
using namespace tvm::scheme::internal;
using namespace vf;
namespace
{
#ifdef VF_MATRIX
using T = MatrixXd;
constexpr bool isMat = true;
#else
using T = VectorXd;
constexpr bool isMat = false;
#endif
using Wrap = CompiledAssignmentWrapper<T>;
const int R = 2;               // rows of the target
const int Co = isMat ? 2 : 1;  // columns of the target
double pm(const char * n) { return sym_real(n, -10, 10); }
// target: a block of a bigger matrix
struct Target
{
  MatrixXd big, before;
  int r0, c0, r, c;
  Target(int r_, int c_) : big(mat("target", r_ + 2, c_ + (isMat ? 2 : 0))), r0(1), c0(isMat ? 1 : 0), r(r_), c(c_) { before = big; }
  Eigen::Ref<T> ref()
  {
#ifdef VF_MATRIX
    return big.block(r0, c0, r, c);
#else
    return big.col(0).segment(r0, r);
#endif
  }
};
struct Ops
{
  T from;
  double cst, s;
  VectorXd d;
  MatrixXd M;
  Eigen::Index sr, sc; // size of the source
};
// value of weight * source * multiplier at (i,j), by the book
double src(AssignType, WeightMult W, MatrixMult M, Source F, const Ops & o, int i, int j)
{
  double v = 0;
  auto f = [&](int a, int b) { return F == CONSTANT ? o.cst : F == ZERO ? 0. : o.from(a, b); };
  if(M == IDENTITY)
    v = f(i, j);
  else if(M == INVERSE_DIAGONAL)
    v = isMat ? f(i, j) / o.M(j, j) : f(i, j) / o.M(i, i);
  else if(isMat)
    for(int k = 0; k < o.sc; ++k) v += f(i, k) * o.M(k, j);
  else
    for(int k = 0; k < o.M.cols(); ++k) v += o.M(i, k) * f(k, 0);
  return W == NONE ? v : W == MINUS ? -v : W == SCALAR ? o.s * v : o.d[i] * v;
}
void compare(AssignType A, WeightMult W, MatrixMult M, Source F, const Ops & o, Target & t)
{
  for(int i = 0; i < t.big.rows(); ++i)
    for(int j = 0; j < t.big.cols(); ++j)
    {
      int a = i - t.r0, b = j - t.c0;
      double old = t.before(i, j), now = t.big(i, j);
      if(a < 0 || b < 0 || a >= t.r || b >= t.c)
      {
        sym_check_eq(now, old, "an assignment does not write out of its target");
        continue;
      }
      double v = src(A, W, M, F, o, a, b);
      switch(A)
      {
        case COPY: sym_check_eq(now, v, "copy"); break;
        case ADD: sym_check_eq(now, old + v, "add"); break;
        case SUB: sym_check_eq(now, old - v, "subtract"); break;
        case MIN: sym_check_eq(now, std::min(old, v), "min"); break;
        case MAX: sym_check_eq(now, std::max(old, v), "max"); break;
      }
    }
  t.before = t.big;
}
template<AssignType A, WeightMult W, MatrixMult M, Source F>
Wrap build(Target & t, Ops & o)
{
  if constexpr(F == ZERO)
    return Wrap::make<A, W, M, F>(t.ref());
  else
  {
    auto with = [&](const auto & f) {
      if constexpr((W == NONE || W == MINUS) && M == IDENTITY)
        return Wrap::make<A, W, M, F>(t.ref(), f);
      else if constexpr(W == NONE || W == MINUS)
        return Wrap::make<A, W, M, F>(t.ref(), f, o.M);
      else if constexpr(W == SCALAR && M == IDENTITY)
        return Wrap::make<A, W, M, F>(t.ref(), f, o.s);
      else if constexpr(W == SCALAR)
        return Wrap::make<A, W, M, F>(t.ref(), f, o.s, o.M);
      else if constexpr(M == IDENTITY)
        return Wrap::make<A, W, M, F>(t.ref(), f, o.d);
      else
        return Wrap::make<A, W, M, F>(t.ref(), f, o.d, o.M);
    };
    if constexpr(F == CONSTANT)
      return with(o.cst);
    else
      return with(o.from);
  }
}
void values(MatrixMult M, Ops & o, bool first)
{
  T f = isMat ? T(mat("from", o.sr, o.sc)) : T(vec("from", o.sr));
  MatrixXd m;
  if(M == GENERAL) m = isMat ? mat("M", o.sc, Co) : mat("M", R, o.sr);
  if(M == INVERSE_DIAGONAL)
  {
    int n = isMat ? Co : R;
    m = MatrixXd::Constant(n, n, 1e6); // only the diagonal matters
    for(int i = 0; i < n; ++i)
    {
      m(i, i) = pm("diagonal");
      sym_assume(m(i, i) != 0);
    }
  }
  VectorXd d = vec("d", R);
  if(first)
  {
    o.from = f;
    o.M = m;
    o.d = d;
    o.cst = pm("constant");
  }
  else // same storage: the assignment has to see the new values (but the constant, which is given by value)
  {
    for(int i = 0; i < f.size(); ++i) o.from.data()[i] = f.data()[i];
    for(int i = 0; i < m.size(); ++i) o.M.data()[i] = m.data()[i];
    for(int i = 0; i < d.size(); ++i) o.d.data()[i] = d.data()[i];
  }
  o.s = pm("s");
}
template<AssignType A, WeightMult W, MatrixMult M, Source F>
void one()
{
  if constexpr(isMat && F == CONSTANT)
    return;
  else
  {
    Ops o;
    o.sr = isMat ? R : M == GENERAL ? 3 : R;
    o.sc = isMat ? (M == GENERAL ? 3 : Co) : 1;
    values(M, o, true);
    Target t(R, Co), u(R, Co);
    Wrap w = build<A, W, M, F>(t, o);
    values(M, o, false);
    w.run();
    compare(A, W, M, F, o, t);
    switch(sym_choose("then", 3))
    {
      case 0: // new values
        values(M, o, false);
        w.run();
        compare(A, W, M, F, o, t);
        sym_reach("again");
        break;
      case 1: // new source and target
      {
        T f2 = isMat ? T(mat("from2", o.sr, o.sc)) : T(vec("from2", o.sr));
        double c2 = pm("constant2");
        w.to(u.ref());
        if(F == CONSTANT)
        {
          sym_check(throws([&] { w.from(f2); }), "no vector for a constant");
          w.from(c2);
        }
        else
        {
          sym_check(throws([&] { w.from(c2); }), "no constant for a vector or matrix");
          w.from(f2);
        }
        o.from = f2;
        o.cst = c2;
        t.before = t.big;
        w.run();
        compare(A, W, M, F, o, u);
        eqv(t.big, t.before, "the former target is not touched");
        sym_reach("changed");
        break;
      }
      default: // copies are independent of the original
      {
        Wrap v(w), x;
        x = w;
        v.to(u.ref());
        v.run();
        compare(A, W, M, F, o, u);
        x.run();
        compare(A, W, M, F, o, t);
        Wrap z = std::move(v);
        v = w;
        z.run();
        compare(A, W, M, F, o, u);
        eqv(t.big, t.before, "the target of the original is not touched");
        // the source of a copy can be changed
        T f2 = isMat ? T(mat("from2", o.sr, o.sc)) : T(vec("from2", o.sr));
        double c2 = pm("constant2");
        if(F == CONSTANT)
          x.from(c2);
        else
          x.from(f2);
        o.from = f2;
        o.cst = c2;
        x.run();
        compare(A, W, M, F, o, t);
        sym_reach("copied");
      }
    }
  }
}
template<AssignType A, WeightMult W, MatrixMult M>
void f3()
{
  switch(sym_choose("source", isMat ? 2 : 3))
  {
    case 0: one<A, W, M, EXTERNAL>(); break;
    case 1: one<A, W, M, ZERO>(); break;
    default: one<A, W, M, CONSTANT>();
  }
}
template<AssignType A, WeightMult W>
void f2()
{
  switch(sym_choose("multiplier", 3))
  {
    case 0: f3<A, W, IDENTITY>(); break;
    case 1: f3<A, W, GENERAL>(); break;
    default: f3<A, W, INVERSE_DIAGONAL>();
  }
}
template<AssignType A>
void f1()
{
  switch(sym_choose("weight", 4))
  {
    case 0: f2<A, NONE>(); break;
    case 1: f2<A, MINUS>(); break;
    case 2: f2<A, SCALAR>(); break;
    default: f2<A, DIAGONAL>();
  }
}
} // namespace
void harness()
{
  switch(sym_choose("operation", 5))
  {
    case 0: f1<COPY>(); break;
    case 1: f1<ADD>(); break;
    case 2: f1<SUB>(); break;
    case 3: f1<MIN>(); break;
    default: f1<MAX>();
  }
}
