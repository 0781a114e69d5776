// P26: sizes of products of spaces, comparison of spaces, sizes of the variables created from a space.
#include "vh.h"
#include <tvm/Variable.h>
using namespace tvm;
using namespace vf;
namespace
{
using T = Space::Type;
struct S
{
  T t;
  int m, r, d;
  Space s;
};
S any(int big)
{
  switch(sym_choose("type", 5))
  {
    case 0:
    {
      int n = sym_int("n", 0, big);
      return {T::Euclidean, n, n, n, Space(n)};
    }
    case 1:
      return {T::SO3, 3, 4, 3, Space(T::SO3)};
    case 2:
      return {T::SE3, 6, 7, 6, Space(T::SE3)};
    case 3:
    {
      int n = sym_int("n", 0, big);
      return {T::Euclidean, n, n, n, Space(T::Euclidean, n)};
    }
    default:
    {
      int m = sym_int("m", 0, big), r = sym_int("r", 0, big), d = sym_int("d", 0, big);
      sym_assume((r >= m) & (d >= m));
      if(sym_choose("short", 2))
      {
        sym_assume(d == m);
        return {r == m ? T::Euclidean : T::Unspecified, m, r, d, Space(m, r)};
      }
      return {(r == m) & (d == m) ? T::Euclidean : T::Unspecified, m, r, d, Space(m, r, d)};
    }
  }
}
void is(const Space & s, T t, int m, int r, int d, const char * msg)
{
  sym_check((s.size() == m) & (s.rSize() == r) & (s.tSize() == d), msg);
  sym_check(s.type() == t, msg);
  sym_check(s.isEuclidean() == (t == T::Euclidean), msg);
}
void algebra()
{
  const int big = 1000;
  S a = any(big), b = any(big);
  is(a.s, a.t, a.m, a.r, a.d, "space");
  Space ab = a.s * b.s, ba = b.s * a.s;
  T t = a.t == T::Euclidean && b.t == T::Euclidean ? T::Euclidean : T::Unspecified;
  is(ab, t, a.m + b.m, a.r + b.r, a.d + b.d, "product");
  sym_check(ab == ba, "order of a product");
  bool same = (a.m == b.m) & (a.r == b.r) & (a.d == b.d), eq = same & (a.t == b.t);
  sym_check((a.s == b.s) == eq, "equality");
  sym_check((a.s != b.s) != eq, "inequality");
  sym_check((a.s <= b.s) == ((a.m <= b.m) & (a.r <= b.r) & (a.d <= b.d)), "comparison");
  Space copy = a.s;
  sym_check(copy == a.s, "copy");
  sym_reach(t == T::Euclidean ? "Euclidean" : "other");
  if(sym_choose("three", 2))
  {
    S c = any(big);
    is(ab * c.s, t == T::Euclidean && c.t == T::Euclidean ? t : T::Unspecified, a.m + b.m + c.m, a.r + b.r + c.r, a.d + b.d + c.d, "product of 3");
    sym_check(ab * c.s == a.s * (b.s * c.s), "grouping of a product");
    sym_check(ab * c.s == c.s * ba, "order of a product of 3");
    Space q = a.s * a.s;
    sym_check(q.size() == 2 * a.m, "square");
    sym_reach("three");
  }
}
void variables()
{
  S s = any(2 + sym_tier());
  if(sym_choose("product", 2))
  {
    S b = any(1 + sym_tier());
    s = {s.t == T::Euclidean && b.t == T::Euclidean ? T::Euclidean : T::Unspecified, s.m + b.m, s.r + b.r, s.d + b.d, s.s * b.s};
  }
  int m = sym_conc(s.m), r = sym_conc(s.r), d = sym_conc(s.d);
  if(m == 0) return;
  VariablePtr x = s.s.createVariable("x");
  sym_check(x->size() == r, "size of a variable");
  sym_check(x->value().size() == r, "size of the value");
  sym_check(x->space() == s.s, "space of the variable");
  sym_check(x->isEuclidean() == s.s.isEuclidean(), "Euclidean variable");
  auto y = dot(x);
  sym_check(y->size() == d && y->value().size() == d, "size of the velocity");
  sym_check(y->space() == s.s, "space of the velocity");
  auto z = dot(y);
  sym_check(z->size() == d && z->value().size() == d, "size of the acceleration");
  VariablePtr c = x->duplicate("c");
  sym_check(c->size() == r && c->space() == s.s, "duplicate");
  VectorXd v = vec("v", r);
  x->set(v);
  eqv(x->value(), v, "value");
  sym_check(throws([&] { x->set(VectorXd(VectorXd::Zero(r + 1))); }), "a value of another size is refused");
  eqv(x->value(), v, "value");
  sym_reach("variable");
}
} // namespace
void harness()
{
  if(sym_choose("part", 2))
    algebra();
  else
    variables();
}
