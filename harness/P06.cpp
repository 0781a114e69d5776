// P06: the properties deduced for a matrix are true for all the matrices the deduction applies to.
#include "vh.h"
#include <tvm/internal/MatrixProperties.h>
#include <tvm/internal/MatrixWithProperties.h>
using namespace tvm::internal;
using namespace vf;
using MP = MatrixProperties;
namespace
{
// a symbolic 2x2 matrix
struct M
{
  double a, b, c, d; // a b ; c d
  double det() const { return a * d - b * c; }
};
M sym(const char * n) { return {sym_real(n, -10, 10), sym_real(n, -10, 10), sym_real(n, -10, 10), sym_real(n, -10, 10)}; }
// (no short-circuit below: one formula, no fork)
bool shape(const M & m, int s)
{
  switch(s)
  {
    case MP::LOWER_TRIANGULAR: return m.b == 0;
    case MP::UPPER_TRIANGULAR: return m.c == 0;
    case MP::DIAGONAL: return (m.b == 0) & (m.c == 0);
    case MP::MULTIPLE_OF_IDENTITY: return (m.b == 0) & (m.c == 0) & (m.a == m.d);
    case MP::IDENTITY: return (m.b == 0) & (m.c == 0) & (m.a == 1) & (m.d == 1);
    case MP::MINUS_IDENTITY: return (m.b == 0) & (m.c == 0) & (m.a == -1) & (m.d == -1);
    case MP::ZERO: return (m.b == 0) & (m.c == 0) & (m.a == 0) & (m.d == 0);
    default: return true;
  }
}
bool pos(const M & m, int p)
{
  bool sy = m.b == m.c;
  double det = m.det();
  switch(p)
  {
    case MP::NA: return true;
    case MP::POSITIVE_SEMIDEFINITE: return sy & (m.a >= 0) & (m.d >= 0) & (det >= 0);
    case MP::POSITIVE_DEFINITE: return sy & (m.a > 0) & (m.d > 0) & (det > 0);
    case MP::NEGATIVE_SEMIDEFINITE: return sy & (m.a <= 0) & (m.d <= 0) & (det >= 0);
    case MP::NEGATIVE_DEFINITE: return sy & (m.a < 0) & (m.d < 0) & (det > 0);
    case MP::INDEFINITE: return sy;
    default: return sy & (det != 0);
  }
}
bool has(const M & m, const MP & p)
{
  bool r = shape(m, p.shape()) & pos(m, p.positiveness());
  if(p.isInvertible()) r = r & (m.det() != 0);
  return r;
}
// all that is claimed, through every accessor
void check(const M & m, const MP & p)
{
  sym_check(shape(m, p.shape()), "the deduced shape is true of the matrix");
  sym_check(pos(m, p.positiveness()), "the deduced positiveness is true of the matrix");
  if(p.isInvertible()) sym_check(m.det() != 0, "a matrix deduced invertible is invertible");
  if(p.isTriangular()) sym_check((m.b == 0) | (m.c == 0), "isTriangular");
  if(p.isLowerTriangular()) sym_check(m.b == 0, "isLowerTriangular");
  if(p.isUpperTriangular()) sym_check(p.shape() == MP::LOWER_TRIANGULAR || p.shape() >= MP::UPPER_TRIANGULAR, "isUpperTriangular");
  if(p.isUpperTriangular()) sym_check(m.c == 0, "isUpperTriangular");
  if(p.isDiagonal()) sym_check(shape(m, MP::DIAGONAL), "isDiagonal");
  if(p.isMultipleOfIdentity()) sym_check(shape(m, MP::MULTIPLE_OF_IDENTITY), "isMultipleOfIdentity");
  if(p.isIdentity()) sym_check(shape(m, MP::IDENTITY), "isIdentity");
  if(p.isMinusIdentity()) sym_check(shape(m, MP::MINUS_IDENTITY), "isMinusIdentity");
  if(p.isZero()) sym_check(shape(m, MP::ZERO), "isZero");
  if(p.isSymmetric()) sym_check(m.b == m.c, "isSymmetric");
  if(p.isPositiveSemiDefinite()) sym_check(pos(m, MP::POSITIVE_SEMIDEFINITE), "isPositiveSemiDefinite");
  if(p.isPositiveDefinite()) sym_check(pos(m, MP::POSITIVE_DEFINITE), "isPositiveDefinite");
  if(p.isNegativeSemidefinite()) sym_check(pos(m, MP::NEGATIVE_SEMIDEFINITE), "isNegativeSemidefinite");
  if(p.isNegativeDefinite()) sym_check(pos(m, MP::NEGATIVE_DEFINITE), "isNegativeDefinite");
  if(p.isIndefinite()) sym_check(m.b == m.c, "isIndefinite");
  if(p.isNonZeroIndefinite()) sym_check(pos(m, MP::NON_ZERO_INDEFINITE), "isNonZeroIndefinite");
  // what is claimed is consistent
  sym_check(!(p.isDiagonal() && !p.isSymmetric()), "diagonal matrices are symmetric");
  sym_check(p.constness() == p.isConstant() && p.invertibility() == p.isInvertible(), "accessors agree");
}
MP make(int s, int p, int c, int i)
{
  MP::Shape sh = (MP::Shape)s;
  MP::Positiveness po = (MP::Positiveness)p;
  if(c && i) return MP(sh, po, MP::Constness(c == 2), MP::Invertibility(i == 2));
  if(c) return MP(MP::Constness(c == 2), sh, po);
  if(i) return MP(po, MP::Invertibility(i == 2), sh);
  return MP(sh, po);
}
const M witnesses[] = {{1, 0, 0, 1}, {-1, 0, 0, -1}, {0, 0, 0, 0},  {2, 0, 0, 2},  {-2, 0, 0, -2}, {1, 0, 0, 2},
                       {1, 0, 0, 0}, {-1, 0, 0, 0},  {1, 0, 0, -1}, {2, 1, 1, 2},  {-2, 1, 1, -2}, {1, 1, 1, 1},
                       {1, 2, 2, 1}, {1, 0, 1, 1},   {1, 1, 0, 1},  {1, 2, 3, 4}, {0, 0, 1, 0},   {0, 1, 0, 0},
                       {1, 2, 3, 6}, {-1, 1, 1, -1}};
// all the distinct properties that can be built
struct K
{
  int s, p, i;
};
std::vector<K> kinds()
{
  std::vector<K> l;
  for(int s = 0; s < 8; ++s)
    for(int p = 0; p < 7; ++p)
      for(int i = 0; i < 2; ++i)
      {
        MP m;
        if(throws([&] { m = make(s, p, 0, i ? 2 : 0); })) continue;
        bool known = false;
        for(auto & k : l)
        {
          MP q = make(k.s, k.p, 0, k.i);
          if(q.shape() == m.shape() && q.positiveness() == m.positiveness() && q.isInvertible() == m.isInvertible())
            known = true;
        }
        if(!known) l.push_back({s, p, i ? 2 : 0});
      }
  return l;
}
} // namespace
void harness()
{
  int what = sym_choose("operation", 7);
  if(what == 6) // the properties attached to a matrix
  {
    int sh = sym_choose("shape", 8);
    MP p = make(sh, 0, 0, 0), none;
    auto same = [](const MP & u, const MP & v) {
      return u.shape() == v.shape() && u.positiveness() == v.positiveness() && u.isConstant() == v.isConstant() && u.isInvertible() == v.isInvertible();
    };
    Eigen::MatrixXd v = mat("v", 2, 2, -10, 10), w = mat("w", 2, 2, -10, 10);
    MatrixWithProperties m(2, 2);
    m = v;
    m.properties(p);
    sym_check(same(m.properties(), p), "the properties given with a matrix are kept");
    bool kept = false;
    Eigen::MatrixXd e = w;
    switch(sym_choose("assignment", 6))
    {
      case 0: m = w; break;
      case 1: m += w; e = v + w; break;
      case 2: m -= w; e = v - w; break;
      case 3: m.keepProperties(true) = w; kept = true; break;
      case 4: m.keepProperties(false) = w; break;
      default: m.assignKeepProperties(w); kept = true;
    }
    sym_check(same(m.properties(), kept ? p : none), "assigning a matrix resets the properties, unless asked otherwise");
    eqv(m, e, "values assigned");
    MatrixConstRefWithProperties ref = m;
    sym_check(same(ref.properties(), m.properties()), "a reference has the properties of the matrix");
    eqv(ref, e, "referred values");
    sym_reach("matrix");
    return;
  }
  if(what == 0) // deduction from the arguments of the user
  {
    int s = sym_choose("shape", 8), p = sym_choose("positiveness", 7), c = sym_choose("constness", 3),
        i = sym_choose("invertibility", 3);
    MP mp;
    bool t = throws([&] { mp = make(s, p, c, i); });
    M m = sym("m");
    bool constant = s == MP::IDENTITY || s == MP::MINUS_IDENTITY || s == MP::ZERO;
    bool exists = false;
    auto fits = [&](const M & w) {
      bool r = shape(w, s) & pos(w, p);
      if(i == 2) r = r & (w.det() != 0);
      return r;
    };
    for(const M & w : witnesses)
    {
      bool ok = fits(w);
      if(i == 1) ok = ok && w.det() == 0; // explicitly not invertible
      exists = exists || ok;
    }
    if(t)
    {
      sym_check(!exists || (constant && c == 1), "arguments are refused only when they are contradictory");
      if(!(constant && c == 1))
      {
        bool f = fits(m);
        if(i == 1) f = f & (m.det() == 0);
        sym_check(!f, "arguments are refused only when no matrix satisfies them");
      }
      sym_reach("refused");
      return;
    }
    sym_check(exists && !(constant && c == 1), "contradictory arguments are refused");
    bool f = fits(m);
    sym_assume(f);
    check(m, mp);
    // what was declared, and what it implies, is reported
    bool dg = s == MP::DIAGONAL || s == MP::MULTIPLE_OF_IDENTITY || constant, id = s == MP::IDENTITY, mi = s == MP::MINUS_IDENTITY,
         z = s == MP::ZERO, pd = p == MP::POSITIVE_DEFINITE || id, nd = p == MP::NEGATIVE_DEFINITE || mi;
    sym_check(s != MP::LOWER_TRIANGULAR || mp.isLowerTriangular(), "a declared shape is reported");
    sym_check(s != MP::UPPER_TRIANGULAR || mp.isUpperTriangular(), "a declared shape is reported");
    sym_check(!(s == MP::LOWER_TRIANGULAR || s == MP::UPPER_TRIANGULAR) || mp.isTriangular(), "a declared shape is reported");
    sym_check(!dg || (mp.isDiagonal() && mp.isTriangular() && mp.isLowerTriangular() && mp.isUpperTriangular() && mp.isSymmetric()),
              "a diagonal matrix is reported as such");
    sym_check(!(constant || s == MP::MULTIPLE_OF_IDENTITY) || mp.isMultipleOfIdentity(), "a multiple of identity is reported as such");
    sym_check(mp.isIdentity() == id && mp.isMinusIdentity() == mi && (!z || mp.isZero()), "the shapes are distinguished");
    sym_check(p == MP::NA || mp.isSymmetric(), "a signed matrix is symmetric");
    sym_check(!pd || (mp.isPositiveDefinite() && mp.isPositiveSemiDefinite()), "a declared positiveness is reported");
    sym_check(!nd || (mp.isNegativeDefinite() && mp.isNegativeSemidefinite()), "a declared positiveness is reported");
    sym_check(!(p == MP::POSITIVE_SEMIDEFINITE || z) || mp.isPositiveSemiDefinite(), "a declared positiveness is reported");
    sym_check(!(p == MP::NEGATIVE_SEMIDEFINITE || z) || mp.isNegativeSemidefinite(), "a declared positiveness is reported");
    sym_check(!(p == MP::INDEFINITE || p == MP::NON_ZERO_INDEFINITE) || mp.isIndefinite() || mp.positiveness() != (MP::Positiveness)p,
              "a declared positiveness is reported");
    sym_check(!(i == 2 || pd || nd || p == MP::NON_ZERO_INDEFINITE) || mp.isInvertible(), "a declared invertibility is reported");
    if(c == 2) sym_check(mp.isConstant(), "constness is kept");
    if(c == 1) sym_check(!mp.isConstant(), "constness is kept");
    if(c == 0) sym_check(mp.isConstant() == constant, "constness is not invented");
    sym_reach("deduction");
    return;
  }
  std::vector<K> l = kinds();
  K k1 = l[sym_choose("first", (int)l.size())];
  bool c1 = sym_choose("const", 2);
  M a = sym("a");
  if(what <= 2)
  {
    MP p1, r;
    if(throws([&] { p1 = make(k1.s, k1.p, c1 ? 2 : 0, k1.i); })) sym_cut("no such properties");
    sym_assume(has(a, p1));
    if(what == 1)
    {
      bool t = throws([&] { r = -p1; });
      sym_check(!t, "the negation of a matrix has properties");
      if(t) return;
      check({-a.a, -a.b, -a.c, -a.d}, r);
      sym_check(!r.isConstant() || p1.isConstant() || r.isZero(), "constness is not invented");
      sym_reach("negation");
    }
    else
    {
      double d = sym_real("d", -10, 10);
      if(sym_choose("one", 2)) sym_assume(d == 1);
      bool t = throws([&] { r = d * p1; });
      sym_check(!t, "the product of a matrix by a scalar has properties");
      if(t) return;
      check({d * a.a, d * a.b, d * a.c, d * a.d}, r);
      sym_check(!r.isConstant() || p1.isConstant() || r.isZero(), "constness is not invented");
      sym_reach("scaling");
    }
    return;
  }
  K k2 = l[sym_choose("second", (int)l.size())];
  MP p1 = make(k1.s, k1.p, c1 ? 2 : 0, k1.i), p2 = make(k2.s, k2.p, 0, k2.i), r;
  M b = sym("b");
  sym_assume(has(a, p1) & has(b, p2));
  bool t = throws([&] { r = what == 3 ? p1 + p2 : what == 4 ? p1 - p2 : p1 * p2; });
  sym_check(!t, "a sum, difference or product of two matrices has properties");
  if(t) return;
  sym_check(!r.isConstant() || r.isZero() || (p1.isConstant() && p2.isConstant()), "constness is not invented");
  if(what == 3) check({a.a + b.a, a.b + b.b, a.c + b.c, a.d + b.d}, r);
  else if(what == 4) check({a.a - b.a, a.b - b.b, a.c - b.c, a.d - b.d}, r);
  else check({a.a * b.a + a.b * b.c, a.a * b.b + a.b * b.d, a.c * b.a + a.d * b.c, a.c * b.b + a.d * b.d}, r);
  sym_reach("binary");
}
