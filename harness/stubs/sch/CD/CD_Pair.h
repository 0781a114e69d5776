#pragma once
#include <sch/S_Object/S_Object.h>
namespace sch
{
class CD_Pair
{
public:
  CD_Pair(S_Object * a, S_Object * b) : a_(a), b_(b) {}
  double getClosestPoints(Point3 & p, Point3 & q) { return closest()(*this, p, q); }
  S_Object *a_, *b_;
  using Fn = double (*)(CD_Pair &, Point3 &, Point3 &);
  static Fn & closest()
  {
    static Fn f = nullptr;
    return f;
  }
};
} // namespace sch
