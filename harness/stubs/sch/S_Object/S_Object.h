// Stand-in for sch-core: records where objects are placed; the nearest points are those set by the harness.
#pragma once
namespace sch
{
class Matrix4x4
{
public:
  double & operator()(unsigned int i, unsigned int j) { return v[i][j]; }
  const double & operator()(unsigned int i, unsigned int j) const { return v[i][j]; }

private:
  double v[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
};
class Point3
{
public:
  double & operator[](int i) { return v[i]; }
  const double & operator[](int i) const { return v[i]; }

private:
  double v[3] = {0, 0, 0};
};
class S_Object
{
public:
  virtual ~S_Object() {}
  void setTransformation(const Matrix4x4 & t)
  {
    m = t;
    ++placed;
  }
  Matrix4x4 m;
  int placed = 0;
};
} // namespace sch
