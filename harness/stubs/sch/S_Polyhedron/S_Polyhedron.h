#pragma once
#include <sch/S_Object/S_Object.h>
#include <string>
namespace sch
{
class S_Polyhedron : public S_Object
{
public:
  void constructFromFile(const std::string & f) { file = f; }
  std::string file;
};
} // namespace sch
