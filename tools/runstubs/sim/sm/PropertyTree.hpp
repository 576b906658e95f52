#pragma once
#include <string>
namespace sm {
class PropertyTree {
public:
  PropertyTree() {}
  PropertyTree(const PropertyTree&, const std::string&) {}
  double getDouble(const std::string&) const { return 0; }
  int getInt(const std::string&) const { return 0; }
};
}
