#pragma once
#include <string>
namespace sm {
class PropertyTree {
public:
  PropertyTree() {}
  PropertyTree(const PropertyTree&, const std::string&) {}
  double getDouble(const std::string&) const { return 0; }
  double getDouble(const std::string&, double d) const { return d; }
  int getInt(const std::string&) const { return 0; }
  int getInt(const std::string&, int d) const { return d; }
  bool getBool(const std::string&) const { return false; }
  bool getBool(const std::string&, bool d) const { return d; }
};
}
