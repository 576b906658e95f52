#pragma once
#include <map>
#include <string>
namespace sm {
class PropertyTree {            // entries by their full path
public:
  PropertyTree() {}
  double getDouble(const std::string& k, double d) const { return v.count(k) ? v.find(k)->second : d; }
  bool getBool(const std::string& k, bool d) const { return v.count(k) ? v.find(k)->second != 0 : d; }
  std::map<std::string, double> v;
};
}
