#pragma once
#include <string>
#include <sm/PropertyTree.hpp>
namespace sm {
class BoostPropertyTree : public PropertyTree {
public:
  BoostPropertyTree();
  void loadXml(const std::string& file);
  void saveXml(const std::string& file) const;
};
}
