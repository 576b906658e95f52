#pragma once
#include <string>
namespace sm {
class PropertyTree {
public:
  PropertyTree(const PropertyTree& other);
  PropertyTree(const PropertyTree& parent, const std::string& childNamespace);
  virtual ~PropertyTree();
  double getDouble(const std::string& key) const;
  double getDouble(const std::string& key, double defaultValue) const;
  int getInt(const std::string& key) const;
  int getInt(const std::string& key, int defaultValue) const;
  bool getBool(const std::string& key) const;
  bool getBool(const std::string& key, bool defaultValue) const;
  std::string getString(const std::string& key) const;
  std::string getString(const std::string& key, const std::string& defaultValue) const;
  bool doesKeyExist(const std::string& key) const;
protected:
  PropertyTree();
private:
  int _marker;
};
class ConstPropertyTree : public PropertyTree {};
}
