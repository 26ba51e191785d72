#ifndef VERIF_SM_BOOST_PROPERTY_TREE_HPP
#define VERIF_SM_BOOST_PROPERTY_TREE_HPP
#include <sm/PropertyTree.hpp>
namespace sm {
// A file is a tree that the harness registered, or one that was saved.
class BoostPropertyTree : public PropertyTree {
 public:
  BoostPropertyTree() {}
  explicit BoostPropertyTree(const std::string& root) { _prefix = root; }
  static std::map<std::string, std::map<std::string, std::string> >& files() { static std::map<std::string, std::map<std::string, std::string> > f; return f; }
  void loadXml(const std::string& file) {
    auto it = files().find(file);
    if (it == files().end()) throw std::runtime_error("cannot open " + file);
    *_values = it->second;
  }
  void saveXml(const std::string& file) const { files()[file] = *_values; }
};
}
#endif
