// Stand-in for sm_property_tree's PropertyTree.
#ifndef VERIF_SM_PROPERTY_TREE_HPP
#define VERIF_SM_PROPERTY_TREE_HPP

#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <boost/lexical_cast.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

namespace sm {

class PropertyTree {
 public:
  PropertyTree() : _values(boost::make_shared<std::map<std::string, std::string> >()) {}
  PropertyTree(const PropertyTree& parent, const std::string& ns) : _values(parent._values), _prefix(parent.key(ns)) {}
  virtual ~PropertyTree() {}

  double getDouble(const std::string& k) const { return convert<double>(need(k)); }
  double getDouble(const std::string& k, double d) const { const std::string* v = find(k); return v ? convert<double>(*v) : d; }
  int getInt(const std::string& k) const { return convert<int>(need(k)); }
  int getInt(const std::string& k, int d) const { const std::string* v = find(k); return v ? convert<int>(*v) : d; }
  bool getBool(const std::string& k) const { return toBool(need(k)); }
  bool getBool(const std::string& k, bool d) const { const std::string* v = find(k); return v ? toBool(*v) : d; }
  std::string getString(const std::string& k) const { return need(k); }
  std::string getString(const std::string& k, const std::string& d) const { const std::string* v = find(k); return v ? *v : d; }
  void setDouble(const std::string& k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); (*_values)[key(k)] = b; }
  void setInt(const std::string& k, int v) { (*_values)[key(k)] = boost::lexical_cast<std::string>(v); }
  void setBool(const std::string& k, bool v) { (*_values)[key(k)] = v ? "true" : "false"; }
  void setString(const std::string& k, const std::string& v) { (*_values)[key(k)] = v; }
  bool doesKeyExist(const std::string& k) const { return find(k) != nullptr; }

 protected:
  std::string key(const std::string& k) const {
    std::string kk = (!k.empty() && k[0] == '/') ? k.substr(1) : k;
    return _prefix.empty() ? kk : _prefix + "/" + kk;
  }
  const std::string* find(const std::string& k) const {
    auto it = _values->find(key(k));
    return it == _values->end() ? nullptr : &it->second;
  }
  const std::string& need(const std::string& k) const {
    const std::string* v = find(k);
    if (!v) throw std::runtime_error("PropertyTree: missing key " + key(k));
    return *v;
  }
  template <class T> static T convert(const std::string& s) { return boost::lexical_cast<T>(s); }
  static bool toBool(const std::string& s) { return s == "true" || s == "1" || s == "True"; }
  boost::shared_ptr<std::map<std::string, std::string> > _values;
  std::string _prefix;
};

}  // namespace sm
#endif
