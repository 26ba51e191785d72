// The configuration files that come with the programs.
#ifndef VERIF_SHIPPED_HPP
#define VERIF_SHIPPED_HPP
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <cstdlib>
#include <mc.hpp>
#include <sm/BoostPropertyTree.hpp>
inline void flatten(const boost::property_tree::ptree& p, const std::string& at, sm::PropertyTree& t) {
  for (auto& x : p) {
    if (x.first[0] == '<') continue;
    const std::string k = at.empty() ? x.first : at + "/" + x.first;
    if (x.second.empty()) t.setString(k, x.second.data()); else flatten(x.second, k, t);
  }
}
// as sm::BoostPropertyTree::loadXml() does: the root is part of the names
inline void shipped(const std::string& file, sm::PropertyTree& t) {
  const char* r = std::getenv("VERIF_REPO");
  boost::property_tree::ptree p;
  try { boost::property_tree::read_xml(std::string(r ? r : "/repo") + "/" + file, p, boost::property_tree::xml_parser::trim_whitespace | boost::property_tree::xml_parser::no_comments); }
  catch (const boost::property_tree::xml_parser_error& e) { MC_FAIL("the shipped configuration cannot be read: " << e.what()); }
  flatten(p, "", t);
}
#endif
