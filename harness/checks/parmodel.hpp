// A model of configuration parameters: declarations, settings, lookups through aggregates.
#pragma once
#include "../core/aedesc.hpp"
namespace vt {
struct ParConf {
  bool grouped = false; std::map<std::string, std::map<std::string, AeParam>> groups; std::map<std::string, AeParam> common; bool hasCommon = false;
  std::map<std::string, std::map<std::string, AeVal>> vals; bool hasDef = false; std::string def; int strat = 0;
  void load(const Ae & a);
  bool declared(const std::string & g, const std::string & n, const std::string & key, const AeParam ** p = nullptr) const;
};
extern const char * const NO_GROUP;     // the group of parameters without groups
struct ParRes { enum { THROWS, NONE, VALUE } kind = THROWS; const AeVal * v = nullptr; };
struct ParNode {
  ParConf c; ParNode * parent = nullptr; std::string key; std::map<std::string, std::unique_ptr<ParNode>> kids;
  void load(const Ae & a);
  ParRes local(const std::string & g, const std::string & n, int strat, const std::string & k) const;
  ParRes find(const std::string & g, const std::string & n, int strat, const std::string & k = "") const;      // in a group
  ParRes find(const std::string & n, const std::string & k = "") const;                                          // without group
  bool assign(const std::string * g, const std::string & n, const AeVal & v, const std::string & k = "");       // false: refused, nothing changed
  void commit() { if (c.hasDef) c.groups[c.def]; for (auto & x : kids) x.second->commit(); }
};
// declarations and settings of one component over few names, so that levels meet
struct ParNames { std::vector<std::string> names, groups; std::map<std::string, std::pair<PType, bool>> kind; bool sameKinds = true; };
ParNames genParNames(Gen & g, bool sameKinds);
void genParConf(Gen & g, const ParNames & n, Ae & a, const std::vector<std::string> & delegates);
}
