// Index definitions and their model, shared by the checks of indexes, filters and iterators.
#pragma once
#include "world.hpp"
#include "uima/fsfilterbuilder.hpp"
#include "uima/lowlevel_typesystem.hpp"
namespace vt {
MPrios genPrios(Gen & g, const MTS & ts);                           // consistent lists of type priorities
std::vector<MIndex> genIndexes(Gen & g, const MTS & ts, size_t n);  // over user types, annotations and TOP
MVal keyVal(Gen & g, int kind);                                      // values of a small domain, so that keys tie
struct IxWorld : World {
  MPrios prios; std::vector<MIndex> ix; std::function<void(MTS &)> tweak;
  std::vector<uima::CAS *> views;                                     // views[0] is the initial one
  struct Part { std::map<std::string, std::vector<int>> held; };     // per type, in order of addition
  std::vector<std::vector<Part>> model;                               // [view][index]
  void openIx(Gen & g, size_t nIx, size_t nViews, const TSOpts & o);
  void checkShape(Gen & g) const;                                     // the types, priorities and indexes are those declared
  int cmp(const MIndex & d, int a, int b) const;                      // <0: a before b
  size_t prio(const std::string & type) const;
  void add(int node, size_t view); void remove(int node, size_t view);
  int make(Gen & g, size_t view);                                     // a feature structure with small key values
  std::vector<int> expect(size_t view, size_t i, const std::string & type) const;
  int nodeOf(const uima::FeatureStructure & f) const;                 // -1 when unknown
  std::vector<int> iterate(uima::FSIterator it, size_t limit) const;
  void checkIndex(Gen & g, size_t view, size_t i, const std::string & type);
  void checkSeq(const MIndex & d, std::vector<int> got, std::vector<int> exp, const std::string & what) const;
  std::string showSeq(const std::vector<int> & s) const;
  std::vector<std::string> typesOf(size_t i) const;                   // types an index can be restricted to
  mutable std::map<uima::lowlevel::TyFS, int> idx; mutable size_t idxN = 0;
};
}
