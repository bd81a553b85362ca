// Canonical text of what a user can observe in a CAS: equal exactly when the
// contents are the same up to the identity of feature structures.
#pragma once
#include "world.hpp"
namespace vt {
struct DumpOpts {
  bool ordered = false;        // keep the order of index contents (otherwise as multisets)
  bool digits6 = false;        // floating point values to six significant digits
  bool inlineSingle = false;   // arrays and lists in features without multiple references are part of their owner
  bool sofaNum = true;         // numbers of sofas
  bool docText = true;
  bool uses = true;            // count every reachable feature structure once
  bool nullSofa = false;       // leave out the sofa feature of annotations
  bool dropEmptyViews = false; // an initial view without sofa and content is not mentioned
  // ordered: with the definition of an index, each structure counts once, ties come in any order,
  // a bag has no order, and of a set index only the keys count
  std::map<std::string, MIndex> defs;
  bool checkRefs = false;      // every reference must be of the range of its feature
  std::set<std::string> skipFeats;   // base names
  std::set<std::string> hideTypes;   // feature structures of these types do not exist, references to them are null
  std::set<std::string> hideFeats;   // "type:base name", for each type that has the feature
};
std::string dumpCAS(uima::CAS & anyView, const std::vector<std::string> & indexLabels, const DumpOpts & o = DumpOpts());
std::string firstDiff(const std::string & a, const std::string & b);
}
