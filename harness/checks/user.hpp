// A script of random uses of a CAS through several views, and its serialized forms.
#pragma once
#include "ixmodel.hpp"
#include "../core/dump.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/xmishareddata.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_serializedcas.hpp"
#include "uima/language.hpp"
#include "uima/sofamapping.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
namespace vt {
extern const char * VIEW_NAMES[14];
extern const char * LANG_NAMES[5];
struct User : World {
  std::vector<uima::CAS *> views; std::vector<std::string> names, labels; std::string log; std::set<size_t> dataSet;
  // options
  bool lists = true;                  // create lists, never circular
  bool circularLists = false;
  bool removals = true;               // an FS refused by a set index is not added when the equal one is removed
  bool noDup = false;                 // a feature structure is added once to a view at most
  std::set<std::string> keyFeats;     // not written while indexed
  bool xmlData = false;               // sofa arrays: only kinds with an XML form; no sofa data from other views
  bool langs = true, langsNeedText = false;
  bool emptyRefs = true;
  std::vector<std::string> viewNames; // when empty: VIEW_NAMES
  std::map<int, std::set<size_t>> held;   // node -> views that hold it
  void note(const std::string & s) { log += s + "\n"; }
  void begin();
  template <class F> void act(const std::string & what, F f) { std::string r = "ok"; try { f(); } catch (uima::Exception & e) { r = cat("exception ", e.getErrorInfo().getErrorId()); } note(what + ": " + r); }
  void run(Gen & g, size_t n);
  int createList(Gen & g, uima::CAS * c);       // a node of an empty or non-empty list type
  void doSet(Gen & g, size_t node);
  void fill(Gen & g, size_t node);              // some features of a new node
  std::string observe();
  std::string xmi(); std::string xcas(); std::string blob();
  // the same views and nodes in a CAS that was restored at the same heap positions
  void adopt(const User & from);
};
void readXmi(uima::CAS & c, const std::string & x); void readXcas(uima::CAS & c, const std::string & x);
void readBlob(uima::CAS & c, const std::string & b);
std::vector<MIndex> userIndexes(Gen & g, const MTS & ts, size_t n, bool withSets);   // and mostly a bag "all" over TOP
}
