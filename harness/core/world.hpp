// A CAS under test next to a plain model of the feature structures it holds.
#pragma once
#include "ucas.hpp"

namespace vt {
struct MVal {
  int cls = R_PRIM; int kind = K_INT;      // RangeClass; Kind when primitive
  INT64 i = 0; float f = 0; double d = 0; US s; int ref = -1; bool set = false;
};
struct MNode {
  std::string type; bool array = false; int ak = A_INT; std::map<std::string, MVal> feats; std::vector<MVal> elems;
  uima::lowlevel::TyFS a = 0; uima::CAS * view = nullptr;
};
struct ValOpts { TextKind text = T_RAW; size_t maxText = 24; bool denormals = true; bool nonNegZero = false; bool emptyStrings = true; bool special = false; /* infinities and NaN */ };

struct World {
  MTS ts; uima::TypeSystem * sys = nullptr; uima::CAS * cas = nullptr; bool ownSys = true;
  std::vector<MNode> nodes; ValOpts vo;
  World() {}
  ~World();
  World(const World &) = delete; World & operator=(const World &) = delete;
  void open(Gen & g, const TSOpts & o, const std::vector<MIndex> & ix = {});
  uima::FeatureStructure fs(int i) const { return promote(nodes[i].a, nodes[i].view ? *nodes[i].view : *cas); }
  // types that createFS accepts and whose instances are plain
  std::vector<std::string> creatable() const;
  int create(Gen & g, const std::string & type, uima::CAS * view = nullptr);      // createFS, or createAnnotation with random span
  int createAnn(const std::string & type, size_t b, size_t e, uima::CAS * view);
  int createArray(int ak, size_t n, uima::CAS * view = nullptr);
  int createEmptyList(int lk);
  std::vector<int> refsFor(const std::string & range) const;                      // nodes a feature with that range may refer to
  MVal genVal(Gen & g, const std::string & range);                                // cls R_FS with ref -1: nothing to set
  MVal genElem(Gen & g, int ak);
  void set(int node, const MFeat & f, const MVal & v);
  void setElem(int node, size_t i, const MVal & v);
  void check(int node);                                                           // all values of a node against the model
  void checkAll();
  std::string show(int node) const;
  size_t maxPos = 40;
};
MVal defaultVal(const MTS & ts, const std::string & range);
std::string showVal(const MVal & v);
bool sameVal(const MVal & a, const MVal & b);
MVal readFeat(const MTS & ts, uima::FeatureStructure fs, const std::string & type, const MFeat & f, const std::map<uima::lowlevel::TyFS, int> * ids);
void writeFeat(const MTS & ts, uima::FeatureStructure fs, uima::Feature feat, const std::string & range, const MVal & v, const uima::FeatureStructure * ref);
MVal readElem(uima::FeatureStructure fs, int ak, size_t i, uima::lowlevel::TyFS * ref);
size_t arraySize(uima::FeatureStructure fs, int ak);
int arrKindOf(const std::string & typeName);   // -1 when no array
void writeElem(uima::FeatureStructure fs, int ak, size_t i, const MVal & v, const uima::FeatureStructure & ref);
uima::FeatureStructure newArray(uima::CAS & c, int ak, size_t n);
}
