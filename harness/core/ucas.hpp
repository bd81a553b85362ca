// Generated type systems and CAS contents shared by the checks.
#pragma once
#include "vt.hpp"
#include "uima/api.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/casdefinition.hpp"
#include "uima/arrayfs.hpp"
#include "uima/listfs.hpp"
#include "uima/fsindex.hpp"
#include "uima/typesystemdescription.hpp"
#include "uima/taemetadata.hpp"
#include "uima/taespecifier.hpp"
#include <memory>

namespace vt {
typedef icu::UnicodeString US;
void initUima();
std::string u8(const US & s);
std::string u8(const uima::UnicodeStringRef & s);
US us(const std::string & utf8);

enum Kind { K_INT, K_FLOAT, K_STRING, K_BOOL, K_BYTE, K_SHORT, K_LONG, K_DOUBLE, K_NPRIM };
enum ArrKind { A_FS, A_INT, A_FLOAT, A_STRING, A_BOOL, A_BYTE, A_SHORT, A_LONG, A_DOUBLE, A_N };
enum ListKind { L_FS, L_INT, L_FLOAT, L_STRING, L_N };
extern const char * PRIM_NAME[K_NPRIM];
extern const char * ARR_NAME[A_N];
extern const char * LIST_NAME[L_N];
enum RangeClass { R_PRIM, R_STRSUB, R_FS, R_ARR, R_LIST };

struct MFeat { std::string name, range; bool multi = false; std::string desc, elem; };
struct MType { std::string name, super; std::vector<MFeat> feats; std::vector<std::string> allowed; bool strsub = false; std::string desc; };
struct MTS {
  std::vector<MType> types;                       // user types in hierarchy order
  const MType * find(const std::string & n) const;
  std::string superOf(const std::string & n) const; // "" for TOP, handles built-in types
  bool subsumes(const std::string & a, const std::string & b) const;
  // features of a type, inherited ones first; pairs (introducing type, feature)
  std::vector<std::pair<std::string, MFeat>> allFeats(const std::string & type) const;
  bool known(const std::string & n) const;
  std::vector<std::string> allTypeNames() const;  // built-in and user
  std::string describe() const;
};
struct TSOpts { size_t maxTypes = 6, maxFeats = 4; bool strsub = true; bool annotations = true; bool multiRefs = true; bool arraysLists = true; bool nonXmlNames = false; bool redeclare = false; bool oneNs = false; };
MTS genTS(Gen & g, const TSOpts & o = TSOpts());
RangeClass rangeClass(const MTS & ts, const std::string & range, int & kind);

// description objects in the given order of types
void fillTSDesc(const MTS & ts, uima::TypeSystemDescription & d, const std::vector<size_t> * order = nullptr);
struct TSHolder { uima::TypeSystem * ts = nullptr; ~TSHolder() { delete ts; } };
typedef std::vector<std::vector<std::string>> MPrios;
uima::TypeSystem * buildTS(const MTS & ts, Gen * shuffle = nullptr, const MPrios & prios = {});   // throws Fail when refused

enum TextKind { T_XML, T_UNI, T_RAW };   // XML 1.0 characters; any scalar values but NUL; any code units but NUL
US genText(Gen & g, size_t maxLen, TextKind k = T_XML);
US genSmallText(Gen & g);                                 // few distinct short strings, for keys
int genInt(Gen & g); float genFloat(Gen & g); double genDouble(Gen & g); INT64 genLong(Gen & g);
short genShort(Gen & g); char genByte(Gen & g);
std::string genName(Gen & g, const char * prefix, size_t i);

// index description
struct MKey { std::string feat; bool desc = false; bool typePrio = false; };
struct MIndex { std::string label, type; enum Kind_ { SORTED, SET, BAG } kind = SORTED; std::vector<MKey> keys; };
void fillIndexDesc(const std::vector<MIndex> & ix, uima::AnalysisEngineMetaData::TyVecpFSIndexDescriptions & out);
uima::CAS * makeCAS(uima::TypeSystem & ts, const std::vector<MIndex> & ix = {}, const std::vector<std::vector<std::string>> & prios = {});

inline uima::lowlevel::TyFS addr(const uima::FeatureStructure & f) { return uima::internal::FSPromoter::demoteFS(f); }
inline uima::FeatureStructure promote(uima::lowlevel::TyFS a, uima::CAS & c) { return uima::internal::FSPromoter::promoteFS(a, c); }
uima::Type typeOf(uima::CAS & c, const std::string & n);
uima::Feature featOf(uima::CAS & c, const std::string & type, const std::string & f);
std::string excText(const uima::Exception & e);

// runs f; true when a uima::Exception was raised
template <class F> bool throwsUima(F f) { try { f(); return false; } catch (uima::Exception &) { return true; } }
bool sameFloat(float a, float b); bool sameDouble(double a, double b);
}
