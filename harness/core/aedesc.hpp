// A model of analysis engine descriptors: generator, writer, independent reader.
#pragma once
#include "desc.hpp"
namespace vt {
// ---- a small XML reader, independent of the library's parser (no DTDs)
struct XNode {
  std::string name, text; std::map<std::string, std::string> attrs; std::vector<XNode> kids;
  const XNode * kid(const std::string & n) const { for (auto & k : kids) if (k.name == n) return &k; return nullptr; }
  std::string kidText(const std::string & n) const { auto k = kid(n); return k ? k->text : ""; }
  std::string attr(const std::string & n) const { auto i = attrs.find(n); return i == attrs.end() ? "" : i->second; }
};
XNode readXml(const std::string & doc);       // throws Fail when it is not well-formed; text is the concatenated character data

enum PType { PT_STRING, PT_INT, PT_FLOAT, PT_BOOL };
struct AeVal { PType type = PT_STRING; bool multi = false; std::vector<std::string> v; };   // values as written
struct AeParam { std::string name, desc; PType type = PT_STRING; bool multi = false, mandatory = false; std::vector<std::string> restrict_; };
struct AeSetting { std::string name; AeVal val; };
struct AeGroup { std::vector<std::string> names; std::vector<AeParam> params; };
struct AeSetGroup { std::vector<std::string> names; std::vector<AeSetting> sets; };
struct AeCap { struct TF { std::string name; bool feat = false, all = false; }; std::vector<TF> in, out; std::vector<std::string> inSofas, outSofas, langs; };
struct AeMap { std::string key, comp, agg; bool noComp = false; };
struct Ae;
struct AeDel { std::string key; std::shared_ptr<Ae> ae; bool import = false; std::string file; };
struct Ae {
  int root = 0;                 // analysisEngineDescription, taeDescription, casConsumerDescription
  bool fw = true, java = false, primitive = true;
  std::string impl, name, desc, version, vendor;
  // parameters: either plain ones or groups (with common ones)
  std::vector<AeParam> plain, common; std::vector<AeGroup> groups; bool paramElem = false;
  std::string defGroup; int strategy = -1;   // none, default_fallback, language_fallback
  std::vector<AeSetting> sets; std::vector<AeSetGroup> gsets; bool setElem = false;
  MTS ts; std::vector<int> tsFile; bool tsElem = false;   // type i is declared in import file tsFile[i] (0: here)
  MPrios prios; std::vector<int> prioFile; std::vector<MIndex> ixs; std::vector<int> ixFile; bool ixElem = false;
  std::vector<AeCap> caps; bool capElem = false;
  int flow = -1; std::vector<std::string> nodes;          // fixed, capability language
  bool ops = false; int modifies = -1, multiple = -1, outputs = -1;
  std::vector<AeDel> dels; std::vector<AeMap> maps;
};
struct AeOpts { int depth = 2; bool wild = true; bool imports = true; bool java = false; bool schema = false; };   // schema: valid by the XML schema of descriptors
Ae genAe(Gen & g, const AeOpts & o);
PType ptypeOf(const std::string & n);
std::string genParamText(Gen & g);                        // trimmed, not empty in general
AeVal genAeVal(Gen & g, PType t, bool multi);

// how a descriptor is written: free choices which do not change its meaning
struct AeFormat { Gen * g = nullptr; bool schema = false; std::string dir; int files = 0; std::set<std::string> env; };
std::string aeXml(const Ae & a, AeFormat & f, bool header = true);    // import files are written into f.dir
// what a descriptor says, one fact per line; equal texts mean equal descriptors
std::string showAe(const Ae & a);
Ae readAe(const XNode & n);                               // of what the library prints
}
