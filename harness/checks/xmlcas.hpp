// Generated CASes for the XML forms.
#pragma once
#include "user.hpp"
#include "xercesc/sax2/SAX2XMLReader.hpp"
#include "xercesc/sax2/XMLReaderFactory.hpp"
#include "xercesc/sax2/DefaultHandler.hpp"
#include "xercesc/sax2/Attributes.hpp"
#include "xercesc/sax/SAXParseException.hpp"
#include "unicode/ucnv.h"
namespace vt {
size_t checkXml(const std::string & doc, const char * idAttr, bool uniqueIds);   // well-formed; number of elements
struct XmlPair {
  User a, b; std::vector<MIndex> ix; DumpOpts o;
  void open(Gen & g, bool xmi) {
    TSOpts t; t.maxTypes = 5; t.maxFeats = 5; initUima(); a.ts = genTS(g, t); a.sys = buildTS(a.ts, &g); ix = userIndexes(g, a.ts, 1 + g.below(2), false);
    b.ownSys = false; b.ts = a.ts; b.sys = a.sys;
    for (auto & i : ix) { a.labels.push_back(i.label); for (auto & k : i.keys) if (!k.typePrio) a.keyFeats.insert(k.feat); }
    a.labels.push_back("AnnotationIndex"); b.labels = a.labels; b.keyFeats = a.keyFeats;
    for (User * u : {&a, &b}) { u->vo.text = T_XML; u->vo.denormals = false; u->xmlData = true; u->noDup = true; u->vo.special = true; }
    bool single = false; for (auto & ty : a.ts.types) for (auto & f : ty.feats) single = single || (f.range.size() > 4 && f.range.substr(f.range.size() - 4) == "List" && !f.multi);
    a.circularLists = b.circularLists = g.chance(1, 4) && !(xmi && single);   // the XMI of a list that is part of its owner ends
    a.cas = makeCAS(*a.sys, ix); b.cas = makeCAS(*a.sys, ix);
  }
  std::string dump(User & u, bool xmi) { DumpOpts d = o; d.digits6 = true; d.sofaNum = false; d.dropEmptyViews = true; d.inlineSingle = xmi; return dumpCAS(*u.cas, u.labels, d); }
};
struct Reduced {
  MTS ts; std::set<std::string> types, feats;
  // hides some types with their subtypes, and features
  void make(Gen & g, const MTS & full) {
    size_t k = g.below(3); for (size_t i = 0; i < k; ++i) { const std::string & n = full.types[g.below(full.types.size())].name; if (!MTS().known(n)) for (auto & t : full.types) if (full.subsumes(n, t.name)) types.insert(t.name); }
    unsigned drop = g.below(4);
    std::set<std::string> gone;   // introducing type:feature
    for (auto & t : full.types) {
      if (types.count(t.name)) continue; MType r = t; r.feats.clear();
      for (auto & f : t.feats) if (types.count(f.range) || g.chance(drop, 8)) gone.insert(t.name + ":" + f.name); else r.feats.push_back(f);
      ts.types.push_back(r);
    }
    for (auto & n : ts.allTypeNames()) for (auto & p : full.allFeats(n)) if (gone.count(p.first + ":" + p.second.name)) feats.insert(n + ":" + p.second.name);
  }
};
}
