// P17: damaged documents.
#include "xmlcas.hpp"
#include "mutate.hpp"
#include <sys/resource.h>
#include <filesystem>
using namespace uima; using namespace vt;
namespace {
// every reference in the CAS is null or a feature structure of the range
void walk(CAS & c, const std::vector<std::string> & labels) {
  DumpOpts o; o.digits6 = o.checkRefs = true; dumpCAS(c, labels, o);
}
void damaged(Gen & g, bool xmi) {
  XmlPair p; p.open(g, xmi); User & a = p.a; a.begin(); a.run(g, 1 + g.below(25)); std::string good = xmi ? a.xmi() : a.xcas();
  MutPool pool; for (auto & n : a.ts.allTypeNames()) { if (!xmi) { pool.elems.push_back(n); continue; } size_t d = n.rfind('.'), e = d == std::string::npos || d == 0 ? d : n.rfind('.', d - 1); pool.elems.push_back(d == std::string::npos ? "noNamespace:" + n : n.substr(e == std::string::npos ? 0 : e + 1, d - (e == std::string::npos ? 0 : e + 1)) + ":" + n.substr(d + 1)); for (auto & f : a.ts.allFeats(n)) { pool.attrs.push_back(f.second.name); if (!xmi) pool.attrs.push_back("_ref_" + f.second.name); } }
  if (xmi) { for (auto s : {"cas:View", "cas:NULL", "xmi:Ext", "cas:Nothing"}) pool.elems.push_back(s); for (auto s : {"xmi:id", "sofa", "members", "elements", "sofaID", "sofaNum", "head", "tail", "sofaArray"}) pool.attrs.push_back(s); }
  else { for (auto s : {"uima.tcas.Document", "i", "CAS", "no.Such"}) pool.elems.push_back(s); for (auto s : {"_id", "_indexed", "_content", "size", "sofa", "_ref_sofa", "sofaID", "sofaNum", "_ref_head", "_ref_tail", "head", "_x", "value"}) pool.attrs.push_back(s); }
  pool.values = {"_InitialView", "_DefaultTextSofaName", "v1", "red0"};
  std::string log, doc = mutate(g, good, pool, log); g.note(log); g.note(doc); g.nontrivial(doc != good); g.sample(log);
  CAS & c = *p.b.cas; bool ok = true; int how = xmi ? g.below(3) : 0;
  XmiSerializationSharedData sd;
  try { xercesc::MemBufInputSource s((const XMLByte *)doc.data(), doc.size(), "vt"); if (!xmi) XCASDeserializer::deserialize(s, c); else if (how == 2) XmiDeserializer::deserialize(s, c, sd); else XmiDeserializer::deserialize(s, c, how == 1); } catch (std::exception & e) { ok = false; }
  g.label(ok ? "accepted" : "refused"); g.note(ok ? "accepted" : "refused");
  if (ok) {   // what was accepted is a usable CAS
    walk(c, a.labels); try { std::string x = g.flip() ? p.b.xmi() : p.b.xcas(); g.label("written again"); } catch (uima::Exception & e) { g.label("not written again"); }
    if (how == 2) try { std::ostringstream o; XmiWriter w(c, true, &sd); w.write(o); } catch (uima::Exception & e) {}
  }
  c.getBaseCas()->reset();
  // the CAS is as good as a new one
  Gen::Tape tape; size_t n = 1 + g.below(15); User f; f.ownSys = false; f.ts = a.ts; f.sys = a.sys; f.labels = a.labels; f.keyFeats = a.keyFeats; f.vo = a.vo; f.xmlData = f.noDup = true; f.circularLists = a.circularLists; f.cas = makeCAS(*a.sys, p.ix);
  p.b.begin(); f.begin(); g.startTape(tape); f.run(g, n); g.playTape(tape); p.b.run(g, n); g.stopTape();
  std::string x = f.observe(), y = p.b.observe(); if (x != y) fail("after a reset the CAS (+) is not like a new one (-)" + firstDiff(x, y));
  std::string w; try { readXmi(c, p.a.xmi()); } catch (uima::Exception &) {}
}
}
PROPERTY("P17", "xcas", 10000, 150000, "the document differs from the one that was written") { damaged(g, false); }
PROPERTY("P17", "xmi", 10000, 150000, "the document differs from the one that was written") { damaged(g, true); }
// documents of type systems and engines
#include "../core/aedesc.hpp"
#include "../core/desc.hpp"
#include "uima/casdefinition.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/xmltypesystemreader.hpp"
#include "uima/xmltypesystemwriter.hpp"
namespace {
struct BareDef : public uima::internal::CASDefinition { BareDef() : CASDefinition() { init(); } };
// a type system that was accepted answers every query, and a CAS can be made for it
void useTypes(uima::TypeSystem & ts) {
  std::vector<Type> tv, sub; std::vector<Feature> fv; ts.getAllTypes(tv); CHECK(tv.size() > 10, "the built-in types are not in the type system");
  for (auto & t : tv) { CHECK(t.isValid(), "invalid type"); t.getSubTypes(sub); CHECK(sub.size() >= 1 && sub.size() <= tv.size(), "subtypes of ", u8(t.getName())); t.getAppropriateFeatures(fv); for (auto & f : fv) { Type r, i; f.getRangeType(r); f.getIntroType(i); CHECK(r.isValid() && i.isValid() && i.subsumes(t), "feature ", u8(f.getName()), " of ", u8(t.getName())); } }
}
MutPool tsPool(const MTS & ts) {
  MutPool p; for (auto & n : ts.allTypeNames()) p.values.push_back(n); for (auto & t : ts.types) for (auto & f : t.feats) p.values.push_back(f.name);
  for (auto s : {"true", "false", "uima.cas.TOP", "uima.cas.String", "uima.cas.FSArray"}) p.values.push_back(s);
  return p;
}
}
PROPERTY("P17", "hierarchy", 3500, 100000, "the document differs from the one that was written") {
  initUima(); TSOpts o; o.maxTypes = 5; MTS ts = genTS(g, o); TSHolder h; h.ts = buildTS(ts, &g); std::string good; { std::unique_ptr<CAS> cas(makeCAS(*h.ts)->getBaseCas()); std::ostringstream os; XMLTypeSystemWriter w(*cas); w.write(os); good = os.str(); }
  if (g.flip()) { size_t b = good.find("<!DOCTYPE"), e = good.find("]>"); if (b != std::string::npos && e != std::string::npos) good = good.substr(0, b) + good.substr(e + 2); } else g.label("with a document type");
  MutPool pool = tsPool(ts); for (auto s : {"type", "feature", "allowedValue", "type_system"}) pool.elems.push_back(s); for (auto s : {"name", "range", "multirefs"}) pool.attrs.push_back(s);
  std::string log, doc = mutate(g, good, pool, log); g.note(log); g.note(doc); g.nontrivial(doc != good); g.sample(log);
  for (int round = 0; round < 2; ++round) {
    BareDef d; XMLTypeSystemReader r(d.getTypeSystem()); bool ok = true;
    try { if (round) r.readMemory(good.c_str(), us("vt")); else if (g.flip()) r.readMemory(doc.c_str(), us("vt")); else { std::string fn = scratch() + "/t.xml"; writeFile(fn, doc); r.readFile(fn.c_str(), us("vt")); } } catch (std::exception & e) { ok = false; }
    if (round) CHECK(ok, "after a damaged document a valid one is refused"); else g.label(ok ? "accepted" : "refused");
    // the reader leaves what it read before an error in the type system, which stays usable
    if (ok || g.flip()) { d.commit(); useTypes(d.getTypeSystem()); if (round) checkTypeSystem(ts, d.getTypeSystem(), nullptr); }
  }
}
PROPERTY("P17", "types", 3000, 100000, "the document differs from the one that was written") {
  initUima(); TSOpts o; o.maxTypes = 5; MTS ts = genTS(g, o); std::string good = tsXml(ts); bool schema = g.flip(); ResourceManager::getInstance().enableSchemaValidation(schema);
  MutPool pool = tsPool(ts); for (auto s : {"typeDescription", "featureDescription", "name", "supertypeName", "rangeTypeName", "allowedValues", "value", "string", "features", "types", "imports", "import", "multipleReferencesAllowed", "elementType", "description"}) pool.elems.push_back(s); for (auto s : {"location", "name", "xmlns"}) pool.attrs.push_back(s);
  std::string log, doc = mutate(g, good, pool, log); g.note(log); g.note(doc); g.nontrivial(doc != good); g.sample(log); ErrorInfo ei; std::unique_ptr<TypeSystem> t;
  try {
    switch (g.below(5)) {
      case 0: t.reset(Framework::createTypeSystemFromXMLBuffer(doc.c_str(), ei)); break;
      case 1: { US u = us(doc); t.reset(Framework::createTypeSystem(u.getBuffer(), u.length(), ei)); break; }
      case 2: { std::string fn = scratch() + "/t.xml"; writeFile(fn, doc); t.reset(Framework::createTypeSystem(fn.c_str(), ei)); break; }
      case 3: { std::string fn = scratch() + "/t.xml"; writeFile(fn, doc); std::unique_ptr<TypeSystemDescription> d(Framework::createTypeSystemDescription(fn.c_str())); CHECK(d.get(), "no description and no exception"); t.reset(Framework::createTypeSystem(*d, us("vt"), ei)); break; }
      default: { US u = us(doc); std::unique_ptr<TypeSystemDescription> d(Framework::createTypeSystemDescription(u.getBuffer(), u.length())); CHECK(d.get(), "no description and no exception"); t.reset(Framework::createTypeSystem(*d, us("vt"), ei)); }
    }
    CHECK(t.get() || ei.getErrorId() != UIMA_ERR_NONE, "no type system and no error");
  } catch (uima::Exception & e) {}
  g.label(t ? "accepted" : "refused"); if (t) useTypes(*t);
  ErrorInfo e2; std::unique_ptr<TypeSystem> v(Framework::createTypeSystemFromXMLBuffer(good.c_str(), e2)); CHECK(v.get(), "after a damaged document a valid one is refused: ", e2.asString()); checkTypeSystem(ts, *v, nullptr);
}
PROPERTY("P17", "engine", 2500, 120000, "a document differs from the one that was written") {
  initUima(); AeOpts o; o.schema = g.flip(); ResourceManager::getInstance().enableSchemaValidation(o.schema); g.label(o.schema ? "schema validation" : "no schema"); Ae a = genAe(g, o); AeFormat f; f.g = &g; f.schema = o.schema; f.dir = scratch(); std::string good = aeXml(a, f), fn = f.dir + "/main.xml"; writeFile(fn, good);
  MutPool pool = tsPool(a.ts); static std::set<std::string> tags; for (auto & x : xmlTokens(good)) if (x.k == XTok::OPEN || x.k == XTok::EMPTY) tags.insert(x.name); pool.elems.assign(tags.begin(), tags.end());
  for (auto s : {"name", "key", "location", "defaultGroup", "searchStrategy", "allAnnotatorFeatures", "names", "xmlns"}) pool.attrs.push_back(s); for (auto s : {"true", "false", "Integer", "String", "Boolean", "Float", "sorted", "set", "bag", "standard", "reverse", "main.xml", "none", "default_fallback", "language_fallback", "org.apache.uima.cpp", "org.apache.uima.java", "en", "x-unspecified"}) pool.values.push_back(s);
  std::vector<std::string> all{"main.xml"}; if (f.files > 0) for (auto & e : std::filesystem::directory_iterator(f.dir)) if (e.path().extension() == ".xml" && e.path().filename() != "main.xml") all.push_back(e.path().filename());
  std::sort(all.begin() + 1, all.end()); std::string which = g.chance(1, 3) ? g.pick(all) : "main.xml", was = readFile(f.dir + "/" + which), log, doc = mutate(g, was, pool, log); writeFile(f.dir + "/" + which, doc); g.note(which + ": " + log); g.note(doc); g.nontrivial(doc != was); g.sample(log); if (which != "main.xml") g.label("imported document");
  bool ok = false;
  { AnalysisEngineDescription d; TextAnalysisEngineSpecifierBuilder b;
    try {
      if (f.files > 0 || g.flip()) b.parseAnalysisEngineDescription(d, fn.c_str()); else b.buildTaeFromMemory(d, readFile(fn).c_str()); ok = true;
      US s; if (g.flip()) { d.toXMLBuffer(s); readXml(u8(s)); g.label("printed"); }
      if (g.flip()) { d.validate(); d.commit(); g.label("valid"); if (g.flip()) { US t; d.toXMLBuffer(t); readXml(u8(t)); } ErrorInfo ei; std::unique_ptr<TypeSystem> t(Framework::createTypeSystem(*d.getAnalysisEngineMetaData(), ei)); if (t) useTypes(*t); }
    } catch (uima::Exception & e) {}
  }
  g.label(ok ? "accepted" : "refused");
  if (g.chance(1, 2)) { ErrorInfo ei; AnalysisEngine * e = g.flip() || f.files ? Framework::createAnalysisEngine(fn.c_str(), ei) : [&] { US u = us(readFile(fn)); return Framework::createAnalysisEngine(u.getBuffer(), u.length(), ei); }(); CHECK(e || ei.getErrorId() != UIMA_ERR_NONE, "no engine and no error"); if (e) { g.label("engine"); e->destroy(); delete e; } }
  writeFile(f.dir + "/" + which, was); AnalysisEngineDescription d; TextAnalysisEngineSpecifierBuilder b; try { b.parseAnalysisEngineDescription(d, fn.c_str()); } catch (uima::Exception & e) { fail(cat("after a damaged document a valid one is refused: ", excText(e))); }
}
