// P14 and P15: a CAS written as XCAS or XMI and read again.
#include "xmlcas.hpp"
#include "../core/desc.hpp"
#include <unistd.h>
using namespace uima; using namespace vt;
namespace vt {
struct WfErrors : xercesc::ErrorHandler {
  std::string first; void say(const char * k, const xercesc::SAXParseException & e) { if (first.empty()) first = cat(k, " at line ", e.getLineNumber(), ": ", u8(US((const UChar *)e.getMessage()))); }
  void warning(const xercesc::SAXParseException &) override {} void error(const xercesc::SAXParseException & e) override { say("error", e); } void fatalError(const xercesc::SAXParseException & e) override { say("fatal error", e); } void resetErrors() override {}
};
struct IdScan : xercesc::DefaultHandler {
  std::string attr; std::map<std::string, int> ids; size_t elements = 0;
  void startElement(const XMLCh *, const XMLCh *, const XMLCh *, const xercesc::Attributes & a) override { ++elements; for (XMLSize_t i = 0; i < a.getLength(); ++i) if (u8(US((const UChar *)a.getQName(i))) == attr) ++ids[u8(US((const UChar *)a.getValue(i)))]; }
};
size_t checkXml(const std::string & doc, const char * idAttr, bool uniqueIds) {
  std::unique_ptr<xercesc::SAX2XMLReader> r(xercesc::XMLReaderFactory::createXMLReader()); WfErrors e; IdScan s; s.attr = idAttr; r->setErrorHandler(&e); r->setContentHandler(&s); r->setFeature(xercesc::XMLUni::fgSAX2CoreValidation, false); r->setFeature(xercesc::XMLUni::fgSAX2CoreNameSpaces, true);
  xercesc::MemBufInputSource in((const XMLByte *)doc.data(), doc.size(), "vt");
  try { r->parse(in); } catch (const xercesc::SAXException & x) { fail("the document is not well-formed: " + e.first); } catch (const xercesc::XMLException & x) { fail("the document is not well-formed: " + u8(US((const UChar *)x.getMessage()))); }
  if (!e.first.empty()) fail("the document is not well-formed: " + e.first);
  if (uniqueIds) for (auto & p : s.ids) if (p.second > 1) fail(cat("id ", p.first, " is used ", p.second, " times"));
  return s.elements;
}
}
namespace {
// every way of reading a document gives the same
void readAny(Gen & g, CAS & c, const std::string & doc, bool xmi) {
  if (!g.chance(1, 6)) { if (xmi) readXmi(c, doc); else readXcas(c, doc); return; }
  std::string f = scratch() + "/" + g.one<const char *>({"doc.xml", "a b.xmi", "x", "p%20q", "a#b?c", "\xc3\xa4.xml", "a;b&c", ".h", "..xml"}); writeFile(f, doc); US uf = us(f); int way = g.below(4); g.label(cat("from a file, ", way)); g.note(cat("file ", f, " way ", way)); XmiSerializationSharedData sd;
  try {
    if (xmi) { if (way == 0) XmiDeserializer::deserialize(f.c_str(), c, false); else if (way == 1) XmiDeserializer::deserialize(uf, c, g.flip()); else if (way == 2) XmiDeserializer::deserialize(f.c_str(), c, sd); else XmiDeserializer::deserialize(uf, c, sd); }
    else { if (way == 0) XCASDeserializer::deserialize(f.c_str(), c); else if (way == 1) XCASDeserializer::deserialize(uf, c); else if (way == 2) XCASDeserializer::deserialize(f.c_str(), c, nullptr); else { xercesc::MemBufInputSource in((const XMLByte *)doc.data(), doc.size(), "vt"); XCASDeserializer::deserialize(in, c, nullptr); } }
  } catch (Exception & e) { ::unlink(f.c_str()); fail(cat("a document is refused from file ", f, ": ", excText(e))); }
  ::unlink(f.c_str());
}
void roundTrip(Gen & g, bool xmi) {
  XmlPair p; p.open(g, xmi); User & a = p.a; size_t n = g.chance(1, 8) ? 40 + g.below(110) : 1 + g.below(40);
  a.begin(); a.run(g, n);
  if (g.chance(1, 100)) {   // one structure in many views
    size_t m = 20 + g.below(100); std::vector<int> shared{a.create(g, "uima.cas.TOP", a.cas), a.createArray(1 + g.below(A_N - 1), g.below(3), a.cas)}; a.noDup = true; g.label("one structure in many views");
    for (size_t i = 0; i < m; ++i) { CAS * v = a.cas->createView(us(cat("many", i))); v->setDocumentText(UnicodeStringRef(us(cat("t", i)))); for (int x : shared) if (g.chance(9, 10)) v->getIndexRepository().addFS(a.fs(x)); }
  } size_t h = 0; for (auto & x : a.held) h += x.second.size();
  g.nontrivial((h || !a.dataSet.empty()) && a.nodes.size() > 1); g.label(cat("views ", std::min<size_t>(a.views.size(), 4))); 
  std::string before = p.dump(a, xmi), doc = xmi ? a.xmi() : a.xcas(); g.note(doc);
  std::string still = p.dump(a, xmi); if (before != still) fail("writing changed the CAS" + firstDiff(before, still));
  size_t el = checkXml(doc, xmi ? "xmi:id" : "_id", true); g.label(el > 30 ? "document of more than 30 elements" : "document of up to 30 elements");
  User & b = p.b; bool used = g.flip(); if (used) { b.begin(); b.run(g, 1 + g.below(15)); b.cas->getBaseCas()->reset(); g.label("into a reset CAS"); }
  if (xmi) readXmi(*b.cas, doc); else readXcas(*b.cas, doc);
  std::string after = p.dump(b, xmi); if (before != after) { g.note(before + "---\n" + after); fail("the CAS written (-) and the one read (+) differ" + firstDiff(before, after)); }
  // what was read can be written and read once more
  std::string doc2 = xmi ? b.xmi() : b.xcas(); checkXml(doc2, xmi ? "xmi:id" : "_id", true); a.cas->getBaseCas()->reset(); readAny(g, *a.cas, doc2, xmi);
  std::string again = p.dump(a, xmi); if (before != again) fail("the CAS written (-) and the one read from the second document (+) differ" + firstDiff(before, again));
}
}
PROPERTY("P14", "xcas", 12000, 120000, "the CAS holds indexed feature structures or sofa data, and other feature structures") { roundTrip(g, false); }
PROPERTY("P15", "xmi", 12000, 120000, "the CAS holds indexed feature structures or sofa data, and other feature structures") { roundTrip(g, true); }
namespace {
// a structure at the end of a long path of references
void chain(Gen & g, bool xmi) {
  initUima(); MTS m; MType t; t.name = "t.Node"; t.super = "uima.cas.TOP"; t.feats = {MFeat{"num", "uima.cas.Integer", false}, MFeat{"next", "t.Node", false}, MFeat{"arr", "uima.cas.FSArray", false}, MFeat{"list", "uima.cas.FSList", true}, MFeat{"ints", "uima.cas.IntegerList", true}, MFeat{"inl", "uima.cas.FSList", false}}; m.types.push_back(t);
  TSHolder h; h.ts = buildTS(m); std::unique_ptr<CAS> x(makeCAS(*h.ts, {})->getBaseCas()), y(makeCAS(*h.ts, {})->getBaseCas()); CAS & c = *x->getView(us("_InitialView"));
  Type ty = typeOf(c, "t.Node"); Feature fn = featOf(c, "t.Node", "num"), fx = featOf(c, "t.Node", "next"), fa = featOf(c, "t.Node", "arr"), fl = featOf(c, "t.Node", "list"), fi = featOf(c, "t.Node", "ints"), fo = featOf(c, "t.Node", "inl");
  size_t n = g.chance(1, 3) ? 5000 + g.below(25000) : 1 + g.below(60); size_t how = g.below(5); g.label(n > 60 ? "long path" : "short path"); g.label(cat("kind of path ", how)); g.nontrivial(n > 1); g.note(cat("kind ", how, ", ", n, " links"));
  FeatureStructure first = c.createFS(ty), cur = first; first.setIntValue(fn, 0); c.getIndexRepository().addFS(first);
  if (how == 0) for (size_t i = 1; i < n; ++i) { FeatureStructure z = c.createFS(ty); z.setIntValue(fn, i); cur.setFSValue(fx, z); cur = z; }
  else if (how == 1) for (size_t i = 1; i < n; ++i) { FeatureStructure z = c.createFS(ty); z.setIntValue(fn, i); ArrayFS a = c.createArrayFS(2); a.set(1, z); cur.setFSValue(fa, a); cur = z; }
  else if (how == 2) { ListFS l = c.createListFS(); for (size_t i = n; i-- > 1; ) { FeatureStructure z = c.createFS(ty); z.setIntValue(fn, i); l.addFirst(z); } first.setFSValue(fl, l); }
  else if (how == 3) { IntListFS l = c.createIntListFS(); for (size_t i = n; i-- > 1; ) l.addFirst(i); first.setFSValue(fi, l); }
  else for (size_t i = 1; i < n; ++i) { FeatureStructure z = c.createFS(ty); z.setIntValue(fn, i); ListFS l = c.createListFS(); l.addFirst(z); cur.setFSValue(fo, l); cur = z; }
  std::ostringstream o; if (xmi) { XmiWriter w(c, true); w.write(o); } else { XCASWriter w(c, true); w.write(o); } std::string doc = o.str(); if (xmi) readXmi(*y, doc); else readXcas(*y, doc);
  CAS & d = *y->getView(us("_InitialView")); std::vector<lowlevel::TyFS> in; d.getLowlevelIndexRepository().getIndexedFSs(in); CHECK_EQ(in.size(), 1u, "indexed structures"); cur = promote(in[0], d); CHECK_EQ(cur.getIntValue(fn), 0, "first");
  if (how == 2) { ListFS l = cur.getListFSValue(fl); for (size_t i = 1; i < n; ++i) { CHECK(l.isValid() && !l.isEmpty(), "the list ends after ", i - 1, " of ", n - 1); CHECK_EQ((size_t)l.getHead().getIntValue(fn), i, "list element"); l = l.getTail(); } CHECK(l.isEmpty(), "the list goes on"); }
  else if (how == 3) { IntListFS l = cur.getIntListFSValue(fi); for (size_t i = 1; i < n; ++i) { CHECK(l.isValid() && !l.isEmpty(), "the list ends after ", i - 1, " of ", n - 1); CHECK_EQ((size_t)l.getHead(), i, "list element"); l = l.getTail(); } CHECK(l.isEmpty(), "the list goes on"); }
  else { for (size_t i = 1; i < n; ++i) { FeatureStructure z = how == 0 ? cur.getFSValue(fx) : how == 1 ? ArrayFS(cur.getFSValue(fa)).get(1) : cur.getListFSValue(fo).getHead(); CHECK(z.isValid(), "the path ends after ", i, " of ", n); CHECK_EQ((size_t)z.getIntValue(fn), i, "structure on the path"); cur = z; } CHECK(!cur.getFSValue(fx).isValid() && !cur.getFSValue(fa).isValid() && !cur.getFSValue(fo).isValid(), "the path goes on"); }
}
}
PROPERTY("P14", "paths", 60, 600, "the path has more than one link") { chain(g, false); }
PROPERTY("P15", "paths", 60, 600, "the path has more than one link") { chain(g, true); }
