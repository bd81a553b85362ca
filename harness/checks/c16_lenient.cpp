// P16: reading XMI into a CAS with a smaller type system, and writing it again.
#include "xmlcas.hpp"
using namespace uima; using namespace vt;
namespace {
struct Elem { std::string type; std::set<std::string> names; };
// the elements below the root: xmi:id, UIMA type name, names of attributes and child elements
struct ElemScan : xercesc::DefaultHandler {
  size_t depth = 0; std::map<int, Elem> byId; std::vector<Elem> all; std::map<int, size_t> at;
  static std::string s(const XMLCh * x) { return u8(US((const UChar *)x)); }
  void startElement(const XMLCh * uri, const XMLCh * local, const XMLCh *, const xercesc::Attributes & a) override {
    if (depth == 1) {
      std::string u = s(uri), t; if (u == "http:///uima/noNamespace.ecore") t = ""; else if (u.size() > 14) { t = u.substr(8, u.size() - 14); for (auto & c : t) if (c == '/') c = '.'; t += "."; }
      Elem e; e.type = t + s(local); for (XMLSize_t i = 0; i < a.getLength(); ++i) { std::string n = s(a.getQName(i)); if (n == "xmi:id") at[atoi(s(a.getValue(i)).c_str())] = all.size(); else e.names.insert(n); }
      all.push_back(e);
    } else if (depth == 2) all.back().names.insert(s(local));
    ++depth;
  }
  void endElement(const XMLCh *, const XMLCh *, const XMLCh *) override { --depth; }
};
struct Scan { std::map<int, Elem> byId; std::vector<Elem> all; };
Scan scan(const std::string & doc) {
  std::unique_ptr<xercesc::SAX2XMLReader> r(xercesc::XMLReaderFactory::createXMLReader()); ElemScan h; r->setContentHandler(&h); r->setFeature(xercesc::XMLUni::fgSAX2CoreNameSpaces, true);
  xercesc::MemBufInputSource in((const XMLByte *)doc.data(), doc.size(), "vt"); r->parse(in); for (auto & p : h.at) h.byId[p.first] = h.all[p.second]; return Scan{h.byId, h.all};
}
DumpOpts opts() { DumpOpts d; d.digits6 = true; d.sofaNum = false; d.dropEmptyViews = true; d.inlineSingle = true; return d; }
void lenient(Gen & g) {
  TSOpts t; t.maxTypes = 6; t.maxFeats = 5; initUima(); User a, b; Reduced r;
  a.ts = genTS(g, t); r.make(g, a.ts); a.sys = buildTS(a.ts, &g); auto ix = userIndexes(g, r.ts, 1 + g.below(2), false); b.ownSys = false; b.ts = a.ts; b.sys = a.sys;
  for (auto & i : ix) { a.labels.push_back(i.label); for (auto & k : i.keys) if (!k.typePrio) a.keyFeats.insert(k.feat); } a.labels.push_back("AnnotationIndex"); b.labels = a.labels;
  a.vo.text = T_XML; a.vo.denormals = false; a.vo.special = true; a.xmlData = true; a.noDup = true;
  a.cas = makeCAS(*a.sys, ix); b.cas = makeCAS(*b.sys, ix);
  TSHolder hr; hr.ts = buildTS(r.ts, &g); CAS * e = makeCAS(*hr.ts, ix); struct Del { CAS * c; ~Del() { delete c->getBaseCas(); } } del{e};
  a.begin(); a.run(g, g.chance(1, 8) ? 40 + g.below(80) : 1 + g.below(40));
  std::string doc = a.xmi(); g.note(r.ts.describe()); g.note(doc); Scan in = scan(doc);
  DumpOpts full = opts(), part = full; part.hideTypes = r.types; part.hideFeats = r.feats;
  std::string expect = dumpCAS(*a.cas, a.labels, part);
  bool unknown = false, unknownType = false; for (auto & x : in.all) { if (r.types.count(x.type)) unknown = unknownType = true; for (auto & n : x.names) if (r.feats.count(x.type + ":" + n)) unknown = true; }
  g.nontrivial(unknown); g.label(unknownType ? "with feature structures of unknown types" : unknown ? "with unknown features only" : "nothing unknown");
  // without lenience
  { bool refused = false; std::string why; try { readXmi(*e, doc); } catch (uima::Exception & x) { refused = true; why = excText(x); }
    if (unknown && !refused) fail(cat("a document with unknown ", unknownType ? "types" : "features", " was accepted without lenience")); if (!unknown && refused) fail("a document without unknown types and features was refused: " + why);
    e->getBaseCas()->reset(); }
  // lenient, without shared data
  auto compare = [&](const char * what) { std::string got = dumpCAS(*e, a.labels, full); if (expect != got) { g.note(expect + "---\n" + got); fail(cat(what, ": the expressible part of what was written (-) and what was read (+) differ", firstDiff(expect, got))); } };
  if (g.flip()) { xercesc::MemBufInputSource s((const XMLByte *)doc.data(), doc.size(), "vt"); XmiDeserializer::deserialize(s, *e, true); compare("lenient"); e->getBaseCas()->reset(); }
  XmiSerializationSharedData sd; { xercesc::MemBufInputSource s((const XMLByte *)doc.data(), doc.size(), "vt"); XmiDeserializer::deserialize(s, *e, sd); } compare("with shared data");
  // further use of both: what is known under the same id in both
  struct Pair { FeatureStructure x, y; std::string type; bool indexed; }; std::vector<Pair> ps; size_t edits = g.flip() ? 0 : 1 + g.below(8); bool strange = false;
  std::set<lowlevel::TyFS> held; for (auto & h : a.held) if (!h.second.empty()) held.insert(a.nodes[h.first].a);
  for (auto & n : a.nodes) if (in.byId.count(n.a) && !r.types.count(n.type)) { int y = sd.getFsAddrForXmiId(n.a); CHECK(y > 0, "no feature structure for id ", n.a); ps.push_back(Pair{a.fs(&n - a.nodes.data()), promote(y, *e), n.type, held.count(n.a) > 0}); CHECK_EQ(u8(ps.back().y.getType().getName()), n.type, "type of the feature structure with id ", n.a); }
  bool inl = false; for (auto & ty : a.ts.types) for (auto & f : ty.feats) inl = inl || (f.range == ARR_NAME[A_FS] && !f.multi);   // such arrays are copied
  auto setOne = [&](Pair & p) {
    if (p.type.compare(0, 9, "uima.cas.") == 0 && arrKindOf(p.type) != A_FS) return;
    auto ref = [&](const std::string & range) -> int { std::vector<int> ok; for (size_t i = 0; i < ps.size(); ++i) if (a.ts.subsumes(range, ps[i].type)) ok.push_back(i); if (ok.empty()) return -1; return g.flip() ? ok.back() : g.pick(ok); };
    if (arrKindOf(p.type) == A_FS) { size_t n = ArrayFS(p.x).size(); int k = ref("uima.cas.TOP"); if (n && k >= 0 && !inl) { size_t i = g.below(n); ArrayFS(p.x).set(i, ps[k].x); ArrayFS(p.y).set(i, ps[k].y); } return; }
    auto fl = r.ts.allFeats(p.type); std::vector<MFeat> ok; for (auto & q : fl) if (q.second.name != "sofa" && q.second.name != "begin" && q.second.name != "end" && !(p.indexed && a.keyFeats.count(q.second.name))) ok.push_back(q.second); if (ok.empty()) return;
    MFeat f = g.pick(ok); int kind; RangeClass rc = rangeClass(a.ts, f.range, kind); Feature fx = featOf(*a.cas, p.type, f.name), fy = featOf(*e, p.type, f.name);
    if (rc == R_PRIM || rc == R_STRSUB) { MVal v = a.genVal(g, f.range); writeFeat(a.ts, p.x, fx, f.range, v, nullptr); writeFeat(r.ts, p.y, fy, f.range, v, nullptr); g.label("edit: value"); }
    else if (rc != R_LIST) { int k = ref(f.range); if (k < 0) return; if (r.types.size() && !p.x.isUntouchedFSValue(fx)) { FeatureStructure was = p.x.getFSValue(fx); strange = strange || (was.isValid() && r.types.count(u8(was.getType().getName()))); } p.x.setFSValue(fx, ps[k].x); p.y.setFSValue(fy, ps[k].y); g.label("edit: reference"); }
  };
  std::set<int> fresh;
  for (size_t i = 0; i < edits; ++i) {
    if (ps.empty() || g.flip()) {
      std::vector<std::string> ty; for (auto & n : a.creatable()) if (r.ts.known(n) && a.ts.find(n) && !a.ts.find(n)->strsub) ty.push_back(n); if (ty.empty()) continue; std::string n = g.pick(ty);
      std::vector<std::string> vs; for (FSIterator it = a.cas->getBaseCas()->getSofaIterator(); it.isValid(); it.moveToNext()) vs.push_back(u8(SofaFS(it.get()).getSofaID())); if (vs.empty()) vs.push_back("_InitialView");
      std::string vn = g.pick(vs); CAS * va = a.cas->getBaseCas()->getView(us(vn)), * ve = e->getBaseCas()->getView(us(vn)); Pair p; p.type = n; p.indexed = false; bool ann = a.ts.subsumes("uima.tcas.Annotation", n);
      if (ann) { size_t x = g.below(9), y = x + g.below(9); p.x = va->createAnnotation(typeOf(*a.cas, n), x, y); p.y = ve->createAnnotation(typeOf(*e, n), x, y); } else { p.x = va->createFS(typeOf(*a.cas, n)); p.y = ve->createFS(typeOf(*e, n)); }
      ps.push_back(p); setOne(ps.back()); setOne(ps.back()); if (g.flip()) { va->getIndexRepository().addFS(p.x); ve->getIndexRepository().addFS(p.y); ps.back().indexed = true; } g.label("edit: new feature structure");
    } else setOne(g.pick(ps));
  }
  if (strange) g.label("edit: a reference out of the type system replaced");
  std::ostringstream o; { XmiWriter w(*e, true, &sd); w.write(o); } std::string doc2 = o.str(); g.note(doc2); checkXml(doc2, "xmi:id", true);
  Scan out = scan(doc2); for (auto & x : in.byId) { CHECK(out.byId.count(x.first), "id ", x.first, " of a ", x.second.type, " is gone"); CHECK_EQ(out.byId[x.first].type, x.second.type, "type of the element with id ", x.first); }
  CHECK(sd.getFsAddrForXmiId(0x7ffffff0) == -1, "an unused id has an address");
  std::string before = dumpCAS(*a.cas, a.labels, full); readXmi(*b.cas, doc2); std::string after = dumpCAS(*b.cas, a.labels, full);
  if (before != after) { g.note(before + "---\n" + after); fail("the CAS written first (-) and the one read from the document that passed through the smaller type system (+) differ" + firstDiff(before, after)); }
}
}
PROPERTY("P16", "lenient", 12000, 120000, "the document has a type or feature the type system lacks") { lenient(g); }
