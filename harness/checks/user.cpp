#include "user.hpp"
using namespace uima;
namespace vt {
const char * VIEW_NAMES[14] = {"v1", "v2", "V1", "_InitialView", "_initialview", "v1 ", "\xc3\xbc", "\xf0\x90\x8d\x88", "v1.x", "a.very.long.view.name.with.many.parts.and.characters", "v11", "_InitialView2", "\xf0\x90\x8d\x89", "x"};
const char * LANG_NAMES[5] = {"en", "de", "pt-br", "zh-cn", ""};
std::vector<MIndex> userIndexes(Gen & g, const MTS & ts, size_t n, bool withSets) {
  auto ix = genIndexes(g, ts, n); if (!withSets) for (auto & i : ix) if (i.kind == MIndex::SET) i.kind = MIndex::SORTED;
  if (!g.chance(2, 3)) return ix;   // then structures of some types are indexed in a view without any index listing them
  MIndex m; m.label = "all"; m.type = "uima.cas.TOP"; m.kind = MIndex::BAG; m.keys = {MKey{"", false, true}}; ix.push_back(m); return ix;
}
void User::begin() { views.clear(); names.clear(); nodes.clear(); dataSet.clear(); log.clear(); held.clear(); views.push_back(cas); names.push_back("_InitialView"); }
int User::createList(Gen & g, CAS * c) {
  static const char * LT[] = {"uima.cas.EmptyFSList", "uima.cas.NonEmptyFSList", "uima.cas.NonEmptyIntegerList", "uima.cas.EmptyIntegerList", "uima.cas.NonEmptyFloatList", "uima.cas.EmptyFloatList", "uima.cas.NonEmptyStringList", "uima.cas.EmptyStringList"};
  MNode n; n.type = g.one({LT[0], LT[1], LT[1], LT[2], LT[2], LT[3], LT[4], LT[4], LT[5], LT[6], LT[6], LT[7]}); n.view = c; n.a = addr(c->createFS(typeOf(*c, n.type)));
  for (auto & p : ts.allFeats(n.type)) n.feats[p.second.name] = defaultVal(ts, p.second.range);
  nodes.push_back(n); int x = nodes.size() - 1;
  if (n.type.compare(9, 8, "NonEmpty") == 0) {   // a list ends with an empty list
    auto fl = ts.allFeats(n.type); MFeat tail; for (auto & p : fl) { if (p.second.name == "tail") { tail = p.second; continue; } MVal v = genVal(g, p.second.range); set(x, p.second, v); }
    std::vector<int> ok; for (int r : refsFor(tail.range)) if (r < x) ok.push_back(r);
    if (ok.empty()) { MNode e; e.type = "uima.cas.Empty" + n.type.substr(17); e.view = c; e.a = addr(c->createFS(typeOf(*c, e.type))); nodes.push_back(e); ok.push_back(nodes.size() - 1); std::swap(nodes[x], nodes[x + 1]); std::swap(x, ok[0]); }
    MVal v = defaultVal(ts, tail.range); v.ref = g.pick(ok); set(x, tail, v);
  }
  return x;
}
void User::doSet(Gen & g, size_t x) {
  MNode & m = nodes[x];
  if (m.array) { if (!m.elems.empty()) setElem(x, g.below(m.elems.size()), genElem(g, m.ak)); return; }
  bool isHeld = held.count(x) && !held[x].empty(); std::vector<MFeat> ok;
  for (auto & p : ts.allFeats(m.type)) { auto & n = p.second.name; if (n != "sofa" && n != "begin" && n != "end" && !(isHeld && keyFeats.count(n))) ok.push_back(p.second); }
  if (ok.empty()) return;
  MFeat f = g.pick(ok); MVal val = genVal(g, f.range); if (val.cls == R_FS && val.ref < 0) return;
  if (f.name == "tail" && m.type.compare(0, 17, "uima.cas.NonEmpty") == 0 && !circularLists && val.ref >= (int)x) return;
  act("set " + f.name, [&] { set(x, f, val); });
}
void User::fill(Gen & g, size_t x) { size_t n = g.below(4); for (size_t i = 0; i < n; ++i) doSet(g, x); }
void User::run(Gen & g, size_t n) {
  for (size_t k = 0; k < n; ++k) {
    size_t i = g.below(views.size()); CAS & c = *views[i];
    auto viewName = [&]() -> std::string { return viewNames.empty() ? std::string(VIEW_NAMES[g.below(14)]) : viewNames[g.below(viewNames.size())]; };
    switch (g.weighted({3, 4, 2, 10, 4, 6, 3, 3, 2, 2, 1, 3})) {
      case 0: { std::string nm = viewName(); act("createView " + nm, [&] { CAS * x = c.createView(us(nm)); bool seen = false; for (auto y : views) seen = seen || x == y; note(seen ? "an old view" : "a new view"); if (!seen) { views.push_back(x); names.push_back(nm); } }); break; }
      case 1: { US t = genText(g, 30, vo.text); if (dataSet.count(i) || !t.length()) break; dataSet.insert(i); act("text " + names[i], [&] { c.setDocumentText(UnicodeStringRef(t.getBuffer(), t.length())); }); break; }
      case 2: { if (!dataSet.insert(i).second) break; if (g.flip()) act("uri", [&] { c.setSofaDataURI(us("file:/x"), us("a/b")); }); else { int a = createArray(1 + g.below(A_N - 1), g.below(4), &c); act("array", [&] { c.setSofaDataArray(fs(a), us("c/d")); }); } break; }
      case 3: { auto ty = creatable(); ty.push_back("uima.tcas.Annotation"); std::string t = g.pick(ty); act("create " + t, [&] { int x = create(g, t, &c); fill(g, x); if (g.chance(2, 3)) { c.getIndexRepository().addFS(fs(x)); held[x].insert(i); } }); break; }
      case 4: { int x = createArray(g.below(A_N), g.small(5), &c); fill(g, x); break; }
      case 5: if (!nodes.empty()) doSet(g, g.below(nodes.size())); break;
      case 6: { if (nodes.empty()) break; size_t x = g.below(nodes.size()); bool in = held[x].count(i); if (nodes[x].view == &c || !ts.subsumes("uima.cas.AnnotationBase", nodes[x].type)) { if (removals && g.chance(1, 3)) act("remove", [&] { c.getIndexRepository().removeFS(fs(x)); if (noDup) held[x].erase(i); }); else if (!noDup || !in) act("add", [&] { c.getIndexRepository().addFS(fs(x)); held[x].insert(i); }); } break; }
      case 7: { size_t cnt = 0; act("iterate", [&] { for (FSIterator it = c.getIndexRepository().getIndex(us(g.pick(labels))).iterator(); it.isValid(); it.moveToNext()) ++cnt; }); note(cat("count ", cnt)); break; }
      case 8: { size_t l = g.below(5); if (langs && (!langsNeedText || c.getDocumentText().length())) act("language", [&] { DocumentFS d = c.getDocumentAnnotation(); note("was " + u8(d.getLanguage().asUnicodeString())); d.setLanguage(Language(LANG_NAMES[l])); }); break; }
      case 9: { std::string nm = viewName(); act("getView " + nm, [&] { CAS * x = c.getView(us(nm)); size_t q = 99; for (size_t y = 0; y < views.size(); ++y) if (views[y] == x) q = y; note(cat("view ", q)); }); break; }
      case 10: note(cat("text ", u8(c.getDocumentText()), " sofas ", [&] { size_t s = 0; for (FSIterator it = c.getSofaIterator(); it.isValid(); it.moveToNext()) ++s; return s; }(), " bc ", c.isBackwardCompatibleCas())); break;
      default: if (lists) { int x = createList(g, &c); if (g.chance(1, 6)) { c.getIndexRepository().addFS(fs(x)); held[x].insert(i); } }
    }
  }
}
std::string User::observe() {
  std::string r = log; for (size_t i = 0; i < views.size(); ++i) r += cat("view ", names[i], " text '", u8(views[i]->getDocumentText()), "' sofa ", views[i]->getSofaNum(), "\n");
  DumpOpts o; o.ordered = true; r += dumpCAS(*cas, labels, o); return r;
}
std::string User::xmi() { std::ostringstream o; XmiWriter x(*cas, true); x.write(o); return o.str(); }
std::string User::xcas() { std::ostringstream o; XCASWriter x(*cas, true); x.write(o); return o.str(); }
std::string User::blob() { uima::internal::CASSerializer s(false); CAS & b = *cas->getBaseCas(); size_t n = s.getBlobSize(b); std::vector<char> buf(n + 64); size_t m = s.getBlob(b, buf.data(), buf.size()); return std::string(buf.data(), m); }
void User::adopt(const User & from) {
  begin(); names = from.names; views.clear(); for (auto & n : names) views.push_back(cas->getBaseCas()->getView(us(n)));
  nodes = from.nodes; for (auto & n : nodes) for (size_t i = 0; i < from.views.size(); ++i) if (n.view == from.views[i]) { n.view = views[i]; break; }
  dataSet = from.dataSet; held = from.held;
}
void readXmi(CAS & c, const std::string & x) { xercesc::MemBufInputSource s((const XMLByte *)x.data(), x.size(), "vt"); XmiDeserializer::deserialize(s, c, false); }
void readXcas(CAS & c, const std::string & x) { xercesc::MemBufInputSource s((const XMLByte *)x.data(), x.size(), "vt"); XCASDeserializer::deserialize(s, c); }
void readBlob(CAS & c, const std::string & b) { std::vector<char> x(b.begin(), b.end()); uima::internal::CASDeserializer d; d.deserializeBlob(x.data(), *c.getBaseCas()); }
}
