// P33: the dump of a view shows what is indexed in it.
#include "xmlcas.hpp"
#include "../core/aedesc.hpp"
#include "uima/lowlevel_indexrepository.hpp"
#include <cmath>
using namespace uima;
using namespace vt;
namespace {
bool checkText(const US & t) { for (int i = 0; i < t.length();) { UChar32 c = t.char32At(i); if (U_IS_SURROGATE(c)) return false; i += U16_LENGTH(c); } return true; }   // no pair was torn
struct DumpReader {
  CAS & view; bool spans; const MTS & ts; std::set<lowlevel::TyFS> indexed; std::map<std::string, lowlevel::TyFS> byId; std::set<lowlevel::TyFS> path; std::set<std::string> labels;
  DumpReader(CAS & v, bool s, const MTS & t) : view(v), spans(s), ts(t) {}
  static bool number(const std::string & s, double v) {
    char * e = nullptr; double x = strtod(s.c_str(), &e); if (s.empty() || *e) return false; if (v != v) return x != x; if (std::isinf(v)) return x == v;
    return x == v || std::fabs(x - v) <= 1e-5 * std::fabs(v) || (std::isinf(x) && std::fabs(v) > 1e300);
  }
  bool prim(const std::string & s, int kind, int64_t i, double d, const US & str) {
    switch (kind) {
      case K_STRING: return s == u8(str); case K_FLOAT: case K_DOUBLE: return number(s, d);
      case K_BOOL: return s == (i ? "true" : "false") || s == (i ? "1" : "0"); default: return s == cat(i);
    }
  }
  void array(const XNode & n, FeatureStructure f, int ak, const std::string & where) {
    size_t m = arraySize(f, ak); CHECK_EQ(n.name, "array", where, "element for an array"); CHECK_EQ(n.attrs.count("size") ? n.attrs.at("size") : "-", cat(m), where, "size of the array"); CHECK_EQ(n.attrs.count("type") ? n.attrs.at("type") : "-", u8(f.getType().getName()), where, "type of the array");
    CHECK_EQ(n.kids.size(), m, where, "elements of the array");
    for (size_t i = 0; i < m; ++i) {
      const XNode & e = n.kids[i]; CHECK_EQ(e.name, "array_element", where, "element ", i);
      if (ak == A_FS) { FeatureStructure x = ArrayFS(f).get(i); if (!x.isValid()) { CHECK(e.kids.empty(), where, "element ", i, " is null but not shown so"); continue; } CHECK_EQ(e.kids.size(), 1u, where, "content of element ", i); fs(e.kids[0], x, cat(where, "[", i, "] ")); continue; }
      CHECK_EQ(e.kids.size(), 1u, where, "content of element ", i); lowlevel::TyFS none; MVal v = readElem(f, ak, i, &none); CHECK(prim(e.kids[0].text, v.kind, v.i, v.kind == K_FLOAT ? v.f : v.d, v.s), where, "element ", i, " is shown as '", e.kids[0].text, "'");
    }
  }
  void fs(const XNode & n, FeatureStructure f, const std::string & where, bool full = false) {
    std::string type = u8(f.getType().getName()); lowlevel::TyFS a = addr(f); CHECK_EQ(n.name, "fs", where, "element for a feature structure"); CHECK_EQ(n.attrs.count("type") ? n.attrs.at("type") : "-", type, where, "type");
    CHECK(n.attrs.count("id"), where, "without an id"); auto id = byId.emplace(n.attrs.at("id"), a); CHECK_EQ(id.first->second, a, where, "two feature structures with the id ", n.attrs.at("id"));
    for (auto & p : byId) if (p.second == a) CHECK_EQ(p.first, n.attrs.at("id"), where, "id of a feature structure shown before");
    if (!full && n.kids.empty() && (indexed.count(a) || path.count(a))) return;   // shown in full where it is indexed
    bool inserted = path.insert(a).second; CHECK(inserted, where, "a feature structure is expanded inside itself"); size_t k = 0;
    if (spans && ts.subsumes("uima.tcas.Annotation", type)) {
      AnnotationFS an(f); bool has = k < n.kids.size() && n.kids[k].name == "annotation_span"; UnicodeStringRef t = view.getDocumentText(); size_t b = an.getBeginPosition(), e = an.getEndPosition(); bool own = an.getFSValue(featOf(view, "uima.tcas.Annotation", "sofa")).isValid() && an.getView() == &view;
      if (own && b <= e && e <= (size_t)t.length() && t.length()) { CHECK(has, where, "the text ", b, "-", e, " is not shown"); CHECK_EQ(n.kids[k].text, u8(US(t.getBuffer() + b, e - b)), where, "span ", b, "-", e); } else if (own) CHECK(!has, where, "a span that is not in the text");
      k += has; }
    int ak = arrKindOf(type);
    if (ak >= 0) { CHECK_EQ(n.kids.size(), k + 1, where, "content of an array"); array(n.kids[k], f, ak, where); path.erase(a); return; }
    std::map<std::string, const XNode *> feats; for (; k < n.kids.size(); ++k) { CHECK_EQ(n.kids[k].name, "feat", where, "content"); CHECK(n.kids[k].attrs.count("name"), where, "a feature without name"); std::string fn = n.kids[k].attrs.at("name"); CHECK(feats.emplace(fn.substr(fn.rfind(':') + 1), &n.kids[k]).second, where, "feature ", n.kids[k].attrs.at("name"), " twice"); }
    std::vector<Feature> fl; f.getType().getAppropriateFeatures(fl);
    for (auto & ft : fl) {
      std::string nm = u8(ft.getName()); const XNode * x = feats.count(nm) ? feats[nm] : nullptr; feats.erase(nm); Type rt; ft.getRangeType(rt); std::string rg = u8(rt.getName()); int kind = -1; for (int q = 0; q < K_NPRIM; ++q) if (rg == PRIM_NAME[q]) kind = q; if (kind < 0 && rt.isStringSubType()) kind = K_STRING;
      std::string w = where + "." + nm + " "; int64_t i = 0; double d = 0; US s;
      switch (kind) {
        case -1: break; case K_INT: i = f.getIntValue(ft); break; case K_FLOAT: d = f.getFloatValue(ft); break; case K_STRING: { UnicodeStringRef r = f.getStringValue(ft); if (r.getBuffer()) s = US(r.getBuffer(), r.length()); else if (!x) continue; break; }
        case K_BOOL: i = f.getBooleanValue(ft); break; case K_BYTE: i = f.getByteValue(ft); break; case K_SHORT: i = f.getShortValue(ft); break; case K_LONG: i = f.getLongValue(ft); break; default: d = f.getDoubleValue(ft);
      }
      if (kind >= 0) { if (kind == K_STRING && !x && s.isEmpty()) continue; CHECK(x, w, "not shown"); CHECK(x->attrs.count("value"), w, "without value"); CHECK(prim(x->attrs.at("value"), kind, i, d, s), w, "is shown as '", x->attrs.at("value"), "' instead of ", kind == K_STRING ? "'" + u8(s) + "'" : kind == K_FLOAT || kind == K_DOUBLE ? cat(d) : cat(i)); continue; }
      FeatureStructure v = f.getFSValue(ft); if (!v.isValid()) { CHECK(!x, w, "is null but shown"); continue; }
      CHECK(x, w, "not shown"); CHECK_EQ(x->kids.size(), 1u, w, "content"); int vk = arrKindOf(u8(v.getType().getName()));
      if (vk >= 0 && x->kids[0].name == "array") { CHECK(path.insert(addr(v)).second, w, "an array inside itself"); array(x->kids[0], v, vk, w); path.erase(addr(v)); } else fs(x->kids[0], v, w);
    }
    CHECK(feats.empty(), where, "feature ", feats.begin()->first, " which its type does not have"); path.erase(a);
  }
};
}
PROPERTY("P33", "dump", 20000, 250000, "an indexed feature structure refers to another one or holds an array") {
  XmlPair p; p.open(g, false); User & a = p.a; a.begin(); a.run(g, 1 + g.below(35)); bool refs = false;
  size_t i = g.below(a.views.size()); CAS & c = *a.views[i];
  if (g.flip() && !c.getDocumentText().length()) { US t = genText(g, 40, T_XML); for (size_t k = g.below(3); k-- > 0;) t.insert(g.below(t.length() + 1), us(g.one<const char *>({"]]>", "]]", "\r\n", "]]]>", "&#13;", "\r"}))); if (checkText(t) && t.length()) try { c.setDocumentText(UnicodeStringRef(t.getBuffer(), t.length())); } catch (Exception &) { } }
  if (c.getDocumentText().length()) g.label("document text"); bool doc = g.chance(2, 3); std::string before = dumpCAS(c, a.labels, p.o);
  std::ostringstream os; try { XMLDumpWriter w(c, doc); w.write(os); } catch (Exception & e) { fail("the dump fails: " + excText(e)); }
  std::string s = os.str(); g.note(s.substr(0, 20000)); g.sample(s.substr(0, 1500)); XNode n = readXml(s); CHECK_EQ(n.name, "taf", "root");
  size_t k = 0; if (doc) { CHECK(n.kids.size() > 0 && n.kids[0].name == "doc_buffer", "no document"); std::string t = n.kids[0].text; CHECK(t.size() >= 2 && t[0] == '\n' && t[t.size() - 1] == '\n', "document text"); CHECK_EQ(t.substr(1, t.size() - 2), u8(c.getDocumentText()), "document text"); ++k; }
  CHECK(n.kids.size() == k + 1 && n.kids[k].name == "feature_structures", "no feature structures"); DumpReader r(c, doc, a.ts);
  for (auto & l : a.labels) for (FSIterator it = c.getIndexRepository().getIndex(us(l)).iterator(); it.isValid(); it.moveToNext()) r.indexed.insert(addr(it.get()));
  std::set<std::string> seen; const std::vector<XNode> & ix = n.kids[k].kids;
  for (size_t j = 0; j < ix.size(); ++j) {
    CHECK_EQ(ix[j].name, "index", "content"); std::string l = ix[j].attrs.count("id") ? ix[j].attrs.at("id") : "-"; CHECK(seen.insert(l).second, "index ", l, " twice"); if (std::find(a.labels.begin(), a.labels.end(), l) == a.labels.end()) continue;   // built-in indexes of the library's own
    FSIndex x = c.getIndexRepository().getIndex(us(l)); size_t q = 0; for (FSIterator it = x.iterator(); it.isValid(); it.moveToNext(), ++q) { CHECK(q < ix[j].kids.size(), "index ", l, " is cut after ", q); std::string w = cat("index ", l, " element ", q, " "); r.fs(ix[j].kids[q], it.get(), w, true); for (auto & f : ix[j].kids[q].kids) refs = refs || !f.kids.empty(); }
    CHECK_EQ(ix[j].kids.size(), q, "elements of index ", l);
  }
  for (auto & l : a.labels) CHECK(seen.count(l), "index ", l, " is missing"); g.nontrivial(refs); if (refs) g.label("references"); if (doc) g.label("with document");
  CHECK(dumpCAS(c, a.labels, p.o) == before, "the dump changes the CAS");
}
