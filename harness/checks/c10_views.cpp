// P10: views and sofas.  P11: reset.
#include "user.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/language.hpp"
#include "uima/sofamapping.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
using namespace uima; using namespace vt;
namespace {
MTS viewTS() {
  MTS ts; MType a; a.name = "t.Ref"; a.super = "uima.cas.TOP"; a.feats = {MFeat{"k", "uima.cas.Integer"}, MFeat{"ann", "uima.tcas.Annotation"}, MFeat{"s", "uima.cas.String"}}; ts.types.push_back(a);
  MType b; b.name = "t.Ann"; b.super = "uima.tcas.Annotation"; b.feats = {MFeat{"k", "uima.cas.Integer"}}; ts.types.push_back(b); return ts;
}
std::vector<MIndex> viewIx() { MIndex a; a.label = "all"; a.type = "uima.cas.TOP"; a.kind = MIndex::BAG; a.keys = {MKey{"", false, true}}; MIndex b; b.label = "byK"; b.type = "t.Ref"; b.keys = {MKey{"k", false, false}}; return {a, b}; }
enum DK { D_NONE, D_TEXT, D_ARR, D_URI };
struct MView { std::string name; bool sofa = false; int num = 0; CAS * cas = nullptr; int kind = D_NONE; US text, uri; int arr = -1; bool mimeKnown = true; US mime; std::string lang; bool everText = false; std::multiset<lowlevel::TyFS> held; };
struct NodeV { lowlevel::TyFS a; size_t view; int kind; };   // 0 Ref, 1 Ann, 2 array
struct VW {
  MTS ts; TSHolder h; CAS * cas = nullptr; CAS * base = nullptr; std::vector<MView> v; std::vector<NodeV> nodes; std::vector<std::vector<int>> arrVals; int nextNum = 2;
  ~VW() { delete cas; }
  int find(const std::string & n) { for (size_t i = 0; i < v.size(); ++i) if (v[i].name == n) return i; return -1; }
  CAS & view(size_t i) { if (!v[i].cas) v[i].cas = base->getView(SofaFS(sofa(i))); return *v[i].cas; }
  SofaFS sofa(size_t i) { SofaID id; id.setSofaId(us(v[i].name)); return base->getSofa(id); }
  void checkView(size_t i) {
    MView & m = v[i]; std::string w = cat("view ", i, " '", m.name, "' ");
    SofaFS s = sofa(i); CHECK_EQ(s.isValid(), m.sofa, w, "sofa exists");
    CAS * p = base->getView(us(m.name)); if (m.cas) CHECK(p == m.cas, w, "getView gives another object"); else m.cas = p;
    CAS & c = *p;
    CHECK_EQ(c.getSofa().isValid(), m.sofa, w, "getSofa of the view");
    if (m.sofa) {
      CHECK_EQ(addr(c.getSofa()), addr(s), w, "sofa of the view"); CHECK_EQ(u8(c.getViewName()), m.name, w, "getViewName"); CHECK_EQ(u8(s.getSofaID()), m.name, w, "getSofaID");
      if (m.mimeKnown) CHECK_EQ(u8(s.getSofaMime()), u8(m.mime), w, "mime type");
      CHECK_EQ(s.getSofaRef(), m.num, w, "sofa number");
      CHECK_EQ(u8(s.getLocalStringData()), m.kind == D_TEXT ? u8(m.text) : "", w, "sofa string"); 
      FeatureStructure a = s.getLocalFSData(); CHECK_EQ(a.isValid() ? addr(a) : 0, m.kind == D_ARR ? nodes[m.arr].a : 0, w, "sofa array feature");
    }
    US got(c.getDocumentText().getBuffer(), c.getDocumentText().length()); CHECK(got == (m.kind == D_TEXT ? m.text : US()), w, "document text is '", u8(got), "' instead of '", u8(m.text), "'");
    CHECK_EQ(u8(c.getSofaDataURI()), m.kind == D_URI ? u8(m.uri) : "", w, "uri");
    FeatureStructure a = c.getSofaDataArray(); CHECK_EQ(a.isValid() ? addr(a) : 0, m.kind == D_ARR ? nodes[m.arr].a : 0, w, "sofa array");
    if (m.kind == D_ARR) { auto & ex = arrVals[m.arr]; IntArrayFS ia(a); CHECK_EQ(ia.size(), ex.size(), w, "array size"); for (size_t k = 0; k < ex.size(); ++k) CHECK_EQ(ia.get(k), ex[k], w, "array element ", k); }
    // contents
    std::multiset<lowlevel::TyFS> all, ann; size_t docs = 0;
    for (FSIterator it = c.getIndexRepository().getIndex(us("all")).iterator(); it.isValid(); it.moveToNext()) { if (u8(it.get().getType().getName()) == "uima.tcas.DocumentAnnotation") ++docs; else all.insert(addr(it.get())); }
    CHECK(all == m.held, w, "holds ", all.size(), " feature structures (or others) instead of ", m.held.size());
    size_t docs2 = 0;
    for (ANIterator it = c.getAnnotationIndex().iterator(); it.isValid(); it.moveToNext()) {
      AnnotationFS x = it.get(); CHECK(x.getView() == p, w, "an annotation of its index reports another view");
      if (u8(x.getType().getName()) == "uima.tcas.DocumentAnnotation") { ++docs2; CHECK_EQ(x.getBeginPosition(), 0u, w, "begin of the document annotation"); CHECK_EQ(x.getEndPosition(), (size_t)m.text.length(), w, "end of the document annotation"); CHECK_EQ(addr(x), addr(c.getDocumentAnnotation()), w, "getDocumentAnnotation"); } else ann.insert(addr(x)); }
    CHECK_EQ(docs, docs2, w, "document annotations in two indexes");
    if (m.kind == D_TEXT && (m.text.length() > 0 || m.everText)) CHECK_EQ(docs, 1u, w, "document annotations"); else CHECK(docs <= (m.kind == D_TEXT ? 1u : 0u), w, docs, " document annotations");
    for (auto & n : nodes) if (n.view == i && n.kind == 1) CHECK_EQ(ann.count(n.a), m.held.count(n.a), w, "annotation index and bag");
    if (docs == 1) CHECK_EQ(u8(c.getDocumentAnnotation().getLanguage().asUnicodeString()), m.lang, w, "language");
  }
  void checkSofas(Gen & g) {
    std::multiset<std::string> got, exp; std::set<int> nums; for (auto & m : v) if (m.sofa) exp.insert(m.name);
    CAS & any = g.flip() ? *base : *cas;
    for (FSIterator it = any.getSofaIterator(); it.isValid(); it.moveToNext()) { SofaFS s(it.get()); got.insert(u8(s.getSofaID())); CHECK(nums.insert(s.getSofaRef()).second, "sofa number ", s.getSofaRef(), " twice"); if (got.size() > 1000) fail("sofa iterator does not end"); }
    if (got != exp) { std::string a, b; for (auto & x : got) a += " '" + x + "'"; for (auto & x : exp) b += " '" + x + "'"; fail(cat("sofa iterator lists", a, " instead of", b)); }
  }
};
const char * const * NAMES = VIEW_NAMES; const char * const * LANGS = LANG_NAMES;
}
PROPERTY("P10", "views", 9000, 160000, "two or more views hold data") {
  initUima(); VW w; w.ts = viewTS(); w.h.ts = buildTS(w.ts); w.cas = makeCAS(*w.h.ts, viewIx()); w.base = w.cas->getBaseCas();
  { MView m; m.name = "_InitialView"; m.num = 1; m.cas = w.cas; w.v.push_back(m); }
  size_t n = 3 + g.below(30); std::vector<MView> & v = w.v;
  auto ensureSofa = [&](size_t i, bool known, const US & mime) { if (!v[i].sofa) { v[i].sofa = true; v[i].mimeKnown = known; v[i].mime = mime; } };
  for (size_t k = 0; k < n && !g.exhausted(); ++k) {
    size_t i = g.below(v.size()); MView * m = &v[i];
    switch (g.weighted({5, 3, 3, 8, 4, 3, 8, 5, 2, 2, 3, 2, 2})) {
      case 0: { std::string nm = NAMES[g.below(14)]; CAS & from = g.flip() ? *w.base : w.view(i); int f = w.find(nm); g.note("createView " + nm); CAS * c = nullptr; bool t = throwsUima([&] { c = from.createView(us(nm)); });
                CHECK_EQ(t, f >= 0, "createView('", nm, "') refused"); if (!t) { CHECK(c != nullptr, "createView gives NULL"); for (auto & x : v) CHECK(x.cas != c, "createView('", nm, "') gives the view '", x.name, "'"); MView x; x.name = nm; x.sofa = true; x.num = w.nextNum++; x.cas = c; v.push_back(x); } break; }
      case 1: { std::string nm = NAMES[g.below(14)]; CAS & from = g.flip() ? *w.base : w.view(i); int f = w.find(nm); g.note("getView " + nm); CAS * c = nullptr; bool t = throwsUima([&] { c = from.getView(us(nm)); }); CHECK_EQ(t, f < 0, "getView('", nm, "') refused");
                if (!t) { if (v[f].cas) CHECK(v[f].cas == c, "getView('", nm, "') gives another view"); v[f].cas = c; } SofaID id; id.setSofaId(us(nm)); CHECK_EQ(from.getSofa(id).isValid(), f >= 0 && v[f].sofa, "getSofa('", nm, "') valid"); break; }
      case 2: { std::string nm = NAMES[g.below(14)]; int f = w.find(nm); bool dup = f >= 0 && v[f].sofa; SofaID id; id.setSofaId(us(nm)); const char * mime = g.one<const char *>({"text/plain", "a", "audio/x\xc3\xa9", ""}); g.note("createSofa " + nm); SofaFS s; bool t = throwsUima([&] { s = (g.flip() ? w.base : &w.view(i))->createSofa(id, mime); });
                CHECK_EQ(t, dup, "createSofa('", nm, "') refused"); if (!t) { CHECK(s.isValid(), "createSofa gives an invalid sofa"); if (f >= 0) { v[f].sofa = true; v[f].mime = us(mime); v[f].mimeKnown = true; } else { MView x; x.name = nm; x.sofa = true; x.num = w.nextNum++; x.mime = us(mime); if (g.flip()) x.cas = w.base->getView(s); v.push_back(x); } } break; }
      case 3: { if (m->kind != D_NONE && m->kind != D_TEXT) break; CAS & c = w.view(i); US t = g.chance(1, 6) ? US() : genText(g, g.chance(1, 10) ? 3000 : 30, T_RAW); int how = g.below(6); g.note(cat("text of ", m->name, " how ", how, " '", u8(t), "'"));
                switch (how) {
                  case 0: { US mime = us(g.one<const char *>({"text", "text/html", "m\xc3\xa9"})); c.setSofaDataString(UnicodeStringRef(t.getBuffer(), t.length()), mime); ensureSofa(i, true, mime); m->mime = mime; m->mimeKnown = true; break; }
                  case 1: c.setDocumentText(t.getBuffer(), t.length(), true); ensureSofa(i, false, US()); break;
                  case 2: { std::vector<UChar> own(t.getBuffer(), t.getBuffer() + t.length()); own.push_back(0); c.setDocumentText(own.data(), t.length(), false); ensureSofa(i, false, US()); if (t.length()) own[0] = 'Z'; break; }
                  case 3: { size_t j = g.below(v.size()); CAS & o = w.view(j); UnicodeStringRef r = o.getDocumentText(); US cp(r.getBuffer(), r.length()); size_t off = cp.length() ? g.below(cp.length()) : 0; t = US(cp, off); c.setDocumentText(UnicodeStringRef(r.getBuffer() + off, r.length() - off)); ensureSofa(i, false, US()); break; }
                  case 4: if (m->sofa) { SofaFS s = w.sofa(i); s.setLocalSofaData(UnicodeStringRef(t.getBuffer(), t.length())); break; }   // fall through
                  default: c.setDocumentText(UnicodeStringRef(t.getBuffer(), t.length())); ensureSofa(i, false, US());
                }
                m->kind = D_TEXT; m->text = t; if (t.length()) m->everText = true; break; }
      case 4: { if (m->kind != D_NONE && m->kind != D_ARR) break; CAS & c = w.view(i); size_t sz = g.below(5); IntArrayFS a = c.createIntArrayFS(sz); std::vector<int> vals; for (size_t q = 0; q < sz; ++q) { vals.push_back(genInt(g)); a.set(q, vals.back()); }
                w.arrVals.resize(w.nodes.size()); w.nodes.push_back(NodeV{addr(a), i, 2}); w.arrVals.push_back(vals); g.note("array data of " + m->name);
                if (m->sofa && g.chance(1, 3)) { SofaFS s = w.sofa(i); s.setLocalSofaData((FeatureStructure)a); } else { US mime = us(g.one<const char *>({"text", "image/png"})); c.setSofaDataArray(a, mime); ensureSofa(i, true, mime); m->mime = mime; m->mimeKnown = true; }
                m->kind = D_ARR; m->arr = w.nodes.size() - 1; break; }
      case 5: { if (m->kind != D_NONE && m->kind != D_URI) break; CAS & c = w.view(i); US u = us(g.one<const char *>({"file:/a/b", "http://x/y?z=1", "vt:\xc3\xa4"})); g.note("uri of " + m->name);
                if (m->sofa && g.chance(1, 3)) { SofaFS s = w.sofa(i); if (g.flip() && us(u8(u)) == u && u8(u).find('\0') == std::string::npos) s.setRemoteSofaURI(u8(u).c_str()); else s.setRemoteSofaURI(u); } else { US mime = us(g.one<const char *>({"text", "video/x"})); c.setSofaDataURI(u, mime); ensureSofa(i, true, mime); m->mime = mime; m->mimeKnown = true; }
                m->kind = D_URI; m->uri = u; break; }
      case 6: { CAS & c = w.view(i); int kd = g.below(2); FeatureStructure f; if (kd) f = c.createAnnotation(typeOf(c, "t.Ann"), g.below(5), 5 + g.below(5)); else { f = c.createFS(typeOf(c, "t.Ref")); f.setIntValue(featOf(c, "t.Ref", "k"), (int)g.below(4)); f.setStringValue(featOf(c, "t.Ref", "s"), us(m->name)); }
                w.arrVals.resize(w.nodes.size() + 1); w.nodes.push_back(NodeV{addr(f), i, kd}); g.note(cat("new fs in ", m->name)); if (g.chance(2, 3)) { c.getIndexRepository().addFS(f); m->held.insert(addr(f)); }
                if (kd) { AnnotationFS an(f); CHECK(an.getView() == &c, "a new annotation of view ", i, " reports another view"); } break; }
      case 7: { std::vector<size_t> own; for (size_t q = 0; q < w.nodes.size(); ++q) if ((w.nodes[q].view == i && w.nodes[q].kind == 1) || w.nodes[q].kind == 0) own.push_back(q); if (own.empty()) break; size_t q = g.pick(own); CAS & c = w.view(i); FeatureStructure f = promote(w.nodes[q].a, c); bool in = m->held.count(w.nodes[q].a);
                g.note(cat(in ? "remove " : "add ", q, " in ", m->name)); if (in) { c.getIndexRepository().removeFS(f); m->held.erase(m->held.find(w.nodes[q].a)); } else { c.getIndexRepository().addFS(f); m->held.insert(w.nodes[q].a); } break; }
      case 8: { CAS & c = w.view(i); std::string l = LANGS[g.below(5)]; g.note("language " + l + " of " + m->name); DocumentFS d = c.getDocumentAnnotation(); CHECK(d.isValid(), "no document annotation"); d.setLanguage(Language(l.c_str())); m->lang = l; CHECK_EQ(u8(c.getDocumentAnnotation().getLanguage().asUnicodeString()), l, "language of view ", i); CHECK(d.getView() == &c, "the document annotation of view ", i, " reports another view"); break; }
      case 9: { size_t j = g.below(w.nodes.size() + 1); if (j >= w.nodes.size() || w.nodes[j].kind != 1) break; CAS & c = w.view(i); FeatureStructure f = c.createFS(typeOf(c, "t.Ref")); f.setFSValue(featOf(c, "t.Ref", "ann"), promote(w.nodes[j].a, w.view(w.nodes[j].view))); AnnotationFS an(f.getFSValue(featOf(c, "t.Ref", "ann"))); CHECK_EQ(addr(an), w.nodes[j].a, "reference");
                // an annotation made before its view had a sofa does not name one
                bool hasSofa = an.getFSValue(featOf(c, "uima.tcas.Annotation", "sofa")).isValid(); if (hasSofa) CHECK(an.getView() == v[w.nodes[j].view].cas, "an annotation of view ", w.nodes[j].view, " read through view ", i, " reports another view"); break; }
      case 10: w.checkView(i); break;
      case 11: w.checkSofas(g); break;
      default: { g.note("base methods"); US t = us("x"); CAS & b = *w.base; switch (g.below(5)) {
        case 0: CHECK(throwsUima([&] { b.setDocumentText(UnicodeStringRef(t.getBuffer(), 1)); }), "the base CAS accepts a document text"); break;
        case 1: CHECK(throwsUima([&] { b.getIndexRepository(); }), "the base CAS gives an index repository"); break;
        case 2: CHECK(throwsUima([&] { b.setSofaDataString(UnicodeStringRef(t.getBuffer(), 1), us("text")); }), "the base CAS accepts sofa data"); break;
        case 3: CHECK(throwsUima([&] { b.setSofaDataURI(t, us("text")); }), "the base CAS accepts a sofa uri"); break;
        default: { FeatureStructure a = b.createIntArrayFS(1); w.arrVals.resize(w.nodes.size() + 1); CHECK(throwsUima([&] { b.setSofaDataArray(a, us("text")); }), "the base CAS accepts a sofa array"); } } }
    }
  }
  size_t data = 0; for (auto & m : v) data += m.kind != D_NONE || !m.held.empty(); g.nontrivial(data >= 2);
  for (auto & m : v) g.label(cat("data kind ", m.kind)); g.label(cat("views ", v.size()));
  for (size_t i = 0; i < v.size(); ++i) w.checkView(i);
  w.checkSofas(g);
}

// ---------------------------------------------------------------------------- P11
PROPERTY("P11", "reset", 5000, 90000, "both histories index feature structures or set data") {
  User a, b; TSOpts o; o.maxTypes = 4; o.maxFeats = 4; initUima(); a.ts = genTS(g, o); a.sys = buildTS(a.ts, &g); auto ix = userIndexes(g, a.ts, 2, true);
  a.cas = makeCAS(*a.sys, ix); b.ownSys = false; b.ts = a.ts; b.sys = a.sys; a.vo.text = b.vo.text = T_XML; a.vo.denormals = b.vo.denormals = false;
  for (auto & i : ix) a.labels.push_back(i.label); a.labels.push_back("AnnotationIndex"); b.labels = a.labels;
  size_t rounds = 1 + g.below(2); bool used = false;
  for (size_t r = 0; r < rounds; ++r) {
    a.begin(); size_t n = 1 + g.below(25); bool big = g.chance(1, 40);
    a.run(g, n); used = used || a.nodes.size() > 1 || a.views.size() > 1;
    if (big) { for (int k = 0; k < 3000; ++k) a.createArray(1 + k % (A_N - 1), 200, nullptr); }
    size_t how = g.weighted({4, 2, 1, 2}); std::string doc;
    if (how) {   // overwrite it with what another CAS holds
      User c; c.ownSys = false; c.ts = a.ts; c.sys = a.sys; c.vo = a.vo; c.labels = a.labels; c.cas = makeCAS(*a.sys, ix); c.begin(); c.run(g, 1 + g.below(15)); g.label(cat("history with deserialization ", how));
      try { if (how == 1) doc = c.xmi(); else if (how == 2) doc = c.xcas(); else doc = c.blob(); if (g.flip() || how == 3) a.cas->reset(); if (how == 1) readXmi(*a.cas, doc); else if (how == 2) readXcas(*a.cas, doc); else readBlob(*a.cas, doc); } catch (uima::Exception &) { g.label("deserialization refused"); }
    }
    if (r + 1 < rounds || g.flip()) a.cas->reset(); else a.cas->getBaseCas()->reset();
  }
  // the same history on the reset and on a new CAS
  b.cas = makeCAS(*a.sys, ix); a.begin(); b.begin();
  if (g.chance(1, 3)) {   // which starts with reading the same document
    User c; c.ownSys = false; c.ts = a.ts; c.sys = a.sys; c.vo = a.vo; c.labels = a.labels; c.cas = makeCAS(*a.sys, ix); c.begin(); c.run(g, 1 + g.below(15)); size_t how = 1 + g.below(3); std::string doc;
    try { doc = how == 1 ? c.xmi() : how == 2 ? c.xcas() : c.blob(); } catch (uima::Exception &) { how = 0; }
    if (how) {
      g.label("read a document first");
      for (User * u : {&a, &b}) {
        u->act("read", [&] { if (how == 1) readXmi(*u->cas, doc); else if (how == 2) readXcas(*u->cas, doc); else readBlob(*u->cas, doc); });
        u->dataSet = c.dataSet;
        for (size_t i = 1; i < c.names.size(); ++i) u->act("getView " + c.names[i], [&] { CAS * x = u->cas->getBaseCas()->getView(us(c.names[i])); bool seen = false; for (auto y : u->views) seen = seen || x == y; u->note(seen ? "an old view" : "another view"); u->views.push_back(x); u->names.push_back(c.names[i]); });
      }
    }
  }
  Gen::Tape t; size_t n = 2 + g.below(25);
  g.startTape(t); a.run(g, n); g.stopTape(); g.playTape(t); b.run(g, n); g.stopTape();
  g.nontrivial(used && (a.nodes.size() > 0 || a.dataSet.size() > 0));
  if (a.log != b.log) fail("outcomes differ (reset - , new +)" + firstDiff(a.log, b.log));
  std::string x = a.observe(), y = b.observe(); if (x != y) fail("contents differ (reset -, new +)" + firstDiff(x, y));
  CHECK(a.cas->isBackwardCompatibleCas() == b.cas->isBackwardCompatibleCas(), "isBackwardCompatibleCas differs");
  auto out = [&](User & u, int k) { try { return k == 0 ? u.xmi() : k == 1 ? u.xcas() : u.blob(); } catch (uima::Exception & e) { return "exception " + cat(e.getErrorInfo().getErrorId()); } };
  for (int k = 0; k < 3; ++k) { std::string p = out(a, k), q = out(b, k); if (p != q) { size_t d = 0; while (d < p.size() && d < q.size() && p[d] == q[d]) ++d; fail(cat(k == 0 ? "XMI" : k == 1 ? "XCAS" : "binary", " forms differ at byte ", d, " of ", p.size(), "/", q.size(), k < 2 ? ": " + p.substr(d > 40 ? d - 40 : 0, 120) + " | " + q.substr(d > 40 ? d - 40 : 0, 120) : "")); } }
}
