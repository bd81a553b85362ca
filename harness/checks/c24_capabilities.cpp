// P24: capability language flows.
#include "engines.hpp"
using namespace uima;
using namespace vt;

typedef std::set<std::string> Names;
static std::string show(const Names & n) { std::string s; for (auto & x : n) s += " " + x; return s; }
static std::string canon(std::string l) { for (auto & c : l) c = c == '_' ? '-' : (char)tolower(c); return l == "x-unspecified" ? "" : l; }
static std::string mainLang(const std::string & l) { return l.substr(0, l.find('-')); }
// whether what is declared for language cap holds for documents in language doc
static bool supports(const std::string & cap, const std::string & doc) {
  if (cap.empty() || cap == doc) return true; if (doc.empty()) return false;
  return doc.find('-') != std::string::npos ? cap == mainLang(doc) : mainLang(cap) == doc;   // more general; more specific only when the document names no territory
}
static std::string capLang(Gen & g) { static const std::vector<std::string> l = {"en", "en-us", "en-US", "EN_gb", "de", "de-at", "fr", "x-unspecified", "x-unspecified", "X-Unspecified", "zh-tw", "eng"}; return l[g.below(11)]; }
static std::string docLang(Gen & g) { static const std::vector<std::string> l = {"", "en", "en-us", "en_GB", "de", "de-at", "de-ch", "fr", "fr-ca", "zh-tw", "zh", "pt-br"}; return l[g.below(12)]; }
struct Cap {
  Gen & g; MTS ts; Ae a; Stage st; EngineP e; std::map<std::string, std::string> tofs;   // name as written -> name of the type or feature it denotes
  std::map<std::string, std::string> sets; std::string failing;                           // primitive -> the language it sets; the one that fails
  struct Call { std::string who; Names spec; }; std::vector<Call> exp, got; size_t skipped = 0; bool stop = false, dumps = false;
  explicit Cap(Gen & g) : g(g) {}
  Names outs(const Ae & x, const std::string & lang) { Names r; for (auto & c : x.caps) for (auto & l : c.langs) if (supports(canon(l), lang)) for (auto & t : c.out) r.insert(tofs[t.name]); return r; }
  bool declared(const Ae & x, const std::string & lang) { for (auto & c : x.caps) for (auto & l : c.langs) if (supports(canon(l), lang)) return true; return false; }
  void model(const Ae & x, const Names & spec, std::string & lang) {
    if (stop) return;
    if (x.primitive) { exp.push_back({x.name, spec}); if (failing == x.name) stop = true; else if (sets.count(x.name)) lang = canon(sets[x.name]); return; }
    Names left = spec;
    for (auto & n : x.nodes) { const Ae & d = *delegateOf(x, n); Names o = outs(d, lang), want; for (auto & t : left) if (o.count(t)) want.insert(t);
      bool none = o.empty() && declared(d, lang); if (none) dumps = true; // consumers which produce nothing in the CAS
      if (x.flow == 0 || none || !want.empty()) model(d, want, lang); else ++skipped; if (stop) return; for (auto & t : want) left.erase(t); }
  }
  void capabilities(Ae & x) {
    bool empty = g.chance(1, 8); x.caps.clear(); if (g.chance(1, 15)) return;
    for (size_t k = 1 + g.below(3); k-- > 0;) { AeCap c; for (size_t i = 1 + g.below(3); i-- > 0;) c.langs.push_back(capLang(g));
      for (auto * l : {&c.in, &c.out}) for (size_t i = l == &c.out ? (empty ? 0 : 1 + g.below(3)) : g.below(3); i-- > 0;) { auto it = tofs.begin(); std::advance(it, g.below(tofs.size())); AeCap::TF t; t.name = it->first; t.feat = t.name.find(':') != std::string::npos; l->push_back(t); }
      x.caps.push_back(c); }
    x.capElem = true;
  }
};
PROPERTY("P24", "flow", 8000, 100000, "a delegate is skipped and another one gets only a part of what is requested, or the language decides") {
  initUima(); Cap c(g); TSOpts to; to.maxTypes = 4; to.arraysLists = false; c.ts = genTS(g, to); TreeOpts o; o.maxPrims = 6; c.a = genEngineTree(g, o);
  for (auto & t : c.ts.types) if (!t.strsub) { c.tofs[t.name] = t.name; for (auto & f : c.ts.allFeats(t.name)) c.tofs[t.name + ":" + f.second.name] = f.first + ":" + f.second.name; } c.tofs["uima.tcas.Annotation"] = "uima.tcas.Annotation"; c.tofs["uima.tcas.Annotation:begin"] = "uima.tcas.Annotation:begin"; c.tofs["uima.cas.TOP"] = "uima.cas.TOP";
  std::vector<Ae *> all; componentsOf(c.a, all); for (auto p : all) { c.capabilities(*p); if (!p->primitive && g.chance(4, 5)) p->flow = 1; if (p->primitive && g.chance(1, 6)) c.sets[p->name] = docLang(g); }
  spreadTypes(g, c.ts, c.a); std::vector<std::pair<std::string, TypeOrFeature>> table;
  for (auto p : all) if (p->primitive) c.st.roles[p->name].process = [&](Ann & x, CAS & cas, ResultSpecification const & r) -> TyErrorId {
    Names n; for (auto & t : r.getTypeOrFeatureSTLSet()) { std::string nm = "?"; for (auto & e : table) if (e.second == t) nm = e.first; n.insert(nm); CHECK(r.contains(t) && r.shouldBeCreatedByAnnotator(t), "a result specification does not contain its element ", nm); } CHECK_EQ(n.size(), r.getSize(), "size of a result specification");
    c.got.push_back({x.who, n}); if (c.failing == x.who) return 4711; if (c.sets.count(x.who)) cas.getDocumentAnnotation().setLanguage(Language(c.sets[x.who].c_str())); return UIMA_ERR_NONE; };
  c.e = makeEngine(g, c.a); ViewP cas(c.e->newCAS()); TypeSystem const & sys = cas->getTypeSystem(); for (auto & t : c.tofs) if (t.first == t.second) { if (t.first.find(':') == std::string::npos) table.push_back({t.first, TypeOrFeature(sys.getType(us(t.first)))}); else table.push_back({t.first, TypeOrFeature(sys.getFeatureByFullName(us(t.first)))}); }
  for (auto & t : c.tofs) if (t.first != t.second) { bool has = false; for (auto & e : table) has = has || e.first == t.second; if (!has) table.push_back({t.second, TypeOrFeature(sys.getFeatureByFullName(us(t.second)))}); }
  for (int d = 0, docs = 1 + (int)g.below(4); d < docs; ++d) {
    cas->reset(); setDoc(g, *cas); std::string lang = docLang(g), l = canon(lang); if (!lang.empty() || g.flip()) cas->getDocumentAnnotation().setLanguage(Language(lang.c_str())); c.exp.clear(); c.got.clear(); c.stop = false; c.failing = g.chance(1, 8) ? expandFlow(c.a)[g.below(expandFlow(c.a).size())] : ""; c.skipped = 0;
    ResultSpecification r; Names spec; bool whole = g.chance(1, 4); if (whole) { for (auto & k : c.a.caps) for (auto & t : k.out) spec.insert(c.tofs[t.name]); } else for (auto & t : table) if (g.flip()) { r.add(t.second); spec.insert(t.first); }
    c.model(c.a, spec, l); TyErrorId rc = whole ? (g.flip() ? c.e->process(*cas) : c.e->process(*cas, c.e->getCompleteResultSpecification())) : c.e->process(*cas, r);
    std::string sg, se; for (auto & x : c.got) sg += x.who + "(" + show(x.spec) + " ) "; for (auto & x : c.exp) se += x.who + "(" + show(x.spec) + " ) "; CHECK_EQ(sg, se, "calls for a document in '", lang, "' with", show(spec)); CHECK_EQ(rc, (TyErrorId)(c.stop ? 4711 : UIMA_ERR_NONE), "process");
    if (!whole) CHECK_EQ(r.getSize(), spec.size(), "size of the caller's result specification after the run");
    if (c.skipped && !c.exp.empty()) for (auto & x : c.exp) if (!x.spec.empty() && x.spec.size() < spec.size()) g.nontrivial(); if (c.skipped) g.label("delegates skipped"); if (c.stop) g.label("failure"); if (c.dumps) g.label("delegate without outputs"); if (c.exp.empty()) g.label("nobody called"); g.sample(cat("'", lang, "': ", c.exp.size(), " calls, ", c.skipped, " skipped"));
  }
}
