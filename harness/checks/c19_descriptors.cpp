// P19: parsing and printing analysis engine descriptors.
#include "../core/aedesc.hpp"
#include "uima/taespecifierbuilder.hpp"
using namespace uima;
using namespace vt;

// what the getters of a parsed description say; parameters are not public
static Ae fromDesc(const AnalysisEngineDescription & d) {
  Ae a; std::string root = u8(d.getXmlRootTag()); a.root = root == "analysisEngineDescription" ? 0 : root == "taeDescription" ? 1 : root == "casConsumerDescription" ? 2 : 9;
  a.java = d.getFrameworkImplName() == AnalysisEngineDescription::JAVA; a.primitive = d.isPrimitive(); a.impl = u8(d.getAnnotatorImpName());
  const AnalysisEngineMetaData * m = d.getAnalysisEngineMetaData(); CHECK(m, "no meta data");
  a.name = u8(m->getName()); a.desc = u8(m->getDescription()); a.version = u8(m->getVersion()); a.vendor = u8(m->getVendor());
  if (auto f = const_cast<AnalysisEngineMetaData *>(m)->getFlowConstraints()) { a.flow = f->getFlowConstraintsType() == FlowConstraints::FIXED ? 0 : 1; for (auto & n : f->getNodes()) a.nodes.push_back(u8(n)); }
  if (auto t = m->getTypeSystemDescription()) for (auto x : t->getTypeDescriptions()) {
    MType y; y.name = u8(x->getName()); y.super = u8(x->getSuperTypeName()); y.desc = u8(x->getDescription());
    for (auto f : x->getFeatureDescriptions()) { MFeat z; z.name = u8(f->getName()); z.range = u8(f->getRangeTypeName()); z.desc = u8(f->getDescription()); z.elem = u8(f->getElementType()); z.multi = f->isMultipleReferencesAllowed(); y.feats.push_back(z); }
    for (auto v : x->getAllowedValues()) y.allowed.push_back(u8(v->getName()));
    a.ts.types.push_back(y);
  }
  for (auto p : m->getTypePriorities()) { std::vector<std::string> l; for (auto & t : p->getTypeOrder()) l.push_back(u8(t)); a.prios.push_back(l); }
  for (auto x : m->getFSIndexDescriptions()) {
    MIndex i; i.label = u8(x->getLabel()); i.type = u8(x->getTypeName()); i.kind = x->getIndexKind() == FSIndexDescription::SORTED ? MIndex::SORTED : x->getIndexKind() == FSIndexDescription::SET ? MIndex::SET : MIndex::BAG;
    for (auto k : x->getFSIndexKeys()) { MKey y; y.typePrio = k->isTypePriority(); if (!y.typePrio) { y.feat = u8(k->getFeatureName()); y.desc = k->getComparator() == FSIndexKeyDescription::REVERSE; } i.keys.push_back(y); }
    a.ixs.push_back(i);
  }
  for (auto c : m->getCapabilites()) {
    AeCap x; auto add = [](std::vector<AeCap::TF> & l, const std::vector<US> & v, bool f) { for (auto & s : v) { AeCap::TF t; t.name = u8(s); t.feat = f; l.push_back(t); } };
    add(x.in, c->getCapabilityTypes(Capability::INPUT), false); add(x.in, c->getCapabilityFeatures(Capability::INPUT), true); add(x.out, c->getCapabilityTypes(Capability::OUTPUT), false); add(x.out, c->getCapabilityFeatures(Capability::OUTPUT), true);
    for (auto & s : c->getCapabilitySofas(Capability::INPUTSOFA)) x.inSofas.push_back(u8(s)); for (auto & s : c->getCapabilitySofas(Capability::OUTPUTSOFA)) x.outSofas.push_back(u8(s)); for (auto & l : c->getSupportedLanguages()) x.langs.push_back(u8(l));
    a.caps.push_back(x);
  }
  if (auto o = m->getOperationalProperties()) { a.ops = true; a.modifies = o->getModifiesCas(); a.multiple = o->isMultipleDeploymentAllowed(); a.outputs = o->getOutputsNewCASes(); }
  for (auto s : d.getSofaMappings()) { AeMap x; x.key = u8(s->getComponentKey()); x.comp = u8(s->getComponentSofaName()); x.agg = u8(s->getAggregateSofaName()); a.maps.push_back(x); }
  for (auto & e : d.getDelegates()) { AeDel x; x.key = u8(e.first); x.ae = std::make_shared<Ae>(fromDesc(*e.second)); a.dels.push_back(x); CHECK(d.getDelegate(e.first) == e.second, "getDelegate ", u8(e.first)); }
  return a;
}
static void dropParams(Ae & a) { a.plain.clear(); a.common.clear(); a.groups.clear(); a.sets.clear(); a.gsets.clear(); for (auto & d : a.dels) { d.ae = std::make_shared<Ae>(*d.ae); dropParams(*d.ae); } }
static std::string diffLines(const std::string & got, const std::string & exp) {
  std::istringstream a(got), b(exp); std::string x, y, r; bool p, q;
  for (;;) { p = !!std::getline(a, x); q = !!std::getline(b, y); if (!p && !q) return ""; if (!p) x = "<end>"; if (!q) y = "<end>"; if (x != y) return cat("has\n  ", x, "\nshould have\n  ", y); }
}
static void same(const Ae & got, const Ae & exp, const std::string & what) { std::string d = diffLines(showAe(got), showAe(exp)); CHECK(d.empty(), what, " ", d); }

// where the lookups of parameters say what the document says
static void checkParams(const AnalysisEngineDescription & d, const Ae & a) {
  auto m = const_cast<AnalysisEngineMetaData *>(d.getAnalysisEngineMetaData());
  bool grouped = !a.common.empty() || !a.groups.empty();
  CHECK_EQ(m->hasGroups(), grouped, "hasGroups"); if (grouped) CHECK_EQ(m->hasDefaultGroup(), !a.defGroup.empty(), "hasDefaultGroup"); if (grouped) CHECK_EQ((int)m->getSearchStrategy(), a.strategy < 0 ? 0 : a.strategy, "search strategy");
  auto look = [&](const US * group, const AeParam & p, const AeVal * v) {
    auto nv = group ? m->getNameValuePair(*group, us(p.name), AnalysisEngineMetaData::NONE) : m->getNameValuePair(us(p.name));
    CHECK(group ? m->isParameterDefined(*group, us(p.name), "") : m->isParameterDefined(us(p.name), ""), "parameter ", p.name, " is not defined");
    if (!v) { CHECK(!nv, "parameter ", p.name, " has a value"); return; }
    CHECK(nv, "parameter ", p.name, " has no value"); CHECK(nv->isMultiValued() == v->multi, "multiplicity of ", p.name); if (!v->multi || !v->v.empty()) CHECK_EQ((int)nv->getType(), (int)v->type, "type of the value of ", p.name);
    if (v->v.empty()) return;
    size_t n = v->v.size();
    switch (v->type) {
      case PT_STRING: { auto g = v->multi ? nv->extractStringValues() : std::vector<US>{nv->extractStringValue()}; CHECK_EQ(g.size(), n, "number of values of ", p.name); for (size_t i = 0; i < n; ++i) CHECK_EQ(u8(g[i]), v->v[i], "value of ", p.name); break; }
      case PT_INT: { auto g = v->multi ? nv->extractIntValues() : std::vector<int>{nv->extractIntValue()}; CHECK_EQ(g.size(), n, "number of values of ", p.name); for (size_t i = 0; i < n; ++i) CHECK_EQ(std::to_string(g[i]), v->v[i], "value of ", p.name); break; }
      case PT_FLOAT: { auto g = v->multi ? nv->extractFloatValues() : std::vector<float>{nv->extractFloatValue()}; CHECK_EQ(g.size(), n, "number of values of ", p.name); for (size_t i = 0; i < n; ++i) CHECK(sameFloat(g[i], strtof(v->v[i].c_str(), nullptr)), "value of ", p.name, ": ", g[i], " for ", v->v[i]); break; }
      case PT_BOOL: { auto g = v->multi ? nv->extractBoolValues() : std::vector<bool>{nv->extractBoolValue()}; CHECK_EQ(g.size(), n, "number of values of ", p.name); for (size_t i = 0; i < n; ++i) CHECK_EQ((bool)g[i], v->v[i] == "true", "value of ", p.name); break; }
    }
  };
  if (!grouped) for (auto & p : a.plain) { const AeVal * v = nullptr; for (auto & s : a.sets) if (s.name == p.name) v = &s.val; look(nullptr, p, v); }
  else for (auto & gr : a.groups) for (auto & gn : gr.names) { US g = us(gn); for (auto * l : {&gr.params, &a.common}) for (auto & p : *l) { const AeVal * v = nullptr; for (auto & sg : a.gsets) if (std::count(sg.names.begin(), sg.names.end(), gn)) for (auto & s : sg.sets) if (s.name == p.name) v = &s.val; look(&g, p, v); } }
  for (auto & x : a.dels) { auto e = d.getDelegate(us(x.key)); CHECK(e, "no delegate ", x.key); checkParams(*e, *x.ae); }
}
static bool consumerInside(const Ae & a) { for (auto & d : a.dels) if (d.ae->root == 2 || consumerInside(*d.ae)) return true; return false; }
static std::string printed(const AnalysisEngineDescription & d) { US s; d.toXMLBuffer(s); return u8(s); }

PROPERTY("P19", "parse", 3000, 80000, "the descriptor has delegates or parameter settings and at least four other sections") {
  initUima(); AeOpts o; o.java = true; o.schema = g.flip(); ResourceManager::getInstance().enableSchemaValidation(o.schema); g.label(o.schema ? "schema validation" : "no schema"); Ae a = genAe(g, o); AeFormat f; f.g = &g; f.schema = o.schema; f.dir = scratch(); std::string doc = aeXml(a, f);
  bool files = f.files > 0, viaFile = files || g.flip();
  g.note(doc + "\n"); g.nontrivial((!a.dels.empty() || !a.sets.empty() || !a.gsets.empty()) && (!a.ts.types.empty()) + !a.prios.empty() + !a.ixs.empty() + a.capElem + a.ops + (a.flow >= 0) + a.paramElem + !a.maps.empty() >= 4); if (files) g.label("imports"); if (!f.env.empty()) g.label("envVarRef"); g.label(cat("root ", a.root)); g.sample(doc.substr(0, 300));
  TextAnalysisEngineSpecifierBuilder b; AnalysisEngineDescription d;
  try {
    if (viaFile) { std::string fn = scratch() + "/main.xml"; writeFile(fn, doc); if (g.flip()) b.parseAnalysisEngineDescription(d, fn.c_str()); else b.buildTaeFromFile(d, us(fn)); }
    else if (g.flip()) b.buildTaeFromMemory(d, doc.c_str()); else b.buildTaeFromMemory(d, us(doc));
  } catch (Exception & e) { fail(cat("a valid descriptor is refused: ", excText(e))); }
  Ae bare = a; dropParams(bare); same(fromDesc(d), bare, "the parsed description"); checkParams(d, a);
  std::string p1 = printed(d); g.note("printed: " + p1 + "\n"); Ae r = readAe(readXml(p1)); same(r, a, "the printed description");
  if (consumerInside(a)) ResourceManager::getInstance().enableSchemaValidation(false);      // the schema allows CAS consumers only as imported delegates
  AnalysisEngineDescription d2; try { if (g.flip()) { b.buildTaeFromMemory(d2, p1.c_str()); } else { std::string fn = scratch() + "/again.xml"; writeFile(fn, p1); b.buildTaeFromFile(d2, us(fn)); } } catch (Exception & e) { fail(cat("the printed description is refused: ", excText(e))); }
  same(fromDesc(d2), bare, "the description parsed from the printed one"); checkParams(d2, a);
  CHECK(printed(d2) == p1, "printing the description parsed from the printed one gives another text");
}
