#include "engines.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/resmgr.hpp"
using namespace uima;
namespace vt {
Stage * stage = nullptr;
Stage::Stage() { stage = this; }
Stage::~Stage() { stage = nullptr; }
std::vector<std::string> Stage::ops(size_t from) const { std::vector<std::string> r; for (size_t i = from; i < log.size(); ++i) r.push_back(log[i].op + " " + log[i].who); return r; }
Ann::Ann() { id = stage ? stage->created++ : -1; if (stage) stage->live.insert(this); ev("create"); }
Ann::~Ann() { ev("delete"); if (stage) { ++stage->deleted; stage->live.erase(this); } }
void Ann::ev(const char * op) { if (stage) stage->log.push_back({op, who, id}); }
Role & Ann::role() { static Role none; return stage ? stage->roles[who] : none; }
TyErrorId Ann::initialize(AnnotatorContext & c) { ctx = &c; who = u8(c.getTaeSpecifier().getAnalysisEngineMetaData()->getName()); ev("initialize"); auto & r = role(); return r.init ? r.init(*this, c) : (TyErrorId)UIMA_ERR_NONE; }
TyErrorId Ann::typeSystemInit(TypeSystem const & t) { ev("typeSystemInit"); auto & r = role(); return r.tsInit ? r.tsInit(*this, t) : (TyErrorId)UIMA_ERR_NONE; }
TyErrorId Ann::destroy() { ev("destroy"); auto & r = role(); return r.destroy ? r.destroy(*this) : (TyErrorId)UIMA_ERR_NONE; }
TyErrorId Ann::reconfigure() { ev("reconfigure"); auto & r = role(); return r.reconf ? r.reconf(*this) : (TyErrorId)UIMA_ERR_NONE; }
TyErrorId Ann::process(CAS & c, ResultSpecification const & s) { ev("process"); auto & r = role(); return r.process ? r.process(*this, c, s) : (TyErrorId)UIMA_ERR_NONE; }
TyErrorId Ann::batchProcessComplete() { ev("batch"); auto & r = role(); return r.batch ? r.batch(*this) : (TyErrorId)UIMA_ERR_NONE; }
TyErrorId Ann::collectionProcessComplete() { ev("collection"); auto & r = role(); return r.coll ? r.coll(*this) : (TyErrorId)UIMA_ERR_NONE; }
bool Ann::hasNext() { auto & r = role(); return r.hasNext ? r.hasNext(*this) : Annotator::hasNext(); }
CAS & Ann::next() { auto & r = role(); return r.next ? r.next(*this) : Annotator::next(); }
int Ann::getCasInstancesRequired() { return role().instances; }
}
extern "C" uima::Annotator * vtNewAnnotator() { return new vt::Ann(); }
namespace vt {
Ae primitiveAe(const std::string & name) { Ae a; a.name = name; a.impl = binDir() + "/vt_annot.so"; return a; }
static Ae tree(Gen & g, const TreeOpts & o, int depth, size_t & prims) {
  if (depth == 0) return primitiveAe(cat("p", prims++));
  Ae a; a.primitive = false; a.name = cat("agg", prims, "_", depth); a.flow = 0;
  for (size_t n = 1 + g.below(3); n-- > 0;) {
    if (prims >= o.maxPrims && !a.dels.empty()) break;
    AeDel d; d.key = g.chance(1, 6) ? cat("key ", a.dels.size()) : cat(g.one<const char *>({"a", "b", "z"}), a.dels.size());
    d.ae = std::make_shared<Ae>(tree(g, o, g.flip() ? 0 : depth - 1, prims)); d.import = false; a.dels.push_back(d);
  }
  for (auto & d : a.dels) if (!o.unused || !g.chance(1, 8)) a.nodes.push_back(d.key);
  if (a.nodes.empty()) a.nodes.push_back(a.dels[0].key);
  for (size_t i = a.nodes.size(); i-- > 1;) if (g.flip()) std::swap(a.nodes[i], a.nodes[g.below(i + 1)]);
  if (o.repeats) while (g.chance(1, 5)) { std::string k = g.pick(a.nodes); a.nodes.insert(a.nodes.begin() + g.below(a.nodes.size() + 1), k); }
  return a;
}
Ae genEngineTree(Gen & g, const TreeOpts & o) { size_t prims = 0; return tree(g, o, (int)g.range(1, o.depth), prims); }
const Ae * delegateOf(const Ae & a, const std::string & key) { for (auto & d : a.dels) if (d.key == key) return d.ae.get(); return nullptr; }
std::vector<std::string> expandFlow(const Ae & a) {
  if (a.primitive) return {a.name};
  std::vector<std::string> r; for (auto & n : a.nodes) for (auto & x : expandFlow(*delegateOf(a, n))) r.push_back(x); return r;
}
void primitivesOf(Ae & a, std::vector<Ae *> & out) { if (a.primitive) out.push_back(&a); for (auto & d : a.dels) primitivesOf(*d.ae, out); }
void componentsOf(Ae & a, std::vector<Ae *> & out) { out.push_back(&a); for (auto & d : a.dels) componentsOf(*d.ae, out); }
void spreadTypes(Gen & g, const MTS & ts, Ae & root) {
  std::vector<Ae *> all; componentsOf(root, all);
  for (auto & t : ts.types) {
    std::vector<MType> parts(1 + (t.strsub ? 0 : g.below(2)), t); if (!t.strsub) { for (auto & p : parts) p.feats.clear(); for (auto & f : t.feats) { parts[g.below(parts.size())].feats.push_back(f); if (g.chance(1, 6)) for (auto & p : parts) if (p.feats.empty() || p.feats.back().name != f.name) p.feats.push_back(f); } }
    for (auto & p : parts) { Ae * a = g.pick(all); bool has = false; for (auto & x : a->ts.types) if (x.name == p.name) { has = true; for (auto & f : p.feats) { bool hf = false; for (auto & y : x.feats) hf = hf || y.name == f.name; if (!hf) x.feats.push_back(f); } } if (!has) { a->ts.types.push_back(p); a->tsFile.push_back(0); } }
  }
  for (auto a : all) a->tsElem = !a->ts.types.empty();
}
static std::map<AnalysisEngine *, std::unique_ptr<AnalysisEngineDescription>> & descriptions() { static auto * m = new std::map<AnalysisEngine *, std::unique_ptr<AnalysisEngineDescription>>; return *m; }
void EngineDelete::operator()(AnalysisEngine * e) const { delete e; descriptions().erase(e); }
AnalysisEngine * tryEngine(Gen & g, const Ae & a, ErrorInfo & e, std::string * out) {
  ResourceManager::getInstance().enableSchemaValidation(false); AeFormat f; f.dir = scratch(); std::string doc = aeXml(a, f); if (out) *out = doc; g.note(doc + "\n");
  if (g.chance(1, 4)) {   // from a description that stays with the caller
    std::unique_ptr<AnalysisEngineDescription> d(new AnalysisEngineDescription());
    try { XMLParser b; if (g.flip()) { std::string p = scratch() + "/engine.xml"; writeFile(p, doc); b.parseAnalysisEngineDescription(*d, p.c_str()); } else { std::string id = scratch() + "/engine.xml"; xercesc::MemBufInputSource in((const XMLByte *)doc.data(), doc.size(), id.c_str()); b.parseAnalysisEngineDescription(*d, in); } d->validate(); d->commit(); }
    catch (Exception & x) { e = x.getErrorInfo(); return nullptr; }
    AnalysisEngine * r = g.flip() ? Framework::createAnalysisEngine(*d, e) : TextAnalysisEngine::createTextAnalysisEngine(*d, e); if (r) descriptions()[r] = std::move(d); return r;
  }
  if (g.flip()) { std::string p = scratch() + "/engine.xml"; writeFile(p, doc); return g.chance(1, 4) ? TextAnalysisEngine::createTextAnalysisEngine(p.c_str(), e) : Framework::createAnalysisEngine(p.c_str(), e); }
  US b = us(doc); return Framework::createAnalysisEngine(b.getBuffer(), b.length(), e);
}
EngineP makeEngine(Gen & g, const Ae & a) {
  ErrorInfo e; EngineP p(tryEngine(g, a, e)); CHECK(p, "no engine is created: ", e.asString()); CHECK(e.getErrorId() == UIMA_ERR_NONE, "an engine is created but the error is ", e.getErrorId()); return p;
}
std::string whole(CAS & c) { return dumpCAS(c, {"AnnotationIndex"}); }
void setDoc(Gen & g, CAS & c) { US t = genText(g, 30, T_UNI); if (t.isEmpty()) t = US("x"); c.setDocumentText(UnicodeStringRef(t)); }
void effect(const MTS & ts, CAS & c, const std::string & who) {
  uint64_t h = 1469598103934665603ull; for (char ch : whole(c) + "|" + who) { h ^= (unsigned char)ch; h *= 1099511628211ull; }
  auto rnd = [&](uint64_t n) { h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h % n; };
  std::vector<std::string> types = {"uima.tcas.Annotation"}; for (auto & t : ts.types) if (ts.subsumes("uima.tcas.Annotation", t.name)) types.push_back(t.name);
  TypeSystem const & sys = c.getTypeSystem(); size_t len = 1 + (c.getDocumentText().length());
  for (size_t n = 1 + rnd(4); n-- > 0;) {
    std::vector<AnnotationFS> all; ANIterator it = c.getAnnotationIndex().iterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) all.push_back(it.get());
    size_t op = rnd(5); if (all.empty()) op = 0;
    if (op <= 2) {
      std::string tn = types[rnd(types.size())]; size_t b = rnd(len), e = b + rnd(len - b + 1); AnnotationFS a = c.createAnnotation(sys.getType(us(tn)), b, e);
      for (auto & f : ts.allFeats(tn)) { Feature ft = sys.getFeatureByFullName(us(f.first + ":" + f.second.name)); if (!ft.isValid()) fail("no feature " + f.first + ":" + f.second.name);
        if (f.second.range == "uima.cas.Integer" && f.second.name != "begin" && f.second.name != "end") a.setIntValue(ft, (int)rnd(1000)); else if (f.second.range == "uima.cas.String") a.setStringValue(ft, us(who + std::to_string(rnd(100)))); else if (ts.subsumes(f.second.range, "uima.tcas.Annotation") && f.second.name != "sofa" && !all.empty()) { if (f.second.range == "uima.tcas.Annotation" || f.second.range == "uima.cas.TOP" || f.second.range == "uima.cas.AnnotationBase") a.setFSValue(ft, all[rnd(all.size())]); } }
      c.getIndexRepository().addFS(a);
    } else { AnnotationFS a = all[rnd(all.size())]; Type t = a.getType(); if (op == 3 && t != sys.getType("uima.tcas.DocumentAnnotation")) c.getIndexRepository().removeFS(a);
      else { std::vector<Feature> fs; t.getAppropriateFeatures(fs); for (auto & ft : fs) { Type r; ft.getRangeType(r); std::string nm = u8(ft.getName()); if (r == sys.getType("uima.cas.Integer") && nm.find("begin") == std::string::npos && nm.find("end") == std::string::npos) a.setIntValue(ft, (int)rnd(1000)); } } }
  }
}
}
