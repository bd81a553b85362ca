// P25: the life cycle of engines and annotators.
#include "engines.hpp"
#include "uima/msg.h"
#include "uima/taespecifierbuilder.hpp"
#include "uima/resmgr.hpp"
#include "uima/internal_primitive_engine.hpp"
#include "uima/internal_aggregate_engine.hpp"
using namespace uima;
using namespace vt;

namespace {
struct Plan { std::set<size_t> at; bool exc = false, other = false; size_t n = 0; };   // which calls of an operation fail
struct Life {
  Ae a; std::vector<std::string> order; Stage st; std::map<std::string, Plan> plans; size_t mark = 0;
  TyErrorId call(const char * op, Ann & x) {
    Plan & p = plans[op]; size_t i = p.n++; if (!p.at.count(i)) return UIMA_ERR_NONE; TyErrorId id = 5000 + (int)i; if (p.other) throw std::runtime_error("planted");
    if (p.exc) throw Exception(ErrorMessage(UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION, "planted"), id, ErrorInfo::recoverable);
    return id;
  }
  void roles() {
    std::vector<Ae *> ps; primitivesOf(a, ps);
    for (auto p : ps) { Role & r = st.roles[p->name];
      r.init = [this](Ann & x, AnnotatorContext &) { return call("initialize", x); }; r.tsInit = [this](Ann & x, TypeSystem const &) { return call("typeSystemInit", x); };
      r.process = [this](Ann & x, CAS &, ResultSpecification const &) { return call("process", x); }; r.reconf = [this](Ann & x) { return call("reconfigure", x); };
      r.batch = [this](Ann & x) { return call("batch", x); }; r.coll = [this](Ann & x) { return call("collection", x); }; r.destroy = [this](Ann & x) { return call("destroy", x); };
    }
  }
  void plan(Gen & g, const char * op, bool fails) { Plan & p = plans[op]; p = Plan(); p.exc = g.flip(); if (fails) do p.at.insert(g.below(order.size())); while (g.chance(1, 3)); }
  // events since the last mark: how often each instance was called; every event must be of the given operation
  std::vector<std::string> since() { auto v = st.ops(mark); mark = st.log.size(); return v; }
};
std::string join(std::vector<std::string> v) { std::string s; for (auto & x : v) s += x + "; "; return s; }
// each annotator created was destroyed once and then deleted once, and nothing reached it afterwards or before its initialization
void balanced(Life & f, const std::string & when) {
  CHECK(f.st.live.empty(), f.st.live.size(), " annotators are not deleted ", when);
  std::map<int, std::vector<std::string>> per; for (auto & e : f.st.log) per[e.id].push_back(e.op);
  for (auto & p : per) { size_t destroys = 0; for (size_t i = 0; i < p.second.size(); ++i) { const std::string & op = p.second[i]; bool first = i == 0, last = i + 1 == p.second.size(); CHECK((op == "create") == first && (op == "delete") == last, "annotator ", p.first, " gets ", op, " ", when, ": ", join(p.second)); if (op == "destroy") { ++destroys; CHECK(i + 2 == p.second.size(), "an annotator is used after destroy ", when, ": ", join(p.second)); } }
    CHECK_EQ(destroys, (size_t)1, "calls of destroy of an annotator ", when, ": ", join(p.second)); }
}
std::vector<std::string> each(const std::vector<std::string> & order, const std::string & op) { std::vector<std::string> r; for (auto & o : order) r.push_back(op + " " + o); return r; }
void sameCalls(std::vector<std::string> got, std::vector<std::string> exp, const std::string & what) { std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); CHECK_EQ(join(got), join(exp), "calls of annotators by ", what); }
// the error of a call whose nth calls failed
void checkError(Gen & g, TyErrorId r, const Plan & p, size_t calls, const std::string & what) {
  bool any = false; for (auto i : p.at) any = any || i < calls; if (!any) { CHECK_EQ(r, (TyErrorId)UIMA_ERR_NONE, what); return; }
  bool ok = false; for (auto i : p.at) ok = ok || (i < calls && r == (TyErrorId)(5000 + (int)i)); CHECK(ok, what, " gives ", r, " though an annotator failed"); g.label("failure reported");
}
}

PROPERTY("P25", "creation", 8000, 100000, "the creation fails behind the first annotator") {
  initUima(); Life f; TreeOpts o; f.a = genEngineTree(g, o); if (g.chance(1, 4)) f.a = primitiveAe("p0"); f.order = expandFlow(f.a); f.roles(); bool ts = g.flip(); const char * op = ts ? "typeSystemInit" : "initialize"; bool fails = g.chance(3, 4); f.plan(g, op, fails); f.plan(g, "destroy", g.chance(1, 4)); g.sample(join(f.order));
  size_t first = f.plans[op].at.empty() ? f.order.size() : *f.plans[op].at.begin(); bool other = f.plans[op].other = g.chance(1, 5); ErrorInfo e; EngineP p; bool thrown = false; try { p.reset(tryEngine(g, f.a, e)); } catch (std::exception &) { thrown = true; CHECK(other, "the creation throws an exception"); }
  if (first == f.order.size()) {
    CHECK(p, "no engine: ", e.asString()); std::vector<std::string> exp; for (auto & n : f.order) { exp.push_back("create "); exp.push_back("initialize " + n); exp.push_back("typeSystemInit " + n); } CHECK_EQ(join(f.since()), join(exp), "creation"); CHECK(p->isInitialized(), "a created engine is not initialized"); g.label("created"); p.reset(); balanced(f, "after deleting the engine"); return;
  }
  CHECK(!p, "an engine is created though an annotator failed in ", op); if (other) { CHECK(thrown || e.getErrorId() != UIMA_ERR_NONE, "no error"); g.label("standard exception"); } else CHECK_EQ(e.getErrorId(), (TyErrorId)(5000 + (int)first), "error of the creation"); balanced(f, cat("after a failure in ", op)); CHECK_EQ((size_t)f.st.created, first + 1, "annotators created up to the failure in ", op); if (first) g.nontrivial(); g.label(op); if (f.plans[op].exc) g.label("exception");
  // and then it works
  f.plans.clear(); EngineP q = makeEngine(g, f.a); ViewP c(q->newCAS()); setDoc(g, *c); f.since(); CHECK_EQ(q->process(*c), (TyErrorId)UIMA_ERR_NONE, "process after a failed creation"); CHECK_EQ(join(f.since()), join(each(f.order, "process")), "calls after a failed creation");
}
PROPERTY("P25", "sequences", 12000, 150000, "an illegal call is made") {
  initUima(); Life f; TreeOpts o; o.maxPrims = 5; f.a = genEngineTree(g, o); if (g.chance(1, 3)) f.a = primitiveAe("p0"); f.order = expandFlow(f.a); f.roles(); size_t n = f.order.size(); g.sample(join(f.order));
  ViewP doc; EngineP e; std::unique_ptr<AnalysisEngineDescription> desc; MTS none; TSHolder sys; sys.ts = buildTS(none); doc = ViewP(makeCAS(*sys.ts)); setDoc(g, *doc); bool ready = true, gone = false; std::string log;
  if (g.chance(1, 2)) { // not initialized yet
    AeFormat fm; fm.dir = scratch(); std::string xml = aeXml(f.a, fm); g.note(xml + "\n"); desc.reset(new AnalysisEngineDescription()); ResourceManager::getInstance().enableSchemaValidation(false); TextAnalysisEngineSpecifierBuilder b; b.buildTaeFromMemory(*desc, xml.c_str()); desc->validate(); desc->commit();
    AnnotatorContext * ctx = new AnnotatorContext(desc.get()); internal::CASDefinition * def = internal::CASDefinition::createCASDefinition(*ctx);
    if (f.a.primitive) e.reset(new internal::PrimitiveEngine(*ctx, true, false, *def, true)); else e.reset(new internal::AggregateEngine(*ctx, true, false, *def, true)); ready = false; g.label("fresh");
  } else e = makeEngine(g, f.a);
  f.since(); bool illegal = false;
  for (size_t i = 0, k = 1 + g.below(10); i < k; ++i) {
    size_t op = g.weighted({4, 3, 3, 3, 2, 3, 1, 1, 1}); bool fails = g.chance(1, 4); const char * name = ""; TyErrorId r = UIMA_ERR_NONE; std::vector<std::string> got;
    CHECK_EQ(e->isInitialized(), ready && !gone, "isInitialized after ", log);
    switch (op) {
      case 0: case 1: case 2: case 3: {
        const char * names[] = {"process", "reconfigure", "batch", "collection"}; name = names[op]; f.plan(g, name, fails); log += cat(" ", name);
        if (op == 0) { try { r = g.flip() ? e->process(*doc) : e->process(*doc, e->getCompleteResultSpecification()); } catch (Exception & x) { r = x.getErrorInfo().getErrorId(); } } else r = op == 1 ? e->reconfigure() : op == 2 ? e->batchProcessComplete() : e->collectionProcessComplete();
        got = f.since(); if (!ready) { CHECK_EQ(r, (TyErrorId)UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE, "illegal", log); CHECK(got.empty(), "an illegal call reaches an annotator,", log, ": ", join(got)); illegal = true; break; }
        size_t calls = n; if (op == 0 && !f.plans[name].at.empty()) calls = *f.plans[name].at.begin() + 1; std::vector<std::string> exp = each(std::vector<std::string>(f.order.begin(), f.order.begin() + calls), name); sameCalls(got, exp, log); checkError(g, r, f.plans[name], calls, cat("the last of", log)); break; }
      case 4: { log += " initialize"; f.plan(g, "initialize", fails); f.plan(g, "typeSystemInit", false); AnalysisEngineDescription const & d = e->getAnnotatorContext().getTaeSpecifier(); r = e->initialize(d); got = f.since();
        if (ready || gone) { CHECK_EQ(r, (TyErrorId)UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE, "illegal", log); CHECK(got.empty(), "an illegal call reaches an annotator,", log, ": ", join(got)); illegal = true; break; }
        if (f.plans["initialize"].at.empty()) { CHECK_EQ(r, (TyErrorId)UIMA_ERR_NONE, "initialize"); ready = true; sameCalls(got, [&] { auto v = each(f.order, "initialize"); for (auto & x : each(f.order, "typeSystemInit")) v.push_back(x); for (size_t j = 0; j < n; ++j) v.push_back("create "); return v; }(), log); }
        else { CHECK_EQ(r, (TyErrorId)(5000 + (int)*f.plans["initialize"].at.begin()), "failing initialize"); gone = true; balanced(f, "after a failed initialize"); g.label("initialize failed"); } break; }
      case 5: { if (!g.chance(1, 2)) break; log += " destroy"; f.plan(g, "destroy", fails); r = e->destroy(); got = f.since();
        if (!ready) { CHECK_EQ(r, (TyErrorId)UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE, "illegal", log); CHECK(got.empty(), "an illegal call reaches an annotator,", log, ": ", join(got)); illegal = true; break; }
        checkError(g, r, f.plans["destroy"], n, cat("the last of", log)); ready = false; gone = true; balanced(f, "after destroy"); g.label("destroyed"); break; }
      case 6: log += " getCasInstancesRequired"; CHECK_EQ(internal::EngineBase::promoteEngine(*e).getCasInstancesRequired(), 0, "getCasInstancesRequired"); CHECK(f.since().empty(), "getCasInstancesRequired reaches an annotator"); if (!ready) illegal = true; break;
      case 7: log += " processAndOutputNewCASes"; f.plan(g, "process", fails);
        try { CASIterator it = e->processAndOutputNewCASes(*doc); r = UIMA_ERR_NONE; if (ready) CHECK(!it.hasNext(), "an engine without multipliers has a CAS"); } catch (Exception & x) { r = x.getErrorInfo().getErrorId(); CHECK(r != UIMA_ERR_NONE, "an exception without an error"); }
        got = f.since(); if (!ready) { CHECK_EQ(r, (TyErrorId)UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE, "illegal", log); CHECK(got.empty(), "an illegal call reaches an annotator,", log, ": ", join(got)); illegal = true; break; }
        { size_t calls = n; bool f1 = !f.plans["process"].at.empty(); if (f1) calls = *f.plans["process"].at.begin() + 1; sameCalls(got, each(std::vector<std::string>(f.order.begin(), f.order.begin() + calls), "process"), log); CHECK((r != UIMA_ERR_NONE) == f1, "the result of processAndOutputNewCASes is ", r); } break;
      case 8: log += " hasNext/next"; { struct It : CASIterator { It(AnalysisEngine * x) : CASIterator(x) {} } it(e.get()); if (g.flip()) CHECK(!it.hasNext(), "hasNext without a CAS"); else CHECK(throwsUima([&] { it.next(); }), "next without a CAS"); } if (!ready) illegal = true; f.since(); break;
    }
    if (illegal) g.nontrivial();
  }
  g.note("calls" + log + "\n"); f.plan(g, "destroy", g.chance(1, 3)); e.reset(); balanced(f, "after deleting the engine," + log);
}
