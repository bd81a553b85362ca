// P23: aggregates with fixed flows.
#include "engines.hpp"
#include "uima/msg.h"
using namespace uima;
using namespace vt;

static std::string join(const std::vector<std::string> & v) { std::string s; for (auto & x : v) s += x + " "; return s; }
static MTS annTypes(Gen & g) { TSOpts o; o.maxTypes = 4; o.arraysLists = false; MTS ts = genTS(g, o); return ts; }
struct Flow {
  MTS ts; Ae a; std::vector<std::string> order; Stage st; EngineP e;
  std::vector<std::string> in, out;      // content of the CAS at each call
  int failAt = -1, how = 0, calls = 0;   // the call which fails
  std::vector<std::string> called;
  void roles() {
    std::vector<Ae *> ps; primitivesOf(a, ps);
    for (auto p : ps) st.roles[p->name].process = [this](Ann & x, CAS & c, ResultSpecification const &) -> TyErrorId {
      called.push_back(x.who); in.push_back(whole(c)); bool f = calls++ == failAt; if (f && how >= 3) effect(ts, c, x.who); // after some work
      if (f) switch (how % 3) { case 0: return 4711; case 1: throw Exception(ErrorMessage(UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION, "planted"), 4712, ErrorInfo::recoverable); default: throw std::runtime_error("planted"); }
      effect(ts, c, x.who); out.push_back(whole(c)); return UIMA_ERR_NONE; };
  }
  void clear() { in.clear(); out.clear(); called.clear(); calls = 0; }
};
// what the components declare to produce is no matter of a fixed flow
static void capabilities(Gen & g, Flow & f) {
  std::vector<Ae *> all; componentsOf(f.a, all); std::vector<std::string> names = {"uima.tcas.Annotation"}; for (auto & t : f.ts.types) if (!t.strsub) names.push_back(t.name);
  for (auto p : all) { if (g.chance(1, 6)) continue; p->caps.clear(); p->capElem = true; for (size_t k = 1 + g.chance(1, 4); k-- > 0;) { AeCap c; for (size_t i = 1 + g.below(2); i-- > 0;) c.langs.push_back(g.one<const char *>({"x-unspecified", "x-unspecified", "en", "de-at"})); for (size_t i = g.below(3); i-- > 0;) { AeCap::TF t; t.name = g.pick(names); t.all = g.flip(); c.out.push_back(t); } p->caps.push_back(c); } }
}
static void start(Gen & g, Flow & f, const TreeOpts & o) {
  f.ts = annTypes(g); f.a = genEngineTree(g, o); if (g.flip()) capabilities(g, f); f.order = expandFlow(f.a); f.roles(); spreadTypes(g, f.ts, f.a); f.e = makeEngine(g, f.a); g.note("flow " + join(f.order) + "\n"); g.sample(join(f.order));
}
// runs the annotators directly
static void reference(Flow & f, CAS & c, size_t n) { for (size_t i = 0; i < n; ++i) effect(f.ts, c, f.order[i]); }
static void prepare(Gen & g, CAS & c, Gen::Tape & t, const MTS & ts, bool first, bool empty) { if (first) g.startTape(t); else g.playTape(t); if (!empty) setDoc(g, c); if (g.flip()) effect(ts, c, cat("application", g.below(100))); g.stopTape(); }

PROPERTY("P23", "flow", 5000, 60000, "at least three calls of annotators") {
  initUima(); Flow f; TreeOpts o; o.maxPrims = 6; start(g, f, o); ViewP c(f.e->newCAS()), ref(f.e->newCAS()); if (f.order.size() >= 3) g.nontrivial();
  for (size_t d = 0, docs = 1 + g.below(3); d < docs; ++d) {
    if (d) { c->reset(); ref->reset(); f.clear(); } Gen::Tape t; bool empty = g.chance(1, 6); prepare(g, *c, t, f.ts, true, empty); prepare(g, *ref, t, f.ts, false, empty); std::string before = whole(*c); CHECK_EQ(before, whole(*ref), "the two CASes differ before the run");
    TyErrorId r; size_t ask = g.below(4);
    if (ask == 0) r = f.e->process(*c, f.e->getCompleteResultSpecification()); else if (ask == 1) r = f.e->process(*c);
    else { ResultSpecification rs; for (auto & t : f.ts.types) if (!t.strsub && g.chance(1, 3)) rs.add(TypeOrFeature(typeOf(*c, t.name))); if (g.chance(1, 3)) rs.add(TypeOrFeature(typeOf(*c, "uima.tcas.Annotation"))); if (rs.getSize()) g.label("asked for some types"); r = f.e->process(*c, rs); }
    CHECK_EQ(r, (TyErrorId)UIMA_ERR_NONE, "process"); CHECK_EQ(join(f.called), join(f.order), "calls of process");
    for (size_t i = 0; i < f.in.size(); ++i) { const std::string & exp = i ? f.out[i - 1] : before; CHECK(f.in[i] == exp, "annotator ", i, " (", f.order[i], ") does not see what its predecessors left: ", firstDiff(f.in[i], exp)); }
    reference(f, *ref, f.order.size()); std::string a = whole(*c), b = whole(*ref); CHECK(a == b, "the result differs from that of calling the annotators one after the other: ", firstDiff(a, b));
    if (g.chance(1, 4)) { // separate engines
      ref->reset(); prepare(g, *ref, t, f.ts, false, empty); f.called.clear(); std::vector<Ae *> ps; primitivesOf(f.a, ps); std::map<std::string, EngineP> es; g.label("separate engines");
      for (auto p : ps) { Ae x = *p; x.ts = f.ts; x.tsFile.assign(f.ts.types.size(), 0); x.tsElem = !f.ts.types.empty(); es[p->name] = makeEngine(g, x); }
      for (auto & n : f.order) CHECK_EQ(es[n]->process(*ref), (TyErrorId)UIMA_ERR_NONE, "process by a separate engine"); b = whole(*ref); CHECK(a == b, "the result differs from that of separate engines: ", firstDiff(a, b)); CHECK_EQ(join(f.called), join(f.order), "calls of the separate engines");
    }
  }
}
PROPERTY("P23", "failures", 6000, 80000, "an annotator that is not the last one fails") {
  initUima(); Flow f; TreeOpts o; o.maxPrims = 6; start(g, f, o); ViewP c(f.e->newCAS());
  for (size_t d = 0, docs = 2 + g.below(3); d < docs; ++d) {
    c->reset(); f.clear(); f.failAt = g.chance(1, 4) ? -1 : (int)g.below(f.order.size()); f.how = (int)g.below(6); setDoc(g, *c); size_t exp = f.failAt < 0 ? f.order.size() : f.failAt + 1;
    TyErrorId r = UIMA_ERR_NONE; bool threw = false, std_ = false; try { r = f.e->process(*c); } catch (Exception & e) { threw = true; r = e.getErrorInfo().getErrorId(); } catch (std::exception & e) { std_ = true; }
    std::string what = cat("after call ", f.failAt, f.how % 3 == 0 ? " returned an error" : f.how % 3 == 1 ? " threw an exception" : " threw a standard exception");
    CHECK_EQ(join(f.called), join(std::vector<std::string>(f.order.begin(), f.order.begin() + exp)), "calls of process ", what);
    if (f.failAt < 0) { CHECK(!threw && !std_ && r == UIMA_ERR_NONE, "process without a failure gives ", r); g.label("no failure"); continue; }
    if (exp < f.order.size()) g.nontrivial();
    if (f.how % 3 == 0) { CHECK(!std_ && r == 4711, "the error is not reported ", what, ": ", r); g.label("error code"); }
    else if (f.how % 3 == 1) { CHECK(!std_ && r == 4712, "the error is not reported ", what, ": ", r); g.label("exception"); }
    else { CHECK(std_ || r != UIMA_ERR_NONE, "the error is not reported ", what); g.label("standard exception"); }
    CHECK(f.e->isInitialized(), "the engine is unusable ", what);
  }
}
