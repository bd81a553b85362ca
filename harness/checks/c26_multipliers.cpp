// P26: CAS pools and CAS multipliers.
#include "engines.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/internal_engine_base.hpp"
#include "uima/msg.h"
using namespace uima;
using namespace vt;
namespace { UIMA_EXC_CLASSDECLARE(Planted, uima::Exception); UIMA_EXC_CLASSIMPLEMENT(Planted, uima::Exception); }

static MTS annTypes(Gen & g) { TSOpts o; o.maxTypes = 4; o.arraysLists = false; return genTS(g, o); }
static std::string text(CAS & c) { return c.getDocumentText().asUTF8(); }
// everything in a CAS: its views
static std::string all(CAS & c, const std::vector<std::string> & views) { std::string s = whole(c) + "text " + text(c) + "\n"; for (auto & v : views) { bool has = false; CAS * w = nullptr; try { w = c.getView(us(v)); has = true; } catch (Exception &) {} s += "view " + v + (has ? "\n" + whole(*w) + text(*w) : " missing") + "\n"; } return s; }
static const std::vector<std::string> VIEWS = {"va", "vb"};
static void useCas(Gen & g, const MTS & ts, CAS & c, const std::string & who) { if (g.chance(2, 3)) setDoc(g, c); effect(ts, c, who); if (g.chance(1, 3)) { CAS * v = c.createView(us(VIEWS[g.below(2)])); if (g.flip()) setDoc(g, *v); effect(ts, *v, who + "v"); } }

PROPERTY("P26", "pool", 4000, 60000, "the pool was exhausted, or something it had not handed out was released") {
  initUima(); MTS ts = annTypes(g); Ae a = primitiveAe("p"); a.ts = ts; a.tsFile.assign(ts.types.size(), 0); a.tsElem = !ts.types.empty(); AeFormat f; f.dir = scratch(); ResourceManager::getInstance().enableSchemaValidation(false);
  AnalysisEngineDescription d; TextAnalysisEngineSpecifierBuilder b; b.buildTaeFromMemory(d, aeXml(a, f).c_str()); d.validate(); d.commit();
  size_t n = g.below(5); CASPool pool(d, n), other(d, 1); CAS & strange = other.getCAS(); useCas(g, ts, strange, "s"); std::string strangeBefore = all(strange, VIEWS); std::unique_ptr<CASPool> fresh(new CASPool(d, 1)); std::string empty = all(fresh->getCAS(), VIEWS);
  struct Held { CAS * c; std::string content; }; std::vector<Held> held; std::vector<CAS *> seen; int id = 0; bool special = false; g.sample(cat(n, " CASes"));
  for (size_t k = g.range(3, 25); k-- > 0;) {
    switch (g.weighted({5, 3, 1, 1, 1})) {
      case 0: {
        CAS * c = nullptr; std::string e; try { c = &pool.getCAS(); } catch (Exception & ex) { e = excText(ex); CHECK_EQ(ex.getErrorInfo().getErrorId(), (TyErrorId)UIMA_ERR_CASPOOL_GET_CAS, "error of getCAS"); }
        CHECK_EQ(c != nullptr, held.size() < n, "getCAS with ", held.size(), " of ", n, " handed out: ", e); if (!c) { special = true; g.label("exhausted"); break; }
        for (auto & h : held) CHECK(h.c->getBaseCas() != c->getBaseCas(), "a CAS in use is handed out"); CHECK(c->getView(us("_InitialView")) == c, "what the pool hands out is not the initial view"); CHECK_EQ(all(*c, VIEWS), empty, "content of a CAS handed out");
        bool known = false; for (auto s : seen) known = known || s == c; if (!known) seen.push_back(c); CHECK(seen.size() <= n, "the pool hands out more than ", n, " CASes"); useCas(g, ts, *c, cat("u", id++)); held.push_back({c, all(*c, VIEWS)}); break; }
      case 1: { if (held.empty()) break; size_t i = g.below(held.size()); CAS * c = held[i].c; if (g.chance(1, 3)) { for (auto & v : VIEWS) try { c = held[i].c->getView(us(v)); g.label("released by another view"); break; } catch (Exception &) {} } held.erase(held.begin() + i); pool.releaseCAS(*c); break; }
      case 2: { if (seen.empty()) break; CAS * c = seen[g.below(seen.size())]; bool used = false; for (auto & h : held) used = used || h.c == c; if (used) break; special = true; g.label("released twice"); try { pool.releaseCAS(*c); } catch (Exception &) {} break; }
      case 3: special = true; g.label("foreign CAS"); try { pool.releaseCAS(strange); } catch (Exception &) {} CHECK_EQ(all(strange, VIEWS), strangeBefore, "content of a CAS of another pool after its release was refused"); break;
      case 4: { if (held.empty()) break; Held & h = held[g.below(held.size())]; effect(ts, *h.c, cat("e", id++)); h.content = all(*h.c, VIEWS); }
    }
    for (auto & h : held) CHECK_EQ(all(*h.c, VIEWS), h.content, "content of a CAS in use");
  }
  for (auto & h : held) pool.releaseCAS(*h.c); held.clear(); std::set<CAS *> got; for (size_t i = 0; i < n; ++i) got.insert(&pool.getCAS()); CHECK_EQ(got.size(), n, "distinct CASes after all were released"); bool more = true; try { pool.getCAS(); } catch (Exception &) { more = false; } CHECK(!more, "the pool hands out more than ", n, " CASes");
  if (special) g.nontrivial();
}
// a scripted multiplier: the segments of one document
struct Seg { int kind = 0; std::string who; Gen::Tape tape; };   // 0 deliver, 1 next throws, 2 hasNext throws
PROPERTY("P26", "segments", 4000, 50000, "at least two CASes delivered for one document, or a failure") {
  initUima(); Stage st; MTS ts = annTypes(g); Ae a = primitiveAe("m"); a.ts = ts; a.tsFile.assign(ts.types.size(), 0); a.tsElem = !ts.types.empty(); a.ops = true; a.modifies = 1; a.multiple = 1; a.outputs = 1;
  int pool = (int)g.range(1, 3); std::vector<Seg> segs; size_t pos = 0; int failProcess = 0; std::string docText; std::vector<CAS *> mine; size_t asked = 0, took = 0; bool early = g.chance(1, 3);
  Role & r = st.roles["m"]; r.instances = pool;
  r.process = [&](Ann &, CAS & c, ResultSpecification const &) -> TyErrorId { pos = 0; mine.clear(); docText = text(c); if (failProcess == 1) return 4711; if (failProcess == 2) throw CASIteratorException(ErrorMessage(UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION, "planted"), 4712, ErrorInfo::recoverable); return UIMA_ERR_NONE; };
  auto make = [&](CAS & c, const Seg & s) { Gen::Tape t = s.tape; g.playTape(t); useCas(g, ts, c, s.who); g.stopTape(); };
  r.hasNext = [&](Ann &) { ++asked; if (pos < segs.size() && segs[pos].kind == 2) throw Planted(ErrorMessage(UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION, "planted"), 4713, ErrorInfo::recoverable); return pos < segs.size(); };
  r.next = [&](Ann & x) -> CAS & { ++took; Seg & s = segs[pos++]; if (s.kind == 1) throw Planted(ErrorMessage(UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION, "planted"), 4714, ErrorInfo::recoverable); CAS & c = x.ctx->getEmptyCAS(); make(c, s); return c; };
  EngineP e = makeEngine(g, a); CHECK_EQ(internal::EngineBase::promoteEngine(*e).getCasInstancesRequired(), pool, "CASes required"); ViewP in(e->newCAS()), ref(e->newCAS()); std::vector<CAS *> held; std::string inBefore;
  auto release = [&](size_t i) { e->getAnnotatorContext().releaseCAS(*held[i]); held.erase(held.begin() + i); };
  for (int d = 0, docs = 1 + (int)g.below(4); d < docs; ++d) {
    in->reset(); setDoc(g, *in); effect(ts, *in, cat("in", d)); inBefore = whole(*in); segs.assign(g.below(6), Seg()); failProcess = g.chance(1, 8) ? 1 + (int)g.below(2) : 0; std::vector<std::string> exp;
    for (size_t i = 0; i < segs.size(); ++i) { Seg & s = segs[i]; s.who = cat("d", d, "s", i); if (g.chance(1, 12)) s.kind = 1; else if (g.chance(1, 14)) s.kind = 2; ref->reset(); g.startTape(s.tape); useCas(g, ts, *ref, s.who); g.stopTape(); exp.push_back(all(*ref, VIEWS)); }
    std::unique_ptr<CASIterator> it; TyErrorId rc = UIMA_ERR_NONE; std::string cls; try { it.reset(new CASIterator(e->processAndOutputNewCASes(*in))); } catch (CASIteratorException & ex) { rc = ex.getErrorInfo().getErrorId(); cls = "CASIteratorException"; } catch (Exception & ex) { rc = ex.getErrorInfo().getErrorId(); cls = "another"; }
    if (failProcess) { g.nontrivial(); g.label("process fails"); CHECK_EQ(rc, failProcess == 1 ? (TyErrorId)UIMA_ERR_PROCESS_OUTPUT_CAS : (TyErrorId)4712, "error of processAndOutputNewCASes"); if (failProcess == 1) CHECK_EQ(cls, std::string("CASIteratorException"), "class of the exception"); continue; }
    CHECK(it, "processAndOutputNewCASes fails: ", rc); CHECK_EQ(u8(us(docText)), text(*in), "document the multiplier gets"); size_t delivered = 0; CASIterator cur = *it;
    for (int steps = 0; steps < 40; ++steps) {
      if (!held.empty() && g.chance(1, 2)) release(g.below(held.size())); if (g.chance(1, 25)) { g.label("abandoned"); break; }
      CASIterator & use = g.flip() ? cur : *it; size_t before = asked; bool more = false; TyErrorId err = 0; std::string c2; try { more = use.hasNext(); } catch (Planted & ex) { err = ex.getErrorInfo().getErrorId(); c2 = "Planted"; } catch (Exception & ex) { err = ex.getErrorInfo().getErrorId(); c2 = "another"; }
      CHECK_EQ(asked, before + 1, "calls of the annotator by hasNext"); bool throws = pos < segs.size() && segs[pos].kind == 2; CHECK_EQ(err, (TyErrorId)(throws ? 4713 : 0), "error of hasNext"); if (throws) { g.nontrivial(); CHECK_EQ(c2, std::string("Planted"), "class of the exception of hasNext"); segs[pos].kind = 0; continue; }
      CHECK_EQ(more, pos < segs.size(), "hasNext after ", pos, " of ", segs.size()); if (!more) break; if (g.chance(1, 5)) continue;
      size_t at = pos, t = took; CAS * c = nullptr; err = 0; c2 = ""; try { c = &use.next(); } catch (Planted & ex) { err = ex.getErrorInfo().getErrorId(); c2 = "Planted"; } catch (CASPoolException & ex) { err = ex.getErrorInfo().getErrorId(); c2 = "CASPoolException"; } catch (Exception & ex) { err = ex.getErrorInfo().getErrorId(); c2 = "another"; }
      CHECK_EQ(took, t + 1, "calls of the annotator by next");
      if (segs[at].kind == 1) { g.nontrivial(); g.label("next fails"); CHECK(!c, "next gives a CAS when the annotator fails"); CHECK_EQ(cat(err, c2), cat(4714, "Planted"), "failure of next"); continue; }
      if ((int)held.size() >= pool) { g.nontrivial(); g.label("too many"); CHECK(!c, "the annotator holds more than ", pool, " CASes"); CHECK_EQ(cat(err, c2), cat((TyErrorId)UIMA_ERR_CASPOOL_GET_CAS, "CASPoolException"), "failure of next"); continue; }
      CHECK(c, "next fails: ", err, " ", c2); for (auto h : held) CHECK(h->getBaseCas() != c->getBaseCas(), "a CAS in use is delivered again"); CHECK_EQ(all(*c, VIEWS), exp[at], "content of CAS ", at, " of document ", d); held.push_back(c); if (++delivered >= 2) g.nontrivial(); CHECK_EQ(whole(*in), inBefore, "content of the document after a CAS was delivered");
    }
    if (early) while (!held.empty()) release(g.below(held.size()));
  }
  g.sample(cat("pool ", pool)); if (g.flip()) { CHECK_EQ(e->collectionProcessComplete(), (TyErrorId)UIMA_ERR_NONE, "collectionProcessComplete"); }
}
// aggregates of other annotators give no CASes but process the document
PROPERTY("P26", "none", 400, 4000, "an aggregate of at least two annotators") {
  initUima(); Stage st; TreeOpts o; o.maxPrims = 5; Ae a = genEngineTree(g, o); std::vector<std::string> order = expandFlow(a), called; for (auto & n : order) st.roles[n].process = [&](Ann & x, CAS &, ResultSpecification const &) { called.push_back(x.who); return (TyErrorId)UIMA_ERR_NONE; };
  EngineP e = makeEngine(g, a); ViewP c(e->newCAS()); if (order.size() > 1 && !a.primitive) g.nontrivial(); setDoc(g, *c); std::string before = whole(*c); CASIterator it = e->processAndOutputNewCASes(*c); CHECK(!it.hasNext(), "an engine without CAS multipliers gives CASes"); CHECK(called == order, "calls of process"); bool threw = throwsUima([&] { it.next(); }); CHECK(threw, "next gives a CAS where there is none"); g.sample(cat(order.size(), " calls"));
}
