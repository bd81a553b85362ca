// P32: engines used through the Java bridge.
#include "engines.hpp"
#include "user.hpp"
#include "mockjni.hpp"
#include "uima/internal_engine_base.hpp"
#include "uima/org_apache_uima_uimacpp_UimacppEngine.h"
#include "uima/msg.h"
using namespace uima;
using namespace vt;
#define J(F) Java_org_apache_uima_uimacpp_UimacppEngine_##F##JNI
#define WHICH(F) org_apache_uima_uimacpp_UimacppEngine_##F
namespace {
UIMA_EXC_CLASSDECLARE(Planted, uima::Exception); UIMA_EXC_CLASSIMPLEMENT(Planted, uima::Exception);
struct Out { TyErrorId id = 0; bool threw = false; std::string msg; };
struct Bridge {
  MockJvm vm; JObj * self; std::ostringstream sink;
  Bridge() { self = vm.make("org/apache/uima/uimacpp/UimacppEngine"); }
  ~Bridge() { if (self->field) { jlong id; std::string m; if (alive) { J(destroy)(vm.env(), (jobject)self); vm.took(id, m); } } }
  bool alive = false;
  template <class F> Out call(const char * what, F f) {
    Out o; auto old = std::cout.rdbuf(sink.rdbuf()); size_t n = vm.heap.size();
    try { f(vm.env(), (jobject)self); } catch (Fail &) { std::cout.rdbuf(old); throw; } catch (...) { std::cout.rdbuf(old); fail(cat(what, " lets a C++ exception pass into Java")); }
    std::cout.rdbuf(old); CHECK(vm.pinned.empty(), what, " keeps elements of a Java array or string"); CHECK_EQ(vm.frames, 0, "frames left by ", what); jlong id = 0; o.threw = vm.took(id, o.msg); o.id = o.threw ? (TyErrorId)id : 0; if (n > 40000) fail("too many objects"); return o;
  }
  void must(const char * what, const Out & o) { CHECK(!o.threw, what, " throws ", o.id, " ", o.msg); }
  Out construct() { return call("constructor", [&](JNIEnv * e, jobject s) { J(constructor)(e, s); }); }
  Out initialize(const std::string & doc) { return call("initialize", [&](JNIEnv * e, jobject s) { J(initialize)(e, s, (jstring)vm.string(us(doc))); }); }
  Out types(const internal::SerializedCAS & d) {
    return call("typeSystemInit", [&](JNIEnv * e, jobject s) {
      auto I = [&](const std::vector<internal::SerializedCAS::TyNum> & v) { return (jintArray)vm.ints(v); }; auto S = [&](const std::vector<UnicodeStringRef> & v) { return (jobjectArray)vm.strings(v); };
      J(typeSystemInit)(e, s, S(d.getTypeSymbolTable()), S(d.getFeatureSymbolTable()), I(d.getTypeInheritanceTable()), I(d.getFeatureDefinitionTable()), 1, I(d.getFeatureOffsetTable()), I(d.getTypePriorityTable()), I(d.getStringSubTypes()), S(d.getStringSubTypeValues()), I(d.getStringSubTypeValuePos()), S(d.getIndexIDTable()), I({}), I(d.getIndexKindTable()), I(d.getComparatorStartTable()), I(d.getComparatorDefinitionTable())); });
  }
  Out fill(const internal::SerializedCAS & d) {
    return call("fillCAS", [&](JNIEnv * e, jobject s) {
      auto b = vm.make("[B"); b->bytes.assign(d.getByteHeapArray().begin(), d.getByteHeapArray().end()); auto h = vm.make("[S"); h->shorts.assign(d.getShortHeapArray().begin(), d.getShortHeapArray().end()); auto l = vm.make("[J"); l->longs.assign(d.getLongHeapArray().begin(), d.getLongHeapArray().end());
      J(fillCAS)(e, s, (jintArray)vm.ints(d.getFSHeapArray()), (jintArray)vm.ints(d.getIndexedFSs()), (jobjectArray)vm.strings(d.getStringSymbolTable()), (jbyteArray)b, (jshortArray)h, (jlongArray)l); });
  }
  Out process(bool view, const US & name, const std::vector<int> & ts, const std::vector<int> & fs) { return call("process", [&](JNIEnv * e, jobject s) { J(process)(e, s, view, (jstring)vm.string(name), (jintArray)vm.ints(ts), (jintArray)vm.ints(fs)); }); }
  Out reset() { return call("reset", [&](JNIEnv * e, jobject s) { J(reset)(e, s); }); }
  Out batch() { return call("batchProcessComplete", [&](JNIEnv * e, jobject s) { J(batchProcessComplete)(e, s); }); }
  Out coll() { return call("collectionProcessComplete", [&](JNIEnv * e, jobject s) { J(collectionProcessComplete)(e, s); }); }
  Out destroy() { return call("destroy", [&](JNIEnv * e, jobject s) { J(destroy)(e, s); }); }
  Out destruct() { Out o = call("destructor", [&](JNIEnv * e, jobject s) { J(destructor)(e, s); }); self->field = 0; return o; }
  // the data Java gets
  JObj * get(bool seg, jint which) { JObj * r = nullptr; must("getSerializedData", call("getSerializedData", [&](JNIEnv * e, jobject s) { r = (JObj *)(seg ? J(getSerializedSegmentData)(e, s, which) : J(getSerializedData)(e, s, which)); })); CHECK(r && !r->dead, "no data ", which); return r; }
  void checkData(bool seg, CAS & ref, const std::string & what) {
    must("serialize", call("serialize", [&](JNIEnv * e, jobject s) { if (seg) J(serializeSegment)(e, s, JNI_TRUE); else J(serializeCAS)(e, s, JNI_TRUE); }));
    internal::SerializedCAS x; internal::CASSerializer ser(false); ser.serializeData(ref, x);
    auto same = [&](const char * n, const auto & got, const auto & exp) { CHECK_EQ(got.size(), exp.size(), "size of the ", n, what); for (size_t i = 0; i < got.size(); ++i) if (got[i] != (std::decay_t<decltype(got[i])>)exp[i]) fail(cat("cell ", i, " of the ", n, what, " is ", (long long)got[i], ", natively ", (long long)exp[i])); };
    same("heap", get(seg, WHICH(FSHEAP))->ints, x.getFSHeapArray()); same("8-bit heap", get(seg, WHICH(BYTEHEAP))->bytes, x.getByteHeapArray()); same("16-bit heap", get(seg, WHICH(SHORTHEAP))->shorts, x.getShortHeapArray()); same("64-bit heap", get(seg, WHICH(LONGHEAP))->longs, x.getLongHeapArray()); same("index", get(seg, WHICH(INDEXEDFSS))->ints, x.getIndexedFSs());
    auto & st = get(seg, WHICH(STRINGSYMBOL))->elems; auto & ex = x.getStringSymbolTable(); CHECK_EQ(st.size(), ex.size(), "number of strings", what);
    for (size_t i = 0; i < st.size(); ++i) { US e(ex[i].getBuffer(), ex[i].length()), s = st[i] ? st[i]->str : US(); if (e != s) fail(cat("string ", i, what, " is ", u8(s), ", natively ", u8(e))); }
  }
};
Out native(const std::function<void()> & f) { Out o; try { f(); } catch (Exception & x) { o.threw = true; o.id = x.getErrorInfo().getErrorId(); } catch (std::exception & x) { o.threw = true; o.id = UIMA_ERR_ENGINE_UNEXPECTED_EXCEPTION; } return o; }
std::string join(const std::vector<std::string> & v) { std::string s; for (auto & x : v) s += x + ", "; return s; }
std::vector<std::string> only(const std::vector<std::string> & v, const char * op) { std::vector<std::string> r; for (auto & x : v) if (x.compare(0, strlen(op), op) == 0) r.push_back(x); return r; }
Ae withTypes(const Ae & a, const MTS & ts, const std::vector<MIndex> & ix, const MPrios & pr) { Ae f = a; f.ts = ts; f.tsFile.assign(ts.types.size(), 0); f.tsElem = !ts.types.empty(); f.ixs = ix; f.ixFile.assign(ix.size(), 0); f.ixElem = !ix.empty(); f.prios = pr; f.prioFile.assign(pr.size(), 0); return f; }
std::string docOf(const Ae & a) { AeFormat f; f.dir = scratch(); return aeXml(a, f); }
// content that Java sends
struct Source : User { void open(const MTS & t, AnalysisEngine & e, const std::vector<MIndex> & ix) { ts = t; ownSys = false; cas = e.newCAS(); sys = const_cast<TypeSystem *>(&cas->getTypeSystem()); noDup = true; removals = true; langsNeedText = true; for (auto & i : ix) { labels.push_back(i.label); for (auto & k : i.keys) if (!k.typePrio) keyFeats.insert(k.feat); } labels.push_back("AnnotationIndex"); } };
void refused(const Out & o, const Out & n, const char * what, const std::string & planted) { CHECK_EQ(o.threw, n.threw, what, " through the bridge ends with an exception: ", o.id, " ", o.msg, "; natively ", n.id); if (n.threw) { CHECK_EQ(o.id, n.id, "error of ", what, " through the bridge: ", o.msg); if (!planted.empty()) CHECK(o.msg.find(planted) != std::string::npos, "message of the Java exception: ", o.msg); } }
// what an annotator declares of the types Java has, in an order of its own
MTS partOf(Gen & g, const MTS & ts) {
  MTS r; std::vector<MType> left = ts.types;
  for (bool more = true; more && g.chance(3, 4);) { more = false; for (size_t i = 0; i < left.size() && !more; ++i) { bool used = false; for (auto & t : left) { used = used || t.super == left[i].name; for (auto & f : t.feats) used = used || f.range == left[i].name || f.elem == left[i].name; } if (!used && g.chance(1, 2)) { left.erase(left.begin() + i); more = true; } } }
  while (!left.empty()) { std::vector<size_t> ok; for (size_t i = 0; i < left.size(); ++i) { bool later = false; for (auto & t : left) later = later || t.name == left[i].super; if (!later) ok.push_back(i); } size_t i = ok[g.below(ok.size())]; r.types.push_back(left[i]); left.erase(left.begin() + i); }
  return r;
}
// flows which choose among the annotators by what they produce
void capabilities(Gen & g, Ae & a, const MTS & ts, bool known) {
  std::vector<std::string> names = {"uima.tcas.Annotation", "uima.cas.TOP", "uima.tcas.Annotation:begin", "uima.cas.Sofa"}; if (known) for (auto & t : ts.types) if (!t.strsub) { names.push_back(t.name); for (auto & f : t.feats) names.push_back(t.name + ":" + f.name); }
  std::vector<Ae *> all; componentsOf(a, all); for (auto p : all) { if (!p->primitive && g.chance(4, 5)) p->flow = 1; p->capElem = true; p->caps.clear();
    for (size_t k = 1 + g.below(2); k-- > 0;) { AeCap c; c.langs = {g.one<std::string>({"x-unspecified", "x-unspecified", "en", "de-at"})}; for (size_t i = g.below(p == all[0] ? 6 : 3); i-- > 0;) { AeCap::TF t; t.name = names[g.below(names.size())]; t.feat = t.name.find(':') != std::string::npos; c.out.push_back(t); } p->caps.push_back(c); } }
  g.label("capability flow");
}
std::string request(const ResultSpecification & r) { std::set<std::string> n; for (auto & t : r.getTypeOrFeatureSTLSet()) n.insert(u8(t.isType() ? t.getType().getName() : t.getFeature().getName())); std::string s; for (auto & x : n) s += " " + x; return s; }
}
PROPERTY("P32", "documents", 1200, 20000, "a document of at least five feature structures passes through at least two annotators, or one fails") {
  initUima(); Stage st; MTS ts = genTS(g, [] { TSOpts o; o.maxTypes = 4; return o; }()); MPrios pr; if (g.flip()) pr = genPrios(g, ts); std::vector<MIndex> ix = userIndexes(g, ts, g.below(3), false);
  TreeOpts to; to.maxPrims = 4; to.depth = 2; Ae a = g.chance(1, 4) ? primitiveAe("p0") : genEngineTree(g, to); bool known = g.chance(1, 2), some = known && g.flip(); MTS mine = some ? partOf(g, ts) : ts; if (some) g.label("Java has more types"); if (g.chance(1, 3)) capabilities(g, a, mine, known); Ae full = withTypes(a, ts, ix, pr), own = some ? withTypes(a, mine, {}, {}) : a; const Ae & sent = some ? own : known ? full : a; std::vector<std::string> order = expandFlow(a), called; int failAt = -1, how = 0; std::string initFail, bFail; size_t tsSeen = 0;
  for (auto & n : order) { Role & r = st.roles[n];
    r.tsInit = [&, n](Ann &, TypeSystem const & t) -> TyErrorId { bool all = true; for (auto & m : ts.types) all = all && t.getType(us(m.name)).isValid(); tsSeen += all; return !initFail.empty() && initFail == n ? (TyErrorId)4720 : (TyErrorId)UIMA_ERR_NONE; };
    r.process = [&](Ann & x, CAS & c, ResultSpecification const & r) -> TyErrorId { called.push_back(x.who + " " + c.getViewName().asUTF8() + request(r)); bool f = (int)called.size() - 1 == failAt; if (!f || how > 2) effect(ts, c, x.who); if (f) switch (how % 3) { case 0: return 4711; case 1: throw Planted(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "planted text"), 4712, ErrorInfo::recoverable); default: throw std::runtime_error("planted"); } return UIMA_ERR_NONE; };
    r.batch = r.coll = [&, n](Ann &) -> TyErrorId { return bFail == n ? (TyErrorId)4721 : (TyErrorId)UIMA_ERR_NONE; }; }
  EngineP e = makeEngine(g, full); auto created = st.ops(); Bridge b; b.must("constructor", b.construct()); size_t at = st.log.size(); std::string doc = docOf(sent);
  b.must("initialize", b.initialize(doc)); b.alive = true; CHECK_EQ(join(st.ops(at)), join(created), "calls of the annotators by initialize"); int made = st.created / 2;
  internal::SerializedCAS defs; { internal::CASSerializer ser(false); ser.serializeDefinitions(internal::EngineBase::promoteEngine(*e).getCASDefinition(), defs); }
  auto sendTypes = [&] { at = st.log.size(); tsSeen = 0; b.must("typeSystemInit", b.types(defs)); auto l = only(st.ops(at), "typeSystemInit"); CHECK_EQ(join(l), join(only(created, "typeSystemInit")), "calls of typeSystemInit"); CHECK_EQ(tsSeen, l.size(), "annotators that are given the new types"); CHECK_EQ(st.created, 2 * made, "annotators created"); };
  sendTypes(); ViewP ref(e->newCAS()); Source src; src.open(ts, *e, ix); bool nt = false;
  for (size_t d = 0, docs = 1 + g.below(4); d < docs; ++d) {
    if (g.chance(1, 10)) { sendTypes(); g.label("types sent again"); } else if (d) b.must("reset", b.reset());
    if (d) src.cas->reset(); src.begin(); src.run(g, 1 + g.below(25)); internal::SerializedCAS in; internal::CASSerializer(false).serializeData(*src.cas, in); internal::CASDeserializer().deserializeData(in, *ref); b.must("fillCAS", b.fill(in));
    if (g.chance(1, 8)) { b.checkData(false, *ref, " without processing"); b.must("reset", b.reset()); b.must("fillCAS", b.fill(in)); }
    failAt = g.chance(1, 4) ? (int)g.below(order.size()) : -1; how = g.below(6); bool view = g.chance(1, 3); US name; CAS * target = &*ref; bool missing = false;
    if (view) { std::vector<US> sofas; FSIterator it = ref->getSofaIterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) { UnicodeStringRef r = SofaFS(it.get()).getSofaID(); sofas.push_back(US(r.getBuffer(), r.length())); } if (g.chance(1, 8)) { name = US("noSuchSofa"); missing = true; } else if (sofas.empty()) view = false; else name = sofas[g.below(sofas.size())]; }
    if (view && !missing) { SofaID id; id.setSofaId(name); id.setComponentSofaName(name); target = ref->getView(ref->getSofa(id)); g.label("a view"); }
    std::vector<int> rt, rf; for (size_t k = g.below(4); k-- > 0;) { rt.push_back(1 + g.below(defs.getTypeSymbolTable().size() - 1)); rf.push_back(1 + g.below(defs.getFeatureSymbolTable().size() - 1)); }
    called.clear(); Out n; if (!missing) n = native([&] { CASIterator it = e->processAndOutputNewCASes(*target); }); auto exp = called; called.clear(); Out o = b.process(view, name, rt, rf); auto got = called;
    if (missing) { CHECK(o.threw, "processing a view that does not exist succeeds"); CHECK(got.empty(), "annotators called for a view that does not exist"); g.label("missing view"); continue; }
    CHECK_EQ(join(got), join(exp), "calls of process through the bridge"); refused(o, n, "process", failAt >= 0 && how % 3 == 1 ? "planted text" : ""); if (failAt >= 0 && failAt < (int)exp.size()) { CHECK(n.threw, "the failure is not reported"); g.label("failure"); nt = true; }
    b.checkData(false, *ref, cat(" after document ", d)); if (src.nodes.size() >= 5 && order.size() > 1) nt = true;
    if (g.chance(1, 5)) { bFail = g.flip() ? order[g.below(order.size())] : ""; bool batch = g.flip(); at = st.log.size(); TyErrorId rc = batch ? e->batchProcessComplete() : e->collectionProcessComplete(); auto x = st.ops(at); at = st.log.size(); Out y = batch ? b.batch() : b.coll(); CHECK_EQ(join(st.ops(at)), join(x), "calls at the end of a batch or collection"); CHECK_EQ(y.threw, rc != UIMA_ERR_NONE, "an exception at the end of a batch or collection: ", y.msg, ", natively ", rc); if (rc) CHECK_EQ(y.id, rc, "error at the end of a batch or collection"); bFail = ""; }
  }
  g.nontrivial(nt); g.sample(cat(order.size(), " calls, ", src.nodes.size(), " feature structures"));
  if (g.chance(1, 6)) { g.label("typeSystemInit fails"); initFail = order[g.below(order.size())]; Out o = b.types(defs); CHECK(o.threw, "an annotator refuses the types but typeSystemInit succeeds"); CHECK_EQ(o.id, (TyErrorId)4720, "error of typeSystemInit"); initFail = ""; b.must("destroy", b.destroy()); CHECK_EQ(b.self->field, (jlong)0, "engine pointer of the Java object after destroy"); CHECK_EQ(st.created - st.deleted, made, "annotators left"); return; }
  int del = st.deleted; at = st.log.size(); b.must("destroy", b.destroy()); CHECK_EQ(b.self->field, (jlong)0, "engine pointer of the Java object after destroy"); CHECK_EQ(st.deleted - del, made, "annotators deleted by destroy");
}
PROPERTY("P32", "refused", 800, 8000, "an annotator or the descriptor is at fault") {
  initUima(); Stage st; TreeOpts to; to.maxPrims = 4; to.depth = 2; Ae a = g.chance(1, 3) ? primitiveAe("p0") : genEngineTree(g, to); std::vector<std::string> order = expandFlow(a); MTS ts = genTS(g, [] { TSOpts o; o.maxTypes = 3; return o; }()); a = withTypes(a, ts, {}, {});
  int kind = g.below(5); std::string bad = order[g.below(order.size())], doc = docOf(a); g.label(cat("kind ", kind));
  switch (kind) { case 0: st.roles[bad].init = [](Ann &, AnnotatorContext &) -> TyErrorId { return 4730; }; break; case 1: st.roles[bad].tsInit = [](Ann &, TypeSystem const &) -> TyErrorId { return 4731; }; break; case 2: st.roles[bad].init = [](Ann &, AnnotatorContext &) -> TyErrorId { throw Planted(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "planted text"), 4732, ErrorInfo::recoverable); }; break; case 3: doc = doc.substr(0, 40 + g.below(doc.size() - 40)); break; default: break; }
  if (kind < 4) g.nontrivial(); Bridge b; size_t at = st.log.size(); US u = us(doc); ErrorInfo ei; ResourceManager::getInstance().enableSchemaValidation(false); int before = st.created - st.deleted; std::unique_ptr<AnalysisEngine> n(Framework::createAnalysisEngine(u.getBuffer(), u.length(), ei)); auto exp = st.ops(at); bool ok = (bool)n; if (ok) CHECK_EQ(ei.getErrorId(), (TyErrorId)UIMA_ERR_NONE, "error with an engine"); n.reset();
  for (int round = 0; round < 2; ++round) {
    at = st.log.size(); before = st.created - st.deleted; b.must("constructor", b.construct()); Out o = b.initialize(doc); CHECK_EQ(o.threw, !ok, "initialize throws: ", o.id, " ", o.msg);
    if (ok) { b.alive = true; b.must("destroy", b.destroy()); CHECK_EQ(b.self->field, (jlong)0, "engine pointer after destroy"); } else { CHECK_EQ(o.id, ei.getErrorId(), "error of initialize"); if (kind == 2) CHECK(o.msg.find("planted text") != std::string::npos, "message: ", o.msg); CHECK_EQ(join(st.ops(at)), join(exp), "calls of the annotators"); b.must("destructor", b.destruct()); }
    CHECK_EQ(st.created - st.deleted, before, "annotators that stay"); if (kind < 3 && round == 0 && g.flip()) { st.roles.clear(); ok = true; }
  }
  g.sample(cat("kind ", kind));
}
PROPERTY("P32", "segments", 1200, 15000, "at least two CASes delivered for one document, or a failure") {
  initUima(); Stage st; MTS ts = genTS(g, [] { TSOpts o; o.maxTypes = 4; return o; }()); Ae bare = primitiveAe("m"); bare.ops = true; bare.modifies = 1; bare.multiple = 1; bare.outputs = 1; Ae a = withTypes(bare, ts, {}, {}); bool known = g.flip(); int pool = (int)g.range(1, 3); std::vector<int> segs; size_t pos = 0; int d = 0; Role & r = st.roles["m"]; r.instances = pool;
  auto make = [&](CAS & c, int k) { if (k & 1) { US t; t.append(US("seg")); t.append((UChar)(0x4e00 + k)); c.setDocumentText(UnicodeStringRef(t)); } effect(ts, c, cat("d", d, "s", k)); if (k & 2) { CAS * v = c.createView(us("va")); effect(ts, *v, "v"); } };
  r.process = [&](Ann &, CAS & c, ResultSpecification const &) -> TyErrorId { pos = 0; effect(ts, c, "p"); return UIMA_ERR_NONE; };
  r.hasNext = [&](Ann &) { if (pos < segs.size() && segs[pos] == -2) { segs[pos] = 0; throw Planted(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "planted text"), 4713, ErrorInfo::recoverable); } return pos < segs.size(); };
  r.next = [&](Ann & x) -> CAS & { int k = segs[pos++]; if (k == -1) throw Planted(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "planted text"), 4714, ErrorInfo::recoverable); CAS & c = x.ctx->getEmptyCAS(); make(c, k); return c; };
  EngineP e = makeEngine(g, a); Bridge b; b.must("constructor", b.construct()); b.must("initialize", b.initialize(docOf(known ? a : bare))); b.alive = true; ViewP ref(e->newCAS()), seg(e->newCAS()); Source src; src.open(ts, *e, {}); bool nt = false;
  internal::SerializedCAS defs; { internal::CASSerializer ser(false); ser.serializeDefinitions(internal::EngineBase::promoteEngine(*e).getCASDefinition(), defs); }
  if (!known || g.flip()) { b.must("typeSystemInit", b.types(defs)); g.label(known ? "types sent" : "types sent for the first time"); }
  for (int docs = 1 + (int)g.below(3); d < docs; ++d) {
    if (d) { if (g.chance(1, 8)) { b.must("typeSystemInit", b.types(defs)); g.label("types sent again"); } else b.must("reset", b.reset()); src.cas->reset(); } src.begin(); src.run(g, 1 + g.below(12)); internal::SerializedCAS in; internal::CASSerializer(false).serializeData(*src.cas, in); internal::CASDeserializer().deserializeData(in, *ref); b.must("fillCAS", b.fill(in)); { CASIterator it = e->processAndOutputNewCASes(*ref); }
    segs.assign(g.below(6), 0); for (auto & k : segs) k = g.chance(1, 12) ? -1 : g.chance(1, 14) ? -2 : (int)g.below(100); b.must("process", b.process(false, US("_InitialView"), {}, {})); if (g.flip()) b.checkData(false, *ref, " after process"); size_t delivered = 0;
    for (int steps = 0; steps < 30; ++steps) {
      bool throws = pos < segs.size() && segs[pos] == -2; jboolean more = false; Out o = b.call("hasNextSegment", [&](JNIEnv * e, jobject s) { more = J(hasNextSegment)(e, s); }); CHECK_EQ(o.threw, throws, "hasNextSegment throws ", o.id, " ", o.msg); if (throws) { CHECK_EQ(o.id, (TyErrorId)4713, "error of hasNextSegment"); nt = true; continue; }
      CHECK_EQ((bool)more, pos < segs.size(), "hasNextSegment"); if (!more) break; int k = segs[pos]; o = b.call("nextSegment", [&](JNIEnv * e, jobject s) { J(nextSegment)(e, s); }); CHECK_EQ(o.threw, k == -1, "nextSegment throws ", o.id, " ", o.msg); if (k == -1) { CHECK_EQ(o.id, (TyErrorId)4714, "error of nextSegment"); nt = true; continue; }
      seg->reset(); make(*seg, k); b.checkData(true, *seg, cat(" of CAS ", pos - 1, " of document ", d)); if (++delivered > 1) nt = true; if (g.flip()) b.must("releaseSegment", b.call("releaseSegment", [&](JNIEnv * e, jobject s) { J(releaseSegment)(e, s); })); if (g.chance(1, 30)) { g.label("abandoned"); break; }
    }
    if (g.chance(1, 3)) b.must("releaseSegment", b.call("releaseSegment", [&](JNIEnv * e, jobject s) { J(releaseSegment)(e, s); }));
  }
  g.nontrivial(nt); g.sample(cat("pool ", pool)); b.must("destroy", b.destroy()); CHECK_EQ(b.self->field, (jlong)0, "engine pointer after destroy");
}
