// P13: binary forms of a CAS.
#include "user.hpp"
#include "../core/desc.hpp"
#include "uima/casdefinition.hpp"
using namespace uima; using namespace vt;
namespace {
// the blob as a machine of the other byte order writes it
std::string swapped(const std::string & b) {
  std::string r = b; size_t pos = 0;
  auto word = [&](size_t p) { uint32_t v; memcpy(&v, b.data() + p, 4); return v; };
  auto rev = [&](size_t p, size_t n) { CHECK(p + n <= r.size(), "the blob ends inside a section"); std::reverse(r.begin() + p, r.begin() + p + n); };
  auto section = [&](size_t cell) { uint32_t n = word(pos); rev(pos, 4); pos += 4; for (size_t i = 0; i < n; ++i) { if (cell > 1) rev(pos + i * cell, cell); } size_t bytes = n * cell; pos += (bytes + 3) / 4 * 4; };
  rev(0, 4); rev(4, 4); pos = 8; section(4); section(2); section(4); section(4); section(1); section(2); section(8); CHECK(pos == b.size(), "blob of ", b.size(), " bytes has sections of ", pos); return r;
}
MIndex annIndex() { MIndex a; a.label = "AnnotationIndex"; a.type = "uima.tcas.Annotation"; a.keys = {MKey{"begin", false, false}, MKey{"end", true, false}, MKey{"", false, true}}; return a; }
struct Pair {
  User a, b; std::vector<MIndex> ix; DumpOpts o;
  void open(Gen & g, bool sets) {
    TSOpts t; t.maxTypes = 5; t.maxFeats = 5; initUima(); a.ts = genTS(g, t); MPrios pr; if (g.chance(1, 2)) pr = genPrios(g, a.ts); a.sys = buildTS(a.ts, &g, pr); ix = userIndexes(g, a.ts, 1 + g.below(3), sets);
    b.ownSys = false; b.ts = a.ts; b.sys = a.sys; a.vo.text = b.vo.text = g.one({T_XML, T_UNI, T_RAW});
    for (auto & i : ix) { a.labels.push_back(i.label); o.defs[i.label] = i; for (auto & k : i.keys) if (!k.typePrio) a.keyFeats.insert(k.feat); }
    a.labels.push_back("AnnotationIndex"); o.defs["AnnotationIndex"] = annIndex(); o.ordered = true; b.labels = a.labels; b.keyFeats = a.keyFeats; a.circularLists = b.circularLists = g.flip();
    a.cas = makeCAS(*a.sys, ix); b.cas = makeCAS(*a.sys, ix);
  }
};
void transfer(Gen & g, User & a, User & b, int how) {
  if (how == 0) { internal::SerializedCAS s; internal::CASSerializer ser(g.flip()); ser.serializeData(*a.cas, s); internal::CASDeserializer d; d.deserializeData(s, g.flip() ? *b.cas : *b.cas->getBaseCas()); return; }
  internal::CASSerializer s(false); CAS & base = *a.cas->getBaseCas(); size_t n = s.getBlobSize(base); std::vector<char> buf(n + 16, '\x5a');
  if (g.chance(1, 3)) { size_t m = g.below(n); CHECK_EQ(s.getBlob(base, buf.data(), m), 0u, "getBlob into a buffer of ", m, " bytes, ", n, " are needed"); for (char c : buf) CHECK(c == '\x5a', "getBlob writes into a buffer that is too small"); }
  CHECK_EQ(s.getBlob(base, buf.data(), n), n, "size of the blob"); for (size_t i = n; i < buf.size(); ++i) CHECK(buf[i] == '\x5a', "getBlob writes past the blob");
  std::string blob(buf.data(), n); if (how == 2) blob = swapped(blob);
  std::vector<int64_t> x((n + 7) / 8); memcpy(x.data(), blob.data(), n); internal::CASDeserializer d; d.deserializeBlob(x.data(), g.flip() ? *b.cas : *b.cas->getBaseCas());
}
}
PROPERTY("P13", "data", 15000, 150000, "the CAS holds indexed feature structures or sofa data, and other feature structures") {
  Pair p; bool further = g.flip(); p.open(g, !further); User & a = p.a, & b = p.b; a.noDup = b.noDup = further; a.removals = b.removals = further; a.langsNeedText = b.langsNeedText = further;
  a.begin(); a.run(g, 1 + g.below(35)); if (g.chance(1, 40)) { size_t k = 1 + g.below(3000); for (size_t i = 0; i < k; ++i) a.createArray(1 + i % (A_N - 1), i % 300, nullptr); g.label("large heaps"); }
  if (g.flip()) { b.begin(); b.run(g, 1 + g.below(20)); g.label("into a used CAS"); }
  int how = g.below(3); g.label(cat("form ", how)); g.note(cat("form ", how)); size_t h = 0; for (auto & x : a.held) h += x.second.size();
  g.nontrivial((h || !a.dataSet.empty()) && a.nodes.size() > 1); g.label(cat("views ", std::min<size_t>(a.views.size(), 4)));
  std::string before = dumpCAS(*a.cas, a.labels, p.o); transfer(g, a, b, how);
  std::string after = dumpCAS(*b.cas, b.labels, p.o); if (before != after) g.note(before + "---\n" + after); if (before != after) fail("original (-) and restored CAS (+) differ" + firstDiff(before, after));
  std::string still = dumpCAS(*a.cas, a.labels, p.o); if (before != still) fail("serializing changed the CAS" + firstDiff(before, still));
  if (!further) return;
  // both are used in the same way afterwards
  b.adopt(a); a.log.clear(); b.log.clear(); Gen::Tape t; size_t n = 1 + g.below(25); g.startTape(t); a.run(g, n); g.stopTape(); g.playTape(t); b.run(g, n); g.stopTape(); g.label("used further");
  if (a.log != b.log) fail("outcomes of the same calls differ on the original (-) and the restored CAS (+)" + firstDiff(a.log, b.log));
  std::string x = dumpCAS(*a.cas, a.labels, p.o), y = dumpCAS(*b.cas, b.labels, p.o); if (x != y) fail("used further, original (-) and restored CAS (+) differ" + firstDiff(x, y));
  // and can be sent back
  a.cas->getBaseCas(); int back = g.below(3); transfer(g, b, a, back); std::string z = dumpCAS(*a.cas, a.labels, p.o); if (z != y) fail("sent back, the CAS differs" + firstDiff(y, z));
}
PROPERTY("P13", "definitions", 3000, 40000, "the type system has own types with features and an own index") {
  initUima(); MTS ts = genTS(g); MPrios pr = genPrios(g, ts); auto ix = userIndexes(g, ts, 1 + g.below(3), true); MTS old = genTS(g);
  auto def = [&](const MTS & m, const MPrios & p, const std::vector<MIndex> & i) {
    AnalysisEngineMetaData * md = new AnalysisEngineMetaData(); md->setName(us("m")); TypeSystemDescription * d = new TypeSystemDescription(); fillTSDesc(m, *d); md->setTypeSystemDescription(d);
    for (auto & l : p) { TypePriority * q = new TypePriority(); for (auto & t : l) q->addType(us(t)); md->addTypePriority(q); }
    AnalysisEngineMetaData::TyVecpFSIndexDescriptions v; fillIndexDesc(i, v); for (auto x : v) md->addFSIndexDescription(x); return md; };
  std::unique_ptr<AnalysisEngineMetaData> m1(def(ts, pr, ix)), m2(def(old, {}, {}));
  std::unique_ptr<internal::CASDefinition> c1(internal::CASDefinition::createCASDefinition(*m1)), c2(internal::CASDefinition::createCASDefinition(*m2));
  internal::SerializedCAS s; internal::CASSerializer ser(g.flip()); ser.serializeDefinitions(*c1, s); internal::CASDeserializer des; des.deserializeDefinitions(s, *c2);
  size_t nf = 0; for (auto & t : ts.types) nf += t.feats.size(); g.nontrivial(nf > 0);
  checkTypeSystem(ts, c2->getTypeSystem(), &g);
  { auto & l1 = c1->getTypeSystem(); auto & l2 = c2->getTypeSystem(); for (auto & n : ts.allTypeNames()) CHECK_EQ(l2.getTypePriorityNumber(l2.getTypeByName(us(n))), l1.getTypePriorityNumber(l1.getTypeByName(us(n))), "type priority of ", n); }
  // data of a CAS with the first definitions arrives in one with the second
  User a, b; a.removals = a.ownSys = b.ownSys = false; a.ts = b.ts = ts; std::unique_ptr<internal::CASDefinition> & ca = c1; std::unique_ptr<internal::CASDefinition> & cb = c2; DumpOpts o; o.ordered = true;
  for (auto & i : ix) { a.labels.push_back(i.label); o.defs[i.label] = i; for (auto & k : i.keys) if (!k.typePrio) a.keyFeats.insert(k.feat); } a.labels.push_back("AnnotationIndex"); o.defs["AnnotationIndex"] = annIndex(); b.labels = a.labels;
  ErrorInfo ei; a.cas = Framework::createCAS(*ca, ei); b.cas = Framework::createCAS(*cb, ei); a.begin(); a.run(g, 1 + g.below(20)); int how = g.below(3); transfer(g, a, b, how);
  std::string x = dumpCAS(*a.cas, a.labels, o), y = dumpCAS(*b.cas, b.labels, o); if (x != y) fail("original (-) and restored CAS with sent definitions (+) differ" + firstDiff(x, y));
  delete a.cas; a.cas = nullptr; delete b.cas; b.cas = nullptr;
}
