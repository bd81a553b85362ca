// P03: ill-typed accesses are rejected and change nothing.
#include "world.hpp"
using namespace uima; using namespace vt;

enum { ACC_FS = K_NPRIM, ACC_GENERIC, ACC_UNTOUCHED, ACC_ARR, ACC_LIST = ACC_ARR + A_N, ACC_N = ACC_LIST + L_N };
static void readAcc(FeatureStructure fs, Feature f, int acc) {
  switch (acc) {
    case K_INT: fs.getIntValue(f); break; case K_FLOAT: fs.getFloatValue(f); break; case K_STRING: fs.getStringValue(f); break; case K_BOOL: fs.getBooleanValue(f); break;
    case K_BYTE: fs.getByteValue(f); break; case K_SHORT: fs.getShortValue(f); break; case K_LONG: fs.getLongValue(f); break; case K_DOUBLE: fs.getDoubleValue(f); break;
    case ACC_FS: fs.getFSValue(f); break; case ACC_GENERIC: fs.getFeatureValue(f); break; case ACC_UNTOUCHED: fs.isUntouchedFSValue(f); break;
    case ACC_ARR + A_FS: fs.getArrayFSValue(f); break; case ACC_ARR + A_INT: fs.getIntArrayFSValue(f); break; case ACC_ARR + A_FLOAT: fs.getFloatArrayFSValue(f); break;
    case ACC_ARR + A_STRING: fs.getStringArrayFSValue(f); break; case ACC_ARR + A_BOOL: fs.getBooleanArrayFSValue(f); break; case ACC_ARR + A_BYTE: fs.getByteArrayFSValue(f); break;
    case ACC_ARR + A_SHORT: fs.getShortArrayFSValue(f); break; case ACC_ARR + A_LONG: fs.getLongArrayFSValue(f); break; case ACC_ARR + A_DOUBLE: fs.getDoubleArrayFSValue(f); break;
    case ACC_LIST + L_FS: fs.getListFSValue(f); break; case ACC_LIST + L_INT: fs.getIntListFSValue(f); break; case ACC_LIST + L_FLOAT: fs.getFloatListFSValue(f); break; case ACC_LIST + L_STRING: fs.getStringListFSValue(f); break;
  }
}
static MVal primVal(Gen & g, World & w, int kind) { MVal v; v.kind = kind; w.vo.maxText = 8; std::string r = PRIM_NAME[kind]; return w.genVal(g, r); }

// one access: chooses a structure, a feature of any type and an accessor; the model says whether it is legal
static bool access(Gen & g, World & w, bool & illegal) {
  std::vector<std::pair<std::string, MFeat>> feats;   // introducing type, feature
  for (auto & t : w.ts.types) for (auto & f : t.feats) feats.push_back({t.name, f});
  for (auto n : {"begin", "end", "language"}) for (auto & p : w.ts.allFeats("uima.tcas.DocumentAnnotation")) if (p.second.name == n) feats.push_back({p.first, p.second});
  for (auto t : {"uima.cas.NonEmptyFSList", "uima.cas.NonEmptyIntegerList", "uima.cas.NonEmptyStringList"}) for (auto & p : w.ts.allFeats(t)) feats.push_back(p);
  int n = g.below(w.nodes.size()); MNode & m = w.nodes[n]; std::pair<std::string, MFeat> pf = g.pick(feats);
  if (g.chance(2, 3)) { auto own = w.ts.allFeats(m.type); if (!own.empty()) pf = g.pick(own); }
  if (pf.second.name == "sofa") return false;
  Feature f = featOf(*w.cas, pf.first, pf.second.name); bool approp = w.ts.subsumes(pf.first, m.type) && !m.array;
  int kind; RangeClass rc = rangeClass(w.ts, pf.second.range, kind); bool isPrim = rc == R_PRIM || rc == R_STRSUB;
  std::string what = cat("feature ", pf.first, ":", pf.second.name, ":", pf.second.range, " of ", w.show(n)); FeatureStructure fs = w.fs(n);
  if (g.chance(1, 12)) { f = Feature(); approp = false; what += " (invalid feature)"; }
  if (g.chance(1, 12)) { fs = FeatureStructure(); approp = false; what += " (invalid structure)"; }
  if (g.flip()) {    // read
    int acc = g.below(ACC_N); bool legal = approp;
    if (acc < K_NPRIM) legal = legal && isPrim && kind == acc;
    else if (acc == ACC_FS || acc == ACC_GENERIC) legal = legal && !isPrim;
    else if (acc >= ACC_ARR && acc < ACC_LIST) {
      legal = legal && !isPrim;
      if (legal) { const MVal & v = m.feats[pf.second.name]; if (v.ref >= 0) legal = w.nodes[v.ref].type == ARR_NAME[acc - ACC_ARR]; }
    } else if (acc >= ACC_LIST) {
      legal = legal && !isPrim && w.ts.subsumes(LIST_NAME[acc - ACC_LIST], pf.second.range);
      MVal * v = legal ? &m.feats[pf.second.name] : nullptr;
      if (legal && v->ref < 0) {   // documented: an unset list feature is given an empty list
        int nn = w.createEmptyList(acc - ACC_LIST); FeatureStructure l; MNode & m2 = w.nodes[n];
        CHECK(!throwsUima([&] { readAcc(fs, f, acc); }), "reading the unset ", what, " as a list was refused");
        auto a = addr(fs.getFSValue(f)); CHECK(a != 0, "reading the unset ", what, " as a list left it unset"); for (auto & q : w.nodes) CHECK(q.a != a, "an unset list feature got an existing structure");
        w.nodes[nn].a = a; MVal & d = m2.feats[pf.second.name]; d.cls = R_FS; d.ref = nn; g.label("legal read"); return true;
      }
    }
    bool threw = throwsUima([&] { readAcc(fs, f, acc); });
    CHECK(threw == !legal, "reading with accessor ", acc, " ", what, threw ? " was refused" : " was accepted"); illegal = !legal; g.label(legal ? "legal read" : "illegal read"); return true;
  }
  if (g.chance(1, 3)) {   // write a reference
    int r = g.below(w.nodes.size()); FeatureStructure ref = w.fs(r); bool legal = approp && !isPrim && w.ts.subsumes(pf.second.range, w.nodes[r].type);
    if (g.chance(1, 10)) { ref = FeatureStructure(); legal = false; what += " to an invalid structure"; }
    bool generic = g.flip(); bool threw = throwsUima([&] { if (generic) fs.setFeatureValue(f, ref); else fs.setFSValue(f, ref); });
    CHECK(threw == !legal, "setting ", what, " to a ", w.nodes[r].type, threw ? " was refused" : " was accepted");
    if (legal) { MVal & v = m.feats[pf.second.name]; v.cls = R_FS; v.ref = r; } illegal = !legal; g.label(legal ? "legal reference" : "illegal reference"); return true;
  }
  int k = g.below(K_NPRIM); MVal v = primVal(g, w, k); bool legal = approp && isPrim && kind == k;
  if (isPrim && g.flip()) { k = kind; v = w.genVal(g, pf.second.range); legal = approp; }
  if (k == K_STRING && rc == R_STRSUB && approp) {
    const MType & e = *w.ts.find(pf.second.range);
    if (g.chance(2, 3)) { v.s = us(g.pick(e.allowed)); if (g.flip()) v.s += US("x"); else if (g.chance(1, 3)) v.s.truncate(v.s.length() - 1); }
    legal = std::find(e.allowed.begin(), e.allowed.end(), u8(v.s)) != e.allowed.end() && US::fromUTF8(u8(v.s)) == v.s; g.label(legal ? "allowed string" : "disallowed string");
  }
  v.cls = R_PRIM; v.kind = k;
  bool threw = throwsUima([&] { writeFeat(w.ts, fs, f, pf.second.range, v, nullptr); });
  CHECK(threw == !legal, "writing ", PRIM_NAME[k], " ", showVal(v), " to ", what, threw ? " was refused" : " was accepted");
  if (legal) { MVal & d = m.feats[pf.second.name]; int c = d.cls; d = v; d.cls = c; } illegal = !legal; g.label(legal ? "legal write" : "illegal write"); return true;
}

PROPERTY("P03", "accesses", 20000, 1000000, "at least three refused and two accepted accesses among objects with values") {
  World w; w.open(g, TSOpts()); w.vo.maxText = 8; size_t n = 2 + g.below(6), bad = 0, good = 0;
  static const char * LTs[] = {"uima.cas.NonEmptyFSList", "uima.cas.NonEmptyIntegerList", "uima.cas.NonEmptyStringList"};
  auto cr = w.creatable();
  for (size_t i = 0; i < n; ++i) {
    switch (g.weighted({6, 2, 1, 1})) { case 0: w.create(g, g.pick(cr)); break; case 1: w.createArray(g.below(A_N), g.below(4)); break; case 2: w.createEmptyList(g.below(L_N)); break; default: w.create(g, LTs[g.below(3)]); }
    MNode & m = w.nodes.back(); if (m.array) { for (size_t k = 0; k < m.elems.size(); ++k) w.setElem(i, k, w.genElem(g, m.ak)); continue; }
    for (auto & p : w.ts.allFeats(m.type)) if (p.second.name != "sofa" && g.flip()) w.set(i, p.second, w.genVal(g, p.second.range));
  }
  size_t ops = 3 + g.small(40);
  for (size_t i = 0; i < ops && !g.exhausted(); ++i) { bool illegal = false; if (access(g, w, illegal)) { illegal ? ++bad : ++good; w.checkAll(); } }
  g.nontrivial(bad >= 3 && good >= 2); g.sample(cat(bad, " refused, ", good, " accepted; ", w.show(0)));
}

// Creating objects, and queries through invalid handles
PROPERTY("P03", "creation", 8000, 300000, "a type of every class was tried") {
  World w; w.open(g, TSOpts()); CAS & c = *w.cas; auto all = w.ts.allTypeNames(); size_t n = 5 + g.below(30); std::set<std::string> cls;
  for (size_t i = 0; i < n; ++i) {
    std::string t = g.pick(all); if (g.chance(1, 3)) t = g.flip() ? ARR_NAME[g.below(A_N)] : PRIM_NAME[g.below(K_NPRIM)];
    if (t == "uima.cas.Sofa" || t == "uima.tcas.DocumentAnnotation" || t == "uima.cas.ArrayBase") continue;
    int kd; RangeClass rc = rangeClass(w.ts, t, kd); if (rc == R_STRSUB) continue;
    Type ty = typeOf(c, t); bool fin = rc == R_PRIM || rc == R_ARR;
    if (g.flip()) {
      FeatureStructure r; bool threw = throwsUima([&] { r = c.createFS(ty); }); CHECK(threw == fin, "createFS of ", t, threw ? " was refused" : " was accepted"); cls.insert(fin ? "final" : "plain");
      if (!fin) { CHECK_EQ(u8(r.getType().getName()), t, "type of a new structure"); MNode m; m.type = t; m.view = &c; m.a = addr(r); for (auto & p : w.ts.allFeats(t)) m.feats[p.second.name] = defaultVal(w.ts, p.second.range); if (m.feats.count("sofa")) m.feats["sofa"].ref = -2; w.nodes.push_back(m); }
      else if (!w.nodes.empty() && g.chance(1, 3)) CHECK(throwsUima([&] { w.fs(g.below(w.nodes.size())).clone(ty); }), "clone to ", t, " was accepted");
    } else {
      bool ann = w.ts.subsumes("uima.tcas.Annotation", t); AnnotationFS r; int b = g.below(20), e = b + g.below(20);
      bool threw = throwsUima([&] { r = c.createAnnotation(ty, b, e); }); CHECK(threw == !ann, "createAnnotation of ", t, threw ? " was refused" : " was accepted"); cls.insert(ann ? "annotation" : "no annotation");
      if (ann) { MNode m; m.type = t; m.view = &c; m.a = addr(r); for (auto & p : w.ts.allFeats(t)) m.feats[p.second.name] = defaultVal(w.ts, p.second.range); m.feats["begin"].i = b; m.feats["end"].i = e; m.feats["sofa"].ref = -2; w.nodes.push_back(m); }
    }
  }
  Type none; Feature nf; FeatureStructure ns; std::vector<Feature> vf; std::vector<Type> vt_; Type top = c.getTypeSystem().getTopType();
  CHECK(throwsUima([&] { c.createFS(none); }) && throwsUima([&] { c.createAnnotation(none, 0, 1); }), "an invalid type was instantiated");
  CHECK(throwsUima([&] { none.getName(); }) && throwsUima([&] { none.getCreatorID(); }) && throwsUima([&] { none.getAppropriateFeatures(vf); }) && throwsUima([&] { none.getDirectSubTypes(vt_); }) && throwsUima([&] { none.getSubTypes(vt_); }) && throwsUima([&] { none.getFeatureByBaseName(us("x")); }) && throwsUima([&] { none.subsumes(top); }) && throwsUima([&] { top.subsumes(none); }) && throwsUima([&] { none.getTypeSystem(); }) && throwsUima([&] { none.isStringSubType(); }), "a query of an invalid type was answered");
  CHECK(throwsUima([&] { nf.getName(); }) && throwsUima([&] { nf.getTypeSystem(); }) && throwsUima([&] { nf.isMultipleReferencesAllowed(); }) && throwsUima([&] { Type r; nf.getRangeType(r); }) && throwsUima([&] { Type r; nf.getIntroType(r); }) && throwsUima([&] { nf.getCreatorID(); }), "a query of an invalid feature was answered");
  CHECK(throwsUima([&] { ns.getType(); }) && throwsUima([&] { ns.clone(); }) && throwsUima([&] { ns.clone(top); }) && throwsUima([&] { ns.getCAS(); }), "an invalid structure was used");
  w.checkAll(); g.nontrivial(cls.size() == 4); g.sample(cat(w.nodes.size(), " created in ", w.ts.describe()));
}
