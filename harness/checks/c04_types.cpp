// P04: type system queries.  P05: merging of type descriptions.
#include "desc.hpp"
#include "uima/typenamespace.hpp"
using namespace uima; using namespace vt;

PROPERTY("P04", "queries", 3500, 200000, "a hierarchy of depth three or more with inherited features") {
  initUima(); TSOpts o; o.maxTypes = g.chance(1, 4) ? 16 : 7; o.maxFeats = 5; MTS ts = genTS(g, o);
  TSHolder h; h.ts = buildTS(ts, &g); g.sample(ts.describe()); checkTypeSystem(ts, *h.ts, &g);
  for (auto & t : ts.types) { size_t d = 0; for (auto x = t.name; !x.empty(); x = ts.superOf(x)) ++d; if (d >= 4 && ts.allFeats(t.name).size() > t.feats.size()) g.nontrivial(); }
  for (auto & t : ts.types) if (t.name.compare(0, 5, "uima.")) {
    Type ty = h.ts->getType(us(t.name)); CHECK_EQ(u8(ty.getCreatorID()), std::string("vt"), "creator of ", t.name);
    for (auto & f : t.feats) CHECK_EQ(u8(ty.getFeatureByBaseName(us(f.name)).getCreatorID()), std::string("vt"), "creator of ", t.name, ":", f.name);
  }
  // handles of two type systems are distinct; a CAS shows the same type system
  TSHolder h2; if (g.chance(1, 3)) { h2.ts = buildTS(ts); CHECK(h2.ts->getTopType() != h.ts->getTopType(), "types of different type systems are equal"); }
  if (g.chance(1, 3)) { std::unique_ptr<CAS> c(makeCAS(*h.ts)); checkTypeSystem(ts, const_cast<TypeSystem &>(c->getTypeSystem()), nullptr); }
}

// the types that share a namespace, and short names looked up in several
PROPERTY("P04", "namespaces", 4000, 150000, "a short name that exists in two of the namespaces, and one that exists in one only") {
  initUima(); TSOpts o; o.maxTypes = 14; o.maxFeats = 1; MTS ts = genTS(g, o);
  std::vector<std::string> spaces{"org.vt", "org.vt.sub", "org", "vt", "org.vts", "o"}; std::set<std::string> taken; for (auto & t : ts.types) taken.insert(t.name);
  size_t extra = 4 + g.below(16); for (size_t i = 0; i < extra; ++i) { MType t; t.name = g.one<std::string>({"", "org.vt.", "org.vt.sub.", "org.", "vt.", "org.vts.", "o."}) + g.one<const char *>({"A", "B", "Same", "Other", "sub", "vt", "A_1"}); if (!taken.insert(t.name).second) continue; std::vector<std::string> sup{"uima.cas.TOP", "uima.tcas.Annotation"}; for (auto & x : ts.types) if (!x.strsub && x.name != "uima.tcas.DocumentAnnotation") { sup.push_back(x.name); if (x.name.rfind('.') != std::string::npos && t.name.rfind('.') != std::string::npos && x.name.substr(x.name.rfind('.')) == t.name.substr(t.name.rfind('.'))) for (int k = 0; k < 4; ++k) sup.push_back(x.name); } t.super = g.pick(sup); ts.types.push_back(t); }
  TSHolder h; h.ts = buildTS(ts); std::vector<std::string> all = ts.allTypeNames(); std::map<std::string, std::set<std::string>> in;
  auto spaceOf = [](const std::string & n) { size_t d = n.rfind('.'); return d == std::string::npos ? std::string() : n.substr(0, d); }; auto baseOf = [](const std::string & n) { size_t d = n.rfind('.'); return d == std::string::npos ? n : n.substr(d + 1); };
  std::vector<std::string> bases{"Same", "NoSuch", "", "TOP", "sub.A", "."}; for (auto & n : all) { std::string s = spaceOf(n); if (n.find('.') != std::string::npos) { in[s].insert(baseOf(n)); if (std::find(spaces.begin(), spaces.end(), s) == spaces.end()) spaces.push_back(s); } bases.push_back(baseOf(n)); }
  spaces.push_back("uima"); spaces.push_back("no.such"); spaces.push_back("org.vt."); g.sample(ts.describe());
  auto namesOf = [](const std::vector<Type> & v) { std::vector<std::string> r; for (auto & t : v) r.push_back(u8(t.getName())); std::sort(r.begin(), r.end()); return r; };
  auto expect = [&](const std::string & s) { std::vector<std::string> r; auto f = in.find(s); if (f != in.end()) for (auto & b : f->second) r.push_back(s + "." + b); std::sort(r.begin(), r.end()); return r; };
  auto exists = [&](const std::string & n) { return std::find(all.begin(), all.end(), n) != all.end(); };
  auto show = [](const std::vector<std::string> & v) { std::string r; for (auto & x : v) r += x + " "; return r; };
  for (auto & s : spaces) {
    TypeNameSpace ns(*h.ts, us(s)); CHECK_EQ(u8(ns.getName()), s, "name of the namespace"); CHECK(&ns.getTypeSystem() == h.ts, "type system of the namespace"); std::vector<Type> v; if (g.flip()) v.push_back(h.ts->getTopType());
    ns.getAllTypes(v); CHECK_EQ(show(namesOf(v)), show(expect(s)), "types of namespace ", s, " in ", ts.describe());
    for (size_t k = 0; k < 6; ++k) { std::string b = g.pick(bases); Type t = ns.getType(us(b)); bool ex = exists(s + "." + b); CHECK(t.isValid() == ex, "type ", b, " of namespace ", s, ex ? " is not found" : " is found"); if (ex) CHECK_EQ(u8(t.getName()), s + "." + b, "type of namespace ", s); }
  }
  TypeNameSpaceImport imp(*h.ts); CHECK(&imp.getTypeSystem() == h.ts, "type system of the import"); std::vector<std::string> used, every; size_t k = g.below(12); for (size_t i = 0; i < k; ++i) { std::string s = g.flip() ? spaces[g.below(6)] : g.pick(spaces); if (std::find(used.begin(), used.end(), s) != used.end()) continue; used.push_back(s); imp.addNameSpace(TypeNameSpace(*h.ts, us(s))); for (auto & n : expect(s)) every.push_back(n); }
  std::vector<Type> v; if (g.flip()) v.push_back(h.ts->getTopType()); imp.getAllTypes(v); std::sort(every.begin(), every.end()); CHECK_EQ(show(namesOf(v)), show(every), "types of the namespaces ", show(used)); bool two = false, one = false;
  for (auto & b : bases) { std::vector<std::string> hits; for (auto & s : used) if (exists(s + "." + b)) hits.push_back(s + "." + b); two = two || hits.size() > 1; one = one || hits.size() == 1; Type t = g.flip() ? h.ts->getTopType() : Type(); bool ok = imp.getType(us(b), t);
    CHECK(ok == (hits.size() < 2), "lookup of ", b, " in ", show(used), " with ", hits.size(), " candidates gives ", ok); CHECK(t.isValid() == (hits.size() == 1), "type ", b, " in ", show(used), " with ", hits.size(), " candidates"); if (hits.size() == 1) CHECK_EQ(u8(t.getName()), hits[0], "type ", b, " in ", show(used)); }
  g.nontrivial(two && one);
}

// two type systems of the same names side by side, queries in any order
PROPERTY("P04", "interleaved", 4000, 200000, "the two type systems differ in a queried relation") {
  initUima(); TSOpts o; o.maxTypes = 8; o.maxFeats = 3; MTS m[2]; m[0] = m[1] = genTS(g, o);
  for (size_t i = 0; i < m[1].types.size(); ++i) { MType & t = m[1].types[i]; if (t.strsub || t.name.compare(0, 5, "uima.") == 0 || !g.chance(2, 3)) continue;
    std::vector<std::string> c{"uima.cas.TOP", "uima.tcas.Annotation"}; for (size_t j = 0; j < i; ++j) if (!m[1].types[j].strsub && m[1].types[j].name.compare(0, 5, "uima.")) c.push_back(m[1].types[j].name); std::string old = t.super; t.super = g.pick(c);
    bool clash = false; for (auto & x : m[1].types) for (auto & p : m[1].allFeats(x.super)) for (auto & f : x.feats) clash = clash || f.name == p.second.name; if (clash) t.super = old; }
  TSHolder h[2]; for (int k = 0; k < 2; ++k) h[k].ts = buildTS(m[k]);
  std::vector<std::string> all = m[0].allTypeNames(), user; std::vector<std::pair<std::string, std::string>> feats;
  for (auto & t : m[0].types) { if (!t.strsub) user.push_back(t.name); for (auto & f : t.feats) feats.push_back({t.name, f.name}); } for (auto n : {"uima.cas.TOP", "uima.tcas.Annotation", "uima.cas.AnnotationBase", "uima.cas.String"}) user.push_back(n); feats.push_back({"uima.tcas.Annotation", "begin"});
  g.sample(m[0].describe() + " | " + m[1].describe());
  size_t n = 10 + g.below(60); std::string hist; std::vector<std::pair<std::string, std::string>> recent;
  for (size_t q = 0; q < n; ++q) {
    std::string a = g.pick(user), b = g.pick(user); auto fe = g.pick(feats);
    if (!recent.empty() && g.chance(2, 3)) { auto r = g.pick(recent); a = r.first; b = r.second; } else recent.push_back({a, b});
    if (g.chance(1, 2)) fe = feats[(q * 7) % feats.size()];
    int op = g.below(6), first = g.below(2);
    bool differ = false; if (op == 0) differ = m[0].subsumes(a, b) != m[1].subsumes(a, b); g.nontrivial(differ);
    for (int r = 0; r < 2; ++r) {
      int k = r ? 1 - first : first; MTS & M = m[k]; TypeSystem & T = *h[k].ts; Type A = T.getType(us(a)), B = T.getType(us(b)); CHECK(A.isValid() && B.isValid(), "type not found: ", a, " or ", b);
      std::string ctx = cat(" in type system ", k, " of [", m[0].describe(), "] [", m[1].describe(), "]");
      if (op == 0) CHECK(A.subsumes(B) == M.subsumes(a, b), a, M.subsumes(a, b) ? " does not subsume " : " subsumes ", b, ctx);
      else if (op == 1 || op == 2) {
        bool has = false; std::string range; for (auto & p : M.allFeats(a)) if (p.second.name == fe.second) { has = true; range = p.second.range; }
        Feature f = op == 1 ? A.getFeatureByBaseName(us(fe.second)) : T.getFeatureByFullName(us(a + ":" + fe.second)); CHECK(f.isValid() == has, "feature ", fe.second, " of ", a, has ? " is not found" : " is found", ctx);
        if (has) { Type rt; f.getRangeType(rt); CHECK_EQ(u8(rt.getName()), range, "range of ", a, ":", fe.second, ctx); CHECK(A.isAppropriateFeature(f), "a feature found is not appropriate", ctx); }
        Feature d = T.getType(us(fe.first)).getFeatureByBaseName(us(fe.second)); CHECK(d.isValid(), "declared feature not found", ctx); CHECK(B.isAppropriateFeature(d) == M.subsumes(fe.first, b), "isAppropriateFeature of ", b, " for ", fe.first, ":", fe.second, ctx);
      } else if (op == 3) { std::vector<Type> tv; A.getSubTypes(tv); std::set<std::string> x, y; for (auto & t : tv) x.insert(u8(t.getName())); for (auto & t : all) if (M.subsumes(a, t)) y.insert(t); CHECK(x == y && tv.size() == y.size(), "getSubTypes of ", a, ctx); }
      else if (op == 4) { std::vector<Type> tv; A.getDirectSubTypes(tv); std::set<std::string> x, y; for (auto & t : tv) x.insert(u8(t.getName())); for (auto & t : all) if (M.superOf(t) == a) y.insert(t); CHECK(x == y && tv.size() == y.size(), "getDirectSubTypes of ", a, ctx); }
      else { std::vector<Feature> fv; A.getAppropriateFeatures(fv); std::set<std::string> x, y; for (auto & f : fv) x.insert(u8(f.getName())); for (auto & p : M.allFeats(a)) y.insert(p.second.name); CHECK(x == y && fv.size() == y.size(), "getAppropriateFeatures of ", a, ctx); }
    }
  }
}

// pieces that together declare ts: every type at least once, features spread and repeated
static std::vector<MTS> split(Gen & g, const MTS & ts, size_t n, bool & repeated) {
  std::vector<MTS> r(n);
  for (auto & t : ts.types) {
    size_t copies = t.feats.empty() ? 1 + g.below(2) : 1 + g.below(3); std::vector<MType> parts;
    for (size_t i = 0; i < copies; ++i) { MType m = t; m.feats.clear(); if (t.strsub && i) { m.allowed.clear(); for (auto & a : t.allowed) if (g.flip()) m.allowed.push_back(a); } parts.push_back(m); }
    for (auto & f : t.feats) { bool any = false; for (auto & m : parts) if (g.flip()) { m.feats.push_back(f); any = true; } if (!any) parts[g.below(copies)].feats.push_back(f); }
    if (copies > 1) repeated = true;
    for (auto & m : parts) { MTS & d = r[g.below(n)]; bool dup = false; for (auto & x : d.types) if (x.name == m.name) { dup = true; for (auto & f : m.feats) { bool has = false; for (auto & q : x.feats) has = has || q.name == f.name; if (!has) x.feats.push_back(f); } for (auto & a : m.allowed) if (std::find(x.allowed.begin(), x.allowed.end(), a) == x.allowed.end()) x.allowed.push_back(a); } if (!dup) d.types.push_back(m); }
  }
  for (auto & d : r) for (size_t i = d.types.size(); i > 1; --i) std::swap(d.types[i - 1], d.types[g.below(i)]);
  return r;
}
// a feature declared again by a descendant with the same range is the inherited feature
static void redeclare(Gen & g, MTS & pieces, const MTS & ts, bool & any) {
  for (auto & t : pieces.types) { if (t.strsub) continue; for (auto & p : ts.allFeats(t.name)) if (p.first != t.name && ts.find(p.first) && g.chance(1, 6)) { bool has = false; for (auto & q : t.feats) has = has || q.name == p.second.name; if (!has) { t.feats.push_back(p.second); any = true; } } }
}
static TypeSystem * load(Gen & g, const std::vector<MTS> & pieces, int way, std::string & what) {
  ErrorInfo ei;
  if (way == 0) {       // one description object, types added one after the other
    what = "description objects"; TypeSystemDescription d; for (auto & p : pieces) fillTSDesc(p, d); if (g.flip()) d.commit(); return Framework::createTypeSystem(d, US("vt"), ei);
  }
  if (way == 1) { what = "repeated in one document"; MTS all; for (auto & p : pieces) for (auto & t : p.types) all.types.push_back(t); return Framework::createTypeSystemFromXMLBuffer(tsXml(all).c_str(), ei); }
  // files that import each other
  what = "imports"; std::string dir = scratch(); size_t n = pieces.size(); std::vector<std::vector<std::string>> imp(n);
  auto loc = [&](size_t k) { std::string f = cat("p", k, ".xml"); return g.flip() ? f : dir + "/" + f; };
  for (size_t i = 1; i < n; ++i) imp[g.below(i)].push_back(loc(i));                    // every file is reached from the first
  size_t extra = g.below(n + 2); for (size_t i = 0; i < extra; ++i) imp[g.below(n)].push_back(loc(g.below(n)));   // shared and circular ones
  for (size_t i = 0; i < n; ++i) { std::string p = cat(dir, "/p", i, ".xml"); writeFile(p, tsXml(pieces[i], imp[i])); }
  std::string root = dir + "/p0.xml"; what += cat(" of ", n, " files");
  if (way == 2) return Framework::createTypeSystem(root.c_str(), ei);
  if (way == 3) { what += " by description"; std::unique_ptr<TypeSystemDescription> d(Framework::createTypeSystemDescription(root.c_str())); return Framework::createTypeSystem(*d, US("vt"), ei); }
  MTS none; std::string doc = tsXml(none, {root}); what += " from a buffer";
  if (g.flip()) return Framework::createTypeSystemFromXMLBuffer(doc.c_str(), ei);
  US u = us(doc); return Framework::createTypeSystem(u.getBuffer(), u.length(), ei);
}

PROPERTY("P05", "union", 5000, 150000, "a type is mentioned by several descriptions") {
  initUima(); TSOpts o; o.maxTypes = 7; o.multiRefs = false; MTS ts = genTS(g, o); size_t n = 1 + g.below(4); bool rep = false;
  auto pieces = split(g, ts, n, rep); bool red = false; if (g.chance(1, 2)) for (auto & p : pieces) redeclare(g, p, ts, red);
  int way = g.below(5); std::string what; TSHolder h; std::string desc; for (auto & p : pieces) desc += "[" + p.describe() + "] "; g.sample(desc); g.label(red ? "redeclared features" : "plain");
  try { h.ts = load(g, pieces, way, what); } catch (Exception & e) { fail(cat("refused (", what, "): ", excText(e), " for ", desc)); }
  CHECK(h.ts != nullptr, "no type system (", what, ") for ", desc); g.label(what.substr(0, 7)); g.nontrivial(rep);
  try { checkTypeSystem(ts, *h.ts, &g); } catch (Fail & f) { fail(what + " " + desc + ": " + f.msg); }
  for (auto & t : ts.types) if (t.strsub) {    // exactly the allowed values
    MTS user = ts; std::unique_ptr<CAS> c(makeCAS(*h.ts)); (void)user;
    for (auto & tt : ts.types) for (auto & f : tt.feats) if (f.range == t.name && !tt.strsub && tt.name != "uima.tcas.DocumentAnnotation" && !ts.subsumes("uima.cas.AnnotationBase", tt.name)) {
      FeatureStructure fs = c->createFS(typeOf(*c, tt.name)); Feature ft = featOf(*c, tt.name, f.name);
      for (auto & a : t.allowed) CHECK(!throwsUima([&] { fs.setStringValue(ft, us(a)); }), "allowed value ", a, " is refused (", what, ") ", desc);
      CHECK(throwsUima([&] { fs.setStringValue(ft, us("no such value")); }), "a value outside the allowed ones is accepted");
    }
  }
}

PROPERTY("P05", "refused", 6000, 200000, "the defect is not in the first description of the type") {
  initUima(); TSOpts o; o.maxTypes = 6; o.multiRefs = false; MTS ts = genTS(g, o); size_t n = 1 + g.below(3); bool rep = false; auto pieces = split(g, ts, n, rep);
  std::vector<std::string> user; for (auto & t : ts.types) if (!t.strsub && t.name != "uima.tcas.DocumentAnnotation") user.push_back(t.name);
  auto where = [&]() -> MTS & { return pieces[g.below(n)]; };
  auto plain = [&](const std::string & name, const std::string & super) { MType t; t.name = name; t.super = super; return t; };
  auto insert = [&](MTS & m, const MType & t) { m.types.insert(m.types.begin() + g.below(m.types.size() + 1), t); };
  std::string kind; std::string tn = g.pick(user); const MType & T = *ts.find(tn);
  switch (g.below(10)) {
    case 0: { std::string s = "uima.tcas.Annotation"; if (T.super == s) s = "uima.cas.TOP"; if (ts.subsumes(tn, s)) return; insert(where(), plain(tn, s)); kind = "supertypes disagree"; break; }
    case 1: { if (T.feats.empty()) return; MFeat f = T.feats[g.below(T.feats.size())]; f.range = f.range == "uima.cas.Integer" ? "uima.cas.String" : "uima.cas.Integer"; MType t = plain(tn, T.super); t.feats.push_back(f); insert(where(), t); kind = "ranges disagree"; break; }
    case 2: insert(where(), plain("org.vt.Orphan", g.flip() ? "org.vt.NoSuch" : "uima.cas.top")); kind = "undeclared supertype"; break;
    case 3: { MType t = plain(tn, T.super); t.feats.push_back(MFeat{"orphanFeature", g.flip() ? "org.vt.NoSuch" : "uima.cas.int", false}); insert(where(), t); kind = "undeclared range"; break; }
    case 4: { size_t k = 1 + g.below(4); for (size_t i = 0; i < k; ++i) insert(where(), plain(cat("org.vt.C", i), cat("org.vt.C", (i + 1) % k))); kind = cat("cycle of ", k); break; }
    case 5: { std::vector<std::string> fin(PRIM_NAME, PRIM_NAME + K_NPRIM); fin.insert(fin.end(), ARR_NAME, ARR_NAME + A_N); fin.push_back("uima.cas.ArrayBase"); for (auto & t : ts.types) if (t.strsub) fin.push_back(t.name); std::string f = g.pick(fin); if (f == "uima.cas.String") f = "uima.cas.Integer"; insert(where(), plain("org.vt.Extends", f)); kind = "extends " + f; break; }
    case 6: { auto af = ts.allFeats(tn); std::vector<MFeat> c; for (auto & p : af) if (p.first != tn) c.push_back(p.second); if (c.empty()) return; MFeat f = g.pick(c); f.range = f.range == "uima.cas.Integer" ? "uima.cas.String" : "uima.cas.Integer"; MType t = plain(tn, T.super); t.feats.push_back(f); insert(where(), t); kind = "inherited feature with another range"; break; }
    case 7: { MType t = plain("uima.tcas.Annotation", "uima.cas.TOP"); insert(where(), t); kind = "built-in type with another supertype"; break; }
    case 8: { std::vector<std::string> fin(PRIM_NAME, PRIM_NAME + K_NPRIM); fin.insert(fin.end(), ARR_NAME, ARR_NAME + A_N); fin.push_back("uima.cas.TOP"); std::string f = g.pick(fin); MType t = plain(f, f == "uima.cas.TOP" ? "" : ts.superOf(f)); if (f == "uima.cas.TOP" || f == "uima.cas.String") return; t.feats.push_back(MFeat{"extraFeature", "uima.cas.Integer", false}); insert(where(), t); kind = "feature of the final type " + f; break; }
    default: { MType t = plain("uima.tcas.Annotation", "uima.cas.AnnotationBase"); t.feats.push_back(MFeat{g.one<const char *>({"begin", "end"}), "uima.cas.String", false}); insert(where(), t); kind = "built-in feature with another range"; }
  }
  int way = g.below(5); std::string what, desc; for (auto & p : pieces) desc += "[" + p.describe() + "] "; g.sample(kind + ": " + desc); g.label(kind.substr(0, 14)); g.nontrivial(n > 1);
  TSHolder h; bool refused = throwsUima([&] { h.ts = load(g, pieces, way, what); }) || !h.ts;
  CHECK(refused, kind, " was accepted (", what, ") in ", desc);
  // the process goes on
  if (g.chance(1, 4)) { TSHolder k; k.ts = buildTS(ts); checkTypeSystem(ts, *k.ts, nullptr); }
}
