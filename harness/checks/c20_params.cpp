// P20, P21: looking up and assigning configuration parameters.
#include "parmodel.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/annotator_context.hpp"
using namespace uima;
using namespace vt;

static std::string showVal(const AeVal & v) { std::string s = cat(v.type, v.multi ? "[" : "("); for (auto & x : v.v) s += x + "|"; return s; }
// reads a parameter of the given kind; false: no value; throws what the library throws
static bool extract(const AnnotatorContext & c, Gen & g, const std::string * grp, const std::string & n, PType t, bool multi, AeVal & out) {
  out = AeVal(); out.type = t; out.multi = multi; US N = us(n), G = grp ? us(*grp) : US(); TyErrorId e = 0;
  auto get = [&](auto & x) { e = grp ? c.extractValue(G, N, x) : c.extractValue(N, x); CHECK(e == UIMA_ERR_NONE || e == UIMA_ERR_CONFIG_NAME_VALUE_PAIR_NOT_FOUND, "lookup of ", n, " gives error ", e); return e == UIMA_ERR_NONE; };
  char b[64]; auto flt = [&](float f) { snprintf(b, sizeof b, "%.9g", f); return std::string(b); };
  if (multi) switch (t) {
    case PT_STRING: {
      if (g.flip()) { std::vector<US> v(1, US("old")); if (!get(v)) { CHECK(v.size() == 1 && v[0] == US("old"), "a lookup without result changes the variable"); return false; } for (auto & s : v) out.v.push_back(u8(s)); return true; }
      std::vector<std::string *> v; bool ok = get(v); for (auto p : v) out.v.push_back(*p); c.release(v); CHECK(v.empty(), "release leaves strings"); return ok; }
    case PT_INT: { std::vector<int> v(1, 7); if (!get(v)) { CHECK(v == std::vector<int>(1, 7), "a lookup without result changes the variable"); return false; } for (auto x : v) out.v.push_back(std::to_string(x)); return true; }
    case PT_FLOAT: { std::vector<float> v(1, 7.5f); if (!get(v)) { CHECK(v == std::vector<float>(1, 7.5f), "a lookup without result changes the variable"); return false; } for (auto x : v) out.v.push_back(flt(x)); return true; }
    default: { std::vector<bool> v(2, true); if (!get(v)) { CHECK(v == std::vector<bool>(2, true), "a lookup without result changes the variable"); return false; } for (bool x : v) out.v.push_back(x ? "true" : "false"); return true; }
  }
  switch (t) {
    case PT_STRING: { if (g.flip()) { US v("old"); if (!get(v)) { CHECK(v == US("old"), "a lookup without result changes the variable"); return false; } out.v.push_back(u8(v)); return true; } std::string v = "old"; if (!get(v)) { CHECK_EQ(v, std::string("old"), "a lookup without result changes the variable"); return false; } out.v.push_back(v); return true; }
    case PT_INT: { if (g.flip()) { size_t v = 7; if (!get(v)) { CHECK(v == 7, "a lookup without result changes the variable"); return false; } out.v.push_back(std::to_string((int)v)); return true; } int v = 7; if (!get(v)) { CHECK(v == 7, "a lookup without result changes the variable"); return false; } out.v.push_back(std::to_string(v)); return true; }
    case PT_FLOAT: { float v = 7.5f; if (!get(v)) { CHECK(v == 7.5f, "a lookup without result changes the variable"); return false; } out.v.push_back(flt(v)); return true; }
    default: { bool v = g.flip(), w = v; if (!get(v)) { CHECK(v == w, "a lookup without result changes the variable"); return false; } out.v.push_back(v ? "true" : "false"); return true; }
  }
}
static TyErrorId assign(AnnotatorContext & c, Gen & g, const std::string * grp, const std::string & n, const AeVal & v) {
  US N = us(n), G = grp ? us(*grp) : US(); auto put = [&](const auto & x) { return grp ? c.assignValue(G, N, x) : c.assignValue(N, x); };
  if (v.multi) switch (v.type) {
    case PT_STRING: { std::vector<US> x; for (auto & s : v.v) x.push_back(us(s)); return put(x); }
    case PT_INT: { if (g.flip()) { std::vector<size_t> x; for (auto & s : v.v) x.push_back((size_t)atoi(s.c_str())); return put(x); } std::vector<int> x; for (auto & s : v.v) x.push_back(atoi(s.c_str())); return put(x); }
    case PT_FLOAT: { if (g.flip()) { std::vector<double> x; for (auto & s : v.v) x.push_back(strtof(s.c_str(), 0)); return put(x); } std::vector<float> x; for (auto & s : v.v) x.push_back(strtof(s.c_str(), 0)); return put(x); }
    default: { std::vector<bool> x; for (auto & s : v.v) x.push_back(s == "true"); return put(x); }
  }
  const std::string & s = v.v[0];
  switch (v.type) {
    case PT_STRING: return put(us(s));
    case PT_INT: if (g.flip()) return put((size_t)atoi(s.c_str())); return put((int)atoi(s.c_str()));
    case PT_FLOAT: if (g.flip()) return put((double)strtof(s.c_str(), 0)); return put(strtof(s.c_str(), 0));
    default: return put(s == "true");
  }
}
static bool sameVal(const AeVal & a, const AeVal & b) {
  if (a.multi != b.multi || a.type != b.type || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); ++i) if (a.type == PT_FLOAT ? !sameFloat(strtof(a.v[i].c_str(), 0), strtof(b.v[i].c_str(), 0)) : a.v[i] != b.v[i]) return false;
  return true;
}
static void checkLookup(const AnnotatorContext & c, const ParNode & m, Gen & g, const std::string * grp, const std::string & n, PType t, bool multi, const std::string & who) {
  ParRes r = grp ? m.find(*grp, n, m.c.strat) : m.find(n); AeVal v; bool threw = false, got = false; std::string what = cat(n, grp ? " in group " + *grp : "", " of ", who), err;
  try { got = extract(c, g, grp, n, t, multi, v); } catch (Exception & e) { threw = true; err = excText(e); }
  if (r.kind == ParRes::THROWS) { CHECK(threw, "undeclared parameter ", what, got ? " has the value " + showVal(v) : " is looked up without an error"); return; }
  if (r.kind == ParRes::NONE) { CHECK(!threw, "lookup of ", what, ", which has no value, throws ", err); CHECK(!got, "parameter ", what, " has no value but is ", showVal(v)); return; }
  if (r.v->type != t || r.v->multi != multi) { CHECK(threw, "value ", showVal(*r.v), " of ", what, " is read as kind ", t, multi ? "[]" : ""); return; }
  CHECK(!threw, "lookup of ", what, " throws ", err, " instead of giving ", showVal(*r.v)); CHECK(got, "parameter ", what, " has the value ", showVal(*r.v), " but none is found");
  CHECK(sameVal(v, *r.v), "parameter ", what, " is ", showVal(v), " instead of ", showVal(*r.v));
}
static void parse(AnalysisEngineDescription & d, const std::string & doc) { ResourceManager::getInstance().enableSchemaValidation(false); TextAnalysisEngineSpecifierBuilder b; b.buildTaeFromMemory(d, doc.c_str()); }
static void kindOf(Gen & g, const ParNames & N, const ParRes & r, const std::string & n, PType & t, bool & multi) {
  auto k = N.kind.at(n); t = k.first; multi = k.second; if (r.kind == ParRes::VALUE) { t = r.v->type; multi = r.v->multi; } if (g.chance(1, 10)) { t = (PType)g.below(4); multi = g.flip(); }
}
static const char * stratName[] = {"none", "default_fallback", "language_fallback"};

PROPERTY("P20", "lookup", 30000, 400000, "a value is found in another group than the one asked for, or none is found for a declared parameter") {
  initUima(); ParNames N = genParNames(g, false); Ae a; a.impl = "x"; a.name = "n"; genParConf(g, N, a, {}); AeFormat f; f.g = &g; f.dir = scratch(); std::string doc = aeXml(a, f); g.note(doc + "\n"); g.sample(doc);
  AnalysisEngineDescription d; parse(d, doc); ParNode m; m.load(a); if (g.flip()) { d.commit(); m.commit(); } AnnotatorContext c(&d); g.label(stratName[m.c.strat]); bool special = false;
  std::vector<std::string> names = N.names, groups = N.groups; names.push_back("unknown"); groups.push_back("unknown"); groups.push_back("unknown-us"); groups.push_back("en-us-y-z"); groups.push_back("fr-"); groups.push_back("-en"); N.kind["unknown"] = {PT_INT, false};
  AnalysisEngineMetaData & md = *const_cast<AnalysisEngineMetaData *>(d.getAnalysisEngineMetaData());
  for (size_t round = 0, rounds = 1 + g.below(6); round < rounds; ++round) {
    for (size_t q = 0; q < 12; ++q) {
      std::string n = g.pick(names); bool grp = g.chance(2, 3); std::string gr = g.pick(groups); ParRes r = grp ? m.find(gr, n, m.c.strat) : m.find(n); PType t; bool multi; kindOf(g, N, r, n, t, multi);
      if (grp && r.kind == ParRes::VALUE) { auto i = m.c.vals.find(gr); if (i == m.c.vals.end() || !i->second.count(n)) { special = true; g.label("fallback"); } } if (r.kind == ParRes::NONE) { special = true; g.label("no value"); }
      checkLookup(c, m, g, grp ? &gr : nullptr, n, t, multi, "the engine");
      // with any strategy, in the metadata
      int s = (int)g.below(3); ParRes x = m.local(gr, n, s, ""); NameValuePair * nv = nullptr; bool threw = throwsUima([&] { nv = md.getNameValuePair(us(gr), us(n), (AnalysisEngineMetaData::EnSearchStrategy)s, ""); });
      CHECK(threw == (x.kind == ParRes::THROWS), "lookup of ", n, " in ", gr, " with strategy ", stratName[s], threw ? " throws" : " does not throw"); if (!threw) CHECK((nv != nullptr) == (x.kind == ParRes::VALUE), "lookup of ", n, " in ", gr, " with strategy ", stratName[s], nv ? " finds a value" : " finds no value");
      CHECK_EQ(c.isParameterDefined(us(gr), us(n)), m.c.declared(gr, n, ""), "isParameterDefined of ", n, " in ", gr);
    }
    { std::string n = g.pick(names); std::set<std::string> exp, got; for (auto & x : m.c.groups) if (m.c.declared(x.first, n, "")) exp.insert(x.first); if (m.c.common.count(n) && m.c.hasDef) exp.insert(m.c.def); for (auto & x : c.getGroupNamesForParameter(us(n))) got.insert(u8(x)); CHECK(got == exp, "getGroupNamesForParameter of ", n); }
    // a change
    std::string n = g.pick(names); bool grp = m.c.grouped && g.chance(2, 3); std::string gr = g.pick(groups); const AeParam * p = nullptr; m.c.declared(grp ? gr : m.c.grouped ? m.c.def : NO_GROUP, n, "", &p);
    PType t = p ? p->type : (PType)g.below(4); bool multi = p ? p->multi : g.flip(); if (g.chance(1, 5)) { t = (PType)g.below(4); multi = g.flip(); }
    AeVal v = genAeVal(g, t, multi); ParNode before; bool ok = m.assign(grp ? &gr : nullptr, n, v); TyErrorId e = assign(c, g, grp ? &gr : nullptr, n, v); g.note(cat("assign ", n, grp ? " in " + gr : "", " = ", showVal(v), " -> ", e, "\n"));
    CHECK((e == UIMA_ERR_NONE) == ok, "assigning ", showVal(v), " to ", n, grp ? " in group " + gr : "", ok ? " is refused with error " : " is accepted, result ", e); g.label(ok ? "assigned" : "not assigned");
  }
  g.nontrivial(special);
}

// ---- P21
struct Spot { AnnotatorContext * c; ParNode * m; std::string path; };
static void spots(AnnotatorContext & c, ParNode & m, const std::string & path, std::vector<Spot> & out) {
  out.push_back({&c, &m, path}); for (auto & k : m.kids) { AnnotatorContext * x = c.getDelegate(us(k.first)); CHECK(x, "no context of the delegate ", path, "/", k.first); spots(*x, *k.second, path + "/" + k.first, out); }
}
static Ae genTree(Gen & g, const ParNames & N, int depth, bool flat) {
  Ae a; a.name = "n"; a.primitive = depth == 0; std::vector<std::string> keys;
  if (a.primitive) a.impl = "x"; else { for (size_t n = 1 + g.below(3); n-- > 0;) { AeDel d; d.key = cat("d", keys.size()); keys.push_back(d.key); d.ae = std::make_shared<Ae>(genTree(g, N, g.chance(1, 3) ? 0 : depth - 1, flat)); a.dels.push_back(d); } a.flow = 0; a.nodes = keys; }
  do { Ae b = a; genParConf(g, N, b, keys); if (flat && (!b.groups.empty() || !b.common.empty())) continue; a = b; break; } while (!g.exhausted());
  return a;
}
PROPERTY("P21", "lookup", 20000, 300000, "a delegate has a value which its own descriptor does not give") {
  initUima(); bool flat = g.chance(1, 3); ParNames N = genParNames(g, true); Ae a = genTree(g, N, 1 + g.below(3), flat); AeFormat f; f.g = &g; f.dir = scratch(); std::string doc = aeXml(a, f); g.note(doc + "\n"); g.sample(doc);
  AnalysisEngineDescription d; parse(d, doc); ParNode m; m.load(a); if (g.flip()) { d.commit(); m.commit(); } AnnotatorContext c(&d); std::vector<Spot> all; spots(c, m, "", all); bool over = false; g.label(flat ? "no groups" : "groups");
  for (size_t round = 0, rounds = 1 + g.below(5); round < rounds; ++round) {
    for (auto & s : all) for (auto & n : N.names) { // every component, every parameter
      bool grp = g.flip(); std::string gr = g.pick(N.groups); ParRes r = grp ? s.m->find(gr, n, s.m->c.strat) : s.m->find(n), l = grp ? s.m->local(gr, n, s.m->c.strat, "") : ParRes(); if (r.kind == ParRes::VALUE && s.m->parent) { bool own = false; for (auto & x : s.m->c.vals) { auto i = x.second.find(n); if (i != x.second.end() && &i->second == r.v) own = true; } if (!own) over = true; } (void)l;
      PType t; bool multi; kindOf(g, N, r, n, t, multi); checkLookup(*s.c, *s.m, g, grp ? &gr : nullptr, n, t, multi, s.path);
    }
    Spot & s = all[g.chance(1, 3) ? 0 : g.below(all.size())]; std::string n = g.pick(N.names), gr = g.pick(N.groups); bool grp = !flat && g.chance(2, 3); auto k = N.kind[n]; AeVal v = genAeVal(g, k.first, k.second);
    bool ok = s.m->assign(grp ? &gr : nullptr, n, v); TyErrorId e = assign(*s.c, g, grp ? &gr : nullptr, n, v); g.note(cat("assign at ", s.path, " ", n, grp ? " in " + gr : "", " = ", showVal(v), " -> ", e, "\n"));
    CHECK((e == UIMA_ERR_NONE) == ok, "assigning ", n, grp ? " in group " + gr : "", " at ", s.path, ok ? " is refused with error " : " is accepted, result ", e); g.label(ok ? "assigned" : "not assigned");
  }
  g.nontrivial(over); if (over) g.label("overridden");
}
