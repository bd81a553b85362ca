#include "desc.hpp"
#include <fstream>
using namespace uima;
namespace vt {
std::string xmlEsc(const std::string & s) {
  std::string r; for (char c : s) switch (c) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&apos;"; break; case '\n': r += "&#10;"; break; case '\r': r += "&#13;"; break; case '\t': r += "&#9;"; break; default: r += c; }
  return r;
}
std::string tsBody(const MTS & ts, const std::vector<std::string> & imports) {
  std::string r;
  if (!imports.empty()) { r += "<imports>"; for (auto & i : imports) r += "<import location=\"" + xmlEsc(i) + "\"/>"; r += "</imports>\n"; }
  r += "<types>\n";
  for (auto & t : ts.types) {
    r += "<typeDescription><name>" + xmlEsc(t.name) + "</name><description/><supertypeName>" + xmlEsc(t.super) + "</supertypeName>";
    if (!t.feats.empty()) {
      r += "<features>";
      for (auto & f : t.feats) r += "<featureDescription><name>" + xmlEsc(f.name) + "</name><description/><rangeTypeName>" + xmlEsc(f.range) + "</rangeTypeName>" + (f.multi ? "<multipleReferencesAllowed>true</multipleReferencesAllowed>" : "") + "</featureDescription>";
      r += "</features>";
    }
    if (!t.allowed.empty()) { r += "<allowedValues>"; for (auto & a : t.allowed) r += "<value><string>" + xmlEsc(a) + "</string></value>"; r += "</allowedValues>"; }
    r += "</typeDescription>\n";
  }
  return r + "</types>\n";
}
std::string tsXml(const MTS & ts, const std::vector<std::string> & imports) {
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><name>ts</name><description/><version>1</version><vendor/>\n" + tsBody(ts, imports) + "</typeSystemDescription>\n";
}
void writeFile(const std::string & p, const std::string & d) { std::ofstream o(p, std::ios::binary); o << d; if (!o.flush()) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(98); } }
std::string readFile(const std::string & p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

static std::set<std::string> names(const std::vector<Type> & v, const std::string & what) {
  std::set<std::string> r; for (auto & t : v) { CHECK(t.isValid(), what); CHECK(r.insert(u8(t.getName())).second, what, ": ", u8(t.getName()), " twice"); } return r;
}
static void sameSet(const std::set<std::string> & got, const std::set<std::string> & exp, const std::string & what) {
  for (auto & x : exp) CHECK(got.count(x), what, " lacks ", x);
  for (auto & x : got) CHECK(exp.count(x), what, " lists ", x);
}
void checkTypeSystem(const MTS & ts, TypeSystem & sys, Gen * g) {
  auto all = ts.allTypeNames(); std::map<std::string, Type> T; std::vector<Type> tv; std::vector<Feature> fv;
  sys.getAllTypes(tv); sameSet(names(tv, "getAllTypes"), std::set<std::string>(all.begin(), all.end()), cat("getAllTypes"));
  std::set<std::string> featNames; std::map<std::string, std::vector<std::pair<std::string, MFeat>>> F;
  for (auto & n : all) { Type t = sys.getType(us(n)); CHECK(t.isValid(), "type ", n, " is not found"); CHECK_EQ(u8(t.getName()), n, "name of the type found"); T[n] = t; F[n] = ts.allFeats(n); for (auto & p : F[n]) featNames.insert(p.second.name); }
  CHECK_EQ(u8(sys.getTopType().getName()), std::string("uima.cas.TOP"), "top type");
  std::set<std::string> fulls; for (auto & n : all) for (auto & p : F[n]) if (p.first == n) fulls.insert(n + ":" + p.second.name);
  sys.getAllFeatures(fv); std::set<std::string> got;
  for (auto & f : fv) { Type i; f.getIntroType(i); std::string n = u8(i.getName()) + ":" + u8(f.getName()); CHECK(got.insert(n).second, "getAllFeatures lists ", n, " twice"); }
  sameSet(got, fulls, cat("getAllFeatures"));
  for (auto & n : all) {
    Type & t = T[n]; std::set<std::string> sub, dir;
    for (auto & m : all) {
      bool e = ts.subsumes(n, m); CHECK(t.subsumes(T[m]) == e, n, e ? " does not subsume " : " subsumes ", m); CHECK((t == T[m]) == (n == m) && (t != T[m]) == (n != m), "equality of ", n, " and ", m);
      if (e) sub.insert(m);
      if (ts.superOf(m) == n) dir.insert(m);
    }
    t.getSubTypes(tv); sameSet(names(tv, "getSubTypes of " + n), sub, cat("getSubTypes of ", n));
    t.getDirectSubTypes(tv); sameSet(names(tv, "getDirectSubTypes of " + n), dir, cat("getDirectSubTypes of ", n));
    const MType * mt = ts.find(n); CHECK(t.isStringSubType() == (mt && mt->strsub), "isStringSubType of ", n);
    t.getAppropriateFeatures(fv); std::set<std::string> a, b;
    for (auto & f : fv) { Type i; f.getIntroType(i); CHECK(a.insert(u8(i.getName()) + ":" + u8(f.getName())).second, "getAppropriateFeatures of ", n, " lists ", u8(f.getName()), " twice"); CHECK(t.isAppropriateFeature(f), n, " lists the feature ", u8(f.getName()), " but it is not appropriate"); }
    for (auto & p : F[n]) b.insert(p.first + ":" + p.second.name);
    sameSet(a, b, cat("getAppropriateFeatures of ", n));
    for (auto & fn : featNames) {
      const std::pair<std::string, MFeat> * e = nullptr; for (auto & p : F[n]) if (p.second.name == fn) e = &p;
      Feature f = t.getFeatureByBaseName(us(fn)), h = sys.getFeatureByFullName(us(n + ":" + fn));
      CHECK(f.isValid() == (e != nullptr), "feature ", fn, " of ", n, e ? " is not found" : " is found"); CHECK(h == f || (!h.isValid() && !f.isValid()), "full name ", n, ":", fn, " finds another feature than the base name");
      if (!e) continue;
      Type i, r; f.getIntroType(i); f.getRangeType(r); CHECK(f == Feature(f) && !(f != Feature(f)) && f != Feature(), "comparison of feature ", u8(f.getName()));
      CHECK_EQ(u8(f.getName()), fn, "feature name"); CHECK_EQ(u8(i.getName()), e->first, "introducing type of ", n, ":", fn); CHECK_EQ(u8(r.getName()), e->second.range, "range of ", n, ":", fn);
      CHECK(f.isMultipleReferencesAllowed() == e->second.multi, "multiple references flag of ", n, ":", fn);
      for (auto & m : all) if (m.size() % 3 == fn.size() % 3) { bool ap = false; for (auto & p : F[m]) if (p.first == e->first && p.second.name == fn) ap = true; CHECK(T[m].isAppropriateFeature(f) == ap, "isAppropriateFeature of ", m, " for ", e->first, ":", fn); }
    }
  }
  // names that were not declared
  for (size_t i = 0; g && i < 12; ++i) {
    std::string n = g->pick(all);
    switch (g->below(7)) { case 0: n += "x"; break; case 1: n.resize(n.size() - 1); break; case 2: n = ""; break; case 3: n = n.substr(n.rfind('.') + 1); break; case 4: n += "."; break; case 5: n[0] = toupper(n[0]); break; default: n = " " + n; }
    if (ts.known(n)) continue;
    CHECK(!sys.getType(us(n)).isValid(), "unknown type name '", n, "' is found");
    if (!featNames.empty()) { std::string f = *featNames.begin(); CHECK(!sys.getFeatureByFullName(us(n + ":" + f)).isValid(), "feature of unknown type '", n, "' is found"); }
    std::string q = g->pick(all); auto & fe = F[q];
    if (!fe.empty()) {
      std::string b = g->pick(fe).second.name; std::string m = b;
      switch (g->below(4)) { case 0: m += "x"; break; case 1: m.resize(m.size() - 1); break; case 2: m = ""; break; default: m = q + ":" + b; }
      bool known = false; for (auto & p : fe) if (p.second.name == m) known = true;
      if (!known) { CHECK(!T[q].getFeatureByBaseName(us(m)).isValid(), "unknown feature '", m, "' of ", q, " is found"); CHECK(!sys.getFeatureByFullName(us(q + ":" + m)).isValid(), "unknown feature '", q, ":", m, "' is found"); CHECK(!sys.getFeatureByFullName(us(q + b)).isValid() && !sys.getFeatureByFullName(us(b)).isValid(), "a name without separator is found"); }
    }
  }
}
}
