// P18: type systems through the type system writer and through descriptors.
#include "../core/aedesc.hpp"
#include "../core/desc.hpp"
#include "uima/casdefinition.hpp"
#include "uima/lowlevel_typesystem.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/xmltypesystemreader.hpp"
#include "uima/xmltypesystemwriter.hpp"
using namespace uima;
using namespace vt;

// an uncommitted type system with the built-in types only
struct BareDef : public uima::internal::CASDefinition { BareDef() : CASDefinition() { init(); } };

static std::string wildName(Gen & g, size_t i) {
  static const char * part[] = {"a&b", "<t>", "\"q\"", "it's", "\xc3\xa4\xc3\xb6", "\xe4\xb8\xad", "\xf0\x9d\x92\xb3", "x-y", "&amp;", "]]>", "r s", "p;q", "a/b", "r\ts", "'"};
  return std::string(part[g.below(15)]) + std::to_string(i) + (g.flip() ? part[g.below(15)] : "");
}
// renames types, features and allowed values to names the XML forms must escape
static bool makeWild(Gen & g, MTS & ts) {
  std::map<std::string, std::string> to; size_t i = 0, feat = 0; bool any = false;
  for (auto & t : ts.types) if (t.name.find("uima.") != 0 && g.flip()) { to[t.name] = wildName(g, i++); any = true; }
  auto ren = [&](std::string & s) { auto it = to.find(s); if (it != to.end()) s = it->second; };
  for (auto & t : ts.types) {
    ren(t.name); ren(t.super);
    for (auto & f : t.feats) { ren(f.range); if (f.name != "same" && f.name != "extra" && g.chance(1, 3)) { f.name = wildName(g, 100 + feat++); for (auto & c : f.name) if (c == ':') c = ';'; any = true; } }
    for (auto & a : t.allowed) if (g.flip()) { a = wildName(g, 300 + i++); any = true; }
  }
  return any;
}
// which values the string subtypes allow
static void checkAllowed(const MTS & ts, lowlevel::TypeSystem & ll) {
  for (auto & t : ts.types) if (t.strsub) {
    auto ty = ll.getTypeByName(us(t.name)); CHECK(ll.isStringSubType(ty), t.name, " is not a string subtype");
    std::set<std::string> a(t.allowed.begin(), t.allowed.end()), b; for (auto & s : ll.getStringsForStringSubtype(ty)) b.insert(u8(s));
    CHECK(a == b, "allowed values of ", t.name, " differ");
  }
}


// the written hierarchy, read without the library
static void readTree(const XNode & n, const std::string & super, std::map<std::string, MType> & out, const MTS & ts) {
  CHECK_EQ(n.name, std::string("type"), "element"); MType t; auto it = n.attrs.find("name"); CHECK(it != n.attrs.end(), "type without name"); t.name = it->second; t.super = super;
  for (auto & k : n.kids) if (k.name == "feature") { MFeat f; CHECK(k.attrs.count("name") && k.attrs.count("range"), "feature without name or range"); f.name = k.attrs.at("name"); f.range = k.attrs.at("range"); t.feats.push_back(f); }
  CHECK(out.emplace(t.name, t).second, "type ", t.name, " is written twice");
  for (auto & k : n.kids) if (k.name == "type") readTree(k, t.name, out, ts);
}
static void checkDoc(const MTS & ts, std::string doc) {
  size_t b = doc.find("<!DOCTYPE"), e = doc.find("]>"); CHECK(b != std::string::npos && e != std::string::npos, "no document type"); doc = doc.substr(0, b) + doc.substr(e + 2);
  XNode r = readXml(doc); CHECK_EQ(r.name, std::string("type_system"), "root"); CHECK_EQ(r.kids.size(), size_t(1), "top types"); std::map<std::string, MType> got; readTree(r.kids[0], "", got, ts);
  auto all = ts.allTypeNames(); CHECK_EQ(got.size(), all.size(), "number of types written");
  for (auto & n : all) {
    auto it = got.find(n); CHECK(it != got.end(), "type ", n, " is not written"); CHECK_EQ(it->second.super, ts.superOf(n), "parent of ", n);
    std::set<std::string> a, c; for (auto & p : ts.allFeats(n)) if (p.first == n) a.insert(p.second.name + " : " + p.second.range); for (auto & f : it->second.feats) c.insert(f.name + " : " + f.range);
    CHECK(a == c, "features written for ", n, " differ");
  }
}

PROPERTY("P18", "writer", 1500, 40000, "at least two types and a feature with multiple references, a string subtype or a name that needs escaping") {
  initUima(); TSOpts o; o.maxTypes = 12; MTS ts = genTS(g, o); bool wild = g.flip() && makeWild(g, ts); if (wild) g.label("wild names");
  bool multi = false, sub = false; for (auto & t : ts.types) { sub |= t.strsub; for (auto & f : t.feats) multi |= f.multi; }
  g.note(ts.describe()); g.nontrivial(ts.types.size() > 1 && (multi || sub || wild)); g.sample(ts.describe().substr(0, 300));
  TSHolder h; h.ts = buildTS(ts, &g); std::unique_ptr<CAS> cas(makeCAS(*h.ts)->getBaseCas());
  std::ostringstream os; { XMLTypeSystemWriter w(*cas); w.write(os); } std::string doc = os.str(); g.note("written: " + doc + "\n");
  checkDoc(ts, doc);
  BareDef d; XMLTypeSystemReader r(d.getTypeSystem());
  try {
    switch (g.below(4)) {
      case 0: r.readMemory(doc.c_str(), us("vt")); break;
      case 1: r.readMemory(us(doc), us("vt")); break;
      default: { std::string fn = scratch() + "/ts.xml"; writeFile(fn, doc); if (g.flip()) r.readFile(fn.c_str(), us("vt")); else r.readFile(us(fn), us("vt")); }
    }
  } catch (Exception & e) { fail(cat("a written type system is refused: ", excText(e))); }
  if (g.chance(1, 4)) { g.label("read twice"); try { r.readMemory(doc.c_str(), us("vt")); } catch (Exception & e) { fail(cat("reading it again over itself is refused: ", excText(e))); } }
  d.commit(); checkTypeSystem(ts, d.getTypeSystem(), &g); checkAllowed(ts, d.getTypeSystem());
  // the type system read is written as the same document
  ErrorInfo ei; std::unique_ptr<CAS> c2(Framework::createCAS(d, ei)); CHECK(c2.get(), "no CAS for the type system read"); c2.release();
}
PROPERTY("P18", "descriptor", 2500, 60000, "at least two types and a feature with multiple references, a string subtype or a name that needs escaping") {
  initUima(); TSOpts o; o.maxTypes = 12; MTS ts = genTS(g, o); bool wild = g.flip() && makeWild(g, ts); if (wild) g.label("wild names");
  ResourceManager::getInstance().enableSchemaValidation(!wild && g.flip());
  bool multi = false, sub = false; for (auto & t : ts.types) { sub |= t.strsub; for (auto & f : t.feats) multi |= f.multi; }
  g.note(ts.describe()); g.nontrivial(ts.types.size() > 1 && (multi || sub || wild)); g.sample(ts.describe().substr(0, 300));
  AnalysisEngineDescription ae; ae.setXmlRootTag(us("taeDescription")); ae.setFrameworkImplName(AnalysisEngineDescription::CPLUSPLUS); ae.setPrimitive(true); ae.setAnnotatorImpName(us("none"));
  AnalysisEngineMetaData * md = new AnalysisEngineMetaData(); ae.setAnalysisEngineMetaData(md); md->setName(us("m"));
  TypeSystemDescription * td = new TypeSystemDescription(); fillTSDesc(ts, *td); md->setTypeSystemDescription(td);
  US s; ae.toXMLBuffer(s); std::string doc = u8(s); g.note("printed: " + doc + "\n"); XNode root = readXml(doc);
  try {
    TextAnalysisEngineSpecifierBuilder b; std::unique_ptr<TypeSystem> got; ErrorInfo ei;
    switch (g.below(wild ? 2 : 3)) {      // documents of type systems alone are always validated
      case 0: { AnalysisEngineDescription e; b.buildTaeFromMemory(e, doc.c_str()); got.reset(Framework::createTypeSystem(*e.getAnalysisEngineMetaData(), ei)); break; }
      case 1: { std::string fn = scratch() + "/ae.xml"; writeFile(fn, doc); AnalysisEngineDescription e; b.parseAnalysisEngineDescription(e, fn.c_str()); got.reset(Framework::createTypeSystem(*e.getAnalysisEngineMetaData()->getTypeSystemDescription(), us("vt"), ei)); break; }
      default: {       // the embedded type system description alone
        size_t p = doc.find("<typeSystemDescription"), q = doc.find("</typeSystemDescription>"); CHECK(p != std::string::npos && q != std::string::npos, "no type system in the descriptor"); std::string d = doc.substr(p, q + 24 - p);
        if (d.compare(0, 23, "<typeSystemDescription>") == 0) d = "<typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\">" + d.substr(23);
        got.reset(Framework::createTypeSystemFromXMLBuffer(d.c_str(), ei));
      }
    }
    CHECK(got.get(), "a printed type system is refused: ", ei.asString()); checkTypeSystem(ts, *got, &g); checkAllowed(ts, lowlevel::TypeSystem::promoteTypeSystem(*got));
  } catch (Exception & e) { fail(cat("a printed type system is refused: ", excText(e))); }
}

// the graph of a type system in the dot language
#include "uima/dottypesystemwriter.hpp"
namespace {
struct Dot {
  std::map<std::string, std::string> labels; std::set<std::pair<std::string, std::string>> edges; size_t edgeCount = 0; const std::string & s; size_t p = 0; std::string tok; bool quoted = false;
  Dot(const std::string & d) : s(d) {}
  [[noreturn]] void bad(const std::string & w) { fail(cat("not a graph in the dot language: ", w, " at ", p, " near '", s.substr(p > 30 ? p - 30 : 0, 60), "'")); }
  void next() {
    quoted = false; tok.clear();
    for (;;) { while (p < s.size() && isspace((unsigned char)s[p])) ++p; if (s.compare(p, 2, "/*") == 0) { size_t e = s.find("*/", p + 2); if (e == std::string::npos) bad("comment"); p = e + 2; } else break; }
    if (p >= s.size()) return;
    unsigned char c = s[p];
    if (c == '"') { quoted = true; for (++p;; ++p) { if (p >= s.size()) bad("string without end"); if (s[p] == '"') break; if (s[p] == '\\' && p + 1 < s.size()) { tok += s[p++]; } tok += s[p]; } ++p; return; }
    if (isalpha(c) || c == '_' || c >= 0x80) { while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || (unsigned char)s[p] >= 0x80)) tok += s[p++]; return; }
    if (isdigit(c) || c == '.') { while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.')) tok += s[p++]; return; }
    if (s.compare(p, 2, "->") == 0) { tok = "->"; p += 2; return; }
    tok = std::string(1, s[p++]); if (std::string("{}[];=,").find(tok) == std::string::npos) bad("character");
  }
  bool is(const char * t) { return !quoted && tok == t; }
  std::string id() { if (!quoted && (tok.empty() || std::string("{}[];=,->").find(tok) != std::string::npos)) bad("a name is missing"); std::string r = tok; if (quoted) { r.clear(); for (size_t i = 0; i < tok.size(); ++i) { if (tok[i] == '\\' && i + 1 < tok.size() && (tok[i + 1] == '"' || tok[i + 1] == '\\')) ++i; r += tok[i]; } } next(); return r; }
  void attrs(std::map<std::string, std::string> & a) { while (is("[")) { next(); while (!is("]")) { std::string k = tok; next(); if (!is("=")) bad("= is missing"); next(); a[k] = tok; if (tok.empty() && !quoted) bad("no value"); next(); if (is(",") || is(";")) next(); } next(); } }
  void run() {
    next(); if (!is("digraph")) bad("digraph"); next(); id(); if (!is("{")) bad("{"); next();
    while (!is("}")) {
      if (tok.empty() && !quoted) bad("no end"); if (is(";")) { next(); continue; }
      std::map<std::string, std::string> a; if (is("graph") || is("node") || is("edge")) { next(); attrs(a); continue; }
      std::string n = id(); if (is("=")) { next(); id(); continue; }
      if (is("->")) { next(); if (is("{")) { next(); while (!is("}")) { if (is(";")) { next(); continue; } std::string t = id(); edges.insert({n, t}); ++edgeCount; } next(); } else { std::string t = id(); edges.insert({n, t}); ++edgeCount; } continue; }
      attrs(a); CHECK(a.count("label"), "node ", n, " has no label"); CHECK(labels.emplace(n, a["label"]).second, "node ", n, " is written twice");
    }
    next(); if (!tok.empty()) bad("text after the graph");
  }
};
// a record label: its fields, a field in braces as one
std::vector<std::string> recordFields(const std::string & l) {
  std::vector<std::string> r(1); int depth = 0; for (size_t i = 0; i < l.size(); ++i) { char c = l[i]; if (c == '\\' && i + 1 < l.size()) { r.back() += l[++i]; continue; } if (c == '{') { ++depth; continue; } if (c == '}') { CHECK(depth > 0, "braces of the label ", l); --depth; continue; } CHECK(c != '<' && c != '>', "a port in the label ", l); if (c == '|' && !depth) { r.emplace_back(); continue; } CHECK(c != '|', "fields in braces of the label ", l); r.back() += c; }
  CHECK(depth == 0, "braces of the label ", l); return r;
}
}
PROPERTY("P18", "graph", 2500, 60000, "a name that needs quotes, and types left out that have subtypes") {
  initUima(); TSOpts o; o.maxTypes = 10; MTS ts = genTS(g, o); bool wild = g.flip() && makeWild(g, ts); if (wild) g.label("wild names");
  std::set<std::string> taken; for (auto & t : ts.types) taken.insert(t.name); size_t more = g.below(6);
  for (size_t i = 0; i < more; ++i) { MType t; t.name = g.one<const char *>({"u", "uima", "uim", "uimax.T", "cas.TOP", "uima.cas.Mine", "uima.tcas.Mine", "uima.own", "a{b}", "a|b", "a b", "a\\", "\\\"", "<f>", "->", "digraph"}); if (!taken.insert(t.name).second) continue; std::vector<std::string> sup{"uima.cas.TOP", "uima.tcas.Annotation"}; for (auto & x : ts.types) if (!x.strsub && x.name != "uima.tcas.DocumentAnnotation") sup.push_back(x.name); t.super = g.pick(sup); ts.types.push_back(t); }
  TSHolder h; h.ts = buildTS(ts); std::unique_ptr<CAS> cas(makeCAS(*h.ts)->getBaseCas()); bool noCas = g.flip(), onlyCas = !noCas && g.flip(); g.label(noCas ? "own types" : onlyCas ? "CAS types" : "all types"); g.note(ts.describe());
  std::ostringstream os; { DotTypeSystemWriter w(*cas, noCas, onlyCas); w.write(os); } std::string doc = os.str(); g.note(doc); g.sample(ts.describe().substr(0, 300)); Dot d(doc); d.run();
  auto isCas = [](const std::string & n) { return n.compare(0, 9, "uima.cas.") == 0 || n.compare(0, 10, "uima.tcas.") == 0; }; auto shown = [&](const std::string & n) { return isCas(n) ? !noCas : !onlyCas; };
  auto shortName = [](const std::string & n) { return n.compare(0, 5, "uima.") ? n : n.substr(5); }; std::map<std::string, std::string> byId; bool quotes = false, left = false; size_t edges = 0;
  for (auto & n : ts.allTypeNames()) {
    if (!shown(n)) { CHECK(!d.labels.count(n), "type ", n, " is in the graph"); for (auto & m : ts.allTypeNames()) left = left || (ts.superOf(m) == n && shown(m)); continue; }
    CHECK(d.labels.count(n) || d.labels.count(shortName(n)), "type ", n, " is not in the graph"); std::string id = d.labels.count(n) ? n : shortName(n); CHECK(byId.emplace(id, n).second, "two types share the node ", id); for (char c : n) quotes = quotes || !(isalnum((unsigned char)c) || c == '_' || c == '.');
    auto f = recordFields(d.labels[id]); CHECK(f[0] == n || f[0] == shortName(n), "label ", d.labels[id], " of type ", n); std::multiset<std::string> got(f.begin() + 1, f.end()), exp; size_t cnt = 0;
    for (auto & p : ts.allFeats(n)) if (p.first == n) { ++cnt; std::string a = p.second.name + ": " + shortName(p.second.range), b = p.second.name + ": " + p.second.range; CHECK(got.count(a) || got.count(b), "feature ", a, " is not in the label ", d.labels[id]); } CHECK_EQ(got.size(), cnt, "features in the label ", d.labels[id], " of ", n);
  }
  CHECK_EQ(d.labels.size(), byId.size(), "nodes of the graph");
  for (auto & e : d.edges) { CHECK(byId.count(e.first) && byId.count(e.second), "an edge from ", e.first, " to ", e.second, " between other nodes"); CHECK_EQ(ts.superOf(byId[e.second]), byId[e.first], "an edge to ", e.second); }
  for (auto & b : byId) if (!ts.superOf(b.second).empty() && shown(ts.superOf(b.second))) ++edges; CHECK_EQ(d.edges.size(), edges, "edges of the graph"); CHECK_EQ(d.edgeCount, edges, "edges written");
  g.nontrivial(quotes && left);
}
