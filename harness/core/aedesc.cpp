#include "aedesc.hpp"
#include <cmath>
using namespace uima;
namespace vt {
// ------------------------------------------------------------ XML reader
namespace {
struct XR {
  const std::string & s; size_t p = 0; int depth = 0;
  [[noreturn]] void bad(const std::string & m) { fail(cat("not well-formed XML: ", m, " at ", p, ": ...", s.substr(p > 60 ? p - 60 : 0, 120))); }
  bool at(const char * t) const { return s.compare(p, strlen(t), t) == 0; }
  static bool nameCh(unsigned char c) { return isalnum(c) || c == '_' || c == ':' || c == '-' || c == '.' || c >= 0x80; }
  std::string name() { size_t b = p; while (p < s.size() && nameCh(s[p])) ++p; if (b == p || isdigit((unsigned char)s[b]) || s[b] == '-' || s[b] == '.') bad("name"); return s.substr(b, p - b); }
  void ws() { while (p < s.size() && strchr(" \t\r\n", s[p])) ++p; }
  void ch(std::string & o) {                 // one character of data
    unsigned char c = s[p];
    if (c == '&') {
      size_t e = s.find(';', p); if (e == std::string::npos || e - p > 12) bad("reference");
      std::string n = s.substr(p + 1, e - p - 1); p = e + 1;
      if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
      else if (n.size() > 1 && n[0] == '#') { char * x; unsigned long v = n[1] == 'x' ? strtoul(n.c_str() + 2, &x, 16) : strtoul(n.c_str() + 1, &x, 10); if (*x || (v < 0x20 && v != 9 && v != 10 && v != 13) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000) || v == 0xfffe || v == 0xffff) bad("character reference"); US u; u.append((UChar32)v); o += u8(u); }
      else bad("entity");
      return;
    }
    if (c < 0x20 && c != 9 && c != 10 && c != 13) bad("control character");
    o += (char)c; ++p;
  }
  void skipMisc() { for (;;) { ws(); if (at("<!--")) { p = s.find("-->", p); if (p == std::string::npos) bad("comment"); p += 3; } else if (at("<?")) { p = s.find("?>", p); if (p == std::string::npos) bad("pi"); p += 2; } else return; } }
  XNode elem() {
    if (++depth > 200) bad("depth");
    if (p >= s.size() || s[p] != '<') bad("element"); ++p; XNode n; n.name = name();
    for (;;) {
      size_t b = p; ws(); if (at("/>")) { p += 2; --depth; return n; } if (at(">")) { ++p; break; }
      if (b == p) bad("attribute"); std::string a = name(); ws(); if (!at("=")) bad("="); ++p; ws(); char q = s[p]; if (q != '"' && q != '\'') bad("quote"); ++p;
      std::string v; while (p < s.size() && s[p] != q) { if (s[p] == '<') bad("< in attribute"); if (strchr("\t\r\n", s[p])) { v += ' '; ++p; } else ch(v); } if (p >= s.size()) bad("attribute value"); ++p;
      if (!n.attrs.emplace(a, v).second) bad("attribute twice");
    }
    for (;;) {
      if (p >= s.size()) bad("end");
      if (at("</")) { p += 2; if (name() != n.name) bad("end tag"); ws(); if (!at(">")) bad("end tag"); ++p; --depth; return n; }
      if (at("<!--")) { size_t e = s.find("--", p + 4); if (e == std::string::npos || s.compare(e, 3, "-->")) bad("comment"); p = e + 3; }
      else if (at("<![CDATA[")) { size_t e = s.find("]]>", p); if (e == std::string::npos) bad("CDATA"); for (p += 9; p < e; ++p) { unsigned char c = s[p]; if (c < 0x20 && c != 9 && c != 10 && c != 13) bad("control character"); if (c == 13 && s[p + 1] == 10) continue; n.text += c == 13 ? '\n' : (char)c; } p = e + 3; }
      else if (at("<?")) { p = s.find("?>", p); if (p == std::string::npos) bad("pi"); p += 2; }
      else if (s[p] == '<') n.kids.push_back(elem());
      else { if (at("]]>")) bad("]]>"); if (at("\r\n")) ++p; if (s[p] == '\r') { n.text += '\n'; ++p; } else ch(n.text); }
    }
  }
};
}
XNode readXml(const std::string & d) {
  XR r{d}; if (r.at("\xef\xbb\xbf")) r.p = 3; if (r.at("<?xml")) { r.p = d.find("?>"); if (r.p == std::string::npos) r.bad("declaration"); r.p += 2; }
  { US u = us(d); if (u8(u) != d) r.bad("not UTF-8"); for (int32_t i = 0; i < u.length(); i = u.moveIndex32(i, 1)) { UChar32 c = u.char32At(i); if (c == 0xfffe || c == 0xffff || (c >= 0xd800 && c < 0xe000)) r.bad("character not allowed in XML"); } }
  r.skipMisc(); XNode n = r.elem(); r.skipMisc(); if (r.p != d.size()) r.bad("data after the document"); return n;
}
static std::string trim(const std::string & s) { US u = us(s); u.trim(); return u8(u); }

// ------------------------------------------------------------ generator
PType ptypeOf(const std::string & n) { if (n == "String" || n == "string") return PT_STRING; if (n == "Integer" || n == "integer") return PT_INT; if (n == "Float" || n == "float") return PT_FLOAT; if (n == "Boolean" || n == "boolean") return PT_BOOL; fail(cat("unknown parameter type '", n, "'")); }
static const char * PT_DECL[] = {"String", "Integer", "Float", "Boolean"};
static const char * PT_VAL[] = {"string", "integer", "float", "boolean"};
std::string genParamText(Gen & g) { return trim(u8(genText(g, g.chance(1, 30) ? 700 : 12))); }
static std::string wildName(Gen & g, const AeOpts & o, const char * p, size_t i) {
  if (!o.wild || g.chance(2, 3)) return cat(p, i);
  static const char * w[] = {"&", "<", ">", "\"", "'", "]]>", "-", ".", "_", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "&amp;", "%20", "/", ":", "$", "="};
  static const char * nw[] = {"-", ".", "_", "\xc3\xa9", "\xe4\xb8\xad", ":"};
  std::string s = cat(p, i); if (o.schema) { for (size_t k = 1 + g.below(3); k-- > 0;) s += nw[g.below(6)]; return s; }
  for (size_t k = 1 + g.below(3); k-- > 0;) { std::string x = w[g.below(sizeof w / sizeof *w)]; if (g.flip()) s += x; else s = x + s; }
  if (g.chance(1, 40)) s += std::string(600, 'n');
  return s;
}
AeVal genAeVal(Gen & g, PType t, bool multi) {
  AeVal v; v.type = t; v.multi = multi;
  for (size_t n = multi ? g.below(4) : 1; n-- > 0;) {
    char b[64];
    switch (t) {
      case PT_STRING: v.v.push_back(genParamText(g)); break;
      case PT_INT: v.v.push_back(std::to_string(genInt(g))); break;
      case PT_FLOAT: snprintf(b, sizeof b, "%.9g", genFloat(g)); v.v.push_back(b); break;
      case PT_BOOL: v.v.push_back(g.flip() ? "true" : "false"); break;
    }
  }
  return v;
}
static std::vector<AeParam> genParams(Gen & g, const AeOpts & o, size_t max, std::set<std::string> & used, const std::vector<AeDel> & dels) {
  std::vector<AeParam> r;
  for (size_t n = g.below(max + 1); r.size() < n;) {
    AeParam p; p.name = wildName(g, o, "par", g.below(8)); if (!used.insert(p.name).second) { --n; continue; }
    if (g.flip()) p.desc = genParamText(g);
    p.type = (PType)g.below(4); p.multi = g.chance(1, 3); p.mandatory = g.chance(1, 3);
    if (!dels.empty() && !o.schema && g.chance(1, 3)) for (auto & d : dels) if (g.flip() && d.key.find(' ') == std::string::npos) p.restrict_.push_back(d.key);
    r.push_back(p);
  }
  return r;
}
Ae genAe(Gen & g, const AeOpts & o) {
  Ae a; a.primitive = o.depth == 0 || g.chance(2, 5); a.root = a.primitive ? (int)g.weighted({6, 2, 2}) : (int)g.weighted({6, 2});
  a.fw = o.schema || g.chance(4, 5); a.java = a.fw && o.java && g.chance(1, 4);
  if (a.primitive) a.impl = o.wild ? wildName(g, o, "impl", 0) : "impl";
  a.name = g.chance(1, 10) ? "" : genParamText(g); if (g.flip()) a.desc = genParamText(g); if (g.flip()) a.version = g.flip() ? "1.0" : genParamText(g); if (g.flip()) a.vendor = genParamText(g);
  if (!a.primitive) {
    std::set<std::string> keys;
    for (size_t n = g.weighted({1, 3, 4, 2, 1}); n-- > 0;) {
      AeDel d; d.key = wildName(g, o, "del", g.below(5)); if (!keys.insert(d.key).second) continue;
      AeOpts q = o; q.depth = o.depth - 1; d.ae = std::make_shared<Ae>(genAe(g, q)); d.import = o.imports && g.chance(1, 3); if (o.schema && d.ae->root == 2) { d.import = true; if (!o.imports) continue; } a.dels.push_back(d);
    }
    a.flow = g.below(2); for (size_t n = g.below(5); n-- > 0 && !a.dels.empty();) a.nodes.push_back(g.pick(a.dels).key);
    for (size_t n = g.below(4); n-- > 0 && !a.dels.empty();) { AeMap m; m.key = g.pick(a.dels).key; m.noComp = g.chance(1, 4); if (!m.noComp) m.comp = wildName(g, o, "sofa", g.below(3)); m.agg = wildName(g, o, "sofa", g.below(3)); a.maps.push_back(m); }
  }
  // parameters and settings
  a.paramElem = g.chance(3, 4);
  if (a.paramElem) {
    std::set<std::string> used;
    if (g.flip()) a.plain = genParams(g, o, 4, used, a.dels);
    else {
      a.common = genParams(g, o, 2, used, a.dels); std::set<std::string> gn; static const char * langs[] = {"en", "en-US", "en-US-x", "de", "x-unspecified", "zh-TW"};
      for (size_t n = 1 + g.below(3); n-- > 0;) {
        AeGroup gr; for (size_t m = 1 + g.below(2); m-- > 0;) { std::string x = g.flip() ? std::string(langs[g.below(6)]) : wildName(g, o, "grp", g.below(4)); if (gn.insert(x).second) gr.names.push_back(x); }
        if (gr.names.empty()) continue;
        std::set<std::string> u = used; gr.params = genParams(g, o, 3, u, a.dels); a.groups.push_back(gr);
      }
      bool grouped = !a.common.empty() || !a.groups.empty();
      if (grouped && g.chance(2, 3) && !gn.empty()) { std::vector<std::string> v(gn.begin(), gn.end()); a.defGroup = g.pick(v); }
    }
    if (g.flip()) a.strategy = (int)g.below(3);
  }
  a.setElem = a.paramElem && g.chance(4, 5);
  if (a.setElem) {
    for (auto & p : a.plain) if (p.mandatory || g.chance(2, 3)) a.sets.push_back({p.name, genAeVal(g, p.type, p.multi)});
    for (auto & gr : a.groups) {
      bool together = g.flip(); std::vector<std::vector<std::string>> parts; if (together) parts.push_back(gr.names); else for (auto & n : gr.names) parts.push_back({n});
      for (auto & pn : parts) {
        AeSetGroup sg; sg.names = pn; for (auto * l : {&gr.params, &a.common}) for (auto & p : *l) if (p.mandatory || g.chance(2, 3)) sg.sets.push_back({p.name, genAeVal(g, p.type, p.multi)});
        a.gsets.push_back(sg);
      }
    }
  }
  // type system, priorities, indexes
  a.tsElem = g.chance(2, 3);
  if (a.tsElem) { TSOpts t; t.maxTypes = 3; t.maxFeats = 3; a.ts = genTS(g, t); for (auto & t : a.ts.types) { if (g.chance(1, 4)) t.desc = genParamText(g); for (auto & f : t.feats) { if (g.chance(1, 5)) f.desc = genParamText(g); if (f.range == "uima.cas.FSArray" && g.flip()) f.elem = "uima.cas.TOP"; } } }
  int tf = o.imports && g.chance(1, 3) ? 1 + (int)g.below(2) : 0; for (size_t i = 0; i < a.ts.types.size(); ++i) a.tsFile.push_back(tf ? (int)g.below(tf + 1) : 0);
  auto types = a.ts.allTypeNames();
  int pf = o.imports && g.chance(1, 5) ? 2 : 0;
  if (g.flip()) for (size_t n = g.below(3); n-- > 0;) { std::vector<std::string> l; for (size_t m = g.below(4); m-- > 0;) l.push_back(g.pick(types)); a.prios.push_back(l); a.prioFile.push_back(pf ? (int)g.below(pf + 1) : 0); }
  int xf = o.imports && g.chance(1, 5) ? 2 : 0; a.ixElem = g.chance(2, 3);
  if (a.ixElem) for (size_t n = g.below(4); n-- > 0;) {
    MIndex x; x.label = wildName(g, o, "ix", a.ixs.size()); x.type = g.pick(types); x.kind = (decltype(x.kind))g.below(3);
    auto fs = a.ts.allFeats(x.type); for (size_t m = g.below(3); m-- > 0;) { MKey k; k.typePrio = fs.empty() || g.chance(1, 4); if (!k.typePrio) { k.feat = g.pick(fs).second.name; k.desc = g.flip(); } x.keys.push_back(k); }
    a.ixs.push_back(x); a.ixFile.push_back(xf ? (int)g.below(xf + 1) : 0);
  }
  // capabilities
  a.capElem = g.chance(2, 3);
  if (a.capElem) for (size_t n = 1 + g.below(2); n-- > 0;) {
    AeCap c;
    for (auto * l : {&c.in, &c.out}) for (size_t m = g.below(4); m-- > 0;) { AeCap::TF t; t.name = g.pick(types); auto fs = a.ts.allFeats(t.name); if (!fs.empty() && g.flip()) { t.feat = true; t.name += ":" + g.pick(fs).second.name; } else t.all = g.flip(); l->push_back(t); }
    for (auto * l : {&c.inSofas, &c.outSofas}) for (size_t m = g.below(3); m-- > 0;) l->push_back(wildName(g, o, "sofa", g.below(4)));
    static const char * langs[] = {"en", "en-US", "de", "x-unspecified", "zh-tw", "\xc3\xa9&"}; for (size_t m = g.below(3); m-- > 0;) c.langs.push_back(langs[g.below(6)]);
    a.caps.push_back(c);
  }
  if ((a.ops = g.flip())) { a.modifies = g.below(2); a.multiple = g.below(2); a.outputs = g.below(2); }
  return a;
}

// ------------------------------------------------------------ writer
namespace {
struct W {
  AeFormat & f; bool schema; std::string o;
  bool ch(unsigned n, unsigned d) { return f.g && f.g->chance(n, d); }
  void gap() { if (!f.g) { o += "\n"; return; } switch (f.g->weighted({6, 2, 1, 1})) { case 0: break; case 1: o += "\n  "; break; case 2: o += "<!-- a <b> & comment -->"; break; default: o += "\t<?pi x?>\r\n"; } }
  std::string esc(const std::string & s) {
    std::string r; for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = s[i];
      if (c < 0x80 && isalnum(c) && ch(1, 60)) { r += cat("&#", (int)c, ";"); continue; }
      if (c == '>' && i && s[i - 1] != ']' && ch(1, 2)) { r += '>'; continue; }
      r += xmlEsc(std::string(1, (char)c));
    } return r;
  }
  std::string text(const std::string & s, bool env = false, bool pads = true) {
    std::string r; if (!f.g) return esc(s);
    if (!schema) env = true;
    const char * pad[] = {"", "", "", " ", "\n\t ", " \r\n"}; if (pads) r += pad[f.g->below(6)];
    size_t cut = 0; US u = us(s); if (ch(1, 4) && u.length()) cut = u.getChar32Start(1 + f.g->below(u.length()));
    US a, b; u.extract(0, cut, a); u.extract(cut, u.length() - cut, b);
    for (int k = 0; k < 2; ++k) {
      std::string p = u8(k ? b : a); if (k && cut) switch (f.g->below(4)) { case 0: r += "<!--c-->"; break; case 1: r += "<?p i?>"; break; case 2: r += "<!-- -->"; break; default: break; }
      if (p.empty()) continue;
      if (p.find("]]>") == std::string::npos && p.find('\r') == std::string::npos && ch(1, 6)) r += "<![CDATA[" + p + "]]>";
      else if (env && ch(1, 25)) { std::string n = cat("VT_ENV_", f.env.size()); f.env.insert(n); setenv(n.c_str(), p.c_str(), 1); r += "<envVarRef>" + n + "</envVarRef>"; }
      else r += esc(p);
    }
    return pads ? r + pad[f.g->below(6)] : r;
  }
  void el(const char * n, const std::string & t, bool env = false, bool pads = true) { o += cat("<", n); if (t.empty() && ch(1, 2)) { o += "/>"; gap(); return; } o += ">" + text(t, env, pads) + "</" + n + ">"; gap(); }
  void word(const char * n, const std::string & t) { el(n, t, false, !schema); }      // one of an enumeration
  void opt(const char * n, const std::string & t) { if (t.empty() && ch(1, 2)) return; el(n, t); }
  std::string attr(const char * n, const std::string & v) { return ch(1, 4) ? cat(" ", n, " = '", esc(v), "'") : cat(" ", n, "=\"", esc(v), "\""); }
  void open(const char * n, const std::string & at = "") { o += cat("<", n, at, ">"); gap(); }
  void close(const char * n) { o += cat("</", n, ">"); gap(); }
  std::string words(const std::vector<std::string> & v) { std::string r; for (auto & x : v) { if (!r.empty()) r += ch(1, 5) ? "  " : " "; r += x; } return r; }
  void params(const std::vector<AeParam> & ps) {
    for (auto & p : ps) {
      open("configurationParameter"); el("name", p.name); opt("description", p.desc); word("type", PT_DECL[p.type]);
      if (p.multi || !ch(1, 2)) el("multiValued", boolean(p.multi));
      if (p.mandatory || !ch(1, 2)) el("mandatory", boolean(p.mandatory));
      if (!p.restrict_.empty()) el("restrictOverrideTo", words(p.restrict_));
      close("configurationParameter");
    }
  }
  void value(PType t, const std::string & v) { el(PT_VAL[t], t != PT_BOOL ? v : boolean(v == "true"), t == PT_STRING); }
  void settings(const std::vector<AeSetting> & ss) {
    for (auto & s : ss) {
      open("nameValuePair"); el("name", s.name); open("value");
      if (s.val.multi) { if (s.val.v.empty() && ch(1, 2)) o += "<array/>"; else { open("array"); for (auto & v : s.val.v) value(s.val.type, v); close("array"); } } else value(s.val.type, s.val.v[0]);
      close("value"); close("nameValuePair");
    }
  }
  void typeSys(const MTS & ts, const std::vector<int> & file, int only) {
    open("types");
    for (size_t i = 0; i < ts.types.size(); ++i) {
      if (file[i] != only) continue;
      auto & t = ts.types[i]; open("typeDescription"); el("name", t.name); opt("description", t.desc); el("supertypeName", t.super);
      if (!t.feats.empty()) { open("features"); for (auto & x : t.feats) { open("featureDescription"); el("name", x.name); opt("description", x.desc); el("rangeTypeName", x.range); if (!x.elem.empty()) el("elementType", x.elem); if (x.multi) el("multipleReferencesAllowed", boolean(true)); close("featureDescription"); } close("features"); }
      if (!t.allowed.empty()) { open("allowedValues"); for (auto & v : t.allowed) { open("value"); el("string", v); close("value"); } close("allowedValues"); }
      close("typeDescription");
    }
    close("types");
  }
  std::string boolean(bool b) { return ch(1, 8) ? (b ? "1" : "0") : b ? "true" : "false"; }
  void prioLists(const Ae & a, int only) { bool wrap = ch(1, 4); if (wrap) open("priorityLists"); for (size_t i = 0; i < a.prios.size(); ++i) if (a.prioFile[i] == only) { open("priorityList"); for (auto & t : a.prios[i]) el("type", t); close("priorityList"); } if (wrap) close("priorityLists"); }
  void indexes(const Ae & a, int only, bool direct = false) {
    if (!direct) open("fsIndexes");
    for (size_t i = 0; i < a.ixs.size(); ++i) {
      if (a.ixFile[i] != only) continue; auto & x = a.ixs[i];
      open("fsIndexDescription"); el("label", x.label); el("typeName", x.type); static const char * K[] = {"sorted", "set", "bag"}; word("kind", K[x.kind]);
      if (!x.keys.empty() || ch(1, 3)) { open("keys"); for (auto & k : x.keys) { open("fsIndexKey"); if (k.typePrio) o += "<typePriority/>"; else { el("featureName", k.feat); word("comparator", k.desc ? "reverse" : "standard"); } close("fsIndexKey"); } close("keys"); }
      close("fsIndexDescription");
    }
    if (!direct) close("fsIndexes");
  }
};
const char * NS = "http://uima.apache.org/resourceSpecifier", * ROOT[] = {"analysisEngineDescription", "taeDescription", "casConsumerDescription"};
}
static bool anyFile(const std::vector<int> & v) { for (int x : v) if (x) return true; return false; }
std::string aeXml(const Ae & a, AeFormat & f, bool header) {
  W w{f, f.schema}; if (header) { w.o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; w.gap(); if (w.ch(1, 3)) w.o += "\n<!-- licence & co -->\n"; }
  // file k imports file k + 1, so all of them are reached from the first
  auto files = [&](const char * kind, const std::vector<int> & used, auto body) {
    std::string first; int n = 0; for (int x : used) n = std::max(n, x); if (!n) return first;
    std::string next; for (int k = n; k >= 1; --k) { std::string fn = cat(kind, f.files++, ".xml"); W v{f, f.schema || *kind == 't'};   // type system files are always validated
      v.o = "<?xml version=\"1.0\"?>"; body(v, k, next); writeFile(f.dir + "/" + fn, v.o); next = fn; }
    return next;
  };
  auto imp = [&](W & v, const std::string & loc) { if (loc.empty()) return; v.open("imports"); v.o += "<import" + v.attr("location", loc) + "/>"; v.close("imports"); };
  std::string nsAttr = cat(" xmlns=\"", NS, "\"");
  w.o += cat("<", ROOT[a.root], nsAttr, ">"); w.gap();
  if (a.fw) w.el("frameworkImplementation", a.java ? "org.apache.uima.java" : "org.apache.uima.cpp");
  if (a.root != 2) w.el("primitive", w.boolean(a.primitive));
  if (a.primitive) w.el(a.root == 2 || (!f.schema && w.ch(1, 6)) ? "implementationName" : "annotatorImplementationName", a.impl, true);
  else {
    w.open("delegateAnalysisEngineSpecifiers");
    for (auto & d : a.dels) {
      w.o += "<delegateAnalysisEngine" + w.attr("key", d.key) + ">"; w.gap();
      if (d.import) { std::string fn = d.file.empty() ? cat("del", f.files++, ".xml") : d.file; writeFile(f.dir + "/" + fn, aeXml(*d.ae, f, true)); w.o += "<import" + w.attr("location", fn) + "/>"; } else w.o += aeXml(*d.ae, f, false);
      w.gap(); w.close("delegateAnalysisEngine");
    }
    w.close("delegateAnalysisEngineSpecifiers");
  }
  const char * md = a.root == 2 ? "processingResourceMetaData" : "analysisEngineMetaData"; w.open(md);
  w.el("name", a.name, true); w.opt("description", a.desc); w.opt("version", a.version); w.opt("vendor", a.vendor);
  if (a.paramElem) {
    static const char * S[] = {"none", "default_fallback", "language_fallback"}; std::string at; if (!a.defGroup.empty()) at += w.attr("defaultGroup", a.defGroup); if (a.strategy >= 0) at += w.attr("searchStrategy", S[a.strategy]);
    w.open("configurationParameters", at); w.params(a.plain); if (!a.common.empty()) { w.open("commonParameters"); w.params(a.common); w.close("commonParameters"); }
    for (auto & gr : a.groups) { w.open("configurationGroup", w.attr("names", w.words(gr.names))); w.params(gr.params); w.close("configurationGroup"); }
    w.close("configurationParameters");
  }
  if (a.setElem) { w.open("configurationParameterSettings"); w.settings(a.sets); for (auto & s : a.gsets) { w.open("settingsForGroup", w.attr("name", w.words(s.names))); w.settings(s.sets); w.close("settingsForGroup"); } w.close("configurationParameterSettings"); }
  if (a.flow >= 0) { const char * n = a.flow ? "capabilityLanguageFlow" : "fixedFlow"; w.open("flowConstraints"); w.open(n); for (auto & x : a.nodes) w.el("node", x); w.close(n); w.close("flowConstraints"); }
  if (a.tsElem) {
    std::string first = files("ts", a.tsFile, [&](W & v, int k, const std::string & next) { v.o += cat("<typeSystemDescription", nsAttr, ">"); v.el("name", "n"); imp(v, next); v.typeSys(a.ts, a.tsFile, k); v.o += "</typeSystemDescription>"; });
    w.open("typeSystemDescription"); imp(w, first); w.typeSys(a.ts, a.tsFile, 0); w.close("typeSystemDescription");
  }
  if (!a.prios.empty()) {
    std::string first = files("pr", a.prioFile, [&](W & v, int k, const std::string & next) { v.o += cat("<typePriorities", nsAttr, ">"); imp(v, next); v.prioLists(a, k); v.o += "</typePriorities>"; });
    w.open("typePriorities"); imp(w, first); w.prioLists(a, 0); w.close("typePriorities");
  }
  if (a.ixElem) {
    std::string first = files("ix", a.ixFile, [&](W & v, int k, const std::string & next) { v.o += cat("<fsIndexCollection", nsAttr, ">"); imp(v, next); v.indexes(a, k); v.o += "</fsIndexCollection>"; });
    const char * e = w.ch(1, 4) ? "fsIndexes" : "fsIndexCollection"; w.open(e); if (w.ch(1, 5)) w.el("name", "of the indexes"); imp(w, first); w.indexes(a, 0, w.ch(1, 3)); w.close(e);
  }
  if (a.capElem) {
    w.open("capabilities");
    for (auto & c : a.caps) {
      w.open("capability"); if (w.ch(1, 6)) w.el("description", "of the capability");
      for (int k = 0; k < 2; ++k) { auto & l = k ? c.out : c.in; const char * n = k ? "outputs" : "inputs"; w.open(n); for (auto & t : l) { const char * e = t.feat ? "feature" : "type"; w.o += cat("<", e, t.all ? w.attr("allAnnotatorFeatures", w.boolean(true)) : w.ch(1, 5) && !t.feat ? w.attr("allAnnotatorFeatures", "false") : "", ">", w.text(t.name), "</", e, ">"); w.gap(); } w.close(n); }
      for (int k = 0; k < 2; ++k) { auto & l = k ? c.outSofas : c.inSofas; const char * n = k ? "outputSofas" : "inputSofas"; if (l.empty() && w.ch(1, 2)) continue; w.open(n); for (auto & s : l) w.el("sofaName", s); w.close(n); }
      w.open("languagesSupported"); for (auto & l : c.langs) w.el("language", l); w.close("languagesSupported");
      if (w.ch(1, 8)) { w.open("mimeTypesSupported"); w.el("mimeType", "text/plain"); w.close("mimeTypesSupported"); }
      w.close("capability");
    }
    w.close("capabilities");
  }
  if (a.ops) { w.open("operationalProperties"); w.el("modifiesCas", w.boolean(a.modifies)); w.el("multipleDeploymentAllowed", w.boolean(a.multiple)); w.el("outputsNewCASes", w.boolean(a.outputs)); w.close("operationalProperties"); }
  w.close(md);
  if (!a.maps.empty()) { w.open("sofaMappings"); for (auto & m : a.maps) { w.open("sofaMapping"); w.el("componentKey", m.key); if (!m.noComp) w.el("componentSofaName", m.comp); w.el("aggregateSofaName", m.agg); w.close("sofaMapping"); } w.close("sofaMappings"); }
  w.o += cat("</", ROOT[a.root], ">"); if (header) w.gap();
  return w.o;
}

// ------------------------------------------------------------ what a descriptor says
static std::string q(const std::string & s) { std::string r = "'"; for (char c : s) if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\'') r += "\\'"; else if (c == '\\') r += "\\\\"; else r += c; return r + "'"; }
static std::string showVal(const AeVal & v) {
  std::string r = v.multi ? "[" : "";
  for (auto & x : v.v) {
    std::string t = trim(x);
    switch (v.type) { case PT_STRING: r += q(t); break; case PT_INT: r += cat("int ", strtol(t.c_str(), nullptr, 10)); break; case PT_FLOAT: { float y = strtof(t.c_str(), nullptr); uint32_t b; memcpy(&b, &y, 4); r += cat("float #", b); break; } case PT_BOOL: r += t == "true" ? "true" : "false"; break; }
    r += " ";
  }
  return v.multi && v.v.empty() ? "[]" : v.multi ? r + "]" : r;   // an empty array has no type
}
static void showInto(const Ae & a, const std::string & pre, std::vector<std::string> & L) {
  auto add = [&](auto &&... x) { L.push_back(cat(pre, x...)); };
  add("root ", a.root); add("framework ", a.java ? "java" : "cpp"); add("primitive ", a.primitive); if (a.primitive) add("implementation ", q(a.impl));
  add("name ", q(a.name)); add("description ", q(a.desc)); add("version ", q(a.version)); add("vendor ", q(a.vendor));
  std::vector<std::string> S;
  auto param = [&](const std::string & gr, const AeParam & p) { std::string r; std::set<std::string> rs(p.restrict_.begin(), p.restrict_.end()); for (auto & x : rs) r += q(x) + " "; S.push_back(cat(pre, "parameter ", gr, " ", q(p.name), " ", PT_DECL[p.type], p.multi ? " multi" : " single", p.mandatory ? " mandatory" : " optional", " restricted to ", r, " description ", q(p.desc))); };
  for (auto & p : a.plain) param("-", p); for (auto & p : a.common) param("common", p);
  bool groups = !a.common.empty() || !a.groups.empty();
  for (auto & gr : a.groups) for (auto & n : gr.names) { S.push_back(cat(pre, "group ", q(n))); for (auto & p : gr.params) param(q(n), p); }
  if (groups) { add("default group ", q(a.defGroup)); add("strategy ", a.strategy < 0 ? 0 : a.strategy); }
  for (auto & s : a.sets) S.push_back(cat(pre, "setting - ", q(s.name), " = ", showVal(s.val)));
  for (auto & sg : a.gsets) for (auto & n : sg.names) for (auto & s : sg.sets) S.push_back(cat(pre, "setting ", q(n), " ", q(s.name), " = ", showVal(s.val)));
  std::sort(S.begin(), S.end()); L.insert(L.end(), S.begin(), S.end()); S.clear();
  for (auto & t : a.ts.types) {
    S.push_back(cat(pre, "type ", q(t.name), " super ", q(t.super), " ", q(t.desc)));
    for (auto & f : t.feats) S.push_back(cat(pre, "feature ", q(t.name), ":", q(f.name), " range ", q(f.range), " element ", q(f.elem), f.multi ? " multi " : " ", q(f.desc)));
    for (auto & v : t.allowed) S.push_back(cat(pre, "allowed ", q(t.name), " ", q(trim(v))));
  }
  std::sort(S.begin(), S.end()); L.insert(L.end(), S.begin(), S.end()); S.clear();
  // imported lists may come before or after the others
  for (size_t i = 0; i < a.prios.size(); ++i) { std::string r = pre + "priority list"; for (auto & t : a.prios[i]) r += " " + q(t); S.push_back(r); }
  std::sort(S.begin(), S.end()); L.insert(L.end(), S.begin(), S.end()); S.clear();
  for (auto & x : a.ixs) { std::string r = cat(pre, "index ", q(x.label), " ", q(x.type), " kind ", (int)x.kind); for (auto & k : x.keys) r += k.typePrio ? " <type priority>" : cat(" ", q(k.feat), k.desc ? " desc" : " asc"); S.push_back(r); }
  std::sort(S.begin(), S.end()); L.insert(L.end(), S.begin(), S.end()); S.clear();
  if (a.flow >= 0) { std::string r = cat(pre, "flow ", a.flow); for (auto & n : a.nodes) r += " " + q(n); L.push_back(r); }
  for (auto & c : a.caps) {
    add("capability");
    for (int k = 0; k < 2; ++k) {
      for (int feat = 0; feat < 2; ++feat) {
        std::string r = cat(pre, k ? " outputs" : " inputs", feat ? " features" : " types");
        std::vector<std::string> v;
        for (auto & t : k ? c.out : c.in) { if (t.feat == (feat == 1)) v.push_back(q(t.name)); if (t.all && feat) if (auto mt = a.ts.find(t.name)) for (auto & f : mt->feats) v.push_back(q(t.name + ":" + f.name)); }
        for (auto & x : v) r += " " + x;
        L.push_back(r);
      }
      std::string r = cat(pre, k ? " output sofas" : " input sofas"); for (auto & s : k ? c.outSofas : c.inSofas) r += " " + q(s); L.push_back(r);
    }
    std::string r = pre + " languages"; for (auto & l : c.langs) r += " " + q(l); L.push_back(r);
  }
  add("operational ", a.ops ? a.modifies : 1, a.ops ? a.multiple : 1, a.ops ? a.outputs : 0);
  for (auto & m : a.maps) add("mapping ", q(m.key), " ", q(m.comp), " -> ", q(m.agg));
  std::map<std::string, const Ae *> d; for (auto & x : a.dels) d[x.key] = x.ae.get();
  for (auto & x : d) { add("delegate ", q(x.first)); showInto(*x.second, pre + "  ", L); }
}
std::string showAe(const Ae & a) { std::vector<std::string> L; showInto(a, "", L); std::string r; for (auto & l : L) r += l + "\n"; return r; }

// ------------------------------------------------------------ reader
static std::vector<std::string> splitWords(const std::string & s) { std::vector<std::string> r; std::istringstream i(s); for (std::string w; i >> w;) r.push_back(w); return r; }
static AeParam readParam(const XNode & n) {
  CHECK_EQ(n.name, std::string("configurationParameter"), "element of the printed parameters"); AeParam p; p.name = trim(n.kidText("name")); p.desc = trim(n.kidText("description")); p.type = ptypeOf(trim(n.kidText("type"))); p.multi = trim(n.kidText("multiValued")) == "true"; p.mandatory = trim(n.kidText("mandatory")) == "true"; p.restrict_ = splitWords(n.kidText("restrictOverrideTo")); return p;
}
static AeSetting readSetting(const XNode & n) {
  CHECK_EQ(n.name, std::string("nameValuePair"), "element of the printed settings"); AeSetting s; s.name = trim(n.kidText("name")); auto v = n.kid("value"); CHECK(v && v->kids.size() == 1, "value of the setting ", s.name);
  const XNode & x = v->kids[0]; s.val.multi = x.name == "array";
  if (s.val.multi) { for (auto & k : x.kids) { s.val.type = ptypeOf(k.name); s.val.v.push_back(k.text); } } else { s.val.type = ptypeOf(x.name); s.val.v.push_back(x.text); }
  return s;
}
Ae readAe(const XNode & n) {
  Ae a; a.root = -1; for (int i = 0; i < 3; ++i) if (n.name == ROOT[i]) a.root = i; CHECK(a.root >= 0, "printed root element ", n.name); CHECK(n.attr("xmlns") == NS || n.attr("xmlns").empty(), "namespace");
  a.java = trim(n.kidText("frameworkImplementation")) == "org.apache.uima.java"; a.primitive = a.root == 2 || trim(n.kidText("primitive")) == "true"; a.impl = trim(n.kidText(a.root == 2 ? "implementationName" : "annotatorImplementationName"));
  if (auto d = n.kid("delegateAnalysisEngineSpecifiers")) for (auto & k : d->kids) { CHECK_EQ(k.name, std::string("delegateAnalysisEngine"), "printed delegate"); CHECK_EQ(k.kids.size(), (size_t)1, "content of a printed delegate"); AeDel x; x.key = k.attr("key"); x.ae = std::make_shared<Ae>(readAe(k.kids[0])); a.dels.push_back(x); }
  auto md = n.kid(a.root == 2 ? "processingResourceMetaData" : "analysisEngineMetaData"); CHECK(md, "no meta data printed");
  a.name = trim(md->kidText("name")); a.desc = trim(md->kidText("description")); a.version = trim(md->kidText("version")); a.vendor = trim(md->kidText("vendor"));
  if (auto p = md->kid("configurationParameters")) {
    a.defGroup = p->attr("defaultGroup"); std::string s = p->attr("searchStrategy"); a.strategy = s == "default_fallback" ? 1 : s == "language_fallback" ? 2 : 0;
    for (auto & k : p->kids) if (k.name == "configurationParameter") a.plain.push_back(readParam(k)); else if (k.name == "commonParameters") for (auto & c : k.kids) a.common.push_back(readParam(c)); else { CHECK_EQ(k.name, std::string("configurationGroup"), "printed parameter element"); AeGroup gr; gr.names = splitWords(k.attr("names")); for (auto & c : k.kids) gr.params.push_back(readParam(c)); a.groups.push_back(gr); }
  }
  if (auto p = md->kid("configurationParameterSettings")) for (auto & k : p->kids) if (k.name == "nameValuePair") a.sets.push_back(readSetting(k)); else { CHECK_EQ(k.name, std::string("settingsForGroup"), "printed settings element"); AeSetGroup sg; sg.names = splitWords(k.attr("name")); for (auto & c : k.kids) sg.sets.push_back(readSetting(c)); a.gsets.push_back(sg); }
  if (auto p = md->kid("flowConstraints")) { CHECK_EQ(p->kids.size(), (size_t)1, "printed flow"); a.flow = p->kids[0].name == "fixedFlow" ? 0 : p->kids[0].name == "capabilityLanguageFlow" ? 1 : 9; for (auto & k : p->kids[0].kids) a.nodes.push_back(trim(k.text)); }
  if (auto p = md->kid("typeSystemDescription")) if (auto ts = p->kid("types")) for (auto & k : ts->kids) {
    MType t; t.name = trim(k.kidText("name")); t.desc = trim(k.kidText("description")); t.super = trim(k.kidText("supertypeName"));
    if (auto fs = k.kid("features")) for (auto & f : fs->kids) { MFeat m; m.name = trim(f.kidText("name")); m.desc = trim(f.kidText("description")); m.range = trim(f.kidText("rangeTypeName")); m.elem = trim(f.kidText("elementType")); m.multi = trim(f.kidText("multipleReferencesAllowed")) == "true"; t.feats.push_back(m); }
    if (auto vs = k.kid("allowedValues")) for (auto & v : vs->kids) t.allowed.push_back(trim(v.kidText("string")));
    a.ts.types.push_back(t);
  }
  if (auto p = md->kid("typePriorities")) for (auto & k : p->kids) { CHECK_EQ(k.name, std::string("priorityList"), "printed priorities"); std::vector<std::string> l; for (auto & t : k.kids) l.push_back(trim(t.text)); a.prios.push_back(l); }
  if (auto c = md->kid("fsIndexCollection")) if (auto p = c->kid("fsIndexes")) for (auto & k : p->kids) {
    MIndex x; x.label = trim(k.kidText("label")); x.type = trim(k.kidText("typeName")); std::string kd = trim(k.kidText("kind")); x.kind = kd == "sorted" ? MIndex::SORTED : kd == "set" ? MIndex::SET : MIndex::BAG;
    if (auto ks = k.kid("keys")) for (auto & y : ks->kids) { MKey m; m.typePrio = y.kid("typePriority"); m.feat = trim(y.kidText("featureName")); m.desc = trim(y.kidText("comparator")) == "reverse"; x.keys.push_back(m); }
    a.ixs.push_back(x);
  }
  if (auto c = md->kid("capabilities")) for (auto & k : c->kids) {
    AeCap x;
    for (int i = 0; i < 2; ++i) { if (auto l = k.kid(i ? "outputs" : "inputs")) for (auto & t : l->kids) { AeCap::TF f; f.name = trim(t.text); f.feat = t.name == "feature"; f.all = t.attr("allAnnotatorFeatures") == "true"; (i ? x.out : x.in).push_back(f); }
      if (auto l = k.kid(i ? "outputSofas" : "inputSofas")) for (auto & t : l->kids) (i ? x.outSofas : x.inSofas).push_back(trim(t.text)); }
    if (auto l = k.kid("languagesSupported")) for (auto & t : l->kids) x.langs.push_back(trim(t.text));
    a.caps.push_back(x);
  }
  if (auto p = md->kid("operationalProperties")) { a.ops = true; a.modifies = trim(p->kidText("modifiesCas")) == "true"; a.multiple = trim(p->kidText("multipleDeploymentAllowed")) == "true"; a.outputs = trim(p->kidText("outputsNewCASes")) == "true"; }
  if (auto p = n.kid("sofaMappings")) for (auto & k : p->kids) { AeMap m; m.key = trim(k.kidText("componentKey")); m.comp = trim(k.kidText("componentSofaName")); m.agg = trim(k.kidText("aggregateSofaName")); a.maps.push_back(m); }
  return a;
}
}
