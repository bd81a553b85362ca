// P35: documents that say the same as a written one, in other words; XCAS of types a CAS does not have.
#include "xmlcas.hpp"
#include "mutate.hpp"
using namespace uima; using namespace vt;
namespace {
typedef std::vector<std::pair<std::string, std::string>> Attrs;
struct El {
  std::string name, type, text; Attrs attrs; std::vector<El> kids; bool arr = false;
  const std::string * get(const std::string & n) const { for (auto & a : attrs) if (a.first == n) return &a.second; return nullptr; }
  void put(const std::string & n, const std::string & v) { for (auto & a : attrs) if (a.first == n) { a.second = v; return; } attrs.push_back({n, v}); }
  void drop(const std::string & n) { for (size_t i = 0; i < attrs.size(); ++i) if (attrs[i].first == n) { attrs.erase(attrs.begin() + i); return; } }
};
std::string decode(const std::string & s) {
  std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] != '&') { r += s[i]; continue; } size_t e = s.find(';', i); std::string n = s.substr(i + 1, e - i - 1); i = e;
    if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else if (n[0] == '#') r += u8(US((UChar32)(n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : atol(n.c_str() + 1)))); else fail("unknown entity " + n); }
  return r;
}
El tree(const std::string & doc) {
  std::vector<El> st(1); for (auto & t : xmlTokens(doc)) { if (t.k == XTok::OTHER) continue; if (t.k == XTok::TEXT) { st.back().text += decode(t.text); continue; }
    if (t.k == XTok::CLOSE) { El e = st.back(); st.pop_back(); st.back().kids.push_back(e); continue; } El e; e.name = t.name; for (auto & a : t.attrs) e.attrs.push_back({a.first, decode(a.second)}); if (t.k == XTok::EMPTY) st.back().kids.push_back(e); else st.push_back(e); }
  CHECK(st.size() == 1 && st[0].kids.size() == 1, "the document has no single root"); return st[0].kids[0];
}
std::vector<std::string> words(const std::string & s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
template <class T> void mix(Gen & g, std::vector<T> & v, size_t from = 0) { for (size_t i = v.size(); i > from + 1; --i) { size_t j = from + g.below(i - from); if (j != i - 1) std::swap(v[j], v[i - 1]); } }
// how a document is spelt
struct Spell {
  Gen & g; int enc; bool refs, quotes, space, notes, cdata, inFs; explicit Spell(Gen & g, bool inFs) : g(g), enc(g.weighted({5, 1, 1, 1, 1})), refs(g.chance(1, 4)), quotes(g.chance(1, 4)), space(g.chance(1, 3)), notes(g.chance(1, 4)), cdata(g.chance(1, 3)), inFs(inFs) {}
  std::string esc(const std::string & s, char q) {
    std::string r; US u = us(s); for (int i = 0; i < u.length(); i = u.moveIndex32(i, 1)) { UChar32 c = u.char32At(i); bool far = (enc == 3 && c > 0xff) || (enc == 4 && c > 0x7e), must = c == '<' || c == '&' || c == '\r' || c == '>' || c == 0x85 || c == 0x2028 || (q && (c == q || c == '\t' || c == '\n'));
      if (c == '<' && !refs) r += "&lt;"; else if (c == '&' && !refs) r += "&amp;"; else if (c == '>' && !refs) r += "&gt;"; else if (must || far || (refs && g.chance(1, 6))) { char b[20]; if (g.flip()) sprintf(b, "&#%d;", (int)c); else sprintf(b, g.flip() ? "&#x%x;" : "&#x%X;", (unsigned)c); r += b; } else r += u8(US(c)); }
    return r;
  }
  std::string text(const std::string & s) { if (cdata && g.flip() && s.find("]]>") == std::string::npos && s.find('\r') == std::string::npos) { bool ok = true; US u = us(s); for (int i = 0; i < u.length(); ++i) ok = ok && !(enc == 3 && u[i] > 0xff) && !(enc == 4 && u[i] > 0x7e) && u[i] != 0x85 && u[i] != 0x2028; if (ok) { size_t k = g.flip() ? s.size() : g.below(s.size() + 1); while (k < s.size() && (s[k] & 0xc0) == 0x80) ++k; return esc(s.substr(k), 0).insert(0, "<![CDATA[" + s.substr(0, k) + "]]>"); } }
    std::string r = esc(s, 0); if (notes && g.chance(1, 8)) r += "<!-- & then -->"; return r; }
  std::string gap(bool hard) { std::string r; if (hard) r = " "; if (space) r += g.one<std::string>({"", " ", "\n", "\r\n", "\t", "\n    "}); return r; }
  std::string between(bool ok) { if (!ok) return ""; std::string r = gap(false); if (notes && g.chance(1, 8)) r += g.one<std::string>({"<!-- a < b & c -->", "<?pi some=\"thing\"?>", "<!---->", "<?xml-stylesheet href='a'?>"}); return r; }
  std::string el(const El & e, int depth) {
    std::string r = "<" + e.name; for (auto & a : e.attrs) { char q = quotes && g.flip() ? '\'' : '"'; r += gap(true) + a.first + (space && g.chance(1, 6) ? " = " : "=") + q + esc(a.second, q) + q; } r += gap(false);
    bool loose = depth == 0 || (depth == 1 && (e.arr || inFs)); if (e.kids.empty() && e.text.empty() && g.chance(7, 8)) return r + "/>"; r += ">"; if (!e.kids.empty() || e.text.empty()) { r += between(loose); for (auto & k : e.kids) { r += el(k, depth + 1); r += between(loose); } } if (!e.text.empty()) r += text(e.text);
    return r + "</" + e.name + gap(false) + ">";
  }
  std::string doc(const El & root) {
    static const char * label[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII"}; const char * decl[] = {"UTF-8", "UTF-16", "UTF-16", "ISO-8859-1", "US-ASCII"}; std::string ascii = root.name; std::function<void(const El &)> names = [&](const El & e) { ascii += e.name; for (auto & a : e.attrs) ascii += a.first; for (auto & k : e.kids) names(k); }; names(root); for (unsigned char c : ascii) if (c > 0x7e && enc > 2) enc = 0;
    bool bare = enc < 3 && g.chance(1, 5); std::string d = bare ? "" : cat("<?xml version=\"1.0\"", enc || g.flip() ? cat(" encoding=\"", decl[enc], "\"") : "", g.chance(1, 5) ? " standalone=\"yes\"" : "", "?>"); if (!bare) d += gap(false); d += notes ? "<!-- first -->" : ""; d += el(root, 0); d += between(true); g.label(label[enc]); g.note(d);
    if (enc == 0) return (g.chance(1, 8) ? "\xef\xbb\xbf" : "") + d; if (enc > 2) { std::string r; US u = us(d); for (int i = 0; i < u.length(); ++i) r += (char)u[i]; return r; }
    US u = us(d); std::string r; auto put = [&](UChar c) { char b[2] = {(char)(c & 0xff), (char)(c >> 8)}; if (enc == 2) std::swap(b[0], b[1]); r.append(b, 2); }; put(0xfeff); for (int i = 0; i < u.length(); ++i) put(u[i]); return r;
  }
};
struct Said { int n = 0; std::string what; void operator()(Gen & g, const char * w) { if (what.find(w) == std::string::npos) { what += std::string(" ") + w; g.label(w); ++n; } } };
enum FK { F_PLAIN, F_BOOL, F_STR, F_REF, F_IDS, F_WORDS, F_BYTES, F_STRS, F_NONE };
FK featKind(const MTS & ts, const std::string & type, const std::string & name) {
  for (int i = 0; i < A_N; ++i) if (type == ARR_NAME[i]) return name != "elements" ? F_NONE : i == A_FS ? F_IDS : i == A_STRING ? F_STRS : i == A_BYTE ? F_BYTES : F_WORDS;
  if (name == "sofa") return F_REF; if (type == "uima.cas.View") return name == "members" ? F_IDS : F_NONE;
  bool node = type.compare(0, 17, "uima.cas.NonEmpty") == 0;
  for (auto & p : ts.allFeats(type)) if (p.second.name == name) { int k; switch (rangeClass(ts, p.second.range, k)) { case R_PRIM: return k == K_STRING ? F_STR : k == K_BOOL ? F_BOOL : F_PLAIN; case R_STRSUB: return F_STR; case R_FS: return F_REF; case R_ARR: if (p.second.multi) return F_REF; return k == A_FS ? F_IDS : k == A_STRING ? F_STRS : k == A_BYTE ? F_BYTES : F_WORDS; case R_LIST: if (p.second.multi || node) return F_REF; return k == L_FS ? F_IDS : k == L_STRING ? F_STRS : F_WORDS; } }
  return F_NONE;
}
struct Ids {
  std::map<std::string, std::string> m; std::set<int> used; int top = 0x7fffffff;
  void add(Gen & g, const std::string & old, int how, int want = 0) { int n = want; if (!n) { n = how == 0 ? atoi(old.c_str()) : how == 1 ? 1 + (int)g.below(2000) : how == 2 ? 1 + (int)(g.bits64() % 0x7ffffff0u) : top--; while (used.count(n)) n = n % 0x7fffffff + 1; } used.insert(n); CHECK(!m.count(old), "id ", old, " is used twice"); m[old] = std::to_string(n); }
  std::string one(const std::string & s) { if (s == "0" || s.empty()) return s; auto i = m.find(s); if (i == m.end()) fail("the document refers to an id it does not define: " + s); return i->second; }
  std::string list(Gen & g, const std::string & s, bool space) { std::string r; for (auto & w : words(s)) { if (!r.empty() || (space && g.chance(1, 8))) r += space ? g.one<std::string>({" ", "  ", "   "}) : " "; r += one(w); } if (space && g.chance(1, 8)) r += " "; return r; }
};
std::string otherXmi(Gen & g, const MTS & ts, const std::string & doc, Said & said) {
  El root = tree(doc); std::map<std::string, std::string> uri; for (auto & a : root.attrs) if (a.first.compare(0, 6, "xmlns:") == 0) uri[a.first.substr(6)] = a.second;
  for (auto & e : root.kids) { size_t c = e.name.find(':'); std::string u = uri[e.name.substr(0, c)]; if (u != "http:///uima/noNamespace.ecore") { e.type = u.substr(8, u.size() - 14); for (auto & x : e.type) if (x == '/') x = '.'; e.type += "."; } e.type += e.name.substr(c + 1); e.name = e.name.substr(c + 1); }
  bool space = g.chance(1, 3), ids = g.chance(1, 2), kids = g.chance(1, 2), order = g.flip(); int how = g.below(4); Ids id; for (auto & e : root.kids) if (const std::string * x = e.get("xmi:id")) if (*x != "0") id.add(g, *x, ids ? how : 0); if (ids) said(g, "other ids"); if (space) said(g, "spaces in lists");
  for (auto & e : root.kids) {
    bool arr = arrKindOf(e.type) >= 0; std::vector<El> more; Attrs at; bool sofa = e.type == "uima.cas.Sofa";
    for (auto & a : e.attrs) { FK k = a.first == "xmi:id" ? F_REF : featKind(ts, e.type, a.first); std::string v = a.second;
      if (k == F_REF) v = id.one(v); else if (k == F_IDS) v = id.list(g, v, space); else if (k == F_WORDS && space) { std::string r; for (auto & w : words(v)) { if (!r.empty() || g.chance(1, 8)) r += g.one<std::string>({" ", "  ", "   "}); r += w; } v = r; }
      else if (k == F_BOOL && g.flip()) { if (v == "true") { v = "1"; said(g, "1 for true"); } else if (v == "false") { v = "0"; said(g, "0 for false"); } }
      if (sofa && a.first == "sofaNum" && g.chance(1, 3)) { v = std::to_string(g.below(9)); said(g, "other sofa numbers"); } if (sofa && a.first == "sofaID" && v == "_InitialView" && g.chance(1, 3)) { v = "_DefaultTextSofaName"; said(g, "old name of the initial sofa"); }
      if ((k == F_PLAIN && v == "0" && !sofa) || (k == F_BOOL && (v == "false" || v == "0"))) if (g.chance(1, 3)) { said(g, "defaults left out"); continue; }
      if (kids && a.first != "xmi:id" && a.first != "sofa" && e.type != "uima.cas.View" && !sofa && g.flip()) {
        if (k == F_IDS || k == F_WORDS) { auto w = words(v); if (!w.empty()) { for (auto & x : w) { El c; c.name = a.first; c.text = x; more.push_back(c); } said(g, arr ? "array elements as children" : "values as children"); continue; } }
        else if ((k == F_PLAIN || k == F_BOOL || k == F_REF || (k == F_STR && !v.empty())) && !arr) { El c; c.name = a.first; c.text = v; more.push_back(c); said(g, "single value as a child"); continue; }
      }
      at.push_back({a.first, v}); }
    if (g.flip()) { mix(g, at); said(g, "order of attributes"); } e.attrs = at;
    if (!more.empty() || !e.kids.empty()) { for (auto & c : more) e.kids.push_back(c); if (g.flip()) { std::vector<std::string> names; for (auto & c : e.kids) names.push_back(c.name); mix(g, names); std::vector<El> r; std::map<std::string, size_t> at; for (auto & n : names) { size_t & p = at[n]; while (e.kids[p].name != n) ++p; r.push_back(e.kids[p++]); } e.kids = r; } }
  }
  if (order) { std::vector<El> s, f, v; for (auto & e : root.kids) (e.type == "uima.cas.Sofa" ? s : e.type == "uima.cas.View" ? v : f).push_back(e); mix(g, s); mix(g, f); mix(g, v); if (g.chance(1, 3)) for (size_t i = 0; i < f.size(); ++i) if (f[i].type == "uima.cas.NULL") { f.erase(f.begin() + i); said(g, "no NULL"); break; } root.kids = s; root.kids.insert(root.kids.end(), f.begin(), f.end()); root.kids.insert(root.kids.end(), v.begin(), v.end()); said(g, "order of elements"); }
  // prefixes
  bool rename = g.flip(), local = rename && g.chance(1, 3); std::map<std::string, std::string> pre; std::string dflt; Attrs ns; ns.push_back({"xmlns:xmi", "http://www.omg.org/XMI"}); size_t n = 0;
  for (auto & p : uri) if (p.second != "http://www.omg.org/XMI") { std::string q = rename ? g.one<std::string>({"p", "ns", "q-", "_", "xmi2"}) + std::to_string(n++) : p.first; if (rename && dflt.empty() && g.chance(1, 6)) { dflt = p.second; q = ""; } pre[p.second] = q; if (!local || q.empty()) ns.push_back({q.empty() ? "xmlns" : "xmlns:" + q, p.second}); } if (rename) said(g, "prefixes"); if (local) said(g, "prefixes declared where they are used");
  for (auto & e : root.kids) { size_t d = e.type.rfind('.'); std::string u = "http:///uima/noNamespace.ecore"; if (d != std::string::npos) { u = "http:///" + e.type.substr(0, d) + ".ecore"; for (size_t i = 8; i < u.size() - 6; ++i) if (u[i] == '.') u[i] = '/'; } CHECK(pre.count(u), "the document has no name space for ", e.type); std::string q = pre[u]; if (!q.empty()) e.name = q + ":" + e.name; if (local && !q.empty()) e.attrs.insert(e.attrs.begin() + g.below(e.attrs.size() + 1), {"xmlns:" + q, u}); }
  Attrs keep; for (auto & a : root.attrs) if (a.first.compare(0, 5, "xmlns") != 0) keep.push_back(a); root.attrs = keep; root.attrs.insert(root.attrs.end(), ns.begin(), ns.end()); mix(g, root.attrs); if (dflt.empty() && g.chance(1, 6)) { root.name = "anything"; said(g, "other root"); }
  if (g.chance(1, 4)) { std::function<El(int)> ext = [&](int d) { El x; x.name = d ? g.one<std::string>({"xmi:Extension", "contact", "xmi:Documentation", "p:x"}) : g.one<std::string>({"xmi:Extension", "xmi:Documentation", "xmi:Difference"}); if (x.name == "p:x") x.attrs.push_back({"xmlns:p", "http:///org/vt.ecore"}); if (g.flip()) x.attrs.push_back({"extender", "someone"}); if (d > 2 || g.flip()) x.text = "some text"; else for (size_t k = g.below(4); k-- > 0;) x.kids.push_back(ext(d + 1)); return x; }; for (size_t k = 1 + g.below(2); k-- > 0;) { El x = ext(0); root.kids.insert(root.kids.begin() + g.below(root.kids.size() + 1), x); } said(g, "extensions"); }
  Spell s(g, true); if (s.enc) said(g, "encoding"); if (s.refs) said(g, "character references"); if (s.notes) said(g, "comments"); for (auto & e : root.kids) e.arr = true; return s.doc(root);
}
std::string otherXcas(Gen & g, const MTS & ts, const std::string & doc, Said & said) {
  El root = tree(doc); for (auto & e : root.kids) e.arr = arrKindOf(e.name) >= 0; std::vector<El> sofas, fs; for (auto & e : root.kids) (e.name == "uima.cas.Sofa" ? sofas : fs).push_back(e); bool one = false; int initial = -1; for (size_t i = 0; i < sofas.size(); ++i) if (*sofas[i].get("sofaID") == "_InitialView") initial = i;
  for (auto & e : root.kids) if (auto * x = e.get("_indexed")) for (auto & w : words(*x)) one = one || w == "1";
  // old documents have a text and no sofa
  bool old = sofas.size() == 1 && initial == 0 && sofas[0].get("sofaString") && sofas[0].get("mimeType") && *sofas[0].get("mimeType") == "text" && !sofas[0].get("sofaURI") && !sofas[0].get("_ref_sofaArray") && g.chance(1, 2);
  bool ids = old || g.flip(); int how = g.below(4); Ids id; for (auto & e : sofas) id.add(g, *e.get("_id"), how, old ? 1 : 0); for (auto & e : fs) if (auto * x = e.get("_id")) id.add(g, *x, ids ? how : 0); if (ids) said(g, "other ids");
  // numbers of the sofas
  std::map<std::string, std::string> num; num["0"] = "0"; num["1"] = "1"; for (auto & e : sofas) num[*e.get("sofaNum")] = *e.get("sofaNum");
  if (old) num[*sofas[0].get("sofaNum")] = "1";
  else switch (g.below(4)) {
    case 1: if (initial >= 0 || (!one && !sofas.empty())) { mix(g, sofas); for (size_t i = 0; i < sofas.size(); ++i) num[*sofas[i].get("sofaNum")] = std::to_string(i + 1); said(g, "sofas numbered in their order"); } break;
    case 2: { mix(g, sofas); int n = 2; for (auto & e : sofas) if (*e.get("sofaID") != "_InitialView") num[*e.get("sofaNum")] = std::to_string(n++); said(g, "initial sofa not first"); break; }
    case 3: if (initial >= 0) { std::swap(sofas[0], sofas[initial]); mix(g, sofas, 1); for (size_t i = 0; i < sofas.size(); ++i) num[*sofas[i].get("sofaNum")] = std::to_string(i + 2); said(g, "initial sofa with number 2"); } break;
    default: break;
  }
  auto number = [&](const std::string & s) { auto i = num.find(s); if (i == num.end()) fail("the document refers to a sofa number it does not define: " + s); return i->second; };
  bool order = g.flip(); if (order) { mix(g, fs); said(g, "order of elements"); } root.kids = sofas; root.kids.insert(root.kids.end(), fs.begin(), fs.end());
  for (auto & e : root.kids) {
    bool sofa = e.name == "uima.cas.Sofa", ann = ts.subsumes("uima.cas.AnnotationBase", e.name); Attrs at;
    for (auto & a : e.attrs) { std::string v = a.second;
      if (a.first == "_id" || a.first.compare(0, 5, "_ref_") == 0) v = id.one(v); else if (a.first == "_indexed") { auto w = words(v); for (auto & x : w) x = number(x); if (g.flip()) mix(g, w); v = ""; for (auto & x : w) v += (v.empty() ? "" : g.chance(1, 8) ? "  " : " ") + x; } else if (sofa && a.first == "sofaNum") v = number(v); else if (ann && a.first == "sofa") v = number(v);
      FK k = featKind(ts, e.name, a.first); if (((k == F_PLAIN && v == "0") || (k == F_BOOL && v == "0")) && !sofa && !e.arr && g.chance(1, 3)) { said(g, "defaults left out"); continue; } if (a.first == "_indexed" && v.empty() && g.flip()) continue; at.push_back({a.first, v}); }
    if (e.arr) { if (arrKindOf(e.name) == A_FS) for (auto & k : e.kids) k.text = id.one(k.text); }
    else if (!sofa && e.text.empty() && !at.empty() && g.chance(1, 3)) { size_t i = g.below(at.size()); std::string f = at[i].first, plain = f.compare(0, 5, "_ref_") ? f : f.substr(5); if (f[0] != '_' || plain != f) if (!at[i].second.empty() && (!ann || f != "sofa") && !e.get("_content")) { e.text = at[i].second; at[i] = {"_content", f}; said(g, "value as content"); } }
    if (g.flip()) { mix(g, at); said(g, "order of attributes"); } e.attrs = at;
  }
  if (old) { El d; d.name = "uima.tcas.Document"; d.text = *root.kids[0].get("sofaString"); if (d.text.empty()) d.text = ""; root.kids[0] = d; said(g, "text without a sofa"); }
  Spell s(g, false); if (s.enc) said(g, "encoding"); if (s.refs) said(g, "character references"); if (s.notes) said(g, "comments"); return s.doc(root);
}
void foreign(Gen & g, bool xmi) {
  XmlPair p; p.open(g, xmi); User & a = p.a; a.begin(); a.run(g, g.chance(1, 8) ? 40 + g.below(110) : 1 + g.below(40)); std::string before = p.dump(a, xmi), doc = xmi ? a.xmi() : a.xcas(); Said said; g.note(doc);
  for (int i = 0; i < 2; ++i) { std::string other = xmi ? otherXmi(g, a.ts, doc, said) : otherXcas(g, a.ts, doc, said); User & b = p.b; if (xmi) readXmi(*b.cas, other); else readXcas(*b.cas, other); std::string after = p.dump(b, xmi); if (before != after) { g.note(before + "---\n" + after); fail("the CAS written (-) and the one read from a document that says the same (+) differ" + firstDiff(before, after)); } b.cas->getBaseCas()->reset(); }
  size_t h = 0; for (auto & x : a.held) h += x.second.size(); g.nontrivial(said.n > 2 && a.nodes.size() > 1 && (h || !a.dataSet.empty())); g.sample(cat(a.nodes.size(), " feature structures;", said.what));
}
// a CAS whose type system lacks types and features
void smaller(Gen & g) {
  TSOpts t; t.maxTypes = 6; t.maxFeats = 5; initUima(); User a; Reduced r; a.ts = genTS(g, t); r.make(g, a.ts); a.sys = buildTS(a.ts, &g); auto ix = userIndexes(g, r.ts, 1 + g.below(2), false);
  for (auto & i : ix) { a.labels.push_back(i.label); for (auto & k : i.keys) if (!k.typePrio) a.keyFeats.insert(k.feat); } a.labels.push_back("AnnotationIndex"); a.vo.text = T_XML; a.vo.denormals = false; a.vo.special = true; a.xmlData = true; a.noDup = true; a.cas = makeCAS(*a.sys, ix);
  TSHolder hr; hr.ts = buildTS(r.ts, &g); CAS * e = makeCAS(*hr.ts, ix); struct Del { CAS * c; ~Del() { delete c->getBaseCas(); } } del{e};
  a.begin(); a.run(g, g.chance(1, 8) ? 40 + g.below(80) : 1 + g.below(40)); std::string doc = a.xcas(); g.note(r.ts.describe()); g.note(doc);
  DumpOpts full; full.digits6 = true; full.sofaNum = false; full.dropEmptyViews = true; DumpOpts part = full; part.hideTypes = r.types; part.hideFeats = r.feats; std::string expect = dumpCAS(*a.cas, a.labels, part);
  size_t out = 0; for (auto & k : tree(doc).kids) { bool x = r.types.count(k.name); for (auto & q : k.attrs) { std::string n = q.first.compare(0, 5, "_ref_") ? q.first : q.first.substr(5); x = x || r.feats.count(k.name + ":" + n); } out += x; }
  Said said; if (g.flip()) doc = otherXcas(g, a.ts, doc, said); g.note(doc);
  { std::ostringstream quiet; struct Out { std::streambuf * b; ~Out() { std::cout.rdbuf(b); } } o{std::cout.rdbuf(quiet.rdbuf())}; readXcas(*e, doc); }
  std::string got = dumpCAS(*e, a.labels, full); if (expect != got) { g.note(expect + "---\n" + got); fail("the part of the CAS the smaller type system can express (-) and what was read (+) differ" + firstDiff(expect, got)); }
  g.nontrivial(out > 0 && a.nodes.size() > 1); g.sample(cat(out, " elements with unknown parts of ", a.nodes.size(), " feature structures;", said.what));
}
}
PROPERTY("P35", "xmi", 8000, 120000, "at least three kinds of differences, in a document of a CAS with content") { foreign(g, true); }
PROPERTY("P35", "xcas", 8000, 120000, "at least three kinds of differences, in a document of a CAS with content") { foreign(g, false); }
PROPERTY("P35", "smaller", 8000, 120000, "at least one element of an unknown type or with an unknown feature, among several") { smaller(g); }
