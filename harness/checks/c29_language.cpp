// P29: language identifiers.
#include "ucas.hpp"
#include "uima/language.hpp"
using namespace uima;
using namespace vt;

namespace {
// canonical form by direct reading: ll or ll-cc in lower case, "" unspecified, "??" ill-formed
std::string canon(const std::string & s) {
  if (s.empty()) return "";
  auto alpha = [&](size_t i) { return (s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'); };
  auto low = [&](size_t i) { char c = s[i]; return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; };
  if (s.size() == 2 && alpha(0) && alpha(1)) return {low(0), low(1)};
  if (s.size() == 5 && alpha(0) && alpha(1) && (s[2] == '-' || s[2] == '_') && alpha(3) && alpha(4)) return {low(0), low(1), '-', low(3), low(4)};
  return "??";
}
struct Id { std::string s; bool ascii = true; US u; };
char letter(Gen & g) { char c = (char)('a' + g.below(26)); if (g.chance(1, 3)) c = (char)(c - 32); return c; }
Id genId(Gen & g) {
  Id id; std::string & s = id.s;
  switch (g.weighted({6, 3, 2, 2})) {
    case 0: { static const char * few[] = {"en", "de", "EN", "ex", "xx", "zy", "pt", "Az"}; static const char * terr[] = {"us", "GB", "xx", "Zx", "br", "Us"};
      if (g.chance(1, 8)) break;
      s = g.flip() ? few[g.below(8)] : std::string{letter(g), letter(g)}; if (g.flip()) { s += g.flip() ? '-' : '_'; s += g.flip() ? terr[g.below(6)] : std::string{letter(g), letter(g)}; } break; }
    case 1: { s = {letter(g), letter(g)}; if (g.flip()) s += {'-', letter(g), letter(g)};      // one edit away from a good one
      static const char odd[] = {'?', '-', '_', ' ', '1', '@', '[', '`', '{', '/', '\0', 'x', 'a', '.', (char)0xe9, '\x7f'}; char c = odd[g.below(16)]; size_t at = g.below(s.size());
      switch (g.below(3)) { case 0: s[at] = c; break; case 1: s.insert(at, 1, c); break; default: s.erase(at, 1); } if (g.chance(1, 4)) s += c; break; }
    case 2: { size_t n = g.below(8); for (size_t i = 0; i < n; ++i) s += g.flip() ? letter(g) : (char)(1 + g.below(127)); break; }
    default: s = g.one<const char *>({"x-unspecified", "eng", "en-usa", "e", "??", "en-", "-us", "en--us", "english-language-of-the-united-states-of-america", "en-us-x", "en us", "--", "-----", "en\xe2\x80\x93us", "??-??"});
  }
  for (char c : s) if ((unsigned char)c > 127) id.ascii = false;
  id.u = US::fromUTF8(s); if (!id.ascii && g.flip()) id.u = US(s.c_str(), (int32_t)s.size(), "iso-8859-1");
  return id;
}
Language make(Gen & g, const Id & id) {
  bool zero = id.s.find('\0') != std::string::npos;
  switch (g.below(5)) {
    case 0: if (!zero) return Language(id.s.c_str()); /* fall through */
    case 1: return Language(id.s);
    case 2: return Language(id.u);
    case 3: { std::unique_ptr<UChar[]> p(new UChar[id.u.length()]); id.u.extract(0, id.u.length(), p.get()); return Language(UnicodeStringRef(p.get(), id.u.length())); }
    default: { Language l("de-at"); l.setValue(id.s); return l; }
  }
}
}
PROPERTY("P29", "identifiers", 60000, 2000000, "a well-formed identifier with an upper case letter, a territory or the letter x, or one that is one edit away from well-formed") {
  initUima(); std::vector<Language> l; std::vector<std::string> c; std::vector<std::string> src; bool interesting = false;
  size_t n = 2 + g.below(3);
  for (size_t i = 0; i < n; ++i) {
    Id id = genId(g); if (i && g.chance(1, 3)) { id.s = c[0] == "??" ? src[0] : c[0].substr(0, g.flip() ? 2 : 5); id.ascii = true; id.u = US::fromUTF8(id.s); }
    Language x = make(g, id); std::string w = canon(id.s); std::string what = cat(" of identifier \"", id.s, "\""); g.sample(id.s + " ");
    CHECK_EQ(x.asString(), w, "canonical form", what); CHECK_EQ(u8(x.asUnicodeString()), w, "Unicode form", what);
    CHECK_EQ(x.isValid(), w != "??", "isValid", what); CHECK_EQ(std::string(x.getLanguageCode()), w.substr(0, 2), "language code", what);
    std::string t = w.size() == 5 ? w.substr(3) : ""; CHECK_EQ(std::string(x.getTerritoryCode()), t, "territory code", what); CHECK_EQ(x.hasTerritory(), !t.empty(), "hasTerritory", what);
    if (w != "??") CHECK_EQ(x.hasLanguage(), !w.empty(), "hasLanguage", what);
    long num = 0, terr = 0; if (w.size() >= 2) num = (long)w[0] << 24 | (long)w[1] << 16; if (t.size()) terr = (long)t[0] << 8 | t[1];
    CHECK_EQ((long)x.getLanguage(), num, "numeric language", what); CHECK_EQ((long)x.getTerritory(), terr, "numeric territory", what); CHECK_EQ((long)x.asNumber(), num | terr, "number", what);
    Language y(x.asNumber()); CHECK_EQ(y.asString(), w, "language made from the number", what); CHECK(y == x, "language made from the number differs", what); CHECK_EQ(y.isValid(), w != "??", "isValid of the language made from the number", what); CHECK_EQ(std::string(y.getLanguageCode()), w.substr(0, 2), "language code of the number", what);
    Language z(x.asString().c_str()); CHECK(z == x, "language made from the canonical form differs", what);
    l.push_back(x); c.push_back(w); src.push_back(id.s); if (w != "??" && (w != id.s || !t.empty() || w.find('x') != std::string::npos)) interesting = true; if (w == "??" && (id.s.size() == 2 || id.s.size() == 5)) interesting = true;
  }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
    const std::string & a = c[i], & b = c[j]; std::string what = cat("languages \"", a, "\" and \"", b, "\" ");
    CHECK_EQ(l[i] == l[j], a == b, what, "=="); CHECK_EQ(l[i] != l[j], a != b, what, "!=");
    bool m = a == b || a.empty() || b.empty() || (a.substr(0, 2) == b.substr(0, 2) && (a.size() < 5 || b.size() < 5)); CHECK_EQ(l[i].matches(l[j]), m, what, "match");
    if (a == b) CHECK(!(l[i] < l[j]), what, "are equal but ordered"); else CHECK((l[i] < l[j]) != (l[j] < l[i]), what, "differ but are not ordered");
    for (size_t k = 0; k < n; ++k) if (l[i] < l[j] && l[j] < l[k]) CHECK(l[i] < l[k], what, "order is not transitive with ", c[k]);
  }
  g.nontrivial(interesting);
}
