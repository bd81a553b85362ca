// P30: code page converters and string helpers.
#include "ucas.hpp"
#include "uima/cp2ucnvrt.hpp"
#include "uima/u2cpcnvrt.hpp"
#include "uima/strconvert.hpp"
#include "uima/strtools.hpp"
#include "unicode/ucnv.h"
#include <cmath>
#include <climits>
#include <cfloat>
using namespace uima;
using namespace vt;

namespace {
typedef std::vector<UChar> VU;
const char * CPS[] = {"utf-8", "utf-16be", "utf-16le", "utf-16", "utf-32be", "iso-8859-1", "us-ascii", "ibm-1047", "ibm-37", "shift_jis", "gb18030", "big5", "euc-jp", "windows-1252", "iso-2022-jp", "utf-7", "ibm-930"};
US icuTo(const char * cp, const std::string & b) { UErrorCode e = U_ZERO_ERROR; UConverter * c = ucnv_open(cp, &e); US r; UChar * p = r.getBuffer((int32_t)b.size() * 4 + 16); int32_t n = ucnv_toUChars(c, p, (int32_t)b.size() * 4 + 16, b.data(), (int32_t)b.size(), &e); ucnv_close(c); r.releaseBuffer(U_SUCCESS(e) ? n : 0); return r; }
std::string icuFrom(const char * cp, const US & u) { UErrorCode e = U_ZERO_ERROR; UConverter * c = ucnv_open(cp, &e); std::string r((size_t)u.length() * 12 + 32, 0); int32_t n = ucnv_fromUChars(c, &r[0], (int32_t)r.size(), u.getBuffer(), u.length(), &e); ucnv_close(c); r.resize(U_SUCCESS(e) ? n : 0); return r; }
std::string hex(const std::string & s) { std::string r; char b[4]; for (size_t i = 0; i < s.size() && i < 60; ++i) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); r += b; } return r; }
std::string hex(const US & u) { std::string r; char b[8]; for (int i = 0; i < u.length() && i < 40; ++i) { snprintf(b, sizeof b, "%x ", u[i]); r += b; } return r; }
US genFor(Gen & g, const char * cp) {
  US u; size_t n = g.small(24); if (g.chance(1, 10)) n += 200 + g.below(1500);
  for (size_t i = 0; i < n; ++i) switch (g.weighted({4, 3, 2, 2, 1})) {
    case 0: u.append((UChar)('a' + g.below(26))); break;
    case 1: u.append((UChar)(0xa0 + g.below(0x60))); break;
    case 2: u.append((UChar)g.one<int>({0x4e2d, 0x6587, 0x3042, 0x30ab, 0xff71, 0xac00, 0x20ac})); break;
    case 3: u.append((UChar32)g.one<int>({0x1f600, 0x10000, 0x10ffff, 0x20000})); break;
    default: u.append((UChar)(1 + g.below(0x7f)));
  }
  (void)cp; return u;
}
}
PROPERTY("P30", "codepages", 40000, 800000, "a text with characters beyond ASCII converted to and from a code page, or malformed bytes, or a target that is too small") {
  initUima(); const char * cp = CPS[g.below(sizeof CPS / sizeof *CPS)]; Unicode2CodePageConverter from(cp); CodePage2UnicodeConverter to(cp); size_t ops = 1 + g.below(6); bool interesting = false;
  for (size_t k = 0; k < ops && !g.exhausted(); ++k) {
    US u = genFor(g, cp); std::string b = icuFrom(cp, u); bool malformed = g.chance(1, 4);
    std::string what = cat(" in ", cp, ", conversion ", k);
    if (!malformed) {
      std::unique_ptr<UChar[]> src(new UChar[u.length()]); u.extract(0, u.length(), src.get());
      size_t need = from.getMaximumSize(src.get(), u.length()); CHECK_EQ(need, b.size(), "size announced for ", hex(u), what);
      size_t cap = g.flip() ? need : g.flip() ? need + 1 + g.below(5) : g.below(need + 1); std::unique_ptr<char[]> t(new char[cap]);
      size_t r = from.convertFromUnicode(t.get(), cap, src.get(), u.length()); CHECK_EQ(r, b.size(), "bytes returned for ", hex(u), " with room for ", cap, what);
      if (cap >= need) { std::string got(t.get(), need); CHECK(got == b, "bytes of ", hex(u), " are ", hex(got), " instead of ", hex(b), what); }
      else { std::string got(t.get(), cap); size_t same = 0; while (same < cap && got[same] == b[same]) ++same; CHECK(same + 8 >= cap, "a short target holds ", hex(got), " instead of the start of ", hex(b), what); interesting = true; g.label("short target"); }
    } else { size_t n = 1 + g.below(4); for (size_t i = 0; i < n; ++i) { size_t at = g.below(b.size() + 1); if (g.flip() && at < b.size()) b[at] = (char)g.below(256); else if (g.flip() && at < b.size()) b.erase(at, 1); else b.insert(at, 1, (char)g.below(256)); } g.label("malformed"); }
    US w = icuTo(cp, b); std::unique_ptr<char[]> s(new char[b.size()]); std::copy(b.begin(), b.end(), s.get());
    size_t need = to.getMaximumLength(s.get(), b.size()); CHECK_EQ(need, (size_t)w.length(), "length announced for ", hex(b), what);
    size_t cap = g.flip() ? need : g.flip() ? need + 1 + g.below(5) : g.below(need + 1); std::unique_ptr<UChar[]> t(new UChar[cap]); bool bytes = cap >= need && g.chance(1, 4);
    size_t r = bytes ? to.convertBytes(t.get(), cap, s.get(), b.size()) : to.convertToUnicode(t.get(), cap, s.get(), b.size());
    CHECK_EQ(r, bytes ? b.size() : need, "number returned converting ", hex(b), " with room for ", cap, what);
    US got(t.get(), (int32_t)std::min(cap, need)); if (cap >= need) CHECK(got == w, "text of ", hex(b), " is ", hex(got), "instead of ", hex(w), what); else { CHECK(w.startsWith(US(got, 0, std::max(0, got.length() - 2))), "a short target holds ", hex(got), "instead of the start of ", hex(w), what); g.label("short target"); interesting = true; }
    if (!malformed && (!strncmp(cp, "utf", 3) || !strcmp(cp, "gb18030"))) { if (cap >= need) CHECK(got == u, "round trip of ", hex(u), " gives ", hex(got), what); g.label("round trip"); }
    bool wide = false; for (int i = 0; i < u.length(); ++i) wide |= u[i] > 127; interesting |= wide || malformed; g.sample(cat(cp, ":", hex(u)));
  }
  if (g.chance(1, 50)) CHECK(throwsUima([] { Unicode2CodePageConverter x("no-such-code-page"); }) && throwsUima([] { CodePage2UnicodeConverter x("no-such-code-page"); }), "an unknown code page is accepted");
  g.nontrivial(interesting);
}

PROPERTY("P30", "helpers", 100000, 2000000, "a text of at least three characters with a delimiter or white space at an end or repeated, or a number beyond six digits") {
  initUima(); typedef std::string S; bool interesting = false;
  auto text = [&](size_t max) { S s; size_t n = g.small(max); for (size_t i = 0; i < n; ++i) s += g.one<char>({'a', 'b', 'B', ',', ';', ' ', '\t', '\n', '(', '0'}); return s; };
  auto sp = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  S s = text(12); std::string q = " of \"" + s + "\""; g.sample(s);
  size_t b = 0, e = s.size(); while (b < e && sp(s[b])) ++b; size_t e2 = s.size(); while (e2 > 0 && sp(s[e2 - 1])) --e2;
  switch (g.below(9)) {
    case 0: CHECK_EQ(strtrim(s), e2 > b ? s.substr(b, e2 - b) : S(), "strtrim", q); CHECK_EQ(strtrimr(s), s.substr(0, e2), "strtrimr", q); CHECK_EQ(strtriml(s), s.substr(b), "strtriml", q); interesting = b > 0 || e2 < s.size(); break;
    case 1: { S del; size_t k = 1 + g.below(2); for (size_t i = 0; i < k; ++i) del += g.one<char>({',', ';', ' '}); bool trim = g.flip(), empty = g.flip(); std::vector<S> want, got(1, "first"); S cur; bool open = false;
      auto emit = [&]() { S t = trim ? strtrim(cur) : cur; if (empty || !t.empty()) want.push_back(t); cur.clear(); };
      for (char c : s) if (del.find(c) != S::npos) { emit(); open = false; } else { cur += c; open = true; } if (open) emit();
      size_t r = delimitedString2Vector(got, s, del.c_str(), trim, empty); got.erase(got.begin());
      S a, w; for (auto & x : got) a += "[" + x + "]"; for (auto & x : want) w += "[" + x + "]"; CHECK_EQ(a, w, "pieces", q, " at \"", del, "\" ", trim, empty); CHECK_EQ(r, want.size(), "number of pieces", q); interesting = want.size() > 1 || (s.size() > 2 && del.find(s[0]) != S::npos);
      CHECK_EQ(vector2delimitedStr(want, S("+;")), [&] { S j; for (size_t i = 0; i < want.size(); ++i) { if (i) j += "+;"; j += want[i]; } return j; }(), "joined pieces", q); break; }
    case 2: { S f = text(2), t = text(3); if (f.empty()) f = "a"; S r = s, w; for (size_t i = 0; i < s.size();) if (s.compare(i, f.size(), f) == 0) { w += t; i += f.size(); } else w += s[i++]; strreplaceall(r, f, t); CHECK_EQ(r, w, "replacing \"", f, "\" by \"", t, "\"", q);
      char c1 = g.one<char>({'a', ' '}), c2 = g.one<char>({'x', 'a'}); S r2 = s, w2 = s; strreplaceallchar(r2, c1, c2); for (auto & c : w2) if (c == c1) c = c2; CHECK_EQ(r2, w2, "replacing a character", q); std::vector<char> z(s.begin(), s.end()); z.push_back(0); strreplaceallchar(z.data(), c1, c2); CHECK_EQ(S(z.data()), w2, "replacing a character in place", q); interesting = w != s; break; }
    case 3: { size_t n = g.below(20); char c = g.one<char>({' ', '0'}); S l = s.size() < n ? S(n - s.size(), c) + s : s, r = s.size() < n ? s + S(n - s.size(), c) : s; CHECK_EQ(strpad_l_copy(s, n, c), l, "strpad_l to ", n, q); CHECK_EQ(strpad_r_copy(s, n, c), r, "strpad_r to ", n, q); interesting = s.size() > 2; break; }
    case 4: { S f = text(2); size_t w = s.find(f), r = str_find_first(f.data(), f.size(), s.data(), s.size()); CHECK_EQ(r, w, "str_find_first \"", f, "\"", q); if (f.empty()) f = ";"; CHECK_EQ(str_find_first(f[0], s.data(), s.size()), s.find(f[0]), "str_find_first of a character", q); CHECK_EQ(str_find_first_of(f.data(), f.size(), s.data(), s.size()), s.find_first_of(f), "str_find_first_of \"", f, "\"", q); CHECK_EQ(str_find_first_not_of(f.data(), f.size(), s.data(), s.size()), s.find_first_not_of(f), "str_find_first_not_of \"", f, "\"", q); interesting = s.size() > 2; break; }
    case 5: { S up = s, lo = s; for (auto & c : up) if (c >= 'a' && c <= 'z') c -= 32; for (auto & c : lo) if (c >= 'A' && c <= 'Z') c += 32; CHECK_EQ(strupper_copy(s), up, "strupper", q); CHECK_EQ(strlower_copy(s), lo, "strlower", q);
      S t = g.flip() ? text(6) : up; if (g.flip() && t.size()) t.pop_back(); auto sg = [](int x) { return x < 0 ? -1 : x > 0; }; CHECK_EQ(sg(strcmp_templ(s.c_str(), t.c_str())), sg(strcmp(s.c_str(), t.c_str())), "strcmp_templ with \"", t, "\"", q);
      S tu = strupper_copy(t); CHECK_EQ(sg(stricmp_templ(s.c_str(), t.c_str())), sg(strcmp(up.c_str(), tu.c_str())), "stricmp_templ with \"", t, "\"", q); size_t n = g.below(8); CHECK_EQ(sg(strncmp_templ(s.c_str(), t.c_str(), n)), sg(strncmp(s.c_str(), t.c_str(), n)), "strncmp_templ of ", n, " with \"", t, "\"", q); CHECK_EQ(sg(strnicmp_templ(s.c_str(), t.c_str(), n)), sg(strncmp(up.c_str(), tu.c_str(), n)), "strnicmp_templ of ", n, " with \"", t, "\"", q); CHECK_EQ(strlen_templ(s.c_str()), s.size(), "strlen_templ", q); interesting = s.size() > 2; break; }
    case 6: { long l = g.flip() ? (long)g.bits64() : g.range(-100000, 100000); S r; CHECK_EQ(long2String(l, r), std::to_string(l), "long2String"); CHECK_EQ(r, std::to_string(l), "long2String"); CHECK_EQ(string2Long(r), l, "string2Long of ", r); S t; convertToString((int)l, t); CHECK_EQ(t, std::to_string((int)l), "convertToString of an int"); int i; convertFromString(t, i); CHECK_EQ(i, (int)l, "convertFromString to an int"); interesting = l > 999999 || l < -999999; break; }
    case 7: { double d = g.flip() ? genDouble(g) : (double)g.range(-1000000, 1000000) / 64; if (std::isnan(d)) d = 1e300; char w[64]; snprintf(w, sizeof w, "%g", d); S r; CHECK_EQ(double2String(d, r), S(w), "double2String"); CHECK(sameDouble(string2Double(r), strtod(w, 0)), "string2Double of ", r); size_t dig = g.below(8); std::vector<char> big(400); snprintf(big.data(), big.size(), "%#.*f", (int)dig, d); CHECK_EQ(double2String(d, dig, r), S(big.data()), "double2String with ", dig, " digits"); double d2; convertFromString(S(w), d2); CHECK(sameDouble(d2, strtod(w, 0)), "convertFromString to a double"); interesting = std::fabs(d) > 1e6; break; }
    default: { S y = g.one<const char *>({"true", "TRUE", "on", "Yes", "T", "y", "+", "1", "false", "off", "no", "0", "", "tru", "true ", "11", "-"}); static const std::set<S> yes = {"true", "TRUE", "on", "Yes", "T", "y", "+", "1"}; CHECK_EQ(string2Bool(y), yes.count(y) > 0, "string2Bool of \"", y, "\""); S r; bool v = g.flip(); CHECK_EQ(bool2String(v, r), S(v ? "true" : "false"), "bool2String"); bool x; convertFromString(r, x); CHECK_EQ(x, v, "convertFromString to a bool");
      US u = genText(g, 10, T_UNI); convertToString(u, r); CHECK_EQ(r, u8(u), "convertToString of a Unicode string"); interesting = true; }
  }
  g.nontrivial(interesting);
}
