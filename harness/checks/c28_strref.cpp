// P28: string references against ICU strings of the same content.
#include "ucas.hpp"
#include "uima/unistrref.hpp"
#include "unicode/ucnv.h"
#include <fstream>
using namespace uima;
using namespace vt;

namespace {
typedef std::vector<UChar> VU;
// text in a heap block of exactly its size, so that reading past it is noticed
struct Text {
  std::unique_ptr<UChar[]> mem; US u; UnicodeStringRef r;
  void set(const VU & v, bool null) {
    if (null && v.empty()) { mem.reset(); u = US(); r = UnicodeStringRef(); return; }
    mem.reset(new UChar[v.size()]); std::copy(v.begin(), v.end(), mem.get()); u = US(v.data(), (int32_t)v.size());
    r = UnicodeStringRef(mem.get(), (int32_t)v.size());
  }
};
UChar genUnit(Gen & g) { return g.one<UChar>({'a', 'b', 'A', ' ', 0, 0xe9, 0x4e2d, 0xe000, 0xffff, 0xfffd, 0xd83d, 0xde00, 0xd800, 0xdc00, 'B', 0x130, 0xdf, '\t'}); }
VU genUnits(Gen & g, size_t max) {
  VU v; size_t n = g.small(max); int mode = (int)g.weighted({3, 2, 1});
  for (size_t i = 0; i < n; ++i) { if (mode == 0) v.push_back(genUnit(g)); else if (mode == 1) v.push_back(g.one<UChar>({'a', 'b', 0, 0xd83d, 0xde00})); else v.push_back((UChar)g.below(0x10000)); }
  if (g.chance(1, 8)) { size_t m = 100 + g.below(400); UChar c = g.flip() ? 'a' : (UChar)0x4e2d; v.insert(v.end(), m, c); }
  return v;
}
int32_t genPos(Gen & g, int32_t n) {
  switch (g.weighted({6, 2, 1, 1})) { case 0: return (int32_t)g.below(n + 1); case 1: return (int32_t)g.range(-3, n + 3); case 2: return g.one<int32_t>({INT32_MAX, INT32_MIN, INT32_MAX - 1, -1}); default: return n; }
}
int sgn(int x) { return x < 0 ? -1 : x > 0; }
std::string show(const US & u) { std::string s; char b[8]; for (int i = 0; i < u.length() && i < 60; ++i) { snprintf(b, sizeof b, "%x ", u[i]); s += b; } return s + cat("(", u.length(), ")"); }
}

PROPERTY("P28", "operations", 60000, 2000000, "a text with a surrogate or zero and an operation on a range reaching outside it") {
  initUima(); Text a, b; bool outside = false;
  VU va = genUnits(g, 14), vb;
  switch (g.weighted({3, 3, 2, 2})) {   // often related texts, so that comparisons and searches succeed
    case 0: vb = genUnits(g, 6); break;
    case 1: if (va.size()) { size_t s = g.below(va.size()), l = g.below(va.size() - s + 1); vb.assign(va.begin() + s, va.begin() + s + l); } break;
    case 2: vb = va; if (vb.size() && g.flip()) vb[g.below(vb.size())] = genUnit(g); break;
    default: vb = va; if (g.flip()) vb.push_back(genUnit(g)); else if (vb.size()) vb.pop_back();
  }
  a.set(va, g.flip()); b.set(vb, g.flip());
  bool special = a.u.indexOf((UChar)0) >= 0; for (UChar c : va) special |= U16_IS_SURROGATE(c);
  if (g.chance(1, 6)) { a.r = UnicodeStringRef(a.mem.get(), a.mem.get() + va.size()); }
  if (g.chance(1, 6)) { UnicodeStringRef t(b.r); a.r = UnicodeStringRef().setTo(a.r); b.r = t; }
  std::string what = cat(" for ", show(a.u), "and ", show(b.u));
  const int32_t n = a.u.length(), m = b.u.length();
  CHECK_EQ(a.r.length(), n, "length", what); CHECK_EQ(a.r.isEmpty(), n == 0, "isEmpty", what); CHECK_EQ(a.r.getSizeInBytes(), (int32_t)(n * sizeof(UChar)), "getSizeInBytes", what);
  size_t ops = 6 + g.below(20); g.sample(show(a.u));
  for (size_t i = 0; i < ops && !g.exhausted(); ++i) {
    int32_t s = genPos(g, n), l = genPos(g, n), s2 = genPos(g, m), l2 = genPos(g, m); bool ranged = true;
    int32_t v2 = (int32_t)g.below(m + 1), w2 = (int32_t)g.below(m - v2 + 1);       // a valid range of b, for plain pointers
    const UChar * pb = b.mem ? b.mem.get() : nullptr;
    std::string where = cat(what, " with ", s, ",", l, ",", s2, ",", l2);
    switch (g.below(20)) {
      case 0: {
        CHECK_EQ(sgn(a.r.compare(b.r)), sgn(a.u.compare(b.u)), "compare", what); CHECK_EQ(sgn(a.r.compare(b.u)), sgn(a.u.compare(b.u)), "compare with an ICU string", what);
        CHECK_EQ(a.r < b.r, a.u < b.u, "<", what); CHECK_EQ(a.r > b.r, a.u > b.u, ">", what); CHECK_EQ(a.r <= b.r, a.u <= b.u, "<=", what); CHECK_EQ(a.r >= b.r, a.u >= b.u, ">=", what);
        CHECK_EQ(a.r == b.r, (int)(a.u == b.u), "==", what); CHECK_EQ(a.r != b.r, (int)(a.u != b.u), "!=", what); ranged = false; break; }
      case 1: CHECK_EQ(sgn(a.r.compare(s, l, b.r)), sgn(a.u.compare(s, l, b.u)), "compare of a range", where); break;
      case 2: CHECK_EQ(sgn(a.r.compare(s, l, b.r, s2, l2)), sgn(a.u.compare(s, l, b.u, s2, l2)), "compare of ranges", where); break;
      case 3: if (pb) { CHECK_EQ(sgn(a.r.compare(s, l, pb, v2, w2)), sgn(a.u.compare(s, l, b.u.getBuffer(), v2, w2)), "compare with characters", where, " valid ", v2, ",", w2); CHECK_EQ(sgn(a.r.compare(pb, m)), sgn(a.u.compare(b.u)), "compare with characters", what); } break;
      case 4: if (s <= INT32_MAX - 10 && s2 <= INT32_MAX - 10 && s > -10 && s2 > -10 && l > -10 && l2 > -10) CHECK_EQ(sgn(a.r.compareBetween(s, l, b.r, s2, l2)), sgn(a.u.compareBetween(s, l, b.u, s2, l2)), "compareBetween", where); break;
      case 5: CHECK_EQ(sgn(a.r.compareCodePointOrder(b.r)), sgn(a.u.compareCodePointOrder(b.u)), "compareCodePointOrder", what); ranged = false;
        if (pb) CHECK_EQ(sgn(a.r.compareCodePointOrder(pb, m)), sgn(a.u.compareCodePointOrder(b.u)), "compareCodePointOrder with characters", what); break;
      case 6: CHECK_EQ(sgn(a.r.compareCodePointOrder(s, l, b.r, s2, l2)), sgn(a.u.compareCodePointOrder(s, l, b.u, s2, l2)), "compareCodePointOrder of ranges", where);
        CHECK_EQ(sgn(a.r.compareCodePointOrder(s, l, b.r)), sgn(a.u.compareCodePointOrder(s, l, b.u)), "compareCodePointOrder of a range", where); break;
      case 7: { uint32_t o = g.one<uint32_t>({U_FOLD_CASE_DEFAULT, U_FOLD_CASE_EXCLUDE_SPECIAL_I, U_COMPARE_CODE_POINT_ORDER});
        CHECK_EQ(sgn(a.r.caseCompare(b.r, o)), sgn(a.u.caseCompare(b.u, o)), "caseCompare", what); CHECK_EQ(sgn(a.r.caseCompare(s, l, b.r, s2, l2, o)), sgn(a.u.caseCompare(s, l, b.u, s2, l2, o)), "caseCompare of ranges", where); break; }
      case 8: CHECK_EQ(a.r.startsWith(b.r), (bool)a.u.startsWith(b.u), "startsWith", what); CHECK_EQ(a.r.endsWith(b.r), (bool)a.u.endsWith(b.u), "endsWith", what);
        CHECK_EQ(a.r.startsWith(b.r, s2, l2), (bool)a.u.startsWith(b.u, s2, l2), "startsWith a range", where); CHECK_EQ(a.r.endsWith(b.r, s2, l2), (bool)a.u.endsWith(b.u, s2, l2), "endsWith a range", where);
        if (pb) { CHECK_EQ(a.r.startsWith(pb, m), (bool)a.u.startsWith(b.u), "startsWith characters", what); CHECK_EQ(a.r.endsWith(pb, m), (bool)a.u.endsWith(b.u), "endsWith characters", what);
          CHECK_EQ(a.r.startsWith(pb, v2, w2), (bool)a.u.startsWith(US(b.u, v2, w2)), "startsWith characters ", where, " valid ", v2, ",", w2); CHECK_EQ(a.r.endsWith(pb, v2, w2), (bool)a.u.endsWith(US(b.u, v2, w2)), "endsWith characters ", where, " valid ", v2, ",", w2); } break;
      case 9: case 10: {    // searching: bitwise; ICU itself does not match halves of surrogate pairs
        auto find = [&](const US & p, int32_t from, int32_t len, bool last) { int32_t st = std::max(0, std::min(from, n)), le = std::max(0, std::min(len, n - st)), k = p.length(); if (k == 0) return -1; int32_t r = -1;
          for (int32_t q = st; q + k <= st + le; ++q) if (!memcmp(a.u.getBuffer() + q, p.getBuffer(), 2 * k)) { r = q; if (!last) break; } return r; };
        auto ok = [&](int32_t got, int32_t icu, const US & p, int32_t from, int32_t len, bool last, const char * name) { if (got != icu) CHECK_EQ(got, find(p, from, len, last), name, where, " text ", show(p)); };
        US sub = a.u.length() >= 0 ? US(b.u, std::max(0, std::min(s2, m)), std::max(0, std::min(l2, m - std::max(0, std::min(s2, m))))) : US();
        ok(a.r.indexOf(b.r), a.u.indexOf(b.u), b.u, 0, n, false, "indexOf"); ok(a.r.lastIndexOf(b.r), a.u.lastIndexOf(b.u), b.u, 0, n, true, "lastIndexOf");
        ok(a.r.indexOf(b.r, s, l), a.u.indexOf(b.u, s, l), b.u, s, l, false, "indexOf in a range"); ok(a.r.lastIndexOf(b.r, s, l), a.u.lastIndexOf(b.u, s, l), b.u, s, l, true, "lastIndexOf in a range");
        if (s > -100 && s < INT32_MAX - 10) { int32_t rest = n - std::max(0, s); ok(a.r.indexOf(b.r, s), a.u.indexOf(b.u, s), b.u, s, rest, false, "indexOf from a position"); ok(a.r.lastIndexOf(b.r, s), a.u.lastIndexOf(b.u, s), b.u, s, rest, true, "lastIndexOf from a position"); }
        if (pb) { US q(b.u, v2, w2); ok(a.r.indexOf(pb, v2, w2, s, l), a.u.indexOf(q, s, l), q, s, l, false, "indexOf characters"); ok(a.r.lastIndexOf(pb, v2, w2, s, l), a.u.lastIndexOf(q, s, l), q, s, l, true, "lastIndexOf characters"); }
        (void)sub; break; }
      case 11: { UChar c = m && g.flip() ? vb[g.below(m)] : genUnit(g); US p(c);
        auto find = [&](int32_t from, int32_t len, bool last) { int32_t st = std::max(0, std::min(from, n)), le = std::max(0, std::min(len, n - st)); int32_t r = -1; for (int32_t q = st; q < st + le; ++q) if (a.u[q] == c) { r = q; if (!last) break; } return r; };
        CHECK_EQ(a.r.indexOf(c), find(0, n, false), "indexOf a unit ", c, what); CHECK_EQ(a.r.lastIndexOf(c), find(0, n, true), "lastIndexOf a unit ", c, what);
        CHECK_EQ(a.r.indexOf(c, s, l), find(s, l, false), "indexOf a unit ", c, where); CHECK_EQ(a.r.lastIndexOf(c, s, l), find(s, l, true), "lastIndexOf a unit ", c, where); break; }
      case 12: { UChar32 c = g.one<UChar32>({'a', 'b', 0, 0x4e2d, 0x1f600, 0x10000, 0xffff, 0x10ffff}); if (n && g.flip()) { c = a.u.char32At((int32_t)g.below(n)); if (U_IS_SURROGATE(c)) c = 'a'; }
        CHECK_EQ(a.r.indexOf(c), a.u.indexOf(c), "indexOf a character ", c, what); CHECK_EQ(a.r.lastIndexOf(c), a.u.lastIndexOf(c), "lastIndexOf a character ", c, what);
        CHECK_EQ(a.r.indexOf(c, s, l), a.u.indexOf(c, s, l), "indexOf a character ", c, where); CHECK_EQ(a.r.lastIndexOf(c, s, l), a.u.lastIndexOf(c, s, l), "lastIndexOf a character ", c, where); break; }
      case 13: CHECK_EQ(a.r.charAt(s), a.u.charAt(s), "charAt", where); CHECK_EQ(a.r[s], a.u[s], "[]", where); CHECK_EQ(a.r.char32At(s), a.u.char32At(s), "char32At", where);
        CHECK_EQ(a.r.getChar32Start(s), a.u.getChar32Start(s), "getChar32Start", where); CHECK_EQ(a.r.getChar32Limit(s), a.u.getChar32Limit(s), "getChar32Limit", where);
        { int32_t d = (int32_t)g.range(-4, 4); CHECK_EQ(a.r.moveIndex32(s, d), a.u.moveIndex32(s, d), "moveIndex32 by ", d, where); } break;
      case 14: { US x("old"), y("old"); a.r.extract(s, l, x); a.u.extract(s, l, y); CHECK(x == y, "extract to a string gives ", show(x), " not ", show(y), where);
        if (s > -10 && s < INT32_MAX - 10 && l > -10) { a.r.extractBetween(s, l, x); a.u.extractBetween(s, l, y); CHECK(x == y, "extractBetween gives ", show(x), " not ", show(y), where); }
        std::vector<UChar> p(n + 4, 0x7777), q(n + 4, 0x7777); int32_t d = (int32_t)g.below(3); a.r.extract(s, l, p.data(), d); a.u.extract(s, l, q.data(), d); CHECK(p == q, "extract to an array differs", where); break; }
      case 15: { int32_t cap = (int32_t)g.below(n + 3); std::vector<UChar> p(cap + 1, 0x7777), q(cap + 1, 0x7777); UErrorCode e = U_ZERO_ERROR, f = U_ZERO_ERROR; int32_t x = a.r.extract(p.data(), cap, e), y = a.u.extract(q.data(), cap, f); CHECK_EQ(x, y, "extract length", what); CHECK_EQ((int)e, (int)f, "extract error", what); CHECK(p == q, "extract contents differ", what); ranged = false; break; }
      case 16: { std::string x = "old", y; a.r.extractUTF8(x); a.u.toUTF8String(y); CHECK_EQ(x, y, "extractUTF8", what); CHECK_EQ(a.r.asUTF8(), y, "asUTF8", what); ranged = false; break; }
      case 17: { const char * cp = g.one<const char *>({"utf-8", "iso-8859-1", "utf-16be", "ibm-1047", "shift_jis", "us-ascii", "no-such-code-page"});
        std::string x = "old"; US part; a.u.extract(s, l, part); int32_t r; bool all = g.flip(); if (all) { part = a.u; r = a.r.extract(x, cp); } else r = a.r.extract(s, l, x, cp);
        std::string y; UErrorCode e = U_ZERO_ERROR; UConverter * c = ucnv_open(cp, &e); if (U_SUCCESS(e) && part.length()) { y.resize(part.length() * 8 + 16); int32_t k = ucnv_fromUChars(c, &y[0], (int32_t)y.size(), part.getBuffer(), part.length(), &e); y.resize(k); } ucnv_close(c);
        CHECK_EQ(x, y, "extract to ", cp, all ? what : where); CHECK_EQ(r, (int32_t)y.size(), "size returned by extract to ", cp, where); break; }
      case 18: { const char * cp = g.one<const char *>({"utf-8", "iso-8859-1", "utf-16be", "ibm-1047"}); int32_t cap = 1 + (int32_t)g.below(2 * n + 3); std::vector<char> p(cap + 1, 'x'), q(cap + 1, 'x');
        int32_t x = a.r.extract(s, l, p.data(), (uint32_t)cap, cp), y = a.u.extract(s, l, q.data(), (uint32_t)cap, cp); CHECK_EQ(x, y, "extract length in ", cp, where); CHECK(p == q, "extract in ", cp, " contents differ", where);
        CHECK_EQ(a.r.extract(s, l, (char *)nullptr, cp), y, "extract without buffer in ", cp, where);
        std::vector<char> z(8 * n + 64, 'x'); x = a.r.extract(s, l, z.data(), cp); CHECK_EQ(x, y, "extract into a large buffer in ", cp, where);
        UErrorCode e = U_ZERO_ERROR; UConverter * c = ucnv_open(cp, &e); UErrorCode f = U_ZERO_ERROR; cap = 8 * n + 16; p.assign(cap, 'x'); q.assign(cap, 'x'); x = a.r.extract(p.data(), cap, c, e); y = a.u.extract(q.data(), cap, c, f); CHECK_EQ(x, y, "extract with a converter for ", cp, what); CHECK_EQ((int)e, (int)f, "error of extract with a converter", what); CHECK(p == q, "extract with a converter differs", what); ucnv_close(c); break; }
      default: { std::ostringstream o; o << a.r; std::string y; UErrorCode e = U_ZERO_ERROR; UConverter * c = ucnv_open("utf-8", &e); y.resize(n * 4 + 8); y.resize(ucnv_fromUChars(c, &y[0], (int32_t)y.size(), a.u.getBuffer(), n, &e)); ucnv_close(c); CHECK_EQ(o.str(), y, "output to a stream", what); ranged = false;
        if (!special && g.chance(1, 3)) { std::vector<UChar> z(va); z.push_back(0); UnicodeStringRef t(z.data()); CHECK(t == a.r, "zero terminated reference differs", what); CHECK_EQ(t.compare(a.r), 0, "zero terminated reference compares", what); } }
    }
    if (ranged && (s < 0 || l > n || s > n || l < 0 || l > n - s)) outside = true;
  }
  if (special) g.label("surrogates or zeros"); if (outside) g.label("outside"); if (a.u == b.u) g.label("equal texts"); else if (a.u.startsWith(b.u)) g.label("prefix"); if (n > 100) g.label("long");
  g.nontrivial(special && outside);
}

// splitting delimited text: pieces between delimiters, read directly
PROPERTY("P28", "split", 30000, 600000, "at least two pieces, one of them empty or with white space to trim") {
  initUima(); Text a; VU v; size_t n = g.small(20); for (size_t i = 0; i < n; ++i) v.push_back(g.one<UChar>({'a', 'b', ',', ';', ' ', '\t', 0x3000, 0xd83d, 0xde00, 0x4e2d}));
  a.set(v, false); bool trim = g.flip(), empties = g.flip(); VU del; size_t k = 1 + g.below(2); const UChar d[] = {',', ';', ' ', 0x4e2d}; for (size_t i = 0; i < k; ++i) del.push_back(d[g.below(4)]);
  std::unique_ptr<UChar[]> dz(new UChar[k + 1]); std::copy(del.begin(), del.end(), dz.get()); dz[k] = 0;
  std::vector<US> want; US cur; bool piece = false; bool special = false;
  auto emit = [&]() { US t(cur); if (trim) { int32_t b = 0, e = t.length(); while (e > b && u_isspace(t[e - 1])) --e; while (b < e && u_isspace(t[b])) ++b; special |= e - b != t.length(); t = US(t, b, e - b); } if (t.isEmpty()) special = true; if (empties || !t.isEmpty()) want.push_back(t); cur.remove(); };
  for (UChar c : v) { if (std::find(del.begin(), del.end(), c) != del.end()) { emit(); piece = false; } else { cur.append(c); piece = true; } }
  if (piece) emit();      // a text ending with a delimiter has no piece after it
  std::vector<UnicodeStringRef> out(1); int32_t r = delimitedUnicodeStringRef2Vector(out, a.mem.get(), (int32_t)n, dz.get(), trim, empties);
  std::string what = cat(" splitting ", show(a.u), "at ", show(US(del.data(), (int32_t)k)), trim ? " trimmed" : "", empties ? " with empty pieces" : "");
  CHECK_EQ((size_t)r, want.size(), "number returned", what); CHECK_EQ(out.size(), want.size() + 1, "number of pieces", what);
  for (size_t i = 0; i < want.size(); ++i) CHECK(US(out[i + 1].getBuffer(), out[i + 1].length()) == want[i], "piece ", i, " is ", show(US(out[i + 1].getBuffer(), out[i + 1].length())), what);
  UnicodeStringRef t = strtrim(a.r); US w(a.u); { int32_t b = 0, e = w.length(); while (e > b && u_isspace(w[e - 1])) --e; while (b < e && u_isspace(w[b])) ++b; w = US(w, b, e - b); }
  CHECK(US(t.getBuffer(), t.length()) == w, "strtrim of ", show(a.u), " gives ", show(US(t.getBuffer(), t.length())));
  g.sample(show(a.u)); g.nontrivial(want.size() >= 2 && special);
}
