#include "mutate.hpp"
namespace vt {
std::vector<XTok> xmlTokens(const std::string & d) {
  std::vector<XTok> r; size_t i = 0;
  while (i < d.size()) {
    if (d[i] != '<') { size_t j = d.find('<', i); if (j == std::string::npos) j = d.size(); XTok t; t.text = d.substr(i, j - i); r.push_back(t); i = j; continue; }
    size_t j = i + 1; char q = 0; for (; j < d.size() && (q || d[j] != '>'); ++j) if (q) { if (d[j] == q) q = 0; } else if (d[j] == '"' || d[j] == '\'') q = d[j];
    std::string s = d.substr(i, j + 1 - i); i = j + 1; XTok t;
    if (s[1] == '?' || s[1] == '!') { t.k = XTok::OTHER; t.text = s; r.push_back(t); continue; }
    if (s[1] == '/') { t.k = XTok::CLOSE; t.name = s.substr(2, s.size() - 3); r.push_back(t); continue; }
    bool empty = s.size() > 2 && s[s.size() - 2] == '/'; t.k = empty ? XTok::EMPTY : XTok::OPEN; size_t p = 1; while (p < s.size() && !isspace((unsigned char)s[p]) && s[p] != '>' && s[p] != '/') ++p; t.name = s.substr(1, p - 1);
    for (;;) { while (p < s.size() && isspace((unsigned char)s[p])) ++p; size_t e = s.find('=', p); if (e == std::string::npos || s[p] == '>' || s[p] == '/') break; char c = s[e + 1]; size_t z = s.find(c, e + 2); if (z == std::string::npos) break; t.attrs.push_back({s.substr(p, e - p), s.substr(e + 2, z - e - 2)}); p = z + 1; }
    r.push_back(t);
  }
  return r;
}
std::string xmlJoin(const std::vector<XTok> & v) {
  std::string r;
  for (auto & t : v) {
    if (t.k == XTok::TEXT || t.k == XTok::OTHER) { r += t.text; continue; } if (t.k == XTok::CLOSE) { r += "</" + t.name + ">"; continue; }
    r += "<" + t.name; for (auto & a : t.attrs) r += " " + a.first + "=\"" + a.second + "\""; r += t.k == XTok::EMPTY ? "/>" : ">";
  }
  return r;
}
namespace {
size_t closing(const std::vector<XTok> & t, size_t i) { if (t[i].k != XTok::OPEN) return i; int d = 0; for (size_t j = i; j < t.size(); ++j) { if (t[j].k == XTok::OPEN) ++d; else if (t[j].k == XTok::CLOSE && !--d) return j; } return t.size() - 1; }
std::string number(Gen & g) { return g.one<std::string>({"0", "1", "2", "3", "-1", "-2", "7", "100", "65536", "2147483647", "-2147483648", "4294967296", "99999999999999999999", "1e9", "0x10", "", " ", "abc", "1 2", "1.5", "00", "nan", "true", "-0", "18446744073709551615", "9223372036854775807"}); }
}
std::string mutate(Gen & g, const std::string & doc, const MutPool & pool, std::string & log) {
  auto t = xmlTokens(doc); std::vector<std::string> vals, names, attrs; for (auto & x : t) { for (auto & a : x.attrs) { vals.push_back(a.second); attrs.push_back(a.first); } if (x.k == XTok::OPEN || x.k == XTok::EMPTY) names.push_back(x.name); else if (x.k == XTok::TEXT) vals.push_back(x.text); }
  auto value = [&](const std::string & old) -> std::string {
    switch (g.weighted({4, 5, 2, 2, 1, 1})) { case 0: return number(g); case 1: return vals.empty() ? "1" : g.pick(vals); case 2: return pool.values.empty() ? "x" : pool.values[g.below(pool.values.size())]; case 3: { std::string r = old; size_t n = 1 + g.below(3); for (size_t i = 0; i < n; ++i) r += " " + number(g); return r; } case 4: return std::string(g.one<size_t>({1, 255, 256, 257, 1023, 1024, 1025, 5000}), g.one<char>({'a', '7', ' '})); default: return old.substr(0, g.below(old.size() + 1)); }
  };
  auto elem = [&]() -> std::string { return !pool.elems.empty() && g.flip() ? pool.elems[g.below(pool.elems.size())] : names.empty() ? "x" : g.pick(names); };
  auto attr = [&]() -> std::string { return !pool.attrs.empty() && g.flip() ? pool.attrs[g.below(pool.attrs.size())] : attrs.empty() ? "a" : g.pick(attrs); };
  size_t n = 1 + g.small(6);
  for (size_t k = 0; k < n && !t.empty(); ++k) {
    std::vector<size_t> el, tx; for (size_t i = 0; i < t.size(); ++i) if (t[i].k == XTok::OPEN || t[i].k == XTok::EMPTY) el.push_back(i); else if (t[i].k == XTok::TEXT) tx.push_back(i);
    if (el.empty()) break; size_t i = g.pick(el), e = closing(t, i); XTok & x = t[i];
    auto attrPick = [&] { return g.below(x.attrs.size()); };
    switch (g.weighted({6, 3, 2, 2, 2, 2, 2, 1, 1, 2, 2, 1})) {
      case 0: if (!x.attrs.empty()) { auto & a = x.attrs[attrPick()]; std::string v = value(a.second); log += cat(x.name, " ", a.first, "=", a.second, " -> ", v.substr(0, 40), "; "); a.second = v; } break;
      case 1: if (!x.attrs.empty()) { size_t a = attrPick(); log += cat(x.name, " without ", x.attrs[a].first, "; "); x.attrs.erase(x.attrs.begin() + a); } break;
      case 2: if (!x.attrs.empty()) { size_t a = attrPick(); std::string m = attr(); log += cat(x.name, " ", x.attrs[a].first, " -> ", m, "; "); x.attrs[a].first = m; } break;
      case 3: { std::string a = attr(), v = value(""); log += cat(x.name, " + ", a, "; "); x.attrs.push_back({a, v}); break; }
      case 4: { std::string m = elem(); log += cat(x.name, " -> ", m, "; "); if (e != i) t[e].name = m; x.name = m; break; }
      case 5: if (i) { log += cat("no ", x.name, "; "); t.erase(t.begin() + i, t.begin() + e + 1); } break;
      case 6: { size_t to = g.pick(el); std::vector<XTok> c(t.begin() + i, t.begin() + e + 1); if (c.size() > 400 || t.size() > 4000) break; log += cat("another ", x.name, "; "); t.insert(t.begin() + to, c.begin(), c.end()); break; }
      case 7: { size_t j = g.pick(el), f = closing(t, j); if (f == t.size() - 1 || j <= i) break; std::vector<XTok> c(t.begin() + j, t.begin() + f + 1); log += cat(t[j].name, " moved; "); t.erase(t.begin() + j, t.begin() + f + 1); t.insert(t.begin() + i, c.begin(), c.end()); break; }
      case 8: { if (x.k != XTok::EMPTY) break; log += cat("content in ", x.name, "; "); x.k = XTok::OPEN; XTok c, z; c.text = value(""); z.k = XTok::CLOSE; z.name = x.name; std::vector<XTok> add{c, z}; if (g.chance(1, 3)) { XTok in; in.k = XTok::EMPTY; in.name = elem(); add.insert(add.begin(), in); } t.insert(t.begin() + i + 1, add.begin(), add.end()); break; }
      case 9: if (!tx.empty()) { XTok & y = t[g.pick(tx)]; std::string v = value(y.text); log += cat("text ", y.text.substr(0, 20), " -> ", v.substr(0, 20), "; "); y.text = v; } break;
      case 10: { XTok in; in.k = XTok::EMPTY; in.name = elem(); size_t m = g.below(4); for (size_t q = 0; q < m; ++q) { std::string a = attr(), v = value(""); in.attrs.push_back({a, v}); } log += cat("new ", in.name, "; "); t.insert(t.begin() + i + (i == 0 ? 1 : 0), in); break; }
      default: { size_t j = g.below(t.size()); if (t[j].k == XTok::CLOSE || t[j].k == XTok::OPEN) { log += cat("tag ", t[j].name, " removed; "); t.erase(t.begin() + j); } }
    }
  }
  std::string r = xmlJoin(t);
  if (g.chance(1, 6)) switch (g.below(4)) {   // bytes
    case 0: r.resize(g.below(r.size() + 1)); log += "cut; "; break;
    case 1: { size_t m = 1 + g.below(4); for (size_t i = 0; i < m && !r.empty(); ++i) r[g.below(r.size())] = (char)g.below(256); log += "bytes; "; break; }
    case 2: { std::string b; size_t m = g.below(60); for (size_t i = 0; i < m; ++i) b += (char)g.below(256); r = b; log += "random bytes; "; break; }
    default: { size_t q = g.below(r.size() + 1); r.insert(q, g.one<std::string>({"<![CDATA[x]]>", "<!-- c -->", "<?pi x?>", "&#0;", "&lt;", "&x;", "<!DOCTYPE a [<!ENTITY b \"bbbb\">]>", "\xef\xbb\xbf", "]]>", "\xff"})); log += "inserted; "; }
  }
  return r;
}
}
