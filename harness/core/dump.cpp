#include "dump.hpp"
#include "uima/lowlevel_indexrepository.hpp"
#include <cstdio>
using namespace uima;
namespace vt {
namespace {
struct Edge { std::string name; int to; bool inl; };
struct Node { std::string type, local; std::vector<Edge> edges; uint64_t color = 0; bool counted = false; bool array = false; };
uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
uint64_t hs(const std::string & s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }
std::string num(double d, const char * f) { char b[64]; snprintf(b, sizeof b, f, d); return b; }
struct Dumper {
  CAS & base; const DumpOpts & o; std::vector<Node> n; std::map<lowlevel::TyFS, int> id; std::vector<FeatureStructure> todo;
  Dumper(CAS & b, const DumpOpts & o_) : base(b), o(o_) {}
  bool hidden(FeatureStructure f) { return !o.hideTypes.empty() && o.hideTypes.count(u8(f.getType().getName())); }
  int add(FeatureStructure f) { if (hidden(f)) return -1; auto it = id.find(addr(f)); if (it != id.end()) return it->second; int k = n.size(); id[addr(f)] = k; n.push_back(Node()); todo.push_back(f); return k; }
  std::string str(UnicodeStringRef s) { return "\"" + u8(s) + "\""; }
  std::string flt(double d, bool isFloat) { if (d != d) return "nan"; if (o.digits6) { std::string r = num(d, "%.6g"); return r == "-0" ? "0" : r; } uint64_t b; if (isFloat) { float f = d; uint32_t x; memcpy(&x, &f, 4); b = x; } else memcpy(&b, &d, 8); return num(d, "%.17g") + cat("/", b); }
  static bool container(const std::string & t) { return arrKindOf(t) >= 0 || (t.compare(0, 9, "uima.cas.") == 0 && t.size() > 4 && t.compare(t.size() - 4, 4, "List") == 0); }
  void expand(int k, FeatureStructure f) {
    Node r; r.type = u8(f.getType().getName()); int ak = arrKindOf(r.type);
    if (ak >= 0) {
      r.array = true; size_t m = arraySize(f, ak); r.local = cat("[", m, "]"); if (o.checkRefs && m > 100000) m = 0;
      for (size_t i = 0; i < m; ++i) {
        if (ak == A_FS) { FeatureStructure x = ArrayFS(f).get(i); if (x.isValid()) { r.edges.push_back(Edge{cat(i), add(x), false}); } else r.edges.push_back(Edge{cat(i), -1, false}); continue; }
        lowlevel::TyFS d; MVal v = readElem(f, ak, i, &d); r.local += " "; 
        r.local += v.kind == K_STRING ? "\"" + u8(v.s) + "\"" : v.kind == K_FLOAT ? flt(v.f, true) : v.kind == K_DOUBLE ? flt(v.d, false) : cat(v.i);
      }
    } else {
      std::vector<Feature> fs; f.getType().getAppropriateFeatures(fs); std::map<std::string, Feature> byName; for (auto & x : fs) byName[u8(x.getName())] = x;
      for (auto & p : byName) {
        if (o.skipFeats.count(p.first) || (p.first == "sofaNum" && !o.sofaNum) || (p.first == "sofa" && o.nullSofa) || o.hideFeats.count(r.type + ":" + p.first)) continue;
        Type rt; p.second.getRangeType(rt); std::string rg = u8(rt.getName()); int kind = -1; for (int q = 0; q < K_NPRIM; ++q) if (rg == PRIM_NAME[q]) kind = q;
        if (kind < 0 && rt.isStringSubType()) kind = K_STRING;
        if (kind < 0) { FeatureStructure x = f.getFSValue(p.second); if (o.checkRefs && x.isValid()) { Type xt = x.getType(); if (!xt.isValid() || !rt.subsumes(xt)) fail(cat("the feature ", p.first, " of range ", rg, " refers to ", xt.isValid() ? u8(xt.getName()) : std::string("something that is no feature structure"))); } bool inl = o.inlineSingle && container(rg) && !p.second.isMultipleReferencesAllowed() && r.type.compare(0, 9, "uima.cas.") != 0; bool inList = o.inlineSingle && p.first == "tail" && r.type.compare(0, 9, "uima.cas.") == 0; r.edges.push_back(Edge{p.first, x.isValid() ? add(x) : -1, inl || inList}); continue; }
        r.local += " " + p.first + "=";
        switch (kind) {
          case K_INT: r.local += cat(f.getIntValue(p.second)); break; case K_FLOAT: r.local += flt(f.getFloatValue(p.second), true); break; case K_STRING: r.local += str(f.getStringValue(p.second)); break;
          case K_BOOL: r.local += cat((int)f.getBooleanValue(p.second)); break; case K_BYTE: r.local += cat((int)f.getByteValue(p.second)); break; case K_SHORT: r.local += cat(f.getShortValue(p.second)); break;
          case K_LONG: r.local += cat(f.getLongValue(p.second)); break; default: r.local += flt(f.getDoubleValue(p.second), false);
        }
      }
    }
    n[k] = r;
  }
  void close() { while (!todo.empty()) { FeatureStructure f = todo.back(); todo.pop_back(); expand(id[addr(f)], f); } }
  void refine() {
    for (auto & x : n) { x.color = mix(hs(x.type), hs(x.local)); for (auto & e : x.edges) x.color = mix(x.color, mix(hs(e.name), e.to >= 0)); }
    size_t last = 0;
    for (size_t round = 0; round <= n.size(); ++round) {
      std::set<uint64_t> c; for (auto & x : n) c.insert(x.color); if (c.size() == last) break; last = c.size();
      std::vector<uint64_t> nc; for (auto & x : n) { uint64_t h = mix(x.color, 7); for (auto & e : x.edges) h = mix(h, e.to >= 0 ? n[e.to].color : 3); nc.push_back(h); }
      for (size_t i = 0; i < n.size(); ++i) n[i].color = nc[i];
    }
  }
  void count(int k) { if (k < 0 || n[k].counted) return; n[k].counted = true; std::vector<int> st{k}; while (!st.empty()) { int a = st.back(); st.pop_back(); for (auto & e : n[a].edges) if (e.to >= 0 && !e.inl && !n[e.to].counted) { n[e.to].counted = true; st.push_back(e.to); } else if (e.to >= 0 && e.inl) inlineCount(e.to, st); } }
  // what an inlined container refers to counts, the container itself does not
  void inlineCount(int c, std::vector<int> & st) { std::set<int> seen; while (c >= 0 && seen.insert(c).second) { int next = -1; for (auto & e : n[c].edges) { if (e.to < 0) continue; if (e.inl) next = e.to; else if (!n[e.to].counted) { n[e.to].counted = true; st.push_back(e.to); } } c = next; } }
  std::string name(int k) { char b[24]; snprintf(b, sizeof b, "%08x", (unsigned)(n[k].color >> 16)); return k < 0 ? "null" : b; }
};
}
static std::string keyOf(Dumper & d, const MIndex & ix, FeatureStructure f) {
  std::string r;
  for (auto & k : ix.keys) {
    if (k.typePrio) { r += "|" + u8(f.getType().getName()); continue; }
    Feature ft = f.getType().getFeatureByBaseName(us(k.feat)); Type rt; ft.getRangeType(rt); std::string rg = u8(rt.getName()); int kind = K_STRING; for (int q = 0; q < K_NPRIM; ++q) if (rg == PRIM_NAME[q]) kind = q;
    r += "|";
    switch (kind) {
      case K_INT: r += cat(f.getIntValue(ft)); break; case K_FLOAT: { float x = f.getFloatValue(ft); r += cat(x == 0 ? 0.0f : x); break; } case K_BOOL: r += cat((int)f.getBooleanValue(ft)); break; case K_BYTE: r += cat((int)f.getByteValue(ft)); break;
      case K_SHORT: r += cat(f.getShortValue(ft)); break; case K_LONG: r += cat(f.getLongValue(ft)); break; case K_DOUBLE: { double x = f.getDoubleValue(ft); r += cat(x == 0 ? 0.0 : x); break; } default: r += d.str(f.getStringValue(ft));
    }
  }
  return r;
}
static std::string byDef(Dumper & d, const MIndex & ix, const std::vector<int> & list) {
  std::vector<int> l; std::set<int> seen; for (int k : list) if (seen.insert(k).second) l.push_back(k);
  std::vector<FeatureStructure> fsOf(d.n.size()); for (auto & p : d.id) fsOf[p.second] = promote(p.first, d.base);
  std::vector<std::string> key, out; for (int k : l) key.push_back(ix.kind == MIndex::BAG ? "" : keyOf(d, ix, fsOf[k]));
  std::string r; size_t i = 0;
  while (i < l.size()) { size_t j = i; std::vector<std::string> grp; while (j < l.size() && key[j] == key[i]) { grp.push_back(ix.kind == MIndex::SET ? key[j] : d.name(l[j])); ++j; } std::sort(grp.begin(), grp.end()); for (auto & x : grp) r += " " + x; i = j; }
  return r;
}
std::string dumpCAS(CAS & any, const std::vector<std::string> & labels, const DumpOpts & o) {
  CAS & base = *any.getBaseCas(); Dumper d(base, o);
  struct V { std::string name, head; std::vector<std::pair<std::string, std::vector<int>>> lists; }; std::vector<V> views; std::vector<int> roots; bool initial = false;
  std::vector<SofaFS> sofas; { FSIterator it = base.getSofaIterator(); for (; it.isValid(); it.moveToNext()) sofas.push_back(SofaFS(it.get())); }
  std::vector<std::pair<std::string, CAS *>> vs; for (auto & s : sofas) { std::string nm = u8(s.getSofaID()); if (nm == "_InitialView") initial = true; vs.push_back({nm, base.getView(s)}); roots.push_back(d.add(s)); }
  if (!initial) vs.push_back({"_InitialView", base.getView(us("_InitialView"))});
  for (auto & p : vs) {
    V v; v.name = p.first; CAS & c = *p.second; bool any2 = false; std::ostringstream h;
    { SofaFS s = c.getSofa(); h << " sofa " << (s.isValid() ? u8(s.getSofaID()) : "-"); } if (o.docText) h << " text " << d.str(c.getDocumentText());
    for (auto & l : labels) { std::vector<int> r; FSIterator it = c.getIndexRepository().getIndex(us(l)).iterator(); for (; it.isValid(); it.moveToNext()) { FeatureStructure f = it.get(); CHECK(f.isValid(), "index ", l, " holds an invalid feature structure"); if (d.hidden(f)) continue; r.push_back(d.add(f)); roots.push_back(r.back()); if (r.size() > 200000) fail("index does not end"); } any2 = any2 || !r.empty(); v.lists.push_back({l, r}); }
    { std::vector<lowlevel::TyFS> x; c.getLowlevelIndexRepository().getIndexedFSs(x); std::vector<int> r; for (auto a : x) { if (d.hidden(promote(a, c))) continue; r.push_back(d.add(promote(a, c))); roots.push_back(r.back()); } any2 = any2 || !r.empty(); v.lists.push_back({"*", r}); }
    v.head = h.str(); bool sofa = c.getSofa().isValid(); if (o.dropEmptyViews && !sofa && !any2) continue; views.push_back(v);
  }
  d.close(); d.refine(); for (int r : roots) d.count(r);
  std::sort(views.begin(), views.end(), [](const V & a, const V & b) { return a.name < b.name; });
  std::ostringstream out;
  for (auto & v : views) {
    out << "view " << v.name << v.head << "\n";
    for (auto & l : v.lists) { if (o.defs.count(l.first) && o.ordered) { out << "  index " << l.first << ":" << byDef(d, o.defs.at(l.first), l.second) << "\n"; continue; } std::vector<std::string> x; for (int k : l.second) x.push_back(d.name(k)); if (!o.ordered || l.first == "*") std::sort(x.begin(), x.end()); out << "  index " << l.first << ":"; for (auto & s : x) out << " " << s; out << "\n"; }
  }
  std::vector<std::string> lines;
  for (size_t k = 0; k < d.n.size(); ++k) if (d.n[k].counted || !o.uses) { std::string s = d.name(k) + " " + d.n[k].type + d.n[k].local; for (auto & e : d.n[k].edges) s += " " + e.name + (e.inl ? ":=" : "->") + (e.to < 0 ? "null" : d.name(e.to)); lines.push_back(s); }
  std::sort(lines.begin(), lines.end()); std::string last; for (auto & l : lines) { if (!o.uses && l == last) continue; last = l; out << l << "\n"; }
  return out.str();
}
std::string firstDiff(const std::string & a, const std::string & b) {
  auto split = [](const std::string & s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; };
  auto x = split(a), y = split(b); std::multiset<std::string> sx(x.begin(), x.end()), sy(y.begin(), y.end()); std::string r; int k = 0;
  auto cut = [](const std::string & s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; };
  for (auto & l : x) { auto it = sy.find(l); if (it != sy.end()) { sy.erase(it); continue; } if (k++ < 6) r += "\n  - " + cut(l); }
  sy = std::multiset<std::string>(y.begin(), y.end()); k = 0; for (auto & l : y) { auto it = sx.find(l); if (it != sx.end()) { sx.erase(it); continue; } if (k++ < 6) r += "\n  + " + cut(l); }
  return r;
}
}
