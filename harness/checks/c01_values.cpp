// P01: feature values read back exactly as last written.
#include "world.hpp"
using namespace uima; using namespace vt;

static int addNode(Gen & g, World & w) {
  auto types = w.creatable();
  static const char * LT[] = {"uima.cas.NonEmptyFSList", "uima.cas.NonEmptyIntegerList", "uima.cas.NonEmptyFloatList", "uima.cas.NonEmptyStringList"};
  switch (g.weighted({10, 3, 1, 1, 1})) {
    case 0: return w.create(g, g.pick(types));
    case 1: return w.createArray(g.below(A_N), g.small(12));
    case 2: return w.createEmptyList(g.below(L_N));
    case 3: return w.create(g, LT[g.below(4)]);
    default: return w.create(g, g.one<const char *>({"uima.tcas.Annotation", "uima.cas.TOP", "uima.cas.AnnotationBase"}));
  }
}
static bool writeOne(Gen & g, World & w, int n) {
  MNode & m = w.nodes[n];
  if (m.array) { if (m.elems.empty()) return false; size_t i = g.below(m.elems.size()); w.setElem(n, i, w.genElem(g, m.ak)); return true; }
  auto fs = w.ts.allFeats(m.type); if (fs.empty()) return false;
  auto & f = g.pick(fs); if (f.second.name == "sofa") return false;
  MVal v = w.genVal(g, f.second.range); if (v.cls == R_FS && v.ref < 0) return false;
  w.set(n, f.second, v); g.label(std::string("write ") + (v.cls == R_FS ? "reference" : v.cls == R_STRSUB ? "string subtype" : PRIM_NAME[v.kind]));
  return true;
}

PROPERTY("P01", "history", 22000, 400000, "the history writes at least five values to at least two feature structures and overwrites at least one") {
  World w; w.open(g, TSOpts());
  size_t ops = 5 + g.small(90), writes = 0; std::set<int> touched; bool over = false; std::set<std::pair<int, std::string>> seen;
  for (size_t i = 0; i < ops && !g.exhausted(); ++i) {
    if (w.nodes.empty() || g.chance(1, 4)) { int n = addNode(g, w); if (g.chance(1, 4)) w.check(n); continue; }
    int n = g.below(w.nodes.size());
    switch (g.weighted({12, 2, 1, 1})) {
      case 0: {
        if (writeOne(g, w, n)) { ++writes; touched.insert(n); if (writes > 1 && touched.size() < writes) over = true; w.check(n); }
        break;
      }
      case 1: w.check(n); break;
      case 2: {   // copy a value of one feature to another through the reference read from the heap
        MNode & m = w.nodes[n]; std::vector<MFeat> sf; for (auto & f : w.ts.allFeats(m.type)) if (f.second.range == "uima.cas.String") sf.push_back(f.second);
        if (sf.empty()) break;
        MFeat a = g.pick(sf), b = g.pick(sf); FeatureStructure f = w.fs(n);
        f.setStringValue(featOf(*w.cas, m.type, b.name), f.getStringValue(featOf(*w.cas, m.type, a.name)));
        m.feats[b.name].s = m.feats[a.name].s; g.label("string copied from the heap"); break;
      }
      case 3: if (g.flip()) {   // clone to another type: the features of the common supertype, nothing else
        MNode & m = w.nodes[n]; auto cr = w.creatable(); std::string t = g.pick(cr); if (m.array || w.ts.subsumes("uima.cas.ListBase", m.type)) break;
        FeatureStructure c = w.fs(n).clone(typeOf(*w.cas, t)); MNode k; k.type = t; k.view = m.view; k.a = addr(c); CHECK(k.a != m.a, "clone is the same object");
        std::string common = t; while (!w.ts.subsumes(common, m.type)) common = w.ts.superOf(common);
        for (auto & p : w.ts.allFeats(t)) k.feats[p.second.name] = defaultVal(w.ts, p.second.range);
        for (auto & p : w.ts.allFeats(common)) k.feats[p.second.name] = m.feats[p.second.name];
        if (k.feats.count("sofa")) k.feats["sofa"].ref = -2;
        w.nodes.push_back(k); w.check(w.nodes.size() - 1); g.label("clone to another type"); break;
      } else {   // clone has the same values and is a separate object
        MNode & m = w.nodes[n]; if (m.array || w.ts.subsumes("uima.cas.ListBase", m.type)) break;
        FeatureStructure c = w.fs(n).clone(); MNode k = m; k.a = addr(c); CHECK(k.a != m.a, "clone is the same object"); w.nodes.push_back(k); w.check(w.nodes.size() - 1); g.label("clone"); break;
      }
    }
  }
  w.checkAll();
  g.nontrivial(writes >= 5 && touched.size() >= 2 && over);
  if (!w.nodes.empty()) g.sample(cat(w.nodes.size(), " structures, ", writes, " writes; ", w.show(w.nodes.size() - 1), " of ", w.ts.describe()));
}

PROPERTY("P01", "growth", 220, 6000, "the feature structures or strings exceed a heap page (10000 cells or code units)") {
  World w; w.open(g, TSOpts()); w.vo.maxText = 16;
  auto types = w.creatable(); size_t cells = 0, units = 0;
  size_t rounds = 1 + g.below(4);
  for (size_t r = 0; r < rounds; ++r) {
    size_t first = w.nodes.size();
    switch (g.below(4)) {
      case 0: { size_t n = 200 + g.below(1500); const std::string & t = g.pick(types); for (size_t i = 0; i < n; ++i) { int k = w.create(g, t); cells += 1 + w.nodes[k].feats.size(); } g.label("many structures"); break; }
      case 1: { int ak = g.below(A_N); size_t n = g.one<size_t>({9990, 10001, 20011, 5000, 32768}); w.createArray(ak, n); cells += n; g.label("large array");
                int k = w.nodes.size() - 1; for (int j = 0; j < 20; ++j) { MVal v = w.genElem(g, ak); size_t at = j < 2 ? (j ? n - 1 : 0) : g.below(n); w.setElem(k, at, v); } break; }
      case 2: { int k = w.createArray(A_STRING, 20); for (int j = 0; j < 20; ++j) { MVal v; v.kind = K_STRING; size_t n = g.one<size_t>({1, 4999, 9998, 9999, 10000, 10001, 300}); US p = genText(g, 5); if (p.isEmpty()) p = us("x"); while ((size_t)v.s.length() < n) v.s += p; v.s.truncate(n); w.setElem(k, j, v); units += n; }
                int src = g.below(w.nodes.size());   // strings handed over by the references the CAS returned
                if (w.nodes[src].array && w.nodes[src].ak == A_STRING) { MNode & S = w.nodes[src]; size_t m = S.elems.size(); int d = w.createArray(A_STRING, m); MNode & SS = w.nodes[src];
                  for (size_t j = 0; j < m; ++j) { StringArrayFS(w.fs(d)).set(j, StringArrayFS(w.fs(src)).get(j)); w.nodes[d].elems[j] = SS.elems[j]; units += SS.elems[j].s.length(); } g.label("strings copied from the heap"); }
                g.label("large strings"); break; }
      default: { size_t n = 300 + g.below(1200); int k = w.createArray(A_STRING, n); for (size_t j = 0; j < n; ++j) { MVal v; v.kind = K_STRING; v.s = us(cat("string number ", j, " of ", n)); w.setElem(k, j, v); units += v.s.length(); } g.label("many strings"); }
    }
    for (int j = 0; j < 60; ++j) { int k = g.flip() ? g.below(w.nodes.size()) : first + g.below(w.nodes.size() - first); writeOne(g, w, k); }
  }
  // every value is what the model says, including those written before the heaps grew
  std::map<lowlevel::TyFS, int> ids;
  size_t step = w.nodes.size() > 400 ? w.nodes.size() / 400 : 1;
  for (size_t i = 0; i < w.nodes.size(); i += (w.nodes[i].array ? 1 : step)) w.check(i);
  g.nontrivial(cells > 10000 || units > 10000);
  g.sample(cat(w.nodes.size(), " structures, ", cells, " cells, ", units, " string units"));
}
PROBE("P01", "string-with-nul") {   // an embedded U+0000
  initUima(); MTS ts; TSHolder h; h.ts = buildTS(ts); std::unique_ptr<CAS> c(makeCAS(*h.ts)); StringArrayFS a = c->createStringArrayFS(1);
  US s("ab"); s.append((UChar)0); s.append((UChar)'c'); a.set(0, UnicodeStringRef(s)); UnicodeStringRef r = a.get(0); CHECK(US(r.getBuffer(), r.length()) == s, "a string of 4 units reads back with ", r.length());
}
