// P02: arrays and lists behave as typed sequences.
#include "world.hpp"
#include <cstring>
using namespace uima; using namespace vt;

// ---------------------------------------------------------------- arrays
template <class A, class T> static void bulk(Gen & g, World & w, int n, int ak, bool to) {
  MNode & m = w.nodes[n]; size_t size = m.elems.size(); A arr(w.fs(n));
  size_t s = g.below(size + 4), e = g.chance(1, 5) ? g.below(size + 4) : s + g.below(size + 3), off = g.below(size + 3);
  if (g.chance(1, 40)) e = (size_t)-1 - g.below(3);
  auto conv = [&](const MVal & v) -> T { if (ak == A_FLOAT) return (T)v.f; if (ak == A_DOUBLE) return (T)v.d; return (T)v.i; };
  auto same = [&](const T & a, const T & b) { return memcmp(&a, &b, sizeof(T)) == 0; };
  if (to) {
    // a destination larger than any legal request; guard elements must stay
    std::unique_ptr<T[]> dst(new T[2 * size + 16]), was(new T[2 * size + 16]);
    for (size_t i = 0; i < 2 * size + 16; ++i) { MVal v = w.genElem(g, ak); dst[i] = was[i] = conv(v); if (i > 20) { dst[i] = was[i] = was[i - 20]; } }
    bool lenForm = g.flip(), legal = s <= e && e <= size;
    bool threw = throwsUima([&] { if (lenForm) arr.copyToArray(s, dst.get(), off, e - s); else arr.copyToArray(s, e, dst.get(), off); });
    CHECK(threw == !legal, "copyToArray [", s, ",", e, ") of an array of ", size);
    for (size_t i = 0; i < 2 * size + 16; ++i) {
      bool in = legal && i >= off && i < off + (e - s); T exp = in ? conv(m.elems[s + (i - off)]) : was[i];
      CHECK(same(dst[i], exp), "copyToArray [", s, ",", e, ") to ", off, ": destination ", i, " of kind ", ak);
    }
    g.label(legal ? "copyToArray" : "copyToArray out of range");
  } else {
    size_t srcN = size + 8; if (e > srcN && e < 1000000) e = srcN; if (s > srcN) s = srcN; if (e < s && g.flip()) std::swap(s, e);
    std::unique_ptr<T[]> src(new T[srcN]); std::vector<MVal> vals; for (size_t i = 0; i < srcN; ++i) { vals.push_back(i < 16 ? w.genElem(g, ak) : vals[i - 16]); src[i] = conv(vals[i]); }
    bool legal = s <= e && off <= size && e - s <= size - off;
    bool threw = throwsUima([&] { arr.copyFromArray(src.get(), s, e, off); });
    CHECK(threw == !legal, "copyFromArray [", s, ",", e, ") at ", off, " of an array of ", size);
    if (legal) for (size_t i = s; i < e; ++i) m.elems[off + i - s] = vals[i];
    g.label(legal ? "copyFromArray" : "copyFromArray out of range");
  }
}
static void bulkAny(Gen & g, World & w, int n, bool to) {
  switch (w.nodes[n].ak) {
    case A_INT: bulk<IntArrayFS, int>(g, w, n, A_INT, to); break; case A_FLOAT: bulk<FloatArrayFS, float>(g, w, n, A_FLOAT, to); break;
    case A_BOOL: bulk<BooleanArrayFS, bool>(g, w, n, A_BOOL, to); break; case A_BYTE: bulk<ByteArrayFS, char>(g, w, n, A_BYTE, to); break;
    case A_SHORT: bulk<ShortArrayFS, short>(g, w, n, A_SHORT, to); break; case A_LONG: bulk<LongArrayFS, INT64>(g, w, n, A_LONG, to); break;
    case A_DOUBLE: bulk<DoubleArrayFS, double>(g, w, n, A_DOUBLE, to); break;
  }
}
template <class A> static bool ctorThrows(FeatureStructure f) { return throwsUima([&] { A a(f); (void)a; }); }
static bool wrapThrows(int ak, FeatureStructure f) {
  switch (ak) {
    case A_FS: return ctorThrows<ArrayFS>(f); case A_INT: return ctorThrows<IntArrayFS>(f); case A_FLOAT: return ctorThrows<FloatArrayFS>(f); case A_STRING: return ctorThrows<StringArrayFS>(f);
    case A_BOOL: return ctorThrows<BooleanArrayFS>(f); case A_BYTE: return ctorThrows<ByteArrayFS>(f); case A_SHORT: return ctorThrows<ShortArrayFS>(f); case A_LONG: return ctorThrows<LongArrayFS>(f);
    default: return ctorThrows<DoubleArrayFS>(f);
  }
}

PROPERTY("P02", "arrays", 60000, 3000000, "at least three arrays and five element or bulk accesses, one of them out of range or bulk") {
  TSOpts to; to.maxTypes = 2; to.maxFeats = 2; World w; w.open(g, to); w.vo.maxText = 12;
  size_t ops = 5 + g.small(60), acc = 0, special = 0, arrays = 0;
  for (size_t i = 0; i < ops && !g.exhausted(); ++i) {
    if (w.nodes.empty() || g.chance(1, 5)) { if (g.chance(1, 8)) w.create(g, "uima.cas.TOP"); else { w.createArray(g.below(A_N), g.small(20)); ++arrays; } continue; }
    int n = g.below(w.nodes.size()); MNode & m = w.nodes[n];
    if (!m.array) { for (int k = 0; k < A_N; ++k) CHECK(wrapThrows(k, w.fs(n)), "a ", m.type, " taken for an array of kind ", k); continue; }
    size_t size = m.elems.size(); ++acc;
    switch (g.weighted({5, 2, 3, 3, 1})) {
      case 0: if (size) { size_t at = g.below(size); w.setElem(n, at, w.genElem(g, m.ak)); } break;
      case 1: {   // out of range element
        size_t at = size + (g.chance(1, 6) ? (size_t)g.bits64() % 100000 : g.below(3)); if (g.chance(1, 10)) at = (size_t)-1; ++special;
        CHECK(throwsUima([&] { lowlevel::TyFS r; readElem(w.fs(n), m.ak, at, &r); }), "reading element ", at, " of ", size);
        MVal v = w.genElem(g, m.ak); FeatureStructure r; if (v.cls == R_FS) { if (v.ref < 0) break; r = w.fs(v.ref); }
        CHECK(throwsUima([&] { writeElem(w.fs(n), m.ak, at, v, r); }), "writing element ", at, " of ", size); g.label("element out of range"); break;
      }
      case 2: bulkAny(g, w, n, true); ++special; break;
      case 3: bulkAny(g, w, n, false); ++special; break;
      case 4: { int k = g.below(A_N); CHECK(wrapThrows(k, w.fs(n)) == (k != m.ak), m.type, " as an array of kind ", k); break; }
    }
    w.check(n);
  }
  w.checkAll(); g.nontrivial(arrays >= 3 && acc >= 5 && special);
  if (!w.nodes.empty()) g.sample(cat(arrays, " arrays, ", acc, " accesses; last ", w.show(w.nodes.size() - 1)));
}

// ---------------------------------------------------------------- lists
template <class L> struct LT;
template <> struct LT<IntListFS> { typedef int M; static int gen(Gen & g, World &) { return g.chance(2, 3) ? (int)g.below(4) : genInt(g); } static bool eq(int a, int b) { return a == b; } static int toT(World &, const int & m) { return m; } static int fromT(World &, int t) { return t; } static IntListFS empty(CAS & c) { return c.createIntListFS(); } static IntListFS single(CAS & c, int t) { return IntListFS(IntListFS::createListFS(c, t)); } static const char * type() { return "uima.cas.IntegerList"; } };
template <> struct LT<FloatListFS> { typedef float M; static float gen(Gen & g, World &) { float f = g.chance(2, 3) ? (float)g.below(4) : genFloat(g); return f; } static bool eq(float a, float b) { return a == b; } static float toT(World &, const float & m) { return m; } static float fromT(World &, float t) { return t; } static FloatListFS empty(CAS & c) { return c.createFloatListFS(); } static FloatListFS single(CAS & c, float t) { return FloatListFS(FloatListFS::createListFS(c, t)); } static const char * type() { return "uima.cas.FloatList"; } };
template <> struct LT<StringListFS> { typedef US M; static US gen(Gen & g, World &) { return g.chance(2, 3) ? genSmallText(g) : genText(g, 8, T_RAW); } static bool eq(const US & a, const US & b) { return a == b; } static UnicodeStringRef toT(World &, const US & m) { return UnicodeStringRef(m); } static US fromT(World &, UnicodeStringRef t) { return US(t.getBuffer(), t.length()); } static StringListFS empty(CAS & c) { return c.createStringListFS(); } static StringListFS single(CAS & c, UnicodeStringRef t) { return StringListFS(StringListFS::createListFS(c, t)); } static const char * type() { return "uima.cas.StringList"; } };
template <> struct LT<ListFS> { typedef int M; static int gen(Gen & g, World & w) { return g.below(w.nodes.size()); } static bool eq(int a, int b) { return a == b; }
  static FeatureStructure toT(World & w, int m) { return w.fs(m); }
  static int fromT(World & w, FeatureStructure t) { for (size_t i = 0; i < w.nodes.size(); ++i) if (w.nodes[i].a == addr(t)) return i; return -9; } static ListFS empty(CAS & c) { return c.createListFS(); } static ListFS single(CAS & c, FeatureStructure t) { return ListFS(ListFS::createListFS(c, t)); } static const char * type() { return "uima.cas.FSList"; } };

// Model: cons cells. -1 is "the" empty list (empty lists have no contents of their own).
template <class L> struct LM {
  typedef typename LT<L>::M M; struct Cell { M head; int tail; };
  std::vector<Cell> cells; std::vector<L> h; std::vector<int> v;   // handles and the cell they stand on
  World & w; LM(World & W) : w(W) {}
  int last(int c) { while (cells[c].tail >= 0) c = cells[c].tail; return c; }
  void verify(const char * op) {
    for (size_t i = 0; i < h.size(); ++i) {
      std::vector<int> seq; for (int c = v[i]; c >= 0; c = cells[c].tail) seq.push_back(c);
      CHECK_EQ(h[i].getLength(), seq.size(), "length of list ", i, " after ", op); CHECK_EQ(h[i].isEmpty(), seq.empty(), "isEmpty of list ", i, " after ", op);
      L x = h[i]; size_t k = 0;
      for (; k < seq.size(); ++k) {
        CHECK(!x.isEmpty(), "list ", i, " ends after ", k, " of ", seq.size(), " elements after ", op);
        CHECK(LT<L>::eq(LT<L>::fromT(w, x.getHead()), cells[seq[k]].head), "element ", k, " of list ", i, " after ", op); x.moveToNext();
      }
      CHECK(x.isValid() && x.isEmpty(), "list ", i, " has more than ", k, " elements after ", op);
    }
  }
};
template <class L> static void lists(Gen & g) {
  typedef typename LT<L>::M M; TSOpts to; to.maxTypes = 2; to.maxFeats = 1; World w; w.open(g, to);
  for (int i = 0; i < 4; ++i) w.create(g, "uima.cas.TOP");
  { MType t; (void)t; }
  LM<L> m(w); size_t ops = 4 + g.small(50), changed = 0, special = 0; std::string trace;
  auto add = [&](const L & l, int c) { if (m.h.size() < 7) { m.h.push_back(l); m.v.push_back(c); } else { size_t k = g.below(7); m.h[k] = l; m.v[k] = c; } };
  auto cell = [&](const M & x, int tail) { m.cells.push_back({x, tail}); return (int)m.cells.size() - 1; };
  add(LT<L>::empty(*w.cas), -1);
  for (size_t i = 0; i < ops && !g.exhausted(); ++i) {
    size_t a = g.below(m.h.size()), b = g.below(m.h.size()); M x = LT<L>::gen(g, w); const char * op = "";
    switch (g.weighted({1, 2, 5, 5, 4, 3, 4, 2, 2, 3, 2})) {
      case 0: op = "create empty"; add(LT<L>::empty(*w.cas), -1); break;
      case 1: op = "create"; add(LT<L>::single(*w.cas, LT<L>::toT(w, x)), cell(x, -1)); break;
      case 2: { op = "addFirst"; L r = m.h[a].addFirst(LT<L>::toT(w, x)); m.v[a] = cell(x, m.v[a]); if (g.chance(1, 4)) add(r, m.v[a]); ++changed; break; }
      case 3: { op = "addLast"; L r = m.h[a].addLast(LT<L>::toT(w, x)); int c = cell(x, -1); if (m.v[a] < 0) m.v[a] = c; else m.cells[m.last(m.v[a])].tail = c; if (g.chance(1, 4)) add(r, c); ++changed; break; }
      case 4: case 5: {
        bool app = g.flip(); op = app ? "append" : "prepend"; int ca = m.v[a], cb = m.v[b];
        bool circ = ca >= 0 && cb >= 0 && m.last(ca) == m.last(cb); ++special;
        // two handles on one empty list object: nothing to link
        bool threw = throwsUima([&] { L arg = m.h[b]; if (app) m.h[a].append(arg); else m.h[a].prepend(arg); });
        CHECK(threw == circ, op, " of lists which ", circ ? "share" : "do not share", " their end ", threw ? "was refused" : "was accepted");
        if (circ) { g.label("circular refused"); break; }
        if (app) { if (ca >= 0) m.cells[m.last(ca)].tail = cb; else m.v[a] = cb; } else if (cb >= 0) { m.cells[m.last(cb)].tail = ca; m.v[a] = cb; }
        ++changed; break;
      }
      case 6: {
        op = "removeElement"; std::vector<int> seq; for (int c = m.v[a]; c >= 0; c = m.cells[c].tail) seq.push_back(c);
        if (!seq.empty() && g.chance(3, 4)) x = m.cells[g.pick(seq)].head;
        L r = m.h[a].removeElement(LT<L>::toT(w, x)); size_t k = 0; while (k < seq.size() && !LT<L>::eq(m.cells[seq[k]].head, x)) ++k;
        if (k == seq.size()) { CHECK(!r.isValid(), "removing an absent element returned something"); g.label("remove absent"); break; }
        if (k == 0) m.v[a] = m.cells[seq[0]].tail; else m.cells[seq[k - 1]].tail = m.cells[seq[k]].tail;
        m.cells[seq[k]].tail = -1; CHECK(r.isValid(), "removeElement found nothing"); add(r, seq[k]); ++changed; g.label(k == 0 ? "remove first" : k + 1 == seq.size() ? "remove last" : "remove middle"); break;
      }
      case 7: op = "setHead"; if (m.v[a] < 0) { CHECK(throwsUima([&] { m.h[a].setHead(LT<L>::toT(w, x)); }), "setHead of an empty list"); ++special; } else { m.h[a].setHead(LT<L>::toT(w, x)); m.cells[m.v[a]].head = x; ++changed; } break;
      case 8: {
        op = "setTail"; if (m.v[a] < 0) { CHECK(throwsUima([&] { m.h[a].setTail(m.h[b]); }), "setTail of an empty list"); ++special; break; }
        bool cyc = false; for (int c = m.v[b]; c >= 0; c = m.cells[c].tail) if (c == m.v[a]) cyc = true;
        if (cyc) break;
        m.h[a].setTail(m.h[b]); m.cells[m.v[a]].tail = m.v[b]; ++changed; break;
      }
      case 9: {
        op = "moveToNext"; ++special;
        if (m.v[a] < 0) { CHECK(throwsUima([&] { m.h[a].moveToNext(); }), "moveToNext of an empty list"); CHECK(throwsUima([&] { m.h[a].getHead(); }), "getHead of an empty list"); CHECK(throwsUima([&] { m.h[a].getTail(); }), "getTail of an empty list"); g.label("end of list refused"); }
        else { L t = m.h[a].getTail(); m.h[a].moveToNext(); CHECK_EQ(addr(t), addr(m.h[a]), "getTail and moveToNext"); m.v[a] = m.cells[m.v[a]].tail; }
        break;
      }
      case 10: {
        op = "invalid"; L none; ++special;
        CHECK(throwsUima([&] { none.getLength(); }) && throwsUima([&] { none.isEmpty(); }) && throwsUima([&] { none.getHead(); }) && throwsUima([&] { none.addFirst(LT<L>::toT(w, x)); }) && throwsUima([&] { none.addLast(LT<L>::toT(w, x)); }) && throwsUima([&] { none.removeElement(LT<L>::toT(w, x)); }), "a default constructed list was used");
        CHECK(throwsUima([&] { m.h[a].append(none); }) && throwsUima([&] { m.h[a].prepend(none); }), "a default constructed list was appended");
        if (m.v[a] >= 0) CHECK(throwsUima([&] { m.h[a].setTail(none); }), "a default constructed list was set as tail");
        CHECK(throwsUima([&] { L bad(w.fs(g.below(w.nodes.size()))); (void)bad; }), "a TOP was taken for a list"); break;
      }
    }
    trace += std::string(op) + " "; m.verify(op);
  }
  w.checkAll(); g.nontrivial(changed >= 4 && special >= 1); g.label(LT<L>::type()); g.sample(cat(LT<L>::type(), ": ", trace));
}
PROPERTY("P02", "lists", 60000, 3000000, "at least four changing list operations and one of append, prepend, moveToNext or a refused call") {
  switch (g.below(4)) { case 0: lists<IntListFS>(g); break; case 1: lists<FloatListFS>(g); break; case 2: lists<StringListFS>(g); break; default: lists<ListFS>(g); }
}

// Lists in features: getListFSValue gives the list last set, an untouched feature a fresh empty list that stays with the feature.
template <class L> static void listFeature(World & w, Gen & g, int kind) {
  typedef typename LT<L>::M M; (void)kind; CAS & c = *w.cas; Type t = typeOf(c, "vt.Holder");
  Feature f = t.getFeatureByBaseName(us(std::string(LT<L>::type()).substr(9))); FeatureStructure a = c.createFS(t), b = c.createFS(t);
  CHECK(!L::hasListElements(a, f), "hasListElements of an unset feature");
  std::vector<M> vals; L l = L(L::getListFSValue(a, f)); CHECK(l.isEmpty(), "an unset list feature is not empty"); CHECK(!L::hasListElements(a, f), "hasListElements of an empty list");
  size_t n = g.below(5); for (size_t i = 0; i < n; ++i) { M x = LT<L>::gen(g, w); l.addLast(LT<L>::toT(w, x)); vals.push_back(x); }
  a.setFSValue(f, l); b.setFSValue(f, l);
  CHECK_EQ(L::hasListElements(a, f), n > 0, "hasListElements");
  for (auto & o : {a, b}) { L r = L(L::getListFSValue(o, f)); CHECK_EQ(addr(r), addr(l), "list feature"); for (auto & x : vals) { CHECK(LT<L>::eq(LT<L>::fromT(w, r.getHead()), x), "element of a list feature"); r.moveToNext(); } CHECK(r.isEmpty(), "end of a list feature"); }
  Feature wrong = t.getFeatureByBaseName(us("num")); CHECK(throwsUima([&] { L::getListFSValue(a, wrong); }), "getListFSValue of an int feature");
  g.nontrivial(n >= 2); g.sample(cat(LT<L>::type(), " feature with ", n, " elements"));
}
PROPERTY("P02", "list-features", 8000, 200000, "a list of at least two elements") {
  initUima(); World w; MType t; t.name = "vt.Holder"; t.super = "uima.cas.TOP"; t.feats = {{"FSList", "uima.cas.FSList"}, {"IntegerList", "uima.cas.IntegerList"}, {"FloatList", "uima.cas.FloatList"}, {"StringList", "uima.cas.StringList"}, {"num", "uima.cas.Integer"}};
  w.ts.types.push_back(t); w.sys = buildTS(w.ts); w.cas = makeCAS(*w.sys); w.create(g, "uima.cas.TOP"); w.create(g, "uima.cas.TOP");
  switch (g.below(4)) { case 0: listFeature<IntListFS>(w, g, 0); break; case 1: listFeature<FloatListFS>(w, g, 1); break; case 2: listFeature<StringListFS>(w, g, 2); break; default: listFeature<ListFS>(w, g, 3); }
}
