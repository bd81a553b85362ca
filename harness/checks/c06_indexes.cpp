// P06: index contents and order.  P07: iterators as cursors.
#include "ixmodel.hpp"
using namespace uima; using namespace vt;
namespace vt {
MPrios genPrios(Gen & g, const MTS & ts) {
  MPrios r; std::vector<std::string> c; for (auto & t : ts.types) if (!t.strsub && ts.subsumes("uima.tcas.Annotation", t.name)) c.push_back(t.name);
  c.push_back("uima.tcas.Annotation"); if (std::find(c.begin(), c.end(), std::string("uima.tcas.DocumentAnnotation")) == c.end()) c.push_back("uima.tcas.DocumentAnnotation");
  if (g.chance(1, 3)) for (auto & t : ts.types) if (!t.strsub && !ts.subsumes("uima.tcas.Annotation", t.name)) c.push_back(t.name);
  for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[g.below(i)]);
  size_t n = 1 + g.below(3);
  for (size_t k = 0; k < n; ++k) { std::vector<std::string> l; for (auto & t : c) if (g.flip()) l.push_back(t); if (l.size() >= 1) r.push_back(l); }   // all sublists of one order: consistent
  return r;
}
std::vector<MIndex> genIndexes(Gen & g, const MTS & ts, size_t n) {
  std::vector<std::string> c; for (auto & t : ts.types) if (!t.strsub) { c.push_back(t.name); if (!t.feats.empty()) { c.push_back(t.name); c.push_back(t.name); } } c.push_back("uima.tcas.Annotation"); c.push_back("uima.cas.TOP"); c.push_back("uima.cas.AnnotationBase");
  std::vector<MIndex> r;
  for (size_t i = 0; i < n; ++i) {
    MIndex m; m.label = cat("ix", i); if (g.chance(1, 8)) m.label = i ? "ix0." + m.label : "\xc3\xa9" + m.label; if (g.chance(1, 4)) m.label = g.one<const char *>({"A", "_", "Z_", "AnnotationIndex", "SofaInde"}) + m.label; m.type = g.pick(c); m.kind = g.one<MIndex::Kind_>({MIndex::SORTED, MIndex::SET, MIndex::BAG, MIndex::SORTED});
    std::vector<MFeat> f; for (auto & p : ts.allFeats(m.type)) { int k; RangeClass rc = rangeClass(ts, p.second.range, k); if (rc == R_PRIM || rc == R_STRSUB) f.push_back(p.second); }
    size_t nk = 1 + g.below(3); bool tp = false;
    for (size_t k = 0; k < nk; ++k) {
      if (f.empty() || (!tp && g.chance(1, 5))) { if (!tp) { m.keys.push_back(MKey{"", false, true}); tp = true; } continue; }
      m.keys.push_back(MKey{g.pick(f).name, g.flip(), false});
    }
    r.push_back(m);
  }
  return r;
}
MVal keyVal(Gen & g, int kind) {
  MVal v; v.kind = kind; v.set = true; size_t k = g.below(8);
  static const int iv[] = {0, 1, 2, -1, 7, INT32_MAX, INT32_MIN, 1 << 30}; static const float fv[] = {0, -0.0f, 1, 1.5f, -1.5f, 1e30f, -1e30f, 1e-30f};
  static const INT64 lv[] = {0, 1, -1, (INT64)1 << 32, ((INT64)1 << 32) + 1, INT64_MAX, INT64_MIN, -((INT64)1 << 33)}; static const double dv[] = {0, -0.0, 1.25, 1.5, -1e300, 1e300, 1e-300, -2};
  static const short sv[] = {0, 1, -1, 2, SHRT_MAX, SHRT_MIN, 256, -256}; static const char bv[] = {0, 1, -1, 2, 127, -128, 64, -64};
  bool few = g.flip(); if (few) k = k % 3;
  switch (kind) { case K_INT: v.i = iv[k]; break; case K_FLOAT: v.f = fv[k]; break; case K_DOUBLE: v.d = dv[k]; break; case K_LONG: v.i = lv[k]; break; case K_SHORT: v.i = sv[k]; break; case K_BYTE: v.i = bv[k]; break; case K_BOOL: v.i = k & 1; break; default: v.s = genSmallText(g); }
  return v;
}
void IxWorld::openIx(Gen & g, size_t nIx, size_t nViews, const TSOpts & o) {
  initUima(); ts = genTS(g, o); if (tweak) tweak(ts); if (g.chance(1, 2)) prios = genPrios(g, ts); sys = buildTS(ts, &g, prios); ix = genIndexes(g, ts, nIx); cas = makeCAS(*sys, ix, {});
  MIndex a; a.label = "AnnotationIndex"; a.type = "uima.tcas.Annotation"; a.keys = {MKey{"begin", false, false}, MKey{"end", true, false}, MKey{"", false, true}}; ix.push_back(a);
  views.push_back(cas->getView(us("_InitialView"))); for (size_t i = 1; i < nViews; ++i) views.push_back(cas->createView(us(cat("view", i))));
  model.assign(nViews, std::vector<Part>(ix.size())); maxPos = 8;
}
size_t IxWorld::prio(const std::string & type) const { return cas->getHeap()->getTypeSystem().getTypePriorityNumber(uima::internal::FSPromoter::demoteType(typeOf(*cas, type))); }
int IxWorld::cmp(const MIndex & d, int a, int b) const {
  for (auto & k : d.keys) {
    int r = 0;
    if (k.typePrio) { if (nodes[a].type != nodes[b].type) r = prio(nodes[a].type) < prio(nodes[b].type) ? -1 : 1; }
    else {
      const MVal & x = nodes[a].feats.at(k.feat), & y = nodes[b].feats.at(k.feat);
      switch (x.kind) {
        case K_FLOAT: r = x.f < y.f ? -1 : x.f > y.f; break; case K_DOUBLE: r = x.d < y.d ? -1 : x.d > y.d; break;
        case K_STRING: r = x.s.compare(y.s); break; default: r = x.i < y.i ? -1 : x.i > y.i;
      }
    }
    if (r) return k.desc ? -r : r;
  }
  return 0;
}
void IxWorld::add(int n, size_t v) {
  views[v]->getIndexRepository().addFS(promote(nodes[n].a, *views[v]));
  for (size_t i = 0; i < ix.size(); ++i) if (ts.subsumes(ix[i].type, nodes[n].type)) {
    auto & h = model[v][i].held[nodes[n].type]; bool has = false; if (ix[i].kind == MIndex::SET) for (int x : h) has = has || cmp(ix[i], x, n) == 0;
    if (!has) h.push_back(n);
  }
}
void IxWorld::remove(int n, size_t v) {
  views[v]->getIndexRepository().removeFS(promote(nodes[n].a, *views[v]));
  for (size_t i = 0; i < ix.size(); ++i) if (ts.subsumes(ix[i].type, nodes[n].type)) {
    auto & h = model[v][i].held[nodes[n].type];
    for (size_t k = 0; k < h.size(); ++k) if (ix[i].kind == MIndex::SET ? cmp(ix[i], h[k], n) == 0 : h[k] == n) { h.erase(h.begin() + k); break; }
  }
}
int IxWorld::make(Gen & g, size_t v) {
  auto c = creatable(); if (g.chance(1, 4)) for (auto & i : ix) if (i.type != "uima.cas.TOP" && i.type != "uima.cas.AnnotationBase" && i.type != "uima.tcas.Annotation") { c.assign(1, i.type); for (auto & t : ts.types) if (!t.strsub && ts.subsumes(i.type, t.name)) c.push_back(t.name); }
  c.push_back("uima.tcas.Annotation"); std::string t = g.pick(c); int n;
  if (ts.subsumes("uima.tcas.Annotation", t)) { size_t b = g.below(5), e = b + g.below(4); n = createAnn(t, b, e, views[v]); } else { if (g.chance(1, 12)) return createArray(g.below(A_N), g.below(3), views[v]); n = create(g, t, views[v]); }
  std::set<std::string> keys; for (auto & i : ix) if (ts.subsumes(i.type, t)) for (auto & k : i.keys) if (!k.typePrio) keys.insert(k.feat);
  bool ann = ts.subsumes("uima.tcas.Annotation", t);
  for (auto & p : ts.allFeats(t)) if (keys.count(p.second.name) && !(ann && (p.second.name == "begin" || p.second.name == "end")) && g.chance(4, 5)) { int k; RangeClass rc = rangeClass(ts, p.second.range, k); if (rc == R_PRIM) set(n, p.second, keyVal(g, k)); else if (rc == R_STRSUB) set(n, p.second, genVal(g, p.second.range)); }
  return n;
}
std::vector<int> IxWorld::expect(size_t v, size_t i, const std::string & type) const { std::vector<int> r; for (auto & p : model[v][i].held) if (ts.subsumes(type, p.first)) r.insert(r.end(), p.second.begin(), p.second.end()); return r; }
int IxWorld::nodeOf(const FeatureStructure & f) const {
  if (idxN > nodes.size()) { idx.clear(); idxN = 0; }
  for (; idxN < nodes.size(); ++idxN) idx[nodes[idxN].a] = idxN;
  auto it = idx.find(addr(f)); return it == idx.end() ? -1 : it->second;
}
std::vector<int> IxWorld::iterate(FSIterator it, size_t limit) const {
  std::vector<int> r; for (it.moveToFirst(); it.isValid(); it.moveToNext()) { FeatureStructure f = it.get(); CHECK(f.isValid(), "a valid iterator gives an invalid feature structure"); int n = nodeOf(f); CHECK(n >= 0, "an iterator gives a feature structure never created: ", addr(f), " of type ", u8(f.getType().getName())); r.push_back(n); CHECK(r.size() <= limit + 3, "iteration goes on after ", r.size(), " elements"); }
  return r;
}
std::string IxWorld::showSeq(const std::vector<int> & s) const { std::string r; for (int x : s) { r += x < 0 ? cat("?", x) : show(x); r += " "; if (r.size() > 900) return r + "..."; } return r.empty() ? "(nothing)" : r; }
std::vector<std::string> IxWorld::typesOf(size_t i) const { std::vector<std::string> r; for (auto & t : ts.allTypeNames()) if (ts.subsumes(ix[i].type, t)) r.push_back(t); return r; }
void IxWorld::checkSeq(const MIndex & d, std::vector<int> got, std::vector<int> exp, const std::string & what) const {
  for (size_t k = 1; d.kind != MIndex::BAG && k < got.size(); ++k) CHECK(cmp(d, got[k - 1], got[k]) <= 0, what, ": ", show(got[k - 1]), " comes before ", show(got[k]));
  std::vector<int> a = got, b = exp; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  if (a != b) fail(cat(what, " visits ", showSeq(got), ", expected in some order ", showSeq(exp)));
}
static std::string showIx(const MIndex & d) { std::string r = cat(d.label, "(", d.kind == MIndex::SORTED ? "sorted" : d.kind == MIndex::SET ? "set" : "bag", " ", d.type); for (auto & k : d.keys) r += k.typePrio ? " <prio>" : (k.desc ? " -" : " +") + k.feat; return r + ")"; }
void IxWorld::checkIndex(Gen & g, size_t v, size_t i, const std::string & type) {
  FSIndexRepository & rep = views[v]->getIndexRepository(); const MIndex & d = ix[i]; bool whole = type == d.type && g.flip();
  FSIndex x = whole ? rep.getIndex(us(d.label)) : rep.getIndex(us(d.label), typeOf(*cas, type)); CHECK(x.isValid(), "index ", d.label, " of ", type, " invalid");
  auto exp = expect(v, i, type); std::string what = cat("index ", showIx(d), " for ", type, " in view ", v);
  CHECK_EQ(x.getSize(), exp.size(), "size of ", what, ", held ", showSeq(exp)); checkSeq(d, iterate(x.iterator(), exp.size()), exp, what);
  for (size_t q = 0; q < 3 && !nodes.empty(); ++q) {
    int n = g.below(nodes.size()); if (!ts.subsumes(d.type, nodes[n].type)) continue;
    FeatureStructure f = x.find(fs(n)); bool e = false; for (int h : exp) e = e || (d.kind == MIndex::BAG ? h == n : cmp(d, h, n) == 0);
    CHECK(f.isValid() == e, "find of ", show(n), " in ", what, e ? " finds nothing" : " finds something", ", held ", showSeq(exp));
    if (e) { int r = nodeOf(f); CHECK(r >= 0 && std::find(exp.begin(), exp.end(), r) != exp.end(), "find gives a feature structure that ", what, " does not hold"); CHECK(d.kind == MIndex::BAG ? r == n : cmp(d, r, n) == 0, "find of ", show(n), " in ", what, " gives ", show(r)); }
  }
}
void IxWorld::checkShape(Gen & g) const {
  // the type order is total and keeps the declared priorities
  { std::set<size_t> s; for (auto & t : ts.allTypeNames()) CHECK(s.insert(prio(t)).second, "two types share a priority"); for (auto & l : prios) for (size_t k = 1; k < l.size(); ++k) CHECK(prio(l[k - 1]) < prio(l[k]), "declared type priority ", l[k - 1], " over ", l[k], " is not kept"); }
  for (size_t v = 0; v < views.size(); ++v) {
    FSIndexRepository & r = views[v]->getIndexRepository(); std::set<std::string> ids, exp{"SofaIndex"}; for (auto & i : ix) exp.insert(i.label);
    for (auto & u : r.getAllIndexIDs()) { CHECK(ids.insert(u8(u)).second, "index ", u8(u), " is listed twice"); CHECK(r.isValidIndexID(u), "a listed index is not valid"); }
    std::string s; for (auto & x : ids) s += x + " "; for (auto & i : ix) { CHECK(ids.count(i.label), "index ", i.label, " is not listed: ", s); CHECK_EQ(u8(r.getTypeForIndex(us(i.label)).getName()), i.type, "type of index ", i.label); for (auto & t : ts.allTypeNames()) CHECK(r.isValidIndexID(us(i.label), typeOf(*cas, t)) == ts.subsumes(i.type, t), "isValidIndexID of ", i.label, " for ", t); }
    for (auto l : {"", "ix", "ix00", "annotationIndex", "AnnotationInde"}) { CHECK(!r.isValidIndexID(us(l)), "unknown index '", l, "' is valid"); CHECK(throwsUima([&] { r.getIndex(us(l)); }), "unknown index '", l, "' is found"); CHECK(throwsUima([&] { r.getIndex(us(l), sys->getTopType()); }), "unknown index '", l, "' is found for a type"); }
    auto all = ts.allTypeNames(); for (auto & i : ix) { std::string t = g.pick(all); if (!ts.subsumes(i.type, t)) CHECK(throwsUima([&] { r.getIndex(us(i.label), typeOf(*cas, t)); }), "index ", i.label, " over ", i.type, " is given for ", t); }
  }
}
}
static TSOpts ixTS(Gen & g) { TSOpts o; o.maxTypes = 6; o.maxFeats = 4; o.strsub = g.chance(1, 4); o.multiRefs = false; return o; }

PROPERTY("P06", "contents", 9000, 250000, "removals, and an index over several types with equal keys") {
  IxWorld w; w.openIx(g, 1 + g.below(3), 1 + g.below(3), ixTS(g)); std::string d; for (auto & i : w.ix) d += showIx(i) + " "; g.sample(w.ts.describe() + " " + d);
  w.checkShape(g);
  size_t ops = 5 + g.small(60), removed = 0; bool ties = false, multi = false; std::string hist;
  for (size_t k = 0; k < ops && !g.exhausted(); ++k) {
    size_t v = g.below(w.views.size());
    switch (g.weighted({6, 3, 3, 1, 3})) {
      case 0: { int n = w.make(g, v); if (g.chance(5, 6)) w.add(n, v); break; }
      case 1: { if (w.nodes.empty()) break; int n = g.below(w.nodes.size()); if (w.nodes[n].view != w.views[v] && w.ts.subsumes("uima.cas.AnnotationBase", w.nodes[n].type)) break; w.add(n, v); break; }
      case 2: { if (w.nodes.empty()) break; int n = g.below(w.nodes.size()); if (w.nodes[n].view != w.views[v] && w.ts.subsumes("uima.cas.AnnotationBase", w.nodes[n].type)) break; w.remove(n, v); ++removed; break; }
      case 3: { CHECK(throwsUima([&] { w.views[v]->getIndexRepository().addFS(FeatureStructure()); }), "an invalid feature structure is added"); CHECK(throwsUima([&] { w.views[v]->getIndexRepository().removeFS(FeatureStructure()); }), "an invalid feature structure is removed"); break; }
      default: { size_t i = g.below(w.ix.size()); auto t = w.typesOf(i); std::string ty = w.ix[i].type; if (g.flip()) ty = g.pick(t); if (ty == "uima.cas.TOP" && w.views.size() > 1) break; w.checkIndex(g, v, i, ty); }
    }
  }
  for (size_t v = 0; v < w.views.size(); ++v) for (size_t i = 0; i < w.ix.size(); ++i) for (auto & t : w.typesOf(i)) {
    if (w.ts.subsumes(t, "uima.cas.Sofa")) continue;                      // also holds the sofas
    auto e = w.expect(v, i, t); if (e.empty() && t.compare(0, 9, "uima.cas.") == 0 && g.chance(3, 4)) continue;
    w.checkIndex(g, v, i, t); std::set<std::string> tt; for (size_t a = 0; a < e.size(); ++a) { tt.insert(w.nodes[e[a]].type); for (size_t b = 0; b < a; ++b) ties = ties || w.cmp(w.ix[i], e[a], e[b]) == 0; } multi = multi || tt.size() > 1;
  }
  for (size_t n = 0; n < w.nodes.size(); ++n) w.check(n);                   // indexing does not touch the values
  g.nontrivial(removed && ties && multi);
}

// a filter on node numbers
struct PickFilter : FSFilter { const IxWorld & w; std::set<int> in; PickFilter(const IxWorld & w_) : w(w_) {} virtual bool isFiltered(FeatureStructure const & f) const { return !in.count(w.nodeOf(f)); } };

PROPERTY("P07", "cursor", 14000, 250000, "an index of three or more elements, direction changes at an end and a copy of an iterator") {
  IxWorld w; w.openIx(g, 1 + g.below(2), 1, ixTS(g)); size_t n = g.chance(1, 10) ? 0 : 2 + g.small(14);
  for (size_t k = 0; k < n; ++k) { int x = w.make(g, 0); if (g.chance(4, 5)) w.add(x, 0); if (g.chance(1, 6)) w.add(x, 0); if (g.chance(1, 8)) w.remove(g.below(w.nodes.size()), 0); }
  size_t i = g.below(w.ix.size()); auto ty = w.typesOf(i); std::string type = w.ix[i].type; if (g.chance(1, 3)) type = g.pick(ty); if (w.expect(0, i, type).empty()) { i = w.ix.size() - 1; type = w.ix[i].type; for (size_t k = 0; k < w.ix.size(); ++k) if (w.expect(0, k, w.ix[k].type).size() > w.expect(0, i, type).size()) { i = k; type = w.ix[k].type; } } const MIndex & d = w.ix[i];
  FSIndex x = w.views[0]->getIndexRepository().getIndex(us(d.label), typeOf(*w.cas, type));
  std::vector<int> S = w.iterate(x.iterator(), w.expect(0, i, type).size()); w.checkSeq(d, S, w.expect(0, i, type), cat("index ", d.label));
  PickFilter pf(w); int kind = g.weighted({4, 2, 2}); std::set<Type> tset; std::string kindName = "plain";
  auto fresh = [&]() { if (kind == 1) return x.filteredIterator(&pf); if (kind == 2) return x.typeSetIterator(tset); return x.iterator(); };
  if (kind == 1) { kindName = "filtered"; std::vector<int> T; for (int e : S) if (!pf.in.count(e) && g.chance(2, 3)) pf.in.insert(e); for (int e : S) if (pf.in.count(e)) T.push_back(e); S = T; }
  if (kind == 2) { kindName = "type-set"; std::set<std::string> nm; for (auto & t : w.typesOf(i)) if (w.ts.subsumes(type, t) && g.chance(1, 2)) { nm.insert(t); tset.insert(typeOf(*w.cas, t)); } std::vector<int> T; for (int e : S) if (nm.count(w.nodes[e].type)) T.push_back(e); S = T; }
  g.label(kindName); g.label(cat("size ", S.size() > 3 ? "4+" : cat(S.size()))); std::string ctx = cat(kindName, " iterator over ", showIx(d), " for ", type, ", contents ", w.showSeq(S), "; "), hist;
  g.sample(ctx);
  struct It { FSIterator it; long p; }; const long INV = -1, UNKNOWN = -2; std::vector<It> its; its.push_back(It{fresh(), UNKNOWN}); bool turn = false, copied = false; int lastDir = 0;
  auto look = [&](It & t) {
    if (t.p == UNKNOWN) return;
    CHECK(t.it.isValid() == (t.p != INV), ctx, hist, ": isValid is ", t.it.isValid()); if (t.p == INV) return;
    int e = w.nodeOf(t.it.get()); CHECK(e == S[t.p], ctx, hist, ": get gives ", e < 0 ? cat(e) : w.show(e), ", expected element ", t.p);
  };
  { It & t = its[0]; t.p = S.empty() ? INV : 0; hist = "new"; look(t); }
  size_t ops = 4 + g.below(28);
  for (size_t k = 0; k < ops && !g.exhausted(); ++k) {
    size_t q = g.below(its.size()); It & t = its[q]; long L = (long)S.size();
    switch (g.weighted({2, 2, 5, 5, 3, 2, 2, 2, 1})) {
      case 0: hist += cat(" ", q, ".first"); t.it.moveToFirst(); t.p = L ? 0 : INV; break;
      case 1: hist += cat(" ", q, ".last"); t.it.moveToLast(); t.p = L ? L - 1 : INV; break;
      case 2: if (t.p < 0) continue; hist += cat(" ", q, ".next"); t.it.moveToNext(); if (lastDir < 0 && (t.p == 0 || t.p == L - 1)) turn = true; lastDir = 1; t.p = t.p + 1 < L ? t.p + 1 : INV; break;
      case 3: if (t.p < 0) continue; hist += cat(" ", q, ".previous"); t.it.moveToPrevious(); if (lastDir > 0 && (t.p == 0 || t.p == L - 1)) turn = true; lastDir = -1; t.p = t.p > 0 ? t.p - 1 : INV; break;
      case 4: {
        std::vector<int> c; for (size_t m = 0; m < w.nodes.size(); ++m) if (w.ts.subsumes(type, w.nodes[m].type)) c.push_back(m);
        if (c.empty()) continue;
        int a = g.pick(c); hist += cat(" ", q, ".moveTo(", w.show(a), ")"); long old = t.p;
        bool inS = std::find(S.begin(), S.end(), a) != S.end(); t.it.moveTo(w.fs(a));
        if (inS) { CHECK(t.it.isValid() && w.nodeOf(t.it.get()) == a, ctx, hist, ": not on the argument, which is in the index"); t.p = std::find(S.begin(), S.end(), a) - S.begin(); if (std::count(S.begin(), S.end(), a) > 1) t.p = UNKNOWN; break; }
        if (d.kind == MIndex::BAG) { t.p = UNKNOWN; break; }                 // an unordered index has no place for it
        long lo = 0; while (lo < L && w.cmp(d, S[lo], a) < 0) ++lo; long hi = lo; while (hi < L && w.cmp(d, S[hi], a) == 0) ++hi;   // elements not smaller start at lo, greater ones at hi
        if (!t.it.isValid()) { CHECK(kind != 0 ? hi == L : lo == L || old == INV, ctx, hist, ": invalid, but element ", lo, " is not smaller"); if (kind == 0) CHECK(lo == L, ctx, hist, ": invalid, but element ", lo, " is not smaller"); t.p = INV; break; }
        int e = w.nodeOf(t.it.get()); 
        if (lo == L) { CHECK(old == UNKNOWN || (old >= 0 && e == S[old]), ctx, hist, ": no element is not smaller, and the iterator moved"); break; }
        long p = lo; if (kind) while (p < hi && S[p] != e) ++p;               // among equals a filter may skip
        CHECK(p < L && S[p] == e, ctx, hist, ": on ", w.show(e), ", expected element ", lo); t.p = std::count(S.begin(), S.end(), e) > 1 ? UNKNOWN : p; break;
      }
      case 5: { if (t.p < 0) continue; hist += cat(" ", q, ".peekNext"); FeatureStructure f = t.it.peekNext(); CHECK(f.isValid() == (t.p + 1 < L), ctx, hist, ": validity of the result"); if (f.isValid()) CHECK(w.nodeOf(f) == S[t.p + 1], ctx, hist, ": gives ", w.show(w.nodeOf(f))); break; }
      case 6: { if (t.p < 0) continue; hist += cat(" ", q, ".peekPrevious"); FeatureStructure f = t.it.peekPrevious(); CHECK(f.isValid() == (t.p > 0), ctx, hist, ": validity of the result"); if (f.isValid()) CHECK(w.nodeOf(f) == S[t.p - 1], ctx, hist, ": gives ", w.show(w.nodeOf(f))); break; }
      case 7: if (its.size() < 4) { hist += cat(" ", its.size(), "=copy of ", q); copied = true; long p = t.p; FSIterator c(t.it); its.push_back(It{c, p}); } else { size_t r = g.below(its.size()); hist += cat(" ", r, ":=", q); copied = true; its[r].it = t.it; its[r].p = t.p; } break;
      default: { FSIterator none, n2(none); CHECK(!none.isValid() && !n2.isValid(), "a default constructed iterator is valid"); size_t r = g.below(its.size()); if (r != q) { hist += cat(" ", q, ":=fresh"); t.it = fresh(); t.p = L ? 0 : INV; } }
    }
    for (auto & o : its) look(o);
  }
  g.nontrivial(S.size() >= 3 && turn && copied);
}
