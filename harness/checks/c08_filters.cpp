// P08: filters and type sets.  P09: annotation iterators.
#include "ixmodel.hpp"
using namespace uima; using namespace vt;

// ---------------------------------------------------------------- P08
namespace {
struct F { enum Op { INT, FLT, STR, TYPE, MATCH, NOT, AND, OR } op; FSFilterBuilder::EnComparisonOperator cmp; int i = 0; float f = 0; US s; std::string type; bool subs = false; std::vector<std::pair<std::string, MFeat>> path; std::unique_ptr<F> a, b; };
typedef std::unique_ptr<F> PF;
// a path that is meaningful for instances of the type most of the time: pairs of introducing type and feature
std::vector<std::pair<std::string, MFeat>> genPath(Gen & g, const MTS & ts, std::string type, bool leaf, int kind) {
  std::vector<std::pair<std::string, MFeat>> r; size_t steps = g.weighted({leaf ? 5u : 1u, 4, 2, 1});
  for (size_t k = 0; k < steps; ++k) {
    if (g.chance(1, 25)) { type = g.pick(ts.types).name; if (ts.find(type)->strsub) break; }
    std::vector<std::pair<std::string, MFeat>> c; for (auto & p : ts.allFeats(type)) { int kk; if (rangeClass(ts, p.second.range, kk) == R_FS) c.push_back(p); }
    if (c.empty()) break;
    r.push_back(g.pick(c)); type = r.back().second.range; if (type == "uima.cas.TOP") { type = g.pick(ts.types).name; if (ts.find(type)->strsub) return r; } 
  }
  if (!leaf) return r;
  std::vector<std::pair<std::string, MFeat>> c, any; for (auto & t : ts.types) if (!t.strsub) for (auto & p : ts.allFeats(t.name)) { int kk; RangeClass rc = rangeClass(ts, p.second.range, kk); bool ok = (rc == R_PRIM && kk == kind) || (rc == R_STRSUB && kind == K_STRING); if (ok) { any.push_back(p); if (ts.subsumes(t.name, type) || ts.subsumes(type, t.name)) { c.push_back(p); c.push_back(p); } } else if (g.chance(1, 200)) c.push_back(p); }
  if (!c.empty()) r.push_back(g.pick(c)); else if (!any.empty()) r.push_back(g.pick(any)); else r.clear();
  return r;
}
PF genF(Gen & g, const MTS & ts, const std::string & type, int depth) {
  PF f(new F); size_t k = depth <= 0 ? g.below(4) : g.weighted({2, 2, 2, 2, 2, 2, 6, 4});
  f->op = (F::Op)k; f->cmp = g.one({FSFilterBuilder::EQUALS, FSFilterBuilder::GREATER, FSFilterBuilder::LESS});
  auto types = ts.allTypeNames();
  switch (f->op) {
    case F::INT: case F::FLT: case F::STR: {
      int kd = f->op == F::INT ? K_INT : f->op == F::FLT ? K_FLOAT : K_STRING; f->path = genPath(g, ts, type, true, kd);
      if (f->path.empty()) { f->op = F::TYPE; f->type = g.pick(types); f->subs = g.flip(); break; }
      MVal v = keyVal(g, kd); f->i = (int)v.i; f->f = v.f; f->s = v.s; std::string rg = f->path.back().second.range; if (f->op == F::STR && ts.find(rg) && ts.find(rg)->strsub && g.flip()) f->s = us(g.pick(ts.find(rg)->allowed)); break;
    }
    case F::TYPE: f->type = g.chance(2, 3) ? g.pick(ts.types).name : g.pick(types); f->subs = g.flip(); break;
    case F::MATCH: { f->path = genPath(g, ts, type, false, 0); std::string t = f->path.empty() ? type : f->path.back().second.range; if (t == "uima.cas.TOP") t = g.pick(ts.types).name; f->a = genF(g, ts, t, depth - 1); break; }
    case F::NOT: f->a = genF(g, ts, type, depth - 1); break;
    case F::AND: if (g.chance(2, 3)) {                                          // guarded by the type that makes the rest meaningful
      f->b = genF(g, ts, type, depth - 1); const F * x = f->b.get(); while (x->path.empty() && x->a) x = x->a.get();
      f->a.reset(new F); f->a->op = F::TYPE; f->a->subs = true; f->a->type = x->path.empty() ? type : x->path[0].first; break;
    }
    default: f->a = genF(g, ts, type, depth - 1); f->b = genF(g, ts, type, depth - 1);
  }
  return f;
}
std::string show(const F & f) {
  std::string p; for (auto & x : f.path) p += "." + x.second.name; const char * o = f.cmp == FSFilterBuilder::EQUALS ? "=" : f.cmp == FSFilterBuilder::GREATER ? ">" : "<";
  switch (f.op) {
    case F::INT: return cat(p, o, f.i); case F::FLT: return cat(p, o, f.f); case F::STR: return p + "=\"" + u8(f.s) + "\""; case F::TYPE: return (f.subs ? "type<=" : "type==") + f.type;
    case F::MATCH: return "match(" + p + "," + show(*f.a) + ")"; case F::NOT: return "not " + show(*f.a); case F::AND: return "(" + show(*f.a) + " and " + show(*f.b) + ")"; default: return "(" + show(*f.a) + " or " + show(*f.b) + ")";
  }
}
Feature feat(CAS & c, const std::pair<std::string, MFeat> & p) { return featOf(c, p.first, p.second.name); }
FSFilter * build(const FSFilterBuilder & b, CAS & c, const F & f) {
  std::vector<Feature> p; for (auto & x : f.path) p.push_back(feat(c, x));
  switch (f.op) {
    case F::INT: return b.createIntFeatureFilter(p, f.cmp, f.i); case F::FLT: return b.createFloatFeatureFilter(p, f.cmp, f.f);
    case F::STR: { std::vector<UChar> buf(f.s.getBuffer(), f.s.getBuffer() + f.s.length()); buf.push_back('Z'); FSFilter * r = b.createStringFeatureFilter(p, buf.data(), f.s.length()); buf.assign(buf.size(), 'Q'); return r; }
    case F::TYPE: return b.createTypeFilter(typeOf(c, f.type), f.subs);
    case F::MATCH: return b.createMatchFilter(p, build(b, c, *f.a)); case F::NOT: return b.createNOTFilter(build(b, c, *f.a));
    case F::AND: { FSFilter * x = build(b, c, *f.a); return b.createANDFilter(x, build(b, c, *f.b)); }
    default: { FSFilter * x = build(b, c, *f.a); return b.createORFilter(x, build(b, c, *f.b)); }
  }
}
struct Undefined {};
int step(const World & w, int n, const std::pair<std::string, MFeat> & p) {    // follows a reference feature
  if (n < 0) throw Undefined();
  auto it = w.nodes[n].feats.find(p.second.name); if (w.nodes[n].array || it == w.nodes[n].feats.end() || it->second.cls != R_FS || !w.ts.subsumes(p.first, w.nodes[n].type)) throw Undefined();
  return it->second.ref;
}
bool eval(const World & w, int n, const F & f) {
  switch (f.op) {
    case F::INT: case F::FLT: case F::STR: {
      for (size_t k = 0; k + 1 < f.path.size(); ++k) n = step(w, n, f.path[k]);
      if (n < 0) throw Undefined();
      auto & p = f.path.back(); auto it = w.nodes[n].feats.find(p.second.name); int kd = f.op == F::INT ? K_INT : f.op == F::FLT ? K_FLOAT : K_STRING;
      if (w.nodes[n].array || it == w.nodes[n].feats.end() || !w.ts.subsumes(p.first, w.nodes[n].type) || it->second.cls == R_FS || it->second.kind != kd) throw Undefined();
      if (f.op == F::STR) return it->second.s == f.s;
      if (f.op == F::INT) { INT64 x = it->second.i; return f.cmp == FSFilterBuilder::EQUALS ? x == f.i : f.cmp == FSFilterBuilder::GREATER ? x > f.i : x < f.i; }
      float x = it->second.f; return f.cmp == FSFilterBuilder::EQUALS ? x == f.f : f.cmp == FSFilterBuilder::GREATER ? x > f.f : x < f.f;
    }
    case F::TYPE: if (n < 0) throw Undefined(); return f.subs ? w.ts.subsumes(f.type, w.nodes[n].type) : f.type == w.nodes[n].type;
    case F::MATCH: for (auto & p : f.path) n = step(w, n, p); return eval(w, n, *f.a);
    case F::NOT: return !eval(w, n, *f.a); case F::AND: return eval(w, n, *f.a) && eval(w, n, *f.b); default: return eval(w, n, *f.a) || eval(w, n, *f.b);
  }
}
bool hasOp(const F & f, F::Op a, F::Op b) { return f.op == a || f.op == b || (f.a && hasOp(*f.a, a, b)) || (f.b && hasOp(*f.b, a, b)); }
bool hasPath(const F & f) { return f.path.size() > 1 || (f.op == F::MATCH && !f.path.empty()) || (f.a && hasPath(*f.a)) || (f.b && hasPath(*f.b)); }
// type system rich in references between user types
TSOpts filterTS(Gen & g) { TSOpts o; o.maxTypes = 5; o.maxFeats = 5; o.strsub = g.flip(); o.multiRefs = false; o.arraysLists = false; return o; }
// the first plain user type gets one feature of each kind a filter reads, and a reference
void rich(MTS & ts) {
  for (auto & t : ts.types) if (!t.strsub && t.name != "uima.tcas.DocumentAnnotation") {
    for (auto & f : {MFeat{"zi", "uima.cas.Integer"}, MFeat{"zf", "uima.cas.Float"}, MFeat{"zs", "uima.cas.String"}, MFeat{"zr", t.name}}) t.feats.push_back(f);
    break;
  }
}
void fill(Gen & g, IxWorld & w, size_t n) {
  for (size_t k = 0; k < n; ++k) { int x = w.make(g, 0); if (g.chance(5, 6)) w.add(x, 0); }
  for (size_t x = 0; x < w.nodes.size(); ++x) if (!w.nodes[x].array) for (auto & p : w.ts.allFeats(w.nodes[x].type)) {
    if (p.second.name == "begin" || p.second.name == "end" || p.second.name == "sofa") continue;
    bool key = false; for (auto & i : w.ix) if (w.ts.subsumes(i.type, w.nodes[x].type)) for (auto & q : i.keys) key = key || q.feat == p.second.name;
    if (key || (p.second.name != "zr" && !g.chance(4, 5))) continue;                                      // keys of indexed elements stay as they are
    int kd; RangeClass rc = rangeClass(w.ts, p.second.range, kd); if (rc == R_PRIM) w.set(x, p.second, keyVal(g, kd)); else if (rc == R_STRSUB || rc == R_FS) w.set(x, p.second, w.genVal(g, p.second.range));
  }
}
}

PROPERTY("P08", "filter", 9000, 200000, "a formula with and/or and a feature path that is true of some and false of other elements") {
  IxWorld w; w.tweak = rich; w.openIx(g, 1 + g.below(2), 1, filterTS(g)); fill(g, w, g.chance(1, 6) ? g.below(4) : 6 + g.below(12)); CAS & c = *w.views[0];
  size_t i = g.below(w.ix.size()); if (g.flip()) for (size_t k = 0; k < w.ix.size(); ++k) if (w.expect(0, i, w.ix[i].type).size() < w.expect(0, k, w.ix[k].type).size()) i = k;
  const MIndex & d = w.ix[i]; std::string type = d.type; if (g.chance(1, 3)) { auto ty = w.typesOf(i); type = g.pick(ty); }
  FSIndex x = c.getIndexRepository().getIndex(us(d.label), typeOf(c, type)); std::vector<int> S = w.iterate(x.iterator(), w.expect(0, i, type).size());
  size_t nf = 2 + g.below(4);
  for (size_t q = 0; q < nf; ++q) {
    std::string t = type; if (!S.empty() && g.chance(1, 2)) t = w.nodes[g.pick(S)].type; else if (g.chance(1, 4) && !w.nodes.empty()) t = w.nodes[g.below(w.nodes.size())].type; if (t == "uima.cas.TOP") t = g.pick(w.ts.types).name; if (w.ts.find(t) && w.ts.find(t)->strsub) t = "uima.tcas.Annotation";
    PF f = genF(g, w.ts, t, 3); g.sample(show(*f) + "; ");
    struct Hold { FSFilter * p; ~Hold() { if (p) { p->deInit(); delete p; } } } h{build(c.getFSFilterBuilder(), c, *f)}; bool defined = true, yes = false, no = false;
    for (size_t n = 0; n < w.nodes.size(); ++n) {
      int e; try { e = eval(w, n, *f); } catch (Undefined &) { e = 2; }
      int got; try { got = h.p->isFiltered(w.fs(n)); } catch (uima::Exception &) { got = 2; }
      CHECK(got == e, show(*f), " of ", w.show(n), " is ", got == 2 ? "refused" : got ? "true" : "false"); (e == 1 ? yes : e == 0 ? no : no) = true; if (e == 2 && std::find(S.begin(), S.end(), (int)n) != S.end()) defined = false;
    }
    if (g.chance(1, 8)) CHECK(throwsUima([&] { h.p->isFiltered(FeatureStructure()); }), show(*f), " of an invalid feature structure");
    g.label(defined ? "defined on the index" : "undefined for an element"); if (!defined) continue;
    std::vector<int> exp; for (int n : S) if (!eval(w, n, *f)) exp.push_back(n);
    FSIterator it = x.filteredIterator(h.p); CHECK(it.isValid() == !exp.empty(), "a new iterator filtered by ", show(*f), " over ", w.showSeq(S)); if (!exp.empty()) CHECK(w.nodeOf(it.get()) == exp[0], "a new iterator filtered by ", show(*f), " is on ", w.show(w.nodeOf(it.get())));
    auto got = w.iterate(it, S.size()); if (got != exp) fail(cat("filtered by ", show(*f), ": visits ", w.showSeq(got), ", expected ", w.showSeq(exp)));
    std::vector<int> back; for (it.moveToLast(); it.isValid(); it.moveToPrevious()) { back.insert(back.begin(), w.nodeOf(it.get())); CHECK(back.size() <= S.size(), "backward iteration goes on"); }
    if (back != exp) fail(cat("filtered by ", show(*f), " backward: visits ", w.showSeq(back), ", expected ", w.showSeq(exp)));
    if (i == w.ix.size() - 1 && w.ts.subsumes("uima.tcas.Annotation", type)) { ANIndex an = c.getAnnotationIndex(typeOf(c, type)); auto r = w.iterate(an.filteredIterator(h.p), S.size()); CHECK(r == exp, "annotation index filtered by ", show(*f), ": visits ", w.showSeq(r)); }
    if (S.size() >= 3) g.label("three or more elements"); if (!exp.empty() && exp.size() < S.size()) g.label("some but not all"); if (hasOp(*f, F::AND, F::OR)) g.label("and/or"); if (hasPath(*f)) g.label("path");
    g.nontrivial(hasOp(*f, F::AND, F::OR) && hasPath(*f) && !exp.empty() && exp.size() < S.size());
  }
}

PROPERTY("P08", "typeset", 4000, 80000, "a set with a type and one of its descendants missing, both with elements") {
  IxWorld w; w.tweak = rich; w.openIx(g, 1 + g.below(2), 1, filterTS(g)); fill(g, w, 3 + g.small(20)); CAS & c = *w.views[0];
  for (size_t q = 0; q < 4; ++q) {
    size_t i = g.below(w.ix.size()); auto ty = w.typesOf(i); std::string type = g.flip() ? w.ix[i].type : g.pick(ty);
    FSIndex x = c.getIndexRepository().getIndex(us(w.ix[i].label), typeOf(c, type)); std::vector<int> S = w.iterate(x.iterator(), w.expect(0, i, type).size()), exp;
    std::set<std::string> nm; std::set<Type> ts; std::string d; size_t den = 1 + g.below(3); for (auto & t : w.ts.allTypeNames()) if (g.chance(1, den) || (w.ts.subsumes(type, t) && g.flip())) { if (!w.ts.subsumes(type, t) && !g.chance(1, 50)) continue; nm.insert(t); ts.insert(typeOf(c, t)); d += t + " "; }
    for (int n : S) if (nm.count(w.nodes[n].type)) exp.push_back(n);
    bool outside = false; for (auto & t : nm) outside = outside || !w.ts.subsumes(type, t); g.label(outside ? "foreign types in the set" : "own types");
    std::vector<int> got; try { got = w.iterate(x.typeSetIterator(ts), S.size()); } catch (uima::Exception & e) { if (outside) continue; fail("type-set iterator over {" + d + "}: " + excText(e)); }
    if (got != exp) fail(cat("types {", d, "} of an index for ", type, ": visits ", w.showSeq(got), ", expected ", w.showSeq(exp)));
    bool in = false, out = false; for (int n : S) { if (nm.count(w.nodes[n].type)) for (int m : S) if (!nm.count(w.nodes[m].type) && w.ts.subsumes(w.nodes[n].type, w.nodes[m].type)) in = out = true; }
    g.nontrivial(in && out);
  }
}

// ---------------------------------------------------------------- P09
PROPERTY("P09", "annotations", 7000, 150000, "crossing or identical spans of several types and a subiterator that visits some but not all annotations") {
  IxWorld w; TSOpts o; o.maxTypes = 5; o.maxFeats = 1; o.strsub = false; o.multiRefs = false; o.arraysLists = false; w.openIx(g, 0, 1 + g.below(2), o); size_t aI = 0;
  std::vector<US> text(w.views.size()); std::vector<int> doc(w.views.size(), -1);
  for (size_t v = 0; v < w.views.size(); ++v) {
    text[v] = genText(g, g.chance(1, 8) ? 300 : 14, g.flip() ? T_UNI : T_XML); if (!text[v].length()) text[v] = us("x"); w.views[v]->setDocumentText(UnicodeStringRef(text[v]));
    AnnotationFS dd = w.views[v]->getDocumentAnnotation(); MNode n; n.type = "uima.tcas.DocumentAnnotation"; n.a = addr(dd); n.view = w.views[v]; for (auto & p : w.ts.allFeats(n.type)) n.feats[p.second.name] = defaultVal(w.ts, p.second.range);
    n.feats["end"].i = text[v].length(); n.feats["sofa"].ref = -2; n.feats["language"].s = us("x-unspecified"); w.nodes.push_back(n); doc[v] = w.nodes.size() - 1; w.model[v][aI].held[n.type].push_back(doc[v]);
  }
  std::vector<std::string> ann{"uima.tcas.Annotation", "uima.tcas.Annotation"}; for (auto & t : w.ts.types) if (!t.strsub && t.name != "uima.tcas.DocumentAnnotation" && w.ts.subsumes("uima.tcas.Annotation", t.name)) { ann.push_back(t.name); ann.push_back(t.name); }
  size_t n = 2 + g.small(16);
  for (size_t k = 0; k < n; ++k) {
    size_t v = g.below(w.views.size()), L = text[v].length(), b, e; std::string t = g.pick(ann);
    if (g.chance(1, 4) && w.nodes.size() > w.views.size()) { auto & m = w.nodes[g.below(w.nodes.size())]; b = m.feats.at("begin").i; e = m.feats.at("end").i; if (e > L) b = e = L; if (g.chance(1, 3) && e < L) ++e; } else { b = g.below(L + 1); e = b + g.below(L - b + 1); if (g.flip()) { b %= 6; e = std::min(L, b + g.below(5)); } if (b > e) b = e; }
    int x = w.createAnn(t, b, e, w.views[v]); if (g.chance(6, 7)) w.add(x, v);
  }
  bool span = false, some = false;
  for (size_t v = 0; v < w.views.size(); ++v) {
    CAS & c = *w.views[v]; std::vector<std::string> at; for (auto & t : w.typesOf(aI)) { at.push_back(t); w.checkIndex(g, v, aI, t); }
    ANIndex whole = c.getAnnotationIndex(); auto all = w.iterate(whole.iterator(), 1000);
    { auto & rep = c.getIndexRepository(); CHECK(w.iterate(rep.getIndex(us("AnnotationIndex")).iterator(), 1000) == all, "the annotation index by name and by method differ"); }
    w.checkSeq(w.ix[aI], all, w.expect(v, aI, "uima.tcas.Annotation"), "annotation index");
    for (size_t a = 0; a < all.size(); ++a) for (size_t b = a + 1; b < all.size(); ++b) { auto & x = w.nodes[all[a]], & y = w.nodes[all[b]]; INT64 xb = x.feats["begin"].i, xe = x.feats["end"].i, yb = y.feats["begin"].i, ye = y.feats["end"].i; if (x.type != y.type && ((xb == yb && xe == ye) || (xb < yb && yb < xe && xe < ye))) span = true; }
    for (size_t q = 0; q < w.nodes.size() && !g.exhausted(); ++q) {
      if (w.nodes[q].view != &c) continue;
      AnnotationFS an(w.fs(q)); size_t b = w.nodes[q].feats["begin"].i, e = w.nodes[q].feats["end"].i;
      CHECK(an.getBeginPosition() == b && an.getEndPosition() == e && an.getLength() == e - b, "positions of ", w.show(q)); CHECK(an.getView() == &c, "view of ", w.show(q));
      UnicodeStringRef ct = an.getCoveredText(); CHECK(US(ct.getBuffer(), ct.length()) == US(text[v], b, e - b), "covered text of ", w.show(q), " is ", u8(ct));
      std::string t = g.pick(at); Type ty = typeOf(c, t); ANIndex ix = c.getAnnotationIndex(ty); auto S = w.iterate(ix.iterator(), 1000);
      size_t from = 0; bool in = std::find(S.begin(), S.end(), (int)q) != S.end();
      if (in) from = std::find(S.begin(), S.end(), (int)q) - S.begin() + 1; else while (from < S.size() && w.cmp(w.ix[aI], S[from], q) < 0) ++from;
      std::vector<int> sub, una, unaAll; for (size_t k = from; k < S.size(); ++k) if ((size_t)w.nodes[S[k]].feats["begin"].i < e) sub.push_back(S[k]);
      auto greedy = [&](const std::vector<int> & s) { std::vector<int> r; for (int x : s) if (r.empty() || w.nodes[x].feats["begin"].i >= w.nodes[r.back()].feats["end"].i) r.push_back(x); return r; };
      una = greedy(sub); unaAll = greedy(S); std::string ctx = cat(" of ", t, " under ", w.show(q), " in ", w.showSeq(S)); bool viaIx = g.flip();
      auto run = [&](ANIterator it, const std::vector<int> & exp, const char * name, bool back) {
        CHECK(w.iterate(it, S.size()) == exp, name, ctx, " visits ", w.showSeq(w.iterate(it, S.size())), ", expected ", w.showSeq(exp));
        ANIterator c2(it); it.moveToFirst(); c2.moveToFirst(); for (size_t k = 0; k < exp.size(); ++k) { CHECK(it.isValid() && w.nodeOf(it.get()) == exp[k], name, ctx, ": element ", k); if (k == exp.size() / 2) { ANIterator c3(it); it = c3; } it.moveToNext(); CHECK(w.nodeOf(c2.get()) == exp[0], name, ctx, ": a copy moved along"); } CHECK(!it.isValid(), name, ctx, ": valid after its end");
        if (!back) return;
        std::vector<int> r; for (it.moveToLast(); it.isValid(); it.moveToPrevious()) { r.insert(r.begin(), w.nodeOf(it.get())); CHECK(r.size() <= S.size(), "backward iteration goes on"); }
        CHECK(r == exp, name, ctx, " backward visits ", w.showSeq(r), ", expected ", w.showSeq(exp));
      };
      run(viaIx ? ix.subIterator(an, enAmbiguous) : an.subIterator(ty, enAmbiguous), sub, "subiterator", true);
      run(viaIx ? ix.subIterator(an, enUnambiguous) : an.subIterator(ty, enUnambiguous), una, "unambiguous subiterator", false);
      if (g.chance(1, 4)) run(ix.unambiguousIterator(), unaAll, "unambiguous iterator", false);
      if (!sub.empty() && sub.size() < S.size() && una.size() < sub.size()) some = true;
      {                                                                          // the iterator at the begin of an annotation
        ANIterator it = ix.iterator(); if (g.flip() && it.isValid()) it.moveToNext(); size_t at2 = 0; while (at2 < S.size() && (size_t)w.nodes[S[at2]].feats["begin"].i < b) ++at2;
        bool there = at2 < S.size() && (size_t)w.nodes[S[at2]].feats["begin"].i == b; bool r = c.moveToBeginPosition(it, an); CHECK(r == there, "moveToBeginPosition", ctx, r ? " finds" : " does not find", " a begin of ", b);
        if (r) CHECK(it.isValid() && w.nodeOf(it.get()) == S[at2], "moveToBeginPosition", ctx, " stops at ", it.isValid() ? w.show(w.nodeOf(it.get())) : "the end");
      }
      // covering
      INT64 best = -1; for (int x : S) if (w.nodes[x].type != w.nodes[q].type && (size_t)w.nodes[x].feats["begin"].i <= b && (size_t)w.nodes[x].feats["end"].i >= e) best = std::max(best, w.nodes[x].feats["begin"].i);
      AnnotationFS cov = an.getFirstCoveringAnnotation(ty); CHECK(cov.isValid() == (best >= 0), "covering annotation", ctx, cov.isValid() ? " found" : " not found");
      if (best >= 0) { int r = w.nodeOf(cov); CHECK(r >= 0 && std::find(S.begin(), S.end(), r) != S.end(), "covering annotation", ctx, " is not in the index"); CHECK(cov.getBeginPosition() <= b && cov.getEndPosition() >= e, "covering annotation", ctx, " is ", w.show(r)); CHECK_EQ((INT64)cov.getBeginPosition(), best, "begin of the covering annotation", ctx); }
    }
    if (g.chance(1, 4)) {                                                        // out of range
      size_t L = text[v].length(), b = g.below(L + 2), e = g.one<size_t>({L + 1, L + 100, 0, 1u << 30}); if (b > e || e > L) { AnnotationFS f = c.createAnnotation(typeOf(c, g.pick(ann)), b, e); CHECK(throwsUima([&] { f.getCoveredText(); }), "text of [", b, ",", e, ") in a document of length ", L); }
      CHECK(!AnnotationFS().getFirstCoveringAnnotation(typeOf(c, "uima.tcas.Annotation")).isValid(), "covering annotation of an invalid one"); CHECK(throwsUima([&] { AnnotationFS().getCoveredText(); }), "text of an invalid annotation");
    }
  }
  g.nontrivial(span && some);
}
