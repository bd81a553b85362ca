// P22: descriptors which break one rule are refused.
#include "engines.hpp"
#include "ixmodel.hpp"
using namespace uima;
using namespace vt;
namespace {
struct Tree {
  Gen & g; Ae root; MTS ts; std::vector<Ae *> all, prims, used; std::vector<std::string> types; std::string rule, where;
  explicit Tree(Gen & g) : g(g) {}
  void reach(Ae & a) { used.push_back(&a); for (auto & d : a.dels) if (std::find(a.nodes.begin(), a.nodes.end(), d.key) != a.nodes.end()) reach(*d.ae); }
  void list() { all.clear(); prims.clear(); used.clear(); componentsOf(root, all); primitivesOf(root, prims); reach(root); }
  void params(Ae & c) {
    AeOpts o; o.depth = 0; o.wild = o.imports = false; Ae x = genAe(g, o); c.plain = x.plain; c.common = x.common; c.groups = x.groups; c.paramElem = x.paramElem; c.defGroup = x.defGroup; c.strategy = x.strategy; c.sets = x.sets; c.gsets = x.gsets; c.setElem = x.setElem;
    for (auto * l : {&c.plain, &c.common}) for (auto & p : *l) if (!c.setElem) p.mandatory = false; for (auto & gr : c.groups) for (auto & p : gr.params) if (!c.setElem) p.mandatory = false;
    // values only in the default group, where the others fall back to it
    if (c.strategy == 1 && !c.defGroup.empty() && g.flip()) for (auto & p : c.common) if (p.mandatory) for (auto & s : c.gsets) if (std::find(s.names.begin(), s.names.end(), c.defGroup) == s.names.end() && g.flip())
      s.sets.erase(std::remove_if(s.sets.begin(), s.sets.end(), [&](const AeSetting & v) { return v.name == p.name; }), s.sets.end());
  }
  void make() {
    TreeOpts o; o.maxPrims = 5; root = g.chance(1, 5) ? primitiveAe("p0") : genEngineTree(g, o); TSOpts to; to.maxTypes = 4; to.strsub = true; ts = genTS(g, to); list(); spreadTypes(g, ts, root);
    for (auto c : all) { if (g.flip()) params(*c); if (!c->primitive && g.chance(1, 3)) c->flow = 1; }
    for (auto & x : genIndexes(g, ts, g.below(4))) for (size_t k = 1 + g.chance(1, 4); k-- > 0;) { Ae * c = g.pick(all); bool has = false; for (auto & y : c->ixs) has = has || y.label == x.label; if (has) continue; c->ixs.push_back(x); c->ixFile.push_back(0); c->ixElem = true; }
    if (g.flip()) for (auto & l : genPrios(g, ts)) { Ae * c = g.pick(all); c->prios.push_back(l); c->prioFile.push_back(0); }
    for (auto & t : ts.types) if (!t.strsub) types.push_back(t.name); types.push_back("uima.tcas.Annotation"); types.push_back("uima.cas.TOP");
  }
  Ae & any() { Ae * c = g.pick(all); where = c->name; return *c; }
  Ae & live(bool prim) { std::vector<Ae *> v; for (auto c : used) if (c->primitive == prim) v.push_back(c); if (v.empty()) { where.clear(); static Ae none; none = Ae(); return none; } Ae * c = g.pick(v); where = c->name; return *c; }
  AeParam param(const std::string & n) { AeParam p; p.name = n; p.type = (PType)g.below(4); p.multi = g.chance(1, 3); return p; }
  std::vector<AeParam> * lists(Ae & c, bool fill) {   // a list of declarations of a component
    if (fill && c.plain.empty() && c.groups.empty() && c.common.empty()) { c.paramElem = true; if (g.flip()) c.plain.push_back(param("own")); else { AeGroup gr; gr.names = {"g1"}; if (g.flip()) gr.names.push_back("g2"); gr.params.push_back(param("own")); c.groups.push_back(gr); if (g.flip()) c.common.push_back(param("shared")); } }
    std::vector<std::vector<AeParam> *> v; if (!c.plain.empty()) v.push_back(&c.plain); if (!c.common.empty() && !c.groups.empty()) v.push_back(&c.common); for (auto & gr : c.groups) if (!gr.params.empty() && !gr.names.empty()) v.push_back(&gr.params);
    return v.empty() ? nullptr : g.pick(v);
  }
  // gives one parameter a setting in every group it can be set in; returns the list of settings of one of them
  std::vector<AeSetting> * setting(Ae & c, AeParam & out) {
    auto l = lists(c, true); if (!l) return nullptr; AeParam & p = (*l)[g.below(l->size())]; out = p; c.setElem = true;
    auto put = [&](std::vector<AeSetting> & s) { for (auto & x : s) if (x.name == p.name) return; s.push_back({p.name, genAeVal(g, p.type, p.multi)}); };
    if (l == &c.plain) { put(c.sets); return &c.sets; }
    std::vector<std::string> names; for (auto & gr : c.groups) if (l == &c.common || l == &gr.params) for (auto & n : gr.names) names.push_back(n); if (names.empty()) return nullptr; std::string n = g.pick(names);
    for (auto & s : c.gsets) for (auto & x : s.names) if (x == n) { put(s.sets); return &s.sets; }
    AeSetGroup s; s.names = {n}; put(s.sets); c.gsets.push_back(s); return &c.gsets.back().sets;
  }
  void type(Ae & c, MType t) { c.ts.types.push_back(t); c.tsFile.push_back(0); c.tsElem = true; }
  size_t times() { return g.chance(1, 3) ? 2 + g.below(3) : 1; }
  template <class T> void put(std::vector<T> & v, const T & x) { for (size_t k = times(); k-- > 0;) v.insert(v.begin() + g.below(v.size() + 1), x); }
  bool dupDelegate() { Ae & c = any(); if (c.primitive) return false; AeDel d; d.key = g.pick(c.dels).key; d.ae = std::make_shared<Ae>(g.flip() ? *c.dels[0].ae : primitiveAe("twice")); put(c.dels, d); return true; }
  bool dupParam() {
    Ae & c = any(); auto l = lists(c, true); if (!l) return false; AeParam p = g.pick(*l); if (g.flip()) { p.type = (PType)g.below(4); p.multi = g.flip(); p.mandatory = false; }
    if (l == &c.common && !c.groups.empty() && g.flip()) { auto & gr = c.groups[g.below(c.groups.size())]; if (gr.names.empty()) return false; put(gr.params, p); } else put(*l, p);
    return true;
  }
  bool dupGroup() { Ae & c = any(); if (c.groups.empty() && !c.plain.empty()) return false; c.paramElem = true; if (c.groups.empty() || c.groups[0].names.empty()) { AeGroup gr; gr.names = {"g1"}; c.groups.assign(1, gr); c.gsets.clear(); for (auto & p : c.common) p.mandatory = false; } std::string n = c.groups[0].names[0]; if (g.flip()) { AeGroup gr; gr.names = {n}; put(c.groups, gr); } else put(c.groups[0].names, n); return true; }
  bool dupSetting() { Ae & c = any(); AeParam p; auto s = setting(c, p); if (!s) return false; AeSetting x; for (auto & y : *s) if (y.name == p.name) x = y; if (g.flip()) x.val = genAeVal(g, p.type, p.multi); put(*s, x); return true; }
  bool undeclared() {
    Ae & c = any(); AeParam p; auto s = setting(c, p); if (!s) return false; AeSetting x; for (auto & y : *s) if (y.name == p.name) x = y;
    switch (g.below(4)) {
      case 0: x.name = g.flip() ? "undeclared" : p.name + "2"; s->push_back(x); return true;
      case 1: { for (auto & y : c.common) if (y.name == x.name) return false; AeSetGroup sg; sg.names = {"nogroup"}; sg.sets = {x}; c.gsets.push_back(sg); return true; }
      case 2: { if (s == &c.sets) return false; for (auto & gr : c.groups) if (std::find(gr.names.begin(), gr.names.end(), c.defGroup) != gr.names.end()) for (auto * l : {&gr.params, &c.common}) for (auto & y : *l) if (y.name == x.name) return false; c.sets.push_back(x); return true; }   // outside every group: it belongs to the default group, if any
      default: for (auto & gr : c.groups) for (auto & n : gr.names) { bool has = false; for (auto & y : gr.params) has = has || y.name == x.name; for (auto & y : c.common) has = has || y.name == x.name; if (has) continue; AeSetGroup sg; sg.names = {n}; sg.sets = {x}; for (auto & o : c.gsets) if (o.names == sg.names) { o.sets.push_back(x); return true; } c.gsets.push_back(sg); return true; } return false;
    }
  }
  bool wrongType() { Ae & c = any(); AeParam p; auto s = setting(c, p); if (!s) return false; for (auto & y : *s) if (y.name == p.name) { y.val = genAeVal(g, (PType)((p.type + 1 + g.below(3)) % 4), p.multi); if (p.multi && y.val.v.empty()) y.val.v.push_back(y.val.type == PT_BOOL ? "true" : "1"); } return true; }
  bool wrongMulti() { Ae & c = any(); AeParam p; auto s = setting(c, p); if (!s) return false; for (auto & y : *s) if (y.name == p.name) y.val = genAeVal(g, p.type, !p.multi); return true; }
  bool noValue() {
    Ae & c = any(); AeParam p; auto s = setting(c, p); if (!s) return false; for (auto * l : {&c.plain, &c.common}) for (auto & x : *l) if (x.name == p.name) x.mandatory = true; for (auto & gr : c.groups) for (auto & x : gr.params) if (x.name == p.name) x.mandatory = true;
    auto drop = [&](std::vector<AeSetting> & v) { v.erase(std::remove_if(v.begin(), v.end(), [&](const AeSetting & y) { return y.name == p.name; }), v.end()); }; drop(c.sets); for (auto & x : c.gsets) drop(x.sets); if (g.flip()) { c.gsets.erase(std::remove_if(c.gsets.begin(), c.gsets.end(), [](const AeSetGroup & x) { return x.sets.empty(); }), c.gsets.end()); c.setElem = !c.gsets.empty() || !c.sets.empty(); }
    return true;
  }
  bool dupIndex() { Ae & c = any(); MIndex x; if (!c.ixs.empty()) x = g.pick(c.ixs); else { x.label = "own"; x.type = g.pick(types); x.keys.push_back(MKey{"", false, true}); c.ixs.push_back(x); c.ixFile.push_back(0); } if (g.flip()) x.kind = MIndex::BAG; c.ixElem = true; put(c.ixs, x); c.ixFile.resize(c.ixs.size()); return true; }
  bool clashIndex() {   // one label in two components, for different indexes
    if (all.size() < 2) return false; MIndex x; x.label = "clash"; x.type = g.pick(types); x.keys.push_back(MKey{"", false, true}); MIndex y = x; size_t what = g.below(3);
    if (what == 0) y.kind = MIndex::BAG; else if (what == 1) { y.type = g.pick(types); if (y.type == x.type) return false; } else { x.type = y.type = "uima.tcas.Annotation"; y.keys[0] = MKey{"end", g.flip(), false}; }
    if (g.flip()) std::swap(x, y); Ae * a = g.pick(all), * b = g.pick(all); if (a == b) return false; where = a->name + "/" + b->name; for (auto & p : {std::make_pair(a, x), std::make_pair(b, y)}) { p.first->ixElem = true; p.first->ixs.push_back(p.second); p.first->ixFile.push_back(0); } return true;
  }
  bool badIndex() {
    Ae & c = any(); MIndex x; x.label = "bad"; x.kind = g.one<MIndex::Kind_>({MIndex::SORTED, MIndex::SET, MIndex::BAG}); x.type = g.pick(types); x.keys.push_back(MKey{"", false, true});
    switch (g.below(3)) {
      case 0: x.type = g.flip() ? "no.such.Type" : x.type + "2"; break;
      case 1: { std::string f = "nofeat"; if (g.flip() && x.type == "uima.cas.TOP") f = "begin"; MKey k{f, g.flip(), false}; x.keys.insert(x.keys.begin() + g.below(2), k); break; }
      default: { std::vector<std::string> v; for (auto & f : ts.allFeats(x.type)) { int k; RangeClass rc = rangeClass(ts, f.second.range, k); if (rc != R_PRIM && rc != R_STRSUB) v.push_back(f.second.name); } if (v.empty()) { x.type = "uima.tcas.Annotation"; v.push_back("sofa"); } if (x.kind == MIndex::BAG) x.kind = MIndex::SORTED; x.keys.insert(x.keys.begin() + g.below(2), MKey{g.pick(v), g.flip(), false}); }
    }
    c.ixElem = true; c.ixs.push_back(x); c.ixFile.push_back(0); return true;
  }
  bool badPrio() {
    if (types.size() < 2) return false; std::vector<std::string> l; for (auto & t : types) if (g.flip()) l.push_back(t); for (size_t i = l.size(); i-- > 1;) std::swap(l[i], l[g.below(i + 1)]); if (l.size() < 2) return false;
    if (g.flip()) { l.insert(l.begin() + g.below(l.size() + 1), g.flip() ? "no.such.Type" : l[0] + "2"); Ae & c = any(); c.prios.push_back(l); c.prioFile.push_back(0); return true; }
    // a cycle, in one list or over several lists and components
    if (g.chance(1, 4)) { l.push_back(l[0]); Ae & c = any(); c.prios.push_back(l); c.prioFile.push_back(0); return true; }
    for (size_t i = 0; i < l.size(); ++i) { Ae & c = any(); c.prios.push_back({l[i], l[(i + 1) % l.size()]}); c.prioFile.push_back(0); } where = "several"; return true;
  }
  bool badType() {
    Ae & c = any(); MType t; t.name = "bad.Type"; t.super = "uima.cas.TOP"; MFeat f; f.name = "f"; f.range = "uima.cas.Integer";
    switch (1 + g.below(5)) {
      case 1: t.feats = {f, f}; if (g.flip()) t.feats[1].range = "uima.cas.String"; type(c, t); break;
      case 2: t.super = "no.such.Type"; type(c, t); break;
      case 3: f.range = "no.such.Type"; t.feats.push_back(f); type(c, t); break;
      case 4: t.allowed = {"a", "b"}; t.strsub = true; t.super = g.flip() ? "uima.cas.TOP" : "uima.tcas.Annotation"; type(c, t); break;
      default: { t.super = g.flip() ? "bad.Type" : "bad.Other"; type(c, t); if (t.super == "bad.Other") { t.name = "bad.Other"; t.super = "bad.Type"; type(any(), t); } }
    }
    return true;
  }
  bool badFlow() { Ae & c = live(false); if (c.nodes.empty()) return false; std::string k = g.one<const char *>({"nosuch", "p0", "a", "A0", "a0 ", "a0b"}); if (k != "nosuch") k += g.chance(1, 2) ? "" : "x"; if (delegateOf(c, k) || (k == "a0 " && delegateOf(c, "a0"))) k = "nosuch"; if (g.flip()) c.nodes[g.below(c.nodes.size())] = k; else c.nodes.insert(c.nodes.begin() + g.below(c.nodes.size() + 1), k); return true; }
  bool badImpl() { Ae & c = live(true); if (c.impl.empty()) return false; switch (g.below(4)) { case 0: c.impl = ""; break; case 1: c.impl = g.flip() ? "/nonexistent/vt_annot.so" : "vt_no_such_annotator"; break; case 2: c.impl = "libm.so.6"; break; default: c.impl = scratch() + "/text.so"; writeFile(c.impl, "no library"); } return true; }
  bool plant() {
    struct R { const char * n; bool (Tree::*f)(); }; static const R rules[] = {{"duplicate delegate", &Tree::dupDelegate}, {"duplicate parameter", &Tree::dupParam}, {"duplicate group", &Tree::dupGroup}, {"duplicate setting", &Tree::dupSetting}, {"undeclared setting", &Tree::undeclared}, {"setting of another type", &Tree::wrongType}, {"setting of another multiplicity", &Tree::wrongMulti}, {"mandatory parameter without value", &Tree::noValue}, {"duplicate index", &Tree::dupIndex}, {"clashing index", &Tree::clashIndex}, {"impossible index", &Tree::badIndex}, {"type priorities", &Tree::badPrio}, {"type system", &Tree::badType}, {"flow", &Tree::badFlow}, {"implementation", &Tree::badImpl}};
    auto & r = rules[g.below(sizeof rules / sizeof *rules)]; rule = r.n; bool done = (this->*r.f)();
    if (done && g.chance(1, 8)) { auto & q = rules[g.below(sizeof rules / sizeof *rules)]; std::string w = where; if ((this->*q.f)()) rule += cat(" and ", q.n); where = w; g.label("two rules"); }   // one more does not make it valid
    return done;
  }
};
Ae copy(const Ae & a) { Ae b = a; for (auto & d : b.dels) d.ae = std::make_shared<Ae>(copy(*d.ae)); return b; }
}
PROPERTY("P22", "refused", 9000, 120000, "the component which breaks a rule is not the outermost one, or there is only one") {
  initUima(); Stage st; Tree t(g); t.make(); Ae good = copy(t.root); bool planted = t.plant();
  if (planted) {
    g.note("broken: " + t.rule + " in " + t.where + "\n"); ErrorInfo e; std::string doc; EngineP p(tryEngine(g, t.root, e, &doc));
    CHECK(!p, "an engine is created although the descriptor breaks a rule: ", t.rule, " in ", t.where); CHECK(e.getErrorId() != UIMA_ERR_NONE, "no engine and no error for: ", t.rule); CHECK(!e.asString().empty(), "an error without text");
    CHECK(st.live.empty(), st.live.size(), " annotators are left alive by a refused engine: ", t.rule); g.label(t.rule.substr(0, t.rule.find(" and "))); g.nontrivial(t.where != t.root.name || t.root.primitive); g.sample(t.rule + " in " + t.where);
  } else g.label("not applicable");
  // and the valid one is still accepted and runs
  size_t before = st.log.size(); { EngineP p = makeEngine(g, good); ViewP c(p->newCAS()); setDoc(g, *c); CHECK_EQ(p->process(*c), (TyErrorId)UIMA_ERR_NONE, "process after a refused engine"); size_t n = 0; for (size_t i = before; i < st.log.size(); ++i) n += st.log[i].op == "process"; bool caps = false; for (auto a : t.all) caps = caps || a->flow == 1; if (!caps) CHECK_EQ(n, expandFlow(good).size(), "calls of process"); }
  CHECK(st.live.empty(), "annotators are left alive");
}
