// P27: sofa mappings.
#include "engines.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/resmgr.hpp"
using namespace uima;
using namespace vt;

static const std::string IV = "_InitialView";
static std::string sofaName(Gen & g) { static const std::vector<std::string> pool = {IV, "a", "b", "c", "src.text", "d"}; return pool[g.below(pool.size())]; }
// the path of components from the root to a component
struct Comp { const Ae * ae; std::string key; const Comp * parent; std::vector<std::unique_ptr<Comp>> kids; const Comp * kid(const std::string & k) const { for (auto & c : kids) if (c->key == k) return c.get(); return nullptr; } };
static std::unique_ptr<Comp> comps(const Ae & a, const std::string & key, const Comp * parent) { std::unique_ptr<Comp> c(new Comp{&a, key, parent, {}}); for (auto & d : a.dels) c->kids.push_back(comps(*d.ae, d.key, c.get())); return c; }
// the name a component's local name stands for outside of all aggregates
static std::string resolve(const Comp * c, std::string n) { for (; c->parent; c = c->parent) for (auto & m : c->parent->ae->maps) if (m.key == c->key && (m.noComp ? IV : m.comp) == n) { n = m.agg; break; } return n; }
static size_t mapAll(Gen & g, Ae & a) {
  size_t n = 0; for (auto & d : a.dels) { std::set<std::string> used; for (size_t k = g.below(4); k-- > 0;) { AeMap m; m.key = d.key; m.comp = sofaName(g); m.agg = sofaName(g); if (g.chance(1, 5)) { m.comp = IV; m.noComp = true; } if (!used.insert(m.comp).second) continue; if (m.comp == IV && g.flip()) m.noComp = true; a.maps.push_back(m); ++n; } n += mapAll(g, *d.ae); }
  for (size_t i = a.maps.size(); i > 1; --i) std::swap(a.maps[i - 1], a.maps[g.below(i)]);
  return n;
}
static int depthOf(const Ae & a) { int d = 0; for (auto & x : a.dels) d = std::max(d, depthOf(*x.ae)); return d + 1; }
static void checkContext(Gen & g, const Comp * c, AnnotatorContext & x) {
  static const std::vector<std::string> all = {IV, "a", "b", "c", "src.text", "d", "other", "A", "_DefaultTextSofaName"};
  std::vector<std::string> ns = all; for (size_t i = ns.size(); i > 1; --i) std::swap(ns[i - 1], ns[g.below(i)]); ns.resize(g.range(0, (int)ns.size()));
  bool before = g.flip(); auto ask = [&] { for (auto & n : ns) { const SofaID & s = x.mapToSofaID(us(n)); CHECK_EQ(u8(s.getSofaId()), resolve(c, n), "sofa of '", n, "' for ", c->key.empty() ? "the engine" : c->key, " (", c->ae->name, ")"); CHECK_EQ(u8(s.getComponentSofaName()), n, "component name of a mapping"); } };
  if (before) ask();
  for (auto & k : c->kids) { AnnotatorContext * d = x.getDelegate(us(k->key)); CHECK(d, "no context for delegate ", k->key); checkContext(g, k.get(), *d); }
  ask();
  for (auto & m : x.getSofaMappings()) CHECK_EQ(u8(m.second->getSofaId()), resolve(c, u8(m.first)), "entry of getSofaMappings");
}
PROPERTY("P27", "mapping", 5000, 80000, "mappings on at least two levels") {
  initUima(); Stage st; TreeOpts o; o.depth = 4; o.maxPrims = 8; Ae a = genEngineTree(g, o); size_t n = mapAll(g, a); auto root = comps(a, "", nullptr); if (n >= 2 && depthOf(a) >= 3) g.nontrivial(); g.sample(cat(n, " mappings, depth ", depthOf(a)));
  AeFormat f; f.dir = scratch(); std::string doc = aeXml(a, f); g.note(doc + "\n"); ResourceManager::getInstance().enableSchemaValidation(false); AnalysisEngineDescription d; TextAnalysisEngineSpecifierBuilder b; b.buildTaeFromMemory(d, doc.c_str()); d.validate(); d.commit();
  std::string before = showAe(readAe(readXml([&] { US x; d.toXMLBuffer(x); return u8(x); }())));
  for (int i = 0, k = 1 + (int)g.below(3); i < k; ++i) { AnnotatorContext c(&d); checkContext(g, root.get(), c); }
  std::string after = showAe(readAe(readXml([&] { US x; d.toXMLBuffer(x); return u8(x); }()))); CHECK(before == after, "contexts change the description: ", firstDiff(after, before));
}
// an engine: which view each annotator gets, and what it finds under each name
struct Views {
  Gen & g; Ae a; std::unique_ptr<Comp> root; Stage st; std::map<std::string, std::vector<int>> notes;   // sofa -> notes in its view
  std::map<std::string, const Comp *> at; int counter = 0; std::string given; std::vector<std::string> called; size_t shared = 0;
  explicit Views(Gen & g) : g(g) {}
  static bool aware(const Ae & a) { for (auto & c : a.caps) if (!c.inSofas.empty() || !c.outSofas.empty()) return true; return false; }
  std::vector<int> read(CAS & v) { std::vector<int> r; Type t = v.getTypeSystem().getType(us("uima.tcas.Annotation")); Feature b = v.getTypeSystem().getFeatureByFullName(us("uima.tcas.Annotation:begin")); FSIterator it = v.getIndexRepository().getIndex(us("AnnotationIndex"), t).iterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) if (it.get().getType() == t) r.push_back(it.get().getIntValue(b)); return r; }
  void check(CAS & v, const std::string & abs, const std::string & what) {
    std::vector<int> got = read(v), & exp = notes[abs]; std::string x, y; for (int i : got) x += cat(i, " "); for (int i : exp) y += cat(i, " "); CHECK_EQ(x, y, "notes in ", what, " (sofa ", abs, ")");
    if (abs != IV) CHECK_EQ(v.getViewName().asUTF8(), abs, "view name of ", what); else if (v.getSofa().isValid()) CHECK_EQ(v.getViewName().asUTF8(), IV, "view name of ", what);
  }
  void leave(CAS & v, const std::string & abs) { if (g.chance(1, 4)) return; int n = counter++; v.getIndexRepository().addFS(v.createAnnotation(v.getTypeSystem().getType(us("uima.tcas.Annotation")), n, n)); notes[abs].push_back(n); }
  bool has(const std::string & abs) { return abs == IV || notes.count(abs); }
  TyErrorId process(Ann & x, CAS & c) {
    called.push_back(x.who); const Comp * me = at[x.who]; std::string abs = given; 
    check(c, given, cat("the view given to ", x.who)); leave(c, given); std::map<std::string, CAS *> seen; seen[given] = &c;
    for (size_t k = g.below(4); k-- > 0;) {
      std::string n = sofaName(g), abs = resolve(me, n); if (n != abs) g.label("renamed"); CAS * v = nullptr;
      if (g.flip()) { std::string e; try { v = c.getView(us(n)); } catch (Exception & ex) { e = excText(ex); } CHECK_EQ(v != nullptr, has(abs), "getView(", n, ") by ", x.who, " of sofa ", abs, ": ", e); }
      else { std::string e; bool expect = !has(abs); try { v = c.createView(us(n)); } catch (Exception & ex) { e = excText(ex); } CHECK_EQ(v != nullptr, expect, "createView(", n, ") by ", x.who, " of sofa ", abs, ": ", e); if (v) notes[abs]; }
      if (v) { if (seen.count(abs)) CHECK(seen[abs] == v || abs == IV, "two views of sofa ", abs); else for (auto & s : seen) CHECK(s.second != v, "one view for sofas ", abs, " and ", s.first); seen[abs] = v; check(*v, abs, cat("view '", n, "' of ", x.who)); if (notes[abs].size()) ++shared; leave(*v, abs); }
    }
    return UIMA_ERR_NONE;
  }
};
PROPERTY("P27", "views", 5000, 60000, "an annotator finds what another one left under a name of its own") {
  initUima(); Views v(g); TreeOpts o; o.maxPrims = 6; v.a = genEngineTree(g, o); mapAll(g, v.a); std::vector<Ae *> all; componentsOf(v.a, all);
  for (auto p : all) { bool sofas = g.chance(3, 5); for (size_t k = g.below(4); k-- > 0;) { AeCap c; if (sofas) for (auto * l : {&c.inSofas, &c.outSofas}) for (size_t i = g.chance(1, 3) ? 1 + g.chance(1, 4) : 0; i-- > 0;) l->push_back(sofaName(g)); p->caps.push_back(c); } p->capElem = !p->caps.empty(); }
  v.root = comps(v.a, "", nullptr); std::function<void(const Comp *)> reg = [&](const Comp * c) { if (c->ae->primitive) { v.at[c->ae->name] = c; v.st.roles[c->ae->name].process = [&v](Ann & x, CAS & c, ResultSpecification const &) { return v.process(x, c); }; } for (auto & k : c->kids) reg(k.get()); }; reg(v.root.get());
  EngineP e = makeEngine(g, v.a); ViewP c(e->newCAS());
  // what each call is given, as far as the run gets: decided while running since views come into being
  std::string missing; std::vector<std::string> order;
  for (int d = 0, docs = 1 + (int)g.below(2); d < docs; ++d) {
    if (d) c->reset(); v.notes.clear(); v.called.clear(); v.counter = 0; v.notes[IV]; for (auto & n : {"a", "b", "c", "src.text", "d"}) if (g.chance(1, 3)) { CAS * w = c->createView(us(n)); v.notes[n]; v.leave(*w, n); } if (g.flip()) setDoc(g, *c);
    // the plan: before each annotator, find out what it is given
    struct Step { const Comp * c; std::vector<const Comp *> path; }; std::vector<Step> steps; std::vector<const Comp *> path; std::function<void(const Comp *)> plan = [&](const Comp * x) { path.push_back(x); if (x->ae->primitive) steps.push_back({x, path}); else for (auto & n : x->ae->nodes) plan(x->kid(n)); path.pop_back(); }; plan(v.root.get());
    // hand the given view over at each call; a missing one ends the run
    size_t next = 0; std::string stopped; auto give = [&]() -> bool { if (next >= steps.size()) return false; std::string cur = IV; for (auto p : steps[next].path) if (p->parent && !Views::aware(*p->ae)) { cur = resolve(p, IV); if (!v.has(cur)) { stopped = cur; return false; } } v.given = cur; return true; };
    for (auto & r : v.st.roles) r.second.process = [&](Ann & x, CAS & c, ResultSpecification const &) { CHECK(next < steps.size() && steps[next].c->ae->name == x.who, "unexpected call of ", x.who); CHECK(give(), "call of ", x.who, " without the sofa ", stopped); ++next; return v.process(x, c); };
    std::string err; TyErrorId rc = UIMA_ERR_NONE; try { rc = e->process(*c); } catch (Exception & ex) { rc = ex.getErrorInfo().getErrorId(); err = excText(ex); }
    if (rc == UIMA_ERR_NONE) CHECK_EQ(next, steps.size(), "annotators called"); else { CHECK(!give() && next < steps.size() && !stopped.empty(), "processing fails: ", rc, " ", err); CHECK_EQ(rc, (TyErrorId)UIMA_ERR_RESOURCE_NOT_FOUND, "error for the missing sofa ", stopped); g.label("missing sofa"); }
    if (v.shared) g.nontrivial();
    for (auto & n : v.notes) { CAS * w = nullptr; try { w = n.first == IV ? c->getView(us(IV)) : c->getView(us(n.first)); } catch (Exception & ex) { fail(cat("sofa ", n.first, " is not there for the application: ", excText(ex))); } v.check(*w, n.first, "the application's view"); }
  }
}
