// P31: the CAS of an engine is built from the declarations of all its components.
#include "engines.hpp"
#include "ixmodel.hpp"
using namespace uima;
using namespace vt;
PROPERTY("P31", "declared", 4000, 60000, "types, indexes and priorities are declared by delegates") {
  initUima(); Stage st; TreeOpts o; o.maxPrims = 6; Ae a = g.chance(1, 8) ? primitiveAe("p0") : genEngineTree(g, o); std::vector<Ae *> all; componentsOf(a, all);
  TSOpts to; to.maxTypes = 6; to.maxFeats = 4; to.strsub = g.chance(1, 3); to.multiRefs = g.flip(); MTS ts = genTS(g, to); spreadTypes(g, ts, a);
  std::vector<MIndex> ix = genIndexes(g, ts, g.below(5)); MPrios prios; if (g.chance(2, 3)) prios = genPrios(g, ts); bool del = false;
  for (auto & x : ix) for (size_t k = 1 + g.chance(1, 3); k-- > 0;) { Ae * c = g.pick(all); bool has = false; for (auto & y : c->ixs) has = has || y.label == x.label; if (has) continue; c->ixs.insert(c->ixs.begin() + g.below(c->ixs.size() + 1), x); c->ixFile.push_back(0); c->ixElem = true; del = del || c != &a; }
  bool delPrio = false; for (auto & l : prios) for (size_t k = 1 + g.chance(1, 4); k-- > 0;) { Ae * c = g.pick(all); c->prios.push_back(l); c->prioFile.push_back(0); delPrio = delPrio || (c != &a && l.size() > 1); }
  EngineP e = makeEngine(g, a);
  for (size_t n = 1 + g.below(2); n-- > 0;) {
    IxWorld w; w.ts = ts; w.prios = prios; w.ix = ix; w.cas = e->newCAS()->getBaseCas(); w.ownSys = false; w.sys = const_cast<TypeSystem *>(&w.cas->getTypeSystem()); checkTypeSystem(ts, *w.sys, &g);
    MIndex x; x.label = "AnnotationIndex"; x.type = "uima.tcas.Annotation"; x.keys = {MKey{"begin", false, false}, MKey{"end", true, false}, MKey{"", false, true}}; w.ix.push_back(x);
    w.views.push_back(w.cas->getView(us("_InitialView"))); if (g.flip()) w.views.push_back(w.cas->createView(us("view1"))); w.model.assign(w.views.size(), std::vector<IxWorld::Part>(w.ix.size())); w.maxPos = 8; w.checkShape(g);
    for (size_t k = g.below(12); k-- > 0;) { size_t v = g.below(w.views.size()); int q = w.make(g, v); if (g.chance(5, 6)) w.add(q, v); }
    for (size_t v = 0; v < w.views.size(); ++v) for (size_t i = 0; i < w.ix.size(); ++i) if (!(w.ix[i].type == "uima.cas.TOP")) w.checkIndex(g, v, i, w.ix[i].type);
  }
  bool delTypes = false; for (auto c : all) delTypes = delTypes || (c != &a && !c->ts.types.empty()); g.nontrivial(del && delPrio && delTypes); if (delPrio) g.label("priorities of delegates"); if (del) g.label("indexes of delegates"); g.sample(cat(all.size(), " components, ", ts.types.size(), " types, ", ix.size(), " indexes, ", prios.size(), " priority lists"));
}
