// P38: walking a CAS meets every feature structure once.
#include "user.hpp"
#include "../core/desc.hpp"
using namespace uima; using namespace vt;
namespace {
struct Walk {
  User u; std::string where;
  void check(Gen & g, const char * when) {
    size_t v = g.below(u.views.size() + 1); CAS & via = v < u.views.size() ? *u.views[v] : *u.cas->getBaseCas(); where = cat(when, ", through ", v < u.views.size() ? "view " + u.names[v] : "the base CAS");
    std::map<lowlevel::TyFS, int> node; for (size_t i = 0; i < u.nodes.size(); ++i) node[u.nodes[i].a] = i;
    std::set<lowlevel::TyFS> sofas; for (FSIterator s = u.cas->getSofaIterator(); s.isValid(); s.moveToNext()) sofas.insert(addr(s.get()));
    std::set<lowlevel::TyFS> seen; std::vector<lowlevel::TyFS> order; size_t docs = 0, limit = node.size() + sofas.size() + u.views.size() * 2 + 8;
    FSIterator it = via.iterator(); size_t cut = g.below(limit + 1); std::unique_ptr<FSIterator> copy; size_t copied = 0;
    if (g.chance(1, 3)) it.moveToFirst();
    for (; it.isValid(); it.moveToNext()) {
      CHECK(order.size() < limit, "the walk goes on after ", limit, " feature structures ", where);
      if (order.size() == cut) { copy.reset(new FSIterator(it)); copied = cut; if (g.flip()) { FSIterator other(via.iterator()); other = it; it = other; } }
      FeatureStructure fs = it.get(); CHECK(fs.isValid(), "an invalid feature structure ", where); lowlevel::TyFS a = addr(fs); std::string tn = u8(fs.getType().getName());
      CHECK(seen.insert(a).second, "a feature structure of type ", tn, " is met twice ", where); order.push_back(a);
      auto n = node.find(a);
      if (n != node.end()) { CHECK_EQ(tn, u.nodes[n->second].type, "type of node ", n->second, " ", where); CHECK(fs == FeatureStructure(u.fs(n->second)) || via.getBaseCas() == u.cas->getBaseCas(), "another feature structure"); }
      else if (sofas.count(a)) CHECK_EQ(tn, std::string("uima.cas.Sofa"), "type of a sofa ", where);
      else { CHECK(tn == "uima.tcas.DocumentAnnotation", "a feature structure of type ", tn, " that nobody created, ", where); ++docs; }
    }
    for (auto & n : node) CHECK(seen.count(n.first), "node ", n.second, " ", u.show(n.second), " is not met ", where);
    for (auto s : sofas) CHECK(seen.count(s), "a sofa is not met ", where);
    CHECK(docs <= u.views.size(), docs, " document annotations in ", u.views.size(), " views ", where);
    if (copy) { for (size_t k = copied; k < order.size(); ++k, copy->moveToNext()) { CHECK(copy->isValid(), "a copy of the iterator ends after ", k, " of ", order.size(), " ", where); CHECK(addr(copy->get()) == order[k], "a copy made at ", copied, " is elsewhere at ", k, " ", where); } CHECK(!copy->isValid(), "a copy of the iterator goes on ", where); }
    if (g.flip()) { it.moveToFirst(); for (size_t k = g.below(order.size() + 1); k; --k) it.moveToNext(); }
    it.moveToFirst(); for (size_t k = 0; k < order.size(); ++k, it.moveToNext()) { CHECK(it.isValid(), "a second walk ends after ", k, " of ", order.size(), " ", where); CHECK(addr(it.get()) == order[k], "a second walk is elsewhere at ", k, " ", where); } CHECK(!it.isValid(), "a second walk goes on ", where);
    it.moveToFirst(); CHECK(it.isValid() == !order.empty(), "the walk starts again"); if (!order.empty()) CHECK(addr(it.get()) == order[0], "the walk starts again elsewhere");
  }
};
}
PROPERTY("P38", "walk", 12000, 400000, "arrays of two element sizes or more and other feature structures after them") {
  Walk w; User & u = w.u; TSOpts t; t.maxTypes = 5; t.maxFeats = 4; initUima(); u.ts = genTS(g, t); u.sys = buildTS(u.ts); auto ix = userIndexes(g, u.ts, g.below(3), true);
  for (auto & i : ix) u.labels.push_back(i.label); u.labels.push_back("AnnotationIndex"); u.cas = makeCAS(*u.sys, ix);
  u.begin(); if (g.flip()) { FSIterator it = u.cas->iterator(); CHECK(!it.isValid(), "an empty CAS has a feature structure"); FSIterator c(it); CHECK(!c.isValid(), "a copy for an empty CAS"); }
  size_t rounds = 1 + g.below(3);
  for (size_t r = 0; r < rounds; ++r) {
    u.run(g, 1 + g.below(25));
    if (g.chance(1, 2)) { size_t k = 1 + g.below(5); for (size_t i = 0; i < k; ++i) { u.createArray(g.below(A_N), g.one<size_t>({0, 0, 1, 2, 3, 17}), u.views[g.below(u.views.size())]); if (g.flip()) u.fill(g, u.nodes.size() - 1); } }
    if (g.chance(1, 3)) { auto ty = u.creatable(); if (!ty.empty()) u.create(g, g.pick(ty), u.views[0]); }
    if (g.chance(1, 60)) { size_t k = g.below(2000); for (size_t i = 0; i < k; ++i) u.createArray(g.below(A_N), i % 40, nullptr); g.label("large"); }
    std::set<int> sizes; bool after = false; for (auto & n : u.nodes) if (n.array) sizes.insert(n.ak == A_BYTE || n.ak == A_BOOL ? 1 : n.ak == A_SHORT ? 2 : n.ak == A_LONG || n.ak == A_DOUBLE ? 8 : 4); else after = after || !sizes.empty();
    g.nontrivial(sizes.size() > 1 && after); w.check(g, "after the history");
    if (r + 1 < rounds && g.flip()) {
      if (g.flip()) { u.cas->getBaseCas()->reset(); u.begin(); FSIterator it = u.cas->iterator(); CHECK(!it.isValid(), "a reset CAS has a feature structure"); g.label("reset"); }
      else { User v; v.ownSys = false; v.ts = u.ts; v.sys = u.sys; v.labels = u.labels; v.cas = makeCAS(*u.sys, ix); v.begin(); std::string b = u.blob(); std::unique_ptr<int64_t[]> x(new int64_t[(b.size() + 7) / 8]); memcpy(x.get(), b.data(), b.size()); internal::CASDeserializer d; d.deserializeBlob(x.get(), *v.cas->getBaseCas());
        size_t a = 0, c = 0; for (FSIterator it = u.cas->iterator(); it.isValid(); it.moveToNext()) ++a; for (FSIterator it = v.cas->iterator(); it.isValid() && c <= a; it.moveToNext()) ++c; CHECK_EQ(c, a, "feature structures met after binary restoration"); g.label("restored"); }
    }
  }
}
