#include "parmodel.hpp"
namespace vt {
const char * const NO_GROUP = "CONFIG_GROUP_NAME_WHEN_NO_GROUPS";
void ParConf::load(const Ae & a) {
  grouped = !a.groups.empty() || !a.common.empty(); hasCommon = !a.common.empty();
  for (auto & p : a.common) common[p.name] = p;
  if (!a.plain.empty()) for (auto & p : a.plain) groups[NO_GROUP][p.name] = p;
  for (auto & gr : a.groups) for (auto & n : gr.names) { groups[n]; for (auto & p : gr.params) groups[n][p.name] = p; }
  for (auto & s : a.sets) vals[NO_GROUP][s.name] = s.val;
  for (auto & sg : a.gsets) for (auto & n : sg.names) for (auto & s : sg.sets) vals[n][s.name] = s.val;
  def = a.defGroup; hasDef = !def.empty(); strat = a.strategy < 0 ? 0 : a.strategy;
}
bool ParConf::declared(const std::string & g, const std::string & n, const std::string & key, const AeParam ** out) const {
  const AeParam * p = nullptr; auto i = groups.find(g); if (i != groups.end()) { auto j = i->second.find(n); if (j != i->second.end()) p = &j->second; }
  if (!p) { auto j = common.find(n); if (j != common.end()) p = &j->second; }
  if (out) *out = p; if (!p) return false;
  return key.empty() || p->restrict_.empty() || std::count(p->restrict_.begin(), p->restrict_.end(), key);
}
void ParNode::load(const Ae & a) {
  c.load(a); for (auto & d : a.dels) { auto k = std::make_unique<ParNode>(); k->parent = this; k->key = d.key; k->load(*d.ae); kids[d.key] = std::move(k); }
}
ParRes ParNode::local(const std::string & g, const std::string & n, int strat, const std::string & k) const {
  ParRes r; if (!c.grouped && g != NO_GROUP) return r;
  std::vector<std::string> order{g};
  if (c.grouped && strat == 2) { std::string x = g; for (size_t i; (i = x.rfind('-')) != std::string::npos;) { x.resize(i); order.push_back(x); } }
  if (c.grouped && strat) order.push_back(c.def);
  for (auto & o : order) { auto i = c.vals.find(o); if (i == c.vals.end()) continue; auto j = i->second.find(n); if (j == i->second.end()) continue; if (!c.declared(o, n, k)) return r; r.kind = ParRes::VALUE; r.v = &j->second; return r; }
  for (auto & o : order) if (c.declared(o, n, k)) { r.kind = ParRes::NONE; return r; }
  return r;
}
ParRes ParNode::find(const std::string & g, const std::string & n, int strat, const std::string & k) const {
  ParRes r = local(g, n, strat, k); if (r.kind == ParRes::THROWS || !parent) return r;
  ParRes p = parent->find(g, n, strat, key); return p.kind == ParRes::VALUE ? p : r;
}
ParRes ParNode::find(const std::string & n, const std::string & k) const {
  ParRes r; if (c.grouped && !c.hasDef) return r;
  r = local(c.grouped ? c.def : NO_GROUP, n, c.strat, k); if (r.kind == ParRes::THROWS || !parent) return r;
  ParRes p = parent->find(n, key); return p.kind == ParRes::VALUE ? p : r;
}
bool ParNode::assign(const std::string * g, const std::string & n, const AeVal & v, const std::string & k) {
  if (!g && c.grouped && !c.hasDef) return false;
  std::string gr = g ? *g : c.grouped ? c.def : NO_GROUP; const AeParam * p;
  if (!c.declared(gr, n, k, &p)) return false;
  if (parent && parent->assign(g, n, v, key)) return true;
  if (!c.groups.count(gr) || p->type != v.type || p->multi != v.multi) return false;
  c.vals[gr][n] = v; return true;
}
ParNames genParNames(Gen & g, bool sameKinds) {
  ParNames r; r.sameKinds = sameKinds; r.names = {"alpha", "beta", "gamma"}; if (g.chance(1, 4)) r.names.push_back("d\xc3\xa9lta-\xf0\x9f\x98\x80"); r.groups = {"en", "en-us", "en-us-x", "de"}; if (g.chance(1, 3)) r.groups.push_back("-"); if (g.chance(1, 3)) r.groups.push_back("en--us"); if (g.chance(1, 3)) r.groups.push_back("en_us");
  // chains of names made of parts of any length
  while (g.chance(1, 3)) { std::string n; for (size_t k = 1 + g.below(4); k-- > 0;) n += std::string(g.one({"x", "a", "b", "en", "us", "x", ""})) + (k ? "-" : ""); for (;;) { if (!n.empty() && std::find(r.groups.begin(), r.groups.end(), n) == r.groups.end()) r.groups.push_back(n); size_t d = n.rfind('-'); if (d == std::string::npos || g.chance(1, 3)) break; n.resize(d); } }
  for (auto & n : r.names) r.kind[n] = {(PType)g.below(4), g.chance(1, 3)};
  return r;
}
void genParConf(Gen & g, const ParNames & N, Ae & a, const std::vector<std::string> & dels) {
  auto params = [&](std::set<std::string> & used, size_t max) {
    std::vector<AeParam> r; for (size_t n = g.below(max + 1); n-- > 0;) {
      AeParam p; p.name = g.pick(const_cast<std::vector<std::string> &>(N.names)); if (!used.insert(p.name).second) continue;
      auto k = N.kind.at(p.name); p.type = k.first; p.multi = k.second; if (!N.sameKinds && g.flip()) { p.type = (PType)g.below(4); p.multi = g.flip(); }
      if (!dels.empty() && g.chance(1, 2)) for (auto & d : dels) if (g.flip()) p.restrict_.push_back(d);
      r.push_back(p);
    }
    return r;
  };
  a.paramElem = true; std::set<std::string> used;
  if (g.chance(2, 5)) a.plain = params(used, 4);
  else {
    a.common = params(used, 2); std::set<std::string> gn;
    for (size_t n = g.below(5); n-- > 0;) { AeGroup gr; for (size_t m = 1 + g.below(2); m-- > 0;) { std::string x = g.pick(const_cast<std::vector<std::string> &>(N.groups)); if (gn.insert(x).second) gr.names.push_back(x); } if (gr.names.empty()) continue; std::set<std::string> u = used; gr.params = params(u, 3); a.groups.push_back(gr); }
  }
  if (g.chance(3, 4)) a.strategy = (int)g.below(3);
  bool grouped = !a.groups.empty() || !a.common.empty();
  if (g.chance(3, 4) && (grouped || g.chance(1, 4))) a.defGroup = g.pick(const_cast<std::vector<std::string> &>(N.groups));
  a.setElem = true; auto set = [&](const AeParam & p) { return AeSetting{p.name, genAeVal(g, p.type, p.multi)}; };
  for (auto & p : a.plain) if (g.chance(2, 3)) a.sets.push_back(set(p));
  for (auto & gr : a.groups) {
    std::vector<std::vector<std::string>> parts; if (g.flip()) parts.push_back(gr.names); else for (auto & n : gr.names) parts.push_back({n});
    for (auto & pn : parts) { AeSetGroup sg; sg.names = pn; for (auto * l : {&gr.params, &a.common}) for (auto & p : *l) if (g.flip()) sg.sets.push_back(set(p)); if (!sg.sets.empty()) a.gsets.push_back(sg); }
  }
}
}
