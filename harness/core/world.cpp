#include "world.hpp"
#include <cmath>
#include <cfloat>
using namespace uima;
namespace vt {
World::~World() { if (cas) delete cas; if (sys && ownSys) delete sys; }
void World::open(Gen & g, const TSOpts & o, const std::vector<MIndex> & ix) { initUima(); ts = genTS(g, o); sys = buildTS(ts, &g); cas = makeCAS(*sys, ix); }
std::vector<std::string> World::creatable() const {
  std::vector<std::string> r; for (auto & t : ts.types) if (!t.strsub && t.name != "uima.tcas.DocumentAnnotation") r.push_back(t.name);
  return r;
}
static int listKindOf(const std::string & t) {
  static const char * k[] = {"FSList", "IntegerList", "FloatList", "StringList"};
  for (int i = 0; i < 4; ++i) if (t == std::string("uima.cas.NonEmpty") + k[i] || t == std::string("uima.cas.Empty") + k[i]) return i;
  return -1;
}
MVal defaultVal(const MTS & ts, const std::string & range) {
  MVal v; int k; RangeClass rc = rangeClass(ts, range, k); v.cls = (rc == R_PRIM || rc == R_STRSUB) ? rc : R_FS; v.kind = k; return v;
}
std::string showVal(const MVal & v) {
  if (v.cls == R_FS) return v.ref < 0 ? "null" : cat("#", v.ref);
  switch (v.kind) {
    case K_FLOAT: return cat(v.f); case K_DOUBLE: return cat(v.d);
    case K_STRING: return v.s.length() > 40 ? cat("<", v.s.length(), " units>") : "\"" + u8(v.s) + "\"";
    default: return cat(v.i);
  }
}
bool sameVal(const MVal & a, const MVal & b) {
  if (a.cls == R_FS || b.cls == R_FS) return a.cls == b.cls && a.ref == b.ref;
  if (a.kind != b.kind) return false;
  switch (a.kind) { case K_FLOAT: return sameFloat(a.f, b.f); case K_DOUBLE: return sameDouble(a.d, b.d); case K_STRING: return a.s == b.s; default: return a.i == b.i; }
}
static const char * nm(const std::string & s) { return s.c_str(); }

int World::create(Gen & g, const std::string & type, CAS * view) {
  CAS * v = view ? view : cas;
  if (ts.subsumes("uima.tcas.Annotation", type) && g.chance(3, 4)) { size_t b = g.below(maxPos), e = b + g.below(maxPos / 2); return createAnn(type, b, e, v); }
  MNode n; n.type = type; n.view = v;
  FeatureStructure f = v->createFS(typeOf(*v, type)); n.a = addr(f);
  for (auto & p : ts.allFeats(type)) n.feats[p.second.name] = defaultVal(ts, p.second.range);
  nodes.push_back(n); return nodes.size() - 1;
}
int World::createAnn(const std::string & type, size_t b, size_t e, CAS * v) {
  MNode n; n.type = type; n.view = v;
  AnnotationFS f = v->createAnnotation(typeOf(*v, type), b, e); n.a = addr(f);
  for (auto & p : ts.allFeats(type)) n.feats[p.second.name] = defaultVal(ts, p.second.range);
  n.feats["begin"].i = b; n.feats["end"].i = e; n.feats["sofa"].ref = -2;   // -2: the sofa of its view, not compared here
  nodes.push_back(n); return nodes.size() - 1;
}
FeatureStructure newArray(CAS & c, int ak, size_t n) {
  switch (ak) {
    case A_FS: return c.createArrayFS(n); case A_INT: return c.createIntArrayFS(n); case A_FLOAT: return c.createFloatArrayFS(n); case A_STRING: return c.createStringArrayFS(n);
    case A_BOOL: return c.createBooleanArrayFS(n); case A_BYTE: return c.createByteArrayFS(n); case A_SHORT: return c.createShortArrayFS(n); case A_LONG: return c.createLongArrayFS(n);
    default: return c.createDoubleArrayFS(n);
  }
}
static MVal elemDefault(int ak) {
  static const int k[] = {0, K_INT, K_FLOAT, K_STRING, K_BOOL, K_BYTE, K_SHORT, K_LONG, K_DOUBLE};
  MVal v; if (ak == A_FS) v.cls = R_FS; else v.kind = k[ak]; return v;
}
int World::createArray(int ak, size_t n, CAS * view) {
  MNode m; m.array = true; m.ak = ak; m.type = ARR_NAME[ak]; m.view = view ? view : cas; m.a = addr(newArray(*m.view, ak, n));
  m.elems.assign(n, elemDefault(ak)); nodes.push_back(m); return nodes.size() - 1;
}
int World::createEmptyList(int lk) {
  static const char * k[] = {"FSList", "IntegerList", "FloatList", "StringList"};
  MNode m; m.type = std::string("uima.cas.Empty") + k[lk]; m.view = cas;
  switch (lk) { case L_FS: m.a = addr(cas->createListFS()); break; case L_INT: m.a = addr(cas->createIntListFS()); break; case L_FLOAT: m.a = addr(cas->createFloatListFS()); break; default: m.a = addr(cas->createStringListFS()); }
  nodes.push_back(m); return nodes.size() - 1;
}
std::vector<int> World::refsFor(const std::string & range) const {
  std::vector<int> r; for (size_t i = 0; i < nodes.size(); ++i) if (ts.subsumes(range, nodes[i].type)) r.push_back(i);
  return r;
}
static void genPrim(Gen & g, MVal & v, const ValOpts & vo) {
  v.set = true;
  switch (v.kind) {
    case K_INT: v.i = genInt(g); break;
    case K_FLOAT: v.f = genFloat(g); if (!vo.denormals && v.f != 0 && std::fabs(v.f) < FLT_MIN) v.f = 0.25f; if (vo.special && g.chance(1, 12)) v.f = g.one<float>({INFINITY, -INFINITY, NAN}); break;
    case K_DOUBLE: v.d = genDouble(g); if (!vo.denormals && v.d != 0 && std::fabs(v.d) < DBL_MIN) v.d = 0.25; if (vo.special && g.chance(1, 12)) v.d = g.one<double>({INFINITY, -INFINITY, NAN}); break;
    case K_STRING: v.s = genText(g, vo.maxText, vo.text); break;
    case K_BOOL: v.i = g.flip(); break; case K_BYTE: v.i = genByte(g); break; case K_SHORT: v.i = genShort(g); break; case K_LONG: v.i = genLong(g); break;
  }
}
MVal World::genVal(Gen & g, const std::string & range) {
  MVal v = defaultVal(ts, range);
  if (v.cls == R_FS) { auto c = refsFor(range); if (!c.empty()) v.ref = g.pick(c); return v; }
  if (v.cls == R_STRSUB) { v.set = true; v.s = us(g.pick(ts.find(range)->allowed)); return v; }
  genPrim(g, v, vo); return v;
}
MVal World::genElem(Gen & g, int ak) {
  MVal v = elemDefault(ak); if (ak == A_FS) { if (!nodes.empty()) v.ref = g.below(nodes.size()); return v; }
  genPrim(g, v, vo); return v;
}
void writeFeat(const MTS & ts, FeatureStructure fs, Feature feat, const std::string & range, const MVal & v, const FeatureStructure * ref) {
  if (v.cls == R_FS) { if (ref) fs.setFSValue(feat, *ref); return; }
  switch (v.kind) {
    case K_INT: fs.setIntValue(feat, (int)v.i); break; case K_FLOAT: fs.setFloatValue(feat, v.f); break; case K_STRING: fs.setStringValue(feat, v.s); break;
    case K_BOOL: fs.setBooleanValue(feat, v.i != 0); break; case K_BYTE: fs.setByteValue(feat, (char)v.i); break; case K_SHORT: fs.setShortValue(feat, (short)v.i); break;
    case K_LONG: fs.setLongValue(feat, v.i); break; case K_DOUBLE: fs.setDoubleValue(feat, v.d); break;
  }
}
void World::set(int n, const MFeat & f, const MVal & v) {
  if (v.cls == R_FS && v.ref < 0) return;
  FeatureStructure r; if (v.cls == R_FS) r = fs(v.ref);
  writeFeat(ts, fs(n), featOf(*cas, nodes[n].type, f.name), f.range, v, &r);
  nodes[n].feats[f.name] = v;
}
void writeElem(FeatureStructure f, int ak, size_t i, const MVal & v, const FeatureStructure & ref) {
  switch (ak) {
    case A_FS: ArrayFS(f).set(i, ref); break; case A_INT: IntArrayFS(f).set(i, (int)v.i); break; case A_FLOAT: FloatArrayFS(f).set(i, v.f); break;
    case A_STRING: StringArrayFS(f).set(i, UnicodeStringRef(v.s)); break; case A_BOOL: BooleanArrayFS(f).set(i, v.i != 0); break; case A_BYTE: ByteArrayFS(f).set(i, (char)v.i); break;
    case A_SHORT: ShortArrayFS(f).set(i, (short)v.i); break; case A_LONG: LongArrayFS(f).set(i, v.i); break; case A_DOUBLE: DoubleArrayFS(f).set(i, v.d); break;
  }
}
void World::setElem(int n, size_t i, const MVal & v) {
  FeatureStructure r; if (v.cls == R_FS) { if (v.ref < 0) return; r = fs(v.ref); }
  writeElem(fs(n), nodes[n].ak, i, v, r); nodes[n].elems[i] = v;
}
int arrKindOf(const std::string & t) { for (int i = 0; i < A_N; ++i) if (t == ARR_NAME[i]) return i; return -1; }
size_t arraySize(FeatureStructure f, int ak) {
  switch (ak) {
    case A_FS: return ArrayFS(f).size(); case A_INT: return IntArrayFS(f).size(); case A_FLOAT: return FloatArrayFS(f).size(); case A_STRING: return StringArrayFS(f).size();
    case A_BOOL: return BooleanArrayFS(f).size(); case A_BYTE: return ByteArrayFS(f).size(); case A_SHORT: return ShortArrayFS(f).size(); case A_LONG: return LongArrayFS(f).size(); default: return DoubleArrayFS(f).size();
  }
}
MVal readElem(FeatureStructure f, int ak, size_t i, lowlevel::TyFS * ref) {
  MVal v = elemDefault(ak);
  switch (ak) {
    case A_FS: { FeatureStructure x = ArrayFS(f).get(i); *ref = x.isValid() ? addr(x) : 0; break; }
    case A_INT: v.i = IntArrayFS(f).get(i); break; case A_FLOAT: v.f = FloatArrayFS(f).get(i); break;
    case A_STRING: { UnicodeStringRef s = StringArrayFS(f).get(i); v.s = US(s.getBuffer(), s.length()); break; }
    case A_BOOL: v.i = BooleanArrayFS(f).get(i); break; case A_BYTE: v.i = ByteArrayFS(f).get(i); break; case A_SHORT: v.i = ShortArrayFS(f).get(i); break;
    case A_LONG: v.i = LongArrayFS(f).get(i); break; case A_DOUBLE: v.d = DoubleArrayFS(f).get(i); break;
  }
  return v;
}
MVal readFeat(const MTS & ts, FeatureStructure fs, const std::string & type, const MFeat & f, const std::map<lowlevel::TyFS, int> * ids) {
  MVal v = defaultVal(ts, f.range); Type t = fs.getType(); Feature ft = t.getFeatureByBaseName(us(f.name));
  if (!ft.isValid()) fail("feature " + f.name + " missing in type " + type);
  if (v.cls == R_FS) {
    FeatureStructure x = fs.getFSValue(ft); if (!x.isValid()) v.ref = -1;
    else if (ids) { auto it = ids->find(addr(x)); v.ref = it == ids->end() ? -3 : it->second; } else v.ref = addr(x);
    return v;
  }
  switch (v.kind) {
    case K_INT: v.i = fs.getIntValue(ft); break; case K_FLOAT: v.f = fs.getFloatValue(ft); break;
    case K_STRING: { UnicodeStringRef s = fs.getStringValue(ft); v.s = US(s.getBuffer(), s.length()); break; }
    case K_BOOL: v.i = fs.getBooleanValue(ft); break; case K_BYTE: v.i = fs.getByteValue(ft); break; case K_SHORT: v.i = fs.getShortValue(ft); break;
    case K_LONG: v.i = fs.getLongValue(ft); break; case K_DOUBLE: v.d = fs.getDoubleValue(ft); break;
  }
  return v;
}
std::string World::show(int n) const {
  const MNode & m = nodes[n]; std::string r = cat("#", n, " ", m.type, "{");
  for (auto & p : m.feats) r += p.first + "=" + showVal(p.second) + " ";
  for (auto & e : m.elems) r += showVal(e) + " ";
  return r + "}";
}
void World::check(int n) {
  const MNode & m = nodes[n]; FeatureStructure f = fs(n);
  CHECK(f.isValid(), "node ", show(n));
  CHECK_EQ(u8(f.getType().getName()), m.type, "type of #", n);
  std::map<lowlevel::TyFS, int> ids; for (size_t i = 0; i < nodes.size(); ++i) ids[nodes[i].a] = i;
  if (m.array) {
    CHECK_EQ(arraySize(f, m.ak), m.elems.size(), "size of array #", n);
    for (size_t i = 0; i < m.elems.size(); ++i) {
      lowlevel::TyFS ref = 0; MVal v = readElem(f, m.ak, i, &ref);
      if (m.ak == A_FS) { v.ref = ref ? (ids.count(ref) ? ids[ref] : -3) : -1; }
      if (!sameVal(v, m.elems[i])) fail(cat("element ", i, " of ", m.type, " #", n, " reads ", showVal(v), ", last written ", showVal(m.elems[i])));
    }
    return;
  }
  for (auto & p : ts.allFeats(m.type)) {
    auto it = m.feats.find(p.second.name); if (it == m.feats.end()) continue;
    if (it->second.cls == R_FS && it->second.ref == -2) continue;
    MVal v = readFeat(ts, f, m.type, p.second, &ids);
    if (!sameVal(v, it->second)) fail(cat("feature ", p.second.name, ":", p.second.range, " of ", m.type, " #", n, " reads ", showVal(v), ", last written ", showVal(it->second)));
  }
}
void World::checkAll() { for (size_t i = 0; i < nodes.size(); ++i) check(i); }
}
