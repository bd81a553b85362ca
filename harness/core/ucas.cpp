#include "ucas.hpp"
#include "uima/lowlevel_typesystem.hpp"
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <limits>

using namespace uima;
namespace vt {
void initUima() {
  static bool done = false; if (done) return; done = true;
  const char * repo = getenv("VT_REPO"); setenv("UIMACPP_HOME", repo ? repo : "/repo", 1);
  unsetenv("UIMACPP_LOGFILE");
  std::string lib = binDir() + "/vt_handler.so"; setenv("UIMACPP_STREAMHANDLERS", ("  vt:" + lib + " vt-two:" + lib + "   file:" + lib + "  ").c_str(), 1);
  ResourceManager::createInstance("vt");
}
std::string u8(const US & s) { std::string r; s.toUTF8String(r); return r; }
std::string u8(const UnicodeStringRef & s) { return u8(US(s.getBuffer(), s.length())); }
US us(const std::string & s) { return US::fromUTF8(s); }

const char * PRIM_NAME[K_NPRIM] = {"uima.cas.Integer", "uima.cas.Float", "uima.cas.String", "uima.cas.Boolean", "uima.cas.Byte", "uima.cas.Short", "uima.cas.Long", "uima.cas.Double"};
const char * ARR_NAME[A_N] = {"uima.cas.FSArray", "uima.cas.IntegerArray", "uima.cas.FloatArray", "uima.cas.StringArray", "uima.cas.BooleanArray", "uima.cas.ByteArray", "uima.cas.ShortArray", "uima.cas.LongArray", "uima.cas.DoubleArray"};
const char * LIST_NAME[L_N] = {"uima.cas.FSList", "uima.cas.IntegerList", "uima.cas.FloatList", "uima.cas.StringList"};

static const char * BUILTIN[][2] = {
  {"uima.cas.TOP", ""}, {"uima.cas.Integer", "uima.cas.TOP"}, {"uima.cas.Float", "uima.cas.TOP"}, {"uima.cas.String", "uima.cas.TOP"},
  {"uima.cas.ArrayBase", "uima.cas.TOP"}, {"uima.cas.FSArray", "uima.cas.ArrayBase"}, {"uima.cas.FloatArray", "uima.cas.ArrayBase"},
  {"uima.cas.IntegerArray", "uima.cas.ArrayBase"}, {"uima.cas.StringArray", "uima.cas.ArrayBase"}, {"uima.cas.ListBase", "uima.cas.TOP"},
  {"uima.cas.FSList", "uima.cas.ListBase"}, {"uima.cas.EmptyFSList", "uima.cas.FSList"}, {"uima.cas.NonEmptyFSList", "uima.cas.FSList"},
  {"uima.cas.FloatList", "uima.cas.ListBase"}, {"uima.cas.EmptyFloatList", "uima.cas.FloatList"}, {"uima.cas.NonEmptyFloatList", "uima.cas.FloatList"},
  {"uima.cas.IntegerList", "uima.cas.ListBase"}, {"uima.cas.EmptyIntegerList", "uima.cas.IntegerList"}, {"uima.cas.NonEmptyIntegerList", "uima.cas.IntegerList"},
  {"uima.cas.StringList", "uima.cas.ListBase"}, {"uima.cas.EmptyStringList", "uima.cas.StringList"}, {"uima.cas.NonEmptyStringList", "uima.cas.StringList"},
  {"uima.cas.Boolean", "uima.cas.TOP"}, {"uima.cas.Byte", "uima.cas.TOP"}, {"uima.cas.Short", "uima.cas.TOP"}, {"uima.cas.Long", "uima.cas.TOP"}, {"uima.cas.Double", "uima.cas.TOP"},
  {"uima.cas.BooleanArray", "uima.cas.ArrayBase"}, {"uima.cas.ByteArray", "uima.cas.ArrayBase"}, {"uima.cas.ShortArray", "uima.cas.ArrayBase"},
  {"uima.cas.LongArray", "uima.cas.ArrayBase"}, {"uima.cas.DoubleArray", "uima.cas.ArrayBase"},
  {"uima.cas.Sofa", "uima.cas.TOP"}, {"uima.cas.AnnotationBase", "uima.cas.TOP"}, {"uima.tcas.Annotation", "uima.cas.AnnotationBase"},
  {"uima.tcas.DocumentAnnotation", "uima.tcas.Annotation"}};
static const char * BUILTIN_FEAT[][3] = {
  {"uima.cas.NonEmptyFSList", "head", "uima.cas.TOP"}, {"uima.cas.NonEmptyFSList", "tail", "uima.cas.FSList"},
  {"uima.cas.NonEmptyFloatList", "head", "uima.cas.Float"}, {"uima.cas.NonEmptyFloatList", "tail", "uima.cas.FloatList"},
  {"uima.cas.NonEmptyIntegerList", "head", "uima.cas.Integer"}, {"uima.cas.NonEmptyIntegerList", "tail", "uima.cas.IntegerList"},
  {"uima.cas.NonEmptyStringList", "head", "uima.cas.String"}, {"uima.cas.NonEmptyStringList", "tail", "uima.cas.StringList"},
  {"uima.cas.Sofa", "sofaNum", "uima.cas.Integer"}, {"uima.cas.Sofa", "sofaID", "uima.cas.String"}, {"uima.cas.Sofa", "mimeType", "uima.cas.String"},
  {"uima.cas.Sofa", "sofaArray", "uima.cas.TOP"}, {"uima.cas.Sofa", "sofaString", "uima.cas.String"}, {"uima.cas.Sofa", "sofaURI", "uima.cas.String"},
  {"uima.tcas.Annotation", "sofa", "uima.cas.Sofa"}, {"uima.tcas.Annotation", "begin", "uima.cas.Integer"}, {"uima.tcas.Annotation", "end", "uima.cas.Integer"},
  {"uima.tcas.DocumentAnnotation", "language", "uima.cas.String"}};

const MType * MTS::find(const std::string & n) const { for (auto & t : types) if (t.name == n) return &t; return nullptr; }
std::string MTS::superOf(const std::string & n) const {
  for (auto & b : BUILTIN) if (n == b[0]) return b[1];
  const MType * t = find(n); return t ? t->super : std::string();
}
bool MTS::known(const std::string & n) const { for (auto & b : BUILTIN) if (n == b[0]) return true; return find(n) != nullptr; }
bool MTS::subsumes(const std::string & a, const std::string & b) const {
  for (std::string x = b; !x.empty(); x = superOf(x)) if (x == a) return true;
  return false;
}
std::vector<std::string> MTS::allTypeNames() const {
  std::vector<std::string> r; for (auto & b : BUILTIN) r.push_back(b[0]);
  for (auto & t : types) if (std::find(r.begin(), r.end(), t.name) == r.end()) r.push_back(t.name);
  return r;
}
std::vector<std::pair<std::string, MFeat>> MTS::allFeats(const std::string & type) const {
  std::vector<std::string> chain; for (std::string x = type; !x.empty(); x = superOf(x)) chain.insert(chain.begin(), x);
  std::vector<std::pair<std::string, MFeat>> r;
  auto has = [&](const std::string & n) { for (auto & p : r) if (p.second.name == n) return true; return false; };
  for (auto & c : chain) {
    for (auto & f : BUILTIN_FEAT) if (c == f[0]) r.push_back({c, MFeat{f[1], f[2], false}});
    if (const MType * t = find(c)) for (auto & f : t->feats) if (!has(f.name)) r.push_back({c, f});
  }
  return r;
}
std::string MTS::describe() const {
  std::string r;
  for (auto & t : types) {
    r += t.name + ":" + t.super + "{";
    for (auto & f : t.feats) r += f.name + ":" + f.range + (f.multi ? "*" : "") + " ";
    for (auto & a : t.allowed) r += "'" + a + "' ";
    r += "} ";
  }
  return r;
}

RangeClass rangeClass(const MTS & ts, const std::string & range, int & kind) {
  for (int i = 0; i < K_NPRIM; ++i) if (range == PRIM_NAME[i]) { kind = i; return R_PRIM; }
  if (const MType * t = ts.find(range)) if (t->strsub) { kind = K_STRING; return R_STRSUB; }
  for (int i = 0; i < A_N; ++i) if (range == ARR_NAME[i]) { kind = i; return R_ARR; }
  for (int i = 0; i < L_N; ++i) if (range == LIST_NAME[i]) { kind = i; return R_LIST; }
  kind = 0; return R_FS;
}

std::string genName(Gen & g, const char * prefix, size_t i) {
  static const char * tail[] = {"", "A", "_b", "Value", "x1", "Longer_Name9"};
  return std::string(prefix) + std::to_string(i) + tail[g.below(6)];
}

MTS genTS(Gen & g, const TSOpts & o) {
  MTS ts; static const char * NS[] = {"org.vt.", "org.vt.sub.", "other.", "a.b.c.", "", "x.vt.", "y.vt.", "a.xmi.", "b.xml.", "b.cas.", "Axmi.tcas."};
  size_t n = 1 + g.below(o.maxTypes);
  if (o.strsub && g.chance(1, 2)) {
    MType t; t.name = std::string("org.vt.") + "Enum"; t.super = "uima.cas.String"; t.strsub = true;
    size_t k = 1 + g.below(3); for (size_t i = 0; i < k; ++i) t.allowed.push_back(std::string(g.one<const char *>({"red", "green", "blue", "v", "Z z"})) + std::to_string(i));
    ts.types.push_back(t);
  }
  size_t first = ts.types.size();
  for (size_t i = 0; i < n; ++i) {
    MType t; size_t ns = o.oneNs ? 0 : g.below(i < 2 ? 2 : 11); t.name = NS[ns] + genName(g, "T", i);
    std::vector<std::string> sup = {"uima.cas.TOP"};
    if (o.annotations) { sup.push_back("uima.tcas.Annotation"); sup.push_back("uima.tcas.Annotation"); sup.push_back("uima.cas.AnnotationBase"); }
    for (size_t j = first; j < ts.types.size(); ++j) { sup.push_back(ts.types[j].name); sup.push_back(ts.types[j].name); }
    t.super = g.pick(sup);
    ts.types.push_back(t);
  }
  // features: names are unique along every inheritance path
  size_t cnt = 0;
  for (size_t i = first; i < ts.types.size(); ++i) {
    MType & t = ts.types[i]; size_t k = g.below(o.maxFeats + 1);
    for (size_t j = 0; j < k; ++j) {
      MFeat f; f.name = genName(g, "f", cnt++);
      switch (g.weighted({6, 3, o.arraysLists ? 3u : 0u, o.arraysLists ? 2u : 0u, (o.strsub && first) ? 2u : 0u})) {
        case 0: f.range = PRIM_NAME[g.below(K_NPRIM)]; break;
        case 1: { std::vector<std::string> c = {"uima.cas.TOP"}; if (o.annotations) c.push_back("uima.tcas.Annotation"); for (size_t x = first; x < ts.types.size(); ++x) c.push_back(ts.types[x].name); f.range = g.pick(c); break; }
        case 2: f.range = ARR_NAME[g.below(A_N)]; break;
        case 3: f.range = LIST_NAME[g.below(L_N)]; break;
        default: f.range = ts.types[0].name;
      }
      if (o.multiRefs) { int kd; RangeClass rc = rangeClass(ts, f.range, kd); if (rc == R_ARR || rc == R_LIST) f.multi = g.chance(2, 5); }
      t.feats.push_back(f);
    }
  }
  // the same base name in types none of which inherits from the other
  if (g.chance(1, 3) && ts.types.size() - first >= 2) {
    size_t a = first + g.below(ts.types.size() - first), b = first + g.below(ts.types.size() - first);
    MType & A = ts.types[a]; MType & B = ts.types[b];
    bool clash = ts.subsumes(A.name, B.name) || ts.subsumes(B.name, A.name);
    // a common descendant cannot exist: inheritance is single
    if (!clash) { A.feats.push_back(MFeat{"same", PRIM_NAME[g.below(K_NPRIM)], false}); B.feats.push_back(MFeat{"same", PRIM_NAME[g.below(K_NPRIM)], false}); }
  }
  if (o.annotations && g.chance(1, 5)) {     // features added to a built-in type
    MType t; t.name = "uima.tcas.DocumentAnnotation"; t.super = "uima.tcas.Annotation"; t.feats.push_back(MFeat{"extra", PRIM_NAME[g.below(K_NPRIM)], false});
    ts.types.push_back(t);
  }
  return ts;
}

void fillTSDesc(const MTS & ts, TypeSystemDescription & d, const std::vector<size_t> * order) {
  for (size_t i = 0; i < ts.types.size(); ++i) {
    const MType & t = ts.types[order ? (*order)[i] : i];
    TypeDescription * td = new TypeDescription(); td->setName(us(t.name)); td->setSuperTypeName(us(t.super)); bool own;
    for (auto & f : t.feats) {
      FeatureDescription * fd = new FeatureDescription(); fd->setName(us(f.name)); fd->setRangeTypeName(us(f.range)); fd->setMultipleReferencesAllowed(f.multi);
      td->addFeatureDescription(fd, own); if (!own) delete fd;
    }
    for (auto & a : t.allowed) { AllowedValue * av = new AllowedValue(); av->setName(us(a)); td->addAllowedValue(av, own); if (!own) delete av; }
    d.addTypeDescription(td, own); if (!own) delete td;
  }
}
TypeSystem * buildTS(const MTS & ts, Gen * shuffle, const MPrios & prios) {
  TypeSystemDescription d; std::vector<size_t> order; for (size_t i = 0; i < ts.types.size(); ++i) order.push_back(i);
  if (shuffle) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[shuffle->below(i)]);
  fillTSDesc(ts, d, &order); d.commit();
  ErrorInfo ei; TypeSystem * r;
  if (prios.empty()) r = Framework::createTypeSystem(d, US("vt"), ei);
  else {
    AnalysisEngineMetaData::TyVecpTypePriorities p;
    for (auto & l : prios) { TypePriority * tp = new TypePriority(); for (auto & n : l) tp->addType(us(n)); p.push_back(tp); }
    r = Framework::createTypeSystem(d, p, US("vt"), ei); for (auto x : p) delete x;
  }
  if (!r) fail(cat("type system refused: ", ei.getErrorId(), " for ", ts.describe()));
  return r;
}

US genText(Gen & g, size_t maxLen, TextKind k) {
  size_t n = g.small(maxLen); US r; int style = g.below(4);   // style: mostly plain, or mixed
  for (size_t i = 0; i < n; ++i) {
    UChar32 c;
    switch (style < 2 ? g.weighted({8, 2, 1}) : g.weighted({3, 2, 3, 2, 2, 2, 2, k == T_XML ? 0u : 1u, k == T_RAW ? 1u : 0u})) {
      case 0: c = 'a' + g.below(26); break;
      case 1: c = ' '; break;
      case 2: c = "<>&\"'=/;#]!"[g.below(11)]; break;
      case 3: c = "\t\n\r"[g.below(3)]; break;
      case 4: c = 0xa0 + g.below(0x160); break;
      case 5: c = 0x300 + g.below(0xd800 - 0x300); break;
      case 6: { static const UChar32 sp[] = {0x1F600, 0x10000, 0x10FFFF - 2, 0xFFFD, 0xE000, 0xFEFF, 0x2028, 0x7f, 0x85}; c = sp[g.below(9)]; break; }
      case 7: { static const UChar32 sp[] = {1, 8, 0xb, 0xc, 0x1f, 0xffff, 0xfffe, 0x1b}; c = sp[g.below(8)]; break; }
      default: r.append((UChar)(0xd800 + g.below(0x800))); continue;
    }
    r.append(c);
  }
  return r;
}
US genSmallText(Gen & g) {
  static const char * w[] = {"", "a", "b", "ab", "abc", "B", "zz", "aa", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xef\xbc\xa1", "\xc4\x80", "a\xc4\x80"};
  return us(w[g.below(sizeof w / sizeof *w)]);
}
int genInt(Gen & g) {
  switch (g.weighted({5, 2, 2, 2})) { case 0: return (int)g.range(-4, 12); case 1: return (int)g.range(-1000, 100000); case 2: return g.one<int>({INT32_MAX, INT32_MIN, -1, 0, 255, 256, 65536, 0x01020304}); default: return (int)g.below(1ull << 32); }
}
INT64 genLong(Gen & g) {
  switch (g.weighted({4, 2, 3})) { case 0: return g.range(-5, 12); case 1: return g.one<INT64>({INT64_MAX, INT64_MIN, (INT64)1 << 32, ((INT64)1 << 32) - 1, -((INT64)1 << 32), 0x0102030405060708ll, ((INT64)1 << 53) + 1}); default: return (INT64)g.bits64(); }
}
short genShort(Gen & g) { switch (g.below(3)) { case 0: return (short)g.range(-4, 10); case 1: return g.one<short>({SHRT_MAX, SHRT_MIN, 255, 256, -1}); default: return (short)g.below(65536); } }
char genByte(Gen & g) { switch (g.below(3)) { case 0: return (char)g.range(-4, 10); case 1: return g.one<char>({127, -128, -1, 0, 10, 13}); default: return (char)g.below(256); } }
float genFloat(Gen & g) {
  switch (g.weighted({4, 3, 2, 2})) {
    case 0: return (float)g.range(-4, 9); case 1: return (float)g.range(-1000, 1000) / 8;
    case 2: return g.one<float>({0.0f, -0.0f, 1e30f, -1e-30f, 3.4028235e38f, 1.17549435e-38f, 0.1f, 1e-45f, 16777217.0f});
    default: { uint32_t b = (uint32_t)g.below(1ull << 32); float f; memcpy(&f, &b, 4); if (std::isnan(f) || std::isinf(f)) f = 1.5f; return f; }
  }
}
double genDouble(Gen & g) {
  switch (g.weighted({4, 3, 2, 2})) {
    case 0: return (double)g.range(-4, 9); case 1: return (double)g.range(-1000, 1000) / 8;
    case 2: return g.one<double>({0.0, -0.0, 1e300, -1e-300, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 5e-324, 9007199254740993.0});
    default: { uint64_t b = g.bits64(); double f; memcpy(&f, &b, 8); if (std::isnan(f) || std::isinf(f)) f = -2.5; return f; }
  }
}
bool sameFloat(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
bool sameDouble(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }

void fillIndexDesc(const std::vector<MIndex> & ix, AnalysisEngineMetaData::TyVecpFSIndexDescriptions & out) {
  for (auto & m : ix) {
    FSIndexDescription * d = new FSIndexDescription(); d->setLabel(us(m.label)); d->setTypeName(us(m.type));
    d->setIndexKind(m.kind == MIndex::SORTED ? FSIndexDescription::SORTED : m.kind == MIndex::SET ? FSIndexDescription::SET : FSIndexDescription::BAG);
    for (auto & k : m.keys) {
      FSIndexKeyDescription * kd = new FSIndexKeyDescription();
      if (k.typePrio) kd->setIsTypePriority(); else { kd->setFeatureName(us(k.feat)); kd->setComparator(k.desc ? FSIndexKeyDescription::REVERSE : FSIndexKeyDescription::STANDARD); }
      d->addFSIndexKey(kd);
    }
    out.push_back(d);
  }
}
CAS * makeCAS(TypeSystem & ts, const std::vector<MIndex> & ix, const std::vector<std::vector<std::string>> & prios) {
  ErrorInfo ei; CAS * c;
  if (ix.empty() && prios.empty()) c = Framework::createCAS(ts, ei);
  else {
    AnalysisEngineMetaData::TyVecpFSIndexDescriptions d; fillIndexDesc(ix, d);
    AnalysisEngineMetaData::TyVecpTypePriorities p;
    for (auto & l : prios) { TypePriority * tp = new TypePriority(); for (auto & n : l) tp->addType(us(n)); p.push_back(tp); }
    c = Framework::createCAS(ts, d, p, ei);
    for (auto x : d) delete x; for (auto x : p) delete x;
  }
  if (!c) fail(cat("createCAS failed: ", ei.getErrorId()));
  return c;
}
Type typeOf(CAS & c, const std::string & n) { Type t = c.getTypeSystem().getType(us(n)); if (!t.isValid()) fail("type not found: " + n); return t; }
Feature featOf(CAS & c, const std::string & type, const std::string & f) { Feature r = typeOf(c, type).getFeatureByBaseName(us(f)); if (!r.isValid()) fail("feature not found: " + type + ":" + f); return r; }
std::string excText(const uima::Exception & e) { return e.asString(); }
}
