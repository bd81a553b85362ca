// P12: sofa data streams.
#include "../core/world.hpp"
#include "uima/sofastream.hpp"
#include "uima/sofastreamhandler.hpp"
#include "uima/resmgr.hpp"
using namespace uima; using namespace vt;
namespace {
std::map<std::string, std::string> STORE;    // URI -> data of the registered handlers
struct Served { int made = 0, opened = 0, closed = 0, live = 0; std::string uri; size_t bufsize = 0; } SERVED;
struct MemHandler : SofaStreamHandler {
  const std::string * d = nullptr; size_t pos = 0; MemHandler() { ++SERVED.made; ++SERVED.live; } ~MemHandler() { --SERVED.live; }
  void openStream(const char * u) override { openStream(u, 0); }
  void openStream(const char * u, size_t n) override { SERVED.uri = u; SERVED.bufsize = n; auto it = STORE.find(u); d = it == STORE.end() ? nullptr : &it->second; pos = 0; ++SERVED.opened; }
  INT64 getTotalStreamSize() override { return d ? (INT64)d->size() : -1; }
  size_t getBufferSize() override { return 0; }
  INT64 howManyAvailable() override { return d ? (INT64)(d->size() - pos) : -1; }
  INT64 getNext(size_t n, void * b) override { if (!d || pos >= d->size()) return -1; n = std::min(n, d->size() - pos); memcpy(b, d->data() + pos, n); pos += n; return n; }
  int seek(INT64 o, int w) override { if (!d) return -2; INT64 t = w == SEEK_SET ? o : w == SEEK_CUR ? (INT64)pos + o : (INT64)d->size() + o; if (t < 0 || t > (INT64)d->size()) return -1; pos = t; return 0; }
  void closeStream() override { ++SERVED.closed; d = nullptr; }
  void * getDataPointer() override { return d ? (void *)d->data() : nullptr; }
};
struct St {          // one open stream and the position it should be at
  std::unique_ptr<SofaDataStream> s; size_t pos = 0; bool open = false;
};
int kindSize(int ak) { switch (ak) { case A_BOOL: case A_BYTE: return 1; case A_SHORT: return 2; case A_LONG: case A_DOUBLE: return 8; default: return 4; } }
}
extern "C" SofaStreamHandler * vtNewStreamHandler() { return new MemHandler(); }
static void useStreams(Gen & g, World & w, CAS & view, const std::string & data, int es, bool remote) {
  std::vector<St> ss; auto ty = w.creatable(); size_t big = 0; const size_t N = data.size(); size_t n = 2 + g.below(25); bool sawRead = false, sawSeek = false;
  SofaFS sofa = view.getSofa(); CHECK(sofa.isValid(), "a view with data has no sofa");
  for (size_t k = 0; k < n; ++k) {
    if (ss.empty() || g.chance(1, 12)) {
      St x; x.s.reset(g.flip() ? view.getSofaDataStream() : sofa.getSofaDataStream()); CHECK(x.s.get(), "no stream for a sofa with data");
      if (g.chance(1, 5)) { char b[8]; CHECK(throwsUima([&] { x.s->read(b, es, 1); }), "read before open succeeds"); }
      size_t buf = g.chance(1, 3) ? 1 + g.below(5000) : 0; CHECK_EQ(buf ? x.s->open(buf) : x.s->open(), 0, "result of open"); if (remote) CHECK_EQ(SERVED.bufsize, buf, "buffer size passed to the handler"); x.open = true; ss.push_back(std::move(x)); continue;
    }
    St & x = ss[g.below(ss.size())]; int op = g.weighted({10, 5, 3, 1, 1, 2}); g.label(cat("op ", op));
    if (!x.open) { if (remote) { ss.erase(ss.begin() + (&x - &ss[0])); continue; } CHECK_EQ(x.s->open(), 0, "result of open after close"); x.open = true; x.pos = 0; continue; }
    switch (op) {
      case 0: {
        size_t left = N - x.pos; int e = es; if (remote) { e = g.one({1, 1, 2, 4, 8}); } else if (g.chance(1, 8)) e = g.one({1, 2, 4, 8, 3, 16});
        size_t want = g.weighted({3, 2, 2, 1}) == 0 ? 1 : g.flip() ? 1 + g.below(left / e + 3) : g.chance(1, 2) ? left / e + 1 + g.below(3) : 1 + g.below(3);
        if (remote && want * e > left && left % e) e = 1;
        std::string buf(want * e + 8, '\x5a'); int r = 0; bool thrown = false;
        try { r = x.s->read(&buf[0], e, want); } catch (uima::Exception &) { thrown = true; }
        if (!remote && e != es) {
          if (!left && !thrown) { CHECK(r == -1 || r == -2, "read at the end with a wrong element size gives ", r); } else CHECK(thrown || r == -2, "read of elements of ", e, " bytes from data of ", es, " gives ", r);
          CHECK(buf == std::string(buf.size(), '\x5a'), "a refused read writes to the buffer"); break;
        }
        CHECK(!thrown, "read of ", want, " elements of ", e, " bytes throws with ", left, " bytes left"); sawRead = true;
        size_t got = std::min(want, left / e); CHECK_EQ(r, got ? (int)got : -1, "elements read of ", want, " of ", e, " bytes asked for with ", left, " bytes left");
        std::string exp = data.substr(x.pos, got * e); if (remote && e > 1) for (size_t i = 0; i < got; ++i) std::reverse(exp.begin() + i * e, exp.begin() + (i + 1) * e);
        CHECK(buf.compare(0, exp.size(), exp) == 0, "bytes read from position ", x.pos, " in pieces of ", e); for (size_t i = exp.size(); i < buf.size(); ++i) CHECK(buf[i] == '\x5a', "read writes past what it read");
        x.pos += got * e; break;
      }
      case 1: {
        INT64 t = g.chance(1, 4) ? (INT64)N + g.below(5) : g.chance(1, 6) ? -(INT64)g.below(4) : (INT64)g.below(N + 1); int origin = g.one({SEEK_SET, SEEK_CUR, SEEK_END}); INT64 off = origin == SEEK_SET ? t : origin == SEEK_CUR ? t - (INT64)x.pos : remote ? t - (INT64)N : (INT64)N - t;
        int r = x.s->seek(off, origin); bool ok = t >= 0 && t <= (INT64)N; CHECK((r == 0) == ok, "seek to ", t, " of ", N, " gives ", r); if (ok) x.pos = t; sawSeek = true;
        if (g.chance(1, 10) && !remote) CHECK(throwsUima([&] { x.s->seek(0, 77); }), "seek with origin 77 succeeds"); break;
      }
      case 2: CHECK_EQ(x.s->getTotalStreamSizeInBytes(), (INT64)N, "size of the stream"); CHECK_EQ(x.s->howManyBytesAvailable(), (INT64)(N - x.pos), "bytes available"); if (const void * p = x.s->getDataPointer()) CHECK(!memcmp(p, data.data(), N), "data the pointer leads to"); break;
      case 3: x.s->close(); x.open = false; if (!remote) { char b[8]; CHECK(throwsUima([&] { x.s->read(b, es, 1); }), "read after close succeeds"); } break;
      case 4: ss.erase(ss.begin() + (&x - &ss[0])); break;
      case 5: if (big < 3 && g.chance(1, 6)) { ++big; for (size_t i = 0; i < 12; ++i) w.createArray(1 + i % (A_N - 1), 3000, &view); g.label("heaps grew"); } else w.create(g, g.pick(ty), &view); break;
    }
  }
  for (auto & x : ss) if (x.open) { INT64 rest = N - x.pos; CHECK_EQ(x.s->howManyBytesAvailable(), rest, "bytes available at the end of the history"); }
  g.nontrivial(N > 2 && sawRead && sawSeek);
}
PROPERTY("P12", "local", 20000, 400000, "data of more than two bytes is read and sought in") {
  World w; TSOpts t; t.maxTypes = 2; w.open(g, t, {}); CAS * v = w.cas; if (g.flip()) v = w.cas->createView(us("other"));
  int k = g.below(8); std::string data; int es = 1; w.vo.text = T_UNI;
  if (k == 0) { US s = genText(g, g.chance(1, 8) ? 3000 : 40, T_UNI); if (!s.length()) s = us("\xc3\xbcx"); data = u8(s);
    if (g.flip()) v->setDocumentText(UnicodeStringRef(s.getBuffer(), s.length())); else v->setSofaDataString(s, us("text/plain")); g.label("string"); }
  else {
    static const int K[] = {A_BYTE, A_BOOL, A_SHORT, A_INT, A_LONG, A_FLOAT, A_DOUBLE}; int ak = K[k - 1]; es = kindSize(ak); size_t n = g.chance(1, 8) ? 200 + g.below(2000) : g.chance(1, 12) ? 0 : 1 + g.below(12); int a = w.createArray(ak, n, v);
    for (size_t i = 0; i < n; ++i) { MVal x = n < 100 || i < 8 ? w.genElem(g, ak) : w.nodes[a].elems[i % 8]; w.setElem(a, i, x);
      switch (ak) { case A_BYTE: case A_BOOL: data += (char)x.i; break; case A_SHORT: { int16_t y = x.i; data.append((char *)&y, 2); break; } case A_INT: { int32_t y = x.i; data.append((char *)&y, 4); break; } case A_LONG: { int64_t y = x.i; data.append((char *)&y, 8); break; } case A_FLOAT: { float y = x.f; data.append((char *)&y, 4); break; } default: { double y = x.d; data.append((char *)&y, 8); } } }
    v->setSofaDataArray(w.fs(a), us("app/x")); g.label(cat("array ", ak)); if (!n) g.label("empty array"); }
  useStreams(g, w, *v, data, es, false);
}
PROPERTY("P12", "remote", 12000, 300000, "data of more than two bytes is read and sought in") {
  World w; TSOpts t; t.maxTypes = 1; w.open(g, t, {});
  STORE.clear(); SERVED = Served(); std::string data; size_t n = g.chance(1, 8) ? g.below(3000) : g.below(60); for (size_t i = 0; i < n; ++i) data += (char)g.below(256);
  std::string path = g.one<std::string>({"//x", "///tmp/a b", "opaque", "//h/\xc3\xa4", "//a:b", "", "\xe2\x82\xac?q#f", "a:/b", "x:y", "h:8080//x", ":", ":/", "vt-two:/z", "/p:q:r"}); std::string uri = g.one<std::string>({"vt:", "vt-two:", "file:"}) + path; STORE[uri] = data; if (g.flip()) STORE[uri + "x"] = data + "x";
  CAS * v = w.cas; if (g.flip()) v = w.cas->createView(us("other"));
  if (g.chance(1, 10)) { std::string bad = g.one<std::string>({"unknown:x", "nocolon", ":x", "VT:x", "vt"}); v->setSofaDataURI(us(bad), us("a/b")); std::unique_ptr<SofaDataStream> s(v->getSofaDataStream()); CHECK(s.get(), "no stream for a URI"); CHECK(throwsUima([&] { s->open(); }), "a stream opens for ", bad); g.label("no handler"); return; }
  v->setSofaDataURI(us(uri), us("a/b")); useStreams(g, w, *v, data, 1, true); CHECK_EQ(SERVED.uri, uri, "URI the handler gets"); CHECK_EQ(SERVED.live, 0, "stream handlers not deleted"); CHECK_EQ(SERVED.made, SERVED.opened, "handlers opened"); CHECK(SERVED.closed >= SERVED.opened, "a stream is not closed");
  { CAS * e = w.cas->createView(us("empty")); CHECK(!e->getSofaDataStream(), "a stream for a sofa without data"); }
}
